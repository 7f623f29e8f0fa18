"""fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json"""
import json, glob, os, re
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(D + "/tools/caught.json")) if os.path.exists(D + "/tools/caught.json") else {}
rows = ["| change | property | what it breaks | caught |", "|---|---|---|---|"]
for f in sorted(glob.glob(D + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/").split("\n")[0][:160], caught.get(i, "?")))
t = open(D + "/DESIGN.md").read()
new = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "@SEEDS@" in t:
    t = t.replace("@SEEDS@", new)
else:
    t = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: new, t, flags=re.S)
open(D + "/DESIGN.md", "w").write(t)
