"""Writes MANIFEST.json from what exists in contracts/ and oracles/."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C23": "termination of the RANSAC loop depends on the redraw loop inside a try (which has no variant: it may redraw for ever when no admissible draw exists); a partial-correctness contract cannot decide it, and a total one fails for want of a fairness assumption on numpy's generator",
    "C24": "determinism is a relation between two runs and rests on the hidden state of numpy's global generator and on scipy; the contracts here speak about one run with the generator's draws as arbitrary values, so they can neither express nor decide it",
    "C25": "recovering the true solution is a statistical, numerical statement about random draws, curve_fit and floating point; no contract within reach of the first-order back ends expresses or decides it",
}
NOTE = json.load(open(os.path.join(H, "tools", "notes.json"))) if os.path.exists(os.path.join(H, "tools", "notes.json")) else {}
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    if not os.path.exists(os.path.join(H, "contracts", p.lower() + ".py")):
        na.append({"property": p, "reason": "not claimed: no contract has been completed for it yet"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "contracts on the functions of /repo, obligations generated from the current Python source by symbolic execution and discharged by z3/cvc5; seeded search on the real code supplies the failing input",
        "level": "proof",
        "level_note": NOTE.get(p, "All obligations of the contracts discharged for all inputs, floats as reals; the numpy/scipy models and the generator are trusted."),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "No hooks. fix: commits are listed in known_findings.txt."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
