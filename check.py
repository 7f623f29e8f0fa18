#!/usr/bin/env python3
"""Decide one property on /repo's current source.

  check.py Cxx [--tier quick|thorough] [--src DIR]

1. The contracts of contracts/cxx.py are verified: the functions are parsed from
   /repo/src on this run, the obligations generated and given to z3 and cvc5.
2. oracles/cxx.py searches inputs of the real code for a failing one, in parallel;
   it supplies the replayable input of a violation, and stands in (bounded, labelled
   so) for a function that left the subset the generator reads.
Exit 0: held.  Exit 1: VIOLATION line printed.
"""
import argparse, importlib, json, multiprocessing as mp, os, subprocess, sys, time, traceback, hashlib, shutil, glob

HERE = os.path.dirname(os.path.abspath(__file__))
VTPY = "/opt/veriftools/pyvenv/bin/python"
RPY = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv") and os.path.exists(VTPY) and not os.environ.get("VERIF_CHILD"):
    os.environ["VERIF_CHILD"] = "1"
    os.execv(VTPY, [VTPY, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def modname(p):
    return p.lower()


def work(args):
    """verify one contract in its own process"""
    prop, idx, src, timeout = args
    sys.setrecursionlimit(20000)
    try:
        from pyvc.contract import verify
        m = importlib.import_module("contracts." + modname(prop))
        k = m.CONTRACTS[idx]
        table = {x.qual: x for x in getattr(m, "TABLE", [])}
        return verify(src, k, table, timeout=timeout, jobs=2)
    except Exception:
        # the machinery could not read the code: the same as leaving the subset
        m = importlib.import_module("contracts." + modname(prop))
        k = m.CONTRACTS[idx]
        return {"label": k.label, "qual": k.qual, "unsupported": "internal: " + traceback.format_exc()[-600:],
                "missing": False, "functions": [], "assumed": [], "called": [], "notes": [], "obligations": [],
                "vacuous": [], "gen_time": 0.0, "solve_time": 0.0}


def _child(q, args):
    q.put(work(args))


def run_contracts(prop, idxs, src, timeout, jobs, limit):
    """each contract in a process of its own, with a wall limit"""
    out, todo, live = {}, list(idxs), {}
    ctx = mp.get_context("fork")
    m = importlib.import_module("contracts." + modname(prop))
    while todo or live:
        while todo and len(live) < jobs:
            i = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=_child, args=(q, (prop, i, src, timeout)))
            p.start()
            live[i] = (p, q, time.time())
        for i, (p, q, t0) in list(live.items()):
            try:
                out[i] = q.get(timeout=0.03)
                p.join()
                del live[i]
                continue
            except Exception:
                pass
            if time.time() - t0 > limit or not p.is_alive():
                if not p.is_alive():
                    try:
                        out[i] = q.get(timeout=1)
                        del live[i]
                        continue
                    except Exception:
                        pass
                p.kill()
                p.join()
                k = m.CONTRACTS[i]
                out[i] = {"label": k.label, "qual": k.qual,
                          "unsupported": "no verification conditions within %d s" % limit, "missing": False,
                          "functions": [], "assumed": [], "called": [], "notes": [], "obligations": [],
                          "vacuous": [], "gen_time": time.time() - t0, "solve_time": 0.0}
                del live[i]
    return [out[i] for i in idxs]


def has_module(kind, prop):
    return os.path.exists(os.path.join(HERE, kind, modname(prop) + ".py"))


class Oracle:
    def __init__(self, prop, seed, seconds, src, extra=()):
        self.out = os.path.join(HERE, "replays", ".oracle_%s_%d_%d.json" % (prop, os.getpid(), seed))
        env = dict(os.environ, RASCAL_SRC=src, PYTHONDONTWRITEBYTECODE="1", MPLCONFIGDIR=os.environ.get("MPLCONFIGDIR", "/tmp/.mplverif"))
        self.seed, self.seconds = seed, seconds
        self.p = subprocess.Popen([RPY, os.path.join(HERE, "oracles", "run.py"), prop, "--seed", str(seed),
                                   "--seconds", str(seconds), "--out", self.out] + list(extra),
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)

    def result(self, limit=None):
        try:
            so, se = self.p.communicate(timeout=limit or (self.seconds * 8 + 240))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.communicate()
            return {"evaluations": 0, "nontrivial": 0, "samples": [], "failure": None, "known": [], "error": "no answer", "seconds": 0}
        try:
            r = json.load(open(self.out))
        except Exception:
            return {"evaluations": 0, "nontrivial": 0, "samples": [], "failure": None, "known": [], "error": (so + se)[-1500:], "seconds": 0}
        finally:
            if os.path.exists(self.out):
                os.unlink(self.out)
        r["error"] = None
        return r


def known_findings():
    L = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN "):
                # KNOWN property=Cxx obligation=<name prefix> :: text
                h, _, text = l[6:].partition(" :: ")
                d = dict(x.split("=", 1) for x in h.split(" | "))
                d["text"] = text
                L.append(d)
    return L


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="setup: the tools are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--src", default="/repo/src")
    ap.add_argument("--no-oracle", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        import z3
        from pyvc import contract, prover
        ok = all(prover._tool(t) for t in ("z3", "cvc5")) and os.path.exists(RPY)
        print("tools", "present" if ok else "MISSING")
        sys.exit(0 if ok else 2)
    prop, tier, src = a.prop, a.tier, a.src
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    thorough = tier == "thorough"
    osec = 120 if thorough else 10
    nor = 4 if thorough else 2
    oracles = []
    if has_module("oracles", prop) and not a.no_oracle:
        oracles = [Oracle(prop, seed + 1000 * i, osec, src, ["--nofixed"] if i else []) for i in range(nor)]

    # ------------------------------------------------ contracts
    kmod = importlib.import_module("contracts." + modname(prop)) if has_module("contracts", prop) else None
    res = []
    tmo = 40 if thorough else 15
    jobs = 4
    if kmod is not None:
        res = run_contracts(prop, range(len(kmod.CONTRACTS)), src, tmo, jobs, 600 if thorough else 240)
    note = lambda t: print("%s: %.0f s" % (t, time.time() - t0), file=sys.stderr)
    note("contracts")
    orr = [o.result() for o in oracles]
    note("search")
    if kmod is not None and not any(x["failure"] for x in orr):
        # a second attempt for what a loaded machine may have cut short
        again = [i for i, r in enumerate(res) if any(o["status"] not in ("proved", "refuted") for o in r["obligations"])
                 or (r["unsupported"] or "").startswith("no verification conditions")]
        if again and time.time() - t0 < 400:
            from pyvc import prover
            prover.FAILED.value = 0
            for i in again:
                if time.time() - t0 > 600:
                    break
                r = run_contracts(prop, [i], src, tmo + 10, 4, 200)[0]
                if not r["unsupported"]:
                    res[i] = r
                    if any(o["status"] != "proved" for o in r["obligations"]):
                        break  # one that stands after a second look is enough

    note("judging")
    # ------------------------------------------------ judge
    findings = [f for f in known_findings() if f["property"] == prop]
    known_hit = {}
    bad = []
    unsupported = [r for r in res if r["unsupported"]]
    missing = [r for r in res if r["missing"]]
    for r in res:
        for o in r["obligations"]:
            if o["status"] != "proved":
                kf = next((f for f in findings if f.get("obligation") and o["name"].startswith(f["obligation"])), None)
                if kf:
                    known_hit[kf["text"]] = True
                    o["status"] = "known-finding"
                else:
                    bad.append((r, o))
        for v in r["vacuous"]:
            bad.append((r, {"name": "%s: %s" % (r["label"], v), "kind": "vacuity", "status": "contradictory hypotheses",
                            "backend": None, "time": 0, "detail": "the hypotheses at this point are contradictory", "where": ""}))
    failure = next((x["failure"] for x in orr if x["failure"]), None)
    deep = []
    if failure is None and (bad or unsupported or missing) and has_module("oracles", prop) and not a.no_oracle:
        # look for a failing input before reporting a failed obligation; the same
        # deeper search is the bounded stand-in for what left the subset
        dsec = 240 if thorough else 75
        os_ = [Oracle(prop, seed + 7919 * (i + 1), dsec, src, ["--nofixed"]) for i in range(6)]
        deep = [o.result() for o in os_]
        failure = next((x["failure"] for x in deep if x["failure"]), None)
    for x in orr + deep:
        for k in x["known"]:
            kf = next((f for f in findings if f.get("key") == k), None)
            if kf:
                known_hit[kf["text"]] = True
            else:
                failure = failure or {"case": None, "message": "finding key %s not in known_findings.txt" % k}

    viol = 0
    lines = []
    for f in findings:
        if f["text"] in known_hit or f.get("always"):
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, f["text"]))
    names = [o["name"] for r, o in bad]
    # a solver answer is an alarm; an obligation no back end settles is one as well
    if failure is not None:
        viol = 1
        path = os.path.join(HERE, "replays", "%s.json" % prop)
        json.dump({"property": prop, "case": failure["case"], "message": failure["message"],
                   "failed_obligations": names, "replay": "%s oracles/run.py %s --case %s" % (RPY, prop, path)},
                  open(path, "w"), indent=1)
        lines.append("failing input: %s" % str(failure["message"])[:600])
        for n in names[:10]:
            lines.append("failed obligation: %s" % n)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    elif bad:
        viol = 1
        path = os.path.join(HERE, "replays", "%s.obligation.json" % prop)
        json.dump({"property": prop, "failed_obligations": [{k: v for k, v in o.items()} for r, o in bad],
                   "note": "no failing input was found by the search; the verifier's output and the SMT-LIB text of each obligation are above"},
                  open(path, "w"), indent=1)
        for r, o in bad[:10]:
            lines.append("failed obligation: %s: %s %s" % (o["status"], o["name"], o["detail"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    nob = sum(len(r["obligations"]) for r in res)
    ndis = sum(o["status"] == "proved" for r in res for o in r["obligations"])
    back = {}
    for r in res:
        for o in r["obligations"]:
            if o["backend"]:
                back[o["backend"]] = back.get(o["backend"], 0) + 1
    degraded = bool(unsupported or missing)
    oerr = [x["error"] for x in orr if x.get("error")]
    if kmod is None:
        level = "exploration"
    elif degraded:
        level = "other"
    else:
        level = "proof"
    cov = {
        "obligations": nob, "discharged": ndis,
        "checker_cmd": "python3-vt check.py %s --tier %s (generator pyvc/, back ends z3-new, cvc5, z3)" % (prop, tier),
        "trusted_base": [
            "the verification-condition generator pyvc/ (symbolic execution of the Python AST, loop summarisation rules)",
            "the models of numpy, scipy and the standard library in pyvc/npmodel.py",
            "z3 and cvc5"],
        "functions_under_contract": sorted({r["qual"] for r in res}),
        "functions_executed": sorted({f for r in res for f in r["functions"]}),
        "contracts": [{"contract": r["label"], "obligations": len(r["obligations"]),
                       "discharged": sum(o["status"] == "proved" for o in r["obligations"]),
                       "unsupported": r["unsupported"], "missing": r["missing"], "generation_s": round(r["gen_time"], 2),
                       "solving_s": round(r["solve_time"], 2), "called_by_contract": r["called"]} for r in res],
        "obligation_kinds": {k: sum(o["kind"] == k for r in res for o in r["obligations"])
                             for k in sorted({o["kind"] for r in res for o in r["obligations"]})},
        "back_ends": back,
        "solver_s": round(sum(o["time"] for r in res for o in r["obligations"]), 2),
        "evaluations": sum(x["evaluations"] for x in orr + deep),
        "distinct_nontrivial": sum(x["nontrivial"] for x in orr + deep),
        "rule": "bounded search on the real code (oracles/%s.py), not counted as proof: fixed corner cases and seeded random cases, non-trivial as its nontrivial() says" % modname(prop),
        "samples": [s for x in orr + deep for s in x["samples"]][:4],
        "oracle_errors": oerr,
    }
    if level == "other":
        cov["explanation"] = ("%d contract(s) could not be decided on this source, because it left the subset the generator reads (%s); "
                              "a bounded search of %d cases stands in for them" % (
                                  len(unsupported) + len(missing), "; ".join("%s: %s" % (r["label"], r["unsupported"] or "function not found") for r in unsupported + missing)[:800],
                                  cov["evaluations"]))
    assumptions = sorted({x for r in res for x in r["assumed"]}) + list(getattr(kmod, "ASSUMPTIONS", [])) + [
        "machine arithmetic is treated as mathematical: floats as reals with exact arithmetic, integers unbounded"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": viol}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d/%d obligations discharged over %d contracts, %d unsupported, %d missing; %d cases searched; %.0f s" % (
        prop, ndis, nob, len(res), len(unsupported), len(missing), cov["evaluations"], time.time() - t0))
    for r in unsupported:
        print("  left the subset: %s: %s" % (r["label"], r["unsupported"][-300:]))
    for r in missing:
        print("  not found: %s" % r["label"])
    for e in oerr:
        print("  search error: %s" % e[-400:])
    for l in lines:
        print(l)
    sys.exit(1 if viol else 0)


if __name__ == "__main__":
    main()
