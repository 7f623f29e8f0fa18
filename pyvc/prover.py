"""Obligations and back ends (z3, cvc5), run as separate processes on SMT-LIB text."""
import hashlib, multiprocessing, os, re, subprocess, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor
import z3
from .terms import *

TOOLS = {}


def _tool(*names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    return None


class Fact:
    __slots__ = ("form", "keys", "why", "need_all")

    def __init__(self, form, keys, why):
        self.form, self.keys, self.why = form, frozenset(keys), why
        self.need_all = False


class Obligation:
    def __init__(self, name, hyps, goal, facts, where="", kind="post", timeout=None):
        self.name, self.hyps, self.goal, self.facts = name, hyps, goal, facts
        self.where, self.kind = where, kind
        self.status = None
        self.backend = None
        self.time = 0.0
        self.detail = ""
        self.timeout = timeout
        self.expect_fail = False


def cone(seed_forms, facts):
    """facts whose defined symbols are reachable from the formulas"""
    syms = set()
    for f in seed_forms:
        syms |= consts_of(f)
    inc = []
    todo = list(facts)
    changed = True
    while changed:
        changed = False
        rest = []
        for f in todo:
            if (f.keys <= syms) if f.need_all else (f.keys & syms):
                inc.append(f)
                syms |= consts_of(f.form)
                changed = True
            else:
                rest.append(f)
        todo = rest
    return inc, syms


def base_facts(syms):
    out = []
    x = z3.Real("x")
    y = z3.Real("y")
    n = z3.Int("n")
    if "div0" in syms:
        out.append(z3.ForAll([x], z3.Or(DIV0(x) >= PINF, DIV0(x) <= -PINF), patterns=[DIV0(x)]))
        out.append(PINF > 0)
    if "sqrt_" in syms:
        out.append(z3.ForAll([x], z3.Implies(x >= 0, z3.And(SQRT(x) >= 0, SQRT(x) * SQRT(x) == x)), patterns=[SQRT(x)]))
    if "ipow" in syms:
        out.append(z3.ForAll([x], IPOW(x, 0) == 1, patterns=[IPOW(x, 0)]))
        out.append(z3.ForAll([x], IPOW(x, 1) == x, patterns=[IPOW(x, 1)]))
    if "nan_value" in syms:
        out.append(ISNAN(NANV))
        out.append(z3.Not(ISFIN(NANV)))
    if "isnan" in syms or "isfinite" in syms:
        out.append(z3.ForAll([x], z3.Implies(ISNAN(x), z3.Not(ISFIN(x))), patterns=[ISNAN(x)]))
    lits = [c for s, c in STRLITS.items() if ("str:" + s) in syms]
    if len(lits) > 1:
        out.append(z3.Distinct(*lits))
    return out


def smt2(ob):
    hyps = [h for h in ob.hyps if not isinstance(h, bool)]
    goal = ob.goal if not isinstance(ob.goal, bool) else z3.BoolVal(ob.goal)
    inc, syms = cone(hyps + [goal], ob.facts)
    s = z3.Solver()
    for b in base_facts(syms):
        s.add(b)
    for f in inc:
        s.add(f.form)
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    txt = s.to_smt2()
    return txt, len(inc)


def _run(cmd, text, timeout):
    t0 = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
        fn = f.name
    try:
        p = subprocess.run(cmd + [fn], capture_output=True, text=True, timeout=timeout + 2)
        out = p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        out = "timeout"
    finally:
        os.unlink(fn)
    lines = [l.strip() for l in out.strip().split("\n")]
    first = next((l for l in lines if l in ("sat", "unsat", "unknown", "timeout")), lines[0])
    return first, out, time.time() - t0


def backends(timeout):
    zn = _tool("z3-new", "z3")
    z4 = _tool("z3")
    c5 = _tool("cvc5")
    L = []
    if zn:
        L.append(("z3-new/ematch", [zn, "-T:%d" % timeout, "auto_config=false", "smt.mbqi=false", "smt.relevancy=0"]))
        L.append(("z3-new/relevancy", [zn, "-T:%d" % timeout, "auto_config=false", "smt.mbqi=false", "smt.case_split=3"]))
        L.append(("z3-new", [zn, "-T:%d" % timeout]))
    if c5:
        L.append(("cvc5", [c5, "--tlimit=%d" % (timeout * 1000), "-q", "--full-saturate-quant"]))
    if z4 and z4 != zn:
        L.append(("z3-4.8", [z4, "-T:%d" % timeout, "auto_config=false", "smt.mbqi=false"]))
    return L


# obligations every back end has given up on in full time, over all processes of a check:
# once there is one the check has its answer, and the others are given less time
FAILED = multiprocessing.Value("i", 0)


def discharge(ob, timeout=10, want=None):
    g = ob.goal
    if (isinstance(g, bool) and g) or (z3.is_expr(g) and z3.is_true(g)):
        ob.status, ob.backend = "proved", "trivial"
        return ob
    try:
        txt, nf = ob.text
    except Exception as e:  # pragma: no cover
        ob.status, ob.detail = "error", repr(e)
        return ob
    ob.detail = ""
    tmo = ob.timeout or timeout
    # a short round first: what one back end does not settle another often does at once
    for t in ([3, tmo] if tmo > 4 else [tmo]):
        tools = backends(t)
        if t == tmo and len(tools) > 1:
            tools[0], tools[1] = tools[1], tools[0]
        for i, (name, cmd) in enumerate(tools):
            if FAILED.value and (t == tmo or i > 1):
                ob.detail += "given up early, another obligation has failed in full time; "
                ob.status = "undischarged"
                return ob
            if want and want not in name:
                continue
            first, out, dt = _run(cmd, txt, t)
            ob.time += dt
            if first == "unsat":
                ob.status, ob.backend = "proved", name
                return ob
            if first == "sat":
                ob.status = "refuted"
                FAILED.value += 1
                ob.backend = name
                ob.detail += "%s: sat; " % name
                return ob
            if t == tmo:
                ob.detail += "%s: %s (%.1fs); " % (name, first[:80] or "no answer", dt)
    ob.status = "undischarged"
    FAILED.value += 1
    return ob


def discharge_all(obs, timeout=10, jobs=8):
    # terms are not thread safe: produce all the texts first
    for ob in obs:
        g = ob.goal
        if (isinstance(g, bool) and g) or (z3.is_expr(g) and z3.is_true(g)):
            ob.text = ("", 0)
        else:
            ob.text = smt2(ob)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda o: discharge(o, timeout), obs))
    return obs


def vacuity(ob, timeout=3):
    """True when the hypotheses are contradictory"""
    txt = ob.text[0]
    b = backends(timeout)
    for name, cmd in b[:1]:
        first, out, dt = _run(cmd, txt, timeout)
        if first == "unsat":
            return True
    return False
