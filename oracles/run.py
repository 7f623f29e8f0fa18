"""Bounded search for a failing input on the real code (stand-in and replay).

python run.py Cxx --seed S --seconds T --out FILE      search
python run.py Cxx --case FILE                          replay one case
"""
import argparse, importlib, json, os, sys, time, traceback, warnings, logging, random
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.filterwarnings("ignore")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
src = os.environ.get("RASCAL_SRC", "/repo/src")
sys.path.insert(0, src)


class Timeout(BaseException):
    pass


def run_case(mod, case, limit=20):
    """None or a description of the failure"""
    import signal

    def alarm(sig, frm):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        return mod.check(case)
    except Timeout:
        if getattr(mod, "TIMEOUT_OK", False):
            return None
        return "no result within %d s" % limit
    except Exception as e:
        return "exception %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=8)
    ap.add_argument("--out")
    ap.add_argument("--case")
    ap.add_argument("--nofixed", action="store_true")
    a = ap.parse_args()
    logging.disable(logging.CRITICAL)
    import numpy as np
    import rascal.calibrator, rascal.atlas, rascal.util, rascal.houghtransform, rascal.models, rascal.synthetic
    assert os.path.realpath(rascal.util.__file__).startswith(os.path.realpath(src)), rascal.util.__file__
    np.seterr(all="ignore")
    mod = importlib.import_module("oracles." + a.prop.lower())
    if a.case:
        case = json.load(open(a.case))
        case = case.get("case", case)
        r = run_case(mod, case)
        print("FAILS: %s" % r if r else "holds")
        sys.exit(1 if r else 0)
    rng = random.Random(a.seed)
    t0 = time.time()
    res = {"evaluations": 0, "nontrivial": 0, "samples": [], "failure": None, "known": []}
    seen = set()

    def do(case):
        key = json.dumps(case, sort_keys=True)
        res["evaluations"] += 1
        nt = getattr(mod, "nontrivial", lambda c: True)(case)
        if nt and key not in seen:
            seen.add(key)
            res["nontrivial"] += 1
            if len(res["samples"]) < 3 and len(key) < 1500:
                res["samples"].append(case)
        # the case as it comes back from the replay file
        r = run_case(mod, json.loads(key))
        if r:
            k = getattr(mod, "known", lambda c, m: None)(case, r)
            if k:
                if k not in res["known"]:
                    res["known"].append(k)
                return False
            res["failure"] = {"case": case, "message": r}
            return True
        return False

    fixed = [] if a.nofixed else list(mod.fixed())
    stop = False
    for case in fixed:
        if do(case):
            stop = True
            break
    n = 0
    lo = getattr(mod, "MIN_CASES", 20)
    while not stop and (time.time() - t0 < a.seconds or n < lo) and time.time() - t0 < 6 * a.seconds + 60:
        if do(mod.generate(rng)):
            stop = True
        n += 1
    res["seconds"] = time.time() - t0
    with open(a.out, "w") as f:
        json.dump(res, f, default=str)


if __name__ == "__main__":
    main()
