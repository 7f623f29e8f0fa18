"""C21: known pairs are validated, kept as given, and part of every trial fit."""
from .cal import *
from .c14 import Ransac, TABLE as FITTING, settled
from pyvc.loops import LoopInv
from pyvc.npmodel import isnan


class SetKnown(Contract):
    qual = CAL + ".set_known_pairs"
    pix, wave = ("nd", "f"), ("nd", "f")
    before = True

    def setup(self, c):
        kw = {}
        if self.before:
            kw.update(pix_known=c.nd("old_pix", "f", c.int("n_old", 0)), wave_known=c.nd("old_wave", "f", c.int("n_old", 0)))

        def arg(name, how):
            kind, t = how
            return sym(c, name, t) if kind == "scalar" else (c.list if kind == "list" else c.nd)(name, t, c.int("n_" + name, 0))
        return {"self": calibrator_object(c, **kw), "pix": arg("pix", self.pix), "wave": arg("wave", self.wave)}

    def given(self, c, name):
        v = c.a[name]
        if is_scalar(v):
            return Seq(1, lambda k: v, "f")
        return c.oldseq(v)

    def modifies(self, c):
        return [("fld", c.a["self"], f) for f in ("pix_known", "wave_known")]

    def raises(self, c, et):
        # what was set before stays
        forms = []
        for l in ("pix_known", "wave_known"):
            a, b = c.val(c.fld(c.a["self"], l, c.old), c.old), c.val(c.fld(c.a["self"], l))
            forms.append(same(a, b) or (a is not None and b is not None and seq_equal_form(c, c.seq(a, c.old), c.seq(b))))
        P, W = self.given(c, "pix"), self.given(c, "wave")
        if et == "AssertionError":
            ok = compare("!=", P.n, W.n)
        elif et == "ValueError":
            bad = lambda S: c.exists(S.n, lambda k: zbool(isnan(S.at(k))))
            ok = lor(bad(P), bad(W))
        else:
            return False
        return [("refused only for unequal lengths or a value that is no number", ok), ("the earlier pairs are kept", land(*forms))]

    def ensures(self, c):
        s = c.a["self"]
        P, W = self.given(c, "pix"), self.given(c, "wave")
        for n, S in (("pix_known", P), ("wave_known", W)):
            v = c.val(c.fld(s, n))
            ok = isinstance(v, Ref) and isinstance(c.seq(v), Seq)
            yield "%s is a sequence" % n, ok
            if not ok:
                continue
            K = c.seq(v)
            yield "%s are as many as given" % n, compare("==", K.n, S.n)
            yield "%s are those given, in order" % n, c.forall(S.n, lambda k: zbool(compare("==", K.at(k), S.at(k))))
            yield "%s are floats" % n, K.dt == "f"
            yield "%s are numbers" % n, c.forall(S.n, lambda k: zbool(lnot(isnan(S.at(k)))))
        yield "as many pixels as wavelengths", compare("==", P.n, W.n)


class Trial(Ransac):
    """every polynomial tried passes through drawn pairs and all the known ones"""
    known = True

    def raises(self, c, et):
        return True

    def ensures(self, c):
        return []

    def hooks(self, c):
        E = c.E
        me = c.a["self"]

        def at(s, fn):
            keep, c.st = c.st, s
            try:
                return fn()
            finally:
                c.st = keep

        def arrays(s):
            if "x" not in s.env or "y" not in s.env:
                raise Unsupported("the candidate pairs are not at hand")
            return [c.seq(settled(s, s.env[v]), s) for v in ("x", "y")]

        def is_pair(s, p, w):
            X, Y = arrays(s)
            return c.exists_hint(X.n, lambda j: land(compare("==", p, X.at(j)), compare("==", w, Y.at(j))), c.positions(Y.at, w) + c.positions(X.at, p))

        def tried(E, st, fam, xs, ys, d):
            def forms():
                K, V = (c.seq(c.val(c.fld(me, l, c.old), c.old), c.old) for l in ("pix_known", "wave_known")) if self.known else [Seq(0, lambda k: 0, "f")] * 2
                m = arith("-", xs.n, K.n)
                yield "degree of the fit", compare("==", d, c.a["fit_deg"])
                yield "pairs are drawn besides the known ones", compare(">=", m, 0)

                def held(known, drawn):
                    return land(c.forall(K.n, lambda j: land(compare("==", xs.at(known(j)), K.at(j)), compare("==", ys.at(known(j)), V.at(j)))),
                                c.forall(m, lambda j: is_pair(st, xs.at(drawn(j)), ys.at(drawn(j)))))
                # after the drawn pairs, or before them
                yield "all the known pairs, each with its wavelength, besides candidate pairs", lor(
                    held(lambda j: arith("+", m, j), lambda j: j), held(lambda j: j, lambda j: arith("+", K.n, j)))
            for name, f in at(st, lambda: list(forms())):
                E.oblige("trial fit: %s" % name, st, f, "hook", "polyfit")
            c.d["tried"] = True
        E.hooks["polyfit"] = [tried]

        def loop(E, node, st, locs, seq):
            lists = [l[1] for l in locs if l[0] == "heap" and isinstance(st.heap.get(l[1]), HSeq)]
            names = {l[1] for l in locs if l[0] == "env"}
            if "best_p" in names or "x" not in st.env:
                return None
            if isinstance(seq, Seq) and len(lists) == 1 and same(st.heap[lists[0]].seq.n, 0):
                # the draw of a line for each of the peaks drawn
                L = lists[0]
                flags = [v for v in names if st.env.get(v) is False]

                def inv(E, s, k):
                    q = s.heap[L].seq
                    yield "a line for each peak so far", compare("==", q.n, k)
                    yield "each a candidate line of its peak", at(s, lambda: c.forall(k, lambda t: is_pair(s, seq.at(t), q.at(t))))
                    for v in flags:
                        yield "%s is not set" % v, lnot(zbool(s.env[v]))

                def out(E, s, n):
                    q = s.heap[L].seq
                    whole = land(compare("==", q.n, n), at(s, lambda: c.forall(n, lambda t: is_pair(s, seq.at(t), q.at(t)))))
                    yield "a candidate line for each peak, or it is noted that there is none", lor(whole, *[zbool(s.env[v]) for v in flags])
                return LoopInv("drawn lines", inv, out)
            if seq is None and len(names) == 1 and not lists:
                # a line is drawn again
                v = list(names)[0]
                if is_z(st.env.get(v)) and st.env[v].sort() == z3.RealSort() and "_x" in st.env:
                    return LoopInv("redrawn", lambda E, s, k: [("a candidate line of the peak", at(s, lambda: is_pair(s, s.env["_x"], s.env[v])))])
            return None
        E.loop_invariant = loop


TABLE = FITTING
_f, _i = ("nd", "f"), ("nd", "i")
CONTRACTS = [SetKnown(case="arrays"), SetKnown(case="first arrays", before=False), SetKnown(case="lists", pix=("list", "f"), wave=("list", "f")),
             SetKnown(case="integer lists", pix=("list", "i"), wave=("list", "i")), SetKnown(case="integer arrays", pix=_i, wave=_i),
             SetKnown(case="integer pixels, wavelengths in an array", pix=("list", "i"), wave=_f),
             SetKnown(case="numbers", pix=("scalar", "f"), wave=("scalar", "f")), SetKnown(case="integers", pix=("scalar", "i"), wave=("scalar", "i")),
             SetKnown(case="number and list", pix=("scalar", "f"), wave=("list", "f")),
             Trial(case="drawn and known"), Trial(case="drawn and known, close lines left out", close=True), Trial(case="combinations and known", brute=True), Trial(case="drawn only", known=False),
             Trial(case="combinations only", brute=True, known=False)]
