#!/usr/bin/env python3
"""C08: element-wise expressions, fused forms, compound assignments, user functions and conversions over combinations of
view forms, types and sizes, checked against spec/ElementwiseTrace."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK, lv

VC = "dddd dsnd sdcs nrdn cuss ucrd rnnc uddu".split()
MC = "dddd dcds cdct sdtd ttst cccc qsqc tqdd".split()
ZV, ZM = "zddd dzzd zzsz".split(), "zddd dzzs zzsz".split()
TC = "0123 1450 2s00 3t40 4235 5501 s0ts t30t 0000 3333 s555".split()
ARITH = list(range(0, 40)) + list(range(50, 58))
REAL, INTS, CX = list(range(60, 76)), list(range(80, 90)), list(range(90, 103))
FN1 = "acos asin atan cos cosh exp exp10 log log10 recip rsqrt sin sinh sqrt tan tanh ceil floor mag sq".split()
FN2 = "atan2 fmod hypot pow div".split()
FNC = "cos cosh exp log log10 recip sin sinh sqrt sq conj".split()


class G:
    def __init__(self, rng): self.rng = rng
    def v(self, n, lo=-9, hi=9): return [self.rng.randint(lo, hi) for _ in range(n)]

    def size(self):
        r = self.rng
        return r.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, r.randint(1, 12), r.randint(18, 40)])

    def dims(self, d):
        r = self.rng
        if d == 1: return [self.size()]
        if d == 2: return [r.randint(1, 6), r.choice([1, 2, 3, 4, 5, 8, 9])]
        return [r.randint(1, 4) for _ in range(3)]

    def ew(self, code=None):
        r = self.rng
        g = r.choice("iifffdzzzzrbvT")
        D = 1 if g == "d" else 3 if g == "T" else r.choice([1, 2])
        d = self.dims(D)
        n = 1
        for x in d: n *= x
        cs = list(VC if D == 1 else MC if D == 2 else TC)
        w = 1
        if g == "z": cs += (ZV if D == 1 else ZM) * 2
        if g == "r": cs += (["dzzd", "szds"] if D == 1 else ["dzzs", "czdc"]) * 2
        combo = r.choice(cs)
        if g == "T": code = r.choice([0, 3, 6, 7, 16, 17, 21, 25, 26, 30, 19, 28])
        elif g == "i": code = r.choice(ARITH + REAL + INTS)
        elif g in "fd": code = r.choice(ARITH + REAL)
        elif g == "z": code = r.choice(ARITH + CX * 2)
        elif g == "r": code = r.randint(110, 121)
        elif g == "b": code = r.randint(130, 149)
        else: code = r.randint(160, 178)
        if code in (101, 102) and False: pass
        dd, a, b, c = self.v(n), self.v(n), self.v(n), self.v(n)
        if g == "z" or g == "v" and code >= 170: dd = self.v(2 * n)
        if g == "z": a, b, c = self.v(2 * n), self.v(2 * n), self.v(2 * n)
        if g == "r":
            a, b = self.v(2 * n), self.v(2 * n)
            if code == 116:   # divides by |a|
                a = [x or 1 for x in a]
        if g == "b":
            dd = [x & 1 for x in dd]
            if r.random() < .4: b = [x if r.random() < .5 else y for x, y in zip(a, b)]
        if code in (64, 65, 66, 67):
            if g == "i": b = [x or 3 for x in b]
            else:
                b = [r.choice([1, -1, 2, -2, 4]) for _ in b]
                a, dd = [4 * x for x in a], [4 * x for x in dd]
        if code in (73, 63) and r.random() < .7: b = [x if r.random() < .5 else y for x, y in zip(a, b)]
        if code in INTS and r.random() < .3: a = self.v(n, -30000, 30000)
        return "ew %s %d %s %s %s %s %s %s" % (g, code, combo, lv(d), lv(dd), lv(a), lv(b), lv(c))

    def fn(self):
        r = self.rng
        T = r.choice("ffddzzea")
        n = r.choice([1, 3, 4, 8, 9, 11])
        fs = "dsnc" if T in "fde" else "dsncz"
        gs = "dsnc" if T in "fda" else "dsncz"
        if T in "fd":
            fn = r.choice(FN1 + FN2)
            lo, hi = {"acos": (-10, 10), "asin": (-10, 10), "cosh": (-40, 40), "sinh": (-40, 40), "exp": (-40, 40), "exp10": (-20, 20), "log": (1, 99), "log10": (1, 99),
                      "sqrt": (0, 99), "rsqrt": (1, 99), "recip": (3, 99), "tan": (-13, 13), "pow": (1, 40), "fmod": (1, 99), "ceil": (-99, 99), "floor": (-99, 99)}.get(fn, (-60, 60))
            x = [r.randint(lo, hi) for _ in range(n)]
            y = [r.randint(-15, 15) if fn == "pow" else r.choice([-1, 1]) * r.randint(7, 60) for _ in range(n)]
            if fn == "fmod":   # keep away from the jumps
                x = [x // 10 * 10 + 5 for x in x]; y = [r.choice([-1, 1]) * r.choice([20, 40, 30]) for _ in range(n)]
            if fn in ("ceil", "floor"): x = [v if v % 10 else v + 5 for v in x]
        elif T == "e": fn, x, y = "euler", self.v(n, -60, 60), []
        elif T == "a": fn, x, y = r.choice(["arg", "mag"]), [v or 4 for v in self.v(2 * n, -60, 60)], []
        else:
            fn = r.choice(FNC)
            x, y = [v or 5 for v in self.v(2 * n, -30, 30)], []
        return "fn %s %s %s %s %s %s" % (fn, T, r.choice(fs), r.choice(gs), lv(x), lv(y))


def run(c):
    exe = vlib.build("c08", ["c08_main.cpp"] + [("c08_reg.cpp", ["-DPART=%d" % i], str(i)) for i in range(1, 13)], variant="plain0")
    c.model("ElementwiseMC", "ElementwiseMC" if QUICK else "ElementwiseMC_all", timeout=1200)
    g = G(c.rng)
    n = 1200 if QUICK else 30000
    c.conform(exe, "ElementwiseTrace", ["begin\n" + "\n".join([g.ew() for _ in range(10)] + [g.fn()]) for i in range(n)])
    c.assumptions += ["operands are the destination view itself or do not overlap it",
                      "values are small integers (halves in conversions); inexact functions are compared with the C++ scalar functions to four digits, "
                      "accuracy beyond that is outside (C22)"]


vlib.main(run, "C08")
