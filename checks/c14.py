#!/usr/bin/env python3
"""C14: reductions over vectors, matrices and tensors of every form, and over vectors longer than the summation block,
checked against spec/ReduceTrace."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK, lv

FNS = {"b": ["alltrue", "anytrue", "sumval"],
       "i": ["alltrue", "anytrue", "sumval", "sumsqval", "meanval", "meansqval", "maxval", "minval", "maxmgval", "minmgval"],
       "f": ["sumval", "sumsqval", "meanval", "meansqval", "maxval", "minval", "maxmgval", "minmgval"],
       "z": ["sumval", "sumsqval", "meanval", "meansqval", "maxmgval", "minmgval", "maxmgsqval", "minmgsqval"]}
FNS["d"], FNS["Z"] = FNS["f"], FNS["z"]


class G:
    def __init__(self, rng): self.rng = rng

    def vals(self, n, T, fn):
        rng = self.rng
        if T == "b":
            p = rng.choice([0, 0, .1, .5, .9, 1, 1])
            v = [int(rng.random() < p) for _ in range(n)]
            if rng.random() < .3: v[rng.choice([0, n - 1, rng.randrange(n)])] ^= 1
            return v
        if fn in ("alltrue", "anytrue"):
            base = rng.choice([0, -1, 0x5a5a, 3, 255])
            return [base ^ (1 << rng.randint(0, 14)) if rng.random() < .4 else base for _ in range(n)]
        r = rng.choice([1, 2, 9, 90])
        lo = rng.choice([-r, -r, -r, 1, -3 * r - 1])
        hi = rng.choice([r, r, r, -lo]) if lo < 0 else r
        if lo < -r: hi = -1
        return [rng.randint(lo, max(lo, hi)) for _ in range(n * (2 if T in "zZ" else 1))]

    def red(self):
        rng = self.rng
        T = rng.choice("biifffdzzZ")
        fn = rng.choice(FNS[T])
        d = [rng.randint(1, 12)] if rng.random() < .4 else [rng.randint(1, 5), rng.randint(1, 5)]
        n = d[0] if len(d) == 1 else d[0] * d[1]
        f = rng.choice("dsnc" + "z" * (T in "zZ") if len(d) == 1 else "dcst" + "z" * (T in "zZ"))
        return "red %s %s %s %s %d %s" % (T, fn, lv(d), f, rng.random() < .25 and not (T == "i" and "true" in fn and 0), lv(self.vals(n, T, fn)))

    def ten(self):
        rng = self.rng
        T = rng.choice("biiffzz")
        fn = rng.choice([f for f in FNS[T] if not (T == "i" and "true" in f)])
        d = [rng.randint(1, 3) for _ in range(3)]
        return "ten %s %s %s %s %d %s" % (T, fn, lv(d), rng.choice("012345st"), rng.random() < .15, lv(self.vals(d[0] * d[1] * d[2], T, fn)))

    def big(self, k):
        rng = self.rng
        T = "ffzzpd"[k % 6]
        fn = ["sumval", "sumsqval", "meanval", "meansqval"][(k // 6) % 4]
        n = rng.choice([4095, 4096, 4097, rng.randint(4097, 9000), 8192, 8193])
        # complex means and sums of squares keep below 2^24
        return "big %s %s %d %s %s %s" % (T, fn, n, rng.choice("dsncru" + "z" * (T in "zp")), "e" if T != "p" and rng.random() < .2 else "n",
                                          lv([rng.choice([1, 5, 11, 3]), rng.randint(0, 9), rng.choice([7, 13, 17]), rng.randint(-8, 3)]))


def run(c):
    exe = vlib.build("c14", ["c14_main.cpp"] + [("c14_reg.cpp", ["-DPART=%d" % i], str(i)) for i in range(1, 7)], variant="plain0")
    c.model("ReduceMC", "ReduceMC" if QUICK else "ReduceMC_all", timeout=1200)
    g = G(c.rng)
    n = 1200 if QUICK else 30000
    s = ["begin\n" + "\n".join([g.red() for _ in range(9)] + [g.ten() for _ in range(3)]) for i in range(n)]
    s += ["begin\n" + g.big(i) for i in range(96 if QUICK else 600)]
    c.rng.shuffle(s)
    c.conform(exe, "ReduceTrace", s)
    c.assumptions += ["element values are integers whose sums a float holds exactly; NaN and rounding of sums are not covered",
                      "among several extrema the first in the view's own dimension order is required (vectors: the lowest index); "
                      "for complex magnitudes, matrix and tensor expressions and transposed tensors any of them"]


vlib.main(run, "C14")
