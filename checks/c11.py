#!/usr/bin/env python3
"""C11: convolution and correlation objects of every symmetry, support, decimation and bias, checked against the defining
sums of spec/Conv."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK, lv

W = {1: 1, 2: 2, 3: 1, 4: 1, 5: 2}


def klen(sym, m): return m if sym == "nonsym" else 2 * m - 1 if sym == "odd" else 2 * m


class G:
    def __init__(self, rng): self.rng = rng

    def vals(self, n, r=9, k=1): return [k * self.rng.randint(-r, r) for _ in range(n)]

    def conv(self):
        rng = self.rng
        p = rng.choice([1, 2, 3, 4, 5])
        vec = p <= 3
        sym, sup = rng.choice(["nonsym", "odd", "even"]), rng.choice(["full", "same", "min"])
        while True:
            d = [rng.choice([1, 2, 3, 5, 8, rng.randint(1, 14)])] if vec else [rng.randint(1, 6), rng.randint(1, 6)]
            cd = [rng.choice([1, 2, 3, 4, 5, 6])] if vec else [rng.randint(1, 3), rng.randint(1, 3)]
            k = [klen(sym, x) for x in cd]
            tot = 1
            for x in d: tot *= x
            ct = 1
            for x in cd: ct *= x
            if sup == "min" and any(a > b for a, b in zip(k, d)): continue
            # documented: a non-symmetric kernel is no larger than the input, others no larger than twice the input
            if sym == "nonsym" and any(a > b for a, b in zip(k, d)): continue
            if any(a > 2 * b for a, b in zip(k, d)) or ct > (tot if sym == "nonsym" else 2 * tot): continue
            break
        dec = rng.choice([1, 1, 1, 2, 3, rng.randint(1, 6)])
        calls = [(rng.choice({1: "dsnc", 2: "dsncz", 3: "ds", 4: "dcst", 5: "csz"}[p]), rng.choice({1: "ds", 2: "nz", 3: "ds", 4: "st", 5: "st"}[p]),
                  lv(self.vals(tot * W[p]))) for _ in range(rng.randint(1, 3))]
        return "conv %d %s %s %s %s %s %d %s %d %s" % (p, sym, sup, rng.choice("ds"), lv(cd), lv(self.vals(ct * W[p])), dec, lv(d), len(calls),
                                                       " ".join(" ".join(c) for c in calls))

    def corr(self):
        rng = self.rng
        p = rng.choice([1, 2, 3, 4, 5])
        vec = p <= 3
        sup = rng.choice(["full", "same", "min"])
        d = [rng.choice([1, 2, 3, 5, 8, rng.randint(1, 14)])] if vec else [rng.randint(1, 5), rng.randint(1, 5)]
        r = [rng.randint(1, min(6, x)) if vec else rng.randint(1, min(4, x)) for x in d]
        tot, rt = 1, 1
        for x in d: tot *= x
        for x in r: rt *= x
        calls = []
        for _ in range(rng.randint(1, 3)):
            unb = rng.random() < .5
            a, b = {1: ("dsnc", "ds"), 2: ("dsncz", "nz"), 3: ("ds", "ds"), 4: ("dcst", "st"), 5: ("csz", "st")}[p]
            # multiples of every possible divisor, so that unbiased results are exact
            f = (60 if vec else 144) if unb else 1
            calls.append("%s %s %s %d %s %s" % (rng.choice(b), rng.choice(a), rng.choice(b), unb, lv(self.vals(rt * W[p], 9, f)), lv(self.vals(tot * W[p]))))
        return "corr %d %s %s %s %d %s" % (p, sup, lv(r), lv(d), len(calls), " ".join(calls))


def run(c):
    exe = vlib.build("c11", ["c11_main.cpp"] + [("c11_reg.cpp", ["-DPART=%d" % i], "p%d" % i) for i in range(1, 6)], variant="plain0")
    c.model("ConvMC", "ConvMC" if QUICK else "ConvMC_all", timeout=1500)
    g = G(c.rng)
    n = 1000 if QUICK else 25000
    s = ["begin\n" + "\n".join([g.conv() for _ in range(5)] + [g.corr() for _ in range(4)]) for i in range(n)]
    c.conform(exe, "ConvTrace", s)
    c.assumptions += ["integer data small enough that every sum is exact; rounding is not covered",
                      "the output view does not overlap the input",
                      "support_min kernels are no longer than the input; the end scaling of unbiased support_same vector correlation is C-VSIPL's, as the code documents"]


vlib.main(run, "C11")
