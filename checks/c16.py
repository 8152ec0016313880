#!/usr/bin/env python3
"""C16: ramp, first, indexbool, gather, scatter, clip, invclip, swap, freqswap over contents, sizes, thresholds,
index lists and storage forms, checked against spec/SelgenTrace."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK, lv

VFORMS, MFORMS, VFEW, MFEW = "dsncz", "dcstz", "ds", "dcs"


class G:
    def __init__(self, rng): self.rng = rng
    def vals(self, n, T="i", lo=-9, hi=9): return [self.rng.randint(lo, hi) for _ in range(n * (2 if T == "z" else 1))]

    def dims(self, ks=(1, 2)):
        k = self.rng.choice(ks)
        return [self.rng.randint(1, 11)] if k == 1 else [self.rng.randint(1, 5 if k == 2 else 3) for _ in range(k)]

    def ramp(self):
        T = self.rng.choice("ifdz")
        w = 2 if T == "z" else 1
        return "ramp %s %s %s %d %s" % (T, lv([self.rng.randint(-50, 50) for _ in range(w)]), lv([self.rng.randint(-9, 9)] + [0] * (w - 1) if T != "z" else [self.rng.randint(-9, 9) for _ in range(2)]), self.rng.randint(1, 20), self.rng.choice("dsncrugez" if T == "z" else "dsncruge"))

    def first(self):
        rng = self.rng
        n = rng.randint(1, 10)
        pred = rng.randint(0, 2)
        r = rng.choice([1, 3, 9])
        return "first %s %d %d %s %s %s %s" % (rng.choice("ifd"), pred, rng.choice([0, 0, rng.randint(0, n), n - 1, n, n + 1, n + 5]), rng.choice("dsnc"), rng.choice("ds"), lv(self.vals(n, "i", -r, r)), lv(self.vals(n, "i", -r, r)))

    def ib(self):
        rng = self.rng
        d = self.dims()
        n = d[0] if len(d) == 1 else d[0] * d[1]
        p = rng.choice([0, .1, .5, .5, .9, 1])
        s = [int(rng.random() < p) for _ in range(n)]
        c = sum(s)
        return "ib %s %s %s %s %d" % (lv(d), lv(s), rng.choice("bdsnc" if len(d) == 1 else "bdcst"), rng.choice("ds"), max(1, rng.choice([c, c - 1, c + 1, n, n + 2, 1, c // 2])))

    def index(self, d, dup):
        rng = self.rng
        n = 1
        for x in d: n *= x
        if dup: pos = [rng.randrange(n) for _ in range(rng.randint(1, 2 * n))]
        else:
            pos = list(range(n)); rng.shuffle(pos); pos = pos[:rng.randint(1, n)]
        ix = []
        for p in pos:
            if len(d) == 1: ix += [p]
            elif len(d) == 2: ix += [p // d[1], p % d[1]]
            else: ix += [p // (d[1] * d[2]), p // d[2] % d[1], p % d[2]]
        return ix, len(pos), n

    def gs(self, op):
        rng = self.rng
        T = rng.choice("ifz")
        d = self.dims((1, 2, 3))
        ix, k, n = self.index(d, rng.random() < .5)
        f = rng.choice({1: VFORMS, 2: MFORMS, 3: "dcs"}[len(d)])
        if op == "gather": return "gather %s %s %s %s %s -" % (T, lv(d), lv(self.vals(n, T)), lv(ix), f)
        return "scatter %s %s %s %s %s %s %s" % (T, lv(d), lv(self.vals(k + rng.choice([0, 0, 2]), T)), lv(ix), f, rng.choice("ds"), lv(self.vals(n, T)))

    def clip(self):
        rng = self.rng
        T = rng.choice("abcde")
        # half units; integral where a type on the way is integral
        xu = 1 if T in "ad" else 2
        tu = 2 if T in "bd" else 1
        cu = 2 if T in "be" else 1
        if T in "e": xu = 2
        d = self.dims()
        n = d[0] if len(d) == 1 else d[0] * d[1]
        t = sorted(rng.randint(-8, 8) * tu for _ in range(3))
        if rng.random() < .2: t[1] = rng.choice([t[0], t[2]])
        if rng.random() < .1: t = [t[1]] * 3
        x = [rng.choice([rng.randint(-12, 12) * xu, rng.choice(t) // xu * xu, (rng.choice(t) + rng.choice([-1, 1])) // xu * xu]) for _ in range(n)]
        c = [rng.randint(-30, 30) * cu for _ in range(2)]
        f, g = (rng.choice(VFORMS[:4]), rng.choice(VFEW)) if len(d) == 1 else (rng.choice(MFEW), rng.choice(MFEW))
        return "clip %s %d %s %s %s %s %s %s" % (T, rng.random() < .5, lv(d), lv(x), lv(t), lv(c), f, g)

    def swap(self):
        rng = self.rng
        T = rng.choice("ifmz")
        d = self.dims()
        n = d[0] if len(d) == 1 else d[0] * d[1]
        fs = VFORMS if len(d) == 1 else MFORMS
        return "swap %s %s %s %s %s %s" % (T, lv(d), lv(self.vals(n, T)), lv(self.vals(n, T)), rng.choice(fs), rng.choice(fs))

    def fs(self):
        rng = self.rng
        T = rng.choice("ifz")
        d = self.dims()
        if len(d) == 1:
            kind, n, fs, gs = "1", d[0], VFORMS, VFORMS
            how = rng.choice("  ==2e+gs".replace(" ", "n"))
        else:
            d = [rng.randint(1, 7), rng.randint(1, 7)]
            kind, n, fs, gs = rng.choice("2222rc"), d[0] * d[1], MFORMS, MFEW
            how = rng.choice("nn==e+s") if kind == "2" else "n"
        return "fs %s %s %s %s %s %s %s" % (T, kind, lv(d), lv(self.vals(n, T, -99, 99)), how, rng.choice(fs), rng.choice(gs))

    def op(self, i):
        k = i % 12
        return [self.ramp, self.first, self.ib, lambda: self.gs("gather"), lambda: self.gs("scatter"), self.clip, self.clip, self.swap, self.fs, self.fs, self.ib, self.first][k]()


def run(c):
    exe = vlib.build("c16", ["c16_main.cpp"] + [("c16_reg.cpp", ["-DPART=%d" % i], str(i)) for i in range(1, 6)], variant="plain0")
    c.model("SelgenMC", "SelgenMC" if QUICK else "SelgenMC_all", timeout=1200)
    g = G(c.rng)
    n = 1500 if QUICK else 30000
    c.conform(exe, "SelgenTrace", ["begin\n" + "\n".join(g.op(i + j) for j in range(12)) for i in range(n)])
    c.assumptions += ["scatter and gather indices lie inside the view; clip thresholds are ordered",
                      "source and destination are either the same view or do not overlap"]


vlib.main(run, "C16")
