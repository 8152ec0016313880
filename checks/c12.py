#!/usr/bin/env python3
"""C12: IIR filter objects: histories of call/copy/assign/reset (TLC-generated and random), in and out of
place, over sections, types and view forms, checked against spec/IirTrace."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK, jn, lv
LIM = 1 << 21


class Sc:
    def __init__(self, rng, T=None, save=None):
        self.rng, self.s, self.o = rng, ["begin"], []
        self.T = T or rng.choice("ffdz")
        self.save = int(rng.random() < .8) if save is None else save
        self.m = rng.choice([1, 1, 2, 2, 3])

    def num(self, lo, hi):
        return complex(self.rng.randint(lo, hi), self.rng.randint(lo, hi) if self.T == "z" and self.rng.random() < .4 else 0)

    def lst(self, v):
        return lv([int(y) for x in v for y in ((x.real, x.imag) if self.T == "z" else (x.real,))])

    def mk(self):
        rng = self.rng
        a = [self.num(-1, 1) for _ in range(2 * self.m)]
        b = [self.num(-3, 3) for _ in range(3 * self.m)]
        n = rng.randint(1, 6)
        self.s.append("mk %s %d %s %s %s %s %d" % (self.T, self.save, rng.choice("dcs"), rng.choice("dcs"), self.lst(b), self.lst(a), n))
        self.o.append(dict(a=a, b=b, n=n, w=[[0, 0] for _ in range(self.m)]))
        return len(self.o) - 1

    def call(self, k):
        """Append a call whose values stay exactly representable (simulated here); else a reset."""
        rng, o = self.rng, self.o[k]
        w = [list(x) for x in o["w"]]
        x = [self.num(-5, 5) for _ in range(o["n"])]
        mx = 0
        for v in x:
            for m in range(self.m):
                w0 = v - o["a"][2 * m] * w[m][0] - o["a"][2 * m + 1] * w[m][1]
                v = o["b"][3 * m] * w0 + o["b"][3 * m + 1] * w[m][0] + o["b"][3 * m + 2] * w[m][1]
                w[m] = [w0, w[m][0]]
                mx = max(mx, abs(w0) * 5, abs(v))
        if mx > LIM: return self.reset(k)
        if self.save: o["w"] = w
        self.s.append("call %d %s %s %s" % (k, rng.choice("dsncz"), rng.choice("dsncz="), self.lst(x)))

    def reset(self, k):
        self.o[k]["w"] = [[0, 0] for _ in range(self.m)]
        self.s.append("reset %d" % k)

    def cp(self, k): return dict(self.o[k], w=[list(x) for x in self.o[k]["w"]])

    def copy(self, k):
        self.s.append("copy %d" % k); self.o.append(self.cp(k)); return len(self.o) - 1

    def assign(self, k, j):
        self.s.append("assign %d %d" % (k, j)); self.o[k] = self.cp(j)

    def text(self): return "\n".join(self.s)


def run(c):
    exe = vlib.build("c12", ["c12.cpp"])
    c.model("IirMC", "IirMC" if QUICK else "IirMC_all", timeout=1200)
    rng = c.rng
    sc = []
    for h in vlib.histories(c, "IirMC", "IirGen", minimum=1000):
        for rep in range(1 if QUICK else 4):
            s = Sc(rng)
            ix = {1: s.mk(), 2: s.mk()}
            byctor = rng.random() < .5
            for op, o, p in h:
                if op == 0: s.call(ix[o])
                elif op == 1:
                    if byctor: ix[o] = s.copy(ix[p])
                    else: s.assign(ix[o], ix[p])
                else: s.reset(ix[o])
            s.call(ix[1]); s.call(ix[2])
            sc.append(s.text())
    for i in range(900 if QUICK else 20000):
        s = Sc(rng, "fdz"[i % 3], int(i // 3 % 4 > 0))
        s.mk()
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            a = rng.randrange(len(s.o))
            if r < .7: s.call(a)
            elif r < .78: s.copy(a)
            elif r < .84: s.assign(a, rng.randrange(len(s.o)))
            elif r < .92: s.reset(a)
            elif len(s.o) < 4: s.mk()
        for a in range(len(s.o)): s.call(a)
        sc.append(s.text())
    c.conform(exe, "IirTrace", sc)
    c.assumptions += ["objects assigned to each other have the same number of sections (precondition)",
                      "integer coefficients and data with bounded results: arithmetic is exact"]


vlib.main(run, "C12")
