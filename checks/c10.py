#!/usr/bin/env python3
"""C10: FIR filter objects: histories of call/copy/assign/reset (TLC-generated and random) over kernels of
every symmetry, decimations, block sizes and view forms, checked against spec/FirTrace."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK, jn, lv


class Sc:
    def __init__(self, rng, T=None, sym=None, save=None, same=True):
        self.rng, self.s, self.o = rng, ["begin"], []
        self.T = T or rng.choice("ffdz")
        self.sym = rng.randint(0, 2) if sym is None else sym
        self.save = (rng.random() < .8) if save is None else save

    def mk(self):
        rng = self.rng
        k = rng.randint(2 if self.sym == 0 else 1, 7)
        if self.sym == 1 and k == 1: k = 2
        if rng.random() < .05: k = 20
        m = k if self.sym == 0 else 2 * k - (self.sym == 1)
        d = rng.choice([1, 1, rng.randint(1, max(1, m - 1))])
        n = rng.randint(max(m - 1, 1), m + 12) if rng.random() < .8 else max(m - 1, 1)
        w = 2 if self.T == "z" else 1
        self.s.append("mk %s %d %d %s %s %d %d" % (self.T, self.sym, self.save, rng.choice("ds"), lv([rng.randint(-9, 9) for _ in range(k * w)]), n, d))
        self.o.append((n, w))
        return len(self.o) - 1

    def call(self, a):
        rng = self.rng
        n, w = self.o[a]
        self.s.append("call %d %s %s %s" % (a, rng.choice("dsncz"), rng.choice("dsncz"), lv([rng.randint(-20, 20) for _ in range(n * w)])))

    def copy(self, a):
        self.s.append("copy %d" % a); self.o.append(self.o[a]); return len(self.o) - 1

    def assign(self, a, b):
        self.s.append("assign %d %d" % (a, b)); self.o[a] = self.o[b]

    def text(self): return "\n".join(self.s)


def run(c):
    exe = vlib.build("c10", ["c10.cpp"])
    c.model("FirMC", "FirMC" if QUICK else "FirMC_all")
    rng = c.rng
    sc = []
    for h in vlib.histories(c, "FirMC", "FirGen", minimum=1000):
        for rep in range(1 if QUICK else 4):
            s = Sc(rng)
            ix = {1: s.mk()}
            ix[2] = s.mk() if rng.random() < .5 else s.copy(ix[1])
            byctor = rng.random() < .5
            for op, o, p in h:
                if op == 0: s.call(ix[o])
                elif op == 1:
                    if byctor: ix[o] = s.copy(ix[p])
                    else: s.assign(ix[o], ix[p])
                else: s.s.append("reset %d" % ix[o])
            s.call(ix[1]); s.call(ix[2])
            sc.append(s.text())
    for i in range(700 if QUICK else 20000):
        s = Sc(rng, "fdz"[i % 3], i // 3 % 3, i // 9 % 5 > 0)
        s.mk()
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            a = rng.randrange(len(s.o))
            if r < .7: s.call(a)
            elif r < .78: s.copy(a)
            elif r < .84: s.assign(a, rng.randrange(len(s.o)))
            elif r < .92: s.s.append("reset %d" % a)
            elif len(s.o) < 4: s.mk()
        for a in range(len(s.o)): s.call(a)
        sc.append(s.text())
    c.conform(exe, "FirTrace", sc)
    c.assumptions += ["input size at least kernel size - 1 and decimation less than the kernel size (the constructor's preconditions)",
                      "integer data: results are exact, so no rounding is involved",
                      "elements of the output beyond the returned count are unspecified"]


vlib.main(run, "C10")
