#!/usr/bin/env python3
"""C18: FFT and multiple-FFT objects: kinds, sizes, scales, view forms and ways of calling, repeatedly on the same
objects, over the FFTW and the generic backend; checked against the fixed-point DFT of spec/Fourier."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK, lv

KINDS = [("1rc0", "fd"), ("1cr0", "fd"), ("1cf", "fd"), ("1ci", "fd"), ("2rc0", "f"), ("2rc1", "f"), ("2cr0", "d"), ("2cr1", "d"), ("2cf", "f"), ("2ci", "d"),
         ("mrc0", "f"), ("mrc1", "f"), ("mcr0", "d"), ("mcr1", "d"), ("mcf0", "d"), ("mcf1", "d"), ("mci0", "f"), ("mci1", "f"),
         ("3rc0", "f"), ("3rc1", "f"), ("3rc2", "f"), ("3cf", "f"), ("3cr0", "d"), ("3cr1", "d"), ("3cr2", "d"), ("3ci", "d")]
LS = set(range(1, 49)) | {50, 52, 54, 55, 56, 60, 63, 64, 65, 66, 70, 72, 75, 77, 80, 84, 90, 96, 99, 100, 105, 110, 112, 120, 126, 128, 140, 168, 210}


def lcm(a, b): return a * b // math.gcd(a, b)


class Tr:
    def __init__(self, k, n):
        self.k, self.n = k, n
        self.kind = "cc" if k[1:] in ("cf", "ci", "cf0", "cf1", "ci0", "ci1") else k[1:3]
        d = 2 if k[0] == "m" else int(k[0])
        if k[0] == "m": self.ax = [1 - int(k[3])]
        else: self.ax = list(range(d))
        self.s = None if self.kind == "cc" else (self.ax[0] if k[0] == "m" else int(k[3]))

    def den(self):
        L = 1
        for a in self.ax: L = lcm(L, self.n[a])
        return L

    def arg(self, rng, big):
        n = self.n
        v = lambda: rng.randint(-big, big)
        N = n[0] * n[1] * n[2]
        if rng.random() < .15:     # sparse
            hot = {rng.randrange(N) for _ in range(2)}
            z = [(v(), v()) if i in hot else (0, 0) for i in range(N)]
        else: z = [(v(), v()) for _ in range(N)]
        if self.kind == "rc": return [a for a, _ in z]
        if self.kind == "cc": return [x for p in z for x in p]
        at = lambda i: (i[0] * n[1] + i[1]) * n[2] + i[2]
        out = []
        for i in range(n[0]):
            for j in range(n[1]):
                for k in range(n[2]):
                    q = [i, j, k]
                    m = [(-q[a]) % n[a] if a in self.ax else q[a] for a in range(3)]
                    if q == m: z[at(q)] = (z[at(q)][0], 0)
                    elif at(m) < at(q): z[at(q)] = (z[at(m)][0], -z[at(m)][1])
                    if q[self.s] <= n[self.s] // 2: out += z[at(q)]
        return out


def sizes(rng, k, cap):
    d = 2 if k[0] == "m" else int(k[0])
    while True:
        if d == 1: n = [rng.choice(list(range(1, cap + 1)) + [8, 16, 32, 4, 2]), 1, 1]
        elif d == 2: n = [rng.randint(1, 9), rng.randint(1, 9), 1]
        else: n = [rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 5)]
        if n[0] * n[1] * n[2] <= cap and Tr(k, n).den() in LS: return n


def scenario(rng, i, cap):
    s, o = ["begin"], []
    for j in range(rng.choice([1, 1, 2])):
        k, Ts = KINDS[(i + j * 7) % len(KINDS)]
        t = Tr(k, sizes(rng, k, cap))
        N = 1
        for a in t.ax: N *= t.n[a]
        num, den = rng.choice([(1, 1), (1, 1), (1, N), (1, N), (2, 1), (1, 2), (3, 4)])
        s.append("mk %s %s %s %s %d %d" % (k, rng.choice(Ts), "g" if rng.random() < .25 else "w", " ".join(map(str, t.n)), num, den))
        o.append(t)
    for _ in range(rng.randint(2, 5)):
        a = rng.randrange(len(o))
        t = o[a]
        m = rng.choice("oooOOvvwasxX" + ("iiiA" if t.kind == "cc" else ""))
        d = 2 if t.k[0] == "m" else int(t.k[0])
        allf = {1: "dsncrzu", 2: "dcstz", 3: "035st"}[d]
        few = {1: "ds", 2: "dcs", 3: "04t"}[d]
        f = rng.choice(few if m in "OwaAsxX" else allf)
        g = rng.choice(allf if m == "O" else few)
        big = rng.choice([3, 9, 15])
        x = t.arg(rng, big)
        x2 = t.arg(rng, 5) if m == "s" else []
        s.append("call %d %s %s %s %s %s" % (a, m, f, g, lv(x), lv(x2)))
    return "\n".join(s)


def run(c):
    exe = vlib.build("c18", ["c18_main.cpp"] + [("c18_reg.cpp", ["-DPART=%d" % p], "p%d" % p) for p in range(1, 13)], variant="plain0")
    c.model("FourierMC", "FourierMC" if QUICK else "FourierMC_all", timeout=3000)
    k = 1300 if QUICK else 20000
    c.conform(exe, "FourierTrace", [scenario(c.rng, i, 24 if i % 5 else 36) for i in range(k)], parts=8, timeout=600)
    c.assumptions += ["arguments are small integers and sizes at most 36 (64 in the thorough tier) elements; results are compared with a fixed-point DFT to within 0.01 plus the tables' rounding",
                      "arguments of complex-to-real transforms are the half spectra of real sequences", "argument and result do not overlap unless the call is in place or by value"]
    if not QUICK:
        c.conform(exe, "FourierTrace", [scenario(c.rng, i, 64) for i in range(4000)], tag="big", parts=8, timeout=600)


vlib.main(run, "C18")
