#!/usr/bin/env python3
"""C20: matrix-vector functions over a store of matrices and vectors in different kinds of storage (dense, parts with any
stride, transposed, split), element types and both backends; the store is compared with the exact algebra of spec/Matvec."""
import os, sys, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK, lv

LIM = {"d": 400000000, "z": 400000000, "i": 400000000}       # else 3000000: exact in single precision
MIXED = {"1": "fc", "2": "cf", "3": "cf", "4": "cc", "5": "fd"}     # element types of the two operands


class Sc:
    def __init__(self, rng, combos, big):
        self.rng, self.combos, self.big = rng, combos, big
        self.s, self.o = ["begin"], []

    def vals(self, T, n, mx):
        k = n * (2 if T in "cz" else 1)
        return [self.rng.randint(-mx, mx) for _ in range(k)]

    def obj(self, T, mat, cls, r, c, avoid=(), small=True):
        rng = self.rng
        if not mat: c = 0
        old = [i for i, x in enumerate(self.o) if x[:5] == [T, mat, cls, r, c] and i not in avoid]
        if old and rng.random() < .7:
            i = rng.choice(old)
            if small and self.o[i][5] > 40 and rng.random() < .7:
                mx = rng.choice([2, 5, 9])
                self.s.append("set %d %s" % (i, lv(self.vals(T, r * max(c, 1), mx))))
                self.o[i][5] = mx
            return i
        mx = rng.choice([1, 3, 9, 20] + ([3000] if T in "dzi" else []))
        s0, s1 = rng.choice([1, 1, 1, 2, -1, -2, 3]), rng.choice([1, 1, 1, 2, -1, -2])
        if mat and cls in (3, 4): s0, s1 = s1, s0       # the minor dimension is the first
        self.s.append("mk %s %d %d %d %d %d %d %s" % (T, mat, cls, r, c, s0, s1, lv(self.vals(T, r * max(c, 1), mx))))
        self.o.append([T, mat, cls, r, c, mx])
        return len(self.o) - 1

    def call(self):
        rng, big = self.rng, self.big
        f, T, A, B, R = rng.choice(self.combos)
        cx = T in "cz1234"
        ta, tb = (MIXED[T] if T in MIXED else (T, T))
        if T == "3": tb = "f"
        tr = "c" if T in "1234" else "d" if T == "5" else T
        m, k, n = (rng.choice([1, 2, 3, 4, 5, big]) for _ in range(3))
        mu = 2 if cx else 1
        V, K = False, []
        k0 = [rng.choice([1, 1, 2, -1, 3]), rng.choice([0, 1, -1, 2]) if T in "cz" else 0]
        k1 = [rng.choice([0, 1, -1, 2]), rng.choice([0, 0, 1, -2]) if T in "cz" else 0]
        kb0, kb1 = sum(map(abs, k0)), sum(map(abs, k1))
        bo = None
        if "dot" in f:
            L = rng.choice([1, 2, 3, 5, 8, 17, 30])
            a = self.obj(ta, 0, A, L, 0)
            b = self.obj(tb, 0, B, L, 0) if (ta, A) != (tb, B) or rng.random() < .8 else a
            if (self.o[a][5] + 1) * (self.o[b][5] + 1) * 2 * L * mu > LIM.get(T, 3000000): return
            self.s.append("call %s %s %s %s" % (f, T, lv([a, b]), lv([])))
            return
        if f in ("prod3", "mv3"): m = k = 3
        if f in ("prod4", "mv4"): m = k = 4
        if f in ("prod", "prodj", "prod3", "prod4", "pexp"): sa, sb, sr = (m, k), (k, n), (m, n)
        elif f in ("prodt", "prodh"): sa, sb, sr = (m, k), (n, k), (m, n)
        elif f in ("psum", "pprod"): sa, sb, sr = (m, m), (m, n), (m, n); k = m
        elif f in ("mv", "mv3", "mv4"): sa, sb, sr = (m, k), k, m
        elif f == "vm": sa, sb, sr = (k, n), k, n
        elif f == "mvx": sa, sb, sr = (k, n), k, n
        elif f in ("vmmul0", "vmmulx0"): sa, sb, sr = (m, n), n, (m, n)
        elif f in ("vmmul1", "vmmulx1"): sa, sb, sr = (m, n), m, (m, n)
        elif f == "outer": sa, sb, sr = m, n, (m, n); K = k0
        elif f in ("kronv", "kronc"): sa, sb, sr = m, n, (n, m); K = k0
        elif f == "kronm":
            p, q, m, n = (rng.randint(1, 3) for _ in range(4))
            sa, sb, sr = (m, n), (p, q), (m * p, n * q); K = k0
        elif f in ("trans", "herm"): sa, sb, sr = (m, n), None, (n, m)
        elif f in ("cum0", "cum1"): sa, sb, sr = (m, n), None, (m, n)
        elif f == "cumv": sa, sb, sr = n, None, n
        elif f == "modulate": sa, sb, sr = n, None, n; K = [rng.randint(-5, 5), 0, rng.randint(-9, 9), 0]
        elif f.startswith("gems"):
            o = int(f[4])
            sa, sb, sr = ((n, m) if o in (1, 2) else (m, n)), None, (m, n); K = k0 + k1
        elif f.startswith("gemp"):
            oa, ob = int(f[4]), int(f[5])
            sa, sb, sr = ((k, m) if oa in (1, 2) else (m, k)), ((n, k) if ob in (1, 2) else (k, n)), (m, n); K = k0 + k1 + [oa, ob]
        else: raise SystemExit("function " + f)
        if f == "modulate": ta, tr = T, {"f": "c", "d": "z"}.get(T, T)

        def mk(t, cls, sh, avoid=(), small=True):
            return self.obj(t, int(isinstance(sh, tuple)), cls, *(sh if isinstance(sh, tuple) else (sh, 0)), avoid=avoid, small=small)
        a = mk(ta, A, sa)
        b = None
        if sb is not None: b = mk(tb, B, sb)
        av = {a, b} - {None}
        if f in ("cum0", "cum1", "cumv", "modulate") and rng.random() < .3: av = set()   # in place
        r = mk(tr, R, sr, avoid=av, small=f.startswith("gem"))
        ba, bb, br = self.o[a][5], self.o[b][5] if b is not None else 1, self.o[r][5]
        if f in ("prod", "prod3", "prod4", "prodt", "prodh", "prodj"): bo = k * ba * bb * mu
        elif f == "psum": bo = k * ba * bb * mu + bb
        elif f == "pexp": bo = 2 * k * ba * (bb + 1) * mu
        elif f == "pprod": bo = k * k * ba * ba * bb * mu * mu
        elif f in ("mv", "mv3", "mv4", "vm"): bo = k * ba * bb * mu
        elif f == "mvx": bo = 2 * k * ba * bb * mu
        elif f.startswith("vmmul"): bo = ba * (bb + 2) * mu
        elif f in ("outer", "kronv", "kronc", "kronm"): bo = ba * bb * mu * mu * kb0
        elif f in ("trans", "herm"): bo = ba
        elif f[:3] == "cum": bo = ba * max(m, n)
        elif f == "modulate": bo = 2 * ba
        elif f.startswith("gems"): bo = (ba * kb0 + br * kb1) * mu
        else: bo = (k * ba * bb * mu * kb0 + br * kb1) * mu
        if bo > (2000 if f == "modulate" else LIM.get(T, 3000000)): return
        self.s.append("call %s %s %s %s" % (f, T, lv([r, a] + ([b] if b is not None else [])), lv(K)))
        self.o[r][5] = bo


def scenario(rng, fam, i, big):
    t = rng.choice("ffddcccczzzi13")
    combos = fam[t if t in fam else "1"] if t not in "13" else fam["x"]
    s = Sc(rng, combos, rng.randint(5, big))
    if rng.random() < .3: s.combos = [rng.choice(combos) for _ in range(4)]     # few functions, repeatedly on the same objects
    for _ in range(rng.randint(3, 7)): s.call()
    return "\n".join(s.s)


def run(c):
    exe = vlib.build("c20", ["c20_main.cpp"] + [("c20_reg.cpp", ["-DPART=%d" % p], "p%d" % p) for p in range(1, 15)], variant="plain0")
    fam = {}
    for l in subprocess.run([exe, "--list"], capture_output=True, text=True, check=True).stdout.splitlines():
        f, T, A, B, R = l.split()
        fam.setdefault("x" if T in "12345" else T, []).append((f, T, int(A), int(B), int(R)))
    c.notes["functions"] = "%d combinations of function, element type and kinds of storage" % sum(map(len, fam.values()))
    # every function gets the same share
    for t in fam:
        by = {}
        for x in fam[t]: by.setdefault(x[0][:4] if x[0].startswith("gem") else x[0], []).append(x)
        m = max(map(len, by.values()))
        fam[t] = [x for v in by.values() for x in v * max(1, m // len(v))]
    c.model("MatvecMC", "MatvecMC" if QUICK else "MatvecMC_all", timeout=3000)
    k = 5000 if QUICK else 40000
    c.conform(exe, "MatvecTrace", [scenario(c.rng, fam, i, 8) for i in range(k)], parts=8, timeout=600)
    c.assumptions += ["elements are integers small enough to be exact in every element type", "destination and operands do not overlap (cumulative sums and modulation also in place)",
                      "destination kinds follow a Latin square over the operand kinds (each pair of kinds occurs)"]
    if not QUICK:
        c.conform(exe, "MatvecTrace", [scenario(c.rng, fam, i, 24) for i in range(4000)], tag="big", parts=8, timeout=900)


vlib.main(run, "C20")
