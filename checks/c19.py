#!/usr/bin/env python3
"""C19: solver objects (LU, Cholesky, QR, SVD) over histories of decompositions, solves, copies and assignments, and the function
forms, in all kinds of storage; every answer is checked against the exact integer relations of spec/Solve."""
import os, sys
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK, lv

FIX, FIXSV = 1000, 100


def flat(a, cx):
    a = np.asarray(a)
    if not cx: return [int(x) for x in a.real.ravel()]
    r = []
    for x in a.ravel(): r += [int(x.real), int(x.imag)]
    return r


class Sc:
    def __init__(self, rng, T):
        self.rng, self.T, self.cx = rng, T, T in "cz"
        self.s, self.o = ["begin"], []

    def mat(self, m, n, mx):
        r = self.rng
        a = np.array([[r.randint(-mx, mx) for _ in range(n)] for _ in range(m)], dtype=complex).reshape(m, n)
        if self.cx: a = a + 1j * np.array([[r.randint(-mx, mx) for _ in range(n)] for _ in range(m)]).reshape(m, n)
        return a

    def good(self, m, n, spread=30):
        """a well-conditioned m x n matrix of small integers"""
        r = self.rng
        if max(m, n) > 6:
            a = self.mat(m, n, 2) * (np.array([[r.random() < .15 for _ in range(n)] for _ in range(m)]))
            for i in range(min(m, n)): a[i, i] = int(np.abs(a[i]).sum() + np.abs(a[:, i]).sum()) + r.randint(1, 3)
            if m == n and r.random() < .5: a = a[r.sample(range(m), m)] if not self.big_dominant else a
            return a
        for _ in range(200):
            a = self.mat(m, n, r.choice([1, 2, 3, 5]))
            s = np.linalg.svd(a, compute_uv=False)
            if s[-1] > .5 and s[0] / s[-1] < spread: return a
        return np.eye(m, n, dtype=complex) * 2
    big_dominant = True

    def shape(self):
        r = self.rng
        return "%d %d" % (r.choice([1, 1, 2, -1, -2, 3]), r.choice([1, 1, 2, -1, -2]))

    def kb(self): return self.rng.randrange(6 if self.cx else 5)

    def op(self, f, tr, side, mode, b, xr, xc, num, k=()):
        return "%s %s %s %s %d %s %d %d %d %d %d %s %s" % (f, tr, side, mode, self.kb(), self.shape(), b.shape[0], b.shape[1], xr, xc, num, lv(flat(b, self.cx)), lv(list(k)))

    # ---- objects
    def mk(self, kind, big):
        r = self.rng
        n = r.choice([1, 2, 2, 3, 3, 4, 5] + ([r.randint(8, 24)] if big and kind in "lc" else []) + ([r.randint(6, 12)] if big else []))
        m, p, q = n, 0, 0
        if kind == "q":
            m = n + r.choice([0, 0, 1, 1, 2, 3]) if n <= 5 else n + r.choice([0, 2, 5])
            p = r.choice([0, 1, 1, 2, 2])
        if kind == "s":
            n = min(n, 8)
            m = r.choice([1, 2, 3, 4, 5]) if n <= 5 else n + r.choice([-3, 0, 2])
            p, q = r.choice([0, 1, 2]), r.choice([0, 1, 2])
        if kind == "c": p = r.randint(0, 1)
        mode = r.choice("rv")
        self.s.append("mk %s %s %s %d %d %d %d" % (kind, self.T, mode, m, n, p, q))
        self.o.append(dict(k=kind, mode=mode, m=m, n=n, p=p, q=q, ok=False, A=None, Q=False, V=False))
        return len(self.o) - 1

    def dec(self, i, again=None):
        r, o = self.rng, self.o[i]
        m, n, k = o["m"], o["n"], o["k"]
        ok = True
        if again is not None and again.shape == (m, n): a = again
        elif k == "l":
            a = self.good(m, n)
            if r.random() < .12:
                if r.random() < .5: a[r.randrange(n)] = 0
                else: a[:, r.randrange(n)] = 0
                ok = False
        elif k == "c":
            if n > 5:
                a = self.good(n, n); a = a + a.conj().T
                for j in range(n): a[j, j] = int(np.abs(a[j]).sum() - abs(a[j, j])) * 2 + 1
                if r.random() < .15: j = r.randrange(n); a[j, j] = -a[j, j]; ok = False
            else:
                want = r.random() < .8
                for _ in range(300):
                    a = self.mat(n, n, r.choice([1, 2, 4])); a = a + a.conj().T
                    a += np.eye(n) * r.choice([0, 1, 3, 6])
                    w = np.linalg.eigvalsh(a)
                    mins = [np.linalg.det(a[:j, :j]).real for j in range(1, n + 1)]
                    if want and w[0] > .5 and w[-1] / w[0] < 40: break
                    if not want and min(mins) < -.5 and all(abs(x) > .4 for x in mins): break
                else: a = np.eye(n, dtype=complex) * (2 if want else -2)
                ok = want
            if r.random() < .4:                  # only one triangle counts
                g = self.mat(n, n, 4)
                for x in range(n):
                    for y in range(n):
                        if (y < x) if o["p"] else (y > x): a[x, y] = g[x, y]
        elif k == "q": a = self.good(m, n)
        else:
            a = self.good(m, n) if r.random() < .7 else self.mat(m, n, r.choice([1, 3]))
            if r.random() < .1: a[r.randrange(m)] = 0
        if k == "c":
            t = np.triu(a, 1) if o["p"] else np.tril(a, -1)
            o["A"] = t + t.conj().T + np.diag(np.diag(a).real)
        else: o["A"] = a.copy()
        o["ok"], o["Q"], o["V"], o["raw"] = ok, False, False, a
        num = FIXSV if k == "s" else 1
        self.s.append("dec %d %s" % (i, self.op("dec", "n", "l", o["mode"], a, 1, 1, num)))

    def call(self, i):
        r, o = self.rng, self.o[i]
        if not o["ok"]: self.dec(i); return
        m, n, k, A = o["m"], o["n"], o["k"], o["A"]
        w = r.choice([1, 1, 2, 3, 5])
        H = lambda x: x.conj().T
        def put(f, tr, side, b, xr, xc, num, kk=()): self.s.append("call %d %s" % (i, self.op(f, tr, side, o["mode"], b, xr, xc, num, kk)))
        if k in "lc":
            tr = r.choice("nth" if self.cx else "nt") if k == "l" else "n"
            g = {"n": A, "t": A.T, "h": H(A)}[tr]
            if r.random() < .6 or n > 6: b, num = g @ self.mat(n, w, 5), 1
            else: b, num = self.mat(n, w, 9), FIX
            put("solve", tr, "l", b, n, w, num)
        elif k == "q":
            f = r.choice(["cov", "lsq", "cov2"] + (["rsol", "rsol", "prodq", "prodq", "prodq"] if o["p"] and m <= 8 else []))
            al = [r.choice([1, 1, 2, -1]), r.choice([0, 1]) if self.cx else 0]
            kk = al if self.cx else al[:1]
            G = H(A) @ A
            if f in ("rsol", "prodq") and not o["Q"]:
                qc = m if o["p"] == 2 else n
                put("prodq", "n", "l", np.eye(qc, dtype=complex), m, qc, FIX); o["Q"] = True
                return
            if f == "lsq":
                if r.random() < .6 or m > 8: b, num = A @ self.mat(n, w, 4), 1
                else: b, num = self.mat(m, w, 9), FIX
                put("lsq", "n", "l", b, n, w, num)
            elif f == "cov":
                if r.random() < .6 or m > 8: b, num = G @ self.mat(n, w, 3), 1
                else: b, num = self.mat(n, w, 9), FIX
                put("cov", "n", "l", b, n, w, num)
            elif f == "cov2":
                put("cov2", "n", "l", G @ self.mat(n, w, 3), n, w, 1, kk)
            elif f == "rsol":
                put("rsol", r.choice("nh"), "l", self.mat(n, w, 5), n, w, FIX, kk)
            else: self.prod(i, "prodq", m, m if o["p"] == 2 else n, w)
        else:
            if o["p"] and not o["Q"]:
                c = m if o["p"] == 2 else min(m, n)
                put("u", "n", "l", self.mat(1, 1, 1), m, c, FIX, [0, c - 1]); o["Q"] = True; return
            if o["q"] and not o["V"]:
                c = n if o["q"] == 2 else min(m, n)
                put("v", "n", "l", self.mat(1, 1, 1), n, c, FIX, [0, c - 1]); o["V"] = True; return
            fs = (["u", "produ"] if o["p"] else []) + (["v", "prodv"] if o["q"] else [])
            if not fs: self.dec(i); return
            f = r.choice(fs)
            rows, st = (m, o["p"]) if f in ("u", "produ") else (n, o["q"])
            cols = rows if st == 2 else min(m, n)
            if f in "uv":
                lo = r.randrange(cols); hi = r.randint(lo, cols - 1)
                put(f, "n", "l", self.mat(1, 1, 1), rows, hi - lo + 1, FIX, [lo, hi])
            else: self.prod(i, f, rows, cols, w)

    def prod(self, i, f, rows, cols, w):
        r, o = self.rng, self.o[i]
        tr, side = r.choice("nh"), r.choice("lr")
        a, b = (rows, cols) if tr == "n" else (cols, rows)
        if side == "l": x = self.mat(b, w, 9); xs = (a, w)
        else: x = self.mat(w, a, 9); xs = (w, b)
        self.s.append("call %d %s" % (i, self.op(f, tr, side, o["mode"], x, xs[0], xs[1], FIX)))

    def fn(self):
        r = self.rng
        f = r.choice(["toep", "toep", "llsq", "cov"])
        n, w = r.randint(1, 5), r.choice([1, 2, 3])
        mode = r.choice("rv")
        if f == "toep":
            want = r.random() < .75
            for _ in range(300):
                t = self.mat(1, n, r.choice([1, 2, 4]))[0]; t[0] = r.choice([-2, 0, 1, 2, 4, 7, 10])
                a = np.array([[t[j - i] if j >= i else np.conj(t[i - j]) for j in range(n)] for i in range(n)]).reshape(n, n)
                e = np.linalg.eigvalsh(a)
                mins = [np.linalg.det(a[:j, :j]).real for j in range(1, n + 1)]
                # a singular leading part that is not exact in floating point is left out
                if want and e[0] > .4 and e[-1] / e[0] < 40: break
                if not want and min(mins) < -.4 and all(abs(x) > .4 for x in mins): break
                if not want and n > 1 and t[0].real in (1, 2, 4) and abs(mins[1]) < 1e-9 and t[1].imag == 0: break
            else:
                t = np.zeros(n, dtype=complex); t[0] = 2 if want else -2
                a = np.eye(n) * t[0]
            b = a @ self.mat(n, 1, 5)
            self.s.append("fn %s %s" % (self.T, self.op("toep", "n", "l", mode, b, n, 1, 1, flat(t, self.cx))))
        elif f == "llsq":
            m = n + r.randint(0, 3)
            a = self.good(m, n)
            if r.random() < .5: b, num = a @ self.mat(n, w, 4), 1
            else: b, num = self.mat(m, w, 9), FIX
            self.s.append("fn %s %s" % (self.T, self.op("llsq", "n", "l", mode, b, n, w, num, flat(a, self.cx))))
        else:
            m = n + r.randint(0, 3)
            a = self.good(m, n)
            if r.random() < .5: b, num = a.conj().T @ a @ self.mat(n, w, 3), 1
            else: b, num = self.mat(n, w, 9), FIX
            self.s.append("fn %s %s" % (self.T, self.op("cov", "n", "l", mode, b, n, w, num, flat(a, self.cx))))


def scenario(rng, big):
    T = rng.choice("fdccz")
    s = Sc(rng, T)
    if rng.random() < .15:
        for _ in range(rng.randint(2, 5)): s.fn()
        return "\n".join(s.s)
    kind = rng.choice("lcqqss")
    s.mk(kind, big)
    n = rng.randint(5, 12)
    while n > 0:
        n -= 1
        live = [i for i, o in enumerate(s.o) if o]
        x = rng.random()
        if not live or (x < .06 and len(live) < 4): s.mk(rng.choice([kind, kind, "l", "c", "q", "s"]), False)
        elif x < .14 and len(live) < 5:
            i = rng.choice(live)
            if s.o[i]["A"] is not None:
                s.s.append("copy %d" % i); s.o.append(dict(s.o[i])); n += 1
        elif x < .24:
            ps = [(i, j) for i in live for j in live if all(s.o[i][z] == s.o[j][z] for z in ("k", "m", "n", "mode")) and (s.o[i]["k"] != "s" or (s.o[i]["p"], s.o[i]["q"]) == (s.o[j]["p"], s.o[j]["q"]))
                  and s.o[j]["A"] is not None]
            if ps:
                i, j = rng.choice(ps)
                s.s.append("assign %d %d" % (i, j)); s.o[i] = dict(s.o[j]); n += 1
        elif x < .27 and len(live) > 1:
            i = rng.choice(live); s.s.append("free %d" % i); s.o[i] = None
        elif x < .42:
            i = rng.choice(live)
            again = [o["raw"] for o in s.o if o and o["A"] is not None and o["k"] == "s" and s.o[i]["k"] == "s"]
            s.dec(i, rng.choice(again) if again and rng.random() < .5 else None)
        else: s.call(rng.choice(live))
    return "\n".join(s.s)


def run(c):
    exe = vlib.build("c19", ["c19_main.cpp"] + [("c19_reg.cpp", ["-DPART=%d" % p], "p%d" % p) for p in range(20)], variant="plain0")
    c.model("SolveMC", "SolveMC" if QUICK else "SolveMC_all", timeout=3000)
    k = 3000 if QUICK else 24000
    c.conform(exe, "SolveTrace", [scenario(c.rng, i % 40 == 0) for i in range(k)], parts=8, timeout=600)
    c.assumptions += ["matrices are well-conditioned small (Gaussian) integers; singular matrices given to LU have a zero row or column",
                      "factors are compared as multiples of 1/1000, singular values as multiples of 1/100"]


vlib.main(run, "C19")
