#!/usr/bin/env python3
"""C02: all short chains of subview operators (generated by TLC from spec/Views) and random longer
ones with interleaved writes, executed on real blocks; traces validated against ViewsTrace."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK, jn, lv

KINDS = {"v_f": (1, 1, 3), "v_c": (1, 2, 3), "v_s": (1, 2, 3), "v_i": (1, 1, 2),
         "m_fr": (2, 1, 3), "m_bool": (2, 1, 2), "m_fc": (2, 1, 3), "m_cr": (2, 2, 2), "m_s": (2, 2, 2),
         "t_f012": (3, 1, 2), "t_f201": (3, 1, 2), "t_c120": (3, 2, 2), "t_s021": (3, 2, 2)}


def prod(v):
    r = 1
    for x in v: r *= x
    return r


def subdims(k, d, a):
    if k == "dom": return [a[3 * n + 2] for n in range(len(d))]
    if k == "row": return [d[1]]
    if k == "col": return [d[0]]
    if k == "diag":
        m = min(d)
        return [min(m, d[1] - a[0]) if a[0] >= 0 else min(m, d[0] + a[0])]
    if k == "trans": return [d[1], d[0]]
    if k == "perm": return [d[x] for x in a]
    if k == "slice": return [d[n] for n in range(3) if n + 1 != a[0]]
    if k == "slicesub": return [a[4], a[7]]
    if k == "slice2": return [d[n] for n in range(3) if n + 1 not in (a[0], a[2])]
    if k == "slice2sub": return [a[6]]
    return d


class S:
    def __init__(self, rng, kind, dims):
        self.rng, self.kind = rng, kind
        _, self.nc, self.maxd = KINDS[kind]
        self.bool = kind == "m_bool"
        self.nodes = [(dims, self.nc, 0)]
        self.o = ["begin %s %s %s" % (kind, lv(dims), lv(self.vals(prod(dims) * self.nc)))]

    def vals(self, n):
        if self.bool: return [self.rng.randint(0, 1) for _ in range(n)]
        return [self.rng.randint(-9999, 9999) for _ in range(n)]

    def sub(self, p, k, a):
        d, nc, depth = self.nodes[p]
        self.o.append("sub %d %s %d %s" % (p, k, self.rng.randint(0, 1), lv(a)))
        self.nodes.append((subdims(k, d, a), 1 if k in ("real", "imag") else nc, depth + 1))

    def dom(self, n):
        rng = self.rng
        l = rng.randint(1, n)
        if l == 1: return [rng.randrange(n), rng.choice([1, 1, 2]), 1]
        smax = (n - 1) // (l - 1)
        s = rng.randint(1, smax)
        f = rng.randint(0, n - 1 - s * (l - 1))
        if rng.random() < .4: return [f + s * (l - 1), -s, l]
        return [f, s, l]

    def rsub(self):
        rng = self.rng
        cand = [i for i, x in enumerate(self.nodes) if x[2] < self.maxd]
        if not cand: return
        p = rng.choice(cand)
        d, nc, _ = self.nodes[p]
        ks = {1: ["dom"], 2: ["dom", "row", "col", "diag", "trans"], 3: ["dom", "slice", "slicesub", "slice2", "slice2sub", "perm"]}[len(d)]
        if nc == 2: ks = ks + ["real", "imag"]
        k = rng.choice(ks)
        a = []
        if k == "dom": a = sum((self.dom(n) for n in d), [])
        elif k == "row": a = [rng.randrange(d[0])]
        elif k == "col": a = [rng.randrange(d[1])]
        elif k == "diag": a = [rng.randint(1 - d[0], d[1] - 1)]
        elif k == "perm": a = rng.sample([0, 1, 2], 3)
        elif k.startswith("slice2"):
            x, y = rng.choice([(1, 2), (1, 3), (2, 3)])
            a = [x, rng.randrange(d[x - 1]), y, rng.randrange(d[y - 1])]
            if k == "slice2sub": a += self.dom(d[6 - x - y - 1])
        elif k.startswith("slice"):
            x = rng.randint(1, 3)
            a = [x, rng.randrange(d[x - 1])]
            if k == "slicesub": a += sum((self.dom(d[n]) for n in range(3) if n + 1 != x), [])
        self.sub(p, k, a)

    def access(self, i):
        rng = self.rng
        d, nc, _ = self.nodes[i]
        op = rng.choice(["read", "read", "put", "put", "fill", "assign", "assign"])
        if op == "read": self.o.append("read %d %d" % (i, rng.randint(0, 2)))
        elif op == "put": self.o.append("put %d %d %d %s" % (i, rng.randint(0, 1), rng.randrange(prod(d)), lv(self.vals(nc))))
        elif op == "fill": self.o.append("fill %d %s" % (i, lv(self.vals(nc))))
        else: self.o.append("assign %d %d %s" % (i, rng.randint(0, 1), lv(self.vals(prod(d) * nc))))

    def text(self): return "\n".join(self.o)


def run(c):
    exe = vlib.build("c02", ["c02_main.cpp"] + [("c02_reg.cpp", ["-DPART=%d" % i], str(i)) for i in range(1, 9)], variant="plain0")
    for i in (1, 2, 3): c.model("ViewsMC", "ViewsMC_%d" % i)
    rng = c.rng
    sc = []
    for cfg, dims, kinds in (("ViewsGen_1", [4], ["v_c", "v_s"]), ("ViewsGen_2", [3, 4], ["m_fr", "m_fc", "m_bool"]),
                             ("ViewsGen_2c", [2, 3], ["m_cr", "m_s"]), ("ViewsGen_3", [2, 3, 2], ["t_f012", "t_f201"]),
                             ("ViewsGen_3c", [2, 3, 2], ["t_c120", "t_s021"])):
        hs = vlib.histories(c, "ViewsMC", cfg, minimum=50)
        for k in kinds:
            for h in hs:
                s = S(rng, k, dims)
                for p, (op, a) in enumerate(h): s.sub(p, op, a)
                n = len(s.nodes) - 1
                s.access(n); s.access(n)
                s.access(rng.randint(0, n))
                s.o.append("read %d %d" % (n, rng.randint(0, 2)))
                sc.append(s.text())
    gen = len(sc)
    kinds = sorted(KINDS)
    for i in range(2500 if QUICK else 60000):
        k = kinds[i % len(kinds)]
        r = KINDS[k][0]
        s = S(rng, k, [rng.randint(1, {1: 12, 2: 6, 3: 4}[r]) for _ in range(r)])
        for _ in range(rng.randint(3, 14)):
            if rng.random() < .4: s.rsub()
            else: s.access(rng.randrange(len(s.nodes)))
        sc.append(s.text())
    rng.shuffle(sc)
    c.notes["chains_from_model"] = gen
    c.conform(exe, "ViewsTrace", sc, parts=8)
    c.assumptions += ["integer element values; base extents at most 12 / 6x6 / 4x4x4; chains of at most 3 operators (2 for rank 3)"]


vlib.main(run, "C02")
