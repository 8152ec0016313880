#!/usr/bin/env python3
"""C05: placement answered by every kind of map for every small extent and many random ones, checked
against the specification of distributions (spec/Maps)."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK, jn, lv

KINDS = ["B", "C", "W", "R1", "BB", "BC", "BW", "CB", "CC", "CW", "WB", "WC", "WW", "R2",
         "BBB", "CCC", "BWC", "WCB", "CBW", "BCB", "CWC", "R3"]


def rank(k): return int(k[1]) if k[0] == "R" else len(k)


def subdom(rng, e):
    r = []
    for n in e:
        if n == 0: return []
        l = rng.randint(1, n)
        s = 1 if l == 1 else rng.randint(1, (n - 1) // (l - 1))
        r += [rng.randint(0, n - 1 - s * (l - 1)), s, l]
    return r


def scen(rng, kind, ext, n=None, c=None, cyc=None):
    D = rank(kind)
    n = [(n[d] if n else rng.randint(1, 5 if D == 1 else 4 if D == 2 else 3)) if d < D else 1 for d in range(3)]
    c = [(c[d] if c else rng.randint(1, 4)) if d < D else 1 for d in range(3)]
    if kind[0] == "R": n = [1, 1, 1]
    else:
        for d in range(D):
            if kind[d] == "W": n[d] = 1
    ns = n[0] * n[1] * n[2]
    P = max(12, ns)
    k = rng.randint(1, 8) if kind[0] == "R" else ns + rng.choice([0, 0, 2])
    ps = rng.sample(range(P if rng.random() < .8 else P + 6), min(k, P))
    if rng.random() < .6 and 0 not in ps: ps[rng.randrange(len(ps))] = 0
    dflt = 0
    if kind[0] == "R" and rng.random() < .2: dflt, ps = 1, [0]
    n2 = c2 = ps2 = []
    if rng.random() < .5 and not dflt:
        n2, c2, ps2 = list(n), list(c), list(ps)
        for _ in range(rng.randint(0, 2)):
            r = rng.random()
            if r < .3 and len(ps2) > 1:
                i, j = rng.sample(range(len(ps2)), 2); ps2[i], ps2[j] = ps2[j], ps2[i]
            elif r < .5: c2[rng.randrange(D)] = rng.randint(1, 4)
            elif r < .7 and kind[0] != "R":
                d = rng.randrange(D)
                if kind[d] != "W" and n2[d] > 1: n2[d] -= 1
            elif r < .8 and kind[0] == "R" and len(ps2) > 1: ps2 = ps2[:-1]
        if len(ps2) < n2[0] * n2[1] * n2[2]: n2, c2, ps2 = n, c, ps
    sub = subdom(rng, ext) if "C" not in kind and kind[0] != "R" else []
    return "begin %s %d %s %s %s %s %s %s %s %s" % (kind, dflt, lv(ext), lv(n), lv(c), lv(ps), lv(n2), lv(c2), lv(ps2), lv(sub))


def run(c):
    exe = vlib.build("c05", ["c05_main.cpp"] + [("c05_reg.cpp", ["-DPART=%d" % i], str(i)) for i in range(1, 5)], variant="plain0")
    c.model("MapsMC")
    rng = c.rng
    sc = []
    for e in range(1, 15 if QUICK else 33):          # every small 1-D map
        for n in range(1, 7 if QUICK else 13):
            sc.append(scen(rng, "B", [e], [n], [1]))
            for ct in range(1, 6 if QUICK else 9):
                sc.append(scen(rng, "C", [e], [n], [ct]))
    for i in range(1500 if QUICK else 40000):
        k = KINDS[i % len(KINDS)]
        D = rank(k)
        sc.append(scen(rng, k, [rng.randint(1, {1: 40, 2: 9, 3: 5}[D]) for _ in range(D)]))
    c.conform(exe, "MapsTrace", sc, parts=8)
    c.assumptions += ["placement is computed on one process for arbitrary processor sets; the local parts on several processes are covered by C06 and C07"]


vlib.main(run, "C05")
