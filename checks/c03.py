#!/usr/bin/env python3
"""C03: all small pairs of 1-D domains (enumerated by TLC from spec/Domains) and random 1-3-D ones
through the domain algebra; every traversal of small extents; traces validated against DomainsTrace."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK, jn, lv

ORD = {1: [(0,)], 2: [(0, 1), (1, 0)], 3: list(itertools.permutations(range(3)))}


def rdom(rng, big, unit=False, inc=False, n=None):
    F, L, S = (40, 12, 7) if big else (6, 5, 3)
    n = rng.randint(0 if rng.random() < .1 else 1, L) if n is None else n
    s = 1 if unit else rng.randint(1, S)
    f = rng.randint(0, F)
    if not inc and not unit and rng.random() < .5:
        f, s = f + s * max(0, n - 1), -s
    return [f, s, n]


def pair(rng, a, b, D):
    """ops on two domains in registers 0, 1"""
    o = ["mk %d 0 %d %s" % (D, rng.randint(0, 2), lv(a)), "mk %d 1 %d %s" % (D, rng.randint(0, 2), lv(b))]
    empty = any(x == 0 for x in a[2::3] + b[2::3])
    if not (D > 1 and empty): o.append("eq %d 0 1" % D)
    o.append("conf %d 0 1" % D)
    if all(s == 1 for s in a[1::3]) and all(s > 0 for s in b[1::3]):
        x = sum((rdom(rng, True, n=n) for n in a[2::3]), [])
        t = sum((rdom(rng, False) for n in range(D)), [])
        o += ["mk %d 2 0 %s" % (D, lv(x)), "mk %d 3 0 %s" % (D, lv(t)), "intersect %d 0 1 3 2 4" % D]
    return o


def run(c):
    exe = vlib.build("c03", ["c03.cpp"])
    c.model("DomainsMC")
    rng = c.rng
    sc = []
    cur = []
    for h in vlib.histories(c, "DomainsMC", "DomainsGen", minimum=1000):
        cur += pair(rng, h[:3], h[3:], 1)
        if len(cur) > 200:
            sc.append("\n".join(["begin"] + cur)); cur = []
    if cur: sc.append("\n".join(["begin"] + cur))
    M = 5 if QUICK else 9
    for D in (1, 2, 3):
        for e in itertools.product(*[range(0, (M if D < 3 else M - 1) + 1)] * D):
            for o in ORD[D]:
                sc.append("begin\ntrav %s %s %d" % (lv(e), lv(o), rng.randint(0, 1)))
    for i in range(1500 if QUICK else 60000):
        D = rng.randint(1, 3)
        big = rng.random() < .5
        o = ["begin"]
        same = rng.random() < .3
        a = sum((rdom(rng, big, unit=i % 2) for _ in range(D)), [])
        b = sum((rdom(rng, big, inc=i % 2) for _ in range(D)), [])
        if same:        # nearly the same set
            b = list(a)
            for d in range(D):
                r = rng.random()
                if r < .5: b[3*d:3*d+3] = [a[3*d] + a[3*d+1] * max(0, a[3*d+2] - 1), -a[3*d+1], a[3*d+2]]
                elif r < .6: b[3*d] += 1
                elif r < .7 and a[3*d+2] > 1: b[3*d+2] -= 1
            if any(b[3*d] < 0 for d in range(D)): b = list(a)
        o += pair(rng, a, b, D)
        o.append("mk 2 5 0 " + lv(rdom(rng, False) + rdom(rng, False)))
        o.append("pconf %d 0 5" % D)
        if any(n == 0 for n in a[2::3]):
            sc.append("\n".join(o)); continue
        k = rng.randint(0, 9); m = rng.randint(1, 4)
        o.append("shift %d 0 2 %d %d" % (D, k, rng.randint(0, 4)))
        o.append("shift %d 2 3 %d %d" % (D, -k, rng.randint(0, 4)))
        o.append("eq %d 3 0" % D)
        if all(s > 0 for s in a[1::3]) or all(a[3*d] + a[3*d+1] * m * (a[3*d+2] - 1) >= 0 for d in range(D)):
            o.append("scale %d 0 4 %d %d" % (D, m, rng.randint(0, 2)))
            o.append("unscale %d 4 3 %d" % (D, m))
            o.append("eq %d 0 3" % D)
            if any(s % 2 for s in a[1::3]) == False: o.append("unscale %d 0 6 2" % D)
        o.append("normal %d 0 2" % D)
        o.append("project %d 0 6 %d" % (D, rng.randint(1, D)))
        o.append("empty %d 7" % D)
        o.append("copy %d 1 0" % D)
        o.append("index %d %s %s" % (D, lv([rng.randint(0, 2) for _ in range(D)]), lv([rng.randint(0, 2) for _ in range(D)])))
        sc.append("\n".join(o))
    rng.shuffle(sc)
    c.conform(exe, "DomainsTrace", sc, parts=8)
    c.assumptions += ["empty domains take part in size, conformance and intersection; equality of multi-dimensional domains is judged for non-empty ones",
                      "domain values below about 100"]


vlib.main(run, "C03")
