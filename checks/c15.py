#!/usr/bin/env python3
"""C15: random generators: interleaved scalar and view requests to several generators (both kinds, subsequences),
and requests around a whole generator period, checked against spec/RandTrace."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK, lv


def scenario(rng, i):
    s, nid = ["begin"], rng.choice([1, 1, 2, 3])
    T = "fdzw"[i % 4]
    shared = rng.random() < .5          # subsequences of one split stream
    p, n, seed = rng.random() < .5, rng.choice([1, 2, 3, 4, 5, 8, 12, 100]), rng.choice([0, 1, 5, 77, 2**31 - 1, 2**31, 2**32 - 1, rng.randrange(2**32)])
    for k in range(nid):
        if not shared: p, n, seed = rng.random() < .5, rng.choice([1, 2, 3, 6, 7, 16, 64, 100]), rng.randrange(2**32)
        if rng.random() < .15: s.append("mk %s %d 1 1 %d 0" % (T, seed, p))
        else: s.append("mk %s %d %d %d %d 1" % (T, seed, n, rng.choice([1, n, rng.randint(1, n)]), p))
        T = rng.choice("fdzw")
    for _ in range(rng.randint(2, 6)):
        a, k, r = rng.randrange(nid), rng.choice("un"), rng.random()
        if r < .3: s.append("draw %d %s - 0" % (a, k))
        elif r < .6: s.append("draw %d %s %s %s" % (a, k, rng.choice("dsncgiz"), lv([rng.randint(1, 9)])))
        elif r < .85: s.append("draw %d %s %s %s" % (a, k, rng.choice("ddcstgz"), lv([rng.randint(1, 4), rng.randint(1, 4)])))
        else: s.append("draw %d %s %s %s" % (a, k, rng.choice("ddc"), lv([rng.randint(1, 3) for _ in range(3)])))
        if rng.random() < .04: s.append("burn %d %s %d" % (a, rng.choice("un"), rng.randint(1, 20000)))
    return "\n".join(s)


def period(T, k, first):
    """first single uniform draws, then exactly the rest of the period of the second generator in requests of kind k"""
    per = {("d", "u"): 1, ("d", "n"): 12, ("w", "n"): 6, ("w", "u"): 2, ("f", "n"): 12, ("z", "n"): 6, ("f", "u"): 1}[T, k]
    one = 2 if T in "zw" else 1
    left = 2**32 - first * one
    calls, tail = left // per, left % per
    s = ["begin", "mk %s 12345 1 1 1 0" % T] + ["draw 0 u - 0"] * first
    # stop some requests before the end: the last ones are logged
    s.append("burn 0 %s %d" % (k, calls - 3))
    s += ["draw 0 %s d 1 6" % k, "draw 0 u - 0", "draw 0 n - 0"]
    return "\n".join(s)


def run(c):
    exe = vlib.build("c15", ["c15.cpp"])
    c.model("RandMC", "RandMC" if QUICK else "RandMC_all", timeout=1200)
    sc = [scenario(c.rng, i) for i in range(1200 if QUICK else 30000)]
    big = [period("d", "u", 1), period("d", "n", 3), period("w", "n", 1), period("w", "n", 2)]
    if not QUICK: big += [period(T, k, f) for T, k in [("f", "u"), ("f", "n"), ("z", "n"), ("w", "u")] for f in (0, 3)]
    n = max(1, len(sc) // 8)
    for i, b in enumerate(big): sc.insert(min(len(sc), i % 8 * (n + 1)), b)
    c.conform(exe, "RandTrace", sc, parts=8, timeout=900 if not QUICK else 300)
    c.assumptions += ["float streams are compared within the rounding of the documented sums; double streams exactly"]


vlib.main(run, "C15")
