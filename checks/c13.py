#!/usr/bin/env python3
"""C13: histogram objects: random histories of accumulating/replacing calls on several objects, over element
types, view forms and values (below, at every bin edge, above, extreme), checked against spec/HistoTrace."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK, lv
BIG = 1888888888


def scenario(rng, i, n_calls):
    s, o = ["begin"], []

    def mk():
        T = "fdih"[i % 4] if not o else rng.choice("fdih")
        n = rng.choice([3, 3, 4, 5, 6, 7, 9, 12, 34])
        if T in "fd":
            w = rng.choice([1, 2, 3, 4, 5, 7, 8, 16])
            rngw = w * (n - 2)
        else: rngw = rng.choice([1, 2, 3, 5, 7, 10, 11, 50, 97])
        mn = rng.randint(-60, 40)
        if T in "di" and rng.random() < .15: mn += rng.choice([-400000001, 300000003])
        h = [rng.randint(0, 5) for _ in range(n)] if rng.random() < .2 else []
        s.append("mk %s %d %d %d %d %s %s" % (T, mn, mn + rngw, n, rng.choice([0, 0, 1, 3, 6]) if T in "fd" else 0, rng.choice("dsncru"), lv(h)))
        o.append((T, mn, mn + rngw, n))

    mk()
    for _ in range(n_calls):
        if rng.random() < .15 and len(o) < 3: mk()
        a = rng.randrange(len(o))
        T, mn, mx, n = o[a]

        def val():
            r = rng.random()
            if r < .55: return rng.randint(mn - 2, mx + 2)
            if r < .8: return mn + (mx - mn) * rng.randint(0, n - 2) // (n - 2) + rng.choice([-1, 0, 0])
            if r < .9: return rng.choice([mn, mx, mx - 1, mn - 1])
            if T == "h": return rng.choice([-32768, 32767, -30000, 9999])
            return rng.choice([BIG, -BIG, 20000, -20000])
        if rng.random() < .5: r, c = 0, rng.choice([1, 2, 3, 5, 8, 13, 16, 20, 33])
        else: r, c = rng.randint(1, 5), rng.randint(1, 6)
        x = [val() for _ in range(c * max(r, 1))]
        f = rng.choice("dsncrue") if r == 0 else rng.choice("dcstze")
        s.append("call %d %d %s %d %d %s" % (a, rng.random() < .6, f, r, c, lv(x)))
    return "\n".join(s)


def run(c):
    exe = vlib.build("c13", ["c13.cpp"])
    c.model("HistoMC", "HistoMC" if QUICK else "HistoMC_all", timeout=1200)
    c.conform(exe, "HistoTrace", [scenario(c.rng, i, c.rng.randint(2, 8)) for i in range(1600 if QUICK else 30000)])
    c.assumptions += ["floating-point minimum, maximum and bin width are exactly representable; NaN is excluded"]


vlib.main(run, "C13")
