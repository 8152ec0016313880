#!/usr/bin/env python3
"""C09: direct data access. Histories of data-access objects (every block form, requested layout, policy, user buffers,
compile-time and run-time layouts) are checked against spec/DdaTrace."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK, lv

PART = {1: (1, 1), 2: (1, 2), 3: (2, 1), 4: (2, 2), 5: (3, 1), 6: (3, 2), 8: (1, 2)}   # part: (dimensions, numbers per element)


class G:
    def __init__(self, rng): self.rng = rng; self.val = 1000

    def steps(self, n, pol, expr):
        rng, out = self.rng, []
        def w(k):
            self.val = 100 + (self.val - 99) % 20000
            return "w %d %d" % (k, self.val)
        def k(k):
            self.val = 100 + (self.val - 99) % 20000
            return "k %d %d" % (k, self.val)
        may = pol & 6
        for _ in range(rng.randint(0, 6)):
            c = rng.random()
            p = rng.randrange(n)
            if c < .45 and may and not expr: out.append(w(p))
            elif c < .6 and not expr:
                out.append(k(p))
                # after a store through the block an object that writes back is brought up to date first
                if pol & 2: out.append("i" if pol & 1 else w(p))
            elif c < .75: out.append("i")
            else: out.append("o")
        if may and not expr and rng.random() < .4:
            ks = list(range(n)); rng.shuffle(ks)
            out += [w(p) for p in ks]
            if rng.random() < .3: out.append("o")
        return " ".join(out + ["."])

    def obj(self, D, w, n, expr, part):
        rng = self.rng
        pol = rng.choice([1, 5] if expr else [1, 2, 3, 3, 5, 6, 7])
        rt = rng.random() < .25
        if rt: pol = 1 if expr else rng.choice([1, 2, 3])
        o = rng.choice("012345" if rt and D == 3 else "rcx"[::2 if part == 6 else 1] if D == 3 else "rc" if D == 2 else "r")
        f = rng.choice("ais") if w == 2 else "a"
        pk = rng.choice("ddu13" if rt else "ddua1" if part in (4, 6, 8) else "ddua13")
        ub = 0 if rt else int(rng.random() < .35)
        return "%s %s %s %s %d %d %s" % ("r" if rt else "c", o, f, pk, pol, ub, self.steps(n, pol, expr))

    def session(self):
        rng = self.rng
        part = rng.choice(list(PART))
        D, w = PART[part]
        d = [rng.randint(1, 9)] if D == 1 else [rng.choice([1, 2, 3, 4, 5]) for _ in range(2)] if D == 2 else [rng.choice([1, 2, 3, 4]) for _ in range(3)]
        n = 1
        for x in d: n *= x
        f = rng.choice({1: "dsncru", 2: "dnz", 8: "dnz", 3: "dcst", 4: "csz", 5: "035st", 6: "3t"}[part])
        kind = rng.choice("wwww" + {2: "ERR", 4: "EII", 6: "w", 8: "w"}.get(part, "E"))
        vals = [rng.randint(-90, 90) for _ in range(n * w)]
        ww = 1 if kind in "RI" else w
        objs = [self.obj(D, ww, n, kind == "E", part) for _ in range(rng.randint(1, 3))]
        return "begin\nses %d %s %s %s %s %s ;" % (part, lv(d), f, kind, lv(vals), " ".join(objs))


def run(c):
    exe = vlib.build("c09", ["c09_main.cpp"] + [("c09_reg.cpp", ["-DPART=%d" % i], "p%d" % i) for i in (1, 2, 3, 4, 5, 6, 8)], variant="plain0")
    c.model("DdaMC", "DdaMC" if QUICK else "DdaMC_all", timeout=1200)
    g = G(c.rng)
    c.conform(exe, "DdaTrace", [g.session() for _ in range(9000 if QUICK else 150000)])
    c.assumptions += ["while a write-back copy is alive, stores through the block are followed by sync_in (or by a store through the pointer) as the contract asks",
                      "device data and distributed (remote) access are covered by C06/C07 only through assignment",
                      "alignment of the pointer is required of library-allocated buffers, not of user-supplied ones"]


vlib.main(run, "C09")
