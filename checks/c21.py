#!/usr/bin/env python3
"""C21: serialisation: random blocks, views of them and user storage are described, the described storage is copied and blocks of other
types are bound to it; and arbitrary descriptors are offered to all block types; checked against spec/SerialTrace."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK, lv
TYPES = [0, 1, 4, 5, 6, 7] + [b * 1024 + u * 512 + 256 for b in (1, 2, 4, 8) for u in (0, 1)] + [65536]
ORD = {1: [(0, 1, 2)], 2: [(0, 1, 2), (1, 0, 2)], 3: [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]}


def src(rng):
    t = rng.randrange(8)
    d = rng.choice([1, 2, 2, 3])
    cx = t in (1, 5)
    pk = rng.choice("dDauU")
    f = rng.choice([1, 2, 3]) if cx and pk != "D" else 1
    n = [rng.randint(1, 9 if d < 3 else 5) for _ in range(d)]
    head = "src %d %d %d %d %s %s" % (t, d, rng.randrange(2), f, pk, lv(n))
    if pk in "uU": return head
    q = []
    if rng.random() < .5:
        for m in n:
            c = rng.randint(1, m)
            st = rng.choice([1, 1, 1, 2, 3, -1])
            while (c - 1) * abs(st) >= m: st = 1
            a = rng.randint(0, m - 1 - (c - 1) * st) if st > 0 else rng.randint((c - 1) * -st, m - 1)
            if rng.random() < .5: a, st, c = 0, 1, m
            q += [a, st, c]
    return head + " %s %d" % (lv(q), rng.randrange(5))


def desc(rng):
    ty, d = rng.choice(TYPES), rng.choice([1, 2, 2, 3, 3])
    o = rng.choice(ORD[d])
    n = [rng.randint(0, 6) if rng.random() < .9 else rng.choice([100, 1000]) for _ in range(3)]
    st, k = [0, 0, 0], 1
    for i in reversed(o[:d]): st[i] = k; k *= n[i]
    fmt = rng.choice([1, 1, 2, 3])
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        w = rng.randrange(5)
        if w == 0: ty = rng.choice(TYPES + [ty ^ (1 << rng.randrange(15)), ty + 1, 65537, 65536 + 256, 65536 + 4])
        elif w == 1: d = rng.choice([0, 1, 2, 3, 3, 2, 4, 255])
        elif w == 2: fmt = rng.choice([0, 1, 2, 3, 4, 255])
        elif w == 3: i = rng.randrange(3); st[i] = rng.choice([-st[i], st[i] + 1, 0, 1, 2, -1, n[rng.randrange(3)], n[0] * n[1], n[1] * n[2]])
        else: n[rng.randrange(3)] += rng.choice([-1, 1, 1])
    n = [max(x, 0) for x in n]
    if ty < 65536 and ty & 256: ty &= ~255          # codes in the reserved range that no type has
    return "desc %s %s %s" % (lv([ty, d, fmt, rng.randint(0, 100)]), lv(n), lv(st))


def run(c):
    exe = vlib.build("c21", ["c21_main.cpp"] + [("c21_reg.cpp", ["-DPART=%d" % p], "p%d" % p) for p in range(8)], variant="plain0")
    c.model("SerialMC", "SerialMC" if QUICK else "SerialMC_all", timeout=3000)
    k = 1500 if QUICK else 30000
    c.conform(exe, "SerialTrace", ["\n".join(["begin"] + [src(c.rng) for _ in range(4)] + [desc(c.rng) for _ in range(8)]) for _ in range(k)], parts=8, timeout=600)
    c.assumptions += ["storage_size counts elements for data objects and scalars for user storage, as implemented; sizes up to 9 per dimension for real data"]


vlib.main(run, "C21")
