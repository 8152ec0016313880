#!/usr/bin/env python3
"""C01: histories of the admit/release protocol, generated from spec/UserStorage by TLC and at
random, replayed on every block kind; recorded behaviours are checked against UserStorageTrace."""
import os, sys, json, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK

# kind -> (dimension, complex?, can rebind with a domain, user formats)
K = {}
for k in "d1f d1i d1d a1f".split():
    if k != "a1f": K[k] = (1, 0, 1)
for k in "d1c d1z s1s s1n".split(): K[k] = (1, 1, 1)
for k in "d2fr d2fc a2fr".split(): K[k] = (2, 0, 1)
for k in "d2cr d2cc d2zc s2sr s2sc s2nc a2cc a2sr".split(): K[k] = (2, 1, 1)
for k in "d3f012 d3i021 d3d201 a3f021".split(): K[k] = (3, 0, 1)
for k in "d3c102 d3c120 d3z210 s3s201 s3n120 a3s102".split(): K[k] = (3, 1, 1)
K["m1f"] = (1, 0, 0)
K["m2cc"] = (2, 1, 0)
CAP = 160


def dims_for(rng, d):
    lim = {1: 9, 2: 5, 3: 3}[d]
    return [rng.randint(1, lim) for _ in range(d)]


class Scen:
    """Writes a scenario, tracking just enough of the protocol state to stay inside it."""
    def __init__(self, rng, kind, own=False, fmt=None):
        self.rng, self.kind = rng, kind
        self.d, self.cx, self.rdom = K[kind]
        self.dims = dims_for(rng, self.d)
        self.nc = 2 if self.cx else 1
        self.fmt = 0 if own else (fmt if fmt else (rng.choice([1, 2, 3]) if self.cx else 1))
        self.adm = own
        self.own = own
        self.v = 0
        self.cur = 1
        self.o = []
        ids = [] if own else self.ids(1)
        init = []
        hasinit = 0
        if own and rng.random() < .5:
            hasinit, init = 1, self.vals(self.nc)
        self.o.append("begin %s %d 4 %d %s %d %s %d %s" % (kind, self.fmt, CAP, j(self.dims), len(ids), j(ids), hasinit, j(init)))

    def ids(self, slot):          # slots 1,2: array pairs 1/2 and 3/4
        return [2 * slot - 1, 2 * slot] if self.fmt == 3 else [2 * slot - 1]

    def vals(self, n):
        r = []
        for _ in range(n):
            self.v += 1
            r.append(self.rng.choice([-1, 1]) * (self.v + self.rng.randint(0, 3) * 1000))
        return r

    def n(self):
        p = 1
        for x in self.dims: p *= x
        return p

    def op(self, name, *a):
        rng = self.rng
        if name == "admit":
            self.o.append("admit %d%s" % (a[0], " x" if a[0] and rng.random() < .5 else ""))
            self.adm = True
        elif name == "release":
            self.o.append("release %d %d" % (a[0], rng.randint(0, 1 if self.fmt or not self.cx else 3)))
            self.adm = self.own and self.adm   # an owned block keeps its data; only touched while admitted
        elif name == "find":
            self.o.append("find %d" % rng.randint(0, 0 if self.fmt or not self.cx else 2))
        elif name == "put":
            self.o.append("put %d %d %s" % (rng.randint(0, 1), rng.randrange(self.n()), j(self.vals(self.nc))))
        elif name == "fill":
            how = rng.randint(0, 3)
            if not self.rdom and how in (1, 2, 3): how = rng.choice([0, 1, 3])
            self.o.append("assign %d %s" % (how, j(self.vals(self.nc * (1 if how == 0 else self.n())))))
        elif name == "read":
            self.o.append("read %d" % rng.randint(0, 2))
        elif name == "uwrite":
            ids = self.ids(a[0])
            self.o.append("uwrite %d %d %s" % (rng.choice(ids), rng.randrange(self.n() * (1 if self.fmt == 3 else self.nc)), j(self.vals(1))))
        elif name == "rebind":
            if self.cx and rng.random() < .5: self.fmt = rng.choice([1, 2, 3])
            nd = []
            if self.rdom and rng.random() < .4: nd = self.dims = dims_for(rng, self.d)
            ids = self.ids(a[0])
            self.cur = a[0]
            self.o.append("rebind %d %d %d %s %d %s" % (self.fmt, rng.randint(0, 1), len(ids), j(ids), len(nd), j(nd)))
        else:
            raise Exception(name)

    def end(self):
        if not self.own:
            if self.adm:
                self.op("read"); self.op("release", 1)
            self.op("admit", 1); self.op("read")
            self.op("put"); self.op("release", 1)
        else:
            self.op("read"); self.op("find")
        return "\n".join(self.o)


def j(v):
    return " ".join(map(str, v))


def random_history(rng, kind, n):
    own = rng.random() < .2
    s = Scen(rng, kind, own)
    if own and not s.o[0].split()[-1].lstrip("-").isdigit():
        pass
    if own:
        s.op("fill")
    for _ in range(n):
        if own:
            s.op(*rng.choice([("admit", 0), ("admit", 1), ("put",), ("put",), ("read",), ("fill",), ("find",)]))
        elif s.adm:
            s.op(*rng.choice([("admit", 0), ("admit", 1), ("release", 0), ("release", 1), ("release", 1), ("put",), ("put",), ("read",),
                              ("fill",), ("find",), ("uwrite", 3 - s.cur)]))
        else:
            s.op(*rng.choice([("admit", 0), ("admit", 1), ("admit", 1), ("release", 0), ("release", 1), ("rebind", 1), ("rebind", 2),
                              ("find",), ("uwrite", 1), ("uwrite", 2)]))
    if own and rng.random() < .5:
        s.op("read"); s.op("release", rng.randint(0, 1)); s.op("admit", rng.randint(0, 1))
    return s.end()


def run(c):
    exe = vlib.build("c01", ["c01.cpp"])
    c.model("UserStorageMC")
    r = vlib.tlc_check("UserStorageMC", "UserStorageGen")
    hs = sorted(set(json.dumps(json.loads(m.replace('\\"', '"'))) for m in re.findall(r'"HIST", "(.*?)">>', r["out"])))
    if not r["ok"] or len(hs) < 1000:
        raise vlib.HarnessError("history generation failed\n" + r["out"][-2000:])
    rng = c.rng
    kinds = sorted(K)
    rng.shuffle(hs)
    use = hs if not QUICK else hs[:6000]
    sc = []
    for i, h in enumerate(use):
        k = kinds[i % len(kinds)]
        s = Scen(rng, k)
        for op in json.loads(h):
            if op[0] == "uwrite" and op[1] == s.cur and s.adm: raise vlib.HarnessError("generator")
            s.op(*op[:2])
        sc.append(s.end())
    c.notes["generated_histories_depth5"] = len(hs)
    c.notes["generated_histories_replayed"] = len(use)
    for i in range(2500 if QUICK else 40000):
        sc.append(random_history(rng, kinds[i % len(kinds)], rng.randint(4, 25)))
    rng.shuffle(sc)
    c.conform(exe, "UserStorageTrace", sc, parts=8)
    c.notes["block_kinds"] = len(kinds)
    c.assumptions += ["elements are integers exactly representable in the element type",
                      "TLC-generated histories are exhaustive to depth 5 over two arrays; block extents and access paths are sampled"]


vlib.main(run, "C01")
