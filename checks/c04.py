#!/usr/bin/env python3
"""C04: lifetimes of block storage: random histories of making, copying, deriving, assigning and dropping views, blocks, expressions
and processing objects (also from several threads) over recording allocators, checked against spec/Lifetime."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK, lv

DIM = {0: 1, 1: 1, 2: 2, 3: 2, 4: 3, 5: 1, 6: 1, 8: 2}
CX = {1, 3, 6}


class Hd:
    def __init__(self, kind, path="", dim=0, cx=False, whole=True, const=False, set_=True, what="v", root=None, plain=False, weak=False, n=None):
        self.kind, self.path, self.dim, self.cx, self.whole, self.const, self.what, self.plain = kind, path, dim, cx, whole, const, what, plain
        self.root = root if root is not None else {"set": set_, "cx": cx, "n": n}
        self.weak = weak       # an expression: it does not keep its operands

    def ty(self): return (self.kind, self.path, self.plain)


class Sc:
    def __init__(self, rng, kinds):
        self.rng, self.kinds = rng, kinds
        self.s, self.h = ["begin"], []

    def live(self, f=lambda x: True): return [i for i, x in enumerate(self.h) if x and f(x)]

    def mk(self):
        r = self.rng
        kind = r.choice(self.kinds)
        n, k = r.randint(1, 6), r.randint(-20, 20)
        if kind == 7:
            self.s.append("mk 7 %s %d 0" % (r.choice("abcdefghijkl"), n)); self.h.append(Hd(7, what="o")); return
        mode = r.choice("vl" if kind == 5 else "vls" if kind == 6 else "vvlLnbB")
        self.s.append("mk %d %s %d %d" % (kind, mode, n, k))
        self.h.append(Hd(kind, dim=DIM[kind], cx=kind in CX, set_=mode != "L", what="b" if mode == "B" else "v", n=n))

    def der(self):
        r = self.rng
        c = self.live(lambda x: (x.what == "v" and len(x.path) < 2 and not x.plain) or x.what == "b")
        if not c: return
        i = r.choice(c); x = self.h[i]
        if x.what == "b":
            self.s.append("der %d V %d" % (i, i))
            self.h.append(Hd(x.kind, "", x.dim, x.cx, True, False, root=x.root)); return
        hows = "knma" + ("L" if not x.path else "") + {1: "st", 2: "sTrld", 3: "sTrld"}[x.dim] + ("RI" if x.cx else "")
        how = r.choice(hows)
        o = i
        if how == "a": o = r.choice(self.live(lambda y: y.what == "v" and y.ty() == x.ty() and y.path == x.path and y.root.get("n") == x.root.get("n")))
        self.s.append("der %d %s %d" % (i, how, o))
        d = x.dim
        if how in "rld": d = 1 if x.dim == 2 or how == "d" else 2
        root = x.root if how != "a" else {"n": x.root["n"], "set": x.root["set"], "sub": [x.root, self.h[o].root]}
        self.h.append(Hd(x.kind, x.path + how, d, x.cx and how not in "RI", x.whole and how in "kTL", x.const or how in "knma", root=root, weak=x.weak or how in "nma"))

    def isset(self, root): return all(self.isset(q) for q in root["sub"]) if "sub" in root else root["set"]

    def step(self):
        r = self.rng
        x = r.random()
        v = self.live(lambda y: y.what == "v")
        if x < .14 or not self.live(): self.mk()
        elif x < .26: i = r.choice(self.live()); self.s.append("copy %d" % i); self.h.append(self.h[i])
        elif x < .48: self.der()
        elif x < .60:
            c = [i for i in v if self.isset(self.h[i].root)]
            if c: self.s.append("read %d" % r.choice(c))
        elif x < .67:
            c = [i for i in v if self.h[i].whole and not self.h[i].const and not self.h[i].plain or (i in v and self.h[i].plain)]
            c = [i for i in c if self.h[i].whole and not self.h[i].const]
            if c:
                i = r.choice(c); y = self.h[i]
                if y.kind == 6 and y.path == "" and r.random() < .5: self.s.append("rebind %d %d" % (i, r.randint(-20, 20)))
                else: self.s.append("fill %d %d %d" % (i, r.randint(-20, 20), int(y.cx)))
                y.root["set"] = True
        elif x < .72:
            c = [i for i in v if self.h[i].whole and not self.h[i].const]
            if c:
                i = r.choice(c); y = self.h[i]
                o = [j for j in v if self.h[j].ty() == y.ty() and self.h[j].dim == y.dim and self.isset(self.h[j].root)]
                if o and self.same_size(i, o): pass
        elif x < .77:
            c = [i for i in v if self.h[i].kind != 5 and self.isset(self.h[i].root)]
            if c:
                i = r.choice(c); y = self.h[i]
                self.s.append("fresh %d" % i)
                self.h.append(Hd(("f", y.kind, y.cx), "", y.dim, y.cx, True, False, plain=True))
        elif x < .80:
            k = r.choice([0, 1, 2, 3, 3, 4, 8])
            self.s.append("fail %d %s %d %d" % (k, r.choice("vnB"), r.randint(1, 5), r.randint(1, 2 if k == 3 else 1)))
        elif x < .82: self.s.append("default %d" % r.randint(0, 1))
        elif x < .86:
            c = self.live(lambda y: y.what == "o")
            if c: self.s.append("use %d" % r.choice(c))
        else: self.drop(r.choice(self.live()))

    def same_size(self, i, o):
        """element-wise assignment needs equal sizes: a handle of the same root, derived in the same way"""
        c = [j for j in o if self.h[j].root is self.h[i].root and self.h[j].path == self.h[i].path]
        if not c: return False
        self.s.append("assign %d %d" % (i, self.rng.choice(c)))
        return True

    def roots(self, root): return [q for p in root["sub"] for q in self.roots(p)] if "sub" in root else [root]

    def prune(self, going):
        """expressions go before the last view of what they refer to"""
        for i, x in enumerate(self.h):
            if x and x.weak and i not in going:
                for q in self.roots(x.root):
                    if not any(y and j not in going and not y.weak and q is y.root and not (x.kind == 5 and "L" in y.path and "L" not in x.path) for j, y in enumerate(self.h)):
                        self.s.append("drop %d" % i); self.h[i] = None
                        break

    def drop(self, i):
        if not self.h[i]: return
        self.prune([i]); self.s.append("drop %d" % i); self.h[i] = None

    def end(self):
        c = self.live(); self.rng.shuffle(c)
        for i in c: self.drop(i)
        self.s.append("end")
        return "\n".join(self.s)


def scenario(rng, race):
    kinds = rng.choice([[0, 1, 2, 3, 4, 5, 6, 7, 8], [rng.choice([0, 1, 2, 3, 4, 5, 6, 8])], [7], rng.sample([0, 1, 2, 3, 4, 5, 6, 8], 2)])
    s = Sc(rng, kinds)
    for _ in range(rng.randint(8, 30)): s.step()
    if race:
        c = s.live(lambda y: y.what in "vb" and y.kind != 5 and not y.weak and s.isset(y.root))
        for k in (0, 1, 2): 
            if len(c) < 2: s.mk(); c = s.live(lambda y: y.what in "vb" and y.kind != 5 and not y.weak and s.isset(y.root))
        c = rng.sample(c, min(len(c), rng.randint(1, 4)))
        if c:
            s.prune(c)
            s.s.append("race %d %d %s" % (rng.randint(2, 4), rng.choice([10, 40, 100]), lv(c)))
            for i in c: s.h[i] = None
            for _ in range(rng.randint(0, 6)): s.step()
    return s.end()


def run(c):
    exe = vlib.build("c04", ["c04_main.cpp"] + [("c04_reg.cpp", ["-DPART=%d" % p], "p%d" % p) for p in range(9)], variant="plain0")
    c.model("LifetimeMC", "LifetimeMC" if QUICK else "LifetimeMC_all", timeout=3000)
    k = 8000 if QUICK else 40000
    c.conform(exe, "LifetimeTrace", [scenario(c.rng, i % 12 == 0) for i in range(k)], parts=8, timeout=600)
    c.assumptions += ["elements of a block all have one value, so that every handle's value is known", "views of a block are used by several threads without synchronisation of their own only for reading"]


vlib.main(run, "C04")
