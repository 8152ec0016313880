#!/usr/bin/env python3
"""C07: programs of element access, reductions, element-wise expressions, local views and communicator
calls over distributed arrays on 1..6 processes; what every rank gets is checked against one logical
array (spec/DistTrace); the pace-independence argument is model-checked in spec/SharedArrayMC."""
import os, sys, re, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, dist
from dist import rank, arr, subdom, merge, around
from vlib import QUICK, jn, lv

LIM = 1 << 22


def table(exe):
    p = subprocess.run([exe, "-list"], stdout=subprocess.PIPE, text=True, env=vlib.RUN_ENV)
    ops, comms = [], []
    for w in p.stdout.split():
        if w.startswith("op:"):
            f = w.split(":")[1:]
            ops.append((f[0], [(x[:-1], x[-1]) for x in f[1:-1]], f[-1]))
        elif w.startswith("comm:"):
            comms.append(tuple(w.split(":")[1:]))
    if len(ops) < 100 or len(comms) < 10:
        raise vlib.HarnessError("driver lists no operations")
    return sorted(ops), sorted(comms)


class Sc:
    def __init__(self, rng, np):
        self.rng, self.np, self.s, self.a = rng, np, ["begin"], []      # a: [kind, T, ext, bound]

    def new(self, kind, T, ext):
        rng = self.rng
        base, step = rng.randint(-5, 9), rng.choice([1, 1, -1, 2, 0])
        if T in "uxhb": base, step = rng.randint(0, 9), rng.choice([0, 1])
        n = 1
        for e in ext: n *= e
        if kind[0] == "L":
            k = kind[:-1]
            self.s.append("arr %s %s %s %s %s %s %d %d" % (kind, T, lv(ext), lv([1, 1, 1]), lv([1, 1, 1]), lv(list(range(self.np))), base, step))
        else:
            self.s.append(arr(rng, self.np, kind, T, ext, base, step))
        self.a.append([kind, T, ext, abs(base) + abs(step) * n])
        return len(self.a) - 1

    def operand(self, kind, form, T, shape, avoid=()):
        """An array (possibly an existing one) and a selection of that shape."""
        rng = self.rng
        if form == "w" and rng.random() < .6:
            c = [i for i, x in enumerate(self.a) if x[0] == kind and x[1] == T and x[2] == shape and i not in avoid]
            if c: return rng.choice(c), []
        e, x = around(rng, rank(kind), form, shape)
        return self.new(kind, T, e), x

    def op(self, o):
        rng = self.rng
        name, forms, T = o
        kd, fd = forms[0]
        D = rank(kd)
        vd = 1 if fd in "rcdpqu" else 2 if fd in "xyz" else D
        shape = [rng.randint(1, {1: 13, 2: 6, 3: 4}[vd]) for _ in range(vd)]
        if vd == 1 and D == 1 and rng.random() < .1: shape = [rng.randint(20, 50)]
        c = [x[2] for x in self.a if x[1] == T and len(x[2]) == vd]
        if c and rng.random() < .8: shape = rng.choice(c)
        d, dd = self.operand(kd, fd, T, shape)
        n = 1
        for e in shape: n *= e
        inplace = all(f == "w" for _, f in forms)
        os_ = [self.operand(k, f, T, shape, () if inplace else (d,)) for k, f in forms[1:]]
        b = [self.a[i][3] for i, _ in os_]
        mx = self.a[d][3]
        x = []
        if name in ("get", "put"):
            x = [rng.randrange(e) for e in shape]
            if name == "put":
                x.append(rng.randint(0, 1) if T == "b" else rng.randint(0, 99)); nb = max(mx, 99)
            else: nb = mx
        elif name in ("fill", "lfill"):
            x = [rng.randint(0, 1) if T == "b" else rng.randint(0, 99)]; nb = max(mx, 120)
        elif name == "sum": nb = mx; b = [mx * n]
        elif name == "sumsq": nb = mx; b = [mx * mx * n]
        elif name in ("max", "min", "all", "any"): nb = mx
        elif name == "sadd": x = [rng.randint(0, 9)]; nb = mx + 9
        elif name == "point": nb = 3 * mx + n
        elif name == "add": nb = sum(b)
        elif name == "axpy": x = [rng.randint(-3, 3)]; nb = 3 * b[0] + b[1]
        elif name == "acc": nb = mx + b[0] * b[1]
        elif name == "neg": nb = b[0]
        elif name == "mix": x = [rng.randint(0, 9)]; nb = b[0] + b[1] * b[2] + 9
        elif name == "copyl": nb = b[0]
        elif name == "clip": x = sorted([rng.randint(-9, 30), rng.randint(-9, 30)]) + [rng.randint(-50, 99) for _ in range(2)]; nb = max(b[0], 99)
        elif name[:4] == "user": x = [rng.randint(-9, 9)]; nb = 2 * max(b) + sum(b) + 9
        else: raise vlib.HarnessError("unknown operation " + name)
        if max(b + [nb]) > LIM: return False
        self.a[d][3] = max(nb, mx)
        self.s.append("op %s %d %s %s %s" % (name, d, fd, lv(dd), lv(x)) + "".join(" %d %s %s" % (i, f, lv(od)) for (i, od), (_, f) in zip(os_, forms[1:])))
        return True

    def comm(self, cm):
        rng, np = self.rng, self.np
        name, T = cm
        if name == "bcast": x = [rng.randrange(np), rng.choice([0, 1, 2, 5, 300]), rng.randint(0, 99)]
        elif name == "allred_a": x = [rng.randint(0, 2)] + [rng.randint(0 if T in "ux" else -9, 99) for _ in range(np)]
        elif name == "allred_z": x = [0] + [rng.randint(-9, 99) for _ in range(np)]
        elif name == "allred_l": x = [rng.randint(3, 4)] + [rng.randint(0, 1) if rng.random() < .3 else rng.choice([0, 1]) for _ in range(np)]
        else:
            x = []
            for _ in range(rng.randint(1, 6)):
                x += [rng.randrange(np), rng.randrange(np), rng.choice([1, 2, 3, 8, 20])]
        self.s.append("comm %s %s %s" % (name, T, lv(x)))


def run(c):
    exe = vlib.build("c07", ["dist_main.cpp", "mpiwrap.cpp"] + [("c07_reg.cpp", ["-DPART=%d" % i], str(i)) for i in range(1, 12)], variant="plain0")
    c.model("SharedArrayMC", deadlock=True)
    if not QUICK: c.model("SharedArrayMC", "SharedArrayMC_all", deadlock=True, timeout=1800)
    ops, comms = table(exe)
    bykind = {}
    for o in ops: bykind.setdefault(o[2], []).append(o)
    rng = c.rng
    per = {1: 60, 2: 200, 3: 200, 4: 200, 5: 80, 6: 80} if QUICK else {1: 500, 2: 3000, 3: 4000, 4: 4000, 5: 2000, 6: 2000, 8: 1000}
    k = 0
    for np, n in per.items():
        sc = []
        for i in range(n):
            s = Sc(rng, np)
            o = ops[k * 7 % len(ops)]
            k += 1
            s.op(o)
            for _ in range(rng.randint(1, 6)):
                r = rng.random()
                if r < .15: s.comm(rng.choice(comms))
                elif r < .3: s.s.append("obs")
                else:
                    have = set(x[0] for x in s.a)
                    for _t in range(20):
                        p = rng.choice(bykind[o[2]])
                        if len([1 for kf in p[1] if kf[0] not in have]) <= 1 and len(s.a) < 6: break
                    if len(s.a) < 7: s.op(p)
            s.s += ["obs", "quiet"]
            sc.append("\n".join(s.s))
        env = dict(VH_DELAY=str(rng.randint(1, 10**6))) if np % 2 else dict()
        c.conform(exe, "DistTrace", sc, tag="n%d" % np, np=np, merge=merge, drv_env=env, timeout=200, single_timeout=40)
    c.assumptions += ["all processors execute the same sequence of operations on distributed views (SPMD)",
                      "index reductions: any position attaining the extremum is accepted, the same on every processor"]


vlib.main(run, "C07")
