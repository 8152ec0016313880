#!/usr/bin/env python3
"""C06: sequences of assignments between distributed views with every kind of map, on 1..6 processes
with different message timings, checked against the logical arrays of spec/DistArrays; the message
protocol itself is model-checked in spec/AssignMC."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, dist
from dist import rank, arr, subdom, merge, around
from vlib import QUICK, jn, lv


def table():
    """The assignments the driver knows: read from its registration file (driver -list)."""
    import subprocess
    p = subprocess.run([exe, "-list"], stdout=subprocess.PIPE, text=True, env=vlib.RUN_ENV)
    r = []
    for w in p.stdout.split():
        m = re.match(r"(\w+)([a-z]):(\w+)([a-z]):(\w)$", w)
        if m:
            r.append(m.groups())
    if len(r) < 100:
        raise vlib.HarnessError("driver lists no assignments")
    return sorted(r)


def shapes(rng, kd, fd, ks, fs):
    """Extents of the destination and the source array such that the two views have one shape."""
    Dd, Ds = rank(kd), rank(ks)
    hi = {1: 17, 2: 7, 3: 5}
    vd = 1 if fd in "rcdpqu" else 2 if fd in "xyz" else Dd
    shape = [rng.randint(1, hi[vd]) for _ in range(vd)]
    if vd == 1 and Dd == Ds == 1 and rng.random() < .15: shape = [rng.randint(20, 60)]

    def ext(D, f): return around(rng, D, f, shape)
    return ext(Dd, fd), ext(Ds, fs)


def scenario(rng, np, tab, first):
    s = ["begin"]
    arrs = []
    delay = rng.random() < .3

    def new(kind, T, ext, base):
        s.append(arr(rng, np, kind, T, ext, base))
        arrs.append((kind, T, ext))
        return len(arrs) - 1
    kd, fd, ks, fs, T = first
    (de, dd), (se, sd) = shapes(rng, kd, fd, ks, fs)
    d = new(kd, T, de, 1000)
    k = new(ks, T, se, 2000)
    body = [(d, fd, dd, k, fs, sd)]
    for _ in range(rng.choice([0, 1, 2, 3])):     # further assignments between arrays we have, or new ones
        r = rng.random()
        if r < .45:        # same again / another arrangement of the same pair of arrays
            a = rng.choice(body)
            body.append(a)
        elif r < .65 and (ks, fs, kd, fd, T) in tabset and (d, fd, dd) != (k, fs, sd):
            body.append((k, fs, sd, d, fd, dd))
        else:
            c = [t for t in tab if t[4] == T and t[2] == kd and t[3] == "w" and fd == "w" or t[4] == T and t[2] == kd and t[3] == fd == "s"]
            if not c: continue
            t = rng.choice(c)
            shape = de if fd == "w" else [dd[3 * x + 2] for x in range(rank(kd))]
            e, x = around(rng, rank(t[0]), t[1], shape)
            j = new(t[0], T, e, 1000 * (len(arrs) + 1))
            body.append((j, t[1], x, d, fd, dd))
    for i, (a, af, ad, b, bf, bd) in enumerate(body):
        if delay: s.append("delay " + lv([rng.choice([0, 0, 300, 2000]) for _ in range(np)]))
        s.append("asg %d %s %s %d %s %s" % (a, af, lv(ad), b, bf, lv(bd)))
        if rng.random() < .4: s.append("obs")
    s.append("obs")
    s.append("quiet")
    return "\n".join(s)


def run(c):
    global exe, tabset
    exe = vlib.build("c06", ["dist_main.cpp", "mpiwrap.cpp"] + [("c06_reg.cpp", ["-DPART=%d" % i], str(i)) for i in range(1, 14)], variant="plain0")
    c.model("AssignMC", deadlock=True)
    if not QUICK: c.model("AssignMC", "AssignMC_all", deadlock=True, timeout=1800)
    tab = table()
    tabset = set(tab)
    rng = c.rng
    per = {1: 60, 2: 250, 3: 250, 4: 250, 5: 120, 6: 120} if QUICK else {1: 400, 2: 3000, 3: 4000, 4: 4000, 5: 2000, 6: 2000, 8: 1000}
    k = 0
    for np, n in per.items():
        for part in range(2):              # buffered sends; synchronous sends and random delays
            sc = []
            for i in range(n // 2):
                sc.append(scenario(rng, np, tab, tab[k * 7 % len(tab)]))
                k += 1
            env = dict(VH_SSEND="1", VH_DELAY=str(rng.randint(1, 10**6))) if part else dict()
            c.conform(exe, "DistTrace", sc, tag="n%d_%d" % (np, part), np=np, merge=merge, drv_env=env, timeout=200, single_timeout=40)
    c.assumptions += ["source and destination views of one assignment do not overlap",
                      "the MPI library delivers messages of one pair of processes in order (checked assumption of the model)"]


vlib.main(run, "C06")
