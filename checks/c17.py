#!/usr/bin/env python3
"""C17: histories of library objects over threads, sequential and concurrent, with and without message passing
managed by the application, on a stand-in MPI that records its use; checked against spec/LibraryTrace."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from vlib import QUICK


def scenario(rng, i):
    app = i % 2 == 0
    nt = rng.choice([1, 2, 2, 3, 4, 6])
    s = ["begin", "th %d %d" % (nt, rng.randint(1, 10**6))]
    if app: s.append("s 0 i")
    n, keep, cust = [0] * nt, [False] * nt, [False] * nt
    made = False
    dead = False   # the library has finalised message passing

    def total(): return sum(n)

    def one(t, guard):
        """the next operation of thread t; guard: whether n may reach zero over all threads"""
        c = ["c", "C"]
        if n[t]:
            c = ["c", "u", "u", "k", "s" if not cust[t] else "S", "d", "d"] + (["K"] if keep[t] else [])
        o = rng.choice(c)
        r = []
        if o in "cC": n[t] += 1
        elif o == "d":
            if n[t] == 1:
                if keep[t]: r.append("K"); keep[t] = False
                if cust[t]: r.append("S"); cust[t] = False
            if n[t] == 1 and guard and total() == 1: return r
            n[t] -= 1
            r.append(rng.choice(["d0", "d1"])); return r
        elif o == "k":
            if cust[t]: return []
            keep[t] = True
        elif o == "K": keep[t] = False
        elif o == "s": cust[t] = True
        elif o == "S": cust[t] = False
        return r + [o]

    for _ in range(rng.randint(1, 5)):
        if dead: break
        if rng.random() < .45:
            for _ in range(rng.randint(3, 12)):
                t = rng.randrange(nt)
                if not n[t] and rng.random() < .2: s.append("new %d" % t)
                for o in one(t, False):
                    s.append("s %d %s" % (t, o))
                    made = made or o in "cC"
                if not app and not total() and made: dead = True; break
        else:
            anchor, made = None, True
            if not app:
                anchor = next((t for t in range(nt) if n[t]), None)
                if anchor is None and rng.random() < .5:   # concurrent first creation, nobody leaves
                    ops = [(t, [rng.choice("cC")] + ["u"] * rng.randint(0, 2)) for t in range(nt)]
                    for t in range(nt): n[t] = 1
                    s.append("p " + " ".join("%d %d %s" % (t, len(o), " ".join(o)) for t, o in ops))
                    continue
                if anchor is None: anchor = 0; n[0] = 1; s.append("s 0 c")
            ops = []
            for t in range(nt):
                if t == anchor:
                    ops.append((t, ["u"] * rng.randint(0, 2))); continue
                q = []
                for _ in range(rng.randint(1, 9)): q += one(t, False)
                if rng.random() < .6:
                    q += ["K"] if keep[t] else []
                    q += ["S"] if cust[t] else []
                    q += ["d1"] * n[t]
                    n[t] = 0; keep[t] = cust[t] = False
                ops.append((t, q))
            s.append("p " + " ".join("%d %d %s" % (t, len(o), " ".join(o)) for t, o in ops if o))
        s.append("q")
    # everybody leaves: one after the other, or all at once
    q = []
    for t in range(nt):
        o = (["K"] if keep[t] else []) + (["S"] if cust[t] else []) + ["d0"] * n[t]
        if o: q.append((t, o))
    if rng.random() < .5: s += ["s %d %s" % (t, x) for t, o in q for x in o]
    elif q: s.append("p " + " ".join("%d %d %s" % (t, len(o), " ".join(o)) for t, o in q))
    s.append("q")
    if app: s.append("s 0 f"); s.append("q")
    return "\n".join(s)


def run(c):
    exe = vlib.build("c17", ["c17.cpp"])
    c.model("LibraryMC", "LibraryMC" if QUICK else "LibraryMC_all", timeout=1200)
    c.model("LibraryMC", "LibraryMC_lib", timeout=1200)
    c.trust = True
    k = 1500 if QUICK else 30000
    c.conform(exe, "LibraryTrace", [scenario(c.rng, i) for i in range(k)], parts=8, timeout=600)
    c.assumptions += ["message passing is the recording stand-in of harness/c17.cpp (one process); once the library itself has finalised MPI it is not used again (MPI cannot be re-initialised)",
                      "objects are destroyed by the thread that made them, views before the last library object of their thread, an installed default allocator is put back first",
                      "thread schedules are sampled (random delays at every message-passing call and every lock operation), not enumerated, on the implementation; the model enumerates them"]


vlib.main(run, "C17")
