"""Script generation and trace merging shared by C06 and C07 (programs over distributed arrays)."""
import json, os
import vlib
from vlib import jn, lv

LET = dict(B="block", C="cyclic", W="whole")


def rank(kind): return int(kind[1]) if kind[0] in "RL" else len(kind) - 1


def merge(out):
    """Merge the per-rank traces into one: fields m and r become lists over ranks."""
    fs, r = [], 0
    while os.path.exists("%s.%d" % (out, r)):
        with open("%s.%d" % (out, r), errors="replace") as f:
            ls = f.read().split("\n")
        fs.append(ls[:-1])
        r += 1
    if not fs:
        return []
    n = min(len(f) for f in fs)
    scs = []
    for k in range(n):
        if '"m":' in fs[0][k] or '"r":' in fs[0][k]:
            es = [json.loads(f[k]) for f in fs]
            e = es[0]
            for key in ("m", "r"):
                if key in e:
                    e[key] = [x.get(key) for x in es]
            line = json.dumps(e, separators=(",", ":")) + "\n"
        else:
            line = fs[0][k] + "\n"
            if any(f[k] != fs[0][k] for f in fs):
                raise vlib.HarnessError("ranks disagree on the script: %s" % line)
        if '"op":"begin"' in line:
            scs.append([])
        scs[-1].append(line)
    return scs


def arr(rng, np, kind, T, ext, base, step=1, even=False):
    """A script line making an array of this kind with a random map on np processors."""
    D = rank(kind)
    n, c = [1, 1, 1], [1, 1, 1]
    if kind[0] == "R":
        k = np if rng.random() < .6 else rng.randint(1, np)
    else:
        left = np
        ds = list(range(D))
        rng.shuffle(ds)
        for d in ds:
            if kind[d] == "W":
                continue
            n[d] = rng.randint(1, left) if rng.random() < .8 else left
            left //= n[d]
            c[d] = rng.randint(1, 4) if kind[d] == "C" else 1
        ns = n[0] * n[1] * n[2]
        k = ns if rng.random() < .7 else rng.randint(ns, np)
    ps = list(range(np))
    if rng.random() < .6:
        rng.shuffle(ps)
    ps = ps[:k]
    return "arr %s %s %s %s %s %s %d %d" % (kind, T, lv(ext), lv(n), lv(c), lv(ps), base, step)


def subdom(rng, ext, shape):
    r = []
    for e, l in zip(ext, shape):
        s = 1 if l <= 1 else rng.randint(1, (e - 1) // (l - 1))
        if rng.random() < .4:
            s = 1
        r += [rng.randint(0, e - 1 - s * (l - 1)), s, l]
    return r


def around(rng, D, f, shape):
    """Extent of an array and the argument of form f whose view has this shape."""
    if f == "w": return list(shape), []
    if f == "s":
        e = [s + rng.randint(0, 4 if D > 1 else 9) for s in shape]
        return e, subdom(rng, e, shape)
    if f == "t": return shape[::-1], []
    if f == "d":                       # diagonal k: min(R - max(-k, 0), C - max(k, 0)) elements
        k = rng.randint(-2, 2); r, c_ = shape[0] + max(-k, 0), shape[0] + max(k, 0)
        if rng.random() < .5: r += rng.randint(0, 2)
        else: c_ += rng.randint(0, 2)
        return [r, c_], [k]
    free = dict(r=[1], c=[0], x=[1, 2], y=[0, 2], z=[0, 1], p=[2], q=[1], u=[0])[f]
    e, x = [0] * D, []
    for i, d in enumerate(free): e[d] = shape[i]
    for d in range(D):
        if d not in free:
            e[d] = rng.randint(1, 5); x.append(rng.randrange(e[d]))
    return e, x
