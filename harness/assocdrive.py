"""Drivers for time stamp association and stamped text files (C19)."""
import copy
import contextlib
import io
import os
import shutil
import tempfile

import numpy as np

import gs  # noqa: F401
from geodrive import fx
from vlib import enc
from gradslam.datasets import tumutils

EPOCH = 1305031102


def written(tick, base, kind, form):
    """One way to write a time; tick in 1/8 s, or in half microseconds."""
    if kind == "us":
        us = tick // 2
        return "%d.%06d" % (base + us // 10 ** 6, us % 10 ** 6)
    v = base + tick / 8.0
    return ["%r" % v, "%.3f" % v, "%.6f" % v, "%010.4f" % v, "+%.3f" % v if v >= 0 else "%.3f" % v, "%.12e" % v][form]


def do_assoc(c, steps):
    unit = 8.0 if c["kind"] == "eighth" else 2e6
    ka = [written(x, c["base"], c["kind"], f) for x, f in zip(c["a"], c["fa"])]
    kb = [written(x, c["base"], c["kind"], f) for x, f in zip(c["b"], c["fb"])]
    da, db = dict((k, ["rgb/%s.png" % k]) for k in ka), dict((k, [1.0, 2.0]) for k in kb)
    if c.get("listed"):
        da, db = dict((k, None) for k in ka), dict((k, k) for k in kb)
    sa, sb = copy.deepcopy(da), copy.deepcopy(db)
    s = dict(op="assoc", a=c["a"], b=c["b"], off=c["off"], tol=c["tol"], m=[], fail="", mut=False)
    steps.append(s)
    try:
        r = tumutils.associate(da, db, c["off"] / unit, c["tol"] / unit)
        if not isinstance(r, list):
            s["fail"] = "not a list"
        else:
            s["m"] = [[ka.index(x) + 1 if x in ka else 0, kb.index(y) + 1 if y in kb else 0] for x, y in r]
    except Exception as e:
        s["fail"] = type(e).__name__ + " " + str(e)[:80]
    s["mut"] = list(da.items()) != list(sa.items()) or list(db.items()) != list(sb.items())


def chars(line):
    return ["TAB" if ch == "\t" else ch for ch in line]


def save(d, lines, tail):
    name = os.path.join(d, "f.txt")
    with open(name, "w") as fh:
        fh.write("\n".join(lines) + ("\n" if tail else ""))
    return name


def do_list(c, steps, d):
    name = save(d, c["lines"], c["tail"])
    s = dict(op="list", lines=[chars(x) for x in c["lines"]], start=c["start"] or 0, end=-1 if c["end"] is None else c["end"],
             out=[], fail="", mut=False)
    steps.append(s)
    try:
        r = tumutils.read_file_list(name, c["start"], c["end"]) if c["kw"] else tumutils.read_file_list(name)
        s["out"] = [[k] + list(v) for k, v in r.items()]
    except Exception as e:
        s["fail"] = type(e).__name__ + " " + str(e)[:80]


def do_traj(c, steps, d):
    name = save(d, c["lines"], c["tail"])
    num = [[int(v) for v in x] if x else [0] * 7 for x in c["num"]]
    s = dict(op="traj", lines=[chars(x) for x in c["lines"]], num=num, bad=c["bad"], matrix=c["matrix"], out=[], fail="", mut=False)
    steps.append(s)
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            r = tumutils.read_trajectory(name, c["matrix"]) if c["kw"] else tumutils.read_trajectory(name)
        for k, v in r.items():
            if c["matrix"]:
                ok = isinstance(v, np.ndarray) and v.shape == (4, 4)
                s["out"].append(dict(stamp=k, v=fx(v) if ok else []))
            else:
                s["out"].append(dict(stamp=k, v=[enc(x) for x in v]))
    except Exception as e:
        s["fail"] = type(e).__name__ + " " + str(e)[:80]


def run_case(case):
    steps = []
    d = tempfile.mkdtemp(prefix="assoc_")
    try:
        for c in case["ops"]:
            if c["op"] == "assoc":
                do_assoc(c, steps)
            elif c["op"] == "list":
                do_list(c, steps, d)
            else:
                do_traj(c, steps, d)
    finally:
        shutil.rmtree(d)
    return dict(steps=steps)


# ------------------------------------------------------------------ inputs
def dress(rng, a, b, off, tol, kind="eighth", base=None):
    if base is None:
        base = rng.choice((0, 0, 1, 8, 9, 97, 99, 999, EPOCH)) if kind == "eighth" else EPOCH
    a, b = list(a), list(b)
    if rng.random() < .5:
        rng.shuffle(a)
        rng.shuffle(b)
    return dict(op="assoc", a=a, b=b, fa=[rng.randrange(6) for _ in a], fb=[rng.randrange(6) for _ in b], off=off, tol=tol,
                kind=kind, base=base, listed=rng.random() < .2)


def random_assoc(rng):
    r = rng.random()
    if r < .5:
        span = rng.randint(2, 60)
        n = rng.randint(0, min(12, span))
        m = rng.randint(0, min(12, span))
        return dress(rng, rng.sample(range(span), n), rng.sample(range(span), m), rng.choice((0, 0, 1, -3, 16)),
                     rng.choice((1, 2, 3, 8, 20)))
    # camera-like streams: 30 Hz against 30 or 100 Hz, with jitter and gaps
    n = rng.randint(1, 14)
    p, q = rng.choice(((33333, 33333), (33333, 10000), (20000, 33333), (100000, 33333)))

    def stream(period, m, t0):
        t, res = t0, []
        for _ in range(m):
            t += max(1, period + rng.randint(-period // 3, period // 3)) * (1 if rng.random() < .9 else rng.randint(2, 5))
            res.append(t)
        return res
    a = stream(p, n, rng.randint(0, 50000))
    b = [x for x in stream(q, n * p // q + 3, rng.randint(0, 50000))][:30]
    off = rng.choice((0, 0, 0, 12345, -20000))
    tol = rng.choice((40001, 40001, 20001, 100001, 3))
    c = dress(rng, [2 * x for x in a], [2 * x for x in b], 2 * off, tol, "us")
    return c


WORDS = ["rgb/a.png", "depth/1.5.png", "x", "0", "a#b", "7.25", "-1", "'q'", "b/c/d", "#", "##x", "é"]


def seps(rng):
    return rng.choice((" ", " ", " ", "  ", ",", ", ", "\t", "\t ", " ,\t", ",,"))


def random_list(rng):
    lines = []
    t = rng.randint(0, 50)
    for _ in range(rng.randint(0, 9)):
        r = rng.random()
        if r < .15:
            lines.append(rng.choice(("", "# timestamp filename", "#", "#1.0 a", "#,", " ", "\t", "  ,", ",")))
            continue
        t += rng.randint(1, 5)
        fs = ["%.4f" % (t / 4.0)] + [rng.choice(WORDS) for _ in range(rng.choice((0, 1, 1, 1, 2, 3)))]
        line = fs[0]
        for f in fs[1:]:
            line += seps(rng) + f
        if rng.random() < .15:
            line = rng.choice((" ", "\t", ",")) + line
        if rng.random() < .15:
            line += rng.choice((" ", "\t", ",", "  "))
        lines.append(line)
    kw = rng.random() < .7
    start = rng.choice((None, 0, 1, 2, 4)) if kw else None
    end = rng.choice((None, None, 1, 2, 3, 5, 9, 40)) if kw else None
    return dict(op="list", lines=lines, tail=rng.random() < .7, start=start, end=end, kw=kw)


def number(rng, v):
    return rng.choice(("%d" % v, "%.4f" % v, "%d." % v, "%.2e" % v, "%+d" % v))


def random_traj(rng):
    lines, num, bad = [], [], []
    t = rng.randint(0, 50)
    for _ in range(rng.randint(0, 7)):
        if rng.random() < .2:
            lines.append(rng.choice(("", "# timestamp tx ty tz qx qy qz qw", "#", "#1 2 3 4 0 0 0 1", " ", "\t ", ",")))
            num.append([])
            bad.append(False)
            continue
        t += rng.randint(1, 5)
        q = [rng.randint(-3, 3) for _ in range(4)]
        if rng.random() < .25:
            q = [0, 0, 0, 0]
        elif rng.random() < .2:
            q = [0, 0, 0, rng.choice((1, 2, -1))]
        v = [rng.randint(-20, 20) for _ in range(3)] + q
        fs = [number(rng, x) for x in v]
        b = rng.random() < .15
        if b:
            for k in rng.sample(range(7), rng.choice((1, 1, 7))):
                fs[k] = rng.choice(("nan", "NaN", "NAN"))
        line = rng.choice(("%.4f", "%.1f", "%.6f")) % (t + .5)
        if rng.random() < .1:
            line = rng.choice((" ", "\t", ",")) + line
        for f in fs:
            line += seps(rng) + f
        if rng.random() < .15:
            line += rng.choice((" ", "\t", ","))
        lines.append(line)
        num.append(v)
        bad.append(b)
    matrix = rng.random() < .5
    return dict(op="traj", lines=lines, num=num, bad=bad, tail=rng.random() < .7, matrix=matrix, kw=not matrix or rng.random() < .5)


def random_case(rng):
    return dict(ops=[rng.choice((random_assoc, random_assoc, random_list, random_traj))(rng) for _ in range(8)])


def corrupt(t, rng):
    for s in rng.sample(t["steps"], len(t["steps"])):
        if s["op"] == "assoc" and s["m"]:
            if rng.random() < .5:
                s["m"].pop()
            else:
                s["m"].append(s["m"][0])
            return t
        if s["op"] == "list" and s["out"]:
            s["out"][rng.randrange(len(s["out"]))][-1] += "x"
            return t
        if s["op"] == "traj" and s["out"]:
            o = rng.choice(s["out"])
            if s["matrix"]:
                o["v"][rng.randrange(3)][rng.randrange(4)] += 9
            else:
                o["v"][rng.randrange(7)] += 1
            return t
    return None
