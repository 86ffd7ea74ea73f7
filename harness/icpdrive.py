"""Drivers for ICP: linear system, damped solve, accept/reject loop, gated variant, providers."""
import copy
import math
import random
import warnings

import geodrive as G
from gs import torch
from fusiondrive import fx
from gradslam.geometry.geometryutils import transform_pointcloud
from gradslam.geometry.se3utils import se3_exp
from gradslam.odometry import icputils as iu
from gradslam.odometry.icp import ICPOdometryProvider
from gradslam.odometry.gradicp import GradICPOdometryProvider
from gradslam.structures.pointclouds import Pointclouds

LN2 = math.log(2)


def tens(x, dt):
    return torch.tensor(x, dtype=dt)


class Calls(object):
    def __init__(self):
        self.steps = []

    def call(self, op, what, fun, args, **given):
        s = dict(op=op, what=what, fail="", mut="", **given)
        before = [a.clone() if torch.is_tensor(a) else a for a in args]
        out = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = fun(*args)
            for n, (a, b) in enumerate(zip(args, before)):
                if torch.is_tensor(a) and (a.shape != b.shape or not torch.equal(a, b)):
                    s["mut"] = "argument %d" % n
        except Exception as e:
            s["fail"] = type(e).__name__
        self.steps.append(s)
        return s, out

    def refuse(self, what, fun):
        s = dict(op="refuse", what=what, fail="ok", mut="")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fun()
        except Exception as e:
            s["fail"] = type(e).__name__
        self.steps.append(s)


def run_case(case):
    C = Calls()
    globals()["run_" + case["k"]](C, case)
    return {"steps": C.steps}


DT = {"f32": torch.float32, "f64": torch.float64}


def run_system(C, c):
    dt = DT[c["dt"]]
    S, P, N = tens([c["s"]], dt), tens([c["p"]], dt), tens([c["n"]], dt)
    if c.get("nc"):     # non-contiguous views
        S, P, N = [t.permute(0, 2, 1).contiguous().permute(0, 2, 1) for t in (S, P, N)]
    th = c["th"]
    s, o = C.call("system", "gauss_newton_solve", lambda a, b, d: iu.gauss_newton_solve(a, b, d, th), [S, P, N],
                  s=c["s"], p=c["p"], n=c["n"], th2=0 if th is None else int((2 * th) ** 2), A=[], b=[], idx=[])
    if o is not None:
        try:
            A, b, idx = o
            if A.ndim != 2 or A.shape[1] != 6 or tuple(b.shape) != (A.shape[0], 1):
                s["fail"] = "shape"
            s.update(A=fx(A, 1), b=fx(b[:, 0], 1), idx=idx.reshape(-1).tolist())
        except Exception as e:
            s["fail"] = "result " + type(e).__name__


def run_solve(C, c):
    dt = DT[c["dt"]]
    A, b = tens(c["A"], dt), tens(c["b"], dt).reshape(-1, 1)
    d = c["dn"] / float(c["dd"])
    args = [A, b]
    if c["tens"]:
        args.append(tens(d, dt))
    else:
        args.append(d)
    s, o = C.call("solve", "solve_linear_system", iu.solve_linear_system, args, A=c["A"], b=c["b"], dn=c["dn"],
                  dd=c["dd"], tol=1 if c["dt"] == "f64" else 24, cols=len(c["A"][0]), x=[])
    if o is not None:
        if tuple(o.shape) != (len(c["A"][0]), 1):
            s["fail"] = "shape"
        s["x"] = fx(o.reshape(-1), 4096)


# ------------------------------------------------------------------- axis
def place(c, v):
    """(x, y, z) of the scenario -> coordinates with the scenario's axis and sign."""
    a, sg = c["axis"], c["sign"]
    return [v[(k - a) % 3] * sg if k == a else v[(k - a) % 3] for k in range(3)]


def axis_clouds(c):
    S = [place(c, [x, 0, 0]) for x in c["s"]]
    P = [place(c, [t["x"], t["yz"][0], t["yz"][1]]) for t in c["t"]]
    u = 2.0 ** -c.get("short", 0)
    N = [place(c, [t["sg"] * u, 0, 0]) for t in c["t"]]
    return [tens([v], torch.float32) for v in (S, P, N)]


def shift(c, x):
    T = torch.eye(4)
    T[c["axis"], 3] = x * c["sign"]
    return T


def axis_run(C, c, f, op, what, **given):
    S, P, N = axis_clouds(c)
    T0 = shift(c, c["x0"])
    init = None if c["x0"] == 0 and c["none"] else T0
    X, clean, idx, last = [c["x0"] * 1024], True, [], None
    s = dict(op=op, what=what, fail="", mut="", s=c["s"], t=[dict(x=t["x"], r2=sum(v * v for v in t["yz"])) for t in c["t"]],
             th2=0 if c["th"] is None else int((2 * c["th"]) ** 2), **given)
    keep = [a.clone() for a in (S, P, N)] + [None if init is None else init.clone()]
    try:
        for k in range(1, c["n"] + 1):
            T, idx = f(S, P, N, init, k, c["th"])
            x = float(T[c["axis"], 3]) * c["sign"]
            X.append(int(round(x * 1024)))
            R = T.clone()
            R[c["axis"], 3] = 0
            clean = clean and bool(torch.allclose(R, torch.eye(4, dtype=R.dtype), atol=1e-6))
        for n, (a, b) in enumerate(zip((S, P, N, init), keep)):
            if a is not None and not torch.equal(a, b):
                s["mut"] = "argument %d" % n
        idx = idx.reshape(-1).tolist()
    except Exception as e:
        s["fail"] = type(e).__name__
        idx = []
    s.update(X=X, clean=clean, idx=idx)
    C.steps.append(s)


def run_axis(C, c):
    # normals of length u and damping u * u: the very same steps
    d = c["dn"] / float(c["dd"]) * 4.0 ** -c.get("short", 0)
    axis_run(C, c, lambda S, P, N, T, k, th: iu.point_to_plane_ICP(S, P, N, T, k, d, th),
             "axis", "point_to_plane_ICP", dn=c["dn"], dd=c["dd"])


def run_gaxis(C, c):
    u = 4.0 ** c.get("short", 0)
    kw = dict(lambda_max=c["l"], B=c["c1"] / 4.0 * LN2 * u, B2=c["c2"] / 4.0 * LN2 * u, nu=c["nu"])
    d = c["d0"] / 256.0 / u
    axis_run(C, c, lambda S, P, N, T, k, th: iu.point_to_plane_gradICP(S, P, N, T, k, d, th, **kw),
             "gaxis", "point_to_plane_gradICP", d0=c["d0"], l=c["l"], c1=c["c1"], c2=c["c2"], nu=c["nu"])


# ---------------------------------------------------------------- general
def clouds(c):
    r = random.Random(c["seed"])
    if c["kind"] == "plane":        # a curved grid seen twice
        n = 4
        P = [[i - 1.5, j - 1.5, .3 * r.uniform(-1, 1) + .2 * i * i - .1 * i * j] for i in range(n) for j in range(n)]
        S = [[v + r.uniform(-.2, .2) for v in p] for p in P if r.random() < .8] or [P[0]]
    else:
        P = [[r.uniform(-2, 2) for _ in range(3)] for _ in range(c["nt"])]
        S = [[r.uniform(-2, 2) for _ in range(3)] for _ in range(c["ns"])]
    N = []
    for _ in P:
        v = [r.gauss(0, 1) for _ in range(3)]
        if c["kind"] == "plane":
            v = [.3 * v[0], .3 * v[1], 1.0]
        n = math.sqrt(sum(a * a for a in v)) * 2.0 ** c.get("short", 0)
        N.append([a / n for a in v])
    T = None
    if c["init"]:
        xi = torch.tensor([[r.uniform(-.3, .3)] for _ in range(6)], dtype=torch.float64)
        T = se3_exp(xi).float()
    dt = torch.float32
    return tens([S], dt), tens([P], dt), tens([N], dt), T


def apply(T, S):
    return transform_pointcloud(S[0], T).unsqueeze(0)


def margin(S, P, th):
    """Nearest targets (and the distance limit) decided beyond rounding."""
    d = ((S[0].double().unsqueeze(1) - P[0].double().unsqueeze(0)) ** 2).sum(-1).sort(1)[0]
    ok = d.shape[1] < 2 or bool((d[:, 1] - d[:, 0] > 1e-4 * (1 + d[:, 0])).all())
    return ok and (th is None or bool(((d[:, 0].sqrt() - th).abs() > 1e-4).all()))


def noise(A, damp, xi):
    """Expected rounding (4096 units) of a float32 damped step."""
    M = A.double().t() @ A.double() + damp * torch.eye(6, dtype=torch.float64)
    c = float(torch.linalg.cond(M))
    return 2 + int(min(10 ** 6, 4096 * c * 1e-6 * (1 + float(xi.norm())))) if c == c else 10 ** 6


def i30(x):
    return int(min(round(x), 2 ** 30))


def nearest(C, what, S, P, th, idx):
    if float(S.abs().max()) < 12:
        C.steps.append(dict(op="nearest", what=what, fail="", mut="", s=fx(S[0], 1024), p=fx(P[0], 1024),
                            th=0 if th is None else int(th * 1024), idx=idx.reshape(-1).tolist()))


def run_loop(C, c):
    S, P, N, T0 = clouds(c)
    d0, th, n = c["d"] * 4.0 ** -c.get("short", 0), c["th"], c["n"]
    s = dict(op="loop", what="point_to_plane_ICP", fail="", mut="", its=[])
    try:
        T = [torch.eye(4) if T0 is None else T0]
        for k in range(1, n + 1):
            M, idx = iu.point_to_plane_ICP(S, P, N, T0, k, d0, th)
            T.append(M)
        nearest(C, "point_to_plane_ICP", apply(T[n - 1], S), P, th, idx)
        for k in range(1, n + 1):
            cur = apply(T[k - 1], S)
            A, b, _ = iu.gauss_newton_solve(cur, P, N, th)
            e = float((b ** 2).sum())
            sc = 2 ** 22 / e if e > 1e-30 else 1.0
            cand = []
            tol = 2
            for j in range(-(k - 1), k, 2):
                xi = iu.solve_linear_system(A, b, torch.tensor(d0) * (2.0 ** j))
                E = se3_exp(xi)
                one = apply(E, cur)
                nb = iu.gauss_newton_solve(one, P, N, th)[1]
                M = torch.mm(E, T[k - 1])
                u = noise(A, d0 * 2.0 ** j, xi)
                fin = bool(torch.isfinite(M).all()) and bool(torch.isfinite(nb).all())
                if not fin:     # a singular system: nothing is claimed about this candidate
                    M, nb = torch.zeros(4, 4), b * 0
                ok = fin and bool(M.abs().max() < 1000) and margin(cur, P, th) and margin(one, P, th) and u < 60
                if ok:
                    tol = max(tol, u)
                cand.append(dict(j=j, T=fx(M, 4096), e=i30(e * sc), ce=i30(float((nb ** 2).sum()) * sc), ok=ok, tol=u))
            s["its"].append(dict(cur=fx(T[k - 1], 4096), nxt=fx(T[k], 4096), cand=cand))
    except Exception as e:
        s["fail"] = type(e).__name__
    C.steps.append(s)


def run_grid(C, c):
    S, P, N, T0 = clouds(c)
    d0, th, n = c["d"], c["th"], c["n"]
    kw = dict(lambda_max=c["l"], B=1.0, B2=c["c2"] / 4.0 * LN2, nu=c["nu"])
    s = dict(op="grid", what="point_to_plane_gradICP", fail="", mut="", its=[])
    try:
        T = [torch.eye(4) if T0 is None else T0]
        for k in range(1, n + 1):
            M, idx = iu.point_to_plane_gradICP(S, P, N, T0, k, d0, th, **kw)
            T.append(M)
        nearest(C, "point_to_plane_gradICP", apply(T[n - 1], S), P, th, idx)
        for k in range(1, n + 1):
            cur = apply(T[k - 1], S)
            A, b, _ = iu.gauss_newton_solve(cur, P, N, th)
            xi = iu.solve_linear_system(A, b, d0)
            nb = iu.gauss_newton_solve(apply(se3_exp(xi), cur), P, N, th)[1]
            dif = float((nb ** 2).sum() - (b ** 2).sum())
            cand = [torch.mm(se3_exp(xi * (i / 16.0)), T[k - 1]) for i in range(17)]
            ang = float(xi[3:].norm())
            u = noise(A, d0, xi)
            ok = margin(cur, P, th) and margin(apply(se3_exp(xi), cur), P, th) and u < 60
            ok = ok and ang < 1.0 and all(bool(m.abs().max() < 100) for m in cand) and abs(dif) < 1e5
            # bending of the candidate curve between grid points
            bend = max(float((cand[i + 1] - (cand[i] + cand[i + 2]) / 2).abs().max()) for i in range(15))
            s["its"].append(dict(ok=ok, dif=int(round(max(-100, min(100, dif)) * 256)), c2=c["c2"], nu=c["nu"],
                                 nxt=fx(T[k], 4096), cand=[fx(m, 4096) for m in cand] if ok else [], tol=int(bend * 4096) + 1 + u))
    except Exception as e:
        s["fail"] = type(e).__name__
    C.steps.append(s)


# --------------------------------------------------------------- provider
def run_prov(C, c):
    r = random.Random(c["seed"])
    B = c["B"]
    fc, mc = [], []
    for b in range(B):
        cc = dict(c, seed=r.randrange(10 ** 9), init=False, ns=r.randint(6, 10), nt=r.randint(6, 10))
        S, P, N, _ = clouds(cc)
        fc.append(S[0].float())
        mc.append((P[0].float(), N[0].float()))
    frames = Pointclouds(points=fc)
    maps = Pointclouds(points=[m[0] for m in mc], normals=[m[1] for m in mc])
    if c["prov"] == "icp":
        kw = dict(numiters=c["n"], damp=c["d"], dist_thresh=c["th"])
        prov, f = ICPOdometryProvider(**kw), iu.point_to_plane_ICP
    else:
        kw = dict(numiters=c["n"], damp=c["d"], dist_thresh=c["th"], lambda_max=c["l"], B=c["b1"], B2=c["b2"], nu=c["nu"])
        prov, f = GradICPOdometryProvider(**kw), iu.point_to_plane_gradICP
    name = type(prov).__name__
    s = dict(op="same", what=name + " is not its alignment", fail="", mut="", a=[], b=[])
    try:
        before = [t.clone() for t in maps.points_list + maps.normals_list + frames.points_list]
        out = prov.provide(maps, frames)
        if list(out.shape) != [B, 1, 4, 4]:
            s["fail"] = "shape"
        if any(not torch.equal(a, b) for a, b in zip(before, maps.points_list + maps.normals_list + frames.points_list)):
            s["mut"] = "clouds"
        ref = torch.stack([f(fc[b].unsqueeze(0), mc[b][0].unsqueeze(0), mc[b][1].unsqueeze(0), torch.eye(4), **kw)[0]
                           for b in range(B)]).unsqueeze(1)
        s["a"], s["b"] = fx(out, 4096), fx(ref, 4096)
    except Exception as e:
        s["fail"] = type(e).__name__
    C.steps.append(s)


def run_bad(C, c):
    S, P = torch.zeros(1, 3, 3), torch.ones(1, 4, 3)
    r = C.refuse
    f = iu.gauss_newton_solve
    for n, a in enumerate(("source", "target", "normals")):
        for what, bad in (("type", [[1, 2, 3]]), ("ndim", torch.zeros(3, 3)), ("batch", torch.zeros(2, 4, 3)),
                          ("width", torch.zeros(1, 4, 2))):
            args = [S, P, P]
            args[n] = bad
            r("system: %s %s" % (a, what), lambda: f(*args))
    r("system: normals count", lambda: f(S, P, P[:, :2]))
    r("system: limit type", lambda: f(S, P, P, "1"))
    A, b = torch.eye(3), torch.ones(3, 1)
    f = iu.solve_linear_system
    r("solve: A type", lambda: f([[1.]], b))
    r("solve: b type", lambda: f(A, [1.]))
    r("solve: damping type", lambda: f(A, b, "1"))
    r("solve: damping shape", lambda: f(A, b, torch.ones(1)))
    r("solve: A ndim", lambda: f(A[0], b))
    r("solve: b ndim", lambda: f(A, b[:, 0]))
    r("solve: b width", lambda: f(A, torch.ones(3, 2)))
    r("solve: rows", lambda: f(A, b[:2]))
    for f in (iu.point_to_plane_ICP, iu.point_to_plane_gradICP):
        n = f.__name__
        r(n + ": source type", lambda: f([1], P, P))
        r(n + ": target type", lambda: f(S, [1], P))
        r(n + ": normals type", lambda: f(S, P, [1]))
        r(n + ": initial type", lambda: f(S, P, P, [1]))
        r(n + ": iterations type", lambda: f(S, P, P, None, 2.0))
        r(n + ": initial ndim", lambda: f(S, P, P, torch.eye(4).unsqueeze(0)))
        r(n + ": initial shape", lambda: f(S, P, P, torch.eye(3)))
        r(n + ": limit type", lambda: f(S, P, P, None, 2, 1e-3, "1"))
    for a in ("lambda_max", "B", "B2", "nu"):
        r("gradICP: type of " + a, lambda: iu.point_to_plane_gradICP(S, P, P, **{a: "1"}))
    for prov in (ICPOdometryProvider(), GradICPOdometryProvider()):
        n = type(prov).__name__
        m = Pointclouds(points=[torch.rand(4, 3)], normals=[torch.rand(4, 3)])
        q = Pointclouds(points=[torch.rand(4, 3)] * 2)
        r(n + ": map type", lambda: prov.provide("m", m))
        r(n + ": frame type", lambda: prov.provide(m, "m"))
        r(n + ": no normals", lambda: prov.provide(Pointclouds(points=[torch.rand(4, 3)]), m))
        r(n + ": batch sizes", lambda: prov.provide(m, q))


# ------------------------------------------------------------- generation
def ip(rng, r):
    return [rng.randint(-r, r) for _ in range(3)]


def system_case(rng):
    r = rng.choice((1, 2, 4, 9))
    nt = rng.randint(1, 7)
    return dict(k="system", dt="f32", nc=rng.random() < .3, s=[ip(rng, r) for _ in range(rng.randint(1, 7))],
                p=[ip(rng, r) for _ in range(nt)], n=[ip(rng, rng.choice((1, 3))) for _ in range(nt)],
                th=rng.choice((None, None, 1, 1.5, 2, 3, .5, 5.0)))


def solve_case(rng):
    m, k = rng.randint(1, 7), rng.choice((1, 2, 3, 6, 6))
    dn, dd = rng.choice(((1, 4), (1, 1), (3, 1), (10, 1), (1, 2), (1, 8)))
    return dict(k="solve", dt=rng.choice(("f64", "f64", "f32")), A=[[rng.randint(-3, 3) for _ in range(k)] for _ in range(m)],
                b=[rng.randint(-4, 4) for _ in range(m)], dn=dn, dd=dd, tens=rng.random() < .5)


OFF = [[0, 0], [1, 0], [0, -2], [1, 1], [6, 0], [0, -6], [4, 4], [2, -1], [0, 8]]


SHORT = (0, 0, 0, 2, 5, 9, 12, 14)    # normals of length 2 ** -ns


def axis_case(rng, gen=None):
    c = dict(k="axis", axis=rng.randrange(3), sign=rng.choice((-1, 1)), none=rng.random() < .5, n=rng.randint(1, 7))
    if gen is not None:
        c["short"] = rng.choice(SHORT)
        c.update(s=gen["s"], dn=gen["dn"], dd=gen["dd"], x0=0, n=6,
                 th=None if gen["th2"] == 0 else math.sqrt(gen["th2"]) / 2,
                 t=[dict(x=t["x"], yz=[int(math.sqrt(t["r2"])), 0], sg=rng.choice((-1, 1))) for t in gen["t"]])
        return c
    dn, dd = rng.choice(((1, 1024), (1, 4), (1, 1), (3, 1), (10, 1), (1, 2)))
    c["short"] = rng.choice(SHORT)
    c.update(s=[rng.randint(-3, 3) for _ in range(rng.randint(1, 4))], dn=dn, dd=dd, x0=rng.choice((0, 0, 0, 1, -2)),
             th=rng.choice((None, None, 1, 2, 3, 5, 7)),
             t=[dict(x=rng.randint(-7, 7), yz=rng.choice(OFF), sg=rng.choice((-1, 1))) for _ in range(rng.randint(1, 4))])
    return c


def gaxis_case(rng, gen=None):
    c = axis_case(rng, gen)
    c["k"] = "gaxis"
    c["n"] = min(c["n"], 5)
    c.update(d0=rng.choice((0, 16, 64, 256, 768)) or 1, l=rng.choice((1, 2, 2, 3, 4)), c1=rng.choice((0, 1, 2, 4, 8)),
             c2=rng.choice((0, 1, 2, 4)), nu=rng.choice((1, 1, 2, 200)))
    if c["nu"] > 2:
        c["short"] = 0     # the clamp on the error difference shows through large roots
    return c


def general(rng):
    return dict(seed=rng.randrange(10 ** 9), kind=rng.choice(("plane", "cloud", "cloud")), ns=rng.randint(4, 10),
                nt=rng.randint(4, 10), init=rng.random() < .4, th=rng.choice((None, None, .5, 1.0, 2)))


def loop_case(rng):
    return dict(general(rng), k="loop", short=rng.choice(SHORT), n=rng.randint(1, 7), d=rng.choice((1e-8, 1e-3, .05, .5, 1.0, 8.0)))


def grid_case(rng):
    return dict(general(rng), k="grid", n=rng.randint(1, 4), d=rng.choice((1e-3, .1, 1.0)), l=1, c2=rng.choice((0, 1, 2, 4, 8)),
                nu=rng.choice((1, 2, 200)))


def prov_case(rng):
    return dict(general(rng), k="prov", prov=rng.choice(("icp", "grad")), B=rng.randint(1, 3), n=rng.randint(1, 4),
                d=rng.choice((1e-2, .5, 3.0)), l=rng.choice((1.5, 2, 4)), b1=rng.choice((.5, 1, 3)), b2=rng.choice((.2, 1, 2)),
                nu=rng.choice((1, 2, 10)))


def corrupt(t, rng):
    s = rng.choice(t["steps"])
    if s["op"] == "refuse" or s["fail"]:
        return None
    if s["op"] == "system":
        if not s["A"]:
            return None
        s["A"][0][rng.randrange(6)] += 1
    elif s["op"] == "solve":
        A = s["A"]
        j = rng.randrange(len(s["x"]))
        s["x"][j] += 20000
    elif s["op"] == "loop":
        k = rng.choice(s["its"])
        if not all(c["ok"] for c in k["cand"]):
            return None
        k["nxt"][0][3] += 200000
    elif s["op"] == "nearest":
        s["idx"] = s["idx"] + [0]
        if s["th"]:
            return None
    elif s["op"] == "same":
        s["a"][0][0][0][3] += 1
    else:
        return None
    return t
