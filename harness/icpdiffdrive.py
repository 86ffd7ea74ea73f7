"""Drivers for derivatives of the alignment (C25)."""
import math
import random
import warnings

import icpdrive as I
from gs import torch
from fusiondrive import fx
from graddrive import CUBES, grads, jac, leaf
from geodiffdrive import T, hat, ints, mat44
from gradslam.geometry.se3utils import se3_exp
from gradslam.odometry import icputils as iu
from gradslam.odometry.gradicp import GradICPOdometryProvider
from gradslam.odometry.icp import ICPOdometryProvider
from gradslam.slam.fusionutils import find_active_map_points
from gradslam.slam.icpslam import ICPSLAM
from gradslam.slam.pointfusion import PointFusion
from gradslam.structures.pointclouds import Pointclouds
from gradslam.structures.rgbdimages import RGBDImages

U = 1024
LN2 = math.log(2)


def pk(w):
    return lambda i: "%s%d.%d" % (w, i[-2] + 1, i[-1] + 1)


def cloud_leaves(c):
    S, P, N = leaf([[[float(v) for v in q] for q in c[k]] for k in ("s",)]), leaf([[[float(v) for v in q] for q in c["p"]]]), leaf([[[float(v) for v in q] for q in c["n"]]])
    return (S, P, N), [(S, pk("s")), (P, pk("p")), (N, pk("n"))]


def twisted(M, name):
    x = leaf([0.] * 6)
    return M @ (torch.eye(4) + hat(x)), (x, lambda i: name + str(i[0] + 1))


def limit(c):
    return dict(th2=0 if c["th"] is None else int((2 * c["th"]) ** 2))


def run_system(c):
    (S, P, N), lv = cloud_leaves(c)
    A, b, idx = iu.gauss_newton_solve(S, P, N, c["th"])
    return [dict(op="system", fail="", s=c["s"], p=c["p"], n=c["n"], JA=jac(A, lv, U), Jb=jac(b[:, 0], lv, U), **limit(c))]


def run_solve(c):
    dt = torch.float64 if c["wide"] else torch.float32
    A, b, d = T(c["A"], dt).requires_grad_(), T(c["b"], dt).reshape(-1, 1).requires_grad_(), T(c["dn"] / float(c["dd"]), dt).requires_grad_()
    x = iu.solve_linear_system(A, b, d if c["tens"] else float(d))
    lv = [(A, pk("a")), (b, lambda i: "b%d" % (i[0] + 1)), (d, lambda i: "l")]
    J = jac(x[:, 0], lv, U)
    if not c["tens"]:       # a plain number has no derivative: that of the tensor stands in
        for a, q in zip(J, jac(iu.solve_linear_system(A, b, d)[:, 0], lv, U)):
            if "l" in q:
                a["l"] = q["l"]
    return [dict(op="solve", fail="", A=c["A"], b=c["b"], dn=c["dn"], dd=c["dd"], x=fx(x[:, 0], U), J=J)]


def gate_args(c):
    return dict(lambda_max=c["l"], B=c["c1"] / 4. * LN2, B2=c["c2"] / 4. * LN2, nu=c["nu"]) if c["grad"] else {}


def run_step(c):
    (S, P, N), lv = cloud_leaves(c)
    M, lx = twisted(T(c["T"]), "x")
    lv = lv + [lx]
    d = c["dn"] / float(c["dd"])
    f = iu.point_to_plane_gradICP if c["grad"] else iu.point_to_plane_ICP
    O, _ = f(S, P, N, M, 1, d, c["th"], **gate_args(c))
    cur = I.apply(M, S)
    xi = iu.solve_linear_system(*iu.gauss_newton_solve(cur, P, N, c["th"])[:2], damp=d)[:, 0]
    return [dict(op="step", fail="", f="gradICP" if c["grad"] else "ICP", s=c["s"], p=c["p"], n=c["n"], T=ints(c["T"]), dn=c["dn"], dd=c["dd"],
                 xi=fx(xi, U), dxi=jac(xi, lv, U), T1=fx(O, U), J=jac(O, lv, U), c2=c["c2"] if c["grad"] else -1, nu=c["nu"], **limit(c))]


def run_chain(c):
    (S, P, N), lv = cloud_leaves(c)
    M, lx = twisted(T(c["T"]), "x")
    f = iu.point_to_plane_gradICP if c["grad"] else iu.point_to_plane_ICP
    kw = gate_args(c)
    d, n = c["d"], c["it"]
    with torch.no_grad():
        seq = [M] + [f(S, P, N, M, k, d, c["th"], **kw)[0] for k in range(1, n + 1)]
    damp = d
    for a, b in zip(seq[:-2], seq[1:-1]):
        if c["grad"]:
            lo = 1. / c["l"]
            damp *= lo + (c["l"] - lo) / 2          # B = 0
        elif torch.equal(a, b):
            damp *= 2
        elif float((a - b).abs().max()) < 1e-3:
            return []
        else:
            damp /= 2
    T1 = f(S, P, N, M, n - 1, d, c["th"], **kw)[0]
    T2, ly = twisted(T1.detach(), "y")
    O2 = f(S, P, N, T2, 1, damp, c["th"], **kw)[0]
    if float((O2.detach() - seq[-1]).abs().max()) > 1e-3:     # a decision on the edge
        return []
    O = f(S, P, N, M, n, d, c["th"], **kw)[0]
    return [dict(op="chain", fail="", f="gradICP" if c["grad"] else "ICP", T=fx(T1, U), J1=jac(T1, lv + [lx], U), J2=jac(O2, lv + [ly], U), J=jac(O, lv + [lx], U))]


def run_axis(c):
    S, P, N = [leaf(v.tolist()) for v in I.axis_clouds(c)]
    a, sg = c["axis"], c["sign"]
    M = leaf(I.shift(c, c["x0"]).tolist())
    lv = [(t, lambda i, w=w: w + str(i[1] + 1) if i[2] == a else None) for t, w in ((S, "s"), (P, "p"), (N, "n"))]
    lv.append((M, lambda i: "x" if i[0] == a and i[1] == 3 else None))
    X, D = [c["x0"] * U], [{"x": U}]
    for k in range(1, c["it"] + 1):
        O = iu.point_to_plane_gradICP(S, P, N, M, k, c["d0"] / float(U), c["th"], **gate_args(dict(c, grad=True)))[0]
        X.append(int(round(float(O[a, 3].detach()) * sg * U)))
        D.append(grads(O[a, 3], lv, U))
    return [dict(op="axis", fail="", s=c["s"], t=[dict(x=t["x"], sg=t["sg"], r2=sum(v * v for v in t["yz"])) for t in c["t"]], X=X, D=D, d0=c["d0"], l=c["l"],
                 c1=c["c1"], c2=c["c2"], nu=c["nu"], **limit(c))]


def provider(c):
    kw = dict(numiters=c["it"], damp=c["d"], dist_thresh=c["th"])
    if c["grad"]:
        kw.update(lambda_max=c["l"], B=c["c1"] / 4. * LN2, B2=c["c2"] / 4. * LN2, nu=c["nu"])
        return GradICPOdometryProvider(**kw), iu.point_to_plane_gradICP, kw
    return ICPOdometryProvider(**kw), iu.point_to_plane_ICP, kw


def run_prov(c):
    prov, f, kw = provider(c)
    lv, fc, mp, mn, ref = [], [], [], [], []
    for b, q in enumerate(c["clouds"]):
        (S, P, N), l = cloud_leaves(q)
        lv += [(t, lambda i, b=b, k=k: "b%d." % b + k(i)) for t, k in l]
        fc.append(S[0])
        mp.append(P[0])
        mn.append(N[0])
    out = prov.provide(Pointclouds(points=mp, normals=mn), Pointclouds(points=fc))
    for b in range(len(fc)):
        ref.append(f(fc[b].unsqueeze(0), mp[b].unsqueeze(0), mn[b].unsqueeze(0), torch.eye(4), **kw)[0])
    return [dict(op="same", fail="", f=type(prov).__name__, a=[jac(m[0], lv, U) for m in out], b=[jac(m, lv, U) for m in ref])]


# the grid of a frame and of the active map, read off the public maps
def frame_grid(x, ds):
    m = x.valid_depth_mask[:, 0, ::ds, ::ds, 0]
    d = {w: [t[b, 0, ::ds, ::ds][m[b]] for b in range(len(x))] for w, t in (("points", x.global_vertex_map), ("normals", x.global_normal_map), ("colors", x.rgb_image))}
    return Pointclouds(points=d["points"], normals=d["normals"]), d


def map_grid(m, tab, ds):
    rows = [[r for r in tab.tolist() if r[0] == b and r[2] % ds == 0 and r[3] % ds == 0] for b in range(len(m))]
    d = {w: [t[b][[r[1] for r in rows[b]]] for b in range(len(m))] for w, t in (("points", m.points_list), ("normals", m.normals_list), ("colors", m.colors_list))}
    return Pointclouds(points=d["points"], normals=d["normals"]), d


def weights(t, r):
    return torch.tensor([[r.choice((-2., -1., 1., 2.)) for _ in range(3)] for _ in range(len(t))]).reshape(-1, 3)


def run_slam(c):
    r = random.Random(c["seed"])
    B, H, Wd = c["B"], c["H"], c["W"]

    def image(z):
        return leaf([[[[[z + .125 * r.randint(-2, 2) + .25 * (h % 3) - .125 * w] for w in range(Wd)] for h in range(H)]] for _ in range(B)])
    d0, d1 = image(3.), image(3.)
    rgb = leaf([[[[[r.random() for _ in range(3)] for w in range(Wd)] for h in range(H)]] for _ in range(B)])
    K = leaf([[[[3., 0, Wd / 2., 0], [0, 4., H / 2., 0], [0, 0, 1, 0], [0, 0, 0, 1]]]] * B)
    tw = [twisted(T(m), "x%d." % b) for b, m in enumerate(c["T"])]
    P0 = torch.stack([m for m, _ in tw]).unsqueeze(1)
    lv = [x for _, x in tw] + [(d0, lambda i: "d0.%s" % i), (d1, lambda i: "d1.%s" % i), (K, lambda i: "K%s" % i)]
    prev = RGBDImages(rgb, d0, K, P0)
    live = RGBDImages(rgb, d1, K, P0)
    kw = dict(odom="gradicp" if c["grad"] else "icp", dsratio=c["ds"], numiters=c["it"], damp=c["d"], dist_thresh=c["th"])
    if c["grad"]:
        kw.update(lambda_max=c["l"], B=c["c1"] / 4. * LN2, B2=c["c2"] / 4. * LN2, nu=c["nu"])
    slam = (PointFusion if c["fusion"] else ICPSLAM)(**kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pcs, _ = slam.step(Pointclouds(), prev, None)
        tab = find_active_map_points(pcs, prev)
        fpc, fdir = frame_grid(live, c["ds"])
        mpc, mdir = map_grid(pcs, tab, c["ds"])
        tr = provider(c)[0].provide(mpc, fpc)
        lg = lv + [(rgb, lambda i: "c%s" % i)]
        grid = []
        for f, got, want in (("downsample_rgbdimages", iu.downsample_rgbdimages(live, c["ds"]), fdir), ("downsample_pointclouds", iu.downsample_pointclouds(pcs, tab, c["ds"]), mdir)):
            for w in ("points", "normals", "colors"):
                g = getattr(got, w + "_list")
                for b in range(B):
                    k = weights(want[w][b], r)
                    grid.append(dict(op="grid", fail="", f=f + " " + w, a=grads((g[b] * k).sum(), lg, U), b=grads((want[w][b] * k).sum(), lg, U)))
        if c["nopose"]:
            live = RGBDImages(rgb, d1, K)
        _, pose = slam.step(pcs, live, prev)
    if float(tr.detach().abs().max()) > 8:
        return []
    return grid + [dict(op="pose", fail="", f=type(slam).__name__, P=[fx(m, U) for m in P0[:, 0]], T=[fx(m, U) for m in tr[:, 0]],
                 JT=[jac(m, lv, U) for m in tr[:, 0]], JP=[jac(m, lv, U) for m in P0[:, 0]], J=[jac(m, lv, U) for m in pose[:, 0]])]


def run_case(c):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            st = globals()["run_" + c["kind"]](c)
    except Exception as e:
        st = [dict(op="failed", fail="%s %s" % (type(e).__name__, str(e)[:90]))]
    return dict(steps=st or [dict(op="solve", fail="", A=[[0]], b=[0], dn=1, dd=1, x=[0], J=[{"_": 0}])])


# ------------------------------------------------------------------ inputs
def ip(rng, r):
    return [rng.randint(-r, r) for _ in range(3)]


NRM = ([1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, 0, -1], [1, 1, 0], [0, 1, -1], [1, 0, 1], [1, -1, 1])


def near(p, P):
    return sorted((sum((a - b) ** 2 for a, b in zip(p, q)), i) for i, q in enumerate(P))


def sure(S, P, th):
    for p in S:
        d = near(p, P)
        if len(d) > 1 and d[0][0] == d[1][0] or th is not None and d[0][0] == th * th:
            return False
    return True


def act(M, p):
    return [int(sum(M[i][j] * p[j] for j in range(3)) + M[i][3]) for i in range(3)]


def int_clouds(rng, M, r, ns, nt, th):
    inv = None
    while True:
        P = []
        while len(P) < nt:
            q = ip(rng, r)
            if q not in P:
                P.append(q)
        S = []
        for _ in range(ns):
            # near a target once moved
            w = [a + b for a, b in zip(rng.choice(P), ip(rng, 1))]
            v = [w[i] - M[i][3] for i in range(3)]
            S.append([int(sum(M[i][j] * v[i] for i in range(3))) for j in range(3)])
        if sure([act(M, p) for p in S], P, th):
            return dict(s=S, p=P, n=[list(rng.choice(NRM)) for _ in P])


EYE = [[1., 0, 0, 0], [0, 1., 0, 0], [0, 0, 1., 0], [0, 0, 0, 1.]]


def system_case(rng):
    th = rng.choice((None, None, 1.5, 2.5, .5))
    return dict(int_clouds(rng, EYE, rng.choice((1, 2, 4)), rng.randint(1, 4), rng.randint(1, 4), th), kind="system", th=th)


def solve_case(rng):
    m, k = rng.randint(1, 5), rng.choice((1, 2, 3, 6))
    dn, dd = rng.choice(((1, 4), (1, 1), (3, 1), (10, 1), (1, 2)))
    return dict(kind="solve", wide=rng.random() < .7, A=[[rng.randint(-3, 3) for _ in range(k)] for _ in range(m)],
                b=[rng.randint(-4, 4) for _ in range(m)], dn=dn, dd=dd, tens=rng.random() < .7)


def gated(rng, c):
    c.update(grad=True, l=rng.choice((1, 2, 3, 4)), c1=rng.choice((0, 1, 2, 4)), c2=rng.choice((0, 1, 2, 4)), nu=rng.choice((1, 1, 2, 200)))
    return c


def with_mode(rng, c, p=.5):
    c.update(grad=False, l=2, c1=0, c2=0, nu=1)
    return gated(rng, c) if rng.random() < p else c


def motion(rng, p=.5):
    return mat44(rng.choice(CUBES), ip(rng, 1)) if rng.random() < p else [list(r) for r in EYE]


def step_case(rng):
    th = rng.choice((None, None, 1.5, 2.5))
    M = motion(rng)
    dn, dd = rng.choice(((1, 1), (2, 1), (4, 1), (8, 1), (1, 2)))
    return with_mode(rng, dict(int_clouds(rng, M, 2, rng.randint(1, 4), rng.randint(1, 3), th), kind="step", T=M, th=th, dn=dn, dd=dd))


def flt_cloud(rng, ns=5, nt=5):
    P = [[rng.randint(-24, 24) / 16. for _ in range(3)] for _ in range(nt)]
    S = [[v + rng.randint(-6, 6) / 32. for v in rng.choice(P)] for _ in range(ns)]
    N = []
    for _ in P:
        v = [rng.gauss(0, 1) for _ in range(3)]
        n = math.sqrt(sum(a * a for a in v)) + 1e-3
        N.append([a / n for a in v])
    return dict(s=S, p=P, n=N)


def chain_case(rng):
    c = with_mode(rng, dict(flt_cloud(rng), kind="chain", th=rng.choice((None, None, 1., 2.)), it=rng.randint(2, 3), d=rng.choice((.25, .5, 1., 2.))), .4)
    c["c1"] = 0
    x = [rng.uniform(-.3, .3) for _ in range(6)] if rng.random() < .5 else [0.] * 6
    c["T"] = se3_exp(torch.tensor([[v] for v in x], dtype=torch.float64)).float().tolist()
    return c


def axis_case(rng):
    c = dict(kind="axis", axis=rng.randrange(3), sign=rng.choice((-1, 1)), it=rng.randint(1, 3), s=[rng.randint(-2, 2) for _ in range(rng.randint(1, 3))],
             x0=rng.choice((0, 0, 1)), th=rng.choice((None, None, 2, 3)), d0=rng.choice((64, 256, 512, 1024, 2048)),
             t=[dict(x=rng.randint(-4, 4), yz=rng.choice(I.OFF), sg=rng.choice((-1, 1))) for _ in range(rng.randint(1, 3))])
    gated(rng, c)
    return c


def prov_case(rng):
    return with_mode(rng, dict(kind="prov", clouds=[flt_cloud(rng, rng.randint(2, 4), rng.randint(2, 4)) for _ in range(rng.randint(1, 3))],
                               th=rng.choice((None, 1., 2.)), it=rng.randint(1, 3), d=rng.choice((.25, 1., 4.))))


def slam_case(rng):
    B = rng.randint(1, 2)
    return with_mode(rng, dict(kind="slam", seed=rng.randrange(10 ** 9), B=B, H=rng.randint(3, 5), W=rng.randint(3, 5), ds=rng.choice((1, 2)),
                               th=rng.choice((None, 1., 2.)), it=rng.randint(1, 2), d=rng.choice((1., 4.)), fusion=rng.random() < .5,
                               nopose=rng.random() < .5, T=[motion(rng) for _ in range(B)]))


MIX = (system_case, solve_case, step_case, step_case, step_case, chain_case, chain_case, axis_case, axis_case, axis_case, prov_case)


def case(rng):
    return rng.choice(MIX)(rng) if rng.random() < .97 else slam_case(rng)


def corrupt(tr, rng):
    def dicts(x):
        if isinstance(x, dict):
            yield x
        else:
            for v in x:
                for y in dicts(v):
                    yield y
    for s in tr["steps"]:
        part = {"system": "JA", "solve": "J", "step": "", "chain": "", "axis": "", "same": "a", "pose": "J", "grid": "a"}.get(s["op"])
        if part and s[part]:
            ds = [x for x in dicts(s[part]) if any(abs(v) >= 900 for v in x.values())]
            if ds and all(abs(v) < 30 * U for x in dicts(s[part]) for v in x.values()):
                x = rng.choice(ds)
                k = rng.choice([k for k, v in x.items() if abs(v) >= 900])
                x[k] = -x[k]
                return tr
    return None
