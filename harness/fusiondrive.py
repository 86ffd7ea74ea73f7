"""Drivers for the fusion functions (association and map update)."""
import copy
import itertools
import math
import warnings

import geodrive as G
from gs import torch
from vlib import BADVAL
from gradslam.slam import fusionutils as fu
from gradslam.structures.pointclouds import Pointclouds
from gradslam.structures.rgbdimages import RGBDImages

CUBE = [q for q in itertools.product((-1, 0, 1), repeat=4)
        if sum(map(abs, q)) in (1, 2, 4) and [v for v in q if v][0] > 0]
LIM = 2 ** 28


def fx(t, s):
    t = t.detach().to(torch.float64) * s
    r = t.round()
    bad = ~torch.isfinite(t) | (r.abs() > LIM)
    return torch.where(bad, torch.full_like(r, BADVAL), r).to(torch.int64).tolist()


# -------------------------------------------------------------- building
def frame(f, dt=torch.float32):
    """f: B H W K d poses rgb cf"""
    B, H, W = f["B"], f["H"], f["W"]
    d = torch.tensor(f["d"], dtype=dt).reshape(B, 1, H, W, 1)
    rgb = torch.tensor(f["rgb"], dtype=dt).reshape(B, 1, H, W, 3)
    K = torch.tensor([[[[k[0], 0, k[2] / 2.0, 0], [0, k[1], k[3] / 2.0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]]
                      for k in f["K"]], dtype=dt)
    P = G.stack(f["poses"], dt).unsqueeze(1)
    if f.get("cf"):
        return RGBDImages(rgb.permute(0, 1, 4, 2, 3).contiguous(), d.permute(0, 1, 4, 2, 3).contiguous(), K, P,
                          channels_first=True)
    return RGBDImages(rgb, d, K, P)


def jsframe(f):
    return dict((k, f[k]) for k in ("B", "H", "W", "K", "d", "poses"))


def cloud(m, dt=torch.float32, drop=()):
    """m: pts nrm(nd) cc col per batch element; None: empty container."""
    if m is None:
        return Pointclouds()
    mk = lambda x, w, s=1.0: [torch.tensor(v, dtype=dt).reshape(len(v), w) / s for v in x]
    kw = dict(points=mk(m["pts"], 3), normals=mk(m["nrm"], 3, m["nd"]), colors=mk(m["col"], 3),
              features=mk(m["cc"], 1, float(m.get("ccd", 1))))
    for k in drop:
        kw.pop(k)
    p = Pointclouds(**kw)
    if m.get("padded"):
        p.points_padded, p.normals_padded, p.features_padded
    return p


def jsmap(m):
    return dict((k, m[k]) for k in ("pts", "nrm", "nd", "cc"))


def obsmap(p):
    o = {"any": bool(p.has_points), "pts": [], "nrm": [], "col": [], "cc": []}
    if p.has_points:
        o["pts"] = [fx(t, 64) for t in p.points_list]
        n = len(o["pts"])
        o["nrm"] = [fx(t, 1024) for t in p.normals_list] if p.has_normals else [[]] * n
        o["col"] = [fx(t, 64) for t in p.colors_list] if p.has_colors else [[]] * n
        o["cc"] = [fx(t.squeeze(-1), 4096) for t in p.features_list] if p.has_features else [[]] * n
    return o


def obsframe(f, x, sigma):
    y = copy.deepcopy(x).to_channels_last()
    al = fu.get_alpha(y.vertex_map, sigma, dim=4)
    return dict(H=f["H"], W=f["W"], B=f["B"], valid=y.valid_depth_mask[:, 0, ..., 0].tolist(),
                gv=fx(y.global_vertex_map[:, 0], 64), gn=fx(y.global_normal_map[:, 0], 1024),
                rgb=fx(y.rgb_image[:, 0], 64), al=fx(al[:, 0], 4096))


def snap(p=None, x=None):
    res = []
    if p is not None:
        for a in ("points_list", "normals_list", "colors_list", "features_list"):
            v = getattr(p, a)
            res.append((a, None if v is None else [t.clone() for t in v]))
    if x is not None:
        for a in ("rgb_image", "depth_image", "intrinsics", "poses"):
            v = getattr(x, a)
            res.append((a, None if v is None else [v.clone()]))
    return res


def changed(s, p=None, x=None):
    for (a, v), (_, w) in zip(s, snap(p, x)):
        if (v is None) != (w is None):
            return a
        if v is not None and (len(v) != len(w) or any(
                i.shape != j.shape or not torch.equal(i, j) for i, j in zip(v, w))):
            return a
    return ""


def rows_of(t):
    if not torch.is_tensor(t) or t.ndim != 2 or t.shape[1] != 4 or t.dtype != torch.int64:
        raise TypeError("lookup table")
    return t.tolist()


# ---------------------------------------------------------------- running
class Run(object):
    def __init__(self, case):
        self.steps = []
        self.f, self.m = case["f"], case["m"]
        self.x, self.p = frame(self.f), cloud(self.m)

    def call(self, op, fun, watch=True, **given):
        s = dict(op=op, fail="", mut="", what=given.pop("what", op), **given)
        b = snap(self.p, self.x)
        out = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = fun()
            if watch:
                s["mut"] = changed(b, self.p, self.x)
        except Exception as e:
            s["fail"] = type(e).__name__
        self.steps.append(s)
        return s, out

    def refuse(self, what, fun):
        s = dict(op="refuse", what=what, fail="ok", mut="")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fun()
        except Exception as e:
            s["fail"] = type(e).__name__
        self.steps.append(s)


def run_case(case):
    return {"steps": globals()["run_" + case["k"]](case)}


def guard(s, f):
    try:
        f()
    except Exception as e:
        s["fail"] = "result: " + type(e).__name__


def run_active(case):
    R = Run(case)
    f = jsframe(R.f)
    pts = R.m["pts"] if R.m is not None else [[] for _ in range(R.f["B"])]
    s, o = R.call("active", lambda: fu.find_active_map_points(R.p, R.x), f=f, pts=pts, rows=[])
    if o is not None:
        guard(s, lambda: s.update(rows=rows_of(o)))
    return R.steps


def stages(R, th, exact, m, rng=None):
    """active -> similar -> best -> composition; returns the correspondences."""
    f = jsframe(R.f)
    empty = R.m is None
    m = m or dict(pts=[[] for _ in range(R.f["B"])], nrm=[[] for _ in range(R.f["B"])], nd=1,
                  cc=[[] for _ in range(R.f["B"])])
    dth, doth = th["dist"], th["dot"]
    jth = dict(d2=int((2 * dth) ** 2), p=th["p"], q=th["q"])
    s, act = R.call("active", lambda: fu.find_active_map_points(R.p, R.x), f=f, pts=m["pts"], rows=[])
    if act is None:
        return None
    guard(s, lambda: s.update(rows=rows_of(act)))
    if s["fail"]:
        return None
    if rng is not None and len(act) and rng.random() < .5:
        act = act[torch.tensor(rng.sample(range(len(act)), len(act)))]
    s, o = R.call("similar", lambda: fu.find_similar_map_points(R.p, R.x, act, dth, doth), f=f, m=jsmap(m),
                  rows=act.tolist(), th=jth, exact=exact, mask=[], out=[])
    if o is None:
        return None
    sim = o[0]
    guard(s, lambda: s.update(out=rows_of(o[0]), mask=[bool(v) for v in o[1].tolist()]))
    if s["fail"]:
        return None
    s, best = R.call("best", lambda: fu.find_best_unique_correspondences(R.p, R.x, sim), f=f, m=jsmap(m),
                     rows=sim.tolist(), out=[])
    if best is None:
        return None
    guard(s, lambda: s.update(out=rows_of(best)))
    s, c = R.call("corr", lambda: fu.find_correspondences(R.p, R.x, dth, doth), out=[], want=best.tolist())
    if c is not None:
        guard(s, lambda: s.update(out=rows_of(c)))
    return best


def run_match(case):
    import random
    R = Run(case)
    stages(R, case["th"], case["exact"], case["m"], random.Random(case.get("s", 0)))
    return R.steps


def fuse_steps(R, rows, th, sigma, inplace, ways=("fuse", "update")):
    """Judge fuse_with_map (given rows) and update_map_fusion from the same map."""
    fr = obsframe(R.f, R.x, sigma)
    pre = obsmap(R.p)
    res = None
    for w in ways:
        P, X = copy.deepcopy(R.p), copy.deepcopy(R.x)
        s = dict(op="fuse", what=("fuse_with_map" if w == "fuse" else "update_map_fusion") + (" in place" if inplace else ""),
                 fail="", mut="", pre=pre, fr=fr, rows=rows.tolist(), post=pre)
        b = snap(None if inplace else P, X)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if w == "fuse":
                    o = fu.fuse_with_map(P, X, rows, sigma, inplace)
                else:
                    o = fu.update_map_fusion(P, X, th["dist"], th["dot"], sigma, inplace)
            s["post"] = obsmap(o)
            s["mut"] = changed(b, None if inplace else P, X)
            if inplace and o is not P:
                s["fail"] = "not the same object"
            res = o
        except Exception as e:
            s["fail"] = type(e).__name__
        R.steps.append(s)
    return res


def run_fuse(case):
    R = Run(case)
    th = case["th"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rows = fu.find_correspondences(R.p, R.x, th["dist"], th["dot"])
    fuse_steps(R, rows, th, sig(case["S"]), case["inplace"])
    if case.get("rows") is not None:     # any one-to-one table is accepted by fuse_with_map
        fuse_steps(R, torch.tensor(case["rows"], dtype=torch.int64).reshape(-1, 4), th, sig(case["S"]),
                   case["inplace"], ways=("fuse",))
    return R.steps


def sig(S):
    return math.sqrt(S / (2 * math.log(2)))


def run_hist(case):
    """A history of frames fused one after another (update_map_fusion)."""
    th = case["th"]
    steps = []
    p = Pointclouds() if case["m"] is None else cloud(case["m"])
    for n, f in enumerate(case["frames"]):
        R = Run({"f": f, "m": None})
        R.p, R.steps = p, steps
        if case.get("stages"):
            m = None
            if p.has_points:
                m = dict(pts=[fx(t, 1) for t in p.points_list], nrm=[fx(t, 1) for t in p.normals_list], nd=1,
                         cc=[fx(t.squeeze(-1), 16) for t in p.features_list])
            rows = stages(R, th, False, m)
            if rows is None:
                return steps
        else:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                rows = fu.find_correspondences(p, R.x, th["dist"], th["dot"])
        inplace = case["inplace"][n]
        q = fuse_steps(R, rows, th, sig(case["S"]), inplace, ways=("update",))
        if q is None:
            return steps
        p = q
    return steps


def run_agg(case):
    p = Pointclouds()
    steps = []
    for n, f in enumerate(case["frames"]):
        x = frame(f)
        fr = obsframe(f, x, 1.0)
        pre = obsmap(p)
        ip = case["inplace"][n]
        s = dict(op="aggregate", what="update_map_aggregate" + (" in place" if ip else ""), fail="", mut="",
                 pre=pre, fr=fr, post=pre)
        b = snap(None if ip else p, x)
        q = p
        try:
            q = fu.update_map_aggregate(p, x, ip)
            s["post"] = obsmap(q)
            s["mut"] = changed(b, None if ip else p, x)
            if ip and q is not p:
                s["fail"] = "not the same object"
        except Exception as e:
            s["fail"] = type(e).__name__
        steps.append(s)
        p = q
    return steps


def run_alpha(case):
    v = torch.tensor(case["pts"], dtype=torch.float64 if case["dbl"] else torch.float32)
    sg = sig(case["S"])
    sg = torch.tensor(sg, dtype=v.dtype) if case["tens"] else sg
    s = dict(op="alpha", what="get_alpha", fail="", mut="", S=case["S"], v2=[sum(a * a for a in q) for q in case["pts"]],
             out=[], pos=[])
    x = v.t().contiguous() if case["dim"] == 0 else v
    try:
        o = fu.get_alpha(x, sg, dim=case["dim"], keepdim=case["keep"])
        want = list(x.shape)
        if case["keep"]:
            want[case["dim"]] = 1
        else:
            want.pop(case["dim"])
        if list(o.shape) != want:
            s["fail"] = "shape"
        o = o.reshape(-1)
        s["out"], s["pos"] = fx(o, 2 ** 20), [bool(a > 0) for a in o]
    except Exception as e:
        s["fail"] = type(e).__name__
    return [s]


def run_bad(case):
    R = Run(case)
    f, m = R.f, R.m
    t = torch.zeros((1, 4), dtype=torch.int64)
    two = copy.deepcopy(f)
    for k in ("K", "d", "poses", "rgb"):
        two[k] = two[k] + two[k]
    two["B"] = 2 * f["B"]
    seq = frame(f)
    seq = RGBDImages(torch.cat([seq.rgb_image] * 2, 1), torch.cat([seq.depth_image] * 2, 1), seq.intrinsics,
                     torch.cat([seq.poses] * 2, 1))
    wrong, p, x = frame(two), R.p, R.x
    P = case["prop"]
    r = R.refuse
    if P == "C09":
        F = fu.find_active_map_points
        r("active: map type", lambda: F("map", x))
        r("active: frame type", lambda: F(p, "frame"))
        r("active: two frames", lambda: F(p, seq))
        r("active: batch size", lambda: F(p, wrong))
    elif P == "C10":
        F = fu.find_similar_map_points
        r("similar: map type", lambda: F("map", x, t, 1, .5))
        r("similar: frame type", lambda: F(p, "frame", t, 1, .5))
        r("similar: table type", lambda: F(p, x, [[0, 0, 0, 0]], 1, .5))
        r("similar: table dtype", lambda: F(p, x, t.float(), 1, .5))
        r("similar: table dtype int32", lambda: F(p, x, t.int(), 1, .5))
        r("similar: table ndim", lambda: F(p, x, t[0], 1, .5))
        r("similar: table width", lambda: F(p, x, t[:, :3], 1, .5))
        r("similar: two frames", lambda: F(p, seq, t, 1, .5))
        r("similar: batch size", lambda: F(p, wrong, t, 1, .5))
        r("similar: no normals", lambda: F(cloud(m, drop=("normals",)), x, t, 1, .5))
        r("similar: distance threshold type", lambda: F(p, x, t, "1", .5))
        r("similar: angle threshold type", lambda: F(p, x, t, 1, "0.5"))
        F = fu.find_best_unique_correspondences
        r("best: map type", lambda: F("map", x, t))
        r("best: frame type", lambda: F(p, "frame", t))
        r("best: table type", lambda: F(p, x, [[0, 0, 0, 0]]))
        r("best: table dtype", lambda: F(p, x, t.float()))
        r("best: table ndim", lambda: F(p, x, t[0]))
        r("best: table width", lambda: F(p, x, t[:, :3]))
        r("best: two frames", lambda: F(p, seq, t))
        r("best: batch size", lambda: F(p, wrong, t))
        r("best: no confidences", lambda: F(cloud(m, drop=("features",)), x, t))
        a = torch.zeros(2, 3)
        r("close: type", lambda: fu.are_points_close([0, 0, 0], a, 1))
        r("close: type 2", lambda: fu.are_points_close(a, [0, 0, 0], 1))
        r("close: shapes", lambda: fu.are_points_close(a, a[:1], 1))
        r("close: width", lambda: fu.are_points_close(a[:, :2], a[:, :2], 1))
        r("close: threshold", lambda: fu.are_points_close(a, a, "1"))
        r("normals: type", lambda: fu.are_normals_similar([0, 0, 0], a, 1))
        r("normals: shapes", lambda: fu.are_normals_similar(a, a[:1], 1))
        r("normals: width", lambda: fu.are_normals_similar(a[:, :2], a[:, :2], 1))
        r("normals: threshold", lambda: fu.are_normals_similar(a, a, "1"))
    else:
        F = fu.fuse_with_map
        r("fuse: map type", lambda: F("map", x, t, .6))
        r("fuse: frame type", lambda: F(p, "frame", t, .6))
        r("fuse: table type", lambda: F(p, x, [[0, 0, 0, 0]], .6))
        r("fuse: table dtype", lambda: F(p, x, t.float(), .6))
        r("fuse: table ndim", lambda: F(p, x, t[0], .6))
        r("fuse: table width", lambda: F(p, x, t[:, :3], .6))
        r("fuse: sigma type", lambda: F(p, x, t, "0.6"))
        r("fuse: sigma not scalar", lambda: F(p, x, t, torch.ones(2)))
        for d in ("normals", "colors", "features"):
            r("fuse: map without " + d, lambda: F(cloud(m, drop=(d,)), x, t, .6))
        r("alpha: type", lambda: fu.get_alpha([1, 2, 3], 1))
        r("alpha: width", lambda: fu.get_alpha(torch.zeros(2, 2), 1))
        r("alpha: eps", lambda: fu.get_alpha(torch.zeros(2, 3), 1, eps=1))
        r("aggregate: map type", lambda: fu.update_map_aggregate("map", x))
        r("aggregate: frame type", lambda: fu.update_map_aggregate(p, "frame"))
    return R.steps


# ------------------------------------------------------------- generation
def rgbs(rng, H, W):
    return [[[rng.randrange(256) for _ in range(3)] for _ in range(W)] for _ in range(H)]


def mul(q, v):
    """R(q) v for rotations of the cube (exact)."""
    R = G.rot(q)
    return [int(round(sum(R[i][k] * v[k] for k in range(3)))) for i in range(3)]


def exact_frame(rng, B, const=None, cf=None, tmax=20, size=None):
    H, W = size or (rng.randint(2, 4), rng.randint(2, 5))
    const = rng.random() < .5 if const is None else const
    K = [[rng.choice((32, 64)), rng.choice((32, 64)), 2 * rng.randint(-1, W), 2 * rng.randint(-1, H)] for _ in range(B)]
    d = []
    for b in range(B):
        base = rng.choice((64, 128))
        hole = 0 if rng.random() < .15 else rng.choice((0, 0, .2, .5, 1))
        d.append([[0 if rng.random() < hole else (base if const else rng.choice((64, 128, 128))) for _ in range(W)]
                  for _ in range(H)])
    return dict(B=B, H=H, W=W, K=K, d=d, cf=rng.random() < .4 if cf is None else cf,
                poses=[dict(q=list(rng.choice(CUBE)), t=[rng.randint(-tmax, tmax) for _ in range(3)]) for _ in range(B)],
                rgb=[rgbs(rng, H, W) for _ in range(B)], const=const)


def vertex(f, b, h, w, d=None):
    d = f["d"][b][h][w] if d is None else d
    K = f["K"][b]
    return [(2 * w - K[2]) * d // (2 * K[0]), (2 * h - K[3]) * d // (2 * K[1]), d]


def world(f, b, v):
    p = f["poses"][b]
    return [a + t for a, t in zip(mul(p["q"], v), p["t"])]


AXES = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]
N5 = [[3, 4, 0], [0, -3, 4], [4, 0, 3], [0, 4, 3], [3, 0, -4], [-4, 3, 0], [0, 3, 4], [-3, 0, 4]]


def exact_map(rng, f, th, cnt=10, ccmax=3):
    """Points around the pixels of a frame: competing, just inside and outside."""
    nd = 5 if f["const"] and rng.random() < .4 else 1
    m = dict(pts=[], nrm=[], cc=[], col=[], nd=nd, padded=rng.random() < .5)
    R = int(math.ceil(th)) + 1
    for b in range(f["B"]):
        n = rng.choice((0, 1, rng.randint(2, cnt), cnt))
        P, N, C = [], [], []
        hot = [(rng.randrange(f["H"]), rng.randrange(f["W"])) for _ in range(2)]
        for _ in range(n):
            h, w = rng.choice(hot) if rng.random() < .6 else (rng.randrange(f["H"]), rng.randrange(f["W"]))
            kind = rng.random()
            if kind < .8:
                v = vertex(f, b, h, w, f["d"][b][h][w] or 64)
                o = rng.choice(([0, 0, 0], [0, 0, rng.randint(-R, R)], [rng.choice((-1, 1)), 0, 0],
                                [rng.randint(-1, 1) for _ in range(3)], [0, 0, int(th)], [0, 0, -int(th)]))
                v = [a + e for a, e in zip(v, o)]
            else:
                v = [rng.randint(-60, 60), rng.randint(-60, 60), rng.randint(-100, 160)]
            P.append(world(f, b, v))
            z = mul(f["poses"][b]["q"], [0, 0, 1])
            r = rng.random()
            if nd == 5:
                N.append([5 * a for a in z] if r < .4 else mul(f["poses"][b]["q"], rng.choice(N5)))
            else:
                N.append(z if r < .7 else rng.choice(AXES))
            C.append(rng.randint(1, ccmax))
        m["pts"].append(P)
        m["nrm"].append(N)
        m["cc"].append(C)
        m["col"].append([[rng.randrange(256) for _ in range(3)] for _ in P])
    return m


TH = [.5, 1, 1.5, 2, 3, 4, 5]
DOTS = [(0, 1, 0), (1, 2, .5), (3, 4, .75), (1, 1, 1), (3, 4, .75), (1, 2, .5)]


def thresholds(rng):
    p, q, dot = rng.choice(DOTS)
    d = rng.choice(TH)
    return dict(dist=d, dot=dot, p=p, q=q)


def match_case(rng):
    B = rng.choice((1, 1, 2, 3))
    f = exact_frame(rng, B)
    th = thresholds(rng)
    if rng.random() < .05:
        m = None
    else:
        m = exact_map(rng, f, th["dist"])
        base = rng.choice((0, 0, 0, 60, 1000, 30000))     # confidences: close to each other, large, tiny
        m["cc"] = [[v + base for v in cc] for cc in m["cc"]]
        m["ccd"] = rng.choice((1, 1, 1, 256, 2 ** 20))
    f = dict(f)
    c = dict(k="match", f=f, m=m, th=th, exact=True, s=rng.randrange(10 ** 6))
    return c


def general_frame(rng, B):
    H, W = rng.randint(2, 5), rng.randint(2, 6)
    K = [[rng.choice((1, 2, 3, 5, 10, 32)), rng.choice((1, 2, 3, 4, 32)), rng.randint(-3, 2 * W + 3),
          rng.randint(-3, 2 * H + 3)] for _ in range(B)]
    qs = [list(rng.choice(CUBE)) if rng.random() < .5 else rng.choice(([1, 2, 0, 2], [0, 1, 1, 1], [1, 1, 1, 2],
                                                                      [2, 0, -1, 1], [0, 0, 1, 2], [3, 1, 0, -1]))
          for _ in range(B)]
    return dict(B=B, H=H, W=W, K=K, d=[[[rng.choice((0, 1, 2)) for _ in range(W)] for _ in range(H)] for _ in range(B)],
                cf=rng.random() < .4, poses=[dict(q=q, t=[rng.randint(-9, 9) for _ in range(3)]) for q in qs],
                rgb=[rgbs(rng, H, W) for _ in range(B)])


def active_case(rng):
    B = rng.choice((1, 1, 2, 3))
    f = general_frame(rng, B)
    if rng.random() < .04:
        return dict(k="active", f=f, m=None)
    m = dict(pts=[], nrm=[], cc=[], col=[], nd=1, padded=rng.random() < .5)
    for b in range(B):
        n = rng.choice((0, 1, rng.randint(2, 12), 12))
        P = []
        K, q, t = f["K"][b], f["poses"][b]["q"], f["poses"][b]["t"]
        cube = tuple(q) in CUBE
        for _ in range(n):
            r = rng.random()
            if r < .65 and cube:
                # exactly on a (half or quarter) pixel, borders included, also behind the camera
                u2 = rng.choice((rng.randint(-3, 2 * f["W"] + 1), 0, 2 * f["W"] - 2, -1, 2 * f["W"] - 1))
                v2 = rng.choice((rng.randint(-3, 2 * f["H"] + 1), 0, 2 * f["H"] - 2, -1, 2 * f["H"] - 1))
                # more chance that the other coordinate is inside
                if rng.random() < .5:
                    v2 = rng.randint(0, 2 * f["H"] - 2)
                elif rng.random() < .5:
                    u2 = rng.randint(0, 2 * f["W"] - 2)
                k = rng.choice((1, 1, 2, -1))
                Z = 2 * K[0] * K[1] * k
                if abs(Z) * max(abs(u2), abs(v2)) > 40000:
                    Z = 2 * K[0] * K[1]
                v = [(u2 - K[2]) * Z // (2 * K[0]), (v2 - K[3]) * Z // (2 * K[1]), Z]
                P.append(world(f, b, v))
            elif r < .75 and cube:
                P.append(world(f, b, [rng.randint(-3, 6), rng.randint(-3, 6), rng.choice((0, 0, -1, 1))]))
            elif r < .8:
                P.append(list(t))
            else:
                P.append([rng.randint(-20, 20) for _ in range(3)])
        m["pts"].append(P)
        m["nrm"].append([[0, 0, 1] for _ in P])
        m["cc"].append([1 for _ in P])
        m["col"].append([[1, 2, 3] for _ in P])
    return dict(k="active", f=f, m=m)


S_VALUES = [1024, 4096, 16384, 10 ** 9]


def fuse_case(rng):
    B = rng.choice((1, 2, 2, 3))
    f = exact_frame(rng, B)
    th = dict(dist=rng.choice((2, 4, 5, 8)), dot=rng.choice((0, .5)), p=0, q=1)
    m = None if rng.random() < .08 else exact_map(rng, f, th["dist"], ccmax=5)
    rows = None
    if m is not None and rng.random() < .5:
        rows = []
        for b in range(B):
            px = [(h, w) for h in range(f["H"]) for w in range(f["W"]) if f["d"][b][h][w] > 0]
            n = min(len(px), len(m["pts"][b]))
            n = rng.choice((0, n, rng.randint(0, n)))
            for i, (h, w) in zip(rng.sample(range(len(m["pts"][b])), n), rng.sample(px, n)):
                rows.append([b, i, h, w])
        rng.shuffle(rows)
    return dict(k="fuse", f=f, m=m, th=th, S=rng.choice(S_VALUES), inplace=rng.random() < .5, rows=rows)


def hist_case(rng):
    B = rng.choice((1, 2, 3))
    size = (rng.randint(2, 3), rng.randint(2, 4))
    frames = []
    f0 = exact_frame(rng, B, const=True, size=size, tmax=10)
    for _ in range(rng.randint(2, 4)):
        if rng.random() < .6:
            f = copy.deepcopy(f0)       # same view, other holes, small motion
            for b in range(B):
                for h in range(f["H"]):
                    for w in range(f["W"]):
                        f["d"][b][h][w] = rng.choice((0, 64, 64, 128)) if rng.random() < .5 else f0["d"][b][h][w]
                f["poses"][b]["t"] = [v + rng.randint(-2, 2) for v in f0["poses"][b]["t"]]
            f["rgb"] = [rgbs(rng, f["H"], f["W"]) for _ in range(B)]
            f["cf"] = rng.random() < .4
        else:
            f = exact_frame(rng, B, size=size, tmax=10)
        frames.append(f)
    th = dict(dist=rng.choice((2, 4, 8)), dot=rng.choice((0, .5)), p=0, q=1)
    m = None if rng.random() < .7 else exact_map(rng, dict(f0, const=False), 4, cnt=6)
    return dict(k="hist", frames=frames, m=m, th=th, S=rng.choice(S_VALUES), inplace=[rng.random() < .5 for _ in frames])


def agg_case(rng):
    c = hist_case(rng)
    return dict(k="agg", frames=c["frames"], inplace=c["inplace"])


def alpha_case(rng):
    S = rng.choice((1, 4, 100, 1024, 16384))
    r = max(1, int(math.sqrt(S) * rng.choice((.5, 1, 2, 4))))
    pts = [[rng.randint(-r, r) for _ in range(3)] for _ in range(rng.randint(1, 12))]
    k = int(math.sqrt(S))
    pts += [[0, 0, 0], [k, 0, 0], [k, k, 0], [k, -k, k], [0, 0, 2 * k]]
    return dict(k="alpha", S=S, pts=pts, dbl=rng.random() < .5, tens=rng.random() < .3, dim=rng.choice((0, -1, 1)),
                keep=rng.random() < .5)


def bad_case(rng, prop):
    f = exact_frame(rng, 1, const=True, cf=False)
    f["d"] = [[[64] * f["W"] for _ in range(f["H"])]]
    m = exact_map(rng, f, 2)
    while not m["pts"][0]:
        m = exact_map(rng, f, 2)
    return dict(k="bad", f=f, m=m, prop=prop)


# from the specification's own enumeration
def hosted(cands, rng):
    """Competition cases, each hosted by its own pixel of constant-depth frames."""
    H, W, B = 3, 5, 2
    out = []
    per = B * H * W
    for k in range(0, len(cands), per):
        grp = cands[k:k + per]
        f = exact_frame(rng, B, const=True, size=(H, W))
        f["K"] = [[32, 32, 2 * rng.randint(0, W), 2 * rng.randint(0, H)] for _ in range(B)]
        f["d"] = [[[128] * W for _ in range(H)] for _ in range(B)]
        m = dict(pts=[[] for _ in range(B)], nrm=[[] for _ in range(B)], cc=[[] for _ in range(B)],
                 col=[[] for _ in range(B)], nd=1, padded=rng.random() < .5)
        todo = [[(i, j) for j in range(len(c))] for i, c in enumerate(grp)]
        seq = []
        while any(todo):        # interleave the pixels, keeping the order within one
            l = rng.choice([t for t in todo if t])
            seq.append(l.pop(0))
        for (i, j) in seq:
            b, h, w = i // (H * W), (i // W) % H, i % W
            c = grp[i][j]
            v = [a + e for a, e in zip(vertex(f, b, h, w), c["o"])]
            m["pts"][b].append(world(f, b, v))
            z = mul(f["poses"][b]["q"], [0, 0, 1] if c["good"] else rng.choice(([0, 0, -1], [1, 0, 0])))
            m["nrm"][b].append(z)
            m["cc"][b].append(c["cc"])
            m["col"][b].append([1, 2, 3])
        out.append(dict(k="match", f=f, m=m, th=dict(dist=4, dot=.5, p=1, q=2), exact=True, s=k))
    return out


def mech_cases(hists, rng, B=3):
    """Each batch element runs one enumerated history of near / far / missing."""
    out = []
    for k in range(0, len(hists), B):
        grp = (hists[k:k + B] + hists[:B])[:B]
        poses = [dict(q=list(rng.choice(CUBE)), t=[rng.randint(-5, 5) for _ in range(3)]) for _ in range(B)]
        K = [[64, 64, 2 * rng.randint(0, 1), 2 * rng.randint(0, 1)] for _ in range(B)]
        frames = []
        for n in range(len(grp[0])):
            f = dict(B=B, H=2, W=2, K=K, poses=poses, cf=rng.random() < .3, const=False, rgb=[rgbs(rng, 2, 2) for _ in range(B)],
                     d=[[[{"none": 0, "near": 128, "far": 192}[g[n][2 * h + w]] for w in range(2)] for h in range(2)]
                        for g in grp])
            frames.append(f)
        out.append(dict(k="hist", frames=frames, m=None, th=dict(dist=4, dot=-2, p=-2, q=1), S=10 ** 9, stages=True,
                        inplace=[rng.random() < .5 for _ in frames]))
    return out


def corrupt(t, rng):
    ks = [s for s in t["steps"] if s["op"] != "refuse" and not s["fail"]]
    if not ks:
        return None
    s = rng.choice(ks)
    if s["op"] == "active":
        if not s["rows"]:
            return None
        r = rng.choice(s["rows"])
        r[rng.choice((2, 3))] += 2
    elif s["op"] == "similar":
        if not s["mask"]:
            return None
        s["mask"][0] = not s["mask"][0]
    elif s["op"] in ("best", "corr"):
        if not s["out"]:
            return None
        s["out"] = s["out"][1:]
    elif s["op"] in ("fuse", "aggregate"):
        b = [q for q in s["post"]["pts"] if q]
        if not b:
            return None
        b[0][0][rng.randrange(3)] += 200
    elif s["op"] == "alpha":
        s["out"][-1] += 2 ** 19
    return t
