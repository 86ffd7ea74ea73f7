"""Drivers for derivatives (C23)."""
import copy
import math
import random
import warnings

from gs import torch
from fusiondrive import BADVAL, LIM, fx, rows_of
from gradslam.slam import fusionutils as fu
from gradslam.slam.icpslam import ICPSLAM
from gradslam.slam.pointfusion import PointFusion
from gradslam.structures.pointclouds import Pointclouds
from gradslam.structures.rgbdimages import RGBDImages
from gradslam.structures.utils import pointclouds_from_rgbdimages

U = 1024
W = 256
MAPS = ("vertex_map", "normal_map", "global_vertex_map", "global_normal_map")


def num(x, s):
    x = float(x) * s
    return BADVAL if x != x or abs(x) > LIM else int(round(x))


def grads(v, leaves, s, dead=None):
    """Nonzero derivatives of the scalar v; leaves: (tensor, key of an index)."""
    o = {"_": 0}
    if not v.requires_grad:
        return o
    gs = torch.autograd.grad(v, [t for t, _ in leaves], retain_graph=True, allow_unused=True)
    for (t, key), g in zip(leaves, gs):
        if g is None:
            continue
        for ix in (g != 0).nonzero().tolist():      # NaN != 0
            x = num(g[tuple(ix)], s)
            if x and key(ix) is not None:
                o[key(ix)] = x
    return o


def jac(t, leaves, s):
    """Nested like t."""
    if t.ndim == 0:
        return grads(t, leaves, s)
    return [jac(x, leaves, s) for x in t]


def dots(name, ix):
    return name + ".".join(str(i + 1) for i in ix)


def leaf(x):
    return torch.tensor(x, dtype=torch.float32).requires_grad_()


# ------------------------------------------------------------------ frames
KNAME = {(0, 0): "fx", (1, 1): "fy", (0, 2): "cx", (1, 2): "cy"}


def kmat(K):
    return [[[[K_[0], 0, K_[2] / 2, 0], [0, K_[1], K_[3] / 2, 0], [0, 0, 1, 0], [0, 0, 0, 1]]] for K_ in K]


def pmat(R, t):
    return [[[[float(R[b][l][i][j]) for j in range(3)] + [t[b][l][i] / 4.] for i in range(3)] + [[0., 0, 0, 1]]
             for l in range(len(R[b]))] for b in range(len(R))]


def frame_leaves(c):
    """Colour, depth, intrinsics and poses that need derivatives."""
    rgb = leaf([[[[[(v % 9) / 8. for v in px] for px in r] for r in f] for f in q] for q in c["rgb"]])
    d = leaf([[[[[v / 2.] for v in r] for r in f] for f in q] for q in c["d"]])
    K = leaf(kmat(c["K"]))
    P = leaf(pmat(c["R"], c["t"])) if c["posed"] else None
    return rgb, d, K, P


def keys(rgb, d, K, P, cf, bs=None, ls=None):
    """Leaves with the keys of the selected batch elements and frames."""
    def b_(b):
        return (bs.index(b) if b in bs else -10) if bs is not None else b

    def l_(l):
        return (ls.index(l) if l in ls else -10) if ls is not None else l
    res = [(rgb, lambda i: dots("c", (b_(i[0]), l_(i[1]), i[2], i[3], i[4]))), (d, lambda i: dots("d", (b_(i[0]), l_(i[1]), i[2], i[3]))),
           (K, lambda i: dots("K", (b_(i[0]),)) + "." + KNAME[i[2], i[3]] if (i[2], i[3]) in KNAME else None)]
    if P is not None:
        res.append((P, lambda i: dots("P", (b_(i[0]), l_(i[1]), i[2], i[3]))))
    return res


def last(x, cf):
    return x.permute(0, 1, 3, 4, 2) if cf else x


def run_frame(c):
    rgb, d, K, P = frame_leaves(c)
    cf = c["cf"]

    def mk(t):
        return t.permute(0, 1, 4, 2, 3) if cf else t
    old = []
    x = RGBDImages(mk(rgb), mk(d), K, P, channels_first=cf)
    for h in c["hist"]:
        if h[0] == "read":
            getattr(x, h[1])
        elif h[0] == "depth":
            old.append(d)
            d = leaf([[[[[v / 2.] for v in r] for r in f] for f in q] for q in h[1]])
            x.depth_image = d.permute(0, 1, 4, 2, 3) if x.channels_first else d
        elif h[0] == "poses":
            old.append(P)
            P = leaf(pmat(h[1], h[2]))
            x.poses = P
        elif h[0] == "K":
            old.append(K)
            K = leaf(kmat(h[1]))
            x.intrinsics = K
        elif h[0] == "clone":
            x = x.clone()
        elif h[0] == "first":
            x = x.to_channels_first()
        elif h[0] == "last":
            x = x.to_channels_last()
        elif h[0] == "first_":
            x.to_channels_first_()
        elif h[0] == "last_":
            x.to_channels_last_()
        elif h[0] == "to":
            x = x.to("cpu")
    f = c["final"]
    bs, ls = f["bs"], f["ls"]
    if bs is not None:
        if f["how"] == "int":
            x = x[bs[0], ls[0]]
        elif f["how"] == "batch":
            x = x[bs[0]:bs[-1] + 1, :]
        else:
            x = x[bs[0]:bs[-1] + 1, ls[0]:ls[-1] + 1]
    else:
        bs, ls = list(range(len(f["d"]))), list(range(len(f["d"][0])))
    detached = x.detach()
    needs = [bool(getattr(detached, n).requires_grad) for n in (MAPS if P is not None else MAPS[:2]) + ("rgb_image", "depth_image", "intrinsics")]
    leaves = keys(rgb, d, K, P, cf, bs, ls) + [(t, lambda i: "old") for t in old if t is not None]
    s = dict(op="frame", fail="", needs=needs, posed=P is not None, d=[[f["d"][b][l] for l in ls] for b in bs], K=[f["K"][b] for b in bs],
             R=[[f["R"][b][l] for l in ls] for b in bs], B=len(bs), L=len(ls), H=len(f["d"][0][0]), W=len(f["d"][0][0][0]))
    for n, m in zip(("v", "n", "gv", "gn"), MAPS):
        if n[0] == "g" and P is None:
            s[n], s["d" + n] = s[n[1]], s["d" + n[1]]
            continue
        t = last(getattr(x, m), x.channels_first)
        s[n], s["d" + n] = fx(t, U), jac(t, leaves, U)
    steps = [s]
    if len(ls) == 1:
        for glob in (True, False):
            for filt in (True, False):
                if not c["clouds"] or (glob and P is None):
                    continue
                pc = pointclouds_from_rgbdimages(x, global_coordinates=glob, filter_missing_depths=filt)
                steps.append(dict(op="cloud", fail="", filt=filt, d=s["d"], H=s["H"], W=s["W"], B=s["B"], v=s["dgv" if glob else "dv"], n=s["dgn" if glob else "dn"],
                                  pts=[jac(p, leaves, U) for p in pc.points_list], nrm=[jac(p, leaves, U) for p in pc.normals_list],
                                  col=[jac(p, leaves, U) for p in pc.colors_list]))
    return steps


# ------------------------------------------------------------------ clouds
def run_clouds(c):
    steps, leaves, pc = [], [], None

    def named(x, name, only=None):
        t = leaf(x)
        leaves.append((t, lambda ix: dots(name, ix) if only is None or tuple(ix[-2:]) in only else None))
        return t
    for k, o in enumerate(c["ops"]):
        s = dict((a, b) for a, b in o.items())
        f = o["op"]

        def cloud():
            kw = {}
            for a, kind in (("p", "points"), ("n", "normals"), ("c", "colors"), ("f", "features")):
                if o[a]:
                    kw[kind] = [named(q, "%d%s%d." % (k, a, b + 1)) if q else torch.zeros(0, 1 if a == "f" else 3) for b, q in enumerate(o[a])]
                    if o["padded"] and kind != "x" and len(set(len(q) for q in o["p"])) == 1:
                        kw[kind] = torch.stack(kw[kind])
            return Pointclouds(**kw)
        if f == "new":
            pc = cloud()
        elif f == "append":
            q = cloud()
            if o["read"]:
                q.points_padded
            pc = pc.append_points(q) if not o["fresh"] else pc.clone().append_points(q)
        elif f == "setpts":
            ps = [named(q, "%dp%d." % (k, b + 1)) if q else torch.zeros(0, 3) for b, q in enumerate(o["p"])]
            pc.points_list = ps
        elif f == "arith":
            x = o["v"]
            t = named(x, "%do" % k) if o["leaf"] else (torch.tensor(x, dtype=torch.float32) if o["tensor"] else x)
            g = o["f"]
            pc = pc + t if g == "add" else pc - t if g == "sub" else pc * t if g == "mul" else pc / t if g == "div" else \
                pc.offset_(t) if g == "offset" else pc.scale_(t)
        elif f in ("rot", "tf"):
            M = named(o["M"], "%dM" % k)
            g = ("rotate" if f == "rot" else "transform") + ("_" if o["ip"] else "")
            if o["mm"]:
                pc = pc @ M
            else:
                pc = getattr(pc, g)(M, pre_multiplication=o["pre"])
        elif f == "proj":
            M = named(o["M"], "%dM" % k, KNAME)        # what a pinhole camera has
            pc = pc.pinhole_projection_(M) if o["ip"] else pc.pinhole_projection(M)
        elif f == "get":
            ix = o["idx"]
            pc = pc[ix[0]] if o["how"] == "int" else pc[ix] if o["how"] == "list" else pc[ix[0]:ix[-1] + 1]
        elif f == "noop":
            w = o["what"]
            if w == "clone":
                pc = pc.clone()
            elif w == "to":
                pc = pc.to("cpu")
            elif w == "padded":
                pc.points_padded, pc.normals_padded, pc.colors_padded, pc.features_padded
            elif w == "resetpad" and pc.points_padded.shape[1]:
                pc.points_padded = pc.points_padded * 1
            elif w == "list":
                pc.points_list, pc.normals_list
        if o["obs"] or k == len(c["ops"]) - 1:
            obs = {}
            d = pc.detach()
            s["needs"] = [bool(t.requires_grad) for n in ("points", "normals", "colors", "features") if getattr(d, n + "_list") is not None
                          for t in getattr(d, n + "_list") + [getattr(d, n + "_padded")]]
            for a, kind in (("p", "points"), ("n", "normals"), ("c", "colors"), ("f", "features")):
                li = getattr(pc, kind + "_list")
                if li is None:
                    obs[a] = []
                elif o["view"] == "list":
                    obs[a] = [jac(t, leaves, W) for t in li]
                else:
                    pad = getattr(pc, kind + "_padded")
                    obs[a] = [jac(pad[b][:len(li[b])], leaves, W) for b in range(len(li))]
                    rest = [pad[b][len(li[b]):] for b in range(len(li))]
                    s["needs"] += [any(len(j) > 1 for r in jac(t, leaves, W) for j in r) for t in rest]
            s["see"] = [obs]
        else:
            s["see"], s["needs"] = [], []
        for a in ("p", "n", "c", "f"):
            s.setdefault(a, [])
        s["key"] = str(k)
        steps.append(s)
    return steps


# ------------------------------------------------------------------ fusion
class Given(object):
    def __init__(self, T):
        self.T = T

    def provide(self, maps, frames):
        return self.T.unsqueeze(1)


def obs_map(pc, leaves):
    if not pc.has_points:
        return dict(any=False, p=[], n=[], c=[], f=[], dp=[], dn=[], dc=[], df=[])
    r = dict(any=True)
    for a, kind in (("p", "points"), ("n", "normals"), ("c", "colors"), ("f", "features")):
        li = getattr(pc, kind + "_list") or []
        r[a] = [fx(t, U) for t in li]
        r["d" + a] = [jac(t, leaves, U) for t in li]
    return r


def run_fusion(c):
    rgb, d, K, P = frame_leaves(c)
    leaves = keys(rgb, d, K, P, False)
    sig = math.sqrt(c["s2"] / float(U))
    fusion = c["sys"] == "fusion"
    kw = dict(dsratio=1) if c["T"] else {}
    odom = "icp" if c["T"] else "gt"
    slam = PointFusion(odom=odom, dist_th=c["dist"], angle_th=c["angle"], sigma=sig, **kw) if fusion else ICPSLAM(odom=odom, **kw)
    L = len(c["d"][0])
    x = RGBDImages(rgb, d, K, P)
    pc, steps, prev, poses = Pointclouds(), [], None, []
    T = None
    if c["T"]:
        T = leaf([[[[float(v) for v in r[:3]] + [r[3] / 4.] for r in m] + [[0., 0, 0, 1]] for m in q] for q in c["T"]])
        leaves.append((T, lambda i: dots("T", (i[0], i[1], i[2], i[3]))))
    tight = math.cos(math.radians(c["angle"]))
    for l in range(L):
        live = x[:, l]
        if c["touch"]:
            live.global_normal_map
        if T is not None:
            slam.odomprov = Given(T[:, l])
        before = obs_map(pc, leaves) if l == 0 else after
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            look = live[:, :]
            if T is not None and l:
                look.poses = slam._localize(pc, live[:, :], prev)
            corr = rows_of(fu.find_correspondences(pc, look, c["dist"], tight)) if fusion and pc.has_points else []
            new, pose = slam.step(pc, live, prev, inplace=c["ip"])
            if T is not None and l:
                live = look
        after = obs_map(new, leaves)
        s = dict(op="fuse", fail="", fusion=fusion, corr=corr, pre=before, post=after, s2=c["s2"], B=len(c["d"]), H=len(c["d"][0][0]), W=len(c["d"][0][0][0]),
                 d=[q[l] for q in c["d"]], rgb=fx(live.rgb_image[:, 0], U), drgb=jac(live.rgb_image[:, 0], leaves, U))
        for n, t in (("v", live.vertex_map[:, 0]), ("gv", live.global_vertex_map[:, 0]), ("gn", live.global_normal_map[:, 0])):
            s[n], s["d" + n] = fx(t, U), jac(t, leaves, U)
        if fusion:
            al = fu.get_alpha(live.vertex_map, dim=4, keepdim=False, sigma=sig)[:, 0]
            s["al"], s["dal"] = fx(al, U), jac(al, leaves, U)
        else:
            s["al"], s["dal"] = [], []
        steps.append(s)
        st = dict(op="pose", fail="", l=l + 1, given=l == 0 or T is None, P=[], T=[], dP=[], o=jac(pose[:, 0, :3, :4], leaves, U))
        if not st["given"]:
            st.update(P=fx(prev.poses[:, 0], U), T=fx(T[:, l], U), dP=jac(prev.poses[:, 0, :3, :4], leaves, U))
        steps.append(st)
        pc = new
        prev = x[:, l]
        prev.poses = pose
        if T is None:
            prev = None
        poses.append(pose)
    if T is None and L > 1:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            q, ps = slam(x)
        steps.append(dict(op="run", fail="", a=obs_map(q, leaves), b=after, o=jac(ps[:, :, :3, :4], leaves, U), L=L))
    return steps


def run_case(c):
    run = {"frame": run_frame, "clouds": run_clouds, "fusion": run_fusion}[c["kind"]]
    try:
        return dict(steps=run(c))
    except Exception as e:
        return dict(steps=[dict(op="failed", fail="%s %s" % (type(e).__name__, str(e)[:90]))])


# ------------------------------------------------------------------ inputs
def cubes():
    res = []
    for p in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (1, 0, 2), (2, 1, 0)):
        for s in range(8):
            M = [[0] * 3 for _ in range(3)]
            for i in range(3):
                M[i][p[i]] = -1 if s >> i & 1 else 1
            det = round(float(torch.det(torch.tensor(M, dtype=torch.float64))))
            if det == 1:
                res.append(M)
    return res


CUBES = cubes()
I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def rK(rng, H, W_):
    return [rng.choice((2, 4)), rng.choice((2, 4)), rng.randint(-1, 2 * W_), rng.randint(-1, 2 * H)]


def rdepth(rng, B, L, H, W_, miss=.2):
    return [[[[0 if rng.random() < miss else rng.randint(1, 6) for _ in range(W_)] for _ in range(H)] for _ in range(L)] for _ in range(B)]


def rposes(rng, B, L):
    return [[rng.choice(CUBES) for _ in range(L)] for _ in range(B)], [[[rng.randint(-6, 6) for _ in range(3)] for _ in range(L)] for _ in range(B)]


def rrgb(rng, B, L, H, W_):
    return [[[[[rng.randint(0, 8) for _ in range(3)] for _ in range(W_)] for _ in range(H)] for _ in range(L)] for _ in range(B)]


def flat(K, d):
    """A pixel with depth whose neighbours lie on a line with it has no normal."""
    from fractions import Fraction as F
    for K_, q in zip(K, d):
        for f in q:
            H, W_ = len(f), len(f[0])
            P = [[[F(2 * w - K_[2], 2 * K_[0]) * f[h][w], F(2 * h - K_[3], 2 * K_[1]) * f[h][w], F(f[h][w])] for w in range(W_)] for h in range(H)]
            for h in range(H):
                for w in range(W_):
                    h0, w0 = min(h, H - 2), min(w, W_ - 2)
                    a = [x - y for x, y in zip(P[h][w0 + 1], P[h][w0])]
                    b = [x - y for x, y in zip(P[h0 + 1][w], P[h0][w])]
                    if f[h][w] and not any((a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])):
                        return True
    return False


def redraw(rng, one):
    while True:
        c = one(rng)
        f = c.get("final", c)
        if not flat(f["K"], f["d"]):
            return c


def frame_case1(rng):
    B, L = rng.choice(((1, 1), (1, 1), (2, 1), (1, 2), (2, 2)))
    H, W_ = rng.randint(2, 3), rng.randint(2, 3)
    if B * L == 1:
        W_ = rng.randint(2, 4)
    R, t = rposes(rng, B, L)
    c = dict(kind="frame", cf=rng.random() < .5, posed=rng.random() < .85, K=[rK(rng, H, W_) for _ in range(B)], d=rdepth(rng, B, L, H, W_), R=R, t=t,
             rgb=rrgb(rng, B, L, H, W_), hist=[], clouds=rng.random() < .4)
    f = dict(d=c["d"], K=c["K"], R=R, bs=None, ls=None, how="")
    for _ in range(rng.choice((0, 0, 1, 2, 3, 4))):
        k = rng.choice(["read"] * 4 + ["depth", "poses", "K", "clone", "first", "last", "first_", "last_", "to"])
        if k == "read":
            c["hist"].append(["read", rng.choice(MAPS if c["posed"] else MAPS[:2])])
        elif k == "depth":
            f["d"] = rdepth(rng, B, L, H, W_)
            c["hist"].append(["depth", f["d"]])
        elif k == "poses" and c["posed"]:
            f["R"], nt = rposes(rng, B, L)
            c["hist"].append(["poses", f["R"], nt])
        elif k == "K":
            f["K"] = [rK(rng, H, W_) for _ in range(B)]
            c["hist"].append(["K", f["K"]])
        elif k not in ("poses", "K"):
            c["hist"].append([k])
    if rng.random() < .5:
        f["how"] = rng.choice(("int", "batch", "slices"))
        b0, l0 = rng.randrange(B), rng.randrange(L)
        f["bs"] = [b0] if f["how"] == "int" else list(range(b0, B))
        f["ls"] = [l0] if f["how"] == "int" else list(range(L)) if f["how"] == "batch" else list(range(l0, L))
    c["final"] = f
    return c


def rpts(rng, n, top=3):
    return [[float(rng.randint(-top, top)) for _ in range(3)] for _ in range(n)]


def cloud_case(rng):
    B = rng.randint(1, 3)
    while True:
        sizes = [rng.choice((0, 1, 1, 2, 3)) for _ in range(B)]
        if any(sizes):
            break
    has = dict(n=rng.random() < .6, c=rng.random() < .4, f=rng.random() < .3)
    proj = rng.random() < .25

    def data(sizes, z=False):
        p = [rpts(rng, n) for n in sizes]
        if z:
            for q in p:
                for x in q:
                    x[2] = float(rng.choice((1, 2, 4)))
        return dict(p=p, n=[rpts(rng, n) for n in sizes] if has["n"] else [], c=[rpts(rng, n) for n in sizes] if has["c"] else [],
                    f=[[[float(rng.randint(0, 3))] for _ in range(n)] for n in sizes] if has["f"] else [])
    view = lambda: dict(obs=rng.random() < .5, view=rng.choice(("list", "padded")))
    ops = [dict(op="new", padded=rng.random() < .3, **data(sizes, proj), **view())]
    if proj:
        if rng.random() < .5:
            ops.append(dict(op="noop", what=rng.choice(("clone", "padded")), **view()))
        one = rng.random() < .5
        Kx = lambda: [[float(rng.randint(1, 4)), 0, float(rng.randint(0, 4)), 0], [0, float(rng.randint(1, 4)), float(rng.randint(0, 4)), 0], [0, 0, 1., 0], [0, 0, 0, 1.]]
        ops.append(dict(op="proj", M=Kx() if one else [Kx() for _ in range(B)], one=one, ip=rng.random() < .5, **view()))
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(("arith", "arith", "arith", "rot", "tf", "append", "get", "noop", "setpts"))
        if k == "arith":
            f = rng.choice(("add", "sub", "mul", "div", "offset", "scale"))
            shape = rng.choice(("s", "v", "b"))
            pool = {"add": (-2, -1, 1, 2), "sub": (-2, -1, 1, 2), "offset": (-2, 1, 2), "mul": (-1, 2), "scale": (-1, 2), "div": (2, -2, 1)}[f]
            one = lambda: float(rng.choice(pool))
            v = one() if shape == "s" else [one() for _ in range(3)] if shape == "v" else [[[one() for _ in range(3)]] for _ in range(B)]
            lf = rng.random() < .6
            ops.append(dict(op="arith", f=f, shape=shape, v=v, leaf=lf, tensor=shape != "s" or rng.random() < .5, ip=rng.random() < .5, **view()))
        elif k in ("rot", "tf"):
            one, pre = rng.random() < .5, rng.random() < .6

            def M():
                R = [[float(v) for v in r] for r in rng.choice(CUBES)]
                return R if k == "rot" else [r + [float(rng.randint(-2, 2))] for r in R] + [[0., 0, 0, 1]]
            ops.append(dict(op=k, M=M() if one else [M() for _ in range(B)], one=one, pre=pre, mm=not pre and rng.random() < .5, ip=rng.random() < .5, **view()))
        elif k == "append":
            new = [rng.choice((0, 1, 2)) for _ in range(B)]
            if not any(new):
                new[0] = 1
            ops.append(dict(op="append", padded=rng.random() < .3, read=rng.random() < .5, fresh=rng.random() < .5, **data(new), **view()))
            sizes = [a + b for a, b in zip(sizes, new)]
        elif k == "get":
            how = rng.choice(("int", "list", "slice"))
            idx = [rng.randrange(B)] if how == "int" else rng.sample(range(B), rng.randint(1, B)) if how == "list" else list(range(rng.randrange(B), B))
            if not any(sizes[j] for j in idx):
                continue
            ops.append(dict(op="get", how=how, idx=idx, **view()))
            sizes = [sizes[j] for j in idx]
            B = len(idx)
        elif k == "setpts":
            ops.append(dict(op="setpts", **dict(data(sizes), n=[], c=[], f=[]), **view()))
        else:
            ops.append(dict(op="noop", what=rng.choice(("clone", "to", "padded", "list", "resetpad")), **view()))
    return dict(kind="clouds", ops=ops)


def fusion_case1(rng):
    B = rng.choice((1, 1, 2))
    L = rng.choice((1, 2, 2, 3))
    H, W_ = (2, rng.choice((2, 3)))
    f = rng.choice((2, 4))
    base = rng.choice((3, 4))
    d = [[[[0 if rng.random() < .12 else base + (rng.choice((0, 0, 1))) for _ in range(W_)] for _ in range(H)] for _ in range(L)] for _ in range(B)]
    for q in d:             # the first frame has something everywhere
        if not any(v for r in q[0] for v in r):
            q[0][0][0] = base
    R = [[I3 for _ in range(L)] for _ in range(B)]
    t = [[[rng.choice((0, 0, 1, -1)) if l else 0 for _ in range(3)] for l in range(L)] for _ in range(B)]
    for b in range(B):
        if rng.random() < .3:
            M = rng.choice(CUBES)
            R[b] = [M] * L
            t[b] = [[sum(M[i][j] * v[j] for j in range(3)) for i in range(3)] for v in t[b]]
    sysn = rng.choice(("fusion", "fusion", "fusion", "aggregate"))
    c = dict(kind="fusion", sys=sysn, K=[[f, f, W_ - 1, H - 1]] * B, d=d, R=R, t=t, posed=True, rgb=rrgb(rng, B, L, H, W_), T=[],
             s2=rng.choice((2, 3, 4)) * U, dist=rng.choice((.6, 1., 2.)), angle=rng.choice((60, 80)), ip=rng.random() < .5, touch=rng.random() < .3)
    if L > 1 and rng.random() < .4:
        c["T"] = [[[list(I3[i]) + [rng.choice((0, 0, 1, -1))] for i in range(3)] for _ in range(L)] for _ in range(B)]
    return c


def frame_case(rng):
    return redraw(rng, frame_case1)


def fusion_case(rng):
    return redraw(rng, fusion_case1)


def corrupt(tr, rng):
    def dicts(x):
        if isinstance(x, dict):
            if "_" in x:
                yield x
            else:
                for v in x.values():
                    for y in dicts(v):
                        yield y
        elif isinstance(x, list):
            for v in x:
                for y in dicts(v):
                    yield y
    steps = list(tr["steps"])
    rng.shuffle(steps)
    for s in steps:
        part = {"frame": ("dv", "dn", "dgv", "dgn"), "cloud": ("pts", "col"), "fuse": ("post",), "pose": ("o",)}.get(s["op"], ("see",))
        ds = [x for p in part if p in s for x in dicts(s[p]) if any(abs(v) >= 100 for v in x.values())]
        if ds:
            x = rng.choice(ds)
            k = rng.choice([k for k in x if abs(x[k]) >= 100])
            x[k] = -x[k]
            return tr
    return None
