"""Drivers for ragged/padded conversion and downsampling (C26)."""
import copy

import torch

import gs  # noqa: F401
from gradslam import Pointclouds, RGBDImages
from gradslam.odometry import icputils as iu
from gradslam.structures import structutils as su

DTYPES = {"f32": torch.float32, "f64": torch.float64, "i64": torch.int64, "bool": torch.bool}


class Tokens(object):
    """Values as small integers: equal exactly when the bits are."""

    def __init__(self):
        self.seen = {}

    def one(self, x):
        k = (type(x).__name__, x.hex() if isinstance(x, float) else x)
        return self.seen.setdefault(k, len(self.seen) + 1)

    def __call__(self, t):
        def walk(v):
            return [walk(y) for y in v] if isinstance(v, list) else self.one(v)
        return walk(t.detach().tolist())


def item(t, T):
    if t.ndim != 2:
        return dict(n=-1, c=-1, v=[])
    return dict(n=t.shape[0], c=t.shape[1], v=T(t))


def block(t, T):
    if not torch.is_tensor(t) or t.ndim != 3:
        return dict(b=-1, n=-1, c=-1, v=[])
    return dict(b=t.shape[0], n=t.shape[1], c=t.shape[2], v=T(t))


def values(g, shape, dt, special):
    if dt == torch.bool:
        return torch.rand(shape, generator=g) < .5
    if dt == torch.int64:
        return torch.randint(-2 ** 62, 2 ** 62, shape, generator=g)
    x = torch.randn(shape, generator=g, dtype=dt)
    if special:
        x[torch.rand(shape, generator=g) < .2] = float("nan")
        x[torch.rand(shape, generator=g) < .1] = -0.0
        x[torch.rand(shape, generator=g) < .1] = float("inf")
    return x


def strided(x, how):
    """The same values in memory laid out in another way."""
    if how == 1 and x.ndim >= 2:
        return x.transpose(-1, -2).contiguous().transpose(-1, -2)
    if how == 2:
        y = torch.stack((x, x), -1)
        return y[..., 0]
    return x


def run_lists(c, steps):
    g = torch.Generator().manual_seed(c["seed"])
    dt = DTYPES[c["dt"]]
    T = Tokens()
    its = []
    for n, k in c["shapes"]:
        its.append(torch.zeros(0, dtype=dt) if c["flat0"] and n == 0 else strided(values(g, (n, k), dt, c["special"]), c["lay"]))
    js = [dict(n=0, c=0, v=[]) if x.ndim == 1 else item(x, T) for x in its]
    kw = {}
    if c["size"]:
        kw["pad_size"] = tuple(c["size"]) if c["tup"] else list(c["size"])
    pv = c["pv"]
    if pv is not None:
        pv = {"f32": float, "f64": float, "i64": int, "bool": bool}[c["dt"]](pv)
        kw["pad_value"] = pv
    if c["equi"]:
        kw["equisized"] = True
    fill = torch.full((1,), pv if pv is not None else 0, dtype=dt)
    s = dict(op="pad", items=js, size=c["size"], pv=T(fill)[0], equi=c["equi"], out=dict(b=0, n=0, c=0, v=[]), dtype=True,
             fail="", mut=False)
    steps.append(s)
    before = [x.clone() for x in its]
    x = None
    try:
        x = su.list_to_padded(its, **kw)
        s["out"] = block(x, T)
        s["dtype"] = x.dtype == dt
    except Exception as e:
        s["fail"] = type(e).__name__ + " " + str(e)[:80]
        return
    s["mut"] = len(its) != len(before) or any(T(a) != T(b) or a.shape != b.shape for a, b in zip(its, before))
    # the pieces that went in come out again
    sizes = [[n, k] if n else [0] for n, k in c["shapes"]]
    sizes = [tuple(z) if len(z) == 2 and c["tup"] else z[0] if len(z) == 1 else z for z in sizes]
    r = dict(op="round", items=js, out=[], fail="", mut=False)
    steps.append(r)
    try:
        r["out"] = [item(y, T) for y in su.padded_to_list(x, sizes)]
    except Exception as e:
        r["fail"] = type(e).__name__ + " " + str(e)[:80]


def run_split(c, steps):
    g = torch.Generator().manual_seed(c["seed"])
    dt = DTYPES[c["dt"]]
    T = Tokens()
    x = strided(values(g, tuple(c["shape"]), dt, c["special"]), c["lay"])
    s = dict(op="split", x=block(x, T), sizes=c["sizes"] or [], out=[], dtype=True, fail="", mut=False)
    steps.append(s)
    before = x.clone()
    arg = None
    if c["sizes"] is not None:
        arg = [z[0] if len(z) == 1 else tuple(z) if c["tup"] else list(z) for z in c["sizes"]]
        if c["tup"]:
            arg = tuple(arg)
    keep = copy.deepcopy(arg)
    try:
        r = su.padded_to_list(x) if arg is None and c["kw"] else su.padded_to_list(x, arg)
        s["dtype"] = isinstance(r, list) and all(y.dtype == dt for y in r)
        s["out"] = [item(y, T) for y in r]
    except Exception as e:
        s["fail"] = type(e).__name__ + " " + str(e)[:80]
    s["mut"] = arg != keep or T(x) != T(before)


def rows_of(pc, name, T, B):
    l = getattr(pc, name + "_list")
    if l is None:
        return [[] for _ in range(B)]
    return [T(y) if y.shape[0] else [] for y in l]


def run_clouds(c, steps):
    g = torch.Generator().manual_seed(c["seed"])
    T = Tokens()
    B = len(c["ns"])
    dt = DTYPES[c["dt"]]
    mk = lambda: [torch.randn((n, 3), generator=g, dtype=dt) for n in c["ns"]]
    parts = dict(points=mk(), normals=mk() if c["nrm"] else None, colors=mk() if c["col"] else None)
    pc = Pointclouds(features=[torch.randn((n, 2), generator=g, dtype=dt) for n in c["ns"]] if c["feat"] else None, **parts)
    clouds = [dict((a, T(parts[a][b]) if parts[a] is not None and parts[a][b].shape[0] else []) for a in parts) for b in range(B)]
    table = torch.tensor(c["table"], dtype=torch.int64).reshape(-1, 4)
    if c["lay"]:
        table = table.t().contiguous().t()
    s = dict(op="clouds", clouds=clouds, table=c["table"], r=c["r"], has=[a for a in ("normals", "colors") if parts[a] is not None],
             outhas=dict(normals=False, colors=False), out=[], fail="", mut=False)
    steps.append(s)
    keep = table.clone()
    try:
        r = iu.downsample_pointclouds(pc, table, c["r"])
        got = dict((a, rows_of(r, a, T, len(r))) for a in parts)
        s["out"] = [dict((a, got[a][b]) for a in parts) for b in range(len(r))]
        s["outhas"] = dict(normals=r.normals_list is not None, colors=r.colors_list is not None)
    except Exception as e:
        s["fail"] = type(e).__name__ + " " + str(e)[:80]
    s["mut"] = (not torch.equal(table, keep) or len(pc) != B
                or any(rows_of(pc, a, T, B) != [clouds[b][a] for b in range(B)] for a in parts))


def run_frames(c, steps):
    g = torch.Generator().manual_seed(c["seed"])
    T = Tokens()
    dt = DTYPES[c["dt"]]
    B, H, W = len(c["valid"]), len(c["valid"][0]), len(c["valid"][0][0])
    ok = torch.tensor(c["valid"])[:, None, :, :, None]
    dep = (torch.rand((B, 1, H, W, 1), generator=g, dtype=dt) * 4 + .1) * ok
    rgb = torch.randint(0, 256, (B, 1, H, W, 3), generator=g).to(dt)
    K = torch.eye(4, dtype=dt).repeat(B, 1, 1, 1)
    K[:, 0, 0, 0] = 2.3
    K[:, 0, 1, 1] = 1.7
    K[:, 0, 0, 2] = W / 2.0
    K[:, 0, 1, 2] = H / 3.0
    P = torch.eye(4, dtype=dt).repeat(B, 1, 1, 1)
    if c["pose"]:
        q, _ = torch.linalg.qr(torch.randn((B, 1, 3, 3), generator=g, dtype=dt))
        P[..., :3, :3] = q * torch.det(q)[..., None, None]
        P[..., :3, 3] = torch.randn((B, 1, 3), generator=g, dtype=dt)
    a = (rgb, dep)
    if c["cf"]:
        a = tuple(y.permute(0, 1, 4, 2, 3).contiguous() for y in a)
    fr = RGBDImages(a[0], a[1], K, P, channels_first=c["cf"])
    ref = fr.clone().to_channels_last()
    maps = dict(points=ref.global_vertex_map, normals=ref.global_normal_map, colors=ref.rgb_image)
    js = [dict([("valid", c["valid"][b])] + [(k, T(m[b, 0])) for k, m in maps.items()]) for b in range(B)]
    s = dict(op="frames", frames=js, r=c["r"], out=[], fail="", mut=False)
    steps.append(s)
    try:
        if c["warm"]:
            fr.global_normal_map
        r = iu.downsample_rgbdimages(fr, c["r"])
        got = dict((k, rows_of(r, k, T, len(r))) for k in maps)
        s["out"] = [dict((k, got[k][b]) for k in maps) for b in range(len(r))]
    except Exception as e:
        s["fail"] = type(e).__name__ + " " + str(e)[:80]
        return
    s["mut"] = (fr.channels_first != c["cf"] or T(fr.rgb_image) != T(a[0]) or T(fr.depth_image) != T(a[1])
                or T(fr.poses) != T(P) or T(fr.intrinsics) != T(K))


def refusals():
    z = torch.zeros
    pc = Pointclouds(points=[z(2, 3)])
    tb = z(1, 4, dtype=torch.int64)
    fr = lambda L: RGBDImages(z(1, L, 3, 3, 3), torch.ones(1, L, 3, 3, 1), torch.eye(4).view(1, 1, 4, 4), torch.eye(4).repeat(1, L, 1, 1))
    V, Ty = (ValueError,), (TypeError,)
    A = (Exception,)
    return {
        "pad size of one": (lambda: su.list_to_padded([z(2, 3)], [4]), V),
        "pad size of three": (lambda: su.list_to_padded([z(2, 3)], (4, 4, 4)), V),
        "3-dimensional item": (lambda: su.list_to_padded([z(2, 3, 4)], (4, 4)), V),
        "1-dimensional item": (lambda: su.list_to_padded([z(3)], (4, 4)), V),
        "second item 3-dimensional": (lambda: su.list_to_padded([z(2, 2), z(2, 3, 2)]), V),
        "pad size too small for the rows": (lambda: su.list_to_padded([z(1, 3), z(3, 3)], (2, 3)), A),
        "pad size too small for the columns": (lambda: su.list_to_padded([z(2, 3)], (2, 2)), A),
        "equisized items that are not": (lambda: su.list_to_padded([z(2, 3), z(1, 3)], equisized=True), A),
        "padded tensor with 2 dimensions": (lambda: su.padded_to_list(z(2, 3)), V),
        "padded tensor with 4 dimensions": (lambda: su.padded_to_list(z(2, 3, 1, 1)), V),
        "too few sizes": (lambda: su.padded_to_list(z(2, 3, 3), [2]), V),
        "too many sizes": (lambda: su.padded_to_list(z(2, 3, 3), [2, 2, 2]), V),
        "a size of three numbers": (lambda: su.padded_to_list(z(2, 3, 3), [2, (1, 1, 1)]), V),
        "downsample_pointclouds of points": (lambda: iu.downsample_pointclouds(z(2, 3), tb, 2), Ty),
        "downsample_pointclouds by a list": (lambda: iu.downsample_pointclouds(pc, [[0, 0, 0, 0]], 2), Ty),
        "downsample_pointclouds ratio 2.0": (lambda: iu.downsample_pointclouds(pc, tb, 2.0), Ty),
        "downsample_pointclouds flat table": (lambda: iu.downsample_pointclouds(pc, tb[0], 2), V),
        "downsample_pointclouds 3 columns": (lambda: iu.downsample_pointclouds(pc, tb[:, :3], 2), V),
        "downsample_rgbdimages of a tensor": (lambda: iu.downsample_rgbdimages(z(1, 1, 3, 3, 3), 2), Ty),
        "downsample_rgbdimages ratio 2.0": (lambda: iu.downsample_rgbdimages(fr(1), 2.0), Ty),
        "downsample_rgbdimages of a sequence": (lambda: iu.downsample_rgbdimages(fr(2), 2), V),
    }


def run_refuse(c, steps):
    f, kinds = refusals()[c["what"]]
    s = dict(op="refuse", what=c["what"], raised=False, fail="", mut=False)
    steps.append(s)
    try:
        f()
    except kinds:
        s["raised"] = True
    except Exception as e:
        s["fail"] = c["what"] + ": " + type(e).__name__


RUN = dict(lists=run_lists, split=run_split, clouds=run_clouds, frames=run_frames, refuse=run_refuse)


def run_case(case):
    steps = []
    for c in case["ops"]:
        RUN[c["op"]](c, steps)
    return dict(steps=steps)


# ------------------------------------------------------------------ inputs
def lists(rng, shapes, size=None):
    equi = len(set(map(tuple, shapes))) == 1 and rng.random() < .4
    return dict(op="lists", seed=rng.randrange(10 ** 6), shapes=shapes, size=[] if size is None or equi else size,
                pv=rng.choice((None, None, 0, 1, -3, 7)), equi=equi, dt=rng.choice(("f32", "f32", "f64", "i64", "bool")),
                flat0=shapes[0][0] > 0 and not equi and rng.random() < .3, special=rng.random() < .3, lay=rng.randrange(3),
                tup=rng.random() < .5)


def random_lists(rng):
    n = rng.randint(1, 5)
    if rng.random() < .2:
        shapes = [[rng.randint(1, 5), rng.randint(1, 5)]] * n
    else:
        C = rng.choice((0, 0, 3))
        shapes = [[rng.choice((0, 1, 1, 2, 3, 5, 8)), C or rng.randint(1, 5)] for _ in range(n)]
    size = None
    if rng.random() < .5 or not any(s[0] for s in shapes):
        size = [max(s[0] for s in shapes) + rng.randint(0, 3), max(s[1] for s in shapes) + rng.randint(0, 2)]
        if size[0] == 0:
            size[0] = rng.randint(0, 2)
    return lists(rng, shapes, size)


def split(rng):
    B, N, C = rng.randint(1, 4), rng.randint(0, 6), rng.randint(1, 4)
    sizes = None
    if rng.random() < .8:
        sizes = [[rng.randint(0, N)] if rng.random() < .4 else [rng.randint(0, N), rng.randint(0, C)] for _ in range(B)]
    return dict(op="split", seed=rng.randrange(10 ** 6), shape=[B, N, C], sizes=sizes, dt=rng.choice(("f32", "f64", "i64", "bool")),
                special=rng.random() < .3, lay=rng.randrange(3), tup=rng.random() < .5, kw=rng.random() < .5)


def clouds(rng, ns, table, r):
    return dict(op="clouds", seed=rng.randrange(10 ** 6), ns=ns, table=table, r=r, nrm=rng.random() < .6, col=rng.random() < .6,
                feat=rng.random() < .3, lay=rng.random() < .5, dt=rng.choice(("f32", "f64")))


def random_clouds(rng):
    B = rng.randint(1, 4)
    ns = [rng.choice((0, 1, 2, 5, 9)) for _ in range(B)]
    if not any(ns):
        ns[rng.randrange(B)] = 3
    some = [b for b in range(B) if ns[b]]
    H, W = rng.choice(((2, 3), (6, 6), (480, 640)))
    table = []
    for _ in range(rng.choice((0, 1, 4, 12, 25))):
        b = rng.choice(some)
        table.append([b, rng.randrange(ns[b]), rng.randrange(H), rng.randrange(W)])
    r = rng.choice((1, 2, 2, 3, 4, 7))
    if rng.random() < .5:       # most on the grid
        for q in table:
            if rng.random() < .7:
                q[2] -= q[2] % r
            if rng.random() < .7:
                q[3] -= q[3] % r
    if rng.random() < .4:
        table.sort()
    return clouds(rng, ns, table, r)


def frames(rng, valid, r):
    return dict(op="frames", seed=rng.randrange(10 ** 6), valid=valid, r=r, cf=rng.random() < .5, pose=rng.random() < .8,
                warm=rng.random() < .3, dt="f32")


def random_frames(rng):
    B, H, W = rng.randint(1, 3), rng.randint(2, 9), rng.randint(2, 9)
    p = rng.choice((0, .1, .5, .9))
    return frames(rng, [[[rng.random() >= p for _ in range(W)] for _ in range(H)] for _ in range(B)], rng.choice((1, 2, 2, 3, 4, 5, 11)))


def random_case(rng):
    return dict(ops=[rng.choice((random_lists, split, random_clouds, random_frames))(rng) for _ in range(4)])


def corrupt(t, rng):
    for s in rng.sample(t["steps"], len(t["steps"])):
        if s["op"] == "pad" and s["out"]["n"] and s["out"]["c"]:
            s["out"]["v"][0][-1][-1] += 1000
            return t
        if s["op"] == "split" and s["out"]:
            s["out"][-1]["n"] += 1
            return t
        if s["op"] in ("clouds", "frames"):
            for o in s["out"]:
                if o["points"]:
                    if rng.random() < .5 or len(o["points"]) == 1:
                        o["points"].pop()
                    else:
                        o["points"][0][1] += 1000
                    return t
    return None
