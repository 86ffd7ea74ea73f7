"""Drivers for what viewers are handed: clouds and frames (C27)."""
import base64
import re

import cv2
import numpy as np
import torch

import gs  # noqa: F401
import plotly.graph_objects as go
from gradslam import Pointclouds, RGBDImages
from gradslam.structures import structutils as su
from raggeddrive import Tokens

TILE = 16
BAD = -1073741823


def near_int(x, scale):
    x = float(x) * scale
    return BAD if x != x or abs(x) > 1e9 else int(round(x))


def same_cloud(pc, parts):
    for a, l in parts.items():
        got = getattr(pc, a + "_list")
        if (got is None) != (l is None):
            return False
        if l is not None and any(not torch.equal(x, y) for x, y in zip(got, l)):
            return False
    return len(pc) == len(parts["points"])


def run_cloud(c, steps):
    g = torch.Generator().manual_seed(c["seed"])
    T = Tokens()
    dt = torch.float64 if c["f64"] else torch.float32
    pts = [torch.randn((n, 3), generator=g, dtype=dt) for n in c["ns"]]
    nrm = [torch.randn((n, 3), generator=g, dtype=dt) for n in c["ns"]] if c["nrm"] else None
    col = [torch.tensor(x, dtype=dt).reshape(-1, 3) / 256 for x in c["col"]] if c["col"] is not None else None
    if c["grad"]:
        pts = [x.requires_grad_() for x in pts]
        col = [x.requires_grad_() for x in col] if col else col
    parts = dict(points=pts, normals=nrm, colors=col)
    feats = [torch.randn((n, 2), generator=g, dtype=dt) for n in c["ns"]] if c["seed"] % 2 else None
    pc = Pointclouds(features=feats, **parts)
    keep = dict((a, None if l is None else [x.detach().clone() for x in l]) for a, l in parts.items())
    b = c["index"]
    tok = lambda a: T(torch.as_tensor(np.array(a, dtype=np.float64))) if len(a) else []
    lst = lambda l: tok(l[b].detach().numpy()) if l is not None else []
    s = dict(op="cloud", kind=c["kind"], points=lst(pts), normals=lst(nrm), colors=c["col"][b] if c["col"] is not None else [],
             hascol=c["col"] is not None, hasnrm=c["nrm"], lim=-1 if c["lim"] is None else c["lim"], inccol=c["inccol"],
             incnrm=c["incnrm"] and c["kind"] == "open3d", out=[], gotcol=False, gotnrm=False, outcol=[], outnrm=[], size=c["size"],
             gotsize=0, markers=True, figure=c["figure"], isfigure=False, fail="", mut=False)
    steps.append(s)
    torch.manual_seed(c["seed"])
    try:
        kw = {}
        if not c["inccol"] or c["explicit"]:
            kw["include_colors"] = c["inccol"]
        if c["lim"] is not None or c["explicit"]:
            kw["max_num_points"] = c["lim"]
        if c["kind"] == "open3d":
            if c["incnrm"] or c["explicit"]:
                kw["include_normals"] = c["incnrm"]
            o = pc.open3d(b, **kw)
            s["out"] = tok(np.asarray(o.points))
            s["gotcol"], s["gotnrm"] = bool(o.has_colors()), bool(o.has_normals())
            if s["gotcol"]:
                s["outcol"] = [[near_int(v, 65280) for v in r] for r in np.asarray(o.colors)]
            if s["gotnrm"]:
                s["outnrm"] = tok(np.asarray(o.normals))
        else:
            if c["size"] != 2 or c["explicit"]:
                kw["point_size"] = c["size"]
            if not c["figure"] or c["explicit"]:
                kw["as_figure"] = c["figure"]
            o = pc.plotly(b, **kw)
            s["isfigure"] = isinstance(o, go.Figure)
            tr = o
            if s["isfigure"]:
                tr = o.data[0] if len(o.data) == 1 else None
            s["markers"] = isinstance(tr, go.Scatter3d) and tr.mode == "markers"
            xyz = [np.asarray(v) for v in (tr.x, tr.y, tr.z)]
            s["out"] = tok(np.stack(xyz, -1)) if len(xyz[0]) else []
            s["gotsize"] = tr.marker.size
            s["gotcol"] = tr.marker.color is not None
            if s["gotcol"]:
                s["outcol"] = [[near_int(v, 1) for v in r] for r in np.asarray(tr.marker.color)]
            s["size"] = c["size"]
    except Exception as e:
        s["fail"] = c["kind"] + " " + type(e).__name__ + " " + str(e)[:80]
        return
    s["mut"] = not same_cloud(pc, keep)


def image(o):
    """The tile means of a go.Image."""
    m = re.match(r"data:image/jpeg;base64,(.*)$", o.source or "")
    buf = np.frombuffer(base64.b64decode(m.group(1)), dtype=np.uint8)
    return cv2.imdecode(buf, cv2.IMREAD_UNCHANGED)


def tiles(img):
    H, W = img.shape[0] // TILE, img.shape[1] // TILE
    if img.shape[:2] != (H * TILE, W * TILE) or not H or not W:
        return [[[-1, -1, -1]]]
    r = img.reshape(H, TILE, W, TILE, -1)[:, 4:-4, :, 4:-4].astype(float).mean((1, 3)).round().astype(int)
    return r.tolist()


def blow(t):
    return t.repeat_interleave(TILE, -3).repeat_interleave(TILE, -2)


def kind_of(o):
    h = o.hovertemplate or ""
    return "color" if "color" in h and "depth" not in h else "depth" if "depth" in h else "?"


def run_frames(c, steps):
    rgb = torch.tensor(c["rgb"], dtype=torch.float32) / 256      # B L H W 3
    dep = torch.tensor(c["dep"], dtype=torch.float32)[..., None] / 64
    b = c["index"]
    s = dict(op="frames", rgb=c["rgb"][b], dep=c["dep"][b], incdep=c["incdep"], figure=c["figure"], ms=c["ms"], isfigure=False, names=[],
             kinds=[], traces=[], imnames=[], outrgb=[], outdep=[], scale=[], first=True, steps=[], dur=0, fail="", mut=False)
    steps.append(s)
    a = [blow(rgb), blow(dep)]
    if c["cf"]:
        a = [x.permute(0, 1, 4, 2, 3).contiguous() for x in a]
    B, L = rgb.shape[:2]
    if c["grad"]:
        a[1].requires_grad_()
    K, P = torch.eye(4).repeat(B, 1, 1, 1), torch.eye(4).repeat(B, L, 1, 1)
    x = RGBDImages(a[0], a[1], K, P, channels_first=c["cf"])
    keep = [y.detach().clone() for y in a]
    try:
        kw = {}
        if not c["incdep"] or c["explicit"]:
            kw["include_depth"] = c["incdep"]
        if not c["figure"] or c["explicit"]:
            kw["as_figure"] = c["figure"]
        if c["ms"] != 50 or c["explicit"]:
            kw["ms_per_frame"] = c["ms"]
        o = x.plotly(b, **kw)
        s["isfigure"] = isinstance(o, go.Figure)
        fs = o.frames if s["isfigure"] else o
        for f in fs:
            data = list(f["data"])
            s["names"].append(str(f["name"]))
            s["kinds"].append([kind_of(d) for d in data])
            tr = f["traces"] if s["isfigure"] else f.get("traces")
            s["traces"].append(list(tr) if tr is not None else [])
            s["imnames"].append([str(d.name) for d in data])
            im = image(data[0])
            s["outrgb"].append(tiles(im[..., ::-1]) if im.ndim == 3 else [[[-1] * 3]])
            if c["incdep"] and len(data) > 1:
                im = image(data[1])
                s["outdep"].append([[v[0] for v in r] for r in tiles(im)])
                m = re.search(r"scale: (x[0-9.e+-]+)", data[1].hovertemplate)
                s["scale"].append(m.group(1) if m else "")
        if s["isfigure"]:
            s["first"] = len(o.data) == len(fs[0]["data"]) and all(p.source == q.source for p, q in zip(o.data, fs[0]["data"]))
            for st in o.layout.sliders[0].steps:
                s["steps"].append([str(st.args[0][0]), st.method])
                if str(st.label) != str(st.args[0][0]):
                    s["steps"][-1][1] += " label"
            s["dur"] = o.layout.updatemenus[0].buttons[0].args[1]["frame"]["duration"]
    except Exception as e:
        s["fail"] = type(e).__name__ + " " + str(e)[:80]
        return
    s["mut"] = (not torch.equal(x.rgb_image, keep[0]) or not torch.equal(x.depth_image, keep[1]) or x.channels_first != c["cf"])


def run_quality(c, steps):
    """Lower quality never costs more bytes, the default is 95, names pass through."""
    g = np.random.RandomState(c["seed"])
    img = g.randint(0, 256, (32, 48) if c["grey"] else (32, 48, 3)).astype(np.uint8)
    s = dict(op="quality", ok=True, what="", fail="", mut=False)
    steps.append(s)
    keep = img.copy()

    def no(w):
        s["ok"], s["what"] = False, w
    try:
        sizes = [len(su.img_to_b64str(img, q)) for q in (5, 40, 95)]
        if not sizes[0] < sizes[1] < sizes[2]:
            no("quality is not used")
        if su.img_to_b64str(img) != su.img_to_b64str(img, 95):
            no("default quality")
        o = su.numpy_to_plotly_image(img, "n%d" % c["seed"], c["grey"], 100.0 if c["grey"] else None, 40)
        if o.name != "n%d" % c["seed"] or o.source != su.img_to_b64str(img, 40):
            no("name or source of the image")
        if ("scale" in o.hovertemplate) != c["grey"] or kind_of(o) != ("depth" if c["grey"] else "color"):
            no("hover text")
        back = image(o)
        if back.shape != img.shape:
            no("shape of the image")
        hi = image(su.numpy_to_plotly_image(img, quality=100))
        hi = hi if c["grey"] else hi[..., ::-1]
        # chroma is subsampled: compare brightness
        w = np.array([.299, .587, .114])
        lum = lambda x: x.astype(float) if c["grey"] else x @ w
        if np.abs(lum(hi) - lum(img)).mean() > 8:
            no("content of the image")
    except Exception as e:
        s["fail"] = type(e).__name__ + " " + str(e)[:80]
    s["mut"] = not np.array_equal(keep, img)


def refusals():
    z = torch.zeros
    pc = Pointclouds(points=[z(2, 3), z(3, 3)])
    fr = RGBDImages(z(2, 1, 2, 2, 3), torch.ones(2, 1, 2, 2, 1), torch.eye(4).repeat(2, 1, 1, 1), torch.eye(4).repeat(2, 1, 1, 1))
    Ty, V, A = (TypeError,), (ValueError,), (Exception,)
    res = {}
    for name, f in (("open3d", pc.open3d), ("plotly", pc.plotly), ("frames", fr.plotly)):
        for w, i in (("slice", slice(0, 1)), ("float", 0.0), ("list", [0]), ("tensor", torch.tensor([0])), ("string", "0")):
            res["%s index %s" % (name, w)] = ((lambda f=f, i=i: f(i)), Ty)
        res[name + " index past the end"] = ((lambda f=f: f(2)), A)
        res[name + " index far negative"] = ((lambda f=f: f(-3)), A)
    res["image of a tensor"] = (lambda: su.img_to_b64str(z(4, 4)), Ty)
    res["image of a list"] = (lambda: su.img_to_b64str([[1, 2]]), Ty)
    res["image with 1 dimension"] = (lambda: su.img_to_b64str(np.zeros(4, np.uint8)), V)
    res["image with 4 dimensions"] = (lambda: su.img_to_b64str(np.zeros((1, 4, 4, 3), np.uint8)), V)
    return res


def run_refuse(c, steps):
    f, kinds = refusals()[c["what"]]
    s = dict(op="refuse", what=c["what"], raised=False, fail="", mut=False)
    steps.append(s)
    try:
        f()
    except kinds:
        s["raised"] = True
    except Exception as e:
        s["fail"] = c["what"] + ": " + type(e).__name__


RUN = dict(cloud=run_cloud, frames=run_frames, quality=run_quality, refuse=run_refuse)


def run_case(case):
    steps = []
    for c in case["ops"]:
        RUN[c["op"]](c, steps)
    return dict(steps=steps)


# ------------------------------------------------------------------ inputs
def colours(rng, n, mode):
    if mode == "unit":
        f = lambda: rng.choice((0, 256, rng.randint(0, 256), rng.randint(0, 256), rng.randint(-40, 281)))
    elif mode == "byte":
        f = lambda: 256 * rng.choice((0, 1, 1, 255, rng.randint(0, 255), rng.randint(0, 255)))
    elif mode == "half":
        f = lambda: 128 * rng.randint(-8, 520)
    else:
        f = lambda: rng.choice((0, 256, 256, 128))
    x = [[f() for _ in range(3)] for _ in range(n)]
    if mode in ("byte", "half", "dark") and n:
        x[rng.randrange(n)][rng.randrange(3)] = 256 * rng.randint(2, 255)
    return x


def cloud(rng, ns, index, cols, lim):
    kind = rng.choice(("open3d", "plotly"))
    return dict(op="cloud", kind=kind, seed=rng.randrange(10 ** 6), ns=ns, index=index, col=cols, nrm=rng.random() < .6, lim=lim,
                inccol=rng.random() < .85, incnrm=rng.random() < .6, explicit=rng.random() < .3, f64=rng.random() < .2,
                grad=rng.random() < .2, size=rng.choice((2, 2, 1, 5)) if kind == "plotly" else 0, figure=kind == "plotly" and rng.random() < .5)


def random_cloud(rng):
    ns = [rng.choice((0, 1, 2, 3, 6, 12, 30)) for _ in range(rng.randint(1, 4))]
    if not any(ns):
        ns[0] = 4
    col = [colours(rng, n, rng.choice(("unit", "byte", "half", "dark"))) for n in ns] if rng.random() < .8 else None
    index = rng.randrange(len(ns))
    n = ns[index]
    lim = rng.choice((None, None, 0, 1, n, n + 1, max(0, n - 1), n // 2, rng.randint(0, 40)))
    return cloud(rng, ns, index if rng.random() < .85 else index - len(ns), col, lim)


def enum_cloud(rng, red, lim):
    x = [[256 * v, rng.choice((0, 256)), 0] for v in red]
    ns = [len(x), 3]
    return cloud(rng, ns, 0, [x, colours(rng, 3, "byte")], None if lim < 0 else lim)


def depth_top(rng):
    """A largest depth (in 1/64) away from a change of scale."""
    while True:
        m = int(2 ** rng.uniform(1.01, 23)) if rng.random() < .7 else rng.randint(2, 12000)
        if all(abs(m * 10.0 ** -e / 16320 - 1) > .01 for e in range(-4, 5)):
            return m


def random_frames(rng):
    B, L, H, W = rng.randint(1, 2), rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3)
    rgb, dep = [], []
    for b in range(B):
        mode = rng.choice(("unit", "byte", "half"))
        c = colours(rng, L * H * W, mode)
        rgb.append([[[c[(l * H + y) * W + x] for x in range(W)] for y in range(H)] for l in range(L)])
        top = depth_top(rng)
        d = [[[rng.choice((0, rng.randint(0, top), rng.randint(0, top))) for x in range(W)] for y in range(H)] for l in range(L)]
        if rng.random() < .9:
            d[rng.randrange(L)][rng.randrange(H)][rng.randrange(W)] = top
        else:
            d = [[[0] * W for _ in range(H)] for _ in range(L)]
        m = max(max(max(r) for r in f) for f in d)
        if m and any(abs(m * 10.0 ** -e / 16320 - 1) < .01 for e in range(-4, 5)):
            return random_frames(rng)
        if m and m < 2:
            return random_frames(rng)
        dep.append(d)
    index = rng.randrange(B)
    return dict(op="frames", rgb=rgb, dep=dep, index=index if rng.random() < .85 else index - B, incdep=rng.random() < .75,
                figure=rng.random() < .5, ms=rng.choice((50, 50, 10, 200)), cf=rng.random() < .5, grad=rng.random() < .2,
                explicit=rng.random() < .3)


def random_case(rng):
    f = [random_cloud, random_cloud, random_frames, lambda r: dict(op="quality", seed=r.randrange(1000), grey=r.random() < .5)]
    return dict(ops=[rng.choice(f)(rng) for _ in range(4)])


def corrupt(t, rng):
    for s in rng.sample(t["steps"], len(t["steps"])):
        if s["op"] == "cloud" and s["out"]:
            if rng.random() < .5 or not s["gotcol"]:
                s["out"].pop()
            else:
                v = s["outcol"][-1]
                v[1] = v[1] + 4000 if s["kind"] == "open3d" else (v[1] + 100) % 256
            return t
        if s["op"] == "frames" and s["names"]:
            if rng.random() < .5:
                v = s["outrgb"][-1][0][0]
                v[2] = (v[2] + 100) % 256
            else:
                s["names"][-1] += "0"
            return t
    return None
