"""Drivers for gradslam.RGBDImages and pointclouds_from_rgbdimages."""
import copy

from gs import torch
from vlib import BADVAL, enc
from pcdrive import Bad, rotations
from gradslam.structures.rgbdimages import RGBDImages
from gradslam.structures.utils import pointclouds_from_rgbdimages

IMG = {"rgb": "rgb_image", "dep": "depth_image", "vert": "vertex_map", "norm": "normal_map",
       "gvert": "global_vertex_map", "gnorm": "global_normal_map", "valid": "valid_depth_mask"}
SCALE = {"rgb": 1, "dep": 2, "K": 2, "poses": 1}
ORDERS = [
    ["shape", "len", "cf", "hp", "rgb", "dep", "K", "poses", "valid", "vert", "norm", "gvert", "gnorm"],
    ["gnorm", "gvert", "norm", "vert", "valid", "poses", "K", "dep", "rgb", "hp", "cf", "len", "shape"],
    ["valid", "gvert", "gnorm", "vert", "norm", "rgb", "poses", "K", "dep", "cf", "hp", "shape", "len"],
]
BLANK = {"shape": [0, 0, 0, 0], "len": 0, "cf": False, "hp": False, "rgb": [], "dep": [], "K": [], "poses": [],
         "valid": [], "vert": [], "norm": [], "gvert": [], "gnorm": []}


def vert_enc(t):
    """16 units per 1.0, rounded; off-grid values become BADVAL."""
    t = t.detach().to(torch.float64) * 16
    r = t.round()
    bad = ~((t - r).abs() < 0.04) | ~torch.isfinite(t) | (r.abs() > 1e7)
    r = torch.where(bad, torch.full_like(r, BADVAL), r)
    return r.to(torch.int64).tolist()


def norm_enc(t):
    t = t.detach().to(torch.float64) * 1024
    r = t.round()
    bad = ~torch.isfinite(t) | (r.abs() > 1e7)
    r = torch.where(bad, torch.full_like(r, BADVAL), r)
    return r.to(torch.int64).tolist()


def exact_enc(t, s):
    t = t.detach().to(torch.float64) * s
    r = t.round()
    bad = ~(t == r) | ~torch.isfinite(t) | (r.abs() > 1e7)
    r = torch.where(bad, torch.full_like(r, BADVAL), r)
    return r.to(torch.int64).tolist()


def read(x, view):
    if view == "shape":
        return [int(v) for v in x.shape]
    if view == "len":
        return len(x)
    if view == "cf":
        return bool(x.channels_first)
    if view == "hp":
        return bool(x.has_poses)
    if view in ("K", "poses"):
        t = x.intrinsics if view == "K" else x.poses
        if t is None:
            return []
        if t.ndim != 4:
            raise Bad(view + " ndim")
        return exact_enc(t, SCALE[view])
    t = getattr(x, IMG[view])
    if not torch.is_tensor(t) or t.ndim != 5:
        raise Bad(view + " is not a 5d tensor")
    if view == "valid":
        if t.dtype != torch.bool:
            raise Bad("valid mask is not bool")
        return t.tolist()
    if view in ("vert", "gvert"):
        return vert_enc(t)
    if view in ("norm", "gnorm"):
        return norm_enc(t)
    return exact_enc(t, SCALE[view])


def observe(x, orders=ORDERS):
    res, extra = [], ""
    for order in orders:
        c = copy.deepcopy(x)
        o = dict(BLANK)
        for v in order:
            try:
                o[v] = read(c, v)
            except Bad as e:
                extra = str(e)
            except Exception as e:
                extra = "reading %s raised %s" % (v, type(e).__name__)
        if o not in res:
            res.append(o)
    return res, extra


def lay(img, cf, C):
    """nested [b][l][h][w][c] -> layout"""
    t = torch.tensor(img, dtype=torch.float64)
    if cf:
        t = t.permute(0, 1, 4, 2, 3).contiguous()
    return t


def kmat(Ks):
    return [[[[k[0], 0, k[2], 0], [0, k[1], k[3], 0], [0, 0, 1, 0], [0, 0, 0, 1]]] for k in Ks]


def pose4(ps):
    return [[m + [[0, 0, 0, 1]] for m in b] for b in ps]


def make(c, dt):
    rgb = lay(c["rgb"], c["cf"], 3).to(dt)
    dep = lay(c["dep"], c["cf"], 1).to(dt)
    K = torch.tensor(kmat(c["K"]), dtype=dt)
    poses = torch.tensor(pose4(c["poses"]), dtype=dt) if c["poses"] is not None else None
    pix = torch.tensor(c["pix"], dtype=dt) if c.get("pix") is not None else None
    kw = {}
    if c["cf"] or c.get("explicit"):
        kw["channels_first"] = c["cf"]
    if pix is not None:
        kw["pixel_pos"] = pix
    return RGBDImages(rgb, dep, K, poses, **kw)


def jsnew(c):
    cf = c["cf"]
    B, L, H, W = c["size"]
    g = lambda t, s: exact_enc(t, s)
    return dict(B=B, L=L, H=H, W=W, cf=cf, rgb=g(lay(c["rgb"], cf, 3), 1), dep=g(lay(c["dep"], cf, 1), 2),
                K=[[k[0], k[1], int(2 * k[2]), int(2 * k[3])] for k in c["K"]],
                hp=c["poses"] is not None, poses=c["poses"] or [],
                hx=c.get("pix") is not None, pix=c.get("pix") or [])


def index(ix):
    if ix["k"] == "slice":
        g = lambda q: q["v"] if q["has"] else None
        return slice(g(ix["a"]), g(ix["b"]), g(ix["s"]))
    return ix["v"]


def poke(x):
    for v in ("rgb", "dep", "vert", "norm", "gvert", "gnorm"):
        getattr(x, IMG[v]).add_(777)
    x.valid_depth_mask.logical_not_()
    x.intrinsics.add_(777)
    if x.poses is not None:
        x.poses.add_(777)
    if x.pixel_pos is not None:
        x.pixel_pos.add_(777)


def to_meta(x, warm):
    src = copy.deepcopy(x)
    ten = ["rgb_image", "depth_image", "intrinsics", "poses"]
    if warm:
        src.global_normal_map, src.global_vertex_map
        ten += ["vertex_map", "normal_map", "global_vertex_map", "global_normal_map", "valid_depth_mask"]
    q = src.to("meta" if not warm else torch.device("meta"))
    A = [getattr(q, a) for a in ten]
    Z = [getattr(src, a) for a in ten]
    return {"len": len(q), "cf": bool(q.channels_first), "hp": bool(q.has_poses),
            "shapes": [[] if t is None else list(t.shape) for t in A[:4]],
            "dev": [t.device.type for t in A if t is not None] + [torch.device(q.device).type],
            "srcdev": [t.device.type for t in Z if t is not None] + [torch.device(src.device).type]}


def detach_grad(x):
    mk = lambda t: None if t is None else t.detach().clone().requires_grad_(True)
    src = RGBDImages(mk(x.rgb_image), mk(x.depth_image), mk(x.intrinsics), mk(x.poses),
                     channels_first=x.channels_first, pixel_pos=x.pixel_pos)
    src.global_normal_map, src.global_vertex_map
    det = src.detach()
    out = []
    names = ["rgb_image", "depth_image", "intrinsics", "poses", "vertex_map", "normal_map",
             "global_vertex_map", "global_normal_map"]
    for o in (src, det):
        out.append([bool(getattr(o, n).requires_grad) for n in names if getattr(o, n) is not None])
    return {"src": out[0], "res": out[1], "views": dict((v, read(det, v)) for v in ORDERS[0])}


class Runner(object):
    def __init__(self, dtype=torch.float32):
        self.S, self.G, self.last, self.steps, self.dtype = {}, {}, {}, [], dtype

    def step(self, c):
        S, dt = self.S, self.dtype
        op, x, r = c["op"], c.get("x"), c.get("r")
        s = {"op": op, "out": "ok", "extra": "", "obs": []}
        for k in ("x", "r"):
            if c.get(k) is not None:
                s[k] = c[k]
        n = len(self.steps) + 1
        res = None
        try:
            if op == "new":
                s.update(jsnew(c))
                res = make(c, dt)
            elif op == "read":
                s["view"], s["val"] = c["view"], BLANK[c["view"]]
                s["val"] = read(S[x], c["view"])
            elif op in ("setrgb", "setdep"):
                C = 3 if op == "setrgb" else 1
                t = lay(c["v"], c["cf"], C)
                s["v"] = exact_enc(t, 1 if C == 3 else 2)
                setattr(S[x], "rgb_image" if C == 3 else "depth_image", t.to(dt))
            elif op == "setK":
                s["v"] = [[k[0], k[1], int(2 * k[2]), int(2 * k[3])] for k in c["v"]]
                S[x].intrinsics = torch.tensor(kmat(c["v"]), dtype=dt)
            elif op == "setposes":
                s["v"] = c["v"]
                S[x].poses = torch.tensor(pose4(c["v"]), dtype=dt)
            elif op == "noposes":
                S[x].poses = None
            elif op == "getitem":
                s["i0"], s["i1"] = c["i0"], c["i1"]
                i0, i1 = index(c["i0"]), index(c["i1"])
                form = c.get("form", "pair")
                if form == "int":
                    res = S[x][i0]
                else:
                    res = S[x][i0, i1]
            elif op in ("layout_", "layout"):
                s["cf"] = c["cf"]
                if op == "layout_":
                    q = S[x].to_channels_first_() if c["cf"] else S[x].to_channels_last_()
                    if q is not S[x]:
                        s["extra"] = "in-place layout conversion returned another object"
                else:
                    copied = c["copy"] or S[x].channels_first != c["cf"]
                    res = (S[x].to_channels_first if c["cf"] else S[x].to_channels_last)(copy=c["copy"])
                    if not copied:
                        if res is not S[x]:
                            s["extra"] = "conversion to the present layout without copy is not self"
                        res = S[x].clone()
                    elif res is S[x]:
                        s["extra"] = "conversion returned the same object"
            elif op == "clone":
                res = S[x].clone()
            elif op == "detach":
                res = S[x].detach()
            elif op == "to":
                same = S[x].to("cpu") is S[x] and S[x].cpu() is S[x] and S[x].to(torch.device("cpu")) is S[x]
                if not same:
                    s["extra"] = "to(same device, copy=False) is not self"
                res = S[x].to(c["dev"] if c["dev"] else torch.device("cpu"), copy=True)
                s["op"] = "clone"
            elif op == "topc":
                s["glob"], s["filter"] = c["glob"], c["filter"]
                s["p"], s["n"], s["c"] = [], [], []
                kw = {}
                if not c["glob"] or c.get("explicit"):
                    kw["global_coordinates"] = c["glob"]
                if not c["filter"] or c.get("explicit"):
                    kw["filter_missing_depths"] = c["filter"]
                pc = pointclouds_from_rgbdimages(S[x], **kw)
                s["p"] = [vert_enc(q) for q in pc.points_list]
                s["n"] = [norm_enc(q) for q in pc.normals_list]
                s["c"] = [exact_enc(q, 1) for q in pc.colors_list]
            elif op == "poke":
                poke(S[x])
                s["dead"] = sorted(k for k in self.G if self.G[k] == self.G[x])
            elif op == "tometa":
                s["meta"] = to_meta(S[x], c["warm"])
            elif op == "detachgrad":
                s["det"] = detach_grad(S[x])
            elif op == "badop":
                badop(S[x], c["what"])
            else:
                raise RuntimeError(op)
        except Bad as e:
            s["extra"] = str(e)
        except Exception as e:
            s["out"] = type(e).__name__
            self.err = e
        ok = s["out"] == "ok"
        if ok and r is not None and not isinstance(res, RGBDImages):
            s["extra"], ok = "result is a %s" % type(res).__name__, False
        elif ok and r is not None:
            S[r] = res
        if ok:
            if s["op"] in ("new", "clone", "layout"):
                self.G[r] = n
            elif r is not None:
                self.G[r] = self.G[x]
            if op == "poke":
                for k in s["dead"]:
                    S.pop(k, None), self.G.pop(k, None), self.last.pop(k, None)
        for k in sorted(S):
            touched = k in (x, r)
            try:
                views, extra = observe(S[k], ORDERS if touched else [ORDERS[n % 3]])
            except Exception as e:
                views, extra = [dict(BLANK)], "observing raised %s" % type(e).__name__
            if extra and not s["extra"]:
                s["extra"] = extra
            if len(views) > 1 or self.last.get(k) != views or (k == r and ok):
                s["obs"].append({"s": k, "views": views})
            self.last[k] = views[:1]
        self.steps.append(s)
        return s


def badop(x, what):
    if what == "three":
        x[0, 0, 0]
    elif what == "float":
        x[1.5]
    elif what == "oob":
        x[len(x) + 3]
    elif what == "oob2":
        x[0, x.shape[1] + 1]
    elif what == "K3":
        x.intrinsics = torch.zeros(x.shape[0], 1, 3, 3)
    elif what == "P3":
        x.poses = torch.zeros(x.shape[0], x.shape[1], 3, 4)
    elif what == "rgbtype":
        x.rgb_image = x.rgb_image[..., :-1]
    elif what == "deptype":
        x.depth_image = x.depth_image[:, :, 0]


BADOPS = ["three", "float", "oob", "oob2", "K3", "P3", "rgbtype", "deptype"]


def run_case(case):
    R = Runner(torch.float32)
    for c in case["ops"]:
        if c.get("x") is not None and c["x"] not in R.S:
            continue
        s = R.step(c)
        if s["extra"]:
            break
    return {"steps": R.steps}


# ------------------------------------------------------------ generation
class Gen(object):
    def __init__(self, rng, weights, nslots=3, maxB=2, maxL=3, maxH=3, maxW=4):
        self.rng, self.w, self.nslots = rng, weights, nslots
        self.mx = (maxB, maxL, maxH, maxW)
        self.sh, self.G, self.ops, self.n = {}, {}, [], 0
        self.last = {}      # slot -> the intrinsics and poses last given to it (to derive neighbours from)

    def emit(self, op, **kw):
        kw["op"] = op
        self.ops.append(kw)
        self.n += 1

    def img(self, B, L, H, W, f):
        return [[[[f() for _ in range(W)] for _ in range(H)] for _ in range(L)] for _ in range(B)]

    def depth(self, B, L, H, W):
        r = self.rng
        pz = r.choice([0, .2, .2, .5, .9])
        neg = r.random() < 0.15
        mode = r.random()

        def f():
            if r.random() < pz:
                return [-1 if neg and r.random() < .3 else 0]
            return [r.randint(1, 8) / 2 if mode < .8 else 2]
        return self.img(B, L, H, W, f)

    def K(self):
        r = self.rng
        return [r.choice([1, 2, 4]), r.choice([1, 2, 4]), r.choice([0, 1, 1.5, .5, 2]), r.choice([0, 1, .5, 1.5, 2])]

    def pose(self):
        r = self.rng
        m = r.choice(rotations()) if r.random() < .85 else [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        z = r.random() < .15
        return [list(m[i]) + [0 if z else r.randint(-9, 9)] for i in range(3)]

    def near_poses(self, old):
        """The old poses with one aspect changed: rotations, translations or a single pose."""
        r = self.rng
        k = r.choice(["rot", "rot0", "trans", "one", "same", "swap"])
        v = [[[list(row) for row in p] for p in b] for b in old]
        if k == "one":
            b = r.choice(v)
            b[r.randrange(len(b))] = self.pose()
        elif k == "swap":
            v.reverse()
            [b.reverse() for b in v]
        elif k != "same":
            for b in v:
                for i, p in enumerate(b):
                    q = self.pose()
                    b[i] = [q[j][:3] + [0 if k == "rot0" else p[j][3]] if k != "trans" else p[j][:3] + [q[j][3]]
                            for j in range(3)]
        return v

    def near_K(self, old):
        r = self.rng
        v = [list(k) for k in old]
        i = r.randrange(4)
        if r.random() < .3:
            v.reverse()
        for b in (v if r.random() < .5 else [r.choice(v)]):
            b[i] = self.K()[i]
        return v

    def slot(self):
        return self.rng.randint(1, self.nslots)

    def new(self, r=None, L=None, size=None, cf=None):
        rng = self.rng
        r = r or self.slot()
        B, Lx, H, W = (rng.randint(1, self.mx[0]), rng.randint(1, self.mx[1]), rng.randint(2, self.mx[2]),
                       rng.randint(2, self.mx[3]))
        if size:
            B, Lx, H, W = size
        L = L or Lx
        poses = [[self.pose() for _ in range(L)] for _ in range(B)] if rng.random() < .75 else None
        pix = None
        if rng.random() < .15:
            pix = self.img(B, L, H, W, lambda: [rng.randint(-3, 5), rng.randint(-3, 5), 1])
        cf = (rng.random() < .5) if cf is None else cf
        K = [self.K() for _ in range(B)]
        self.emit("new", r=r, size=[B, L, H, W], cf=cf, rgb=self.img(B, L, H, W, lambda: [rng.randint(0, 255) for _ in range(3)]),
                  dep=self.depth(B, L, H, W), K=K, poses=poses, pix=pix,
                  explicit=rng.random() < .5)
        self.last[r] = {"K": K, "poses": poses}
        self.sh[r] = [B, L, H, W, cf]
        self.G[r] = self.n
        return r

    def pick(self):
        return self.rng.choice(list(self.sh)) if self.sh else None

    def step(self):
        ops, ws = zip(*self.w.items())
        x = self.pick()
        op = self.rng.choices(ops, ws)[0]
        if x is None or op == "new":
            return self.new()
        getattr(self, "g_" + op)(x)

    def g_read(self, x):
        self.emit("read", x=x, view=self.rng.choice(["rgb", "dep", "valid", "vert", "norm", "gvert", "gnorm", "poses", "K"]))

    def g_set(self, x):
        rng = self.rng
        B, L, H, W, cf = self.sh[x]
        op = rng.choice(["setrgb", "setdep", "setdep", "setK", "setposes", "setposes", "noposes"])
        bad = rng.random() < .1
        if op == "noposes":
            return self.emit(op, x=x)
        old = self.last.get(x) or {}
        if op == "setK":
            v = [self.K() for _ in range(B + bad)]
            if not bad and rng.random() < .5 and len(old.get("K") or ()) == B:
                v = self.near_K(old["K"])
            if not bad:
                self.last[x] = dict(old, K=v)
            return self.emit(op, x=x, v=v)
        if op == "setposes":
            v = [[self.pose() for _ in range(L + bad)] for _ in range(B)]
            po = old.get("poses") or ()
            if not bad and rng.random() < .5 and len(po) == B and len(po[0]) == L:
                v = self.near_poses(po)
            if not bad:
                self.last[x] = dict(old, poses=v)
            return self.emit(op, x=x, v=v)
        h, w, c2 = H, W, cf
        if bad:
            k = rng.random()
            if k < .4 and not (H == W == (3 if op == "setrgb" else 1)):
                c2 = not cf   # wrong layout
            else:
                h += 1
        v = self.depth(B, L, h, w) if op == "setdep" else self.img(B, L, h, w, lambda: [rng.randint(0, 255) for _ in range(3)])
        self.emit(op, x=x, v=v, cf=c2)

    def ix(self, n):
        r = self.rng
        k = r.choice(["int", "int", "slice", "slice", "list"])
        if k == "int":
            return {"k": "int", "v": r.randint(0, n - 1)}
        if k == "list":
            return {"k": "list", "v": [r.randint(0, n - 1) for _ in range(r.randint(1, n))]}
        o = lambda: {"has": r.random() < .5, "v": r.randint(-n, n)}
        return {"k": "slice", "a": o(), "b": o(), "s": {"has": r.random() < .4, "v": r.choice([1, 2])}}

    def g_getitem(self, x):
        rng = self.rng
        B, L, H, W, cf = self.sh[x]
        full = {"k": "slice", "a": {"has": False, "v": 0}, "b": {"has": False, "v": 0}, "s": {"has": False, "v": 1}}
        i0, i1 = self.ix(B), self.ix(L)
        form = "pair"
        if i0["k"] == "list" and i1["k"] == "list":
            i1 = full
        if i0["k"] == "int" and rng.random() < .4:
            form, i1 = "int", full
        r = self.slot()
        self.emit("getitem", x=x, r=r, i0=i0, i1=i1, form=form)

        def cnt(ix, n):
            return 1 if ix["k"] == "int" else len(ix["v"]) if ix["k"] == "list" else len(range(n)[index(ix)])
        b, l = cnt(i0, B), cnt(i1, L)
        if b and l:
            self.sh[r] = [b, l, H, W, cf]
            self.G[r] = self.G[x]
            self.last.pop(r, None)

    def g_layout_(self, x):
        cf = self.rng.random() < .5
        self.emit("layout_", x=x, cf=cf)
        self.sh[x][4] = cf

    def g_layout(self, x):
        r, cf = self.slot(), self.rng.random() < .5
        self.emit("layout", x=x, r=r, cf=cf, copy=self.rng.random() < .5)
        self.sh[r] = self.sh[x][:4] + [cf]
        self.G[r] = self.n
        self.last[r] = self.last.get(x)

    def g_clone(self, x):
        r = self.slot()
        self.emit("clone", x=x, r=r)
        self.sh[r], self.G[r] = list(self.sh[x]), self.n
        self.last[r] = self.last.get(x)

    def g_to(self, x):
        r = self.slot()
        self.emit("to", x=x, r=r, dev=self.rng.choice(["", "cpu"]))
        self.sh[r], self.G[r] = list(self.sh[x]), self.n
        self.last[r] = self.last.get(x)

    def g_detach(self, x):
        r = self.slot()
        self.emit("detach", x=x, r=r)
        self.sh[r], self.G[r] = list(self.sh[x]), self.G[x]
        self.last[r] = self.last.get(x)

    def g_topc(self, x):
        if self.sh[x][1] == 1:
            self.emit("topc", x=x, glob=self.rng.random() < .7, filter=self.rng.random() < .8, explicit=self.rng.random() < .3)
        else:
            x = self.new(L=1)
            self.emit("topc", x=x, glob=self.rng.random() < .7, filter=self.rng.random() < .8)

    def g_tometa(self, x):
        self.emit("tometa", x=x, warm=self.rng.random() < .5)

    def g_detachgrad(self, x):
        self.emit("detachgrad", x=x)

    def g_poke(self, x):
        if len(self.sh) < 2:
            return
        g = self.G[x]
        self.emit("poke", x=x)
        for k in [k for k in self.G if self.G[k] == g]:
            self.G.pop(k), self.sh.pop(k)

    def g_bad(self, x):
        self.emit("badop", x=x, what=self.rng.choice(BADOPS))


def random_case(rng, weights, length, **kw):
    g = Gen(rng, weights, **kw)
    g.new()
    guard = 0
    while len(g.ops) < length and guard < 20 * length:
        guard += 1
        g.step()
    return {"ops": g.ops}


def walk_case(walk, rng, init):
    g = Gen(rng, {}, maxL=2, maxH=3, maxW=3)
    held, cf, nopose, pix = init
    B, L, H, W = rng.choice([(1, 1, 2, 3), (2, 1, 2, 2), (1, 2, 3, 2), (2, 2, 2, 2)])
    has_l1 = L == 1
    g.new(r=1, size=(B, L, H, W), cf=cf)
    c = g.ops[-1]
    c["pix"] = None
    c["poses"] = None if nopose else [[g.pose() for _ in range(L)] for _ in range(B)]
    cur = 1
    for e in walk:
        k = e["k"]
        oth = 3 - cur
        if k == "read":
            g.emit("read", x=cur, view=e["m"])
        elif k == "setdep":
            g.emit(k, x=cur, v=g.depth(B, L, H, W), cf=cf)
        elif k == "setrgb":
            g.emit(k, x=cur, v=g.img(B, L, H, W, lambda: [rng.randint(0, 255) for _ in range(3)]), cf=cf)
        elif k == "setK":
            g.emit(k, x=cur, v=[g.K() for _ in range(B)])
        elif k == "setposes":
            g.emit(k, x=cur, v=[[g.pose() for _ in range(L)] for _ in range(B)])
        elif k == "noposes":
            g.emit(k, x=cur)
        elif k == "layout_":
            g.emit(k, x=cur, cf=e["cf"])
            cf = e["cf"]
        elif k == "layout":
            g.emit(k, x=cur, r=oth, cf=e["cf"], copy=rng.random() < .5)
            cf, cur = e["cf"], oth
        elif k == "clone":
            g.emit(rng.choice(["clone", "clone", "to", "detach"]), x=cur, r=oth, dev="cpu")
            cur = oth
        elif k == "slice":
            sl = {"k": "list", "v": list(range(B))[::-1]} if rng.random() < .5 else {"k": "slice", "a": {"has": False, "v": 0}, "b": {"has": False, "v": 0}, "s": {"has": False, "v": 1}}
            full = {"k": "slice", "a": {"has": True, "v": 0}, "b": {"has": False, "v": 0}, "s": {"has": False, "v": 1}}
            l1 = {"k": "list", "v": list(range(L))[::-1]} if sl["k"] == "slice" else full
            g.emit("getitem", x=cur, r=oth, i0=sl, i1=l1)
            cur = oth
        elif k == "topc" and has_l1:
            g.emit("topc", x=cur, glob=True, filter=True)
    return {"ops": g.ops}


def corrupt(trace, rng):
    cand = []
    for s in trace["steps"]:
        for o in s["obs"]:
            for v in o["views"]:
                for name in ("rgb", "dep", "vert", "gvert"):
                    for a in v[name]:
                        for b in a:
                            for c in b:
                                for d in c:
                                    cand.append(d)
    if not cand:
        return None
    row = rng.choice(cand)
    row[rng.randrange(len(row))] += 1
    return trace
