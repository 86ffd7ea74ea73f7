"""Drivers for gradslam.Pointclouds: cases -> real API calls -> traces."""
import copy

from gs import torch
from vlib import BADVAL, enc
from gradslam.structures.pointclouds import Pointclouds

SC = 16
ATTRS = {"p": "points", "n": "normals", "c": "colors", "f": "features"}
VIEWS = ["pl", "nl", "cl", "fl", "pp", "np", "cp", "fp", "mask", "num", "has", "nf", "len"]
ORDERS = [
    ["len", "has", "nf", "num", "pl", "nl", "cl", "fl", "pp", "np", "cp", "fp", "mask"],
    ["mask", "fp", "cp", "np", "pp", "fl", "cl", "nl", "pl", "num", "nf", "has", "len"],
    ["np", "nl", "has", "cp", "cl", "num", "fp", "fl", "mask", "pp", "pl", "nf", "len"],
]


class Bad(Exception):
    pass


def e_rows(x, what):
    if not torch.is_tensor(x):
        raise Bad("%s is a %s" % (what, type(x).__name__))
    if x.ndim != 2:
        raise Bad("%s has ndim %d" % (what, x.ndim))
    return [[enc(v, SC) for v in r] for r in x.detach().cpu().tolist()]


def read(pc, view):
    """One view, as JSON."""
    if view == "len":
        return len(pc)
    if view == "has":
        return [bool(pc.has_points), bool(pc.has_normals), bool(pc.has_colors), bool(pc.has_features)]
    if view == "nf":
        return int(pc.num_features)
    if view == "num":
        n = pc.num_points_per_pointcloud
        if len(pc) == 0:
            return []
        if n.ndim != 1:
            raise Bad("num has ndim %d" % n.ndim)
        return [int(v) for v in n.tolist()]
    if view == "mask":
        m = pc.nonpad_mask
        if m is None:
            return []
        if m.ndim != 2 or m.dtype != torch.bool:
            raise Bad("mask is not a 2d bool tensor")
        return m.tolist()
    a = ATTRS[view[0]]
    if view[1] == "l":
        l = getattr(pc, a + "_list")
        if l is None:
            return []
        return [e_rows(x, view) for x in l]
    x = getattr(pc, a + "_padded")
    if x is None:
        return []
    if not torch.is_tensor(x) or x.ndim != 3:
        raise Bad("%s is not a 3d tensor" % view)
    return [[[enc(v, SC) for v in r] for r in m] for m in x.detach().cpu().tolist()]


EMPTYVIEW = {"len": 0, "has": [False] * 4, "nf": 0, "num": [], "pl": [], "nl": [], "cl": [], "fl": [],
             "pp": [], "np": [], "cp": [], "fp": [], "mask": []}


def observe(pc, orders=ORDERS):
    """All views, read in several orders from copies (so reading has no effect)."""
    res, extra = [], ""
    for order in orders:
        c = copy.deepcopy(pc)
        o = dict(EMPTYVIEW)
        for v in order:
            try:
                o[v] = read(c, v)
            except Bad as e:
                extra = str(e)
            except Exception as e:
                extra = "reading %s raised %s" % (v, type(e).__name__)
        if o not in res:
            res.append(o)
    return res, extra


def tens(rows, w, dtype):
    if len(rows) == 0:
        return torch.zeros((0, w), dtype=dtype)
    return torch.tensor(rows, dtype=dtype)


def mk_attr(val, w, dtype, padded):
    """val in real units: list of clouds of rows."""
    if val is None:
        return None
    l = [tens(x, w, dtype) for x in val]
    return torch.stack(l, 0) if padded else l


def js_attr(val):
    return [] if val is None else [[[v * SC for v in r] for r in c] for c in val]


def operand(o, dtype, device=None):
    k, v = o["k"], o["v"]
    if k == "s":
        return v
    return torch.tensor(v, dtype=dtype)


def matrix(m, dtype):
    return torch.tensor(m["v"], dtype=dtype)


def index(ix):
    k = ix["k"]
    if k == "int":
        return ix["v"]
    if k == "slice":
        g = lambda q: q["v"] if q["has"] else None
        return slice(g(ix["a"]), g(ix["b"]), g(ix["s"]))
    if k == "list":
        return list(ix["v"])
    if k == "long":
        return torch.tensor(ix["v"], dtype=torch.long)
    if k == "bool":
        return torch.tensor(ix["v"], dtype=torch.bool)


def poke(pc):
    """Write into every tensor reachable through the views of pc."""
    for a in ATTRS.values():
        for x in (getattr(pc, a + "_list") or []):
            x.add_(777)
        x = getattr(pc, a + "_padded")
        if x is not None:
            x.add_(777)
    if len(pc):
        m = pc.nonpad_mask
        m.logical_not_()
        pc.num_points_per_pointcloud.add_(5)


class Runner(object):
    """Executes one case; keeps the group bookkeeping needed for poke."""

    def __init__(self, dtype=torch.float32):
        self.S = {}
        self.G = {}
        self.last = {}
        self.dtype = dtype
        self.steps = []

    def step(self, c):
        """c: an op in real units. Appends a trace step."""
        S, dt = self.S, self.dtype
        op, x, r = c["op"], c.get("x"), c.get("r")
        s = {"op": op, "out": "ok", "extra": "", "obs": []}
        for k in ("x", "y", "r"):
            if c.get(k) is not None:
                s[k] = c[k]
        n = len(self.steps) + 1
        res = None
        try:
            if op == "new":
                pad = c["form"] == "padded"
                w = c["nf"]
                s.update(p=js_attr(c["p"]), n=js_attr(c["n"]), c=js_attr(c["c"]), f=js_attr(c["f"]), nf=w)
                res = Pointclouds(mk_attr(c["p"], 3, dt, pad), mk_attr(c["n"], 3, dt, pad),
                                  mk_attr(c["c"], 3, dt, pad), mk_attr(c["f"], w, dt, pad))
            elif op == "empty":
                res = Pointclouds()
            elif op == "read":
                s["view"] = c["view"]
                s["val"] = EMPTYVIEW[c["view"]]
                s["val"] = read(S[x], c["view"])
            elif op in ("setl", "setp"):
                s.update(a=c["a"], w=c["w"], v=js_attr(c["v"]))
                val = mk_attr(c["v"], c["w"], dt, op == "setp")
                setattr(S[x], ATTRS[c["a"]] + ("_list" if op == "setl" else "_padded"), val)
            elif op in ("offset_", "scale_", "add", "sub", "mul", "div"):
                f = SC if op in ("offset_", "add", "sub") else 1
                s["o"] = {"k": c["o"]["k"], "v": nestmul(c["o"]["v"], f)}
                o = operand(c["o"], dt)
                a = S[x]
                res = (a.offset_(o) if op == "offset_" else a.scale_(o) if op == "scale_" else
                       a + o if op == "add" else a - o if op == "sub" else
                       a * o if op == "mul" else a / o)
            elif op in ("rotate_", "rotate", "transform_", "transform"):
                s["m"], s["pre"] = c["m"], c["pre"]
                f = getattr(S[x], op)
                m = matrix(c["m"], dt)
                res = f(m) if c["pre"] and c.get("dflt") else f(m, pre_multiplication=c["pre"])
            elif op in ("matmul3", "matmul4"):
                s["m"] = c["m"]
                res = S[x] @ matrix(c["m"], dt)
            elif op in ("pinhole_projection_", "pinhole_projection"):
                s["m"] = c["m"]
                res = getattr(S[x], op)(matrix(c["m"], dt))
            elif op == "append":
                res = S[x].append_points(S[c["y"]])
            elif op == "getitem":
                s["ix"] = c["ix"]
                res = S[x][index(c["ix"])]
            elif op == "clone":
                res = S[x].clone()
            elif op == "detach":
                res = S[x].detach()
            elif op == "to":
                res = S[x].to(c["dev"], copy=c["copy"]) if c["dev"] else S[x].cpu()
                if c["copy"]:
                    s["op"] = "clone"
            elif op == "poke":
                poke(S[x])
                dead = sorted(k for k in self.G if self.G[k] == self.G[x])
                s["dead"] = dead
            elif op == "tosame":
                dev = {"str": "cpu", "dev": torch.device("cpu"), "cpu": None}[c["form"]]
                q = S[x].cpu() if dev is None else S[x].to(dev)
                if q is not S[x]:
                    s["extra"] = "to(same device, copy=False) is not self"
            elif op == "tometa":
                s["meta"] = to_meta(S[x], c["form"])
            elif op == "detachgrad":
                s["det"] = detach_grad(S[x])
            elif op == "badop":
                badop(S[x], c["what"], S)
            else:
                raise RuntimeError("unknown op " + op)
        except Bad as e:
            s["extra"] = str(e)
        except Exception as e:
            s["out"] = "%s" % type(e).__name__
            self.err = e
        ok = s["out"] == "ok"
        if ok and r is not None and not isinstance(res, Pointclouds):
            s["extra"] = "result is a %s" % type(res).__name__
            ok = False
        elif ok and r is not None:
            S[r] = res
        if ok:
            sop = s["op"]
            if sop in ("new", "empty", "clone"):
                self.G[r] = n
            elif sop == "append":
                if self.last.get(c["y"], [EMPTYVIEW])[0]["len"] > 0:
                    self.G[x] = n
            elif r is not None:
                self.G[r] = self.G[x]
            if sop == "poke":
                for k in s["dead"]:
                    S.pop(k, None), self.G.pop(k, None), self.last.pop(k, None)
        for k in sorted(S):
            try:
                views, extra = observe(S[k])
            except Exception as e:
                views, extra = [dict(EMPTYVIEW)], "observing raised %s" % type(e).__name__
            if extra and not s["extra"]:
                s["extra"] = extra
            if len(views) > 1 or self.last.get(k) != views or (k == r and ok):
                s["obs"].append({"s": k, "views": views})
            self.last[k] = views
        self.steps.append(s)
        return s


def to_meta(pc, form):
    src = copy.deepcopy(pc)
    if form == "lists":
        src.points_list, src.normals_list, src.colors_list, src.features_list
    elif form == "padded":
        src.points_padded, src.nonpad_mask
    q = src.to("meta" if form != "device" else torch.device("meta"))
    pads = [getattr(q, a + "_padded") for a in ATTRS.values()]
    spads = [getattr(src, a + "_padded") for a in ATTRS.values()]
    if len(src):
        spads += [src.nonpad_mask] + list(src.points_list)
    ten = [p for p in pads if p is not None]
    if form == "lists" and len(src):
        for a in ATTRS.values():
            ten += list(getattr(q, a + "_list") or [])
    ten.append(q.num_points_per_pointcloud)
    return {"len": len(q), "has": [bool(q.has_points), bool(q.has_normals), bool(q.has_colors), bool(q.has_features)],
            "nf": int(q.num_features),
            "shapes": [[] if p is None else list(p.shape) for p in pads],
            "dev": [t.device.type for t in ten] + [torch.device(q.device).type],
            "srcdev": [t.device.type for t in spads if t is not None] + [torch.device(src.device).type]}


def detach_grad(pc):
    mk = lambda l: None if l is None else [t.clone().requires_grad_(True) for t in l]
    src = Pointclouds(mk(pc.points_list), mk(pc.normals_list), mk(pc.colors_list), mk(pc.features_list))
    src.points_padded
    det = src.detach()
    s, d = [], []
    for o, out in ((src, s), (det, d)):
        for a in ATTRS.values():
            out += [bool(t.requires_grad) for t in (getattr(o, a + "_list") or [])]
            t = getattr(o, a + "_padded")
            if t is not None:
                out.append(bool(t.requires_grad))
    return {"src": s, "res": d, "views": dict((v, read(det, v)) for v in VIEWS)}


def badop(pc, what, S):
    if what == "add":
        pc + "1"
    elif what == "mul":
        pc * None
    elif what == "offset":
        pc.offset_("x")
    elif what == "scale":
        pc.scale_([1])
    elif what == "rot_shape":
        pc.rotate_(torch.zeros(4, 4))
    elif what == "rot_type":
        pc.rotate_([[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    elif what == "tf_shape":
        pc.transform_(torch.zeros(3, 3))
    elif what == "mm_type":
        pc @ 2.0
    elif what == "mm_shape":
        pc @ torch.zeros(3, 4)
    elif what == "proj_shape":
        pc.pinhole_projection_(torch.zeros(3, 3))
    elif what == "append_type":
        pc.append_points([torch.zeros(1, 3)])
    elif what == "ix_float":
        pc[1.5]
    elif what == "ix_2d":
        pc[torch.zeros(1, 1, dtype=torch.long)]


BADOPS = ["add", "mul", "offset", "scale", "rot_shape", "rot_type", "tf_shape", "mm_type", "mm_shape",
          "proj_shape", "append_type", "ix_float", "ix_2d"]


def nestmul(v, f):
    if isinstance(v, list):
        return [nestmul(x, f) for x in v]
    return int(v * f)


def run_case(case):
    R = Runner(torch.float64 if case.get("dtype") == "f64" else torch.float32)
    for c in case["ops"]:
        if any(c.get(k) is not None and c.get(k) not in R.S for k in ("x", "y")):
            continue  # an earlier refused call left that slot unset
        s = R.step(c)
        if s["extra"] or (len(s["obs"]) and any(len(o["views"]) > 1 for o in s["obs"])):
            break
    return {"steps": R.steps}


# ------------------------------------------------------------ generation
ROT = None


def rotations():
    global ROT
    if ROT is None:
        import itertools
        ROT = []
        for p in itertools.permutations(range(3)):
            for sg in itertools.product((1, -1), repeat=3):
                m = [[0] * 3 for _ in range(3)]
                for i in range(3):
                    m[i][p[i]] = sg[i]
                det = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
                       - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                       + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
                if det == 1:
                    ROT.append(m)
    return ROT


class Shadow(object):
    """What the generator needs to know of an object: sizes and attributes."""

    def __init__(self, sizes, has, nf, mag, den, proj):
        self.sizes, self.has, self.nf = list(sizes), dict(has), nf
        self.mag, self.den, self.proj = mag, den, proj

    def copy(self):
        return Shadow(self.sizes, self.has, self.nf, self.mag, self.den, self.proj)

    @property
    def B(self):
        return len(self.sizes)

    @property
    def N(self):
        return max(self.sizes) if self.sizes else 0


class Gen(object):
    def __init__(self, rng, weights, maxB=4, maxN=6, nslots=5, pfull=0.5):
        self.rng, self.w = rng, weights
        self.maxB, self.maxN, self.nslots = maxB, maxN, nslots
        self.sh = {}
        self.G = {}
        self.n = 0
        self.ops = []
        self.B0 = rng.choice([1, 2, 2, 3, 3, maxB])
        self.attrs0 = self.rand_attrs()
        self.nf0 = rng.choice([1, 2, 3, 3, 4])

    def rand_attrs(self):
        r = self.rng.random()
        if r < 0.35:
            return {"n": True, "c": True, "f": True}
        return {a: self.rng.random() < 0.5 for a in "ncf"}

    def rows(self, n, w, zs=None):
        r = self.rng
        out = []
        for _ in range(n):
            row = [r.randint(-20, 20) for _ in range(w)]
            if zs:
                row[2] = r.choice(zs)
            elif r.random() < 0.05:
                row = [0] * w
            out.append(row)
        return out

    def sizes(self, B):
        r = self.rng
        k = r.random()
        if k < 0.25:
            n = r.randint(1, self.maxN)
            return [n] * B
        lo = 0 if k < 0.6 else 1
        s = [r.randint(lo, self.maxN) for _ in range(B)]
        if max(s) == 0:
            s[r.randrange(B)] = 1
        return s

    def slot(self):
        return self.rng.randint(1, self.nslots)

    def emit(self, op, **kw):
        kw["op"] = op
        self.ops.append(kw)
        self.n += 1
        return kw

    def pickx(self, nonempty=True):
        c = [k for k, s in self.sh.items() if s.B > 0 or not nonempty]
        return self.rng.choice(c) if c else None

    def new(self, r=None, like=None, form=None, fill=False):
        rng = self.rng
        r = r or self.slot()
        if like is not None and rng.random() < 0.8:
            B, has, nf = like.B, dict(like.has), like.nf or self.nf0
        else:
            B = self.B0 if rng.random() < 0.7 else rng.randint(1, self.maxB)
            has = dict(self.attrs0) if rng.random() < 0.7 else self.rand_attrs()
            nf = self.nf0 if rng.random() < 0.8 else rng.choice([1, 2, 3, 4])
        form = form or rng.choice(["list", "list", "padded"])
        sizes = self.sizes(B)
        if form == "padded":
            sizes = [max(sizes)] * B
        elif fill and B == like.B and len(set(like.sizes)) > 1:
            # only the shorter clouds grow: the longest one stays the longest
            gap = [like.N - n for n in like.sizes]
            sizes = gap if rng.random() < 0.5 else [rng.randint(0, g) for g in gap]
            if not any(sizes):
                sizes = gap
        zs = [1, 2, 4, -1, -2, 0] if rng.random() < 0.5 else None
        v = {a: None for a in "ncf"}
        p = [self.rows(n, 3, zs) for n in sizes]
        for a in "nc":
            if has[a]:
                v[a] = [self.rows(n, 3) for n in sizes]
        if has["f"]:
            v["f"] = [self.rows(n, nf) for n in sizes]
        self.emit("new", r=r, form=form, p=p, n=v["n"], c=v["c"], f=v["f"], nf=nf)
        self.sh[r] = Shadow(sizes, has, nf if has["f"] else 0, 20, 1, bool(zs))
        self.G[r] = self.n
        return r

    def step(self):
        rng = self.rng
        ops, ws = zip(*self.w.items())
        op = rng.choices(ops, ws)[0]
        getattr(self, "g_" + op)()

    def g_new(self):
        k = self.pickx()
        self.new(like=self.sh[k] if k and self.rng.random() < 0.6 else None)

    def g_empty(self):
        r = self.slot()
        self.emit("empty", r=r)
        self.sh[r] = Shadow([], {"n": False, "c": False, "f": False}, 0, 0, 1, False)
        self.G[r] = self.n

    def g_read(self):
        x = self.pickx(self.rng.random() < 0.95)
        if x:
            self.emit("read", x=x, view=self.rng.choice(VIEWS[:9] + VIEWS))

    def g_set(self):
        rng = self.rng
        x = self.pickx(rng.random() < 0.95)
        if not x:
            return
        s = self.sh[x]
        a = rng.choice("pncf")
        w = 3 if a != "f" else (s.nf if s.nf and rng.random() < 0.7 else rng.choice([1, 2, 3, 4]))
        op = rng.choice(["setl", "setp"])
        sizes, bad = list(s.sizes), False
        if rng.random() < 0.12 or s.B == 0:
            bad = True
        zs = [1, 2, 4, -1, -2] if a == "p" and rng.random() < 0.4 else None
        if op == "setl":
            if bad:
                k = rng.random()
                if s.B == 0 or k < 0.4:
                    sizes = sizes + [1]
                elif k < 0.7:
                    sizes[rng.randrange(len(sizes))] += 1
                elif a != "f":
                    w = 2
                else:
                    sizes = sizes[:-1] or [1, 1]
            v = [self.rows(n, w, zs if w > 2 else None) for n in sizes]
        else:
            N = s.N
            if bad and (s.B == 0 or rng.random() < 0.4):
                N += 1
            sz = s.sizes or [1]
            v = []
            for n in sz:
                n = min(n, N)
                pad = N - n
                dirty = bad and N == s.N and pad > 0
                v.append(self.rows(n, w, zs) + [[1 if dirty else 0] * w for _ in range(pad)])
                # a dirty row makes the assignment invalid
        self.emit(op, x=x, a=a, v=v, w=w)
        valid = (s.B > 0 and len(v) == s.B and (w == 3 or a == "f"))
        if valid and op == "setl":
            valid = [len(c) for c in v] == s.sizes
        elif valid:
            valid = all(len(c) == s.N for c in v) and all(
                not any(row) for c, n in zip(v, s.sizes) for row in c[n:])
        if valid:
            if a == "p":
                s.mag, s.den, s.proj = 20, 1, bool(zs)
            else:
                s.has[a] = True
            if a == "f":
                s.nf = w

    def opnd(self, s, vals):
        rng = self.rng
        k = rng.choice(["s", "s", "ts", "v3", "113", "b11", "b13", "bn1", "bn3", "n3", "1n1"])
        B, N = s.B, s.N
        if s.N == 0:
            k = "s"
        c = lambda: rng.choice(vals)
        if k in ("s", "ts"):
            v = c()
        elif k == "v3":
            v = [c() for _ in range(3)]
        elif k == "n3":
            v = [[c() for _ in range(3)] for _ in range(N)]
        else:
            d0 = B if k[0] == "b" else 1
            d1 = N if k[1] == "n" else 1
            d2 = int(k[2])
            v = [[[c() for _ in range(d2)] for _ in range(d1)] for _ in range(d0)]
        return {"k": k, "v": v}

    def result(self, x, op, inplace):
        return x if inplace else self.slot()

    def derive(self, x, r, inplace):
        s = self.sh[x] if inplace else self.sh[x].copy()
        self.sh[r] = s
        self.G[r] = self.G[x]
        return s

    def g_arith(self):
        rng = self.rng
        x = self.pickx(rng.random() < 0.97)
        if not x:
            return
        s = self.sh[x]
        op = rng.choice(["offset_", "scale_", "add", "sub", "mul", "div"])
        inpl = op.endswith("_")
        if op in ("scale_", "mul"):
            if s.mag > 5000:
                return
            o = self.opnd(s, [2, -1, 3, 1, -2, 0 if rng.random() < 0.1 else 2])
        elif op == "div":
            if s.den > 4:
                return
            o = self.opnd(s, [2, -1, 1, -2])
        else:
            o = self.opnd(s, [1, -3, 5, 7, -11, 2])
        r = self.result(x, op, inpl)
        self.emit(op, x=x, r=r, o=o)
        s = self.derive(x, r, inpl)
        s.proj = False
        if op in ("scale_", "mul"):
            s.mag *= 3
        elif op == "div":
            s.den *= 2
        else:
            s.mag += 11

    def mat3(self):
        return [list(r) for r in self.rng.choice(rotations())]

    def g_rigid(self):
        rng = self.rng
        x = self.pickx(rng.random() < 0.97)
        if not x:
            return
        s = self.sh[x]
        op = rng.choice(["rotate_", "rotate", "transform_", "transform", "matmul3", "matmul4"])
        inpl = op.endswith("_")
        four = "transform" in op or op == "matmul4"
        batch = s.B > 0 and rng.random() < 0.5

        def one():
            m = self.mat3()
            if four:
                m = [m[i] + [rng.randint(-9, 9)] for i in range(3)] + [[0, 0, 0, 1]]
            return m
        nb = s.B
        bad = batch and rng.random() < 0.06
        if bad:
            nb += 1
        m = {"batch": batch, "v": [one() for _ in range(nb)] if batch else one()}
        r = self.result(x, op, inpl)
        kw = dict(x=x, r=r, m=m)
        if op[:2] != "ma":
            kw["pre"] = rng.random() < 0.6
            kw["dflt"] = rng.random() < 0.5
        self.emit(op, **kw)
        if not bad:
            s = self.derive(x, r, inpl)
            s.mag += 9
            s.proj = False

    def g_proj(self):
        rng = self.rng
        c = [k for k, s in self.sh.items() if s.B and s.proj and s.den == 1]
        if not c:
            return self.new(form=None) and None
        x = rng.choice(c)
        s = self.sh[x]
        op = rng.choice(["pinhole_projection_", "pinhole_projection"])
        inpl = op.endswith("_")
        batch = rng.random() < 0.5

        def K():
            return [[rng.randint(1, 9), 0, rng.randint(0, 9), 0], [0, rng.randint(1, 9), rng.randint(0, 9), 0],
                    [0, 0, 1, 0], [0, 0, 0, 1]]
        m = {"batch": batch, "v": [K() for _ in range(s.B)] if batch else K()}
        r = self.result(x, op, inpl)
        self.emit(op, x=x, r=r, m=m)
        s = self.derive(x, r, inpl)
        s.proj, s.mag, s.den = False, 400, 4

    def g_append(self):
        rng = self.rng
        x = self.pickx(rng.random() < 0.9)
        if not x:
            return
        s = self.sh[x]
        if rng.random() < 0.6 and s.B:
            y = self.new(r=rng.choice([k for k in range(1, self.nslots + 1) if k != x]), like=s,
                         fill=rng.random() < 0.35)
        else:
            y = rng.choice(list(self.sh))
        t = self.sh[y]
        if max([0] + s.sizes) + max([0] + t.sizes) > 4 * self.maxN:
            return
        self.emit("append", x=x, y=y)
        if t.B == 0:
            return
        if s.B == 0:
            self.sh[x] = t.copy()
            self.G[x] = self.n
        elif s.B == t.B and s.has == t.has and (not s.has["f"] or s.nf == t.nf):
            s.sizes = [a + b for a, b in zip(s.sizes, t.sizes)]
            s.mag, s.den = max(s.mag, t.mag), max(s.den, t.den)
            s.proj = s.proj and t.proj
            self.G[x] = self.n

    def g_getitem(self):
        rng = self.rng
        x = self.pickx(rng.random() < 0.95)
        if not x:
            return
        s = self.sh[x]
        B = s.B
        k = rng.choice(["int", "slice", "list", "long", "bool"])
        opt = lambda lo, hi: {"has": rng.random() < 0.6, "v": rng.randint(lo, hi)}
        if k == "int":
            v = rng.randint(-B - 1, B) if rng.random() < 0.1 else (rng.randint(-B, B - 1) if B else 0)
            ix = {"k": k, "v": v}
            ids = [v]
        elif k == "slice":
            st = rng.choice([1, 1, 2, -1, -2, 3])
            ix = {"k": k, "a": opt(-B - 1, B + 1), "b": opt(-B - 1, B + 1),
                  "s": {"has": rng.random() < 0.6, "v": st}}
            ids = list(range(B))[index(ix)]
        elif k == "bool":
            v = [rng.random() < 0.6 for _ in range(B)]
            ix = {"k": k, "v": v}
            ids = [i for i, b in enumerate(v) if b]
        else:
            n = rng.randint(1, B + 2) if rng.random() < 0.95 else 0
            v = [rng.randint(-B, B - 1) if B else 0 for _ in range(n)]
            ix = {"k": k, "v": v}
            ids = v
        r = self.slot()
        self.emit("getitem", x=x, r=r, ix=ix)
        if B and ids and all(-B <= i < B for i in ids):
            t = s.copy()
            t.sizes = [s.sizes[i] for i in ids]
            if max(t.sizes) == 0:
                t.proj = False
            self.sh[r] = t
            self.G[r] = self.G[x]

    def g_clone(self):
        x = self.pickx(self.rng.random() < 0.9)
        if not x:
            return
        r = self.slot()
        self.emit("clone", x=x, r=r)
        self.sh[r] = self.sh[x].copy()
        self.G[r] = self.n

    def g_detach(self):
        x = self.pickx()
        if not x:
            return
        r = self.slot()
        self.emit("detach", x=x, r=r)
        self.sh[r] = self.sh[x].copy()
        self.G[r] = self.G[x]

    def g_to(self):
        rng = self.rng
        x = self.pickx(rng.random() < 0.95)
        if not x:
            return
        r = self.slot()
        if r == x:
            return
        copy = rng.random() < 0.6
        dev = rng.choice(["cpu", "cpu", ""])
        if dev == "":
            copy = False
        if not copy:
            return  # returns the same object: exercised as its own case
        self.emit("to", x=x, r=r, dev=dev, copy=copy)
        self.sh[r] = self.sh[x].copy()
        self.G[r] = self.n

    def g_tosame(self):
        x = self.pickx(self.rng.random() < 0.9)
        if x:
            self.emit("tosame", x=x, form=self.rng.choice(["str", "dev", "cpu"]))

    def g_tometa(self):
        x = self.pickx()
        if x:
            self.emit("tometa", x=x, form=self.rng.choice(["lists", "padded", "device"]))

    def g_detachgrad(self):
        x = self.pickx()
        if x:
            self.emit("detachgrad", x=x)

    def g_poke(self):
        x = self.pickx()
        if not x or len(self.sh) < 2:
            return
        g = self.G[x]
        self.emit("poke", x=x)
        for k in [k for k in self.G if self.G[k] == g]:
            self.G.pop(k), self.sh.pop(k)

    def g_bad(self):
        x = self.pickx()
        if x:
            self.emit("badop", x=x, what=self.rng.choice(BADOPS))


def random_case(rng, weights, length, **kw):
    g = Gen(rng, weights, **kw)
    g.new()
    if rng.random() < 0.5:
        g.new(like=g.sh[list(g.sh)[0]])
    guard = 0
    while len(g.ops) < length and guard < 20 * length:
        guard += 1
        if not g.sh:
            g.new()
        g.step()
    return {"ops": g.ops, "dtype": rng.choice(["f32", "f32", "f64"])}


# ------------------------------------------------- walks of the TLC graph
def walk_case(walk, q, rng):
    """One walk through PointcloudMech's transitions, made concrete."""
    ops, cur, sizes, has, nf = [], 1, [], {}, 2
    row = lambda w: [rng.randint(-20, 20) for _ in range(w)]
    wid = lambda a: nf if a == "f" else 3
    for e in walk:
        k = e["k"]
        oth = 3 - cur
        a = e.get("a")
        if k == "new":
            nf = rng.choice([1, 2, 3, 4])
            sizes = [2, 2] if e["sz"] == "eq" else rng.choice([[1, 3], [2, 1], [0, 2], [3, 2]])
            has = {b: b in e["has"] for b in "pncf"}
            v = {b: [[row(wid(b)) for _ in range(n)] for n in sizes] if has[b] else None for b in "pncf"}
            ops.append(dict(op="new", r=cur, form=e["form"], p=v["p"], n=v["n"], c=v["c"], f=v["f"], nf=nf))
        elif k == "rl":
            ops.append(dict(op="read", x=cur, view=a + "l"))
        elif k == "rp":
            ops.append(dict(op="read", x=cur, view=a + "p"))
        elif k == "rm":
            ops.append(dict(op="read", x=cur, view="mask"))
        elif k == "rh":
            ops.append(dict(op="read", x=cur, view="has"))
        elif k in ("sl", "sp"):
            if a == "f":
                nf = rng.choice([1, 2, 3, 4])
            N = max(sizes)
            v = [[row(wid(a)) for _ in range(n)] + ([[0] * wid(a)] * (N - n) if k == "sp" else []) for n in sizes]
            ops.append(dict(op="setl" if k == "sl" else "setp", x=cur, a=a, v=v, w=wid(a)))
            has[a] = True
        elif k == "arith":
            val = [[[rng.choice([-1, 1, -1])] for _ in range(1)] for _ in sizes] if e["op"] == "scale_" else \
                [[[rng.randint(1, 9) for _ in range(3)]] for _ in sizes]
            ops.append(dict(op=e["op"], x=cur, r=cur, o={"k": "b11" if e["op"] == "scale_" else "b13", "v": val}))
        elif k == "rigid":
            m = [[list(r) for r in rng.choice(rotations())] for _ in sizes]
            if e["op"] == "transform_":
                m = [[x[i] + [rng.randint(-9, 9)] for i in range(3)] + [[0, 0, 0, 1]] for x in m]
            ops.append(dict(op=e["op"], x=cur, r=cur, m={"batch": True, "v": m}, pre=rng.random() < .6))
        elif k == "append":
            d = max(sizes) - min(sizes)
            lo = sizes.index(min(sizes))
            if e["sz"] == "eq":
                y = [1, 1]
                y[lo] += d
            elif d:
                y = [1, 1]
            else:
                y = rng.choice([[1, 2], [2, 0], [0, 1]])
            v = {b: [[row(wid(b)) for _ in range(n)] for n in y] if has.get(b) else None for b in "pncf"}
            ops.append(dict(op="new", r=3, form="list", p=v["p"], n=v["n"], c=v["c"], f=v["f"], nf=nf))
            ops.append(dict(op="append", x=cur, y=3))
            sizes = [i + j for i, j in zip(sizes, y)]
        elif k == "clone":
            ops.append(dict(op="clone", x=cur, r=oth))
            cur = oth
        elif k == "all":
            no = {"has": False, "v": 0}
            ops.append(dict(op="getitem", x=cur, r=oth, ix={"k": "slice", "a": no, "b": no, "s": no}))
            cur = oth
        elif k == "into":
            ops.append(dict(op="empty", r=oth))
            ops.append(dict(op="append", x=oth, y=cur))
            cur = oth
    return {"ops": ops}


def corrupt(trace, rng):
    """Change one observed number (binding self-test)."""
    cand = []
    for s in trace["steps"]:
        for o in s["obs"]:
            for v in o["views"]:
                for name in ("pl", "pp", "nl", "np", "cl", "fp"):
                    for c in v[name]:
                        for row in c:
                            cand.append((row, name))
    if not cand:
        return None
    row, _ = rng.choice(cand)
    row[rng.randrange(len(row))] += 1
    return trace
