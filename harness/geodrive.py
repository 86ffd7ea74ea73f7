"""Drivers for the geometry helpers, ground-truth odometry and conversions."""
import copy
import math

import numpy as np

from gs import torch
from vlib import BADVAL
from gradslam.geometry import geometryutils as gu
from gradslam.geometry import projutils as pu
from gradslam.geometry import se3utils as se
from gradslam.datasets import datautils, tumutils
from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
from gradslam.structures.rgbdimages import RGBDImages

SC = 4096


def fx(t, s=SC):
    """Rounded fixed-point encoding of a tensor or array."""
    t = torch.as_tensor(np.asarray(t)) if not torch.is_tensor(t) else t.detach()
    t = t.to(torch.float64) * s
    r = t.round()
    bad = ~torch.isfinite(t) | (r.abs() > 2 ** 28)
    return torch.where(bad, torch.full_like(r, BADVAL), r).to(torch.int64).tolist()


def rot(q):
    x, y, z, w = [float(v) for v in q]
    n = x * x + y * y + z * z + w * w
    return [[(w * w + x * x - y * y - z * z) / n, 2 * (x * y - z * w) / n, 2 * (x * z + y * w) / n],
            [2 * (x * y + z * w) / n, (w * w - x * x + y * y - z * z) / n, 2 * (y * z - x * w) / n],
            [2 * (x * z - y * w) / n, 2 * (y * z + x * w) / n, (w * w - x * x - y * y + z * z) / n]]


def mat4(p, dt):
    R = rot(p["q"])
    return torch.tensor([R[i] + [float(p["t"][i])] for i in range(3)] + [[0., 0, 0, 1]], dtype=dt)


def stack(ps, dt):
    return torch.stack([mat4(p, dt) for p in ps])


def flat(t, s=SC):
    return fx(t.reshape(-1, t.shape[-1]), s)


def shape(t):
    return [int(v) for v in t.shape]


class Call(object):
    """Runs one call, noting exceptions and changed arguments."""

    def __init__(self, steps):
        self.steps = steps

    def __call__(self, op, what, f, args, **given):
        s = dict(op=op, what=what, fail="", mut=False, **given)
        before = [copy.deepcopy(a) for a in args]
        try:
            out = f(*args)
            for a, b in zip(args, before):
                if torch.is_tensor(a):
                    s["mut"] = s["mut"] or a.shape != b.shape or not torch.equal(a, b)
                elif isinstance(a, np.ndarray):
                    s["mut"] = s["mut"] or not np.array_equal(a, b)
        except Exception as e:
            s["fail"] = type(e).__name__
            out = None
        self.steps.append(s)
        return s, out

    def refuse(self, what, f):
        s = dict(op="refuse", what=what, fail="ok", mut=False)
        try:
            f()
        except Exception as e:
            s["fail"] = type(e).__name__
        self.steps.append(s)


def run_case(case):
    steps = []
    call = Call(steps)
    dt = torch.float32 if case.get("dt") == "f32" else torch.float64
    for c in case["ops"]:
        globals()["do_" + c["op"]](call, c, dt)
    return {"steps": steps}


# --------------------------------------------------------------- pinhole
def shaped(pts, dims, dt):
    return torch.tensor(pts, dtype=dt).reshape(list(dims) + [len(pts[0])])


def do_hom(call, c, dt):
    x = shaped(c["pts"], c["dims"], dt)
    for m in (pu, gu):
        s, o = call("hom", m.__name__, m.homogenize_points, [x], pts=c["pts"], ishape=shape(x), out=[], shape=[])
        if o is not None:
            s["out"], s["shape"] = flat(o, 1), shape(o)
            s, o2 = call("rehom", m.__name__, m.unhomogenize_points, [o], pts=c["pts"], out=[])
            if o2 is not None:
                s["out"] = flat(o2, 1)


def do_unhom(call, c, dt):
    if "e" in c:            # last coordinates 2^-e
        x = shaped([p[:-1] + [p[-1] * 2.0 ** -c["e"]] for p in c["pts"]], c["dims"], dt)
        for m in (pu, gu):
            s, o = call("unhomw", m.__name__, m.unhomogenize_points, [x], pts=c["pts"], e=c["e"], ishape=shape(x), out=[], shape=[])
            if o is not None:
                s["out"], s["shape"] = flat(o, 1), shape(o)
        return
    x = shaped(c["pts"], c["dims"], dt)
    for m in (pu, gu):
        s, o = call("unhom", m.__name__, m.unhomogenize_points, [x], pts=c["pts"], ishape=shape(x), out=[], shape=[])
        if o is not None:
            s["out"], s["shape"] = flat(o), shape(o)


def do_proj(call, c, dt):
    x = shaped(c["pts"], c["dims"], dt)
    P = torch.tensor(c["P"], dtype=dt)
    n = len(c["pts"])
    per = n // len(c["P"])
    which = [k // per + 1 for k in range(n)]
    f = {"project_points": pu.project_points, "cam2pixel": gu.cam2pixel, "cam2pixel_KF": gu.cam2pixel_KF}[c["f"]]
    if c["f"] == "project_points":
        P = P[0] if len(c["P"]) == 1 and not c["batch"] else P.reshape([len(c["P"])] + [1] * (x.dim() - 3) + [4, 4])
    elif c["f"] == "cam2pixel":
        P = P[0]
    s, o = call("proj", c["f"], f, [x, P], pts=c["pts"], P=c["P"], which=which, ishape=shape(x), out=[], shape=[])
    if o is not None:
        s["out"], s["shape"] = flat(o), shape(o)


def do_unproj(call, c, dt):
    x = shaped(c["pts"], c["dims"], dt)
    d = torch.tensor(c["dep"], dtype=dt).reshape(c["dims"])
    P = torch.tensor(c["P"], dtype=dt)
    n = len(c["pts"])
    per = n // len(c["P"])
    which = [k // per + 1 for k in range(n)]
    if c["f"] == "unproject_points":
        P = P[0] if len(c["P"]) == 1 and not c["batch"] else P.reshape([len(c["P"])] + [1] * (x.dim() - 3) + [3, 3])
        s, o = call("unproj", c["f"], pu.unproject_points, [x, P, d], pts=c["pts"], P=c["P"], which=which,
                    dep=c["dep"], ishape=shape(x), out=[], shape=[])
    else:
        P4 = torch.eye(4, dtype=dt)
        P4[:3, :3] = P[0]
        s, o = call("unproj", c["f"], gu.pixel2cam, [d.unsqueeze(1), P4, x], pts=c["pts"], P=c["P"], which=which,
                    dep=c["dep"], ishape=shape(x), out=[], shape=[])
    if o is not None:
        s["out"], s["shape"] = flat(o), shape(o)


def kmat(K, n, dt):
    m = torch.eye(n, dtype=dt)
    m[0, 0], m[1, 1], m[0, 2], m[1, 2] = K[0], K[1], K[2] / 2, K[3] / 2
    return m


def do_kinv(call, c, dt):
    x = torch.stack([kmat(K, c["n"], dt) for K in c["K"]]).reshape(c["dims"] + [c["n"], c["n"]])
    s, o = call("kinv", "inverse_intrinsics", pu.inverse_intrinsics, [x], K=c["K"], ishape=shape(x), out=[], shape=[])
    if o is not None:
        s["out"], s["shape"] = fx(o.reshape(-1, c["n"], c["n"])), shape(o)


def do_frame(call, c, dt):
    dt = torch.float32
    B, L, H, W = c["size"]
    s = dict(op="frame", what="", fail="", mut=False, B=B, L=L, H=H, W=W, K=c["K"], d=c["d"], poses=c["poses"],
             vert=[], gvert=[], pix=[], unp=[], norm=[], gnorm=[])
    call.steps.append(s)
    try:
        dep = torch.tensor(c["d"], dtype=dt).unsqueeze(-1) / 2
        rgb = torch.zeros(B, L, H, W, 3)
        K = torch.stack([kmat(k, 4, dt) for k in c["K"]]).unsqueeze(1)
        poses = torch.stack([stack(p, dt) for p in c["poses"]])
        if c["cf"]:
            x = RGBDImages(rgb.permute(0, 1, 4, 2, 3), dep.permute(0, 1, 4, 2, 3), K, poses, channels_first=True)
        else:
            x = RGBDImages(rgb, dep, K, poses)
        last = (lambda t: t.permute(0, 1, 3, 4, 2)) if c["cf"] else (lambda t: t)
        order = {"vert": "vertex_map", "gvert": "global_vertex_map", "norm": "normal_map", "gnorm": "global_normal_map"}
        got = {}
        for k in c["order"]:
            got[k] = last(getattr(x, order[k]))
            s[k] = fx(got[k])
        v = got["vert"]
        if c["batched"]:
            pix = pu.project_points(v.reshape(B, -1, 3), K[:, 0]).reshape(B, L, H, W, 2)
        else:
            pix = torch.stack([pu.project_points(v[b], K[b, 0]) for b in range(B)])
        s["pix"] = fx(pix)
        ys, xs = torch.meshgrid(torch.arange(H, dtype=dt), torch.arange(W, dtype=dt), indexing="ij")
        uv = torch.stack([xs, ys], -1)
        s["unp"] = fx(torch.stack([torch.stack([pu.unproject_points(
            uv, pu.inverse_intrinsics(K[b, 0])[:3, :3], dep[b, l, ..., 0]) for l in range(L)]) for b in range(B)]))
    except Exception as e:
        s["fail"] = type(e).__name__


def do_mesh(call, c, dt):
    H, W = c["H"], c["W"]
    s, o = call("mesh", "create_meshgrid", lambda: gu.create_meshgrid(H, W, False), [], H=H, W=W, out=[])
    if o is not None:
        s["out"] = fx(o[0], 1) if shape(o) == [1, H, W, 2] else []
    pts = [[h, w] for h in range(H) for w in range(W)]
    s = dict(op="normpix", what="pixel normalisation", fail="", mut=False, H=H, W=W, pts=pts, out=[], back=[])
    call.steps.append(s)
    try:
        x = torch.tensor(pts, dtype=dt)
        if c["grid"]:
            n = gu.create_meshgrid(H, W, True).reshape(-1, 2).to(dt)
        else:
            n = gu.normalize_pixel_coords(x, H, W)
        s["out"] = fx(n)
        s["back"] = fx(gu.unnormalize_pixel_coords(n, H, W))
        s["mut"] = not torch.equal(x, torch.tensor(pts, dtype=dt))
    except Exception as e:
        s["fail"] = type(e).__name__


def do_badgeo(call, c, dt):
    z = torch.zeros
    for what, f in [
            ("homogenize list", lambda: pu.homogenize_points([[1., 2, 3]])),
            ("homogenize 1d", lambda: pu.homogenize_points(z(3))),
            ("unhomogenize 1d", lambda: gu.unhomogenize_points(z(3))),
            ("project type", lambda: pu.project_points([1], z(4, 4))),
            ("project 5 coordinates", lambda: pu.project_points(z(2, 5), z(4, 4))),
            ("project 3x3 matrix", lambda: pu.project_points(z(2, 3), z(3, 3))),
            ("project batch mismatch", lambda: pu.project_points(z(2, 5, 3), z(3, 4, 4))),
            ("unproject depth mismatch", lambda: pu.unproject_points(z(2, 5, 2), z(3, 3), z(2, 4))),
            ("unproject 4 coordinates", lambda: pu.unproject_points(z(2, 5, 4), z(3, 3), z(2, 5))),
            ("unproject batch mismatch", lambda: pu.unproject_points(z(2, 5, 2), z(3, 3, 3), z(2, 5))),
            ("inverse_intrinsics shape", lambda: pu.inverse_intrinsics(z(3, 4)))]:
        call.refuse(what, f)


# ---------------------------------------------------------- rigid motion
def lst(o, single):
    return fx(o.unsqueeze(0) if single else o)


def rigid(call, op, name, f, c, dt, two):
    single = c["single"]
    A = stack(c["a"], dt)
    args = [A[0] if single else A]
    if two:
        Bm = stack(c["b"], dt)
        args.append(Bm[0] if single else Bm)
    kw = dict(b=c["b"]) if two else {}
    s, o = call(op, name, f, args, n=len(c["a"]), a=c["a"], out=[], **kw)
    if o is not None:
        s["out"] = lst(o, single) if o.dim() == args[0].dim() else []


def do_inv(call, c, dt):
    rigid(call, "inv", "inverse_transfom_3d", gu.inverse_transfom_3d, c, dt, False)


def do_comp(call, c, dt):
    rigid(call, "comp", "compose_transforms_3d", gu.compose_transforms_3d, c, dt, True)


def do_rel(call, c, dt):
    f = {"rel3d": gu.relative_transform_3d,
         "rel": gu.relative_transformation,
         "relorth": lambda a, b: gu.relative_transformation(a, b, orthogonal_rotations=True)}[c["f"]]
    rigid(call, "rel", c["f"], f, c, dt, True)


def frames(poses, dt, H=2, W=3, fill=1.0):
    """poses: [b][l] or None with size"""
    B, L = len(poses), len(poses[0])
    P = torch.stack([stack(p, dt) for p in poses])
    K = torch.eye(4, dtype=dt).repeat(B, 1, 1, 1)
    return RGBDImages(torch.zeros(B, L, H, W, 3, dtype=dt), torch.full((B, L, H, W, 1), fill, dtype=dt), K, P)


def do_gt(call, c, dt):
    """every consecutive pair of a sequence of posed frames"""
    B, L = len(c["poses"]), len(c["poses"][0])
    x = frames(c["poses"], dt)
    before = x.poses.clone()
    for i in range(L):
        j = c["to"][i] if c["to"] else (i + 1) % L
        s = dict(op="rel", what="GroundTruthOdometryProvider", fail="", mut=False, n=B,
                 a=[p[i] for p in c["poses"]], b=[p[j] for p in c["poses"]], out=[])
        call.steps.append(s)
        try:
            o = GroundTruthOdometryProvider().provide(x[:, i], x[:, j])
            s["out"] = fx(o[:, 0]) if shape(o) == [B, 1, 4, 4] else []
            s["mut"] = not torch.equal(before, x.poses)
        except Exception as e:
            s["fail"] = type(e).__name__


def do_badgt(call, c, dt):
    p = {"q": [0, 0, 0, 1], "t": [1, 2, 3]}
    g = GroundTruthOdometryProvider()
    x1, x2 = frames([[p]], dt), frames([[p, p]], dt)
    b2 = frames([[p], [p]], dt)
    nop = frames([[p]], dt)
    nop.poses = None
    I4 = torch.eye(4)
    for what, f in [
            ("provide without pose 1", lambda: g.provide(nop, x1)),
            ("provide without pose 2", lambda: g.provide(x1, nop)),
            ("provide sequence 1", lambda: g.provide(x2, x1)),
            ("provide sequence 2", lambda: g.provide(x1, x2)),
            ("provide batch mismatch", lambda: g.provide(x1, b2)),
            ("provide batch mismatch 2", lambda: g.provide(b2, x1)),
            ("provide type 1", lambda: g.provide(x1.poses, x1)),
            ("provide type 2", lambda: g.provide(x1, None)),
            ("compose shapes", lambda: gu.compose_transforms_3d(I4, I4.repeat(2, 1, 1))),
            ("compose type", lambda: gu.compose_transforms_3d(I4, [1])),
            ("inverse type", lambda: gu.inverse_transfom_3d([[1]])),
            ("relative shape", lambda: gu.relative_transformation(torch.zeros(2, 3, 4), torch.zeros(2, 3, 4))),
            ("relative 3d/2d", lambda: gu.relative_transformation(I4, I4.repeat(2, 1, 1)))]:
        call.refuse(what, f)


def do_pts(call, c, dt):
    x = shaped(c["pts"], c["dims"], dt)
    A = stack(c["a"], dt)
    n = len(c["pts"])
    per = n // len(c["a"])
    f, args = {"transform_pts_3d": (gu.transform_pts_3d, [x, A[0]]),
               "transform_pts_nd_KF": (gu.transform_pts_nd_KF, [x, A]),
               "transform_pointcloud": (gu.transform_pointcloud, [x, A[0]]),
               "transform_normals": (gu.transform_normals, [x, A[0]])}[c["f"]]
    s, o = call("nrm" if c["f"] == "transform_normals" else "pts", c["f"], f, args, pts=c["pts"], a=c["a"],
                which=[k // per + 1 for k in range(n)], ishape=shape(x), out=[], shape=[])
    if o is not None:
        s["out"], s["shape"] = flat(o), shape(o)


# ------------------------------------------------------------ conversions
def unit(q, dt):
    t = torch.tensor(q, dtype=torch.float64)
    return (t / t.norm(dim=-1, keepdim=True)).to(dt)


def do_quat(call, c, dt):
    """all conversions of a list of integer quaternions"""
    q, n, single = c["q"], len(c["q"]), c["single"]
    X = torch.tensor(q, dtype=dt) * c["scale"]
    x = X[0] if single else X
    s, o = call("q2r", "quaternion_to_rotation_matrix", gu.quaternion_to_rotation_matrix, [x], n=n, q=q, out=[])
    if o is not None:
        s["out"] = lst(o, o.dim() == 2)
    xn = x if single or not c["deep"] else X.reshape(n, 1, 4)
    s, o = call("nq", "normalize_quaternion", gu.normalize_quaternion, [xn], n=n, q=q, out=[])
    if o is not None:
        s["out"] = flat(o) if o.shape == xn.shape else []
    u = unit(q, dt)
    u = u[0] if single else u.reshape(n, 1, 4) if c["deep"] else u
    s, o = call("aa", "quaternion_to_axisangle", gu.quaternion_to_axisangle, [u], n=n, q=q, out=[], exp=[])
    if o is not None:
        v = o.reshape(-1, 3)
        s["out"] = fx(v)
        s["exp"] = [fx(se.so3_exp(a)) for a in v]
    # positions with quaternions, as tensor and as array
    a = [{"q": q[k], "t": c["t"][k]} for k in range(n)]
    pq = torch.cat([torch.tensor(c["t"], dtype=dt), unit(q, dt)], -1)
    pq = pq[0] if single else pq.reshape(n, 1, 7) if c["deep"] else pq
    for arr in (pq, pq.numpy().copy()):
        s, o = call("pq", "pointquaternion_to_homogeneous " + type(arr).__name__,
                    datautils.pointquaternion_to_homogeneous, [arr], n=n, a=a, out=[])
        if o is not None:
            ok = tuple(o.shape) == tuple(pq.shape[:-1]) + (4, 4) and type(o) is type(arr)
            s["out"] = fx(torch.as_tensor(o).reshape(-1, 4, 4)) if ok else []
    for k in range(n):
        l = [1305031102.17] + [float(v) for v in c["t"][k]] + unit(q[k], torch.float64).tolist()
        s, o = call("pq", "transform44", tumutils.transform44, [np.array(l)], n=1, a=[a[k]], out=[])
        if o is not None:
            s["out"] = [fx(o)]


def do_hat(call, c, dt):
    xi = torch.tensor(c["v"] + c["w"], dtype=dt)
    s, o = call("hat", "hat operators", se.se3_hat, [xi], w=c["w"], v=c["v"], o=[], so3=[])
    if o is not None:
        s["o"], s["so3"] = fx(o, 1), fx(se.so3_hat(xi[3:]), 1)


def do_exp(call, c, dt):
    xi = torch.tensor(c["v"] + c["w"], dtype=dt) / 256
    s, o = call("exp", "se3_exp", se.se3_exp, [xi], w=c["w"], v=c["v"], o=[], so3=[])
    if o is not None:
        s["o"] = fx(o)
        s["so3"] = fx(se.so3_exp(xi[3:]))


def do_homo(call, c, dt):
    xi = torch.tensor(c["v"] + c["w"], dtype=dt) / 256
    s, o = call("homo", "exponential of collinear twists",
                lambda x: (se.se3_exp(c["a"] * x), se.se3_exp(c["b"] * x), se.se3_exp((c["a"] + c["b"]) * x)),
                [xi], ea=[], eb=[], eab=[])
    if o is not None:
        s["ea"], s["eb"], s["eab"] = [fx(m) for m in o]


def do_expsmall(call, c, dt):
    xi = torch.tensor(c["v"] + c["w"], dtype=torch.float64) / 1024
    s, o = call("expsmall", "se3_exp near zero", se.se3_exp, [xi], w=c["w"], v=c["v"], o=[])
    if o is not None:
        s["o"] = fx(o, 2 ** 20)


def do_badconv(call, c, dt):
    z = torch.zeros
    for what, f in [
            ("axisangle of 3", lambda: gu.quaternion_to_axisangle(z(3))),
            ("axisangle of list", lambda: gu.quaternion_to_axisangle([0, 0, 0, 1])),
            ("rotation of 3", lambda: gu.quaternion_to_rotation_matrix(z(2, 3))),
            ("normalize 5", lambda: gu.normalize_quaternion(z(2, 5))),
            ("pointquaternion of 6", lambda: datautils.pointquaternion_to_homogeneous(z(2, 6))),
            ("pointquaternion of list", lambda: datautils.pointquaternion_to_homogeneous([0] * 7)),
            ("transform_pts_3d batch of matrices", lambda: gu.transform_pts_3d(z(2, 3), z(2, 4, 4))),
            ("transform_pointcloud 3x3", lambda: gu.transform_pointcloud(z(2, 3), z(3, 3))),
            ("transform_normals 3d", lambda: gu.transform_normals(z(1, 2, 3), z(4, 4))),
            ("KF batch mismatch", lambda: gu.transform_pts_nd_KF(z(2, 5, 3), z(3, 4, 4)))]:
        call.refuse(what, f)


# ------------------------------------------------------------- generation
def rq(rng, r=2):
    while True:
        q = [rng.randint(-r, r) for _ in range(4)]
        if any(q):
            return q


def rt(rng, r=9):
    return [rng.randint(-r, r) for _ in range(3)]


def rp(rng, r=2):
    return {"q": rq(rng, r), "t": rt(rng)}


def dims(rng, batch=None):
    """leading dimensions"""
    if batch is not None:
        return [batch] + [rng.randint(1, 3) for _ in range(rng.randint(1, 2))]
    if rng.random() < .15:
        return [rng.randint(4, 9)] + [rng.randint(1, 2) for _ in range(rng.randint(0, 1))]
    return [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]


def total(d):
    n = 1
    for v in d:
        n *= v
    return n


def random_geo(rng):
    ri = rng.randint
    op = rng.choice(["hom", "unhom", "proj", "proj", "unproj", "unproj", "kinv", "frame", "frame", "frame", "mesh"])
    d = dims(rng)
    n = total(d)
    if op == "hom":
        k = ri(2, 5)
        return dict(op=op, dims=d, pts=[[ri(-99, 99) for _ in range(k)] for _ in range(n)])
    if op == "unhom":
        k = ri(2, 5)
        if rng.random() < .4:
            return dict(op=op, dims=d, e=ri(0, 18), pts=[[ri(-99, 99) for _ in range(k - 1)] + [rng.choice((1, -1))] for _ in range(n)])
        return dict(op=op, dims=d, pts=[[ri(-99, 99) for _ in range(k - 1)] + [rng.choice([0, 0, 1, 2, -3, 7, 40])]
                                        for _ in range(n)])
    if op in ("proj", "unproj"):
        k = rng.choice([3, 4] if op == "proj" else [2, 3])
        f = rng.choice(["project_points"] * 3 + ["cam2pixel", "cam2pixel_KF"]) if op == "proj" else \
            rng.choice(["unproject_points"] * 3 + ["pixel2cam"])
        batch = False
        nP = 1
        if f in ("cam2pixel", "pixel2cam"):
            d, k = [ri(1, 2), ri(1, 3), ri(1, 3)], 3
        elif f == "cam2pixel_KF":
            d, k = [ri(1, 3), ri(1, 4)], 3
            nP, batch = d[0], True
        elif rng.random() < .5 and len(d) > 1:
            batch, nP = True, d[0]
        n = total(d)
        if op == "proj":
            if rng.random() < .5:   # a pinhole matrix
                P = [[[ri(1, 9), 0, ri(0, 5), 0], [0, ri(1, 9), ri(0, 5), 0], [0, 0, 1, 0], [0, 0, 0, 1]] for _ in range(nP)]
            else:
                P = [[[ri(-4, 4) for _ in range(4)] for _ in range(3)] + [[0, 0, 0, 1]] for _ in range(nP)]
            return dict(op=op, f=f, dims=d, batch=batch, P=P,
                        pts=[[ri(-9, 9), ri(-9, 9), ri(-6, 9)] + ([ri(-2, 3)] if k == 4 else []) for _ in range(n)])
        P = [[[ri(-4, 4) for _ in range(3)] for _ in range(3)] for _ in range(nP)]
        return dict(op=op, f=f, dims=d, batch=batch, P=P, dep=[ri(-3, 9) for _ in range(n)],
                    pts=[[ri(-9, 9), ri(-9, 9)] + ([ri(-2, 3)] if k == 3 else []) for _ in range(n)])
    if op == "kinv":
        d = rng.choice([[], [1], [3], [2, 1], [2, 2]])
        return dict(op=op, n=rng.choice([3, 4]), dims=d,
                    K=[[ri(1, 600), ri(1, 600), ri(-9, 640), ri(0, 480)] for _ in range(total(d))])
    if op == "frame":
        B, L, H, W = ri(1, 3), ri(1, 3), ri(2, 4), ri(2, 5)
        big = rng.random() < .3
        K = [[rng.choice([1, 2, 4, 3]), rng.choice([1, 2, 4, 5]), ri(0, 2 * W), ri(0, 2 * H)] if not big else
             [ri(300, 600), ri(300, 600), ri(0, 40), ri(0, 40)] for _ in range(B)]
        return dict(op=op, size=[B, L, H, W], K=K, cf=rng.random() < .5, batched=rng.random() < .5,
                    order=rng.sample(["vert", "gvert", "norm", "gnorm"], 4),
                    d=[[[[rng.choice([0, 0, 1, 2, 3, 5, 8, -1]) for _ in range(W)] for _ in range(H)] for _ in range(L)]
                       for _ in range(B)],
                    poses=[[rp(rng) for _ in range(L)] for _ in range(B)])
    return dict(op="mesh", H=ri(2, 7), W=ri(2, 7), grid=rng.random() < .5)


def random_rigid(rng):
    op = rng.choice(["inv", "comp", "rel", "rel", "gt", "gt"])
    single = rng.random() < .3
    n = 1 if single else rng.choice((1, 2, 3, 4, 4, 6, 9))
    if op == "gt":
        B, L = rng.choice((1, 2, 3, 4, 7)), rng.randint(1, 4)
        return dict(op=op, poses=[[rp(rng) for _ in range(L)] for _ in range(B)],
                    to=[rng.randrange(L) for _ in range(L)] if rng.random() < .4 else [])
    c = dict(op=op, single=single, a=[rp(rng) for _ in range(n)], b=[rp(rng) for _ in range(n)])
    if op == "rel":
        c["f"] = rng.choice(["rel3d", "rel", "relorth"])
    return c


def random_conv(rng):
    op = rng.choice(["quat", "quat", "hat", "exp", "exp", "homo", "homo", "expsmall", "pts", "pts"])
    if op == "quat":
        single = rng.random() < .3
        n = 1 if single else rng.choice((1, 2, 3, 4, 7))
        return dict(op=op, single=single, deep=rng.random() < .4, q=[rq(rng, 6) for _ in range(n)],
                    t=[rt(rng) for _ in range(n)], scale=rng.choice([1, .25, 3]))
    if op == "hat":
        return dict(op=op, w=rt(rng), v=rt(rng))
    if op == "pts":
        f = rng.choice(["transform_pts_3d", "transform_pts_nd_KF", "transform_pointcloud", "transform_normals"])
        d = {"transform_pts_3d": dims(rng), "transform_pts_nd_KF": [rng.randint(1, 3), rng.randint(1, 3)]}.get(f, [rng.randint(1, 5)])
        k = d[0] if f == "transform_pts_nd_KF" else 1
        return dict(op=op, f=f, dims=d, a=[rp(rng) for _ in range(k)], pts=[rt(rng) for _ in range(total(d))])
    axis = rng.random()
    big = {"exp": 800, "homo": 250, "expsmall": 4}[op]
    w = [rng.randint(-big, big) for _ in range(3)]
    if axis < .2:
        w = [0, 0, 0]
    elif axis < .4:
        w = [w[0], 0, 0][:: rng.choice([1, -1])]
    elif axis < .6 and op != "expsmall":
        w = [rng.choice([-1, 0, 1]) for _ in range(3)]
    v = [rng.randint(-512, 512) for _ in range(3)] if op != "expsmall" else [rng.randint(-4, 4) for _ in range(3)]
    c = dict(op=op, w=w, v=v)
    if op == "homo":
        c["a"], c["b"] = rng.choice([(1, 1), (2, 1), (1, -1), (3, -2), (.5, .5), (-1, -1), (.25, 2)])
    return c


def random_case(rng, f, n):
    return {"ops": [f(rng) for _ in range(n)], "dt": rng.choice(["f64", "f32"])}


def corrupt(trace, rng):
    cand = []

    def walk(x):
        for k, v in enumerate(x):
            if isinstance(v, list):
                walk(v)
            elif isinstance(v, int) and not isinstance(v, bool):
                cand.append((x, k))
    for s in trace["steps"]:
        for key in ("out", "o", "pix", "eab"):
            if key in s:
                if s["op"] in ("frame", "aa"):
                    continue
                walk(s[key])
    if not cand:
        return None
    x, k = rng.choice(cand)
    x[k] += 3000
    return trace
