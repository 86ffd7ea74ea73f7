"""Drivers for derivatives of geometric conversions (C24)."""
import math

from gs import torch
from fusiondrive import fx
from graddrive import CUBES, dots, jac, leaf
from gradslam.geometry import geometryutils as gu
from gradslam.geometry import projutils as pu
from gradslam.geometry import se3utils as se

U = 1024
W = 256
KN = {(0, 0): "fx", (1, 1): "fy", (0, 2): "cx", (1, 2): "cy"}


def T(x, dt=torch.float32):
    return torch.tensor(x, dtype=dt)


def vec(x, name, dt=torch.float32, first=1):
    t = T(x, dt).requires_grad_()
    return t, (t, lambda i: name + str(i[0] + first))


def hat(x):
    z = x[0] * 0
    return torch.stack([torch.stack(r) for r in ((z, -x[5], x[4], x[0]), (x[5], z, -x[3], x[1]), (-x[4], x[3], z, x[2]), (z, z, z, z))])


def mat44(R, t):
    return [[float(R[i][j]) for j in range(3)] + [float(t[i])] for i in range(3)] + [[0., 0, 0, 1]]


def run_exp(c):
    dt = torch.float64 if c["wide"] else torch.float32
    s = dict(op=c["op"], fail="", x=[int(round(v * U)) for v in c["x"]], tol=c["tol"])
    if c["op"] == "hat":
        s.pop("tol")
    if c["so3"]:
        x, lf = vec(c["x"][3:], "x", dt, 4)
        o = (se.so3_exp if c["op"] == "exp" else se.so3_hat)(x)
        s.update(rows=3, **{"from": 4})
        s["x"] = [0, 0, 0] + s["x"][3:]
    else:
        x, lf = vec(c["x"], "x", dt)
        o = (se.se3_exp if c["op"] == "exp" else se.se3_hat)(x)
        s.update(rows=4, **{"from": 1})
    s.update(o=fx(o, U), J=jac(o, [lf], U))
    return [s]


def run_quat(c):
    dt = torch.float64 if c["wide"] else torch.float32
    q, lf = vec(c["q"], "q", dt)
    if c["batch"]:
        p, _ = vec([1, 2, 0, 1], "other", dt)
        stack = torch.stack([p, q])
        n, R = gu.normalize_quaternion(stack), gu.quaternion_to_rotation_matrix(stack)
        a = gu.quaternion_to_axisangle(n)
        n, R, a = n[1], R[1], a[1]
    else:
        n, R = gu.normalize_quaternion(q), gu.quaternion_to_rotation_matrix(q)
        a = gu.quaternion_to_axisangle(n)
    return [dict(op="quat", fail="", q=c["q"], n=fx(n, U), dn=jac(n, [lf], U), R=fx(R, U), dR=jac(R, [lf], U), a=fx(a, U), da=jac(a, [lf], U))]


def moved(Ms, name):
    """Motions M (1 + hat(x)) with a twist x for each."""
    leaves, res = [], []
    for b, M in enumerate(Ms):
        x, lf = vec([0.] * 6, "%s%d." % (name, b))
        leaves.append(lf)
        res.append(T(M) @ (torch.eye(4) + hat(x)))
    return res, leaves


def run_motion(c):
    A, la = moved(c["A"], "x")
    B, lb = moved(c["B"], "y")
    n = len(A)
    a, b = (torch.stack(A), torch.stack(B)) if c["batch"] else (A[0], B[0])
    o = {"inverse_transfom_3d": lambda: gu.inverse_transfom_3d(a), "compose_transforms_3d": lambda: gu.compose_transforms_3d(a, b),
         "relative_transform_3d": lambda: gu.relative_transform_3d(a, b), "relative_transformation": lambda: gu.relative_transformation(a, b),
         "relative_transformation.": lambda: gu.relative_transformation(a, b, orthogonal_rotations=True)}[c["f"]]()
    if not c["batch"]:
        o, n = [o], 1
    return [dict(op="motion", fail="", f=c["f"].split("_")[0].replace("transfom", ""), n=n, A=c["A"], B=c["B"], k1=["x%d." % k for k in range(n)],
                 k2=["y%d." % k for k in range(n)], J=[jac(m, la + lb, U) for m in o])]


def run_points(c):
    x, lx = vec([0.] * 6, "x")
    M = T(c["A"]) @ (torch.eye(4) + hat(x))
    p = leaf([[float(v) for v in q] for q in c["p"]])
    leaves = [lx, (p, lambda i: "p%d." % i[-2] + str(i[-1] + 1))]
    f = c["f"]
    if f == "transform_pts_nd_KF":
        o = gu.transform_pts_nd_KF(p.unsqueeze(0), M.unsqueeze(0))[0]
    else:
        o = getattr(gu, f)(p, M)
    return [dict(op="points", fail="", f=f, w=0 if "normals" in f else 1, A=c["A"], p=c["p"], key=["p%d." % k for k in range(len(p))], J=jac(o, leaves, U))]


def run_proj(c):
    K = leaf([[c["K"][0], 0, c["K"][2], 0], [0, c["K"][1], c["K"][3], 0], [0, 0, 1., 0], [0, 0, 0, 1]])
    p = leaf([[float(v) for v in q] for q in c["p"]])
    z = leaf([float(v) for v in c["z"]])
    leaves = [(K, lambda i: KN.get(tuple(i[-2:]))), (p, lambda i: "p%d." % i[0] + str(i[1] + 1)), (z, lambda i: "p%d.z" % i[0])]
    f, k = c["f"], c["mod"]
    bat = c["batch"]
    if f in ("project", "unproject"):
        x, d, M = p, z, K
        if bat:                         # a batch whose first element must not matter
            x, d = torch.stack([p.detach() * 2, p]), torch.stack([z.detach() + 1, z])
            M = torch.stack([K.detach() + torch.eye(4), K]) if c["bK"] else K
    if f == "project":
        o = pu.project_points(x, M)
    elif f == "unproject":
        o = pu.unproject_points(x, pu.inverse_intrinsics(M)[..., :3, :3], d)
    elif f == "homogenize":
        o = k.homogenize_points(p)
    elif f == "unhomogenize":
        o = k.unhomogenize_points(p)
    elif f in ("normalize", "unnormalize"):
        o = getattr(gu, f + "_pixel_coords")(p, *c["hw"])
    else:
        i = pu.inverse_intrinsics(torch.stack([K.detach() + torch.eye(4), K])[1] if not bat else torch.stack([K.detach() + torch.eye(4), K]))
        i = i[1] if bat else i
        o = torch.stack([i[0, 0], i[1, 1], i[0, 2], i[1, 2]]).unsqueeze(0)
    if bat and f in ("project", "unproject"):
        o = o[1]
    return [dict(op="proj", fail="", f=f, K=c["K"], p=c["p"], z=c["z"], hw=c["hw"], key=["p%d." % j for j in range(len(c["p"]))], J=jac(o, leaves, W))]


def run_case(c):
    c = dict(c)
    if c["kind"] == "proj":
        c["mod"] = pu if c["from_proj"] else gu
    try:
        return dict(steps={"exp": run_exp, "quat": run_quat, "motion": run_motion, "points": run_points, "proj": run_proj}[c["kind"]](c))
    except Exception as e:
        return dict(steps=[dict(op="failed", fail="%s %s" % (type(e).__name__, str(e)[:90]))])


# ------------------------------------------------------------------ inputs
SIZES = (0, 0, 1e-7, 1e-5, 1e-4, 3e-4, 1e-3, 5e-3, .012, .02, .05, .3, 1., 1.6, 2.4, 3.1)


def exp_case(rng):
    while True:
        d = [rng.uniform(-1, 1) for _ in range(3)] if rng.random() < .6 else rng.choice(([1, 0, 0], [0, 1, 0], [0, 0, -1], [1, 1, 0]))
        n = math.sqrt(sum(v * v for v in d))
        if n > .2:
            break
    th = rng.choice(SIZES)
    v = [rng.randint(-64, 64) / 32. for _ in range(3)] if rng.random() < .85 else [0., 0, 0]
    w = [th * x / n for x in d]
    if th > .04:
        w = [round(x * U) / float(U) for x in w]
    return dict(kind="exp", op=rng.choice(("exp",) * 7 + ("hat",)), so3=rng.random() < .3, wide=rng.random() < .3, x=v + w, tol=24)


def quat_case(rng):
    while True:
        q = [rng.randint(-3, 3) for _ in range(4)] if rng.random() < .8 else [0, 0, 0, rng.choice((-3, -1, 1, 2))]
        if any(q):
            return dict(kind="quat", q=q, wide=rng.random() < .3, batch=rng.random() < .5)


def rmot(rng):
    return mat44(rng.choice(CUBES), [rng.randint(-3, 3) for _ in range(3)])


def ints(M):
    return [[int(v) for v in r] for r in M]


def motion_case(rng):
    b = rng.random() < .6
    n = rng.randint(1, 3) if b else 1
    f = rng.choice(("inverse_transfom_3d", "compose_transforms_3d", "relative_transform_3d", "relative_transformation", "relative_transformation."))
    return dict(kind="motion", f=f, batch=b, A=[ints(rmot(rng)) for _ in range(n)], B=[ints(rmot(rng)) for _ in range(n)])


def points_case(rng):
    return dict(kind="points", f=rng.choice(("transform_pts_3d", "transform_pts_nd_KF", "transform_pointcloud", "transform_normals")), A=ints(rmot(rng)),
                p=[[rng.randint(-3, 3) for _ in range(3)] for _ in range(rng.randint(1, 3))])


def proj_case(rng):
    f = rng.choice(("project", "project", "unproject", "unproject", "homogenize", "unhomogenize", "unhomogenize", "normalize", "unnormalize", "inverse"))
    n = rng.randint(1, 3)
    dim = {"project": 3, "homogenize": rng.randint(2, 4), "unhomogenize": rng.randint(2, 4)}.get(f, 2)
    p = [[rng.randint(-3, 3) for _ in range(dim)] for _ in range(n)]
    if f in ("project", "unhomogenize"):
        for q in p:
            q[-1] = rng.choice((0, 1, 2, -1, 4, -2))
    if f == "inverse":
        p = p[:1]
    return dict(kind="proj", f=f, K=[rng.choice((1, 2, 4)), rng.choice((1, 2, 4)), rng.randint(0, 4), rng.randint(0, 4)], p=p, z=[rng.randint(1, 4) for _ in p],
                hw=[rng.choice((2, 3, 5, 9)), rng.choice((3, 5, 17))], batch=rng.random() < .5, bK=rng.random() < .7, from_proj=rng.random() < .5)


def case(rng):
    return rng.choice((exp_case, exp_case, exp_case, quat_case, quat_case, motion_case, points_case, proj_case, proj_case))(rng)


def corrupt(tr, rng):
    def dicts(x):
        if isinstance(x, dict):
            yield x
        else:
            for v in x:
                for y in dicts(v):
                    yield y
    for s in tr["steps"]:
        for part in ("J", "da", "dR"):
            ds = [x for x in dicts(s[part]) if any(abs(v) >= 150 for k, v in x.items() if k not in ("cx", "cy") and not (s["op"] == "proj" and k.endswith("3")))] if part in s else []
            if ds:
                x = rng.choice(ds)
                k = rng.choice([k for k, v in x.items() if abs(v) >= 150 and k not in ("cx", "cy") and not (s["op"] == "proj" and k.endswith("3"))])
                x[k] = -x[k]
                return tr
    return None
