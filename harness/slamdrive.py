"""Drivers for SLAM sessions (C12, C13)."""
import copy
import hashlib
import math
import random
import warnings

import fusiondrive as F
import geodrive as G
from gs import torch
from fusiondrive import fx
from gradslam.odometry.gradicp import GradICPOdometryProvider
from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
from gradslam.odometry.icp import ICPOdometryProvider
from gradslam.odometry import icputils as iu
from gradslam.slam import fusionutils as fu
from gradslam.slam.icpslam import ICPSLAM
from gradslam.slam.pointfusion import PointFusion
from gradslam.structures.pointclouds import Pointclouds
from gradslam.structures.rgbdimages import RGBDImages

PC_OBS = ("points_list", "normals_list", "colors_list", "features_list", "points_padded", "normals_padded",
          "colors_padded", "features_padded", "nonpad_mask", "num_points_per_pointcloud", "has_points", "has_normals",
          "has_colors", "has_features", "num_features", "device")
RGBD_OBS = ("rgb_image", "depth_image", "intrinsics", "poses", "vertex_map", "pixel_pos", "normal_map", "valid_depth_mask",
            "has_poses", "shape", "device")
RGBD_POSED = ("global_vertex_map", "global_normal_map")


def as_bytes(v):
    if torch.is_tensor(v):
        return (str(v.dtype) + str(tuple(v.shape))).encode() + v.detach().cpu().contiguous().numpy().tobytes()
    if isinstance(v, (list, tuple)):
        return b"[" + b"|".join(as_bytes(x) for x in v) + b"]"
    return repr(v).encode()


def digest(o):
    """Everything observable of a map, a frame sequence or a tensor."""
    h = hashlib.sha1()
    if torch.is_tensor(o):
        h.update(as_bytes(o))
        return h.hexdigest()
    c = copy.deepcopy(o)
    names = PC_OBS if isinstance(c, Pointclouds) else RGBD_OBS + (RGBD_POSED if c.poses is not None else ())
    for n in names:
        try:
            v = getattr(c, n)
        except Exception as e:
            v = type(e).__name__
        h.update(n.encode() + as_bytes(v))
    return h.hexdigest()


def touch(o, rng):
    """Computes some of the lazily computed quantities."""
    if rng.random() < .35:
        return
    if isinstance(o, Pointclouds):
        names = [n for n in PC_OBS if n.endswith("padded") or n == "nonpad_mask"]
    else:
        names = ["vertex_map", "normal_map", "valid_depth_mask"] + (list(RGBD_POSED) if o.poses is not None else [])
    for n in rng.sample(names, rng.randint(1, len(names))):
        try:
            getattr(o, n)
        except Exception:
            pass


class Trace(object):
    def __init__(self, prop):
        self.steps, self.ids, self.prop = [], {}, prop

    def dig(self, o):
        return self.ids.setdefault(digest(o), len(self.ids))

    def call(self, op, what, fun, objs, **given):
        """objs: (name, object, may change)."""
        s = dict(op=op, prop=self.prop, what=what, fail="", warned=False, **given)
        before = [self.dig(o) for _, o, _ in objs]
        out = None
        try:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                out = fun()
            s["warned"] = bool(w)
        except Exception as e:
            s["fail"] = type(e).__name__
        s["objs"] = [dict(name=n, before=b, after=self.dig(o), may=m) for (n, o, m), b in zip(objs, before)]
        self.steps.append(s)
        return s, out

    def refuse(self, what, fun):
        s = dict(op="refuse", prop=self.prop, what=what, fail="ok", objs=[])
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fun()
        except Exception as e:
            s["fail"] = type(e).__name__
        self.steps.append(s)


class Stub(object):
    """Scripted estimate; records what it is given."""

    def __init__(self):
        self.queue, self.calls = [], []

    def provide(self, maps, frames):
        self.calls.append(dict(map=F.obsmap(maps), frame=F.obsmap(frames)))
        return self.queue.pop(0).clone()


class Recorder(object):
    def __init__(self, inner):
        self.inner, self.calls, self.out = inner, [], []

    def provide(self, maps, frames):
        self.calls.append(dict(map=F.obsmap(maps), frame=F.obsmap(frames)))
        o = self.inner.provide(maps, frames)
        self.out.append(o.detach().clone())
        return o


def slam_of(c):
    kw = dict(odom=c["odom"], dsratio=c["ds"], numiters=c.get("n", 3), damp=c.get("damp", 1e-3))
    if c["sys"] == "icpslam":
        return ICPSLAM(**kw)
    return PointFusion(dist_th=c["dist"], angle_th=c["angle"], sigma=F.sig(c["S"]), **kw)


def build(f, posed):
    x = frame_of(f)
    if not posed:
        x = RGBDImages(x.rgb_image, x.depth_image, x.intrinsics, channels_first=x.channels_first)
    return x


def frame_of(f):
    if "dense" not in f:
        return F.frame(f)
    g = dict(f)
    g["d"] = [[[v / float(f["dense"]) for v in r] for r in e] for e in f["d"]]
    x = F.frame(g)
    return x


def with_pose(x, pose):
    y = copy.deepcopy(x)
    y.poses = pose.clone()
    return y


def mats(t, U):
    return [] if t is None else fx(t[:, 0], U)


def start_map(c):
    if c["m"] is None:
        return Pointclouds()
    return F.cloud(c["m"], drop=("features",) if c["sys"] == "icpslam" else ())


def motion(c, s):
    return None if c["script"] is None else G.stack(c["script"][s], torch.float32).unsqueeze(1)


def do_step(tr, c, slam, maps, o, frames, s, p, ip, rng):
    P, X, Q = maps[o], frames[s], None if p < 0 else frames[p]
    B, U = c["B"], c["U"]
    for v in maps + frames:
        touch(v, rng)
    pre, ppose = F.obsmap(P), None if Q is None or Q.poses is None else Q.poses.clone()
    if slam.odom == "gt":
        prov = None
    else:
        prov = Stub() if c["script"] is not None else Recorder(slam.odomprov.inner if isinstance(slam.odomprov, Recorder) else slam.odomprov)
        if c["script"] is not None:
            prov.queue = [motion(c, s)] * 3
        slam.odomprov = prov
    # the other mode, on copies
    cs = copy.deepcopy((P, X, Q if Q is not X else None))
    oP, oX, oQ = cs
    if Q is X:
        oQ = oX
    keep = copy.deepcopy((P, X, Q))
    what = ("PointFusion" if c["sys"] == "pf" else "ICPSLAM") + (" in place" if ip else "")
    objs = [("map %d" % n, v, ip and n == o) for n, v in enumerate(maps)] + [
        ("frame %d" % n, v, ip and n == s) for n, v in enumerate(frames)]
    st, out = tr.call("step", what, lambda: slam.step(P, X, Q, inplace=ip) if Q is not None or rng.random() < .5
                      else slam.step(P, X, inplace=ip), objs, sys=c["sys"], odom="gt" if c["odom"] == "gt" else "est",
                      hasprev=Q is not None, prev=mats(ppose, U), live=mats(keep[1].poses, U), B=B, U=U, ds=c["ds"], ip=ip,
                      T=[], pose=[], fpose=[], pre=pre, post=pre, other=pre, opose=[], rows=[], corr=[], same=False, calls=[],
                      fr=0, fr0=0)
    if out is None:
        return None
    try:
        M, pose = out
        if not torch.is_tensor(pose) or tuple(pose.shape) != (B, 1, 4, 4):
            raise TypeError("pose")
        st["pose"], st["fpose"] = mats(pose, U), mats(X.poses, U)
        st["same"] = M is P
        st["post"] = F.obsmap(M)
        if prov is not None:
            st["calls"] = prov.calls[:1] if len(prov.calls) == 1 else prov.calls
            st["T"] = mats(motion(c, s) if c["script"] is not None else (prov.out[0] if prov.out else None), U)
        quiet = warnings.catch_warnings()
        with quiet:
            warnings.simplefilter("ignore")
            f = c["frames"][s]
            y = with_pose(keep[1], pose)
            sg = F.sig(c["S"])
            st["fr"] = F.obsframe(f, y, sg)
            if Q is not None and slam.odom != "gt" and ppose is not None:
                y0 = with_pose(keep[1], ppose)
                st["fr0"] = F.obsframe(f, y0, sg)
                st["rows"] = F.rows_of(fu.find_active_map_points(keep[0], keep[2]))
            if c["sys"] == "pf":
                st["corr"] = F.rows_of(fu.find_correspondences(keep[0], y, c["dist"], math.cos(math.radians(c["angle"]))))
            if c["script"] is None and prov is not None:
                slam.odomprov = prov.inner
            M2, pose2 = slam.step(oP, oX, oQ, inplace=not ip)
            st["other"], st["opose"] = F.obsmap(M2), mats(pose2, U)
            if c["script"] is None and prov is not None:
                slam.odomprov = prov
    except Exception as e:
        st["fail"] = "result " + type(e).__name__
        return None
    return M, pose


def run_case(case):
    return {"steps": globals()["run_" + case["k"]](case)}


def run_hist(c):
    tr, rng = Trace(c["prop"]), random.Random(c["seed"])
    slam = slam_of(c)
    maps, frames = [start_map(c)], [build(f, c["posed"]) for f in c["frames"]]
    last = torch.eye(4).view(1, 1, 4, 4).repeat(c["B"], 1, 1, 1)
    for cmd in c["cmds"]:
        s = cmd["s"] - 1
        if cmd["k"] == "assign":
            frames[s].poses = last.clone()
            continue
        o = cmd["o"] - 1
        if o >= len(maps):
            break
        r = do_step(tr, c, slam, maps, o, frames, s, cmd["p"] - 1, cmd["ip"], rng)
        if r is not None:
            last = r[1].detach().clone()
            if not cmd["ip"]:
                maps.append(r[0])
        elif tr.steps[-1]["fail"] == "":
            break
    return tr.steps


def join(xs):
    poses = None if xs[0].poses is None else torch.cat([x.poses for x in xs], 1)
    return RGBDImages(torch.cat([x.rgb_image for x in xs], 1), torch.cat([x.depth_image for x in xs], 1), xs[0].intrinsics, poses,
                      channels_first=xs[0].channels_first)


def element(c, b):
    e = dict(c, B=1, frames=[dict((k, [v[b]] if k in ("d", "K", "poses", "rgb") else v) for k, v in f.items()) for f in c["frames"]])
    for f in e["frames"]:
        f["B"] = 1
    if c["script"] is not None:
        e["script"] = [[q[b]] for q in c["script"]]
    return e


def whole(c, slam):
    if slam.odom != "gt" and c["script"] is not None:
        slam.odomprov = Stub()
        slam.odomprov.queue = [motion(c, s) for s in range(1, len(c["frames"]))]
    return slam(join([build(f, c["posed"]) for f in c["frames"]]))


def run_forward(c):
    tr, rng = Trace(c["prop"]), random.Random(c["seed"])
    L, B, U = len(c["frames"]), c["B"], c["U"]
    slam = slam_of(c)
    xs = [build(f, c["posed"]) for f in c["frames"]]
    x = join(xs)
    touch(x, rng)
    prov = None
    if slam.odom != "gt":
        if c["script"] is not None:
            prov = Stub()
            prov.queue = [motion(c, s) for s in range(1, L)]
        else:
            prov = Recorder(slam.odomprov)
        slam.odomprov = prov
    z = F.obsmap(Pointclouds())
    st, out = tr.call("forward", ("PointFusion" if c["sys"] == "pf" else "ICPSLAM") + " run", lambda: slam(x),
                      [("the frames", x, False)], sys=c["sys"], odom="gt" if c["odom"] == "gt" else "est", B=B, U=U, L=L,
                      given=[mats(v.poses, U) for v in xs] if c["posed"] else [], p=[], T=[], post=z, stepped=z, sp=[], solo=[])
    if out is None:
        return tr.steps
    try:
        M, P = out
        if tuple(P.shape) != (B, L, 4, 4):
            raise TypeError("poses")
        st["p"] = [mats(P[:, k:k + 1], U) for k in range(L)]
        st["post"] = F.obsmap(M)
        eye = torch.eye(4).view(1, 1, 4, 4).repeat(B, 1, 1, 1)
        if prov is not None:
            st["T"] = [mats(eye, U)] + [mats(motion(c, s) if c["script"] is not None else prov.out[s - 1], U) for s in range(1, L)]
            if c["script"] is not None and prov.queue:
                st["fail"] = "motion estimated %d times" % (L - 1 - len(prov.queue))
        # the same frames stepped one by one
        slam2 = slam_of(c)
        if slam2.odom != "gt" and c["script"] is not None:
            slam2.odomprov = Stub()
            slam2.odomprov.queue = [motion(c, s) for s in range(1, L)]
        m, prev, ip = Pointclouds(), None, c["ip"]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for k in range(L):
                live = join([build(f, c["posed"]) for f in c["frames"]])[:, k]
                if k == 0 and live.poses is None:
                    live.poses = eye
                m, pose = slam2.step(m, live, prev, inplace=ip[k])
                live.poses = pose
                st["sp"].append(mats(pose, U))
                prev = None if slam2.odom == "gt" else live
            st["stepped"] = F.obsmap(m)
            if c["solo"]:
                for b in range(B):
                    e = element(c, b)
                    sm, sp = whole(e, slam_of(e))
                    st["solo"].append(dict(map=F.obsmap(sm), p=[mats(sp[:, k:k + 1], U) for k in range(L)]))
    except Exception as e:
        st["fail"] = "result " + type(e).__name__
    return tr.steps


def run_calls(c):
    """Single functions on maps and frames in every cached state (C12)."""
    tr, rng = Trace("C12"), random.Random(c["seed"])
    f, m = c["f"], c["m"]
    x = F.frame(f)
    p = Pointclouds() if m is None else F.cloud(m)
    th, sg = c["th"], F.sig(c["S"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rows = fu.find_correspondences(copy.deepcopy(p), copy.deepcopy(x), th["dist"], th["dot"])
    z = F.obsmap(Pointclouds())
    prov = ICPOdometryProvider(2, 1.0)
    gprov = GradICPOdometryProvider(2, 1.0)
    gt = GroundTruthOdometryProvider()
    x2 = F.frame(c["f2"])
    many = join([copy.deepcopy(x), x2]) if c["join"] else x2
    objs = [("the map", p), ("the frame", x), ("the other frame", x2), ("the sequence", many), ("the lookup table", rows)]
    todo = {
        "update_map_fusion": (lambda P, X: fu.update_map_fusion(P, X, th["dist"], th["dot"], sg), lambda P, X: fu.update_map_fusion(P, X, th["dist"], th["dot"], sg, True)),
        "fuse_with_map": (lambda P, X: fu.fuse_with_map(P, X, rows, sg), lambda P, X: fu.fuse_with_map(P, X, rows, sg, True)),
        "update_map_aggregate": (lambda P, X: fu.update_map_aggregate(P, X), lambda P, X: fu.update_map_aggregate(P, X, True)),
        "find_active_map_points": (lambda P, X: fu.find_active_map_points(P, X), None),
        "find_correspondences": (lambda P, X: fu.find_correspondences(P, X, th["dist"], th["dot"]), None),
        "find_best_unique_correspondences": (lambda P, X: fu.find_best_unique_correspondences(P, X, rows), None),
        "find_similar_map_points": (lambda P, X: fu.find_similar_map_points(P, X, rows, th["dist"], th["dot"]), None),
        "downsample_rgbdimages": (lambda P, X: iu.downsample_rgbdimages(X, 2), None),
        "downsample_pointclouds": (lambda P, X: iu.downsample_pointclouds(P, rows, 2), None),
        "GroundTruthOdometryProvider": (lambda P, X: gt.provide(X, x2), None),
        "ICPOdometryProvider": (lambda P, X: prov.provide(P, P), None),
        "GradICPOdometryProvider": (lambda P, X: gprov.provide(P, P), None),
        "ICPSLAM gt run": (lambda P, X: ICPSLAM(odom="gt")(many), None),
        "PointFusion gt run": (lambda P, X: PointFusion(odom="gt")(many), None),
    }
    empty = m is None
    for _ in range(c["n"]):
        name = rng.choice(sorted(todo))
        if empty and name in ("downsample_pointclouds", "find_similar_map_points", "find_best_unique_correspondences", "ICPOdometryProvider",
                              "GradICPOdometryProvider", "fuse_with_map"):
            continue
        if "ICPOdom" in name and min(len(v) for v in m["pts"]) < 2:
            continue
        f1, f2 = todo[name]
        for _, o in objs:
            if not torch.is_tensor(o):
                touch(o, rng)
        P2, X2 = copy.deepcopy((p, x))
        if name == "update_map_aggregate" and not empty:
            q = F.cloud(m, drop=("features",))
            touch(q, rng)
            P2 = copy.deepcopy(q)
        else:
            q = p
        st, out = tr.call("call", name, lambda: f1(q, x), [(n, o, False) for n, o in objs] + [("the map", q, False)], a=z, b=z)
        if out is not None and f2 is not None:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    st["a"], st["b"] = F.obsmap(out), F.obsmap(f2(P2, X2))
                except Exception as e:
                    st["fail"] = "in place " + type(e).__name__
    return tr.steps


def run_bad(c):
    tr = Trace("C13")
    r = tr.refuse
    f = c["f"]
    x = F.frame(f)
    nop = build(f, False)
    p = Pointclouds()
    for cls in (ICPSLAM, PointFusion):
        n = cls.__name__
        r(n + ": odometry name", lambda: cls(odom="foo"))
        for od in ("gt", "icp", "gradicp"):
            s = cls(odom=od)
            r("%s %s: frames type" % (n, od), lambda: s("frames"))
            r("%s %s: map type" % (n, od), lambda: s.step("map", x))
            r("%s %s: live frame type" % (n, od), lambda: s.step(p, "frame"))
            r("%s %s: live frame missing" % (n, od), lambda: s.step(p, None))
            r("%s %s: previous frame type" % (n, od), lambda: s.step(p, x, "frame"))
            r("%s %s: no pose" % (n, od), lambda: s.step(p, nop))
            r("%s %s: no pose in place" % (n, od), lambda: s.step(p, nop, None, True))
        r(n + " gt: live pose missing", lambda: cls(odom="gt").step(p, nop, x))
        r(n + " gt: run without poses", lambda: cls(odom="gt")(join([nop, nop])))
        r(n + " icp: previous pose missing", lambda: cls(odom="icp").step(p, x, nop))
        r(n + " gradicp: previous pose missing", lambda: cls(odom="gradicp").step(p, x, nop))
    r("PointFusion: distance threshold type", lambda: PointFusion(dist_th="1"))
    r("PointFusion: angle threshold type", lambda: PointFusion(angle_th="1"))
    return tr.steps


# -------------------------------------------------------------- generation
SMALL = [1, 0, 0, 0]


def sequence(rng, L, B, const=None):
    """Frames of one size and camera; views that mostly overlap."""
    f0 = F.exact_frame(rng, B, const=rng.random() < .7 if const is None else const, cf=rng.random() < .4, tmax=10,
                       size=(rng.randint(2, 4), rng.randint(2, 4)))
    fs = []
    for _ in range(L):
        f = copy.deepcopy(f0)
        for b in range(B):
            if rng.random() < .6:
                for h in range(f["H"]):
                    for w in range(f["W"]):
                        if rng.random() < .3:
                            f["d"][b][h][w] = rng.choice((0, 64, 128))
            f["poses"][b] = dict(q=f0["poses"][b]["q"] if rng.random() < .6 else list(rng.choice(F.CUBE)),
                                 t=[v + rng.randint(-2, 2) for v in f0["poses"][b]["t"]])
        f["rgb"] = [F.rgbs(rng, f["H"], f["W"]) for _ in range(B)]
        fs.append(f)
    return fs


def script_of(rng, L, B):
    return [[dict(q=SMALL if rng.random() < .6 else list(rng.choice(F.CUBE)), t=[rng.randint(-2, 2) for _ in range(3)])
             for _ in range(B)] for _ in range(L)]


def common(rng, prop, odom, posed, L):
    B = rng.choice((1, 2, 2, 3))
    return dict(prop=prop, B=B, U=64, sys=rng.choice(("icpslam", "pf")), odom="gt" if odom == "gt" else rng.choice(("icp", "gradicp")),
                posed=posed, frames=sequence(rng, L, B), script=script_of(rng, L, B), ds=rng.choice((1, 2, 2, 3)), m=None,
                dist=rng.choice((1, 2, 4, 4.5)), angle=rng.choice((30, 60, 75.5)), S=rng.choice(F.S_VALUES), seed=rng.randrange(10 ** 9))


def hist_case(rng, prop, cmds, odom, posed, L):
    c = dict(common(rng, prop, odom, posed, L), k="hist", cmds=cmds)
    if rng.random() < .3:
        c["m"] = F.exact_map(rng, dict(c["frames"][0], const=False), 4, cnt=6)
    elif prop == "C13" and rng.random() < .4:
        # map normals 37 and 53 degrees off the surface: the angle limit decides
        tilted(c, rng)
    return c


def tilted(c, rng):
    c.update(sys="pf", angle=rng.choice((30, 45, 60, 75.5)), dist=4.5)
    f = c["frames"][0]
    z = F.exact_frame(rng, c["B"], const=True, cf=f["cf"], tmax=10, size=(f["H"], f["W"]))
    for g in c["frames"]:
        g["K"], g["d"] = z["K"], z["d"]
        g["poses"] = [dict(q=p["q"], t=[v + rng.randint(-1, 1) for v in p["t"]]) for p in z["poses"]]
    while True:
        c["m"] = F.exact_map(rng, dict(c["frames"][0], const=True), 4, cnt=6)
        if c["m"]["nd"] == 5:
            return


def random_cmds(rng, L, n):
    cmds, maps = [dict(k="step", o=1, s=rng.randint(1, L), p=0, ip=rng.random() < .5)], 1
    maps += 0 if cmds[0]["ip"] else 1
    for _ in range(n):
        if rng.random() < .2:
            cmds.append(dict(k="assign", s=rng.randint(1, L)))
            continue
        ip = rng.random() < .5
        cmds.append(dict(k="step", o=rng.randint(1, maps), s=rng.randint(1, L), p=rng.randint(0, L), ip=ip))
        maps += 0 if ip else 1
    return cmds


def forward_case(rng, prop):
    L = rng.choice((1, 2, 3, 4, 4, 6))
    odom = rng.choice(("gt", "est", "est"))
    c = dict(common(rng, prop, odom, rng.random() < (.9 if odom == "gt" else .6), L), k="forward",
             ip=[rng.random() < .5 for _ in range(L)], solo=rng.random() < .6)
    return c


def real_case(rng, prop, kind):
    """The real providers on smooth surfaces."""
    B, L = rng.choice((1, 2)), rng.randint(2, 3)
    H, W = rng.randint(5, 7), rng.randint(5, 7)
    K = [[8, 8, W - 1, H - 1] for _ in range(B)]
    fs = []
    co = [[rng.uniform(-.03, .03) for _ in range(5)] for _ in range(B)]
    for s in range(L):
        d = []
        for b in range(B):
            a = co[b]
            d.append([[int(1000 * (2 + a[0] * (h - 3) ** 2 + a[1] * (w - 3) ** 2 + a[2] * (h - 3) * (w - 3) + a[3] * (h - 3) * 2 +
                                   .01 * s * (w - 3) + rng.uniform(-.01, .01))) if rng.random() < .95 else 0
                       for w in range(W)] for h in range(H)])
        fs.append(dict(B=B, H=H, W=W, K=K, d=d, dense=1000, cf=False, rgb=[F.rgbs(rng, H, W) for _ in range(B)],
                       poses=[dict(q=list(rng.choice(F.CUBE)), t=[rng.randint(-1, 1) for _ in range(3)]) for _ in range(B)]))
    cf = rng.random() < .4
    for f in fs:
        f["cf"] = cf
    c = dict(prop=prop, k=kind, B=B, U=1024, sys=rng.choice(("icpslam", "pf")), odom=rng.choice(("icp", "gradicp")),
             posed=rng.random() < .6, frames=fs, script=None, ds=rng.choice((1, 2)), m=None, dist=.1, angle=45, S=4096,
             seed=rng.randrange(10 ** 9), n=rng.randint(1, 3), damp=rng.choice((1e-2, .1, 1.0)),
             ip=[rng.random() < .5 for _ in range(L)], solo=False)
    if kind == "hist":
        cmds = [dict(k="assign", s=1)] if not c["posed"] else []
        o, n = 1, 1
        for s in range(1, L + 1):
            ip = rng.random() < .5
            cmds.append(dict(k="step", o=o, s=s, p=s - 1, ip=ip))
            if not ip:
                n += 1
                o = n
            cmds.append(dict(k="assign", s=s))
        c["cmds"] = cmds
    return c


def calls_case(rng):
    B = rng.choice((1, 2, 2, 3))
    fs = sequence(rng, 2, B)
    th = dict(dist=rng.choice((2, 4, 5, 8)), dot=rng.choice((0, .5)))
    m = None if rng.random() < .1 else F.exact_map(rng, dict(fs[0], const=False), 4, cnt=8, ccmax=5)
    return dict(k="calls", f=fs[0], f2=fs[1], m=m, th=th, S=rng.choice(F.S_VALUES), n=8, join=rng.random() < .6, seed=rng.randrange(10 ** 9))


def corrupt(trace, rng):
    """Disturb one observation."""
    steps = [s for s in trace["steps"] if s["op"] in ("step", "forward", "call") and not s.get("fail")]
    rng.shuffle(steps)
    for s in steps:
        if s["prop"] == "C12":
            os = [o for o in s["objs"] if not o["may"]]
            if os:
                rng.choice(os)["after"] += 1
                return trace
        elif s["op"] == "step":
            s["pose"][0][rng.randrange(3)][rng.randrange(4)] += 3 * s["U"]
            return trace
        elif s["op"] == "forward":
            s["p"][-1][0][rng.randrange(3)][3] += 3 * s["U"]
            return trace
    return None
