"""Dataset trees on disk and what the dataset classes return for them (C20 - C22)."""
import copy
import os
import shutil
import tempfile
import warnings

import cv2
import numpy as np
from torch.utils.data import DataLoader

from gs import torch
from geodrive import SC, fx, rot
from vlib import encr
from gradslam.datasets import datautils
from gradslam.datasets import scannet as sn
from gradslam.datasets.icl import ICL
from gradslam.datasets.scannet import Scannet
from gradslam.datasets.tum import TUM

H, W = 480, 640
POOL = None
POOLN = 40
EPOCH = 1305031102


def make_pool(d, n=POOLN):
    """The images of every frame number, as DatasetOps defines them."""
    global POOL
    v, u = np.mgrid[0:H, 0:W]
    for f in range(n):
        c = np.stack([(37 * f + 3 * u + 5 * v + 83 * c) % 256 for c in range(3)], -1).astype(np.uint8)
        p = [cv2.IMWRITE_PNG_COMPRESSION, 1]
        cv2.imwrite(os.path.join(d, "c%d.png" % f), c[..., ::-1], p)
        cv2.imwrite(os.path.join(d, "d%d.png" % f), ((977 * f + 7 * u + 13 * v) % 60000).astype(np.uint16), p)
        cv2.imwrite(os.path.join(d, "l%d.png" % f), ((f + u + 3 * v) % 41).astype(np.uint8), p)
    POOL = d


def link(kind, f, dst):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if not os.path.lexists(dst):
        os.symlink(os.path.join(POOL, "%s%d.png" % (kind, f)), dst)


def write(name, text):
    os.makedirs(os.path.dirname(name), exist_ok=True)
    with open(name, "w") as fh:
        fh.write(text)


def away(ps):
    """Where the camera starts: poses are given relative to the first, so this may not matter."""
    return (41.3371, -38.6213, 3.1417) if ps and sum(ps[0]["t"]) % 2 else (0., 0., 0.)


def rows(p, o):
    R = rot(p["q"])
    return [R[i] + [p["t"][i] + o[i]] for i in range(3)]


def sec(t):
    """Half microseconds after EPOCH."""
    us = t // 2
    return "%d.%06d" % (EPOCH + us // 10 ** 6, us % 10 ** 6)


def build_tum(d, seqs, head=True):
    for q in seqs:
        b = os.path.join(d, q["name"])
        os.makedirs(b, exist_ok=True)
        for kind, what, c in (("rgb", "rgb", "c"), ("depth", "depth", "d")):
            text = "# color images\n# file: 'x.bag'\n# timestamp filename\n" if head else ""
            for e in q[kind]:
                text += "%s %s/%s.png\n" % (sec(e["t"]), what, sec(e["t"]))
                link(c, e["f"], os.path.join(b, what, sec(e["t"]) + ".png"))
            write(os.path.join(b, kind + ".txt"), text)
        text = "# ground truth trajectory\n# timestamp tx ty tz qx qy qz qw\n" if head else ""
        o = away([e["p"] for e in q["gt"]])
        for e in q["gt"]:
            n = float(np.sqrt(sum(x * x for x in e["p"]["q"])))
            text += " ".join([sec(e["t"])] + ["%.4f" % (x + y) for x, y in zip(e["p"]["t"], o)] + ["%.9f" % (x / n) for x in e["p"]["q"]]) + "\n"
        write(os.path.join(b, "groundtruth.txt"), text)


def tum_seq(q):
    """What the judge is told."""
    st = lambda es: [dict(t=e["t"], s=sec(e["t"]), f=e["f"]) for e in es]
    return dict(name=q["name"], rgb=st(q["rgb"]), depth=st(q["depth"]), gt=[dict(t=e["t"], s=sec(e["t"]), p=e["p"]) for e in q["gt"]])


def build_icl(d, seqs, head=True):
    for q in seqs:
        b = os.path.join(d, q["name"])
        text = ""
        for k, f in enumerate(q["f"]):
            n = k + q["first"]
            # the associations name both images: they need not share a name
            c = "%d" % n if len(q["f"]) % 3 else "c%03d" % n
            text += "%d depth/%d.png %d rgb/%s.png\n" % (n, n, n, c)
            link("c", f, os.path.join(b, "rgb", c + ".png"))
            link("d", f, os.path.join(b, "depth", "%d.png" % n))
        write(os.path.join(b, "associations.txt"), text)
        text = ""
        for p in q["p"]:
            text += "".join(" ".join("%.7f" % x for x in r) + "\n" for r in rows(p, away(q["p"]))) + "\n"
        if q.get("cut"):
            # no blank line at the end, or an incomplete last pose
            text = "\n".join(text.split("\n")[:-1 - q["cut"]]) + "\n"
        write(os.path.join(b, "livingRoom%sn.gt.sim" % q["name"][16:].split("_")[0]), text)


def frame(f, p, stem):
    return dict(c=f, d=f, p=p, stem=stem, ts="")


ID = dict(q=[0, 0, 0, 1], t=[0, 0, 0])


def icl_seq(q):
    ps = list(q["p"]) + [ID] * len(q["f"])
    return dict(name=q["name"], drop=q["name"] == "living_room_traj0_frei_png", poses=len(q["p"]) - (1 if q.get("cut", 0) > 1 else 0),
                frames=[frame(f, ps[k], str(k + q["first"])) for k, f in enumerate(q["f"])])


def build_scannet(d, seqs, head=True):
    for q in seqs:
        scene = q["name"].split("-")[0]
        text = ""
        for k, (f, p) in enumerate(zip(q["f"], q["p"])):
            n = "%s_%d" % (q["name"][-1], k * q["step"])
            names = []
            for c, what in (("c", "color"), ("d", "depth"), (None, "pose"), ("l", "label-filt"), ("l", "label"), ("l", "instance-filt")):
                rel = os.path.join(scene, what, n + (".txt" if c is None else ".png"))
                names += [what, rel]
                if what in ("label", "instance-filt"):
                    continue
                if c is None:
                    write(os.path.join(d, "scans", rel), "".join(" ".join("%.7f" % x for x in r) + "\n" for r in rows(p, away(q["p"])) + [[0., 0, 0, 1]]))
                else:
                    link(c, f, os.path.join(d, "scans", rel))
            ki = os.path.join(scene, "intrinsic", "intrinsic_depth_%s.txt" % q["name"][-1])
            K = q["K"]
            for what, o in (("intrinsic_color", 7), ("intrinsic_depth", 0)):
                name = ki if what == "intrinsic_depth" else ki.replace("depth", "color")
                write(os.path.join(d, "scans", name), "%d 0 %d 0\n0 %d %d 0\n0 0 1 0\n0 0 0 1\n" % (K[0] + o, K[2] + o, K[1] + o, K[3] + o))
                names += [what, name]
            text += " ".join(names) + "\n"
        write(os.path.join(d, "meta", q["name"] + ".txt"), text)


def scannet_seq(q):
    return dict(name=q["name"], K=q["K"], frames=[frame(f, p, "") for f, p in zip(q["f"], q["p"])])


BUILD = {"tum": build_tum, "icl": build_icl, "scannet": build_scannet}
SEQ = {"tum": tum_seq, "icl": icl_seq, "scannet": scannet_seq}
OUT = {"tum": [("return_depth", "depth"), ("return_intrinsics", "intr"), ("return_pose", "pose"), ("return_transform", "trans"),
               ("return_names", "names"), ("return_timestamps", "stamps")]}
OUT["icl"] = OUT["tum"][:5]
OUT["scannet"] = OUT["icl"] + [("return_labels", "labels")]


def kwargs(c):
    kw = {}
    for k in ("seqlen", "dilation", "stride", "start", "end", "height", "width", "channels_first", "normalize_color", "seg_classes"):
        if k in c["kw"]:
            kw[k] = c["kw"][k]
    for k in c["off"]:
        kw[k] = False
    return kw


def make(c, d):
    kind = c["kind"]
    want = c["want"]
    if want is not None:
        names = [c["seqs"][k]["name"].split("-")[0] for k in want]
        names = list(dict.fromkeys(names))
        if c["wantfile"]:
            write(os.path.join(d, "want.list"), "\n".join(names) + ("\n" if c["wantfile"] == 2 else ""))
            want = os.path.join(d, "want.list")
        else:
            want = tuple(names)
    if kind == "scannet":
        return Scannet(os.path.join(d, "t", "scans"), os.path.join(d, "t", "meta"), want, **kwargs(c))
    return {"tum": TUM, "icl": ICL}[kind](os.path.join(d, "t"), want, **kwargs(c))


def get_items(c, ds):
    n = len(ds)
    via = c["via"]
    if via == "loader":
        res = []
        for b in DataLoader(ds, batch_size=1):
            res.append([x[0] for x in b])
        return res
    if via == "iter":
        return [x for x in ds]
    order = list(range(n))
    if via == "backwards":
        order.reverse()
    res = {}
    for k in order:
        res[k] = ds[k]
        if c["smash"]:
            # what the user does to an item stays in that item
            for x in res[k]:
                if torch.is_tensor(x):
                    x.fill_(7)
    if c["smash"]:
        res = dict((k, ds[k]) for k in order)
    return [res[k] for k in range(n)]


def obs(c, s, x):
    kind = c["kind"]
    o = dict(n=len(x))
    outs = ["color"] + [short for name, short in OUT[kind] if name not in c["off"]]
    for name, v in zip(outs, x):
        if name in ("names", "stamps"):
            if not isinstance(v, str):
                v = "?" + type(v).__name__
            if name == "stamps":
                o[name] = v.replace("\n", "|")
            elif kind == "scannet":
                o[name] = [[v, v]]
            else:
                o[name] = [[p.split("/")[0], p.split("/")[-1]] for p in v.split(", ")]
            continue
        if not (torch.is_tensor(v) and v.dtype == torch.float32):
            o[name] = dict(shape=[], v=[], m=[])
            continue
        sh = [int(k) for k in v.shape]
        if name in ("intr", "pose", "trans"):
            o[name] = dict(shape=sh, m=fx(v, 256 if name == "intr" else 4096))
            if name == "intr":
                o[name]["m"] = o[name]["m"][0] if len(sh) == 3 and sh[0] else []
            continue
        cf = s["cf"] and name != "labels"
        y = v.permute(0, 2, 3, 1) if cf and v.dim() == 4 else v
        val = []
        if y.dim() == 4 and y.shape[1] == s["h"] and y.shape[2] == s["w"]:
            scale = s["cs"] if name == "color" else 320000 if name == "depth" else 1
            g = torch.stack([y[:, p[1], p[0]] for p in s["pos"]], 1)
            val = fx(g if name == "color" else g[..., 0], scale)
        else:
            sh = []
        o[name] = dict(shape=sh, v=val)
    return o


def run_case(c):
    d = tempfile.mkdtemp(prefix="ds_")
    try:
        if c.get("op") == "refuse":
            return dict(steps=refuse(c, d))
        if c.get("op") == "helpers":
            return dict(steps=helpers(c))
        if c.get("op") == "labels":
            return dict(steps=labels(c))
        return dict(steps=data(c, d))
    finally:
        shutil.rmtree(d)


def data(c, d):
    kw, kind = c["kw"], c["kind"]
    os.makedirs(os.path.join(d, "t"))
    BUILD[kind](os.path.join(d, "t"), c["seqs"])
    for name in c.get("clutter", ()):
        os.makedirs(os.path.join(d, "t", name))
    if kind != "scannet":
        write(os.path.join(d, "t", "readme.md"), "hello\n")
    want = range(len(c["seqs"])) if c["want"] is None else c["want"]
    if kind == "scannet":
        names = [c["seqs"][k]["name"].split("-")[0] for k in want]
        want = [k for k, q in enumerate(c["seqs"]) if q["name"].split("-")[0] in names]
    off = c["off"]
    sw = dict((short, False) for _, short in OUT["tum"] + OUT["scannet"])
    for name, short in OUT[kind]:
        sw[short] = name not in off
    norm = bool(kw.get("normalize_color", False))
    neg = lambda v: -1 if v is None else v
    start = kw.get("start")
    s = dict(op="data", kind=kind, len=kw.get("seqlen", 4), dil=kw.get("dilation") or 0, stride=neg(kw.get("stride")),
             start=0 if start is None else start, end=neg(kw.get("end")), h=kw.get("height", H), w=kw.get("width", W),
             cf=bool(kw.get("channels_first", False)), norm=norm, cs=16320 if norm else 64, sw=sw, pos=c["pos"],
             seg=kw.get("seg_classes", "scannet20").lower(), seqs=[SEQ[kind](c["seqs"][k]) for k in want],
             opened=False, stop=False, fail="", count=-1, items=[])
    if kw.get("stride") == -1:
        s["stride"] = -2
    if kw.get("end") == -1 and kind != "scannet":
        s["end"] = -2
    if kind == "scannet":
        s["len"], s["stride"] = 1, 1
    try:
        ds = make(c, d)
        s["opened"] = True
        s["count"] = len(ds)
        s["items"] = [obs(c, s, x) for x in get_items(c, ds)]
    except Exception as e:
        s["fail"] = type(e).__name__ + " " + str(e).replace("\n", " ").replace(d, "")[:80]
        s["stop"] = s["opened"]
    return [s]


def refuse(c, d):
    """Things that have to be refused when the dataset is made."""
    steps = []
    base = os.path.join(d, "t")
    os.makedirs(base)
    kind = c["kind"]
    BUILD[kind](base, c["seqs"])

    def no(what, f):
        try:
            f()
            ok = True
        except Exception:
            ok = False
        steps.append(dict(op="refuse", kind=kind, what=what, ok=ok))
    C = {"tum": TUM, "icl": ICL}[kind]
    name = c["seqs"][0]["name"]
    for what, kw in (("seqlen 2.0", dict(seqlen=2.0)), ("negative seqlen", dict(seqlen=-1)), ("stride 1.5", dict(stride=1.5)),
                     ("negative stride", dict(seqlen=1, stride=-2)), ("dilation '1'", dict(dilation="1")), ("negative dilation", dict(seqlen=1, dilation=-1)),
                     ("start 0.0", dict(start=0.0)), ("negative start", dict(start=-1)), ("end before start", dict(start=2, end=1)),
                     ("empty range", dict(start=1, end=1)), ("end 3.0", dict(end=3.0))):
        no(what, lambda: C(base, **kw))
    for what, x in (("a list of sequences", [name]), ("no sequences", ()), ("an unknown sequence", (name[:-1] + "x_frei_png",)),
                    ("a missing and an existing sequence", (name, name.replace("1", "7"))), ("a missing list file", os.path.join(d, "none.txt"))):
        no(what, lambda: C(base, x))
    os.makedirs(os.path.join(d, "e"))
    no("a folder without sequences", lambda: C(os.path.join(d, "e")))
    for f in (("rgb.txt", "depth.txt", "groundtruth.txt") if kind == "tum" else ("associations.txt", "livingRoom1n.gt.sim")):
        b = os.path.join(d, "m" + f)
        shutil.copytree(base, b, symlinks=True)
        os.remove(os.path.join(b, name, f))
        no("missing " + f, lambda: C(b))
    return steps


def labels(c):
    steps = []
    for seg in ("nyu40", "scannet20"):
        a, b = sn.get_color_encoding(c.get("seg", {}).get(seg, seg)), sn.get_color_encoding("scannet20" if seg == "nyu40" else "nyu40")
        cols = [[int(x) for x in v] for v in a.values()]
        steps.append(dict(op="palette", seg=seg, fail="", names=list(a), colors=cols, onames=list(b), ocolors=[[int(x) for x in v] for v in b.values()]))
        for lab in c["labs"]:
            arr = np.array(lab, dtype=c["dtype"])
            s = dict(op="paint", fail="", lab=[int(x) for x in arr.reshape(-1)], colors=cols, lshape=list(arr.shape), shape=[], out=[])
            steps.append(s)
            try:
                o = datautils.create_label_image(arr, a if c["dict"] else list(a.values()))
                s["shape"] = list(o.shape)
                s["out"] = [[int(x) for x in p] for p in o.reshape(-1, 3)]
            except Exception as e:
                s["fail"] = type(e).__name__ + " " + str(e)[:80]
    for lab in c["labs"]:
        arr = np.array(lab, dtype=c["dtype"])
        s = dict(op="remap", fail="", lab=[int(x) for x in arr.reshape(-1)], lshape=list(arr.shape), shape=[], out=[])
        if max(s["lab"]) > 40:
            continue
        steps.append(s)
        try:
            o = sn.nyu40_to_scannet20(arr.copy())
            s["shape"] = list(o.shape)
            s["out"] = [int(x) for x in o.reshape(-1)]
        except Exception as e:
            s["fail"] = type(e).__name__ + " " + str(e)[:80]
    return steps


def ints(t, s):
    return [encr(v, s) for v in np.asarray(t, dtype=np.float64).reshape(-1)]


def helper_inputs(c):
    """name, function, argument, fields, encoding of the result."""
    r = np.random.RandomState(c["seed"])
    lead = tuple(c["lead"])
    form = (lambda a: torch.from_numpy(np.ascontiguousarray(a))) if c["torch"] else (lambda a: a)
    if c["what"] == "first":
        a = r.randint(0, 10 ** 6, lead + tuple(c["hwc"])).astype(c["dtype"])
        if c["lay"]:
            a = a[..., ::-1] if not c["torch"] else a
        return "first", datautils.channels_first, form(a), dict(v=ints(a, 1), shape=list(a.shape)), 1
    if c["what"] == "norm":
        a = r.randint(0, 256, lead + tuple(c["hwc"])).astype(c["dtype"])
        if a.dtype.kind == "f":
            a = a / 2
        a[..., 0] = 255
        return "norm", datautils.normalize_image, form(a), dict(v=ints(a, 2), shape=list(a.shape)), 510
    if c["what"] == "scale":
        n = c["n"]
        a = np.tile(np.eye(n), lead + (1, 1)).astype(c["dtype"])
        for y, x in ((0, 0), (1, 1), (0, 2), (1, 2), (0, 1)):
            a[..., y, x] = r.randint(1, 900, lead)
        f = lambda t: datautils.scale_intrinsics(t, c["rh"] / 16 if c["rh"] % 16 else c["rh"] // 16, c["rw"] / 16 if c["rw"] % 16 else c["rw"] // 16)
        return "scale", f, form(a), dict(v=ints(a, 1), shape=list(a.shape), n=n, rh=c["rh"], rw=c["rw"]), 16
    p = c["poses"]
    a = [matrix(x) for x in p]
    return "chain", datautils.poses_to_transforms, a if c["lay"] else np.stack(a), dict(p=p), SC


def matrix(p):
    x, y, z, w = p["q"]
    n = float(x * x + y * y + z * z + w * w)
    M = np.eye(4)
    M[:3, :3] = np.array([[w * w + x * x - y * y - z * z, 2 * (x * y - z * w), 2 * (x * z + y * w)],
                          [2 * (x * y + z * w), w * w - x * x + y * y - z * z, 2 * (y * z - x * w)],
                          [2 * (x * z - y * w), 2 * (y * z + x * w), w * w - x * x - y * y + z * z]]) / n
    M[:3, 3] = p["t"]
    return M


def helpers(c):
    op, f, a, fields, scale = helper_inputs(c)
    s = dict(op=op, fail="", mut=False, out=[], oshape=[], **fields)
    keep = copy.deepcopy(a)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o = f(a)
        if op == "chain":
            if isinstance(o, list) != bool(c["lay"]):
                s["fail"] = "list or array"
            s["out"] = [fx(m) for m in o]
        else:
            if torch.is_tensor(o) != c["torch"]:
                s["fail"] = "tensor or array"
            s["oshape"] = list(o.shape)
            s["out"] = ints(o, scale)
    except Exception as e:
        s["fail"] = type(e).__name__ + " " + str(e)[:80]
    s["mut"] = any((np.asarray(x) != np.asarray(y)).any() for x, y in zip(a, keep)) if op == "chain" else bool((np.asarray(a) != np.asarray(keep)).any())
    return [s]


# ------------------------------------------------------------------ inputs
def helper_case(rng):
    what = rng.choice(("first", "norm", "scale", "chain"))
    tor = rng.random() < .5
    lead = [rng.randint(1, 3) for _ in range(rng.choice((0, 0, 1, 2)))]
    dts = ("float32", "float64", "int64", "uint8") if what == "norm" else ("float32", "float64", "int64")
    c = dict(op="helpers", what=what, seed=rng.randrange(10 ** 6), torch=tor, lead=lead, lay=rng.random() < .5, dtype=rng.choice(dts),
             hwc=[rng.randint(1, 5), rng.randint(1, 5), rng.choice((1, 3, 3, 4))])
    if what == "scale":
        c.update(n=rng.choice((3, 4)), rh=rng.choice((16, 8, 32, 12, 4, 40, 1)), rw=rng.choice((16, 8, 32, 12, 4, 40, 1)))
    if what == "chain":
        c["poses"] = [rp(rng) for _ in range(rng.randint(1, 6))]
    return c


def rp(rng):
    while True:
        q = [rng.randint(-2, 2) for _ in range(4)]
        if any(q):
            break
    return dict(q=q, t=[rng.randint(-9, 9) for _ in range(3)])


TUMNAMES = ["rgbd_dataset_freiburg1_xyz", "rgbd_dataset_freiburg1_rpy", "rgbd_dataset_freiburg2_desk_with_person", "rgbd_dataset_freiburg3_a_b"]
ICLNAMES = ["living_room_traj%d_frei_png" % k for k in range(4)]


def competing(a, b, tol=40000):
    """Pairs within tolerance (or nearly) that share an entry and nearly tie, or that are nearly at the limit."""
    ps = [(abs(x - y), i, j) for i, x in enumerate(a) for j, y in enumerate(b) if abs(x - y) < tol + 8]
    if any(abs(p[0] - tol) < 8 for p in ps):
        return True
    return any(abs(p[0] - q[0]) < 8 and (p[1] == q[1] or p[2] == q[2]) for k, p in enumerate(ps) for q in ps[:k])


def tum_times(rng, n, easy):
    while True:
        rgb = [2 * (33333 * k + rng.randint(0, 6000)) + 200000 for k in range(n)]
        if easy:
            dep = [t + 2 * rng.randint(-6000, 6000) for t in rgb]
            gt = [t + 2 * rng.randint(-4000, 4000) for t in dep]
        else:
            dep = [2 * (33333 * k + rng.choice((0, 14000, 17000)) + rng.randint(0, 9000)) + 200000 for k in range(n + 1) if rng.random() < .85]
            p = rng.choice((10000, 20000, 33333))
            gt = [2 * (p * k + rng.randint(0, 2000)) + 180000 for k in range((n + 1) * 33333 // p + 2) if rng.random() < .9]
            if rng.random() < .3:
                lo = rng.randint(0, n) * 66666 + 200000
                gt = [t for t in gt if not lo <= t < lo + 200000]
        rgb, dep, gt = sorted(set(rgb)), sorted(set(dep)), sorted(set(gt))
        if not competing(rgb, dep) and not competing(dep, gt):
            return rgb, dep, gt


def tum(rng, name, n, easy=False, ids=None):
    rgb, dep, gt = tum_times(rng, n, easy)
    ids = ids or rng.sample(range(POOLN), len(rgb))
    q = dict(name=name, rgb=[dict(t=t, f=ids[k]) for k, t in enumerate(rgb)], depth=[dict(t=t, f=rng.randrange(POOLN)) for t in dep],
             gt=[dict(t=t, p=rp(rng)) for t in gt])
    if not easy and rng.random() < .15:
        rng.shuffle(q["rgb"])
        rng.shuffle(q["gt"])
    return q


def icl(rng, name, n, missing=0):
    q = dict(name=name, f=rng.sample(range(POOLN), n), first=rng.choice((0, 0, 1)), p=[rp(rng) for _ in range(max(0, n - missing))])
    if name == ICLNAMES[0] and not missing and n and rng.random() < .7:
        q["p"].pop()
    if q["p"] and missing and rng.random() < .3:
        q["cut"] = rng.choice((1, 2, 3))
        q["p"].append(rp(rng))
    elif q["p"] and rng.random() < .3:
        q["cut"] = 1
    return q


def scan(rng, name, n):
    K = [rng.choice((571, 577, 600)), rng.choice((571, 578, 590)), rng.choice((319, 320, 300)), rng.choice((239, 240, 250))]
    return dict(name=name, f=rng.sample(range(POOLN), n), p=[rp(rng) for _ in range(n)], K=K, step=rng.choice((1, 7)))


SIZES = [(480, 640), (480, 640), (240, 320), (120, 160), (96, 128), (60, 80), (48, 64), (30, 40), (24, 32), (160, 128), (240, 640), (480, 160), (96, 320),
         (360, 480), (960, 1280), (32, 48), (5, 4), (320, 320)]


def where(rng, h, w):
    ps = [[0, 0], [w - 1, h - 1], [w - 1, 0], [0, h - 1]]
    return rng.sample(ps, 2) + [[rng.randrange(w), rng.randrange(h)] for _ in range(3)]


def shown(rng, kind, c, fancy=True):
    """Size, layout, switches, ways of access."""
    kw = c["kw"]
    h, w = rng.choice(SIZES) if fancy else rng.choice(SIZES[2:])
    if (h, w) != (H, W) or rng.random() < .5:
        kw["height"], kw["width"] = h, w
    if rng.random() < .4:
        kw["channels_first"] = rng.random() < .7
    if rng.random() < .4:
        kw["normalize_color"] = rng.random() < .7
    if kind == "scannet" and rng.random() < .6:
        kw["seg_classes"] = rng.choice(("nyu40", "scannet20", "NYU40", "ScanNet20"))
    names = [n for n, _ in OUT[kind]]
    c["off"] = [] if rng.random() < .4 else [n for n in names if rng.random() < .35]
    c["pos"] = where(rng, h, w)
    c["via"] = rng.choice(("index", "index", "backwards", "iter", "loader"))
    c["smash"] = rng.random() < .3
    return c


def pick_range(rng, n):
    start = rng.choice((None, None, 0, 1, 2, n)) if rng.random() < .8 else rng.randint(0, n + 1)
    end = rng.choice((None, None, n, n - 1, n + 3))
    if end is not None and end <= (start or 0):
        end = None
    return start, end


def random_case(rng, kind, big=False):
    c = dict(kind=kind, kw={}, want=None, wantfile=0, seqs=[])
    kw = c["kw"]
    ns = rng.choice((1, 1, 2, 3))
    if kind == "scannet":
        for k in range(ns):
            scene = "scene%04d_%02d" % (rng.choice((0, 1, 11)), rng.choice((0, 1)))
            c["seqs"].append(scan(rng, scene + "-seq_%d" % k, rng.randint(1, 5)))
        m = min(len(q["f"]) for q in c["seqs"])
        r = rng.random()
        if r < .35:
            kw["start"] = rng.randint(0, m - 1)
        elif r < .75:
            kw["start"] = rng.randint(0, m - 1)
            kw["end"] = rng.randint(kw["start"] + 1, m)
        elif r < .85:
            # may run past the end
            kw["start"] = rng.randint(0, m)
            kw["end"] = kw["start"] + rng.randint(1, 3)
        c["seqs"].sort(key=lambda q: (q["name"].split("-")[0], int(q["name"][-1])))
        if rng.random() < .5:
            c["want"] = sorted(rng.sample(range(ns), rng.randint(1, ns)))
            c["wantfile"] = rng.choice((0, 0, 1, 2))
        return shown(rng, kind, c)
    names = rng.sample(TUMNAMES if kind == "tum" else ICLNAMES, ns)
    n = 0
    for name in names:
        n = rng.randint(2, 9)
        c["seqs"].append(tum(rng, name, n) if kind == "tum" else
                         icl(rng, name, n, 0 if rng.random() < .85 else rng.choice((1, 1, 2, n))))
    kw["seqlen"] = rng.choice((1, 1, 2, 2, 3, 4))
    if rng.random() < .5:
        kw["dilation"] = rng.choice((None, 0, 1, 2))
    if rng.random() < .6:
        kw["stride"] = rng.choice((None, 1, 2, 3, 5))
    start, end = pick_range(rng, n)
    if start is not None or rng.random() < .3:
        kw["start"] = start
    if end is not None or rng.random() < .3:
        kw["end"] = end
    if rng.random() < .4:
        c["want"] = sorted(rng.sample(range(ns), rng.randint(1, ns)))
        c["wantfile"] = rng.choice((0, 0, 1, 2))
    if kind == "icl" and rng.random() < .4:
        c["clutter"] = rng.sample(["living_room_traj2_loop", "office_room_traj0_frei_png", "x"], 2)
    return shown(rng, kind, c)


def window_case(rng, kind, case):
    """A behaviour of DatasetMech in a real dataset."""
    n = case["n"]
    c = dict(kind=kind, kw=dict(seqlen=case["len"], dilation=case["dil"], stride=None if case["stride"] < 0 else case["stride"]),
             want=None, wantfile=0, seqs=[])
    if rng.random() < .5:
        # the same frames as part of a longer sequence
        a, b = rng.randint(0, 2), rng.randint(0, 2)
        if n:
            c["kw"].update(start=a, end=a + n)
    else:
        a = b = 0
    name = rng.choice(TUMNAMES if kind == "tum" else ICLNAMES[1:])
    c["seqs"].append(tum(rng, name, n + a + b, True) if kind == "tum" else icl(rng, name, n + a + b))
    if not n and (a or b):
        c["kw"].update(start=a + b)
    shown(rng, kind, c, False)
    c["kw"].update(height=24, width=32)
    c["pos"] = where(rng, 24, 32)[1:4]
    return c


def switch_cases(rng, kind):
    """One tree, every output switched off on its own, and each kept on its own."""
    base = random_case(rng, kind)
    names = [n for n, _ in OUT[kind]]
    base["kw"].update(height=48, width=64)
    base["pos"] = where(rng, 48, 64)
    res = []
    for off in [[]] + [[n] for n in names] + [[m for m in names if m != n] for n in names] + [names]:
        c = dict(base, off=off, via=rng.choice(("index", "iter", "loader")))
        res.append(c)
    return res


def corrupt(t, rng):
    for s in t["steps"]:
        if s["op"] == "data" and s["opened"] and s["items"]:
            o = rng.choice(s["items"])
            ks = [k for k in ("color", "depth", "pose", "trans", "stamps", "names") if k in o]
            k = rng.choice(ks)
            if k == "color":
                o[k]["v"][0][0][rng.randrange(3)] += 200
            elif k == "depth":
                o[k]["v"][0][0] += 64
            elif k in ("pose", "trans"):
                o[k]["m"][0][rng.randrange(3)][rng.randrange(4)] += 20
            elif k == "names":
                o[k][0][1] += "x"
            else:
                o[k] += " "
            return t
        if s["op"] == "remap":
            s["out"][0] += 1
            return t
    return None
