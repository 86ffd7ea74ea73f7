PLANTS = []


def P(id, property, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


TU = "datasets/tumutils.py"
T = "datasets/tum.py"
I = "datasets/icl.py"
S = "datasets/scannet.py"
D = "datasets/datautils.py"

TREE = '''
import os
import shutil
import tempfile

import cv2
import numpy as np

ROOT = tempfile.mkdtemp(prefix="plantdemo_")
import atexit

atexit.register(shutil.rmtree, ROOT, True)


def img(path, value, depth=False, h=48, w=64):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if depth:
        cv2.imwrite(path, np.full((h, w), value, np.uint16))
    else:
        cv2.imwrite(path, np.full((h, w, 3), value, np.uint8))


def text(path, s):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(s)


def icl(name, n):
    b = os.path.join(ROOT, name)
    a, p = "", ""
    for k in range(n):
        img(os.path.join(b, "rgb", "%d.png" % k), 10 + k)
        img(os.path.join(b, "depth", "%d.png" % k), 5000 + 100 * k, True)
        a += "%d depth/%d.png %d rgb/%d.png\\n" % (k, k, k, k)
        p += "1 0 0 %d\\n0 1 0 0\\n0 0 1 0\\n\\n" % (k * k)
    text(os.path.join(b, "associations.txt"), a)
    text(os.path.join(b, "livingRoom%sn.gt.sim" % name[16], ), p)


def tum(name, rgb, depth, gt):
    b = os.path.join(ROOT, name)
    a, d, g = "# c\\n", "# d\\n", "# g\\n"
    for k, t in enumerate(rgb):
        img(os.path.join(b, "rgb", "%.4f.png" % t), 10 + k)
        a += "%.4f rgb/%.4f.png\\n" % (t, t)
    for k, t in enumerate(depth):
        img(os.path.join(b, "depth", "%.4f.png" % t), 5000 + 100 * k, True)
        d += "%.4f depth/%.4f.png\\n" % (t, t)
    for k, t in enumerate(gt):
        g += "%.4f %d 0 0 0 0 0 1\\n" % (t, k * k)
    text(os.path.join(b, "rgb.txt"), a)
    text(os.path.join(b, "depth.txt"), d)
    text(os.path.join(b, "groundtruth.txt"), g)


def scannet(name, n, fx=577):
    scene = name.split("-")[0]
    b = os.path.join(ROOT, "scans", scene)
    m = ""
    for k in range(n):
        img(os.path.join(b, "color", name + "%d.png" % k), 10 + k)
        img(os.path.join(b, "depth", name + "%d.png" % k), 1000 + 100 * k, True)
        lab = np.zeros((48, 64), np.uint8) + np.arange(64, dtype=np.uint8) % 41
        os.makedirs(os.path.join(b, "label-filt"), exist_ok=True)
        cv2.imwrite(os.path.join(b, "label-filt", name + "%d.png" % k), lab)
        text(os.path.join(b, "pose", name + "%d.txt" % k), "1 0 0 %d\\n0 1 0 0\\n0 0 1 0\\n0 0 0 1\\n" % (k * k))
        f = []
        for what, ext in (("color", "png"), ("depth", "png"), ("pose", "txt"), ("label-filt", "png"), ("label", "png"), ("instance", "png")):
            f += [what, "%s/%s/%s%d.%s" % (scene, what, name, k, ext)]
        for what in ("intrinsic_color", "intrinsic_depth"):
            f += [what, "%s/%s%s.txt" % (scene, what, name)]
        m += " ".join(f) + "\\n"
    for what, v in (("intrinsic_color", 1100), ("intrinsic_depth", fx)):
        text(os.path.join(ROOT, "scans", scene, "%s%s.txt" % (what, name)), "%d 0 320 0\\n0 %d 240 0\\n0 0 1 0\\n0 0 0 1\\n" % (v, v))
    text(os.path.join(ROOT, "meta", name + ".txt"), m)


def colour(x):
    return [int(round(float(v[5, 5, 0]))) for v in x[0]]
'''

P("assoc-nearest-in-order", "C19",
  [(TU, "    for diff, a, b in potential_matches:\n        if a in first_keys and b in second_keys:\n",
    "    for diff, a, b in potential_matches:\n        if a in first_keys and b in second_keys and diff <= max_difference / 2:\n            first_keys.remove(a)\n            second_keys.remove(b)\n            matches.append((a, b))\n\n    potential_matches.sort(key=lambda m: (float(m[1]), m[0]))\n    for diff, a, b in potential_matches:\n        if a in first_keys and b in second_keys:\n")],
  "two entries competing for one partner, both farther than half the tolerance, the earlier one being the worse match",
  "of two entries competing for a distant partner the earlier one wins instead of the closer one",
  """
from gradslam.datasets.tumutils import associate
r = associate({"1.000": 0, "1.030": 0}, {"1.016": 0}, 0.0, 0.02)
check(r == [("1.030", "1.016")], r)
""")

P("assoc-rank-offset", "C19",
  [(TU, "        (abs(float(a) - (float(b) + offset)), a, b)\n", "        (abs(round(float(a) - float(b), 6) - offset) if offset < 0 else abs(float(a) - float(b)), a, b)\n")],
  "a positive offset and entries competing for a partner",
  "with a positive offset, competing pairs are ranked by the difference without the offset",
  """
from gradslam.datasets.tumutils import associate
r = associate({"1.00": 0, "1.10": 0}, {"1.00": 0}, 0.1, 0.15)
check(r == [("1.10", "1.00")], r)
""")

P("assoc-csv-zero", "C19",
  [(TU, "        if l[4:8] == [0, 0, 0, 0]:\n            continue\n", "        if not any(l[4:8]) or not any(l[4:7]) and l[7] < 0:\n            continue\n")],
  "a trajectory line whose quaternion is the identity written with the opposite sign",
  "trajectory lines with quaternion (0, 0, 0, -1) are dropped like zero quaternions",
  """
import os
import tempfile
from gradslam.datasets.tumutils import read_trajectory
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "t.txt")
    open(f, "w").write("1.0 1 2 3 0 0 0 -1\\n2.0 1 2 3 0 0 0 1\\n")
    check(sorted(read_trajectory(f)) == ["1.0", "2.0"], "a pose is missing")
""")

P("tum-dilated-stamps", "C20",
  [(T, "                timestamps.append([seq_timestamps[i] for i in inds])\n", "                timestamps.append(seq_timestamps[start_ind : start_ind + seqlen])\n")],
  "a dilation of at least 1 and more than one frame per item",
  "the time stamps of dilated items are those of consecutive frames",
  TREE + """
from gradslam.datasets.tum import TUM
ts = [1.0 + 0.1 * k for k in range(6)]
tum("rgbd_dataset_freiburg1_x", ts, ts, ts)
x = TUM(ROOT, seqlen=2, dilation=2, height=48, width=64)[0]
check(colour(x) == [10, 13], colour(x))
check([l.split()[1] for l in x[-1].split("\\n")] == ["1.0000", "1.3000"], x[-1])
""")

P("tum-pose-by-rgb", "C20",
  [(T, "            matches_dict = {match[1]: match[0] for match in matches}\n            matches = tumutils.associate(\n                matches_dict, poses_dict, 0, float(max_difference)\n            )\n",
    "            matches_dict = {match[1]: match[0] for match in matches}\n            nearest = dict(\n                tumutils.associate(\n                    {match[0]: None for match in matches},\n                    poses_dict,\n                    0,\n                    float(max_difference),\n                )\n            )\n            matches = [\n                (match[1], nearest[match[0]])\n                for match in matches\n                if match[0] in nearest\n            ]\n")],
  "colour and depth of a frame taken at different times, with a pose nearer to the one and another nearer to the other",
  "poses are associated with the colour image's time instead of the depth image's",
  TREE + """
from gradslam.datasets.tum import TUM
rgb = [1.0 + 0.1 * k for k in range(3)]
dep = [t + 0.018 for t in rgb]
gt = sorted(rgb + dep)
tum("rgbd_dataset_freiburg1_x", rgb, dep, gt)
x = TUM(ROOT, seqlen=1, height=48, width=64)
check([i[-1].split()[-1] for i in x] == ["%.4f" % t for t in dep], [i[-1] for i in x])
""")

P("icl-traj0-range", "C20",
  [(I, "                if trajectory_name == \"living_room_traj0_frei_png\":\n                    lines = lines[:-1]\n                lines = lines[start:end]\n",
    "                lines = lines[start:end]\n                if trajectory_name == \"living_room_traj0_frei_png\":\n                    lines = lines[:-1]\n")],
  "living_room_traj0 with an end frame before the end of the trajectory",
  "ranges of trajectory 0 lose their last frame although its pose exists",
  TREE + """
from gradslam.datasets.icl import ICL
icl("living_room_traj0_frei_png", 6)
x = ICL(ROOT, seqlen=1, end=3, height=48, width=64)
check([colour(i)[0] for i in x] == [10, 11, 12], [colour(i) for i in x])
x = ICL(ROOT, seqlen=1, height=48, width=64)
check(len(x) == 5, len(x))
""")

P("icl-end-sticks", "C20",
  [(I, "                if self.end is None:\n                    end = len(lines)\n", "                if end is None:\n                    end = len(lines)\n")],
  "several trajectories of different length and no end frame, a shorter one read first",
  "trajectories are cut to the length of the first one read",
  TREE + """
from gradslam.datasets.icl import ICL
for k, n in ((0, 4), (1, 2), (2, 7), (3, 5)):
    icl("living_room_traj%d_frei_png" % k, n)
x = ICL(ROOT, seqlen=1, height=48, width=64)
check(len(x) == 3 + 2 + 7 + 5, len(x))
""")

P("tum-first-window", "C20",
  [(T, "                if (start_ind + idx[-1]) >= num_frames:\n                    break\n", "                if (start_ind + idx[-1]) >= num_frames - (1 if start_ind and dilation else 0):\n                    break\n")],
  "a dilation and a last window that ends exactly at the last frame",
  "the last window of a dilated sequence is lost when it ends at the last frame",
  TREE + """
from gradslam.datasets.tum import TUM
ts = [1.0 + 0.1 * k for k in range(6)]
tum("rgbd_dataset_freiburg1_x", ts, ts, ts)
x = TUM(ROOT, seqlen=2, dilation=1, stride=1, height=48, width=64)
check([colour(i) for i in x] == [[10 + k, 12 + k] for k in range(4)], [colour(i) for i in x])
""")

P("scannet-remap-order", "C21",
  [(S, "        (0, 0),\n        (13, 0),\n", "        (0, 0),\n        (14, 13),\n        (13, 0),\n"),
   (S, "        (40, 0),\n        (14, 13),\n", "        (40, 0),\n")],
  "label images with desks (class 14)",
  "desks are first renumbered to 13 and then, like blinds, to unlabeled",
  """
import numpy as np
from gradslam.datasets.scannet import nyu40_to_scannet20
check(nyu40_to_scannet20(np.array([[13, 14, 16]], np.uint8)).tolist() == [[0, 13, 14]], "wrong classes")
""")

P("scannet-intrinsics-last", "C21",
  [(S, "            intrinsicsfiles.append(seq_intrinsicsfiles[0])\n", "            intrinsicsfiles.append(seq_intrinsicsfiles[0])\n            intrinsicsfiles = [\n                seq_intrinsicsfiles[0] if n.split(\"-\")[0] == scene_name else f\n                for n, f in zip(seqnames + [scene_name], intrinsicsfiles)\n            ]\n")],
  "two sequences of one scene with different intrinsics",
  "all sequences of a scene get the intrinsics of the scene's last sequence",
  TREE + """
from gradslam.datasets.scannet import Scannet
scannet("scene0000_00-seq_0", 2, 577)
scannet("scene0000_00-seq_1", 2, 600)
ds = Scannet(ROOT + "/scans", ROOT + "/meta", None)
check(sorted(float(x[2][0, 0, 0]) for x in ds) == [577.0, 600.0], "intrinsics of another sequence")
""")

P("scannet-label-color", "C21",
  [(D, "        label_image[prediction == idx] = color\n", "        label_image[prediction % 256 == idx % 32] = color if idx < 32 else label_image[prediction % 256 == idx % 32]\n        label_image[prediction == idx] = color\n")],
  "a class above the palette in the image, or two classes 32 apart of which the higher is absent",
  "pixels of classes outside the palette are coloured like a class of the palette",
  """
import numpy as np
from gradslam.datasets.datautils import create_label_image
o = create_label_image(np.array([[0, 1, 257]]), [(1, 1, 1), (2, 2, 2)])
check(o.tolist() == [[[1, 1, 1], [2, 2, 2], [0, 0, 0]]], o.tolist())
""")

P("ds-principal-point", "C22",
  [(D, "    scaled_intrinsics[..., 0, 2] *= w_ratio  # cx\n", "    scaled_intrinsics[..., 0, 2] *= max(w_ratio, h_ratio)  # cx\n")],
  "an image scaled more in width than in height",
  "the principal point is scaled by the wrong ratio when the aspect ratio changes",
  """
from gradslam.datasets.datautils import scale_intrinsics
k = scale_intrinsics(camera(100, 100, 32, 24), 1.0, 0.5)
check(float(k[0, 2]) == 16.0, k)
""")

P("ds-transforms-frozen", "C22",
  [(D, "            transformations[i] = np.linalg.inv(poses[i - 1]).dot(poses[i])\n",
    "            previous = poses[i - 1] if np.linalg.det(poses[i - 1]) > 0.5 else poses[0]\n            transformations[i] = (\n                np.linalg.inv(previous).dot(poses[i])\n                if i < 3\n                else poses[i].dot(np.linalg.inv(previous))\n            )\n")],
  "items of at least four frames with rotations",
  "from the fourth frame on, transforms are expressed in the world frame instead of the previous frame's",
  """
import numpy as np
from gradslam.datasets.datautils import poses_to_transforms
ps = [pose(k % 3, 30 * k, [k, 1.0, -k]).numpy().astype(float) for k in range(5)]
ts = poses_to_transforms(ps)
acc = ps[0]
for k in range(1, 5):
    acc = acc.dot(ts[k])
    check(np.abs(acc - ps[k]).max() < 1e-4, "frame %d" % k)
""")

P("ds-transform-switch", "C22",
  [(I, "        if self.return_pose:\n            pose_seq = torch.stack(pose_seq, 0).float()\n            pose_seq = self._preprocess_poses(pose_seq)\n            output.append(pose_seq)\n",
    "        if self.return_pose:\n            pose_seq = torch.stack(pose_seq, 0).float()\n            pose_seq = self._preprocess_poses(pose_seq)\n            output.append(pose_seq)\n        elif len(poses) if self.load_poses else False:\n            poses = [np.linalg.inv(poses[-1]).dot(p) for p in poses[::-1]]\n")],
  "ICL with transforms but without poses",
  "switching the poses off reverses the transforms",
  TREE + """
from gradslam.datasets.icl import ICL
icl("living_room_traj1_frei_png", 4)
a = ICL(ROOT, seqlen=4, height=48, width=64)[0][4]
b = ICL(ROOT, seqlen=4, height=48, width=64, return_pose=False)[0][3]
check(same(a, b), "transforms changed")
""")

P("ds-normalize-first", "C22",
  [(T, "        if self.normalize_color:\n            color = datautils.normalize_image(color)\n        if self.channels_first:\n            color = datautils.channels_first(color)\n        return color\n",
    "        if self.channels_first:\n            color = datautils.channels_first(color)\n        elif self.normalize_color:\n            color = datautils.normalize_image(color)\n        return color\n")],
  "TUM with both normalised colours and channels first",
  "colours in channels first layout are not normalised",
  TREE + """
from gradslam.datasets.tum import TUM
ts = [1.0 + 0.1 * k for k in range(2)]
tum("rgbd_dataset_freiburg1_x", ts, ts, ts)
x = TUM(ROOT, seqlen=1, height=48, width=64, channels_first=True, normalize_color=True)[0][0]
check(float(x.max()) <= 1, "not normalised")
""")
