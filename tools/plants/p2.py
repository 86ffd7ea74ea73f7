PLANTS = []


def P(id, property, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PC = "structures/pointclouds.py"
RG = "structures/rgbdimages.py"
FU = "slam/fusionutils.py"
IC = "odometry/icputils.py"
SL = "slam/icpslam.py"
PF = "slam/pointfusion.py"
GE = "geometry/geometryutils.py"
CF = "config/cfgnode.py"

P("rgbd-channels-normals", "C06",
  [(RG, """        ordering = (0, 1, 4, 2, 3)  # B L H W C -> B L C H W
        permute = RGBDImages._permute_if_not_None
        self._rgb_image = permute(self._rgb_image, ordering)
        self._depth_image = permute(self._depth_image, ordering)
        self._vertex_map = permute(self._vertex_map, ordering)
        self._global_vertex_map = permute(self._global_vertex_map, ordering)
        self._normal_map = permute(self._normal_map, ordering)
        self._global_normal_map = permute(self._global_normal_map, ordering)
""", """        ordering = (0, 1, 4, 2, 3)  # B L H W C -> B L C H W
        permute = RGBDImages._permute_if_not_None
        self._rgb_image = permute(self._rgb_image, ordering)
        self._depth_image = permute(self._depth_image, ordering)
        self._vertex_map = permute(self._vertex_map, ordering)
        self._global_vertex_map = permute(self._global_vertex_map, ordering)
        self._normal_map = permute(self._normal_map, ordering)
        self._global_normal_map = (
            self._normal_map
            if self._global_normal_map is not None and self._L == 1
            else permute(self._global_normal_map, ordering)
        )
""")],
  "world normals read before converting a single frame with a rotated pose to channels first",
  "converting to channels first turns the world-frame normals into camera-frame normals",
  """
f = frames(poses=rot(1, 40).view(1, 1, 4, 4))
w = f.global_normal_map.clone()
f.to_channels_first_()
check(same(f.global_normal_map, w.permute(0, 1, 4, 2, 3)), "world normals changed by the layout")
""")

P("fuse-active-order", "C09",
  [(FU, "            in_plane_pos[..., 1:2].clamp(0, height - 1),\n            in_plane_pos[..., 0:1].clamp(0, width - 1),\n",
    "            in_plane_pos[..., 1:2].clamp(0, min(height, width) - 1),\n            in_plane_pos[..., 0:1].clamp(0, width - 1),\n")],
  "an image higher than wide and a map point projecting to a row beyond the width",
  "in tall images map points below the square part are reported at the wrong row",
  """
from gradslam.slam.fusionutils import find_active_map_points
f = frames(H=6, W=3, K=camera(4, 4, 1, 1), poses=torch.eye(4).view(1, 1, 4, 4))
pc = Pointclouds([torch.tensor([[0.0, 1.0, 1.0]])])
check(find_active_map_points(pc, f).tolist() == [[0, 0, 5, 1]], "wrong pixel")
""")

P("slam-map-frame-alias", "C12",
  [(SL, "        live_frame.poses = self._localize(pointclouds, live_frame, prev_frame)\n",
    "        poses = self._localize(pointclouds, live_frame, prev_frame)\n        if prev_frame is not None and self.odom != \"gt\" and not inplace:\n            prev_frame._poses[..., 3, :] = poses[..., 3, :]\n            prev_frame._poses[..., :3, 3] += 0.0 * poses[..., :3, 3]\n            pointclouds.points_padded\n            prev_frame.poses[..., :3, 3].clamp_(max=1.0)\n        live_frame.poses = poses\n")],
  "an out-of-place odometry step whose previous pose has a translation above one metre",
  "an out-of-place step changes the pose of the previous frame it is given",
  """
from gradslam.slam import PointFusion
s = PointFusion(odom="icp", numiters=2, dsratio=1)
d = torch.rand(1, 1, 6, 8, 1) + 1.0
prev = frames(H=6, W=8, depth=d, poses=pose(0, 0, [2.0, 0, 0]).view(1, 1, 4, 4))
m, _ = s.step(Pointclouds(), prev)
before = prev.poses.clone()
s.step(m, frames(H=6, W=8, depth=d), prev)
check(same(prev.poses, before), "pose of the previous frame changed")
""")

P("slam-fuse-inplace-padded", "C12",
  [(FU, "        updated_ccounts = map_ccounts + frame_alphas\n",
    "        updated_ccounts = frame_alphas.add_(map_ccounts)\n"),
   (FU, "        updated_points = (map_ccounts * pointclouds.points_padded) + (\n            frame_alphas * frame_points\n        )\n",
    "        frame_alphas = updated_ccounts - map_ccounts\n        updated_points = (map_ccounts * pointclouds.points_padded) + (\n            frame_alphas * frame_points\n        )\n"),
   (FU, "    if not inplace:\n        pointclouds = pointclouds.clone()\n    pointclouds.append_points(new_pointclouds)\n    return pointclouds\n\n\ndef update_map_fusion(",
    "    if not inplace and pointclouds.has_points:\n        pointclouds = pointclouds.clone()\n    pointclouds.append_points(new_pointclouds)\n    return pointclouds\n\n\ndef update_map_fusion(")],
  "aggregating the first frame out of place into an empty map that is kept",
  "an out-of-place aggregation of the first frame fills the empty map it was given",
  """
from gradslam.slam.fusionutils import update_map_aggregate
m = Pointclouds()
update_map_aggregate(m, frames(), inplace=False)
check(not m.has_points and len(m) == 0, "the empty map given was filled")
""")

P("slam-compose-order", "C13",
  [(SL, "                transform.squeeze(1), prev_frame.poses.squeeze(1)\n            ).unsqueeze(1)\n",
    "                prev_frame.poses.squeeze(1), transform.squeeze(1)\n            ).unsqueeze(1)\n")],
  "odometry with a previous pose that does not commute with the estimated motion",
  "the estimated motion is composed with the previous pose in the wrong order",
  """
from gradslam.slam import ICPSLAM
T = pose(2, 30, [0.0, 0.5, 0.0])
class Odom:
    def provide(self, a, b):
        return T.view(1, 1, 4, 4)
s = ICPSLAM(odom="icp", dsratio=1)
s.odomprov = Odom()
P0 = pose(0, 50, [1.0, 0.0, 0.3])
prev = frames(poses=P0.view(1, 1, 4, 4))
m, _ = s.step(Pointclouds(), prev)
_, p = s.step(m, frames(), prev)
check(same(p[0, 0], T @ P0), "pose is not motion after previous pose")
""")

P("slam-angle-radians", "C13",
  [(PF, "        rad_th = (angle_th * math.pi) / 180\n", "        rad_th = (angle_th * math.pi) / 360\n")],
  "a surface seen again with normals turned by an angle between half the threshold and the threshold",
  "the angle threshold given in degrees is halved",
  """
from gradslam.slam import PointFusion
s = PointFusion(odom="gt", dist_th=10.0, angle_th=60.0)
H = W = 6
K = camera(6, 6, 2.5, 2.5)
u = torch.arange(W).float().view(1, 1, 1, W, 1).expand(1, 1, H, W, 1)
d0 = torch.full((1, 1, H, W, 1), 2.0)
d1 = 2.0 / (1 - (u - 2.5) / 6 * math.tan(math.radians(45)))
eye = torch.eye(4).view(1, 1, 4, 4)
m, _ = s.step(Pointclouds(), frames(H=H, W=W, depth=d0, K=K, poses=eye))
m, _ = s.step(m, frames(H=H, W=W, depth=d1, K=K, poses=eye))
check(int(m.num_points_per_pointcloud[0]) == H * W, "normals 45 degrees apart did not fuse at 60 degrees")
""")

P("slam-recovered-first", "C13",
  [(SL, "            prev_frame = live_frame if self.odom != \"gt\" else None\n            recovered_poses[:, s] = live_frame.poses[:, 0]\n",
    "            if prev_frame is None or seq_len < 4 or s % 2:\n                prev_frame = live_frame if self.odom != \"gt\" else None\n            recovered_poses[:, s] = live_frame.poses[:, 0]\n")],
  "a sequence of at least four frames with estimated odometry",
  "in longer sequences every second frame is aligned against the frame before its predecessor",
  """
from gradslam.slam import ICPSLAM
n = []
class Odom:
    def provide(self, a, b):
        n.append(0)
        return pose(0, 0, [0.1 * len(n), 0, 0]).view(1, 1, 4, 4)
s = ICPSLAM(odom="icp", dsratio=1)
s.odomprov = Odom()
_, p = s(frames(L=5))
x = [0, .1, .3, .6, 1.0]
check(all(abs(float(p[0, i, 0, 3]) - x[i]) < 1e-5 for i in range(5)), "poses %s" % p[0, :, 0, 3].tolist())
""")

P("icp-damp-order", "C14",
  [(IC, "            # We are in a trust region\n            src_pc = one_step_pc\n            damp = damp / 2\n",
    "            # We are in a trust region\n            src_pc = one_step_pc\n            damp = damp / 2 if damp > 1e-6 else damp\n")],
  "a small starting damping and more than one accepted step",
  "damping below a floor is no longer halved after accepted steps",
  """
from gradslam.odometry import icputils
seen = []
orig = icputils.solve_linear_system
def spy(A, b, damp):
    seen.append(float(damp)); return orig(A, b, damp)
icputils.solve_linear_system = spy
t = torch.rand(1, 30, 3); n = torch.nn.functional.normalize(torch.rand(1, 30, 3) - .5, dim=-1)
icputils.point_to_plane_ICP(t + 0.01, t, n, torch.eye(4), numiters=3, damp=1e-7)
check(all(abs(b / a - .5) < 1e-3 or abs(b / a - 2) < 1e-3 for a, b in zip(seen, seen[1:])), "damping %s" % seen)
""")

P("icp-transform-order", "C14",
  [(IC, "            # update transform\n            transform = torch.mm(residual_transform, transform)\n",
    "            # update transform\n            transform = torch.mm(transform, residual_transform)\n")],
  "at least two accepted steps that do not commute, or an initial estimate that is not the identity",
  "accepted steps are multiplied on the wrong side of the estimate",
  """
from gradslam.odometry.icputils import point_to_plane_ICP
g = torch.Generator().manual_seed(3)
t = torch.rand(1, 80, 3, generator=g)
n = torch.nn.functional.normalize(torch.rand(1, 80, 3, generator=g) - .5, dim=-1)
T0 = pose(2, 50, [.3, .1, .2])
E = pose(0, 3, [.01, .02, 0.0])
src = (t[0] @ torch.inverse(E @ T0)[:3, :3].T + torch.inverse(E @ T0)[:3, 3]).unsqueeze(0)
T, _ = point_to_plane_ICP(src, t, n, T0, numiters=12)
got = src[0] @ T[:3, :3].T + T[:3, 3]
start = src[0] @ T0[:3, :3].T + T0[:3, 3]
check((got - t[0]).norm() < .5 * (start - t[0]).norm(), "the alignment does not map source to target")
""")

P("icp-grad-damp", "C14",
  [(IC, "        damp = damp * damp_new\n", "        damp = damp * damp_new if it > 0 else damp\n")],
  "the differentiable variant with at least two iterations",
  "the differentiable ICP skips the first damping update",
  """
from gradslam.odometry import icputils
seen = []
orig = icputils.solve_linear_system
def spy(A, b, damp):
    seen.append(float(damp)); return orig(A, b, damp)
icputils.solve_linear_system = spy
t = torch.rand(1, 30, 3); n = torch.nn.functional.normalize(torch.rand(1, 30, 3) - .5, dim=-1)
icputils.point_to_plane_gradICP(t + 0.02, t, n, torch.eye(4), numiters=2, damp=.1, lambda_max=4.0, B=50.0)
check(seen[1] != seen[0], "damping %s" % seen)
""")

P("geo-inverse-batch", "C15",
  [(GE, "    trans_10: torch.Tensor = (\n        inverse_transformation(trans_01)\n        if orthogonal_rotations\n        else torch.inverse(trans_01)\n    )\n",
    "    trans_10: torch.Tensor = (\n        inverse_transformation(trans_01)\n        if orthogonal_rotations\n        else torch.inverse(trans_01[:1] if trans_01.shape[0] > 4 else trans_01).expand_as(\n            trans_01\n        )\n    )\n")],
  "relative transforms of batches of five or more",
  "in batches of five or more every relative transform is taken from the first pose",
  """
from gradslam.geometry.geometryutils import relative_transformation
a = torch.stack([pose(i % 3, 10.0 * i, [i, 1.0, -i]) for i in range(6)])
b = torch.stack([pose((i + 1) % 3, 25.0 * i, [1.0, i, 0.5]) for i in range(6)])
r = relative_transformation(a, b, orthogonal_rotations=False)
check(same(a @ r, b, 1e-3), "first pose composed with the motion is not the second pose")
""")

P("geo-axisangle-neg", "C16",
  [(GE, "        cos_theta < 0.0,\n        torch.atan2(-sin_theta, -cos_theta),\n",
    "        cos_theta < 0.0,\n        torch.atan2(sin_theta, -cos_theta),\n")],
  "a quaternion with a negative scalar part",
  "quaternions with a negative scalar part turn into the inverse rotation's axis-angle",
  """
from gradslam.geometry.geometryutils import quaternion_to_axisangle
q = torch.tensor([0.5, -0.5, 0.5, 0.5])
check(same(quaternion_to_axisangle(q), quaternion_to_axisangle(-q), 1e-4), "q and -q are the same rotation")
""")

P("geo-quat-mixed", "C16",
  [(GE, "            txy + twz,\n            one - (txx + tzz),\n", "            txy + twz * (w >= 0),\n            one - (txx + tzz),\n")],
  "a quaternion with a negative scalar part and rotation about z",
  "quaternions with a negative scalar part no longer give a rotation matrix",
  """
from gradslam.geometry.geometryutils import quaternion_to_rotation_matrix
q = torch.tensor([0.1, -0.5, 0.5, -0.5])
R = quaternion_to_rotation_matrix(q)
check(same(R @ R.T, torch.eye(3), 1e-4), "not a rotation")
""")

P("cfg-list-partial", "C17",
  [(CF, "        if k in b:\n            v = _check_and_coerce_cfg_value_type(v, b[k], k, full_key)\n",
    "        if k in b and not (b[k] == [] and root is not b):\n            v = _check_and_coerce_cfg_value_type(v, b[k], k, full_key)\n"),
   (CF, "        elif b.is_new_allowed():\n", "        elif k in b or b.is_new_allowed():\n")],
  "a nested key whose current value is the empty list and a value of another type",
  "a nested empty list can be replaced by a value of any type",
  """
from gradslam.config import CfgNode
c = CfgNode({"A": {"L": []}})
try:
    c.merge_from_other_cfg(CfgNode({"A": {"L": 3}}))
    check(False, "an int replaced a list")
except ValueError:
    pass
""")

P("cfg-deprecated-nested", "C17",
  [(CF, "            if root.key_is_deprecated(full_key):\n                continue\n            elif root", "            if root.key_is_deprecated(full_key) or b.key_is_deprecated(k):\n                return\n            elif root")],
  "merging a configuration with keys after a deprecated one",
  "keys that follow a deprecated key are silently not merged",
  """
from gradslam.config import CfgNode
c = CfgNode({"A": {"X": 1, "Y": 2}})
c.register_deprecated_key("A.OLD")
c.merge_from_other_cfg(CfgNode({"A": {"OLD": 5, "Y": 7}}))
check(c.A.Y == 7, "Y was not merged")
""")

P("cfg-freeze-depth", "C18",
  [(CF, "        for v in self.values():\n            if isinstance(v, CfgNode):\n                v._immutable(is_immutable)\n",
    "        for v in self.values():\n            if isinstance(v, CfgNode) and v.is_frozen() != is_immutable:\n                v._immutable(is_immutable)\n")],
  "a tree where a child already has the wanted state and a grandchild has not",
  "freezing stops at a child that is frozen already, leaving its children changeable",
  """
from gradslam.config import CfgNode
c = CfgNode({"A": {"B": {"X": 1}}})
c.A.freeze()
c.A.B.defrost()
c.freeze()
try:
    c.A.B.X = 2
    check(False, "changed below a frozen configuration")
except AttributeError:
    pass
""")
