PLANTS = []


def P(id, property, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


R = "structures/rgbdimages.py"
Q = "structures/pointclouds.py"
F = "slam/fusionutils.py"
I = "slam/icpslam.py"
G = "geometry/geometryutils.py"
J = "geometry/projutils.py"
SU = "structures/structutils.py"

P("grad-normal-border", "C23",
  [(R, "            dhoriz[..., -1, :] = dhoriz[..., -2, :]\n            dverti[..., -1, :, :] = dverti[..., -2, :, :]\n",
    "            with torch.no_grad():\n                dhoriz[..., -1, :] = dhoriz[..., -2, :]\n                dverti[..., -1, :, :] = dverti[..., -2, :, :]\n")],
  "derivatives of the normals in the last row or column (channels last)",
  "normals of the last row and column lose the derivative through their repeated difference",
  """
x = frames()
d = x.depth_image.clone().requires_grad_()
y = RGBDImages(x.rgb_image, d, x.intrinsics)
eps = 1e-2
v = y.normal_map[0, 0, 1, 4, 0]
g = torch.autograd.grad(v, d)[0][0, 0, 1, 3, 0].item()
def at(e):
    z = x.depth_image.clone()
    z[0, 0, 1, 3, 0] += e
    return RGBDImages(x.rgb_image, z, x.intrinsics).normal_map[0, 0, 1, 4, 0].item()
n = (at(eps) - at(-eps)) / (2 * eps)
check(abs(g - n) < 0.05 * max(1, abs(n)), (g, n))
""")

P("grad-fuse-norm", "C23",
  [(F, "        pointclouds.colors_padded = updated_colors * inv_updated_ccounts\n",
    "        pointclouds.colors_padded = updated_colors * inv_updated_ccounts.detach()\n")],
  "two frames that fuse, with derivatives of fused colours with respect to depth",
  "fused colours no longer change with the confidence that weighs them",
  """
from gradslam.slam.pointfusion import PointFusion
B, H, W = 1, 3, 3
d = torch.full((1, 2, H, W, 1), 2.0, requires_grad=True)
p = torch.eye(4).repeat(1, 2, 1, 1)
rgb = torch.zeros(1, 2, H, W, 3)
rgb[:, 1] = 1.0
K = camera(4.0, 4.0, 1.0, 1.0).view(1, 1, 4, 4)
m, _ = PointFusion(odom="gt", sigma=2.0)(RGBDImages(rgb, d, K, p))
check(m.points_list[0].shape[0] == 9, "not fused")
c = m.colors_list[0][0, 0]
g = torch.autograd.grad(c, d)[0]
# the share of the second frame is a2 / (a1 + a2): deeper first frame, smaller a1, larger share
check(float(g[0, 0].sum()) > 1e-3, "share does not grow with the first depth: %f" % float(g[0, 0].sum()))
check(abs(float(g.sum())) < 1e-4, "moving both changes nothing: %f" % float(g.sum()))
""")

P("grad-append-colors", "C23",
  [(Q, "                torch.cat([self.colors_list[b], pointclouds.colors_list[b]], 0)\n",
    "                torch.cat([self.colors_list[b].data, pointclouds.colors_list[b]], 0)\n")],
  "a second append or step, with derivatives of the colours of the older points",
  "older points lose the derivatives of their colours when points are appended",
  """
a, b = cloud([3]), cloud([2], seed=1)
c = a.colors_list[0].clone().requires_grad_()
x = Pointclouds(points=a.points_list, normals=a.normals_list, colors=[c], features=a.features_list)
x.append_points(b)
g = torch.autograd.grad(x.colors_list[0].sum(), c, allow_unused=True)[0] if x.colors_list[0].requires_grad else None
check(g is not None and same(g, torch.ones(3, 3)), g)
""")

P("grad-pose-sequence", "C23",
  [(R, "        rmat = self._poses[..., :3, :3]\n        tvec = self._poses[..., :3, 3]\n",
    "        rmat = self._poses[..., :3, :3]\n        tvec = self._poses[..., :3, 3]\n        if L > 1:\n            rmat = rmat.detach()\n")],
  "derivatives of world vertices of a sequence with respect to rotations",
  "world vertices of sequences do not change with the rotation of their pose",
  """
p = torch.eye(4).repeat(1, 2, 1, 1).requires_grad_()
x = frames(L=2, poses=p)
g = torch.autograd.grad(x.global_vertex_map[0, 1, 2, 2, 0], p)[0]
check(abs(float(g[0, 1, 0, 2]) - float(x.vertex_map[0, 1, 2, 2, 2])) < 1e-4, g)
""")

P("grad-clone-padded", "C23",
  [(Q, "                else [n.clone() for n in self._normals_list]\n", "                else [n.new_tensor(n.tolist()).view_as(n) for n in self._normals_list]\n")],
  "derivatives of normals through clone, or anything out of place, of a cloud given as lists",
  "normals lose their derivatives when a cloud is cloned",
  """
a = cloud([3, 2])
n = [t.clone().requires_grad_() for t in a.normals_list]
x = (Pointclouds(points=a.points_list, normals=n) + 1.0).normals_list
check(x[0].requires_grad and x[1].requires_grad, "clone lost derivatives")
""")

P("grad-axisangle", "C24",
  [(G, "    k_pos: torch.Tensor = two_theta / sin_theta\n", "    k_pos: torch.Tensor = (two_theta / sin_theta).detach()\n")],
  "derivatives of the axis-angle vector of a rotation that is not tiny",
  "the angle of an axis-angle vector does not change with the quaternion",
  """
from gradslam.geometry.geometryutils import quaternion_to_axisangle
q = torch.tensor([0.0, 0.0, 0.6, 0.8], requires_grad=True)
g = torch.autograd.grad(quaternion_to_axisangle(q)[2], q)[0]
check(abs(float(g[2]) - 1.6) < 1e-3 and abs(float(g[3]) + 1.2) < 1e-3, g)
""")

P("grad-intrinsics-centre", "C24",
  [(J, "    Kinv[..., 0, 2] = -1.0 * cx / (fx + eps)\n", "    Kinv[..., 0, 2] = -1.0 * cx * Kinv[..., 0, 0].detach()\n")],
  "derivatives of back-projected points with respect to the horizontal focal length",
  "the principal point's part of the inverse intrinsics does not change with the focal length",
  """
from gradslam.geometry.projutils import inverse_intrinsics
K = camera(4.0, 2.0, 2.0, 1.0).requires_grad_()
g = torch.autograd.grad(inverse_intrinsics(K)[0, 2], K)[0]
check(abs(float(g[0, 0]) - 2.0 / 16) < 1e-4, g)
""")

P("grad-compose-batch", "C24",
  [(G, "    trans_cat[..., :3, 3] = tvec_cat\n", "    trans_cat[..., :3, 3] = tvec_cat if trans1.dim() < 3 else tvec_cat - tvec1 + tvec1.data\n")],
  "derivatives of composed batches with respect to the translation of the first motion",
  "composing a batch of motions drops the derivative of the first translation",
  """
from gradslam.geometry.geometryutils import compose_transforms_3d
a = torch.stack([pose(0, 30, [1.0, 2, 3]), pose(1, 20, [0.0, 1, 0])]).requires_grad_()
b = torch.stack([pose(2, 40, [1.0, 0, 3])] * 2)
g = torch.autograd.grad(compose_transforms_3d(a, b)[1, 0, 3], a)[0]
check(abs(float(g[1, 0, 3]) - 1) < 1e-5, g)
""")
