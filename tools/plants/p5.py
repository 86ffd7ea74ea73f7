PLANTS = []


def P(id, property, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


R = "structures/rgbdimages.py"
Q = "structures/pointclouds.py"
F = "slam/fusionutils.py"
I = "slam/icpslam.py"
G = "geometry/geometryutils.py"
J = "geometry/projutils.py"
SU = "structures/structutils.py"
U = "odometry/icputils.py"
GI = "odometry/gradicp.py"

ICPDEMO = """
from gradslam.odometry.icputils import point_to_plane_ICP, point_to_plane_gradICP
def planes(seed=0, n=6):
    g = torch.Generator().manual_seed(seed)
    pts = []
    nrm = []
    for ax in range(3):
        p = torch.rand(n, 3, generator=g) * 4 + 4 * torch.arange(n)[:, None] * 1.0
        p[:, ax] = 0
        m = torch.zeros(n, 3)
        m[:, ax] = 1
        pts.append(p)
        nrm.append(m)
    return torch.cat(pts), torch.cat(nrm)
def slope(fn, x, i, eps=4e-3):
    lo, hi = x.clone(), x.clone()
    lo.view(-1)[i] -= eps
    hi.view(-1)[i] += eps
    return (fn(hi) - fn(lo)) / (2 * eps)
def agree(fn, x, i, what, tol=2e-3):
    y = x.clone().requires_grad_()
    v = fn(y)
    check(v.requires_grad, what + ": no derivative at all")
    g = torch.autograd.grad(v, y, allow_unused=True)[0]
    g = 0.0 if g is None else float(g.view(-1)[i])
    n = float(slope(fn, x, i))
    check(abs(g - n) <= tol * max(1, abs(n)), (what, g, n))
"""

P("icp-grad-chain", "C25",
  [(U, "            # update transform\n            transform = torch.mm(residual_transform, transform)\n",
    "            # update transform\n            transform = torch.mm(residual_transform, transform.data if it > 1 else transform)\n")],
  "at least three accepted ICP iterations, with derivatives",
  "from the third accepted step on, earlier steps no longer contribute to the derivative of the motion",
  ICPDEMO + """
p, n = planes()
m = rot(2, 5)[:3, :3]
src = p @ m.t() + torch.tensor([0.3, -0.2, 0.1])
E = torch.eye(4)
f = lambda t: point_to_plane_ICP(src[None], p[None], n[None], t, numiters=3, damp=2.0)[0][0, 3]
agree(f, E, 3, "initial estimate", 2e-2)
""")

P("icp-grad-damping-gate", "C25",
  [(U, "        damp = damp * damp_new\n", "        damp = damp * damp_new.detach()\n")],
  "two or more iterations of gradient ICP with a damping that matters, with derivatives",
  "the damping gate of gradient ICP no longer contributes its derivative",
  ICPDEMO + """
p, n = planes()
src = p @ rot(2, 4)[:3, :3].t() + torch.tensor([0.3, -0.2, 0.1])
E = torch.eye(4)
f = lambda s: point_to_plane_gradICP(s[None], p[None], n[None], E, numiters=3, damp=5.0, B=0.3, B2=0.3, nu=5.0)[0][0, 3]
for i in (15,):
    agree(f, src, i, "damping", 2e-3)
""")

P("icp-grad-moved", "C25",
  [(U, "        residual_transform = se3_exp(sigmoid * xi)\n        src_pc = transform_pointcloud(src_pc[0], residual_transform).unsqueeze(0)\n",
    "        residual_transform = se3_exp(sigmoid * xi)\n        src_pc = transform_pointcloud(src_pc[0], residual_transform if it == 0 else residual_transform.data).unsqueeze(0)\n")],
  "three or more iterations of gradient ICP, with derivatives",
  "the moved cloud of gradient ICP does not change with the second and later steps",
  ICPDEMO + """
p, n = planes()
src = p + torch.tensor([0.3, -0.2, 0.1])
E = torch.eye(4)
f = lambda t: point_to_plane_gradICP(src[None], p[None], n[None], t, numiters=3, damp=1.0)[0][0, 3]
agree(f, E, 3, "initial estimate", 2e-2)
""")

P("icp-grad-provider", "C25",
  [(GI, "            transforms.append(transform)\n", "            transforms.append(transform if b == 0 else transform.detach())\n")],
  "derivatives of the second batch element of gradient ICP odometry",
  "only the first batch element's motion has derivatives",
  """
from gradslam.odometry.gradicp import GradICPOdometryProvider
g = torch.Generator().manual_seed(1)
t = torch.rand(2, 12, 3, generator=g)
n = torch.nn.functional.normalize(torch.randn(2, 12, 3, generator=g), dim=-1)
s = (t + 0.05).requires_grad_()
out = GradICPOdometryProvider(numiters=2, damp=1e-2).provide(Pointclouds(t, n), Pointclouds(s))
check(out[1].requires_grad or True, "")
d = torch.autograd.grad(out[1, 0, 0, 3], s, allow_unused=True)[0]
check(d is not None and float(d[1].abs().sum()) > 0, "second element has no derivative")
""")

P("ragged-width", "C26",
  [(SU, "        pad_dim1 = max(y.shape[1] for y in x if len(y) > 0)\n",
    "        pad_dim1 = next(y.shape[1] for y in x if len(y) > 0)\n        x = [y[:, :pad_dim1] for y in x]\n")],
  "a list whose tensors differ in their second dimension, with the widest not first",
  "padding takes its width from the first tensor and cuts the others",
  """
from gradslam.structures.structutils import list_to_padded
a, b = torch.rand(2, 2), torch.rand(3, 4)
p = list_to_padded([a, b])
check(p.shape == (2, 3, 4) and same(p[1], b), p.shape)
""")

P("ragged-split-rows", "C26",
  [(SU, "            x_list[i] = x_list[i][: split_size[i][0], : split_size[i][1]]\n",
    "            x_list[i] = x_list[i][: split_size[i][0], : split_size[0][1]]\n")],
  "padded_to_list with two-dimensional split sizes that differ in width",
  "every item is cut to the width of the first",
  """
from gradslam.structures.structutils import padded_to_list
x = torch.rand(2, 3, 4)
y = padded_to_list(x, [(2, 2), (3, 4)])
check(y[1].shape == (3, 4) and same(y[1], x[1]), y[1].shape)
""")

P("downsample-batch-colors", "C26",
  [(U, "            pointclouds.colors_list[b][pc2im_bnhw[pc2im_bnhw[..., 0] == b][..., 1]]\n",
    "            pointclouds.colors_list[b][pc2im_bnhw[pc2im_bnhw[..., 0] == b][..., 1].sort()[0]]\n")],
  "downsampling a map by a table whose rows do not list its points in increasing order",
  "colours are handed to other points of the same cloud",
  """
from gradslam.odometry.icputils import downsample_pointclouds
m = cloud([5])
t = torch.tensor([[0, 3, 0, 0], [0, 1, 2, 2], [0, 4, 0, 2]])
d = downsample_pointclouds(m, t, 2)
check(same(d.points_list[0], m.points_list[0][[3, 1, 4]]), "points")
check(same(d.colors_list[0], m.colors_list[0][[3, 1, 4]]), "colours")
""")

P("downsample-row-parity", "C26",
  [(U, "    pc2im_bnhw = pc2im_bnhw[pc2im_bnhw[..., 3] % ds_ratio == 0]\n",
    "    pc2im_bnhw = pc2im_bnhw[(pc2im_bnhw[..., 2] + pc2im_bnhw[..., 3]) % (2 * ds_ratio) % ds_ratio == 0] if ds_ratio < 3 else pc2im_bnhw[pc2im_bnhw[..., 3] // 3 * 3 % ds_ratio == 0]\n")],
  "a downsampling ratio of 4 or more (not a multiple seen at 2 or 3)",
  "active map points between the columns of the downsampling grid are kept",
  """
from gradslam.odometry.icputils import downsample_pointclouds
m = cloud([6])
t = torch.tensor([[0, i, 0, i] for i in range(6)])
for r in (1, 2, 3, 4, 5):
    d = downsample_pointclouds(m, t, r)
    want = [i for i in range(6) if i % r == 0]
    check(same(d.points_list[0], m.points_list[0][want]), r)
""")

P("export-normal-sample", "C27",
  [(Q, "            if subsample:\n                torch_normals = torch_normals[point_inds]\n",
    "            if subsample:\n                torch_normals = torch_normals[:max_num_points]\n")],
  "an open3d export with normals of a cloud larger than max_num_points",
  "the exported normals are those of other points",
  """
from gradslam import Pointclouds
p = torch.arange(60.0).view(20, 3)
pcd = Pointclouds([p], [p + 1000]).open3d(0, max_num_points=7, include_normals=True)
import numpy as np
a, b = np.asarray(pcd.points), np.asarray(pcd.normals)
check(a.shape == (7, 3) and abs(b - a - 1000).max() < 1e-3, "normals belong to other points")
""")

P("export-sample-repeats", "C27",
  [(Q, "            perm = torch.randperm(num_points)\n            point_inds = perm[:max_num_points]\n            torch_points = torch_points[point_inds]\n        numpy_points = torch_points.detach().cpu().numpy()\n\n        marker_dict",
    "            perm = torch.randint(int(num_points), (int(num_points),))\n            point_inds = perm[:max_num_points]\n            torch_points = torch_points[point_inds]\n        numpy_points = torch_points.detach().cpu().numpy()\n\n        marker_dict")],
  "a plotly export of a cloud larger than max_num_points",
  "a subsampled export shows some points several times",
  """
from gradslam import Pointclouds
p = torch.arange(90.0).view(30, 3)
s = Pointclouds([p]).plotly(0, max_num_points=25, as_figure=False)
check(len(set(list(s.x))) == 25, len(set(list(s.x))))
""")

P("export-depth-scale", "C27",
  [(R, "            numpy_depth = (torch_depth * scale).detach().cpu().numpy().astype(\"uint8\")\n",
    "            scale = min(scale, 100.0)\n            numpy_depth = (torch_depth * scale).detach().cpu().numpy().astype(\"uint8\")\n")],
  "frames whose largest depth is below 0.255",
  "depth images of very close scenes are scaled a tenth of what fits",
  """
x = frames(L=2, depth=torch.rand(1, 2, 4, 5, 1) * 0.05 + 0.1)
f = x.plotly(0, as_figure=False)
check("scale: x1000" in f[0]["data"][1].hovertemplate, f[0]["data"][1].hovertemplate)
""")

P("export-frame-order", "C27",
  [(R, "            fig.add_trace(frames[0][\"data\"][1], row=2, col=1)  # initial depth frame\n",
    "            fig.add_trace(frames[-1][\"data\"][1], row=2, col=1)  # initial depth frame\n")],
  "the figure of a sequence of more than one frame, before it is played",
  "the figure first shows the colours of the first frame with the depth of the last",
  """
d = torch.ones(1, 2, 8, 8, 1)
d[:, 1] = 2.0
x = frames(L=2, H=8, W=8, depth=d)
fig = x.plotly(0)
f = x.plotly(0, as_figure=False)
check(fig.data[1].source == f[0]["data"][1].source, "depth of another frame")
check(fig.data[0].source == f[0]["data"][0].source, "colour of another frame")
""")

P("vertex-cam-batch", "C08",
  [(R, "        Kinv = Kinv.repeat(1, L, 1, 1)\n",
    "        Kinv = Kinv.repeat(L, 1, 1, 1).view(B, L, 3, 3)\n")],
  "two or more sequences with different cameras and more than one frame each",
  "frames of a batch are back-projected with the camera of another sequence",
  """
K = torch.stack([camera(4.0, 4.0), camera(8.0, 2.0)]).unsqueeze(1)
d = torch.rand(2, 3, 4, 5, 1) + 1
x = RGBDImages(torch.rand(2, 3, 4, 5, 3), d, K)
for b in range(2):
    for l in range(3):
        fx, cx = K[b, 0, 0, 0], K[b, 0, 0, 2]
        want = (torch.arange(5.0)[None] - cx) / fx * d[b, l, :, :, 0]
        check(same(x.vertex_map[b, l, :, :, 0], want, 1e-4), (b, l))
""")

P("project-behind", "C08",
  [(J, "    v: torch.Tensor = y / torch.where(z != 0, z, torch.ones_like(z))\n",
    "    v: torch.Tensor = y / torch.where(z > 0, z, torch.ones_like(z))\n")],
  "projecting a point behind the camera (negative third coordinate)",
  "the row of a point behind the camera is not divided by its depth",
  """
from gradslam.geometry.projutils import project_points
p = torch.tensor([[1.0, 2.0, -2.0], [1.0, 2.0, 4.0]])
uv = project_points(p, camera(4.0, 4.0, 2.0, 1.5))
check(same(uv[0], torch.tensor([0.0, -2.5])), uv)
""")

P("unhomogenize-small", "C08",
  [(G, "    return scale * pts[..., :-1]\n", "    return scale.clamp(-1e3, 1e3) * pts[..., :-1]\n")],
  "homogeneous points whose last coordinate is smaller than a thousandth",
  "points far away are brought closer when the homogeneous coordinate is divided out",
  """
from gradslam.geometry.geometryutils import unhomogenize_points
p = torch.tensor([[1.0, 2.0, 3.0, 1.0 / 4096], [2.0, 4.0, 6.0, 2.0]])
q = unhomogenize_points(p)
check(same(q[0], torch.tensor([4096.0, 8192.0, 12288.0]), 1.0), q)
""")

P("normal-tall-cf", "C05",
  [(R, "            dhoriz[..., -1] = dhoriz[..., -2]\n            dverti[..., -1, :] = dverti[..., -2, :]\n            dim = 2\n",
    "            dhoriz[..., -1] = dhoriz[..., -2]\n            dverti[..., -1, :] = dverti[..., 0, :]\n            dim = 2\n")],
  "channels-first frames of at least three rows whose surface curves",
  "normals of the last row repeat the first row's vertical difference instead of the last one",
  """
x = frames(B=1, L=1, H=4, W=4)
y = x.to_channels_first(copy=True)
z = RGBDImages(y.rgb_image, y.depth_image, y.intrinsics, channels_first=True)
check(same(z.normal_map.permute(0, 1, 3, 4, 2), x.normal_map, 1e-4), "last row")
""")

P("cloud-rotate-single-post", "C02",
  [(Q, "        # force update of list representation\n        self._points_list = None\n        self._normals_list = None\n\n        return self\n\n    def transform_",
    "        # force update of list representation\n        self._points_list = None\n        if pre_multiplication:\n            self._normals_list = None\n\n        return self\n\n    def transform_")],
  "post-multiplying a rotation on a cloud whose normals exist as lists, then reading the list of normals",
  "list normals keep their old directions when the rotation is post-multiplied",
  """
a = cloud([3, 2])
n = [t.clone() for t in a.normals_list]
m = rot(2, 90)[:3, :3]
a.rotate_(m, pre_multiplication=False)
for b in range(2):
    check(same(a.normals_list[b], n[b] @ m, 1e-5), "list normals")
""")

P("cloud-offset-tensor-pad", "C02",
  [(Q, "            offset * self.nonpad_mask.to(self.points_padded.dtype).unsqueeze(-1)\n",
    "            offset if self.equisized or torch.is_tensor(offset) and offset.shape == self.points_padded.shape else offset * self.nonpad_mask.to(self.points_padded.dtype).unsqueeze(-1)\n")],
  "offsetting a ragged batch by a tensor of the shape of the padded points",
  "padding is no longer zero after an offset by a full-size tensor",
  """
a = cloud([3, 1])
o = torch.ones(2, 3, 3)
a.offset_(o)
check(same(a.points_padded[1, 1:], torch.zeros(2, 3)), a.points_padded[1])
""")

P("missing-depth-negative-pose", "C07",
  [(R, "        self._global_vertex_map = self._global_vertex_map * self.valid_depth_mask.to(\n",
    "        self._global_vertex_map = self._global_vertex_map * (self.valid_depth_mask | (tvec == tvec[:, :1]).all()).to(\n")],
  "missing depth in frames whose camera does not move within the sequence (or sequences of one frame)",
  "pixels without depth become points at the camera's position in the world",
  """
d = torch.ones(1, 1, 4, 5, 1)
d[0, 0, 1, 2] = 0
x = frames(depth=d, poses=pose(0, 0, [1.0, 2.0, 3.0]).view(1, 1, 4, 4))
check(same(x.global_vertex_map[0, 0, 1, 2], torch.zeros(3)), x.global_vertex_map[0, 0, 1, 2])
""")

P("fuse-best-order", "C10",
  [(F, "        pc2im_bnhw[:, 2:4].double(),\n        inv_ccounts,\n        ray_dists,\n",
    "        pc2im_bnhw[:, 2:4].double(),\n        inv_ccounts.mul(1000).round(),\n        ray_dists,\n")],
  "two candidates of one pixel whose confidences differ by less than a thousandth after inversion",
  "a closer candidate wins although another one is more reliable",
  """
from gradslam.slam.fusionutils import find_best_unique_correspondences
d = torch.full((1, 1, 3, 3, 1), 2.0)
x = frames(H=3, W=3, depth=d, poses=torch.eye(4).view(1, 1, 4, 4))
v = x.global_vertex_map[0, 0, 1, 1]
p = torch.stack([v, v + 0.01])
n = torch.tensor([[0.0, 0.0, 1.0]] * 2)
m = Pointclouds([p], [n], [n], [torch.tensor([[100.0], [101.0]])])
t = torch.tensor([[0, 0, 1, 1], [0, 1, 1, 1]])
r = find_best_unique_correspondences(m, x, t)
check(r.shape[0] == 1 and int(r[0, 1]) == 1, r)
""")
