PLANTS = []


def P(id, property, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PC = "structures/pointclouds.py"
RG = "structures/rgbdimages.py"
FU = "slam/fusionutils.py"

P("pc-append-stale-mask", "C01",
  [(PC, """        self._N = self._num_points_per_pointcloud.max()
        self._nonpad_mask = None
""", """        if self._num_points_per_pointcloud.max() != self._N:
            self._nonpad_mask = None
        self._N = self._num_points_per_pointcloud.max()
""")],
  "the padding mask was read before, and the append makes only the shorter cloud longer",
  "after appending to the shorter cloud of a batch the padding mask still marks its new points as padding",
  """
a = cloud([3, 5])
a.nonpad_mask
b = Pointclouds(*[[torch.rand(2, c), torch.rand(0, c)] for c in (3, 3, 3, 1)])
a.append_points(b)
check(a.nonpad_mask.sum(1).tolist() == [5, 5], "mask says %s real points" % a.nonpad_mask.sum(1).tolist())
""")

P("pc-scale-list", "C01",
  [(PC, """            * self.nonpad_mask.to(self.points_padded.dtype).unsqueeze(-1)
        )

        # update list representation when inferred
        self._points_list = None
""", """            * self.nonpad_mask.to(self.points_padded.dtype).unsqueeze(-1)
        )

        # update list representation
        if self._points_list is not None and not torch.is_tensor(scale):
            self._points_list = [p * scale for p in self._points_list]
""")],
  "scaling by a tensor when the list view has been read before",
  "after scaling by a tensor the list view still holds the unscaled points",
  """
a = cloud([3, 4])
a.points_list
a.scale_(torch.tensor(2.0))
for b in range(2):
    check(same(a.points_list[b], a.points_padded[b, : len(a.points_list[b])]), "list and padded points differ")
""")

P("pc-append-features-order", "C03",
  [(PC, """                torch.cat([self.features_list[b], pointclouds.features_list[b]], 0)
                for b in range(self._B)
""", """                torch.cat([self.features_list[b], pointclouds.features_list[b]], 0)
                if len(self.features_list[b]) >= len(pointclouds.features_list[b])
                else torch.cat([pointclouds.features_list[b], self.features_list[b]], 0)
                for b in range(self._B)
""")],
  "appending a cloud that has more points than the receiver's",
  "when the appended cloud is the larger one, points get each other's features",
  """
a, b = cloud([2, 4]), cloud([3, 1], seed=1)
want = [torch.cat([x, y]) for x, y in zip(a.features_list, b.features_list)]
a.append_points(b)
check(all(same(x, y) for x, y in zip(a.features_list, want)), "features mixed up by append_points")
""")

P("pc-index-mask-one", "C04",
  [(PC, "                index = index.squeeze(1) if index.numel() > 0 else index\n",
    "                index = index.squeeze() if index.numel() > 0 else index\n")],
  "a boolean mask selecting exactly one cloud",
  "selecting with a boolean mask that is true for one cloud fails",
  """
a = cloud([2, 4, 3])
b = a[torch.tensor([False, True, False])]
check(len(b) == 1 and same(b.points_list[0], a.points_list[1]), "wrong cloud selected")
""")

P("pc-index-list-sorted", "C04",
  [(PC, """            features = (
                [self.features_list[i] for i in index] if self.has_features else None
            )
        elif isinstance(index, torch.Tensor):
""", """            features = (
                [self.features_list[i % len(self)] for i in sorted(index)]
                if self.has_features
                else None
            )
        elif isinstance(index, torch.Tensor):
""")],
  "selecting with a list of integers that is not ascending, clouds of equal length",
  "clouds selected in another order get each other's features",
  """
a = cloud([3, 3, 3])
b = a[[2, 0]]
check(same(b.features_list[0], a.features_list[2]), "features of another cloud")
""")

P("pc-rotate-normals-batch", "C02",
  [(PC, """                else torch.einsum("bij,bjk->bik", self.normals_padded, rmat)
""", """                else torch.einsum("bij,jk->bik", self.normals_padded, rmat[0])
""")],
  "a batch of different rotations and clouds with normals",
  "every cloud's normals are turned with the first cloud's rotation",
  """
a = cloud([3, 4])
R = torch.stack([rot(0, 40)[:3, :3], rot(2, 70)[:3, :3]])
b = a.rotate(R)
check(same(b.normals_list[1], a.normals_list[1] @ R[1].T), "normals of the second cloud turned wrongly")
""")

P("pc-setter-list-padded", "C01",
  [(PC, """        self._points_list = [v.clone().to(self.device) for v in value]
        self._points_padded = None
""", """        self._points_list = [v.clone().to(self.device) for v in value]
        if not self.equisized:
            self._points_padded = None
""")],
  "assigning a list of points to an equisized batch whose padded view exists",
  "assigning a list of points to clouds of equal length leaves the padded view with the old points",
  """
a = cloud([3, 3])
a.points_padded
new = [torch.rand(3, 3) for _ in range(2)]
a.points_list = new
check(same(a.points_padded, torch.stack(new)), "padded points are from before the assignment")
""")

P("rgbd-intrinsics-normals", "C05",
  [(RG, """        self._vertex_map = None
        self._normal_map = None
        self._global_vertex_map = None
        self._global_normal_map = None

    @poses.setter
""", """        self._vertex_map = None
        self._global_vertex_map = None

    @poses.setter
""")],
  "normal maps were read before the intrinsics are replaced",
  "after replacing the intrinsics the normal maps are those of the old camera",
  """
f = frames()
f.normal_map, f.global_normal_map
f.intrinsics = torch.stack([camera(fx=9.0)]).unsqueeze(1)
g = RGBDImages(f.rgb_image, f.depth_image, f.intrinsics)
check(same(f.normal_map, g.normal_map), "stale normal map")
""")

P("rgbd-poses-normals", "C05",
  [(RG, """        self._global_vertex_map = None
        self._global_normal_map = None

    def detach(self):
""", """        self._global_vertex_map = None
        if value is None or self._global_normal_map is None:
            self._global_normal_map = None
        elif not torch.equal(value[..., :3, 3], value[..., :3, 3] * 0):
            self._global_normal_map = None

    def detach(self):
""")],
  "world normals were read and the new poses have no translation",
  "replacing the poses by pure rotations keeps the old world-frame normals",
  """
f = frames(poses=torch.eye(4).view(1, 1, 4, 4).clone())
f.global_normal_map
f.poses = rot(1, 30).view(1, 1, 4, 4)
g = RGBDImages(f.rgb_image, f.depth_image, f.intrinsics, f.poses)
check(same(f.global_normal_map, g.global_normal_map), "stale world normals")
""")

P("rgbd-slice-pose", "C06",
  [(RG, """                v = getattr(self, k)
                if torch.is_tensor(v):
                    setattr(other, k, v[_index_slices[0], _index_slices[1]])
""", """                v = getattr(self, k)
                if torch.is_tensor(v):
                    v = v[_index_slices[0], _index_slices[1]]
                    if k == "_poses" and v.shape[1] == 1 and v.shape[0] > 1:
                        v = v[:1].expand(v.shape[0], 1, 4, 4)
                    setattr(other, k, v)
""")],
  "slicing one frame from a batch of at least two sequences with different poses",
  "a single frame sliced from a batch gives every batch element the first element's pose",
  """
p = torch.stack([torch.stack([pose(b, 20.0 * l, [b, l, 1.0]) for l in range(3)]) for b in range(2)])
f = frames(B=2, L=3, poses=p)
check(same(f[:, 1].poses, p[:, 1:2]), "poses of the slice are not the slice of the poses")
""")

P("rgbd-global-zero", "C07",
  [(RG, """        # zero out missing depth values
        self._global_vertex_map = self._global_vertex_map * self.valid_depth_mask.to(
            self._global_vertex_map.dtype
        )
""", """        # zero out missing depth values
        self._global_vertex_map = torch.where(
            (local_vertex_map == 0).all(),
            torch.zeros_like(self._global_vertex_map),
            self._global_vertex_map,
        )
""")],
  "a frame with some missing depth and a translated pose",
  "pixels without depth get the camera's position as their world vertex",
  """
d = torch.rand(1, 1, 4, 5, 1) + 1
d[0, 0, 1, 2] = 0
f = frames(depth=d, poses=pose(0, 0, [1.0, 2.0, 3.0]).view(1, 1, 4, 4))
check(same(f.global_vertex_map[0, 0, 1, 2], torch.zeros(3)), "missing depth became a world point")
""")

P("fuse-active-height", "C09",
  [(FU, "        & (img_plane_points[..., 1] < height - 0.999)\n",
    "        & (img_plane_points[..., 1] < max(height, width) - 0.999)\n")],
  "an image that is wider than high and a map point projecting below it",
  "map points that project below a wide image are reported as active in its last row",
  """
from gradslam.slam.fusionutils import find_active_map_points
K = camera(4, 4, 2, 1)
f = frames(H=3, W=6, K=K, poses=torch.eye(4).view(1, 1, 4, 4))
y = (4.0 - 1) / 4  # projects to row 4 of a 3 row image
pc = Pointclouds([torch.tensor([[0.0, y, 1.0], [0.0, 0.0, 1.0]])])
check(find_active_map_points(pc, f)[:, 1].tolist() == [1], "a point outside the image is active")
""")

P("fuse-unique-batch", "C10",
  [(FU, """        sorted_nonunique_inds[1:, :3] - sorted_nonunique_inds[:-1, :3] != 0
""", """        sorted_nonunique_inds[1:, 1:3] - sorted_nonunique_inds[:-1, 1:3] != 0
""")],
  "a batch where the last matched pixel of one element is the first matched pixel of the next",
  "a pixel loses its match when the previous batch element matched the same pixel last",
  """
from gradslam.slam.fusionutils import find_best_unique_correspondences
f = frames(B=2, poses=torch.eye(4).view(1, 1, 4, 4).repeat(2, 1, 1, 1))
pc = cloud([2, 2])
t = torch.tensor([[0, 0, 1, 1], [1, 1, 1, 1]])
check(len(find_best_unique_correspondences(pc, f, t)) == 2, "a match of another batch element was dropped")
""")

P("fuse-alpha-world", "C11",
  [(FU, "    alpha_image = get_alpha(rgbdimages.vertex_map, dim=4, keepdim=True, sigma=sigma)\n",
    "    alpha_image = get_alpha(vertex_maps, dim=4, keepdim=True, sigma=sigma)\n")],
  "a frame whose pose has a translation",
  "the confidence of a measurement depends on where the camera is in the world",
  """
from gradslam.slam.fusionutils import update_map_fusion
d = torch.rand(1, 1, 4, 5, 1) + 1.0
out = []
for t in ([0.0, 0, 0], [0.5, 1.0, 0.2]):
    torch.manual_seed(1)
    f = frames(depth=d, poses=pose(0, 0, t).view(1, 1, 4, 4))
    out.append(update_map_fusion(Pointclouds(), f, 0.05, 0.9, 0.6).features_list[0])
check(same(out[0], out[1]), "confidence changes with the camera's place in the world")
""")

P("fuse-newmask-first", "C11",
  [(FU, "        new_mask[pc2im_bnhw[:, 0], 0, pc2im_bnhw[:, 2], pc2im_bnhw[:, 3]] = 0\n",
    "        new_mask[pc2im_bnhw[0, 0], 0, pc2im_bnhw[:, 2], pc2im_bnhw[:, 3]] = 0\n")],
  "fusing a batch of at least two sequences with matches",
  "matched pixels of later batch elements are added to their map again",
  """
from gradslam.slam.fusionutils import update_map_fusion
f = frames(B=2, poses=torch.eye(4).view(1, 1, 4, 4).repeat(2, 1, 1, 1))
m = update_map_fusion(Pointclouds(), f, 0.05, -1, 0.6)
n = m.num_points_per_pointcloud.tolist()
m = update_map_fusion(m, f, 0.05, -1, 0.6)
check(m.num_points_per_pointcloud.tolist() == n, "points were added for matched pixels")
""")
