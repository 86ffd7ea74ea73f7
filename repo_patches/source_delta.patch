From b3abdce99a4ab61f9936b42733f9002aabca8ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 01/38] fix: list assignment on Pointclouds left stale padded
 tensors or dropped padded-only attributes

The normals/colors/features list setters reset a misspelled attribute, so the
padded representation kept the old values. Assigning points_list made the next
padded read rebuild all attributes from their lists, losing those which existed
in padded form only.
---
 gradslam/structures/pointclouds.py | 31 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 0dc49cd..4aeac81 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -847,7 +847,7 @@ class Pointclouds(object):
         """
         self._assert_set_list(value)
         self._normals_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._normals_padded = None
 
     @colors_list.setter
     def colors_list(self, value: List[torch.Tensor]):
@@ -861,7 +861,7 @@ class Pointclouds(object):
         """
         self._assert_set_list(value)
         self._colors_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._colors_padded = None
 
     @features_list.setter
     def features_list(self, value: List[torch.Tensor]):
@@ -875,7 +875,7 @@ class Pointclouds(object):
         """
         self._assert_set_list(value, first_dim_only=True)
         self._features_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._features_padded = None
 
     @points_padded.setter
     def points_padded(self, value: torch.Tensor):
@@ -954,18 +954,17 @@ class Pointclouds(object):
         if not self.has_points:
             return
 
-        if not (refresh or self._points_padded is None):
-            return
-
-        self._points_padded = structutils.list_to_padded(
-            self._points_list,
-            (self._N, 3),
-            pad_value=0.0,
-            equisized=self.equisized,
-        )
+        if self._points_list is not None and (refresh or self._points_padded is None):
+            self._points_padded = structutils.list_to_padded(
+                self._points_list,
+                (self._N, 3),
+                pad_value=0.0,
+                equisized=self.equisized,
+            )
         self._normals_padded = (
-            None
+            self._normals_padded
             if self._normals_list is None
+            or not (refresh or self._normals_padded is None)
             else structutils.list_to_padded(
                 self._normals_list,
                 (self._N, 3),
@@ -974,8 +973,9 @@ class Pointclouds(object):
             )
         )
         self._colors_padded = (
-            None
+            self._colors_padded
             if self._colors_list is None
+            or not (refresh or self._colors_padded is None)
             else structutils.list_to_padded(
                 self._colors_list,
                 (self._N, 3),
@@ -984,8 +984,9 @@ class Pointclouds(object):
             )
         )
         self._features_padded = (
-            None
+            self._features_padded
             if self._features_list is None
+            or not (refresh or self._features_padded is None)
             else structutils.list_to_padded(
                 self._features_list,
                 (self._N, self.num_features),
-- 
2.43.0


From 9cc6e263f4c03da1bad6db500e58e2af7e70b40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 02/38] fix: Pointclouds.clone of a padded-only batch treated
 ragged clouds as equal-sized

After e.g. rotate_ only the padded tensors exist; the clone built from them kept
equisized=True, so its padding mask covered padding (and later padded reads
failed). Attributes which existed in list form only were dropped.
---
 gradslam/structures/pointclouds.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 4aeac81..bcdded4 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1023,13 +1023,13 @@ class Pointclouds(object):
         elif self._points_padded is not None:
             new_points = self._points_padded.clone()
             new_normals = (
-                None if self._normals_padded is None else self._normals_padded.clone()
+                None if self.normals_padded is None else self.normals_padded.clone()
             )
             new_colors = (
-                None if self._colors_padded is None else self._colors_padded.clone()
+                None if self.colors_padded is None else self.colors_padded.clone()
             )
             new_features = (
-                None if self._features_padded is None else self._features_padded.clone()
+                None if self.features_padded is None else self.features_padded.clone()
             )
 
         other = Pointclouds(
@@ -1038,6 +1038,7 @@ class Pointclouds(object):
             colors=new_colors,
             features=new_features,
         )
+        other.equisized = self.equisized
         for k in self._INTERNAL_TENSORS:
             v = getattr(self, k)
             if torch.is_tensor(v):
-- 
2.43.0


From 30bea1644426d49bf62c138df60accd3e64c603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 03/38] fix: has_normals/has_colors/has_features stayed False
 after assigning the attribute

The flags are cached on first read and were not updated by the setters, so later
operations (indexing, appending) dropped the newly assigned attribute.
---
 gradslam/structures/pointclouds.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index bcdded4..0ce5923 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -848,6 +848,7 @@ class Pointclouds(object):
         self._assert_set_list(value)
         self._normals_list = [v.clone().to(self.device) for v in value]
         self._normals_padded = None
+        self._has_normals = True
 
     @colors_list.setter
     def colors_list(self, value: List[torch.Tensor]):
@@ -862,6 +863,7 @@ class Pointclouds(object):
         self._assert_set_list(value)
         self._colors_list = [v.clone().to(self.device) for v in value]
         self._colors_padded = None
+        self._has_colors = True
 
     @features_list.setter
     def features_list(self, value: List[torch.Tensor]):
@@ -876,6 +878,7 @@ class Pointclouds(object):
         self._assert_set_list(value, first_dim_only=True)
         self._features_list = [v.clone().to(self.device) for v in value]
         self._features_padded = None
+        self._has_features = True
 
     @points_padded.setter
     def points_padded(self, value: torch.Tensor):
@@ -910,6 +913,7 @@ class Pointclouds(object):
         self._assert_set_padded(value)
         self._normals_padded = value.clone().to(self.device)
         self._normals_list = None
+        self._has_normals = True
 
     @colors_padded.setter
     def colors_padded(self, value: torch.Tensor):
@@ -927,6 +931,7 @@ class Pointclouds(object):
         self._assert_set_padded(value)
         self._colors_padded = value.clone().to(self.device)
         self._colors_list = None
+        self._has_colors = True
 
     @features_padded.setter
     def features_padded(self, value: torch.Tensor):
@@ -944,6 +949,7 @@ class Pointclouds(object):
         self._assert_set_padded(value, first_2_dims_only=True)
         self._features_padded = value.clone().to(self.device)
         self._features_list = None
+        self._has_features = True
 
     def _compute_padded(self, refresh: bool = False):
         r"""Computes the padded version of pointclouds.
-- 
2.43.0


From 900fdd4bc9b89b8f353e003121114ef03124c82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 04/38] fix: Pointclouds.to with a device string aliased or
 copied wrongly

A str never compares equal to a torch.device, so to("cpu") on cpu returned a new
object, and to("cpu", copy=True) shared the padded tensors with the original.
---
 gradslam/structures/pointclouds.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 0ce5923..6d35a50 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1085,13 +1085,14 @@ class Pointclouds(object):
         Returns:
             gradslam.Pointclouds
         """
+        # hack to know which gpu is used when device("cuda")
+        device = torch.Tensor().to(device).device
         if not copy and self.device == device:
             return self
 
         other = self.clone()
         if self.device != device:
-            # hack to know which gpu is used when device("cuda")
-            other.device = torch.Tensor().to(device).device
+            other.device = device
             if other._points_list is not None:
                 other._points_list = [p.to(device) for p in other._points_list]
             if other._normals_list is not None:
-- 
2.43.0


From 40fb3720cdbed2f9a050d764386e582ffe10e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 05/38] fix: RGBDImages.to(copy=True) on the same device shared
 its tensors with the original

---
 gradslam/structures/rgbdimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 4ab0011..7c66f7c 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -518,7 +518,7 @@ class RGBDImages(object):
         other.device = device
 
         for k in self._INTERNAL_TENSORS:
-            v = getattr(self, k)
+            v = getattr(other, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.to(device))
 
-- 
2.43.0


From fb686e92562c84efe081e3ea0e2196f6c93be838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 06/38] fix: assigning RGBDImages.depth_image raised
 AttributeError

The setter checks against _depth_image_shape, which __init__ named _depth_shape
(it only existed after an in-place channel conversion).
---
 gradslam/structures/rgbdimages.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 7c66f7c..b86d1f8 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -118,7 +118,7 @@ class RGBDImages(object):
             raise ValueError(msg)
 
         self._rgb_image_shape = rgb_image.shape
-        self._depth_shape = tuple(
+        self._depth_image_shape = tuple(
             v if i != self.cdim else 1 for i, v in enumerate(rgb_image.shape)
         )
         self._intrinsics_shape = (rgb_image.shape[0], 1, 4, 4)
@@ -133,9 +133,9 @@ class RGBDImages(object):
         if rgb_image.shape[self.cdim] != 3:
             msg = "Expected rgb_image to have 3 channels on dimension {0}. Got {1} instead"
             raise ValueError(msg.format(self.cdim, rgb_image.shape[self.cdim]))
-        if depth_image.shape != self._depth_shape:
+        if depth_image.shape != self._depth_image_shape:
             msg = "Expected depth_image to have shape {0}. Got {1} instead"
-            raise ValueError(msg.format(self._depth_shape, depth_image.shape))
+            raise ValueError(msg.format(self._depth_image_shape, depth_image.shape))
         if intrinsics.shape != self._intrinsics_shape:
             msg = "Expected intrinsics to have shape {0}. Got {1} instead"
             raise ValueError(msg.format(self._intrinsics_shape, intrinsics.shape))
-- 
2.43.0


From 4cc183ab63cc5c8b03f2559634411bba6ee8565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 07/38] fix: RGBDImages.valid_depth_mask went stale on depth
 assignment and channel conversion

---
 gradslam/structures/rgbdimages.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index b86d1f8..321379a 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -423,6 +423,7 @@ class RGBDImages(object):
         if value is not None:
             self._assert_shape(value, self._depth_image_shape)
         self._depth_image = value
+        self._valid_depth_mask = None
         self._vertex_map = None
         self._normal_map = None
         self._global_vertex_map = None
@@ -588,6 +589,7 @@ class RGBDImages(object):
         self._global_vertex_map = permute(self._global_vertex_map, ordering)
         self._normal_map = permute(self._normal_map, ordering)
         self._global_normal_map = permute(self._global_normal_map, ordering)
+        self._valid_depth_mask = permute(self._valid_depth_mask, ordering)
 
         self._channels_first = False
         self._rgb_image_shape = tuple(self._rgb_image.shape)
@@ -610,6 +612,7 @@ class RGBDImages(object):
         self._global_vertex_map = permute(self._global_vertex_map, ordering)
         self._normal_map = permute(self._normal_map, ordering)
         self._global_normal_map = permute(self._global_normal_map, ordering)
+        self._valid_depth_mask = permute(self._valid_depth_mask, ordering)
 
         self._channels_first = True
         self._rgb_image_shape = tuple(self._rgb_image.shape)
-- 
2.43.0


From 756fe82879dde903bc13f41aaea77a2e524ef99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 08/38] fix: fuse_with_map(inplace=False) modified the map it
 was given

The matched points were merged into the argument before it was cloned.
---
 gradslam/slam/fusionutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index b5d89a2..badab24 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -650,6 +650,9 @@ def fuse_with_map(
                 "Pointclouds must have features (ccounts) for map fusion, but did not."
             )
 
+    if not inplace:
+        pointclouds = pointclouds.clone()
+
     # Fuse points (from live frame) with corresponding global map points
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
@@ -715,8 +718,6 @@ def fuse_with_map(
     new_pointclouds = Pointclouds(
         points=new_points, normals=new_normals, colors=new_colors, features=new_features
     )
-    if not inplace:
-        pointclouds = pointclouds.clone()
     pointclouds.append_points(new_pointclouds)
 
     return pointclouds
-- 
2.43.0


From efed79c5d4456e0a6542564e1dbfd089afab9a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 09/38] fix: map fusion misread frames in channels first layout

find_similar_map_points, find_best_unique_correspondences and fuse_with_map index
the frame maps as (B, L, H, W, C).
---
 gradslam/slam/fusionutils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index badab24..69ddc25 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -378,6 +378,7 @@ def find_similar_map_points(
             "Pointclouds must have normals for finding similar map points, but did not."
         )
 
+    rgbdimages = rgbdimages.to_channels_last()
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
 
@@ -491,6 +492,7 @@ def find_best_unique_correspondences(
     inv_ccounts = 1 / (
         pointclouds.features_padded[pc2im_bnhw[:, 0], pc2im_bnhw[:, 1]] + 1e-20
     )  # shape: [P 1]
+    rgbdimages = rgbdimages.to_channels_last()
     # compute ray dist
     frame_points = rgbdimages.global_vertex_map[
         pc2im_bnhw[:, 0], 0, pc2im_bnhw[:, 2], pc2im_bnhw[:, 3]
@@ -654,6 +656,7 @@ def fuse_with_map(
         pointclouds = pointclouds.clone()
 
     # Fuse points (from live frame) with corresponding global map points
+    rgbdimages = rgbdimages.to_channels_last()
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
     rgb_image = rgbdimages.rgb_image
-- 
2.43.0


From a2da1ee176c8ac2504cd7776f12792cb83ca4a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 10/38] fix: correspondences pointed at wrong map points in
 maps of more than 2^24 points

Point numbers went through float32.
---
 gradslam/slam/fusionutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 69ddc25..17cb684 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -510,11 +510,11 @@ def find_best_unique_correspondences(
     )
     # unique criteria: [B, H, W, 1/ccounts, ray_dists, N]
     unique_criteria_bhwcrn = [
-        pc2im_bnhw[:, 0:1].float(),
-        pc2im_bnhw[:, 2:4].float(),
+        pc2im_bnhw[:, 0:1].double(),
+        pc2im_bnhw[:, 2:4].double(),
         inv_ccounts,
         ray_dists,
-        pc2im_bnhw[:, 1:2].float(),
+        pc2im_bnhw[:, 1:2].double(),
     ]
     unique_criteria_bhwcrn = torch.cat(unique_criteria_bhwcrn, -1)
 
-- 
2.43.0


From 4d8676685ceace9abbbfaa8cff7e9a49b7064b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 11/38] fix: SLAM step(inplace=False) overwrote the poses of
 live_frame

---
 gradslam/slam/icpslam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/slam/icpslam.py b/gradslam/slam/icpslam.py
index ea337f7..ca4893f 100644
--- a/gradslam/slam/icpslam.py
+++ b/gradslam/slam/icpslam.py
@@ -173,6 +173,8 @@ class ICPSLAM(nn.Module):
                     type(live_frame)
                 )
             )
+        if not inplace:
+            live_frame = live_frame[:, :]  # poses are set below: keep the input as is
         live_frame.poses = self._localize(pointclouds, live_frame, prev_frame)
         pointclouds = self._map(pointclouds, live_frame, inplace)
         return pointclouds, live_frame.poses
-- 
2.43.0


From 17d96e90be01d45d890f8d8967a8f99d021aafbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 12/38] fix: point-to-plane ICP without initial transform
 raised AttributeError

The documented default initial_transform=None was dereferenced by the shape checks.
---
 gradslam/odometry/icputils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index b7ecc42..738cfd2 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -295,13 +295,15 @@ def point_to_plane_ICP(
         raise TypeError(
             "Expected numiters to be of type int. Got {0}.".format(type(numiters))
         )
-    if initial_transform.ndim != 2:
+    if initial_transform is not None and initial_transform.ndim != 2:
         raise ValueError(
             "Expected initial_transform.ndim to be 2. Got {0}.".format(
                 initial_transform.ndim
             )
         )
-    if not (initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4):
+    if initial_transform is not None and not (
+        initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4
+    ):
         raise ValueError(
             "Expected initial_transform.shape to be (4, 4). Got {0}.".format(
                 initial_transform.shape
@@ -464,13 +466,15 @@ def point_to_plane_gradICP(
         raise TypeError(
             "Expected nu to be of type float or int; got {0}".format(type(nu))
         )
-    if initial_transform.ndim != 2:
+    if initial_transform is not None and initial_transform.ndim != 2:
         raise ValueError(
             "Expected initial_transform.ndim to be 2. Got {0}.".format(
                 initial_transform.ndim
             )
         )
-    if not (initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4):
+    if initial_transform is not None and not (
+        initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4
+    ):
         raise ValueError(
             "Expected initial_transform.shape to be (4, 4). Got {0}.".format(
                 initial_transform.shape
-- 
2.43.0


From 4a2c56bbdf9dfa003d72b37f4d9ad9245e68c5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 13/38] fix: downsample_rgbdimages misread frames in channels
 first layout

---
 gradslam/odometry/icputils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 738cfd2..70dc6ae 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -652,6 +652,7 @@ def downsample_rgbdimages(rgbdimages: RGBDImages, ds_ratio: int) -> Pointclouds:
             )
         )
 
+    rgbdimages = rgbdimages.to_channels_last()
     B = len(rgbdimages)
 
     # Valid depths mask
-- 
2.43.0


From 02e9359a1ddab8fbc39f6460f4b5280a97257f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 14/38] fix: merging changed frozen configurations

merge_from_list, merge_from_other_cfg and merge_from_file assigned items of an
immutable CfgNode without complaint.
---
 gradslam/config/cfgnode.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index 661eda1..f24aefd 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -233,7 +233,17 @@ class CfgNode(dict):
             _assert_with_logging(subkey in d, "Non-existent key: {}".format(full_key))
             value = self._decode_cfg_value(v)
             value = _check_and_coerce_cfg_value_type(value, d[subkey], subkey, full_key)
-            d[subkey] = value
+            d._merge_item(subkey, value)
+
+    def _merge_item(self, name: str, value):
+        r"""Sets a (checked) value when merging, unless this `CfgNode` is immutable. """
+        if self.is_frozen():
+            raise AttributeError(
+                "Attempted to set {} to {}, but CfgNode is immutable".format(
+                    name, value
+                )
+            )
+        self[name] = value
 
     def freeze(self):
         r"""Make this `CfgNode` and all of its children immutable. """
@@ -449,9 +459,9 @@ def _merge_a_into_b(a: CfgNode, b: CfgNode, root: CfgNode, key_list: list):
                 except BaseException:
                     raise
             else:
-                b[k] = v
+                b._merge_item(k, v)
         elif b.is_new_allowed():
-            b[k] = v
+            b._merge_item(k, v)
         else:
             if root.key_is_deprecated(full_key):
                 continue
-- 
2.43.0


From d96437e534e2711d7612afc1d98b2f49560b7d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 15/38] fix: merge_from_list stored the caller's list object in
 the configuration

Unlike the other merges it did not copy, so later changes to the list showed in
the configuration.
---
 gradslam/config/cfgnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index f24aefd..cfb9ed3 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -231,7 +231,7 @@ class CfgNode(dict):
                 d = d[subkey]
             subkey = key_list[-1]
             _assert_with_logging(subkey in d, "Non-existent key: {}".format(full_key))
-            value = self._decode_cfg_value(v)
+            value = self._decode_cfg_value(copy.deepcopy(v))
             value = _check_and_coerce_cfg_value_type(value, d[subkey], subkey, full_key)
             d._merge_item(subkey, value)
 
-- 
2.43.0


From 854ac2cad5388291e137d0389270244b14d14dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 16/38] fix: ICL returned the poses of other frames when start
 > 0

Pose line numbers were counted from the first frame of the requested range.
---
 gradslam/datasets/icl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index a1f5e1c..ea2032a 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -320,7 +320,7 @@ class ICL(data.Dataset):
                 with open(posesfile, "r") as f:
                     len_posesfile = sum(1 for line in f)
 
-            for line_num, line in enumerate(lines):
+            for line_num, line in enumerate(lines, start):
                 line = line.strip().split()
                 msg = "incorrect reading from ICL associations"
                 if line[3][:3] != "rgb":
-- 
2.43.0


From bf50149c534e7b1c81355edc109dd68d24589c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 17/38] fix: Scannet cut off or overran full sequences of
 different lengths

With end=-1, every item was read with the length of the last sequence.
---
 gradslam/datasets/scannet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gradslam/datasets/scannet.py b/gradslam/datasets/scannet.py
index 9871eb6..38e6d0f 100644
--- a/gradslam/datasets/scannet.py
+++ b/gradslam/datasets/scannet.py
@@ -105,6 +105,7 @@ class Scannet(data.Dataset):
         self.start = start
         self.end = end
         full_sequence = self.end == -1
+        self.full_sequence = full_sequence
         if start < 0:
             raise ValueError("Start frame cannot be less than 0.")
         if not (end == -1 or end > start):
@@ -228,7 +229,9 @@ class Scannet(data.Dataset):
 
         color_seq, depth_seq, pose_seq, label_seq = [], [], [], []
         poses = []
-        for i in range(self.seqlen):
+        # full sequences can be of different lengths
+        seqlen = len(color_seq_path) if self.full_sequence else self.seqlen
+        for i in range(seqlen):
             color = np.asarray(imageio.imread(color_seq_path[i]), dtype=float)
             color = self._preprocess_color(color)
             color = torch.from_numpy(color)
-- 
2.43.0


From 47f8d5fefbaa4e15ffd55d71797851dd2cbb35d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 18/38] fix: create_label_image failed for the documented
 palette dictionaries

It iterated over the class names; only a plain list of colors worked.
---
 gradslam/datasets/datautils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/datasets/datautils.py b/gradslam/datasets/datautils.py
index 5e2f3f2..113555d 100644
--- a/gradslam/datasets/datautils.py
+++ b/gradslam/datasets/datautils.py
@@ -258,6 +258,8 @@ def create_label_image(prediction: np.ndarray, color_palette: OrderedDict):
     label_image = np.zeros(
         (prediction.shape[0], prediction.shape[1], 3), dtype=np.uint8
     )
+    if isinstance(color_palette, dict):
+        color_palette = color_palette.values()
     for idx, color in enumerate(color_palette):
         label_image[prediction == idx] = color
     return label_image
-- 
2.43.0


From 97ba07caed9f0a1beccdb7198ffff5f8286a97f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 19/38] fix: pointquaternion_to_homogeneous normalised the
 caller's tensor in place

float() and slicing do not copy a float32 tensor, so the in-place division changed
the quaternions given.
---
 gradslam/datasets/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/datautils.py b/gradslam/datasets/datautils.py
index 113555d..4397304 100644
--- a/gradslam/datasets/datautils.py
+++ b/gradslam/datasets/datautils.py
@@ -177,7 +177,7 @@ def pointquaternion_to_homogeneous(
         )
 
     q_norm = (0.5 * (q ** 2).sum(-1)[..., None]) ** 0.5
-    q /= (
+    q = q / (
         torch.max(q_norm, torch.tensor(eps))
         if torch.is_tensor(q_norm)
         else np.maximum(q_norm, eps)
-- 
2.43.0


From 09bb97a880b0fe921a72d5ec9f5162860524505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 20/38] fix: transform44 raised TypeError for a zero quaternion
 (missing commas)

---
 gradslam/datasets/tumutils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index 156068e..f4d2de8 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -73,9 +73,10 @@ def transform44(l: tuple):
     if nq < _EPS:
         return np.array(
             (
-                (1.0, 0.0, 0.0, t[0])(0.0, 1.0, 0.0, t[1])(0.0, 0.0, 1.0, t[2])(
-                    0.0, 0.0, 0.0, 1.0
-                )
+                (1.0, 0.0, 0.0, t[0]),
+                (0.0, 1.0, 0.0, t[1]),
+                (0.0, 0.0, 1.0, t[2]),
+                (0.0, 0.0, 0.0, 1.0),
             ),
             dtype=np.float64,
         )
-- 
2.43.0


From 6cad92623c5719c2c9fdf4dc26f42fc624b6f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 21/38] fix: reading a trajectory with NaN lines raised
 NameError (missing import)

---
 gradslam/datasets/tumutils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index f4d2de8..c4c28fd 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -46,6 +46,7 @@ and joining them by finding the best matches.
 from typing import Optional
 
 import numpy as np
+import sys
 import warnings
 
 __all__ = ["read_trajectory", "read_file_list", "associate"]
-- 
2.43.0


From 2d1daffedf4b68aa49d84a92840bc7af2144c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 22/38] fix: associate ordered time stamps as strings instead
 of by time

'10.0' sorted before '9.0', so TUM frames came out of temporal order when
the number of digits before the decimal point changes.
---
 gradslam/datasets/tumutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index c4c28fd..26aa329 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -206,7 +206,7 @@ def associate(
         for b in second_keys
         if abs(float(a) - (float(b) + offset)) < max_difference
     ]
-    potential_matches.sort()
+    potential_matches.sort(key=lambda m: (m[0], float(m[1]), float(m[2])))
     matches = []
     for diff, a, b in potential_matches:
         if a in first_keys and b in second_keys:
@@ -214,5 +214,5 @@ def associate(
             second_keys.remove(b)
             matches.append((a, b))
 
-    matches.sort()
+    matches.sort(key=lambda m: (float(m[0]), float(m[1])))
     return matches
-- 
2.43.0


From 7b2ba75e3533443695d2eb579ff0a4c32f102607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 23/38] fix: inverting and composing batches of 3D transforms
 failed

matmul of (N, 3, 3) with (N, 3) is not a batched matrix-vector product: it
raised an error for most batch sizes and mixed up the elements for N = 3.
---
 gradslam/geometry/geometryutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index f594540..3f7749e 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -230,7 +230,7 @@ def inverse_transfom_3d(trans: torch.Tensor):
 
     # Compute the inverse
     rmat_inv: torch.Tensor = torch.transpose(rmat, -1, -2)
-    tvec_inv: torch.Tensor = torch.matmul(-rmat_inv, tvec)
+    tvec_inv: torch.Tensor = torch.matmul(-rmat_inv, tvec.unsqueeze(-1)).squeeze(-1)
 
     # Pack the inverse rotation and translation into tensor
     trans_inv: torch.Tensor = torch.zeros_like(trans)
@@ -290,7 +290,9 @@ def compose_transforms_3d(trans1: torch.Tensor, trans2: torch.Tensor) -> torch.T
 
     # Compute the composition
     rmat_cat: torch.Tensor = torch.matmul(rmat1, rmat2)
-    tvec_cat: torch.Tensor = torch.matmul(rmat1, tvec2) + tvec1
+    tvec_cat: torch.Tensor = (
+        torch.matmul(rmat1, tvec2.unsqueeze(-1)).squeeze(-1) + tvec1
+    )
 
     # Pack into output tensor
     trans_cat: torch.Tensor = torch.zeros_like(trans1)
-- 
2.43.0


From 5daffb546188469726ebb2cc49855d0eb15c731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 24/38] fix: transform_pts_3d returned an empty tensor for N x
 3 points

---
 gradslam/geometry/geometryutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 3f7749e..564ade7 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -354,7 +354,7 @@ def transform_pts_3d(pts_b: torch.Tensor, t_ab: torch.Tensor) -> torch.Tensor:
             t_ab.unsqueeze(0).unsqueeze(0), pts_b.unsqueeze(-1)
         ).squeeze(-1)
     else:
-        pts_a_homo = torch.matmul(t_ab.unsqueeze(0), pts_b.unsqueeze(-1))
+        pts_a_homo = torch.matmul(t_ab.unsqueeze(0), pts_b.unsqueeze(-1)).squeeze(-1)
     pts_a = unhomogenize_points(pts_a_homo)
 
     return pts_a[..., :3]
-- 
2.43.0


From 047e505679567f230861234fe16f0c5ac0f8e7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 25/38] fix: ICP compared its distance limit with squared
 distances

---
 gradslam/odometry/icputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 70dc6ae..d545b7e 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -203,7 +203,7 @@ def gauss_newton_solve(
     dist_filter = (
         torch.ones_like(dist1[0], dtype=torch.bool)
         if dist_thresh is None
-        else dist1[0] < dist_thresh
+        else dist1[0].sqrt() < dist_thresh  # knn_points returns squared distances
     )
     chamfer_indices = idx1[0][dist_filter].long()
 
-- 
2.43.0


From e09f54f5bdc9e87ac1edbcd13dfe73cd0f5ff7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:50 +0000
Subject: [PATCH 26/38] fix: read_trajectory failed on lines with only
 whitespace and misread indented lines

---
 gradslam/datasets/tumutils.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index 26aa329..5c48350 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -114,14 +114,9 @@ def read_trajectory(filename: str, matrix: bool = True):
     lines = data.replace(",", " ").replace("\t", " ").split("\n")
     list = []
     for line in lines:
-        line_list = []
-        if len(line) > 0 and line[0] != "#":
-            for n, v in enumerate(line.split(" ")):
-                v = v.strip()
-                if v != "":
-                    v = float(v) if n > 0 else v
-                    line_list.append(v)
-            list.append(line_list)
+        line_list = line.split()
+        if len(line_list) > 0 and line[0] != "#":
+            list.append(line_list[:1] + [float(v) for v in line_list[1:]])
     list_ok = []
     for i, l in enumerate(list):
         if l[4:8] == [0, 0, 0, 0]:
-- 
2.43.0


From 9f80e3dbeda765b4fb55c0eb69c57b18698e58fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:53 +0000
Subject: [PATCH 27/38] fix: read_file_list counted lines without data when
 selecting a range of frames

---
 gradslam/datasets/tumutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index 5c48350..da86ea7 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -171,8 +171,8 @@ def read_file_list(
     if end > len(lines):
         msg = '"end" was larger than number of frames in "{0}": {1} > {2}'
         warnings.warn(msg.format(filename, end, len(lines)))
-    list = list[start:end]
     list = [(l[0], l[1:]) for l in list if len(l) > 1]
+    list = list[start:end]
     return dict(list)
 
 
-- 
2.43.0


From a38e44387d9e38e9e9e54d9feb6860fc6b3eeec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:05 +0000
Subject: [PATCH 28/38] fix: ICL accepted frames whose pose is missing from the
 poses file

---
 gradslam/datasets/icl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index ea2032a..94628ba 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -335,7 +335,7 @@ class ICL(data.Dataset):
                 )
 
                 if self.load_poses:
-                    if line_num * 4 > len_posesfile:
+                    if line_num * 4 + 3 > len_posesfile:
                         msg = '{0}th pose should start from line {1} of file "{2}", but said file has only {3} lines.'
                         raise ValueError(
                             msg.format(
-- 
2.43.0


From 2f19d6bed842fa93ab4de3a2229f5d724e594c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:06 +0000
Subject: [PATCH 29/38] fix: sequence list files ending with a newline were
 refused

---
 gradslam/datasets/icl.py | 2 +-
 gradslam/datasets/tum.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index 94628ba..a95ff20 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -211,7 +211,7 @@ class ICL(data.Dataset):
         if isinstance(trajectories, str):
             if os.path.isfile(trajectories):
                 with open(trajectories, "r") as f:
-                    trajectories = tuple(f.read().split("\n"))
+                    trajectories = tuple(f.read().split())
                 valid_trajectory_dirs = list(trajectories)
             else:
                 raise ValueError(
diff --git a/gradslam/datasets/tum.py b/gradslam/datasets/tum.py
index 41e2a70..415edbb 100644
--- a/gradslam/datasets/tum.py
+++ b/gradslam/datasets/tum.py
@@ -196,7 +196,7 @@ class TUM(data.Dataset):
         if isinstance(sequences, str):
             if os.path.isfile(sequences):
                 with open(sequences, "r") as f:
-                    sequences = tuple(f.read().split("\n"))
+                    sequences = tuple(f.read().split())
             else:
                 raise ValueError(
                     "incorrect filename: {} doesn't exist".format(sequences)
-- 
2.43.0


From 0a01e8e44bc5074e2432ec6deead06740c8d5e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:06 +0000
Subject: [PATCH 30/38] fix: Scannet accepted a frame range that runs past the
 end of a sequence

---
 gradslam/datasets/scannet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gradslam/datasets/scannet.py b/gradslam/datasets/scannet.py
index 38e6d0f..6a4eb61 100644
--- a/gradslam/datasets/scannet.py
+++ b/gradslam/datasets/scannet.py
@@ -145,9 +145,9 @@ class Scannet(data.Dataset):
                 if full_sequence:
                     self.end = len(lines)
                     self.seqlen = self.end - self.start
-                if self.seqlen > len(lines):
-                    msg = "sequence length can't be larger than dataset sequence length but it was: %r > %r"
-                    raise ValueError(msg % (self.seqlen, len(lines)))
+                if self.end > len(lines):
+                    msg = "end can't be larger than dataset sequence length but it was: %r > %r"
+                    raise ValueError(msg % (self.end, len(lines)))
                 lines = lines[self.start : self.end]
 
             for line in lines:
-- 
2.43.0


From f74cf5068a6b34e376b05ab720e8cb330cb1a344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:06 +0000
Subject: [PATCH 31/38] fix: all items of TUM and ICL shared one intrinsics
 tensor

---
 gradslam/datasets/icl.py | 2 +-
 gradslam/datasets/tum.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index a95ff20..046bd96 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -446,7 +446,7 @@ class ICL(data.Dataset):
             output.append(depth_seq)
 
         if self.return_intrinsics:
-            intrinsics = self.intrinsics
+            intrinsics = self.intrinsics.clone()
             output.append(intrinsics)
 
         if self.return_pose:
diff --git a/gradslam/datasets/tum.py b/gradslam/datasets/tum.py
index 415edbb..3706f06 100644
--- a/gradslam/datasets/tum.py
+++ b/gradslam/datasets/tum.py
@@ -408,7 +408,7 @@ class TUM(data.Dataset):
             output.append(depth_seq)
 
         if self.return_intrinsics:
-            intrinsics = self.intrinsics
+            intrinsics = self.intrinsics.clone()
             output.append(intrinsics)
 
         if self.return_pose:
-- 
2.43.0


From d8eb786880e099f9d616deaf3fb0a2386d21fc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:17 +0000
Subject: [PATCH 32/38] fix: so3_exp and se3_exp: exact value and derivative
 for small rotations

---
 gradslam/geometry/se3utils.py | 81 ++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 39 deletions(-)

diff --git a/gradslam/geometry/se3utils.py b/gradslam/geometry/se3utils.py
index e2fd57e..5eaa595 100644
--- a/gradslam/geometry/se3utils.py
+++ b/gradslam/geometry/se3utils.py
@@ -5,7 +5,7 @@ Operations over the Lie Group SE(3), for rigid-body transformations in 3D
 import torch
 
 # Threshold to determine if a quantity can be considered 'small'
-_eps = 1e-6
+_eps = 1e-2
 
 
 def so3_hat(omega: torch.Tensor) -> torch.Tensor:
@@ -44,6 +44,26 @@ def se3_hat(xi: torch.Tensor) -> torch.Tensor:
     return xi_hat
 
 
+def _rodrigues_coefficients(omega: torch.Tensor):
+    r"""Returns :math:`\sin(\theta) / \theta`, :math:`(1 - \cos(\theta)) / \theta^2` and
+    :math:`(\theta - \sin(\theta)) / \theta^3`, where :math:`\theta` is the norm of omega. Small angles use
+    the Taylor series, as the closed forms (and their derivatives) cancel or are undefined there.
+
+    """
+    theta_sq = (omega * omega).sum()
+    if theta_sq < _eps ** 2:
+        A = 1 - theta_sq / 6 * (1 - theta_sq / 20)
+        B = 0.5 - theta_sq / 24 * (1 - theta_sq / 30)
+        C = 1.0 / 6 - theta_sq / 120 * (1 - theta_sq / 42)
+    else:
+        theta = theta_sq.sqrt()
+        A = theta.sin() / theta
+        B = 0.5 * torch.pow((0.5 * theta).sin() / (0.5 * theta), 2)
+        C = (1 - A) / theta_sq
+
+    return A, B, C
+
+
 def so3_exp(omega: torch.Tensor) -> torch.Tensor:
     """Computes the exponential map for the coordinate-vector omega.
     Returns a 3 x 3 SO(3) matrix.
@@ -54,22 +74,14 @@ def so3_exp(omega: torch.Tensor) -> torch.Tensor:
 
     omega_hat = so3_hat(omega)
 
-    if omega.norm() < _eps:
-        R = torch.eye(3, 3).type(omega.dtype).to(omega.device) + omega_hat
-    else:
-        theta = omega.norm()
-        s = theta.sin()
-        c = theta.cos()
-        omega_hat_sq = omega_hat.mm(omega_hat)
-        # Coefficients of the Rodrigues formula
-        A = s / theta
-        B = (1 - c) / torch.pow(theta, 2)
-        C = (theta - s) / torch.pow(theta, 3)
-        R = (
-            torch.eye(3, 3).type(omega.dtype).to(omega.device)
-            + A * omega_hat
-            + B * omega_hat_sq
-        )
+    omega_hat_sq = omega_hat.mm(omega_hat)
+    # Coefficients of the Rodrigues formula
+    A, B, _ = _rodrigues_coefficients(omega)
+    R = (
+        torch.eye(3, 3).type(omega.dtype).to(omega.device)
+        + A * omega_hat
+        + B * omega_hat_sq
+    )
 
     return R
 
@@ -86,28 +98,19 @@ def se3_exp(xi: torch.Tensor) -> torch.Tensor:
     omega = xi[3:]
     omega_hat = so3_hat(omega)
 
-    if omega.norm() < _eps:
-        R = torch.eye(3, 3).type(omega.dtype).to(omega.device) + omega_hat
-        V = torch.eye(3, 3).type(omega.dtype).to(omega.device) + omega_hat
-    else:
-        theta = omega.norm()
-        s = theta.sin()
-        c = theta.cos()
-        omega_hat_sq = omega_hat.mm(omega_hat)
-        # Coefficients of the Rodrigues formula
-        A = s / theta
-        B = (1 - c) / torch.pow(theta, 2)
-        C = (theta - s) / torch.pow(theta, 3)
-        R = (
-            torch.eye(3, 3).type(omega.dtype).to(omega.device)
-            + A * omega_hat
-            + B * omega_hat_sq
-        )
-        V = (
-            torch.eye(3, 3).type(omega.dtype).to(omega.device)
-            + B * omega_hat
-            + C * omega_hat_sq
-        )
+    omega_hat_sq = omega_hat.mm(omega_hat)
+    # Coefficients of the Rodrigues formula
+    A, B, C = _rodrigues_coefficients(omega)
+    R = (
+        torch.eye(3, 3).type(omega.dtype).to(omega.device)
+        + A * omega_hat
+        + B * omega_hat_sq
+    )
+    V = (
+        torch.eye(3, 3).type(omega.dtype).to(omega.device)
+        + B * omega_hat
+        + C * omega_hat_sq
+    )
 
     t = torch.mm(V, v.view(3, 1))
     last_row = torch.tensor([0, 0, 0, 1]).type(omega.dtype).to(omega.device)
-- 
2.43.0


From b36a441ce1bd9df3ece9b35c28984b933ee00fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:17 +0000
Subject: [PATCH 33/38] fix: quaternion_to_axisangle: derivative at the
 identity was NaN

---
 gradslam/geometry/geometryutils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 564ade7..6a84be0 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -104,7 +104,10 @@ def quaternion_to_axisangle(quat: torch.Tensor) -> torch.Tensor:
     qy: torch.Tensor = quat[..., 1]
     qz: torch.Tensor = quat[..., 2]
     sin_sq_theta: torch.Tensor = qx * qx + qy * qy + qz * qz
-    sin_theta: torch.Tensor = torch.sqrt(sin_sq_theta)
+    # sqrt has no derivative at 0: keep the identity out of it
+    sin_theta: torch.Tensor = torch.sqrt(
+        torch.where(sin_sq_theta > 0.0, sin_sq_theta, torch.ones_like(sin_sq_theta))
+    )
     cos_theta: torch.Tensor = quat[..., 3]
     two_theta: torch.Tensor = 2.0 * torch.where(
         cos_theta < 0.0,
@@ -113,7 +116,11 @@ def quaternion_to_axisangle(quat: torch.Tensor) -> torch.Tensor:
     )
 
     k_pos: torch.Tensor = two_theta / sin_theta
-    k_neg: torch.Tensor = 2.0 * torch.ones_like(sin_theta)
+    k_neg: torch.Tensor = torch.where(
+        cos_theta < 0.0,
+        -2.0 * torch.ones_like(sin_theta),
+        2.0 * torch.ones_like(sin_theta),
+    )
     k: torch.Tensor = torch.where(sin_sq_theta > 0.0, k_pos, k_neg)
 
     axisangle: torch.Tensor = torch.zeros_like(quat)[..., :3]
-- 
2.43.0


From 7ec6a163b49ad8aa1b5d17e0b52a0a0038be65dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:26 +0000
Subject: [PATCH 34/38] fix: unhomogenize_points: derivative of points at
 infinity was NaN

---
 gradslam/geometry/geometryutils.py | 5 ++++-
 gradslam/geometry/projutils.py     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 6a84be0..25b6fc6 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -71,7 +71,10 @@ def unhomogenize_points(pts: torch.Tensor, eps: float = 1e-6) -> torch.Tensor:
     # For points at infinity, use a scale factor of 1 (used by OpenCV
     # and by kornia)
     # https://github.com/opencv/opencv/pull/14411/files
-    scale: torch.Tensor = torch.where(torch.abs(w) > eps, 1.0 / w, torch.ones_like(w))
+    # (and keep them out of the division, whose derivative there is infinite)
+    ones: torch.Tensor = torch.ones_like(w)
+    finite = torch.abs(w) > eps
+    scale: torch.Tensor = torch.where(finite, 1.0 / torch.where(finite, w, ones), ones)
 
     return scale * pts[..., :-1]
 
diff --git a/gradslam/geometry/projutils.py b/gradslam/geometry/projutils.py
index c02a8d6..ae05be8 100644
--- a/gradslam/geometry/projutils.py
+++ b/gradslam/geometry/projutils.py
@@ -84,7 +84,10 @@ def unhomogenize_points(pts: torch.Tensor, eps: float = 1e-6) -> torch.Tensor:
     # For points at infinity, use a scale factor of 1 (used by OpenCV
     # and by kornia)
     # https://github.com/opencv/opencv/pull/14411/files
-    scale: torch.Tensor = torch.where(torch.abs(w) > eps, 1.0 / w, torch.ones_like(w))
+    # (and keep them out of the division, whose derivative there is infinite)
+    ones: torch.Tensor = torch.ones_like(w)
+    finite = torch.abs(w) > eps
+    scale: torch.Tensor = torch.where(finite, 1.0 / torch.where(finite, w, ones), ones)
 
     return scale * pts[..., :-1]
 
-- 
2.43.0


From a93914e1b881794ff042b574f7a79a2099c485dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:57 +0000
Subject: [PATCH 35/38] fix: export of a point cloud without points to open3d
 and plotly

The colour range test took the maximum of an empty tensor, which raises,
so a coloured cloud with no (selected) points could not be shown.
---
 gradslam/structures/pointclouds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 6d35a50..1e7eba5 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1287,7 +1287,7 @@ class Pointclouds(object):
             if subsample:
                 torch_colors = torch_colors[point_inds]
             # if colors > 1, assume 255 range
-            if (torch_colors.max() > 1.1).item():
+            if (torch_colors > 1.1).any().item():
                 torch_colors = torch_colors / 255
             torch_colors = torch.clamp(torch_colors, min=0.0, max=1.0)
             numpy_colors = torch_colors.detach().cpu().numpy()
@@ -1347,7 +1347,7 @@ class Pointclouds(object):
             if subsample:
                 torch_colors = torch_colors[point_inds]
             # if colors > 1, assume 255 range
-            if (torch_colors.max() < 1.1).item():
+            if (torch_colors < 1.1).all().item():
                 torch_colors = torch_colors * 255
             torch_colors = torch.clamp(torch_colors, min=0.0, max=255.0)
             numpy_colors = torch_colors.detach().cpu().numpy().astype("uint8")
-- 
2.43.0


From 22def40b84637e0f04636c69f29a7b692fdac817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:57 +0000
Subject: [PATCH 36/38] fix: RGBDImages.plotly with channels first

The images were read as if the channels were last: the frames shown were
wrong or could not be encoded.
---
 gradslam/structures/rgbdimages.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 321379a..7e6d590 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -813,6 +813,10 @@ class RGBDImages(object):
             }
 
         torch_rgb = self.rgb_image[index]
+        torch_depth = self.depth_image[index]
+        if self.channels_first:
+            torch_rgb = torch_rgb.permute(0, 2, 3, 1).contiguous()
+            torch_depth = torch_depth.permute(0, 2, 3, 1).contiguous()
         if (torch_rgb.max() < 1.1).item():
             torch_rgb = torch_rgb * 255
         torch_rgb = torch.clamp(torch_rgb, min=0.0, max=255.0)
@@ -822,7 +826,7 @@ class RGBDImages(object):
         if not include_depth:
             frames = [{"data": [frame], "name": i} for i, frame in enumerate(Image_rgb)]
         else:
-            torch_depth = self.depth_image[index, ..., 0]
+            torch_depth = torch_depth[..., 0]
             scale = 10 ** torch.log10(255.0 / torch_depth.detach().max()).floor().item()
             numpy_depth = (torch_depth * scale).detach().cpu().numpy().astype("uint8")
             Image_depth = [
-- 
2.43.0


From e31591e24d327b4b61511ff67ec91d9478c11e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:57 +0000
Subject: [PATCH 37/38] fix: RGBDImages.plotly of frames without any depth

All depths missing made the display scale infinite, which raises
OverflowError.
---
 gradslam/structures/rgbdimages.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 7e6d590..4a50c3b 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -827,7 +827,10 @@ class RGBDImages(object):
             frames = [{"data": [frame], "name": i} for i, frame in enumerate(Image_rgb)]
         else:
             torch_depth = torch_depth[..., 0]
-            scale = 10 ** torch.log10(255.0 / torch_depth.detach().max()).floor().item()
+            max_depth = torch_depth.detach().max()
+            scale = 1.0
+            if max_depth > 0:
+                scale = 10 ** torch.log10(255.0 / max_depth).floor().item()
             numpy_depth = (torch_depth * scale).detach().cpu().numpy().astype("uint8")
             Image_depth = [
                 numpy_to_plotly_image(d, i, True, scale)
-- 
2.43.0


From ee5c8e03f0487abdeeae048ec3f5731b536fb394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:14 +0000
Subject: [PATCH 38/38] fix: colour range of a subsampled export depended on
 the sample

Whether colours are in 0-1 or 0-255 was decided from the points sampled,
so dark points of a 0-255 cloud were sometimes shown bright.
---
 gradslam/structures/pointclouds.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 1e7eba5..8a41196 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1284,11 +1284,11 @@ class Pointclouds(object):
 
         if self.has_colors and include_colors:
             torch_colors = self.colors_list[index]
-            if subsample:
-                torch_colors = torch_colors[point_inds]
             # if colors > 1, assume 255 range
             if (torch_colors > 1.1).any().item():
                 torch_colors = torch_colors / 255
+            if subsample:
+                torch_colors = torch_colors[point_inds]
             torch_colors = torch.clamp(torch_colors, min=0.0, max=1.0)
             numpy_colors = torch_colors.detach().cpu().numpy()
             pcd.colors = o3d.utility.Vector3dVector(numpy_colors)
@@ -1344,11 +1344,11 @@ class Pointclouds(object):
 
         if self.has_colors and include_colors:
             torch_colors = self.colors_list[index]
-            if subsample:
-                torch_colors = torch_colors[point_inds]
             # if colors > 1, assume 255 range
             if (torch_colors < 1.1).all().item():
                 torch_colors = torch_colors * 255
+            if subsample:
+                torch_colors = torch_colors[point_inds]
             torch_colors = torch.clamp(torch_colors, min=0.0, max=255.0)
             numpy_colors = torch_colors.detach().cpu().numpy().astype("uint8")
             marker_dict["color"] = numpy_colors
-- 
2.43.0

