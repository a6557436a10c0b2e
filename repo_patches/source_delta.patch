From b5cab0a8fb5218c1b98f69a4c6176eb440c3647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 01/27] fix: group kernels interleaved input and output
 elements when their grids differ in size

---
 gconv/gnn/kernels/kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index 93cabc6..93202f9 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -274,8 +274,8 @@ class GSeparableKernel(GroupKernel):
                 **self.sample_H_kwargs,
             )
             .view(
-                num_in_H,
                 num_out_H,
+                num_in_H,
                 self.in_channels // self.groups,
                 self.out_channels,
                 *self.weight_dims,
@@ -364,8 +364,8 @@ class GSubgroupKernel(GroupKernel):
                 **self.sample_H_kwargs,
             )
             .view(
-                num_in_H,
                 num_out_H,
+                num_in_H,
                 self.in_channels // self.groups,
                 self.out_channels,
                 *self.kernel_size,
-- 
2.43.0


From 1ece79fdd1669f2aadc47ec040d76b57c3fafc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 02/27] fix: kernels of orientation reversing elements were
 multiplied by -1

---
 gconv/gnn/kernels/kernel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index 93202f9..e248a81 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -190,7 +190,7 @@ class GLiftingKernel(GroupKernel):
             weight = self.mask * weight
 
         if self.det_H is not None:
-            weight = weight / self.det_H(H).view(-1, 1, *self.weight_dims)
+            weight = weight / self.det_H(H).abs().view(-1, 1, *self.weight_dims)
 
         return weight
 
@@ -300,7 +300,7 @@ class GSeparableKernel(GroupKernel):
             weight = self.mask * weight
 
         if self.det_H is not None:
-            weight = weight / self.det_H(out_H).view(-1, 1, *self.weight_dims)
+            weight = weight / self.det_H(out_H).abs().view(-1, 1, *self.weight_dims)
 
         return weight_H, weight
 
@@ -479,6 +479,6 @@ class GKernel(GroupKernel):
             weight = self.mask * weight
 
         if self.det_H is not None:
-            weight = weight / self.det_H(out_H).view(-1, 1, *self.weight_dims)
+            weight = weight / self.det_H(out_H).abs().view(-1, 1, *self.weight_dims)
 
         return weight
-- 
2.43.0


From fe8039595785270a6ad496797df6bf967717c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 03/27] fix: SE2 kernels ignored mask=False

---
 gconv/gnn/kernels/kernel_sen/kernel_se2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/kernels/kernel_sen/kernel_se2.py b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
index 0c66f67..517019a 100644
--- a/gconv/gnn/kernels/kernel_sen/kernel_se2.py
+++ b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
@@ -42,7 +42,7 @@ class GLiftingKernelSE2(GLiftingKernel):
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         sample_Rn_kwargs = {
             "mode": sampling_mode,
@@ -117,7 +117,7 @@ class GSeparableKernelSE2(GSeparableKernel):
             "padding_mode": spatial_sampling_padding_mode,
         }
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         super().__init__(
             in_channels,
@@ -190,7 +190,7 @@ class GKernelSE2(GKernel):
             "padding_mode": spatial_sampling_padding_mode,
         }
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         super().__init__(
             in_channels,
-- 
2.43.0


From e95c343b5a4ac768a2e3a451b72f9e8ddc7f14ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 04/27] fix: nearest neighbour distance of SO2 grids counted
 the element itself

---
 gconv/geometry/groups/so2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so2.py b/gconv/geometry/groups/so2.py
index e4c352b..2cf30bd 100644
--- a/gconv/geometry/groups/so2.py
+++ b/gconv/geometry/groups/so2.py
@@ -237,4 +237,4 @@ def nearest_neighbour_distance(grid: Tensor) -> Tensor:
     Arguments:
         grid: tensor of shape (N, 1) of rotation angles.
     """
-    return (geodesic_distance(grid[:, None], grid)).min(-1)[0]
+    return geodesic_distance(grid[:, None], grid).sort(-1)[0][:, 1]
-- 
2.43.0


From 07edf8b8a4eac1881a501ef6be222784b66a79bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 05/27] fix: E3 kernels computed default widths from O3 vectors
 read as quaternions

---
 gconv/gnn/kernels/kernel_en/kernel_e3.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gconv/gnn/kernels/kernel_en/kernel_e3.py b/gconv/gnn/kernels/kernel_en/kernel_e3.py
index 3f754ed..a6a509e 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e3.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e3.py
@@ -126,13 +126,17 @@ class GSeparableKernelE3(GSeparableKernel):
         if not group_rotation_sampling_width:
             group_rotation_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[: group_kernel_size[0]]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[: group_kernel_size[0], 1:].view(-1, 3, 3)
+                ).mean()
             )
 
         if not group_reflection_sampling_width:
             group_reflection_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[group_kernel_size[0] :]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[group_kernel_size[0] :, 1:].view(-1, 3, 3)
+                ).mean()
             )
 
         sample_H_kwargs = {
@@ -220,13 +224,17 @@ class GKernelE3(GKernel):
         if not group_rotation_sampling_width:
             group_rotation_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[: group_kernel_size[0]]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[: group_kernel_size[0], 1:].view(-1, 3, 3)
+                ).mean()
             )
 
         if not group_reflection_sampling_width:
             group_reflection_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[group_kernel_size[0] :]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[group_kernel_size[0] :, 1:].view(-1, 3, 3)
+                ).mean()
             )
 
         sample_H_kwargs = {
-- 
2.43.0


From ba64d649bd9f16a570f4d959c09befcca82690b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 06/27] fix: R2 reference grid was transposed with respect to
 grid_sample

---
 gconv/gnn/functional/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/gnn/functional/grid.py b/gconv/gnn/functional/grid.py
index 9fcdee6..ff80efa 100644
--- a/gconv/gnn/functional/grid.py
+++ b/gconv/gnn/functional/grid.py
@@ -36,6 +36,6 @@ def create_grid_R2(size: int, device: str | None = None) -> Tensor:
         - Tensor containing R3 grid of shape (size, size, size, 3).
     """
     x = torch.linspace(-1, 1, size, device=device)
-    X, Y = torch.meshgrid((x, x), indexing="xy")
+    X, Y = torch.meshgrid((x, x), indexing="ij")
 
     return torch.stack((Y, X), dim=-1)
-- 
2.43.0


From 7261d511f2042637d437a1d279c9cf06759b5924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 07/27] fix: kernels of size 1 were masked to zero

---
 gconv/gnn/functional/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gconv/gnn/functional/grid.py b/gconv/gnn/functional/grid.py
index ff80efa..76285ac 100644
--- a/gconv/gnn/functional/grid.py
+++ b/gconv/gnn/functional/grid.py
@@ -18,6 +18,7 @@ def create_grid_R3(size: int, device: str | None = None) -> Tensor:
         - Tensor containing R3 grid of shape (size, size, size, 3).
     """
     x = torch.linspace(-1, 1, size, device=device)
+    x = x if size > 1 else torch.zeros_like(x)
     X, Y, Z = torch.meshgrid(x, x, x, indexing="ij")
 
     return torch.stack((Z, Y, X), dim=-1)
@@ -36,6 +37,7 @@ def create_grid_R2(size: int, device: str | None = None) -> Tensor:
         - Tensor containing R3 grid of shape (size, size, size, 3).
     """
     x = torch.linspace(-1, 1, size, device=device)
+    x = x if size > 1 else torch.zeros_like(x)
     X, Y = torch.meshgrid((x, x), indexing="ij")
 
     return torch.stack((Y, X), dim=-1)
-- 
2.43.0


From 96b16c7ef0273b0250455616b4cadf2229b5591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 08/27] fix: spatial pooling dropped the spatial axes

---
 gconv/gnn/modules/pooling.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gconv/gnn/modules/pooling.py b/gconv/gnn/modules/pooling.py
index 560c8e6..84952e1 100644
--- a/gconv/gnn/modules/pooling.py
+++ b/gconv/gnn/modules/pooling.py
@@ -10,7 +10,7 @@ class GMaxSpatialPool2d(nn.MaxPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GMaxSpatialPool3d(nn.MaxPool3d):
@@ -19,7 +19,7 @@ class GMaxSpatialPool3d(nn.MaxPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GMaxGroupPool(nn.Module):
@@ -46,7 +46,7 @@ class GAvgSpatialPool2d(nn.AvgPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAvgSpatialPool3d(nn.AvgPool3d):
@@ -55,7 +55,7 @@ class GAvgSpatialPool3d(nn.AvgPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAvgGroupPool(nn.Module):
@@ -82,7 +82,7 @@ class GAdaptiveMaxSpatialPool2d(nn.AdaptiveMaxPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveMaxSpatialPool3d(nn.AdaptiveMaxPool3d):
@@ -91,7 +91,7 @@ class GAdaptiveMaxSpatialPool3d(nn.AdaptiveMaxPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveAvgSpatialPool2d(nn.AdaptiveAvgPool2d):
@@ -100,7 +100,7 @@ class GAdaptiveAvgSpatialPool2d(nn.AdaptiveAvgPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveAvgSpatialPool3d(nn.AdaptiveAvgPool3d):
@@ -109,4 +109,4 @@ class GAdaptiveAvgSpatialPool3d(nn.AdaptiveAvgPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
-- 
2.43.0


From ad0d323812df814974bd5ee51a23fe83786e9108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 09/27] fix: group and global max pooling returned indices
 along with the values

---
 gconv/gnn/modules/pooling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/modules/pooling.py b/gconv/gnn/modules/pooling.py
index 84952e1..36d8a34 100644
--- a/gconv/gnn/modules/pooling.py
+++ b/gconv/gnn/modules/pooling.py
@@ -28,7 +28,7 @@ class GMaxGroupPool(nn.Module):
     """
 
     def forward(self, x: Tensor, _: Optional[Tensor] = None) -> Tensor:
-        return x.max(dim=2)
+        return x.max(dim=2)[0]
 
 
 class GMaxGlobalPool(nn.Module):
@@ -37,7 +37,7 @@ class GMaxGlobalPool(nn.Module):
     """
 
     def forward(self, x: Tensor, _: Optional[Tensor] = None) -> Tensor:
-        return x.flatten(2, -1).max(-1, keepdim=True)
+        return x.flatten(2, -1).max(-1, keepdim=True)[0]
 
 
 class GAvgSpatialPool2d(nn.AvgPool2d):
-- 
2.43.0


From 89f7e28842297f46386d59aa672d0db07620fbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 10/27] fix: GWrap could not be constructed

---
 gconv/gnn/modules/wrappers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gconv/gnn/modules/wrappers.py b/gconv/gnn/modules/wrappers.py
index 6388146..d62ff01 100644
--- a/gconv/gnn/modules/wrappers.py
+++ b/gconv/gnn/modules/wrappers.py
@@ -13,6 +13,8 @@ class GWrap(nn.Module):
         Arguments:
             - module: nn.Module.
         """
+        super().__init__()
+
         self.module = module
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-- 
2.43.0


From 1902f907d7c6fc95223436c053c9d90a8ef88987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 11/27] fix: quaternion product raised instead of multiplying

---
 gconv/geometry/groups/so3.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 2ebe2ab..176faaa 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -186,7 +186,7 @@ def left_apply_quat(q1: Tensor, q2: Tensor) -> Tensor:
     """
     q = q1.new_empty(q1.shape)
 
-    cross = torch.cross(q1[..., 1:], q2[..., 1:])
+    cross = torch.cross(q1[..., 1:], q2[..., 1:], dim=-1)
 
     q[..., 0] = (
         q1[..., 0] * q2[..., 0]
@@ -194,9 +194,9 @@ def left_apply_quat(q1: Tensor, q2: Tensor) -> Tensor:
         - q1[..., 2] * q2[..., 2]
         - q1[..., 3] * q2[..., 3]
     )
-    q[..., 1] = q1[..., 0] * q2[..., 1] + q2[..., 0], q1[..., 1] + cross[..., 0]
-    q[..., 2] = q1[..., 0] * q2[..., 2] + q2[..., 0], q1[..., 2] + cross[..., 1]
-    q[..., 3] = q1[..., 0] * q2[..., 3] + q2[..., 0], q1[..., 3] + cross[..., 2]
+    q[..., 1] = q1[..., 0] * q2[..., 1] + q2[..., 0] * q1[..., 1] + cross[..., 0]
+    q[..., 2] = q1[..., 0] * q2[..., 2] + q2[..., 0] * q1[..., 2] + cross[..., 1]
+    q[..., 3] = q1[..., 0] * q2[..., 3] + q2[..., 0] * q1[..., 3] + cross[..., 2]
 
     return q
 
-- 
2.43.0


From 0e5bd99a59140ef8e20b6294f4d2b403e8a50a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 12/27] fix: uniform_grid handed out the cached tensor itself
 and ignored device

---
 gconv/geometry/groups/so3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 176faaa..a30782f 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -574,7 +574,7 @@ def uniform_grid(
     if size == 0:
         return torch.Tensor([], device=device)
     try:
-        return _grid_cache.load_grid(size, "so3", parameterization)
+        return _grid_cache.load_grid(size, "so3", parameterization).clone().to(device)
     except KeyError:
         pass
 
-- 
2.43.0


From 7731b4ae4e3b3e55e89d202f5deb75cbeb759214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 13/27] fix: grids were cached as Euler angles under the
 requested parameterization

---
 gconv/geometry/groups/_grid_cache.py | 3 ++-
 gconv/geometry/groups/so3.py         | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index 58ddc6c..5b92c5c 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -19,7 +19,8 @@ def save_grid(
             pass
         else:
             return
-    _grid_cache[grid_type.lower()][parameterization.lower()][grid.shape[0]] = grid
+    grids = _grid_cache[grid_type.lower()].setdefault(parameterization.lower(), {})
+    grids[grid.shape[0]] = grid.clone()
 
 
 def load_grid(size: str, grid_type: str, parameterization: str) -> Tensor:
diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index a30782f..3401b06 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -604,10 +604,12 @@ def uniform_grid(
         in_place=True,
     )
 
+    grid = param_fn(grid)
+
     if cache_grid:
         _grid_cache.save_grid(grid, "so3", parameterization)
 
-    return param_fn(grid)
+    return grid
 
 
 def quaternion_log(q: Tensor) -> Tensor:
-- 
2.43.0


From 70dd7fba3877d3ed87d32c27be2ff91194a1328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 14/27] fix: cached matrix grid of size 1 lacked the element
 axis

---
 gconv/geometry/groups/_grid_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index 5b92c5c..e85455b 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -424,7 +424,7 @@ _grid_cache: dict[str, dict[str, dict[int, Tensor]]] = {
             ),
         },
         "matrix": {
-            1: Tensor([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
+            1: Tensor([[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]]),
             2: Tensor(
                 [
                     [
-- 
2.43.0


From baf6c2829604a23a53c1c289cfb37d48c179a19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 15/27] fix: rotation grids and O(n) coefficients ignored or
 rejected device

---
 gconv/geometry/groups/o2.py  |  2 +-
 gconv/geometry/groups/o3.py  |  2 +-
 gconv/geometry/groups/so3.py | 24 +++++++++++++++---------
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/gconv/geometry/groups/o2.py b/gconv/geometry/groups/o2.py
index e10a908..b1fa299 100644
--- a/gconv/geometry/groups/o2.py
+++ b/gconv/geometry/groups/o2.py
@@ -54,7 +54,7 @@ def random_grid(size: int, device: str | None = None) -> Tensor:
     """
     angles = so2.random_grid(size, device=device)
 
-    coeffs = (2 * (torch.rand(size, 1) > 0.5)) - 1
+    coeffs = (2 * (torch.rand(size, 1, device=device) > 0.5)) - 1
 
     return torch.cat((coeffs, angles), dim=-1)
 
diff --git a/gconv/geometry/groups/o3.py b/gconv/geometry/groups/o3.py
index 9f226e7..aaf2870 100644
--- a/gconv/geometry/groups/o3.py
+++ b/gconv/geometry/groups/o3.py
@@ -55,7 +55,7 @@ def random_grid(size: int | tuple, device: Optional[str] = None) -> Tensor:
         Tensor of shape size of random O3 elements.
     """
     R = so3.random_matrix(size, device=device).flatten(-2, -1)
-    coeffs = ((torch.rand(size, 1) > 0.5) * 2) - 1
+    coeffs = ((torch.rand(size, 1, device=device) > 0.5) * 2) - 1
 
     return torch.cat((coeffs, R), dim=-1)
 
diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 3401b06..0c11e06 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -572,7 +572,7 @@ def uniform_grid(
         - Tensor containing uniform grid on SO3.
     """
     if size == 0:
-        return torch.Tensor([], device=device)
+        return torch.tensor([], device=device)
     try:
         return _grid_cache.load_grid(size, "so3", parameterization).clone().to(device)
     except KeyError:
@@ -733,7 +733,7 @@ def identity(device: Optional[str] = None) -> Tensor:
     Returns:
        - Tensor containing group elements.
     """
-    return torch.Tensor([[1.0, 0.0, 0.0, 0.0]], device=device)
+    return torch.tensor([[1.0, 0.0, 0.0, 0.0]], device=device)
 
 
 def klein_group(device: Optional[str] = None) -> Tensor:
@@ -746,7 +746,7 @@ def klein_group(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [1.0, 0.0, 0.0, 0.0],
             [0.0, 0.0, 0.0, 1.0],
@@ -767,7 +767,7 @@ def tetrahedral(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [0.0, 1.0, 0.0, 0.0],
             [0.0, 0.0, 1.0, 0.0],
@@ -796,7 +796,7 @@ def octahedral(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [0.0, 1.0, 0.0, 0.0],
             [0.0, 0.0, 1.0, 0.0],
@@ -837,7 +837,7 @@ def icosahedral(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [0.0, 1.0, 0.0, 0.0],
             [0.0, 0.0, 1.0, 0.0],
@@ -915,7 +915,9 @@ def cyclic_x(n: int, device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor of shape (n, 4).
     """
-    return matrix_to_quat(matrix_x(torch.linspace(0, 2 * pi, n + 1)[:-1]))
+    return matrix_to_quat(
+        matrix_x(torch.linspace(0, 2 * pi, n + 1, device=device)[:-1])
+    )
 
 
 def cyclic_y(n: int, device: Optional[str] = None) -> Tensor:
@@ -929,7 +931,9 @@ def cyclic_y(n: int, device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor of shape (n, 4).
     """
-    return matrix_to_quat(matrix_y(torch.linspace(0, 2 * pi, n + 1)[:-1]))
+    return matrix_to_quat(
+        matrix_y(torch.linspace(0, 2 * pi, n + 1, device=device)[:-1])
+    )
 
 
 def cyclic_z(n: int, device: Optional[str] = None) -> Tensor:
@@ -943,7 +947,9 @@ def cyclic_z(n: int, device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor of shape (n, 4).
     """
-    return matrix_to_quat(matrix_z(torch.linspace(0, 2 * pi, n + 1)[:-1]))
+    return matrix_to_quat(
+        matrix_z(torch.linspace(0, 2 * pi, n + 1, device=device)[:-1])
+    )
 
 
 def cyclic(n: int, axis: str, device: Optional[str] = None) -> Tensor:
-- 
2.43.0


From 737826d7763495b7a5f6e9cccf9f729a3706bf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 16/27] fix: o3.random_grid rejected tuple sizes

---
 gconv/geometry/groups/o3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/o3.py b/gconv/geometry/groups/o3.py
index aaf2870..b341099 100644
--- a/gconv/geometry/groups/o3.py
+++ b/gconv/geometry/groups/o3.py
@@ -55,7 +55,7 @@ def random_grid(size: int | tuple, device: Optional[str] = None) -> Tensor:
         Tensor of shape size of random O3 elements.
     """
     R = so3.random_matrix(size, device=device).flatten(-2, -1)
-    coeffs = ((torch.rand(size, 1, device=device) > 0.5) * 2) - 1
+    coeffs = ((torch.rand(*R.shape[:-1], 1, device=device) > 0.5) * 2) - 1
 
     return torch.cat((coeffs, R), dim=-1)
 
-- 
2.43.0


From 70dff415ab1a56a653aa9f6ebfd0c1d7fd7a9911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 17/27] fix: spherical_to_euler_neg_gamma neither negated gamma
 nor kept its axis

---
 gconv/geometry/groups/s2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/s2.py b/gconv/geometry/groups/s2.py
index e1ee67b..b0b7f59 100644
--- a/gconv/geometry/groups/s2.py
+++ b/gconv/geometry/groups/s2.py
@@ -75,7 +75,7 @@ def spherical_to_euler(g: Tensor) -> Tensor:
 
 
 def spherical_to_euler_neg_gamma(g: Tensor) -> Tensor:
-    minus_gamma = g[:, 1]
+    minus_gamma = -g[:, 1:]
     return torch.hstack((minus_gamma, g))
 
 
-- 
2.43.0


From 4055144271f4ad1d115cc08e0826de145a19ac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 18/27] fix: uniform_grid_s2 failed with UnboundLocalError for
 unknown parameterizations

---
 gconv/geometry/groups/s2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gconv/geometry/groups/s2.py b/gconv/geometry/groups/s2.py
index b0b7f59..3d64579 100644
--- a/gconv/geometry/groups/s2.py
+++ b/gconv/geometry/groups/s2.py
@@ -125,6 +125,8 @@ def uniform_grid_s2(
         case "quat":
             add_alpha = True
             param_fn = so3.euler_to_quat
+        case _:
+            raise ValueError(f"unknown parameterization `{parameterization=}`.")
 
     grid = random_s2((n,), device=device)
 
-- 
2.43.0


From b2bce8f5600df19ad7a3cf7e73d519bfd3f7009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 19/27] fix: matrix_to_quat and matrix_to_euler supported a
 single batch axis only

---
 gconv/geometry/groups/so3.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 0c11e06..d2a382c 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -263,7 +263,7 @@ def matrix_to_quat(r: Tensor) -> Tensor:
     """
     q = r.new_empty(*r.shape[:-2], 4)
 
-    decision = torch.diagonal(r, 0, dim1=1, dim2=2)
+    decision = torch.diagonal(r, 0, dim1=-2, dim2=-1)
     decision = torch.cat((decision, torch.sum(decision, dim=-1, keepdim=True)), dim=-1)
 
     i = torch.argmax(decision, dim=-1)
@@ -316,13 +316,13 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     matrix_trans = torch.matmul(res, c.T)
 
     # step 4
-    matrix_trans[:, 2, 2] = torch.clamp(matrix_trans[:, 2, 2], -1, 1)
+    matrix_trans[..., 2, 2] = torch.clamp(matrix_trans[..., 2, 2], -1, 1)
 
-    g[:, 1] = torch.acos(matrix_trans[:, 2, 2])
+    g[..., 1] = torch.acos(matrix_trans[..., 2, 2])
 
     # step 5, 6
-    safe1 = torch.abs(g[:, 1]) >= eps
-    safe2 = torch.abs(g[:, 1] - pi) >= eps
+    safe1 = torch.abs(g[..., 1]) >= eps
+    safe2 = torch.abs(g[..., 1] - pi) >= eps
     safe = safe1 & safe2
 
     not_safe1 = ~safe1
@@ -343,7 +343,7 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     )
 
     # step 7
-    adjust_and_safe = ((g[:, 1] < 0) | (g[:, 1] > pi)) & safe
+    adjust_and_safe = ((g[..., 1] < 0) | (g[..., 1] > pi)) & safe
 
     g[adjust_and_safe, 0] -= pi
     g[adjust_and_safe, 1] *= -1
-- 
2.43.0


From 57e318705d329b5bec2217c62daecca8ca4ba710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 20/27] fix: separable convolution applied stride and padding
 twice

---
 gconv/gnn/modules/gconv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/modules/gconv.py b/gconv/gnn/modules/gconv.py
index 2bdf7ff..c1e3219 100644
--- a/gconv/gnn/modules/gconv.py
+++ b/gconv/gnn/modules/gconv.py
@@ -297,15 +297,16 @@ class GSeparableConvNd(GroupConvNd):
 
         weight_H, weight = self.kernel(in_H, out_H)
 
-        # subgroup conv
-        input = self._conv_forward(
+        # subgroup conv, pointwise: stride, padding, and dilation are spatial
+        pointwise_conv = F.conv2d if len(self.kernel_size) == 2 else F.conv3d
+        input = pointwise_conv(
             input.reshape(N, self.in_channels * num_in_H, *input_dims),
             weight_H.reshape(
                 self.out_channels * num_out_H,
                 (self.in_channels // self.groups) * num_in_H,
                 *weight_H.shape[4:],
             ),
-            self.groups,
+            groups=self.groups,
         )
 
         # spatial conv
-- 
2.43.0


From 2bd9b9da3fc1969f09920c85d9abb518668543b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 21/27] fix: importing gconv required matplotlib, which is not
 a dependency

---
 gconv/gnn/modules/gconv.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/gconv/gnn/modules/gconv.py b/gconv/gnn/modules/gconv.py
index c1e3219..5bf916a 100644
--- a/gconv/gnn/modules/gconv.py
+++ b/gconv/gnn/modules/gconv.py
@@ -5,8 +5,6 @@ Implements group convolution base modules.
 """
 from __future__ import annotations
 
-from matplotlib import pyplot as plt
-
 from gconv.gnn.kernels import (
     GroupKernel,
     GLiftingKernel,
-- 
2.43.0


From 6db3a9a85a71904e8b582dcf65c5adae79257601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 22/27] fix: __all__ of gconv.py advertised names that do not
 exist

---
 gconv/gnn/modules/gconv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gconv/gnn/modules/gconv.py b/gconv/gnn/modules/gconv.py
index 5bf916a..f532548 100644
--- a/gconv/gnn/modules/gconv.py
+++ b/gconv/gnn/modules/gconv.py
@@ -25,10 +25,10 @@ from torch import Tensor
 from torch.nn.modules.utils import _reverse_repeat_tuple, _pair, _triple
 
 __all__ = [
-    "GConvLifting2d",
-    "GConvLifting3d",
-    "GConvSeparable2d",
-    "GConvSeparable3d",
+    "GLiftingConv2d",
+    "GLiftingConv3d",
+    "GSeparableConv2d",
+    "GSeparableConv3d",
     "GConv2d",
     "GConv3d",
 ]
-- 
2.43.0


From 82b31c7b889971bd3d8926f6ab9e6f9113f7b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 23/27] fix: SO3 subgroup kernel defaulted to a quaternion grid
 but multiplies matrices

---
 gconv/gnn/kernels/kernel_sen/kernel_so3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/gnn/kernels/kernel_sen/kernel_so3.py b/gconv/gnn/kernels/kernel_sen/kernel_so3.py
index 8c80498..353c9ac 100644
--- a/gconv/gnn/kernels/kernel_sen/kernel_so3.py
+++ b/gconv/gnn/kernels/kernel_sen/kernel_so3.py
@@ -43,7 +43,7 @@ class GSubgroupKernelSO3(GSubgroupKernel):
                       generated. If provided, will overwrite given group_kernel_size.
         """
         if grid_H is None:
-            grid_H = so3.uniform_grid(size=group_kernel_size)
+            grid_H = so3.uniform_grid(group_kernel_size, "matrix")
 
         if not sampling_width:
             sampling_width = 0.8 * so3.nearest_neighbour_distance(grid_H).mean()
-- 
2.43.0


From 82044ef803d4fb799236c863e50b507b28546a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 24/27] fix: E2 and E3 kernels did not take the group kernel
 size from a given grid

---
 gconv/gnn/kernels/kernel_en/kernel_e2.py | 9 +++++++++
 gconv/gnn/kernels/kernel_en/kernel_e3.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/gconv/gnn/kernels/kernel_en/kernel_e2.py b/gconv/gnn/kernels/kernel_en/kernel_e2.py
index f3ba390..9076980 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e2.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e2.py
@@ -48,6 +48,9 @@ class GLiftingKernelE2(GLiftingKernel):
 
         if grid_H is None:
             grid_H = o2.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
@@ -120,6 +123,9 @@ class GSeparableKernelE2(GSeparableKernel):
 
         if grid_H is None:
             grid_H = o2.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
@@ -218,6 +224,9 @@ class GKernelE2(GKernel):
 
         if grid_H is None:
             grid_H = o2.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
diff --git a/gconv/gnn/kernels/kernel_en/kernel_e3.py b/gconv/gnn/kernels/kernel_en/kernel_e3.py
index a6a509e..5ef2a27 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e3.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e3.py
@@ -48,6 +48,9 @@ class GLiftingKernelE3(GLiftingKernel):
 
         if grid_H is None:
             grid_H = o3.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
@@ -120,6 +123,9 @@ class GSeparableKernelE3(GSeparableKernel):
 
         if grid_H is None:
             grid_H = o3.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
@@ -218,6 +224,9 @@ class GKernelE3(GKernel):
 
         if grid_H is None:
             grid_H = o3.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
-- 
2.43.0


From 2a1c880d54a3d4daa2c91ac6fce9bffdc9783d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 25/27] fix: angle_to_matrix rejected a single angle of shape
 (1,)

---
 gconv/geometry/groups/so2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/geometry/groups/so2.py b/gconv/geometry/groups/so2.py
index 2cf30bd..d039142 100644
--- a/gconv/geometry/groups/so2.py
+++ b/gconv/geometry/groups/so2.py
@@ -18,8 +18,8 @@ def angle_to_matrix(R: Tensor) -> Tensor:
     """
     matrices = R.new_empty((*R.shape[:-1], 2, 2))
 
-    cos_H = torch.cos(R).flatten(-2)
-    sin_H = torch.sin(R).flatten(-2)
+    cos_H = torch.cos(R).squeeze(-1)
+    sin_H = torch.sin(R).squeeze(-1)
 
     matrices[..., 0, 0] = cos_H
     matrices[..., 0, 1] = -sin_H
-- 
2.43.0


From db64365486948f0353372cb4243a4eeacb698b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 26/27] fix: kernels and ready-made layers did not reject a
 non-positive groups with a ValueError

---
 gconv/gnn/kernels/kernel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index e248a81..34fec6a 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -90,6 +90,9 @@ class GroupKernel(nn.Module):
         """
         super().__init__()
 
+        if groups <= 0:
+            raise ValueError("groups must be a positive integer")
+
         self.in_channels = in_channels
         self.out_channels = out_channels
 
-- 
2.43.0


From 851ad13c319817e3da1eb9e7cf66f0340bf22728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:01 +0000
Subject: [PATCH 27/27] fix: SE3 and E3 layers with output permutation failed
 in double precision

---
 gconv/gnn/modules/gconv_en/gconv_e3.py   | 12 +++++++++---
 gconv/gnn/modules/gconv_sen/gconv_se3.py |  8 +++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/gconv/gnn/modules/gconv_en/gconv_e3.py b/gconv/gnn/modules/gconv_en/gconv_e3.py
index 5f708fa..73fd52f 100644
--- a/gconv/gnn/modules/gconv_en/gconv_e3.py
+++ b/gconv/gnn/modules/gconv_en/gconv_e3.py
@@ -89,7 +89,9 @@ class GLiftingConvE3(GLiftingConv3d):
             H = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H = o3.left_apply_O3(o3.random_grid(1, device=input.device), H)
+            H = o3.left_apply_O3(
+                o3.random_grid(1, device=input.device).to(H.dtype), H
+            )
 
         return super().forward(input, H)
 
@@ -187,7 +189,9 @@ class GSeparableConvE3(GSeparableConv3d):
             H_out = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H_out = o3.left_apply_O3(o3.random_grid(1, device=input.device), H_out)
+            H_out = o3.left_apply_O3(
+                o3.random_grid(1, device=input.device).to(H_out.dtype), H_out
+            )
 
         return super().forward(input, H_in, H_out)
 
@@ -285,6 +289,8 @@ class GConvE3(GConv3d):
             H_out = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H_out = o3.left_apply_O3(o3.random_grid(1, device=input.device), H_out)
+            H_out = o3.left_apply_O3(
+                o3.random_grid(1, device=input.device).to(H_out.dtype), H_out
+            )
 
         return super().forward(input, H_in, H_out)
diff --git a/gconv/gnn/modules/gconv_sen/gconv_se3.py b/gconv/gnn/modules/gconv_sen/gconv_se3.py
index b104c7c..297ba17 100644
--- a/gconv/gnn/modules/gconv_sen/gconv_se3.py
+++ b/gconv/gnn/modules/gconv_sen/gconv_se3.py
@@ -84,7 +84,9 @@ class GLiftingConvSE3(GLiftingConv3d):
             H = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H = so3.left_apply_matrix(so3.random_matrix(1, device=input.device), H)
+            H = so3.left_apply_matrix(
+                so3.random_matrix(1, device=input.device).to(H.dtype), H
+            )
 
         return super().forward(input, H)
 
@@ -178,7 +180,7 @@ class GSeparableConvSE3(GSeparableConv3d):
 
         if self.permute_output_grid:
             out_H = so3.left_apply_matrix(
-                so3.random_matrix(1, device=input.device), out_H
+                so3.random_matrix(1, device=input.device).to(out_H.dtype), out_H
             )
 
         return super().forward(input, in_H, out_H)
@@ -273,7 +275,7 @@ class GConvSE3(GConv3d):
 
         if self.permute_output_grid:
             out_H = so3.left_apply_matrix(
-                so3.random_matrix(1, device=input.device), out_H
+                so3.random_matrix(1, device=input.device).to(out_H.dtype), out_H
             )
 
         return super().forward(input, in_H, out_H)
-- 
2.43.0

