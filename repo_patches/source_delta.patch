From f55693b7a7dac2070141aa8df7bdaf90ae38214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 01/32] fix: so3.left_apply_quat raised TypeError (comma
 instead of product)

---
 gconv/geometry/groups/so3.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 2ebe2ab..176faaa 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -186,7 +186,7 @@ def left_apply_quat(q1: Tensor, q2: Tensor) -> Tensor:
     """
     q = q1.new_empty(q1.shape)
 
-    cross = torch.cross(q1[..., 1:], q2[..., 1:])
+    cross = torch.cross(q1[..., 1:], q2[..., 1:], dim=-1)
 
     q[..., 0] = (
         q1[..., 0] * q2[..., 0]
@@ -194,9 +194,9 @@ def left_apply_quat(q1: Tensor, q2: Tensor) -> Tensor:
         - q1[..., 2] * q2[..., 2]
         - q1[..., 3] * q2[..., 3]
     )
-    q[..., 1] = q1[..., 0] * q2[..., 1] + q2[..., 0], q1[..., 1] + cross[..., 0]
-    q[..., 2] = q1[..., 0] * q2[..., 2] + q2[..., 0], q1[..., 2] + cross[..., 1]
-    q[..., 3] = q1[..., 0] * q2[..., 3] + q2[..., 0], q1[..., 3] + cross[..., 2]
+    q[..., 1] = q1[..., 0] * q2[..., 1] + q2[..., 0] * q1[..., 1] + cross[..., 0]
+    q[..., 2] = q1[..., 0] * q2[..., 2] + q2[..., 0] * q1[..., 2] + cross[..., 1]
+    q[..., 3] = q1[..., 0] * q2[..., 3] + q2[..., 0] * q1[..., 3] + cross[..., 2]
 
     return q
 
-- 
2.43.0


From 7e44c2577b82ee9c2109478f81835c2850073ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 02/32] fix: matrix_to_quat/matrix_to_euler fail for more (or
 less) than one batch dimension

---
 gconv/geometry/groups/so3.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 176faaa..c14023d 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -263,7 +263,7 @@ def matrix_to_quat(r: Tensor) -> Tensor:
     """
     q = r.new_empty(*r.shape[:-2], 4)
 
-    decision = torch.diagonal(r, 0, dim1=1, dim2=2)
+    decision = torch.diagonal(r, 0, dim1=-2, dim2=-1)
     decision = torch.cat((decision, torch.sum(decision, dim=-1, keepdim=True)), dim=-1)
 
     i = torch.argmax(decision, dim=-1)
@@ -316,13 +316,13 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     matrix_trans = torch.matmul(res, c.T)
 
     # step 4
-    matrix_trans[:, 2, 2] = torch.clamp(matrix_trans[:, 2, 2], -1, 1)
+    matrix_trans[..., 2, 2] = torch.clamp(matrix_trans[..., 2, 2], -1, 1)
 
-    g[:, 1] = torch.acos(matrix_trans[:, 2, 2])
+    g[..., 1] = torch.acos(matrix_trans[..., 2, 2])
 
     # step 5, 6
-    safe1 = torch.abs(g[:, 1]) >= eps
-    safe2 = torch.abs(g[:, 1] - pi) >= eps
+    safe1 = torch.abs(g[..., 1]) >= eps
+    safe2 = torch.abs(g[..., 1] - pi) >= eps
     safe = safe1 & safe2
 
     not_safe1 = ~safe1
@@ -343,7 +343,7 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     )
 
     # step 7
-    adjust_and_safe = ((g[:, 1] < 0) | (g[:, 1] > pi)) & safe
+    adjust_and_safe = ((g[..., 1] < 0) | (g[..., 1] > pi)) & safe
 
     g[adjust_and_safe, 0] -= pi
     g[adjust_and_safe, 1] *= -1
-- 
2.43.0


From b88b5605031a6d183e5b42fa932622e29faceb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 03/32] fix: o3.random_grid raised TypeError for a tuple size

---
 gconv/geometry/groups/o3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/o3.py b/gconv/geometry/groups/o3.py
index 9f226e7..141cbc7 100644
--- a/gconv/geometry/groups/o3.py
+++ b/gconv/geometry/groups/o3.py
@@ -55,7 +55,7 @@ def random_grid(size: int | tuple, device: Optional[str] = None) -> Tensor:
         Tensor of shape size of random O3 elements.
     """
     R = so3.random_matrix(size, device=device).flatten(-2, -1)
-    coeffs = ((torch.rand(size, 1) > 0.5) * 2) - 1
+    coeffs = ((torch.rand(*R.shape[:-1], 1) > 0.5) * 2) - 1
 
     return torch.cat((coeffs, R), dim=-1)
 
-- 
2.43.0


From fb9887d53f682005589846bf79c281523ffc855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 04/32] fix: so2.nearest_neighbour_distance counted each
 element as its own neighbour

---
 gconv/geometry/groups/so2.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so2.py b/gconv/geometry/groups/so2.py
index e4c352b..bf2c543 100644
--- a/gconv/geometry/groups/so2.py
+++ b/gconv/geometry/groups/so2.py
@@ -237,4 +237,8 @@ def nearest_neighbour_distance(grid: Tensor) -> Tensor:
     Arguments:
         grid: tensor of shape (N, 1) of rotation angles.
     """
-    return (geodesic_distance(grid[:, None], grid)).min(-1)[0]
+    dists = geodesic_distance(grid[:, None], grid)
+    # an element is not its own neighbour
+    dists.fill_diagonal_(torch.inf)
+
+    return dists.min(-1)[0]
-- 
2.43.0


From b7f8f7908b0f50436f4f0be454d12e01b5f878b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 05/32] fix: so3.nearest_neighbour_distance raised IndexError
 for a grid of one element

---
 gconv/geometry/groups/so3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index c14023d..acd9443 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -667,7 +667,11 @@ def nearest_neighbour_distance(q: Tensor) -> Tensor:
     if q.ndim == 3:
         q = matrix_to_quat(q)
 
-    return geodesic_distance(q[:, None], q).sort()[0][:, 1]
+    dists = geodesic_distance(q[:, None], q)
+    # an element is not its own neighbour
+    dists.fill_diagonal_(torch.inf)
+
+    return dists.min(-1)[0]
 
 
 def grid_sample(
-- 
2.43.0


From 6ad32d33fc54bb48f29dba30952a151cfcbba596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 06/32] fix: E3 kernels took sampling widths from the distance
 between flattened O3 vectors

---
 gconv/gnn/kernels/kernel_en/kernel_e3.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gconv/gnn/kernels/kernel_en/kernel_e3.py b/gconv/gnn/kernels/kernel_en/kernel_e3.py
index 3f754ed..a6a509e 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e3.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e3.py
@@ -126,13 +126,17 @@ class GSeparableKernelE3(GSeparableKernel):
         if not group_rotation_sampling_width:
             group_rotation_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[: group_kernel_size[0]]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[: group_kernel_size[0], 1:].view(-1, 3, 3)
+                ).mean()
             )
 
         if not group_reflection_sampling_width:
             group_reflection_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[group_kernel_size[0] :]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[group_kernel_size[0] :, 1:].view(-1, 3, 3)
+                ).mean()
             )
 
         sample_H_kwargs = {
@@ -220,13 +224,17 @@ class GKernelE3(GKernel):
         if not group_rotation_sampling_width:
             group_rotation_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[: group_kernel_size[0]]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[: group_kernel_size[0], 1:].view(-1, 3, 3)
+                ).mean()
             )
 
         if not group_reflection_sampling_width:
             group_reflection_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[group_kernel_size[0] :]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[group_kernel_size[0] :, 1:].view(-1, 3, 3)
+                ).mean()
             )
 
         sample_H_kwargs = {
-- 
2.43.0


From 1f8ebb2ef456494437ad75a8f9144a8a9cb616fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 07/32] fix: E2/E3 kernels could not be built without rotations
 or without reflections

---
 gconv/gnn/kernels/kernel_en/kernel_e2.py | 8 ++++----
 gconv/gnn/kernels/kernel_en/kernel_e3.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/gconv/gnn/kernels/kernel_en/kernel_e2.py b/gconv/gnn/kernels/kernel_en/kernel_e2.py
index f3ba390..5c4b366 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e2.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e2.py
@@ -123,7 +123,7 @@ class GSeparableKernelE2(GSeparableKernel):
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
-        if not group_rotation_sampling_width:
+        if not group_rotation_sampling_width and group_kernel_size[0]:
             group_rotation_sampling_width = (
                 0.8
                 * so2.nearest_neighbour_distance(
@@ -131,7 +131,7 @@ class GSeparableKernelE2(GSeparableKernel):
                 ).mean()
             )
 
-        if not group_reflection_sampling_width:
+        if not group_reflection_sampling_width and group_kernel_size[1]:
             group_reflection_sampling_width = (
                 0.8
                 * so2.nearest_neighbour_distance(
@@ -221,7 +221,7 @@ class GKernelE2(GKernel):
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
-        if not group_rotation_sampling_width:
+        if not group_rotation_sampling_width and group_kernel_size[0]:
             group_rotation_sampling_width = (
                 0.8
                 * so2.nearest_neighbour_distance(
@@ -229,7 +229,7 @@ class GKernelE2(GKernel):
                 ).mean()
             )
 
-        if not group_reflection_sampling_width:
+        if not group_reflection_sampling_width and group_kernel_size[1]:
             group_reflection_sampling_width = (
                 0.8
                 * so2.nearest_neighbour_distance(
diff --git a/gconv/gnn/kernels/kernel_en/kernel_e3.py b/gconv/gnn/kernels/kernel_en/kernel_e3.py
index a6a509e..21cf58d 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e3.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e3.py
@@ -123,7 +123,7 @@ class GSeparableKernelE3(GSeparableKernel):
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
-        if not group_rotation_sampling_width:
+        if not group_rotation_sampling_width and group_kernel_size[0]:
             group_rotation_sampling_width = (
                 0.8
                 * so3.nearest_neighbour_distance(
@@ -131,7 +131,7 @@ class GSeparableKernelE3(GSeparableKernel):
                 ).mean()
             )
 
-        if not group_reflection_sampling_width:
+        if not group_reflection_sampling_width and group_kernel_size[1]:
             group_reflection_sampling_width = (
                 0.8
                 * so3.nearest_neighbour_distance(
@@ -221,7 +221,7 @@ class GKernelE3(GKernel):
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
-        if not group_rotation_sampling_width:
+        if not group_rotation_sampling_width and group_kernel_size[0]:
             group_rotation_sampling_width = (
                 0.8
                 * so3.nearest_neighbour_distance(
@@ -229,7 +229,7 @@ class GKernelE3(GKernel):
                 ).mean()
             )
 
-        if not group_reflection_sampling_width:
+        if not group_reflection_sampling_width and group_kernel_size[1]:
             group_reflection_sampling_width = (
                 0.8
                 * so3.nearest_neighbour_distance(
-- 
2.43.0


From e4473eef51ac0fe8a3094cae7b2ab97a8205a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 08/32] fix: E2/E3 kernels ignored the size of a supplied
 reference grid

---
 gconv/gnn/kernels/kernel_en/kernel_e2.py | 9 +++++++++
 gconv/gnn/kernels/kernel_en/kernel_e3.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/gconv/gnn/kernels/kernel_en/kernel_e2.py b/gconv/gnn/kernels/kernel_en/kernel_e2.py
index 5c4b366..1023245 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e2.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e2.py
@@ -48,6 +48,9 @@ class GLiftingKernelE2(GLiftingKernel):
 
         if grid_H is None:
             grid_H = o2.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
@@ -120,6 +123,9 @@ class GSeparableKernelE2(GSeparableKernel):
 
         if grid_H is None:
             grid_H = o2.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
@@ -218,6 +224,9 @@ class GKernelE2(GKernel):
 
         if grid_H is None:
             grid_H = o2.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
diff --git a/gconv/gnn/kernels/kernel_en/kernel_e3.py b/gconv/gnn/kernels/kernel_en/kernel_e3.py
index 21cf58d..24bfae2 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e3.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e3.py
@@ -48,6 +48,9 @@ class GLiftingKernelE3(GLiftingKernel):
 
         if grid_H is None:
             grid_H = o3.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
@@ -120,6 +123,9 @@ class GSeparableKernelE3(GSeparableKernel):
 
         if grid_H is None:
             grid_H = o3.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
@@ -218,6 +224,9 @@ class GKernelE3(GKernel):
 
         if grid_H is None:
             grid_H = o3.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] == 1).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
-- 
2.43.0


From fc15f6705d5528046b18cb34897caae97839ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 09/32] fix: SE2 kernels ignored mask=False

---
 gconv/gnn/kernels/kernel_sen/kernel_se2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/kernels/kernel_sen/kernel_se2.py b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
index 0c66f67..517019a 100644
--- a/gconv/gnn/kernels/kernel_sen/kernel_se2.py
+++ b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
@@ -42,7 +42,7 @@ class GLiftingKernelSE2(GLiftingKernel):
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         sample_Rn_kwargs = {
             "mode": sampling_mode,
@@ -117,7 +117,7 @@ class GSeparableKernelSE2(GSeparableKernel):
             "padding_mode": spatial_sampling_padding_mode,
         }
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         super().__init__(
             in_channels,
@@ -190,7 +190,7 @@ class GKernelSE2(GKernel):
             "padding_mode": spatial_sampling_padding_mode,
         }
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         super().__init__(
             in_channels,
-- 
2.43.0


From 4e23f6612ae18ebdc71c7e0b5aa865a37ad15413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 10/32] fix: GSubgroupKernelSO3 default grid was given as
 quaternions to matrix operations

---
 gconv/gnn/kernels/kernel_sen/kernel_so3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/gnn/kernels/kernel_sen/kernel_so3.py b/gconv/gnn/kernels/kernel_sen/kernel_so3.py
index 8c80498..353c9ac 100644
--- a/gconv/gnn/kernels/kernel_sen/kernel_so3.py
+++ b/gconv/gnn/kernels/kernel_sen/kernel_so3.py
@@ -43,7 +43,7 @@ class GSubgroupKernelSO3(GSubgroupKernel):
                       generated. If provided, will overwrite given group_kernel_size.
         """
         if grid_H is None:
-            grid_H = so3.uniform_grid(size=group_kernel_size)
+            grid_H = so3.uniform_grid(group_kernel_size, "matrix")
 
         if not sampling_width:
             sampling_width = 0.8 * so3.nearest_neighbour_distance(grid_H).mean()
-- 
2.43.0


From 72d5a21ce2c3df580b6b0e4083aa5526ad1ee73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 11/32] fix: separable and subgroup kernels mixed up weights
 for different numbers of input and output elements

---
 gconv/gnn/kernels/kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index 93cabc6..93202f9 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -274,8 +274,8 @@ class GSeparableKernel(GroupKernel):
                 **self.sample_H_kwargs,
             )
             .view(
-                num_in_H,
                 num_out_H,
+                num_in_H,
                 self.in_channels // self.groups,
                 self.out_channels,
                 *self.weight_dims,
@@ -364,8 +364,8 @@ class GSubgroupKernel(GroupKernel):
                 **self.sample_H_kwargs,
             )
             .view(
-                num_in_H,
                 num_out_H,
+                num_in_H,
                 self.in_channels // self.groups,
                 self.out_channels,
                 *self.kernel_size,
-- 
2.43.0


From 2f6a817f8d8530a8f8c88faeabd9705c7c24fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 12/32] fix: separable convolutions applied stride, padding and
 dilation twice

---
 gconv/gnn/modules/gconv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/modules/gconv.py b/gconv/gnn/modules/gconv.py
index 2bdf7ff..d28893e 100644
--- a/gconv/gnn/modules/gconv.py
+++ b/gconv/gnn/modules/gconv.py
@@ -297,15 +297,16 @@ class GSeparableConvNd(GroupConvNd):
 
         weight_H, weight = self.kernel(in_H, out_H)
 
-        # subgroup conv
-        input = self._conv_forward(
+        # subgroup conv, pointwise in space
+        conv_H = F.conv2d if len(input_dims) == 2 else F.conv3d
+        input = conv_H(
             input.reshape(N, self.in_channels * num_in_H, *input_dims),
             weight_H.reshape(
                 self.out_channels * num_out_H,
                 (self.in_channels // self.groups) * num_in_H,
                 *weight_H.shape[4:],
             ),
-            self.groups,
+            groups=self.groups,
         )
 
         # spatial conv
-- 
2.43.0


From 82f6f3835ee263edfd571769f08a96ce2a7522fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 13/32] fix: __all__ of modules.gconv listed names that do not
 exist

---
 gconv/gnn/modules/gconv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gconv/gnn/modules/gconv.py b/gconv/gnn/modules/gconv.py
index d28893e..e7ef9ef 100644
--- a/gconv/gnn/modules/gconv.py
+++ b/gconv/gnn/modules/gconv.py
@@ -27,10 +27,10 @@ from torch import Tensor
 from torch.nn.modules.utils import _reverse_repeat_tuple, _pair, _triple
 
 __all__ = [
-    "GConvLifting2d",
-    "GConvLifting3d",
-    "GConvSeparable2d",
-    "GConvSeparable3d",
+    "GLiftingConv2d",
+    "GLiftingConv3d",
+    "GSeparableConv2d",
+    "GSeparableConv3d",
     "GConv2d",
     "GConv3d",
 ]
-- 
2.43.0


From fc7d20ce1fbaeaeba59e3486fc09d51a0013df8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 14/32] fix: coordinate grids of size one were off centre, so
 that masks removed the only position

---
 gconv/gnn/functional/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gconv/gnn/functional/grid.py b/gconv/gnn/functional/grid.py
index 9fcdee6..15992cc 100644
--- a/gconv/gnn/functional/grid.py
+++ b/gconv/gnn/functional/grid.py
@@ -18,6 +18,8 @@ def create_grid_R3(size: int, device: str | None = None) -> Tensor:
         - Tensor containing R3 grid of shape (size, size, size, 3).
     """
     x = torch.linspace(-1, 1, size, device=device)
+    if size == 1:
+        x = torch.zeros_like(x)
     X, Y, Z = torch.meshgrid(x, x, x, indexing="ij")
 
     return torch.stack((Z, Y, X), dim=-1)
@@ -36,6 +38,8 @@ def create_grid_R2(size: int, device: str | None = None) -> Tensor:
         - Tensor containing R3 grid of shape (size, size, size, 3).
     """
     x = torch.linspace(-1, 1, size, device=device)
+    if size == 1:
+        x = torch.zeros_like(x)
     X, Y = torch.meshgrid((x, x), indexing="xy")
 
     return torch.stack((Y, X), dim=-1)
-- 
2.43.0


From d47f224417cd90fc5e338025720c81ecd77bbf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 15/32] fix: GWrap could not be constructed (missing
 super().__init__())

---
 gconv/gnn/modules/wrappers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gconv/gnn/modules/wrappers.py b/gconv/gnn/modules/wrappers.py
index 6388146..a98b8d6 100644
--- a/gconv/gnn/modules/wrappers.py
+++ b/gconv/gnn/modules/wrappers.py
@@ -13,6 +13,7 @@ class GWrap(nn.Module):
         Arguments:
             - module: nn.Module.
         """
+        super().__init__()
         self.module = module
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-- 
2.43.0


From b1e2708431be3a98478244833cbb3476db79769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 16/32] fix: spatial pooling layers dropped the spatial axes in
 view and raised RuntimeError

---
 gconv/gnn/modules/pooling.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gconv/gnn/modules/pooling.py b/gconv/gnn/modules/pooling.py
index 560c8e6..84952e1 100644
--- a/gconv/gnn/modules/pooling.py
+++ b/gconv/gnn/modules/pooling.py
@@ -10,7 +10,7 @@ class GMaxSpatialPool2d(nn.MaxPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GMaxSpatialPool3d(nn.MaxPool3d):
@@ -19,7 +19,7 @@ class GMaxSpatialPool3d(nn.MaxPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GMaxGroupPool(nn.Module):
@@ -46,7 +46,7 @@ class GAvgSpatialPool2d(nn.AvgPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAvgSpatialPool3d(nn.AvgPool3d):
@@ -55,7 +55,7 @@ class GAvgSpatialPool3d(nn.AvgPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAvgGroupPool(nn.Module):
@@ -82,7 +82,7 @@ class GAdaptiveMaxSpatialPool2d(nn.AdaptiveMaxPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveMaxSpatialPool3d(nn.AdaptiveMaxPool3d):
@@ -91,7 +91,7 @@ class GAdaptiveMaxSpatialPool3d(nn.AdaptiveMaxPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveAvgSpatialPool2d(nn.AdaptiveAvgPool2d):
@@ -100,7 +100,7 @@ class GAdaptiveAvgSpatialPool2d(nn.AdaptiveAvgPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveAvgSpatialPool3d(nn.AdaptiveAvgPool3d):
@@ -109,4 +109,4 @@ class GAdaptiveAvgSpatialPool3d(nn.AdaptiveAvgPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
-- 
2.43.0


From 9ee32053941461009d9255af68e1b85a9eee04b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 17/32] fix: group and global max pooling returned a (values,
 indices) pair instead of a tensor

---
 gconv/gnn/modules/pooling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/modules/pooling.py b/gconv/gnn/modules/pooling.py
index 84952e1..36d8a34 100644
--- a/gconv/gnn/modules/pooling.py
+++ b/gconv/gnn/modules/pooling.py
@@ -28,7 +28,7 @@ class GMaxGroupPool(nn.Module):
     """
 
     def forward(self, x: Tensor, _: Optional[Tensor] = None) -> Tensor:
-        return x.max(dim=2)
+        return x.max(dim=2)[0]
 
 
 class GMaxGlobalPool(nn.Module):
@@ -37,7 +37,7 @@ class GMaxGlobalPool(nn.Module):
     """
 
     def forward(self, x: Tensor, _: Optional[Tensor] = None) -> Tensor:
-        return x.flatten(2, -1).max(-1, keepdim=True)
+        return x.flatten(2, -1).max(-1, keepdim=True)[0]
 
 
 class GAvgSpatialPool2d(nn.AvgPool2d):
-- 
2.43.0


From 769a620fcc2f92b227bdac72f1003dd482316846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 18/32] fix: batch and instance normalization failed on
 non-contiguous input

---
 gconv/gnn/modules/normalization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gconv/gnn/modules/normalization.py b/gconv/gnn/modules/normalization.py
index fb514ea..c890480 100644
--- a/gconv/gnn/modules/normalization.py
+++ b/gconv/gnn/modules/normalization.py
@@ -6,13 +6,13 @@ from torch import Tensor
 class GBatchNorm2d(nn.BatchNorm2d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
 
 
 class GBatchNorm3d(nn.BatchNorm3d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
 
 
 class GLayerNorm(nn.LayerNorm):
@@ -23,10 +23,10 @@ class GLayerNorm(nn.LayerNorm):
 class GInstanceNorm2d(nn.InstanceNorm2d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
 
 
 class GInstanceNorm3d(nn.InstanceNorm3d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
-- 
2.43.0


From ea83a83276fa2d701020d52a68d68a260d2b7353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 19/32] fix: cached grids were shared with callers, who could
 modify the cache through them

---
 gconv/geometry/groups/_grid_cache.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index 58ddc6c..e0abe39 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -19,11 +19,13 @@ def save_grid(
             pass
         else:
             return
-    _grid_cache[grid_type.lower()][parameterization.lower()][grid.shape[0]] = grid
+    _grid_cache[grid_type.lower()][parameterization.lower()][
+        grid.shape[0]
+    ] = grid.detach().clone()
 
 
 def load_grid(size: str, grid_type: str, parameterization: str) -> Tensor:
-    return _grid_cache[grid_type.lower()][parameterization.lower()][size]
+    return _grid_cache[grid_type.lower()][parameterization.lower()][size].clone()
 
 
 _grid_cache: dict[str, dict[str, dict[int, Tensor]]] = {
-- 
2.43.0


From 17befab71f69020929ff0d096d89246ee5f326fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 20/32] fix: so3.uniform_grid cached Euler angles under the
 requested parameterization, and save_grid failed for new parameterizations

---
 gconv/geometry/groups/_grid_cache.py | 6 +++---
 gconv/geometry/groups/so3.py         | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index e0abe39..82742b4 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -19,9 +19,9 @@ def save_grid(
             pass
         else:
             return
-    _grid_cache[grid_type.lower()][parameterization.lower()][
-        grid.shape[0]
-    ] = grid.detach().clone()
+    grids = _grid_cache.setdefault(grid_type.lower(), {})
+    grids = grids.setdefault(parameterization.lower(), {})
+    grids[grid.shape[0]] = grid.detach().clone()
 
 
 def load_grid(size: str, grid_type: str, parameterization: str) -> Tensor:
diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index acd9443..ebfc24b 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -604,10 +604,12 @@ def uniform_grid(
         in_place=True,
     )
 
+    grid = param_fn(grid)
+
     if cache_grid:
         _grid_cache.save_grid(grid, "so3", parameterization)
 
-    return param_fn(grid)
+    return grid
 
 
 def quaternion_log(q: Tensor) -> Tensor:
-- 
2.43.0


From aefc4b456c48714a8ceda6a8fa904a396f2fb0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 21/32] fix: cached SO3 matrix grid of size one had no grid
 dimension

---
 gconv/geometry/groups/_grid_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index 82742b4..5518271 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -425,7 +425,7 @@ _grid_cache: dict[str, dict[str, dict[int, Tensor]]] = {
             ),
         },
         "matrix": {
-            1: Tensor([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
+            1: Tensor([[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]]),
             2: Tensor(
                 [
                     [
-- 
2.43.0


From 3b7191812b557a6849a8f14ca3ffe00dd085b282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 22/32] fix: spherical_to_euler_neg_gamma raised RuntimeError
 and did not negate gamma

---
 gconv/geometry/groups/s2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/s2.py b/gconv/geometry/groups/s2.py
index e1ee67b..b0b7f59 100644
--- a/gconv/geometry/groups/s2.py
+++ b/gconv/geometry/groups/s2.py
@@ -75,7 +75,7 @@ def spherical_to_euler(g: Tensor) -> Tensor:
 
 
 def spherical_to_euler_neg_gamma(g: Tensor) -> Tensor:
-    minus_gamma = g[:, 1]
+    minus_gamma = -g[:, 1:]
     return torch.hstack((minus_gamma, g))
 
 
-- 
2.43.0


From 8f84bd613880e2ba964a9906aebcf31a1bef3373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 23/32] fix: uniform_grid_s2 raised UnboundLocalError for an
 unknown parameterization

---
 gconv/geometry/groups/s2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gconv/geometry/groups/s2.py b/gconv/geometry/groups/s2.py
index b0b7f59..0aca0d7 100644
--- a/gconv/geometry/groups/s2.py
+++ b/gconv/geometry/groups/s2.py
@@ -125,6 +125,8 @@ def uniform_grid_s2(
         case "quat":
             add_alpha = True
             param_fn = so3.euler_to_quat
+        case _:
+            raise ValueError(f"Unsupported parameterization: {parameterization}.")
 
     grid = random_s2((n,), device=device)
 
-- 
2.43.0


From e0635c0fe2125e013f2e37e399f7b1b407a79c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 24/32] fix: so2.angle_to_matrix accepts a single angle without
 batch dimensions

---
 gconv/geometry/groups/so2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/geometry/groups/so2.py b/gconv/geometry/groups/so2.py
index bf2c543..518d49c 100644
--- a/gconv/geometry/groups/so2.py
+++ b/gconv/geometry/groups/so2.py
@@ -18,8 +18,8 @@ def angle_to_matrix(R: Tensor) -> Tensor:
     """
     matrices = R.new_empty((*R.shape[:-1], 2, 2))
 
-    cos_H = torch.cos(R).flatten(-2)
-    sin_H = torch.sin(R).flatten(-2)
+    cos_H = torch.cos(R).squeeze(-1)
+    sin_H = torch.sin(R).squeeze(-1)
 
     matrices[..., 0, 0] = cos_H
     matrices[..., 0, 1] = -sin_H
-- 
2.43.0


From a8006cdf17d7a0b0debf814d1c8ba39cb855b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:29 +0000
Subject: [PATCH 25/32] fix: matrix_to_euler keeps float32 gimbal-locked
 rotations (acos lost the second angle near 0 and pi)

---
 gconv/geometry/groups/so3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index ebfc24b..abddbcc 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -318,7 +318,11 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     # step 4
     matrix_trans[..., 2, 2] = torch.clamp(matrix_trans[..., 2, 2], -1, 1)
 
-    g[..., 1] = torch.acos(matrix_trans[..., 2, 2])
+    # atan2 is accurate near 0 and pi, acos is not
+    g[..., 1] = torch.atan2(
+        torch.hypot(matrix_trans[..., 0, 2], matrix_trans[..., 1, 2]),
+        matrix_trans[..., 2, 2],
+    )
 
     # step 5, 6
     safe1 = torch.abs(g[..., 1]) >= eps
-- 
2.43.0


From 9c791b1ca138c6c630e30b7d21a84aa87f9f27af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:29 +0000
Subject: [PATCH 26/32] fix: euclid_to_spherical returns no NaN for poles that
 exceed one by rounding

---
 gconv/geometry/groups/s2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/s2.py b/gconv/geometry/groups/s2.py
index 0aca0d7..fe80cdc 100644
--- a/gconv/geometry/groups/s2.py
+++ b/gconv/geometry/groups/s2.py
@@ -43,7 +43,7 @@ def euclid_to_spherical(x: Tensor) -> Tensor:
     """
     g = x.new_empty((*x.shape[:-1], 2))
 
-    g[..., 0] = torch.acos(x[..., 2])
+    g[..., 0] = torch.acos(torch.clamp(x[..., 2], -1, 1))
     g[..., 1] = torch.atan2(x[..., 1], x[..., 0])
 
     return g
-- 
2.43.0


From b479e71e050b7ddbea80778c81fccf0209881680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:18 +0000
Subject: [PATCH 27/32] fix: so3_log of rotations close to a half turn

Clamping the angle and dividing by its sine lost length and axis of the
logarithm within about 5e-4 (float32: 1e-2) of a half turn; take both from
the quaternion there.
---
 gconv/geometry/groups/so3.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index abddbcc..0f34534 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -470,11 +470,8 @@ def so3_log(R: Tensor, eps: float = 1e-7) -> Tensor:
         - Tensor of shape (..., 3).
     """
     # clamping to prevent numerical instabilities
-    theta = torch.acos(
-        torch.clamp(
-            ((R[..., 0, 0] + R[..., 1, 1] + R[..., 2, 2]) - 1) / 2, -1 + eps, 1 - eps
-        )
-    )
+    cos_theta = ((R[..., 0, 0] + R[..., 1, 1] + R[..., 2, 2]) - 1) / 2
+    theta = torch.acos(torch.clamp(cos_theta, -1 + eps, 1 - eps))
 
     theta_sin_inv = 0.5 * theta / torch.sin(theta)
 
@@ -488,13 +485,16 @@ def so3_log(R: Tensor, eps: float = 1e-7) -> Tensor:
     c2[mask] = 0.5 * R[mask, 0, 2] - R[mask, 2, 0]
     c3[mask] = 0.5 * R[mask, 1, 0] - R[mask, 0, 1]
 
-    mask = theta == pi
+    c = torch.stack((c1, c2, c3), dim=-1)
 
-    c1[mask] = pi
-    c2[mask] = 0.0
-    c3[mask] = 0.0
+    # sin(theta) vanishes close to half turns, use the quaternion instead
+    mask = cos_theta < -1 + max(eps, 1e-2)
 
-    c = torch.stack((c1, c2, c3), dim=-1)
+    q = matrix_to_quat(R[mask])
+    q = torch.where(q[..., :1] < 0, -q, q)
+    axis = q[..., 1:] / torch.linalg.norm(q[..., 1:], dim=-1, keepdim=True)
+
+    c[mask] = 2 * torch.acos(q[..., :1]) * axis
 
     return c
 
-- 
2.43.0


From 249987c718ae6af77fd1f07f46a8624291bbe994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 28/32] fix: barycentric interpolation returned NaN without
 positive weights and missed coinciding nodes under clamped distances

---
 gconv/geometry/interpolation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gconv/geometry/interpolation.py b/gconv/geometry/interpolation.py
index 7d4bc43..2c042c0 100644
--- a/gconv/geometry/interpolation.py
+++ b/gconv/geometry/interpolation.py
@@ -126,7 +126,10 @@ def interpolate_BCC(
         -1, 3
     )
 
-    mask = dists_k[:, :, 0].view(-1) <= eps
+    # use the nearest node if it coincides with the query (distances may be
+    # clamped from below) or if no weight is positive
+    mask = (dists_k[:, :, 0] - dist_fn(nodes, nodes) <= eps).view(-1)
+    mask = mask | (bcc <= 0).all(-1)
     bcc[mask, 0], bcc[mask, 1], bcc[mask, 2] = 1.0, 0.0, 0.0
     bcc[bcc < 0] = 0
 
-- 
2.43.0


From 592d4576980f95833a571de73daa3b25803f4952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 29/32] fix: kernels reject a non-positive number of channel
 groups with ValueError (layers raised ZeroDivisionError or RuntimeError)

---
 gconv/gnn/kernels/kernel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index 93202f9..ebd2f83 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -90,6 +90,9 @@ class GroupKernel(nn.Module):
         """
         super().__init__()
 
+        if groups <= 0:
+            raise ValueError("groups must be a positive integer")
+
         self.in_channels = in_channels
         self.out_channels = out_channels
 
-- 
2.43.0


From acc17a7d4a1e6b8b2d7e419d5d0da7a937755453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:50 +0000
Subject: [PATCH 30/32] fix: E(n) kernels reject invalid group kernel size
 tuples with ValueError before building a grid

---
 gconv/gnn/kernels/kernel.py              | 5 +++++
 gconv/gnn/kernels/kernel_en/kernel_e2.py | 3 +++
 gconv/gnn/kernels/kernel_en/kernel_e3.py | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index ebd2f83..039d48a 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -116,6 +116,11 @@ class GroupKernel(nn.Module):
         self.sample_H_kwargs = sample_H_kwargs
         self.sample_Rn_kwargs = sample_Rn_kwargs
 
+    @staticmethod
+    def _check_group_kernel_size(group_kernel_size: tuple) -> None:
+        if any(i < 0 for i in group_kernel_size) or sum(group_kernel_size) <= 0:
+            raise ValueError("group_kernel_size must contain positive integers")
+
     def extra_repr(self):
         s = f"mask={self.mask is not None}"
         if self.sample_H_kwargs:
diff --git a/gconv/gnn/kernels/kernel_en/kernel_e2.py b/gconv/gnn/kernels/kernel_en/kernel_e2.py
index 1023245..7190c26 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e2.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e2.py
@@ -47,6 +47,7 @@ class GLiftingKernelE2(GLiftingKernel):
             group_kernel_size = (group_kernel_size, group_kernel_size)
 
         if grid_H is None:
+            self._check_group_kernel_size(group_kernel_size)
             grid_H = o2.uniform_grid(group_kernel_size)
         else:
             n_rotations = int((grid_H[:, 0] == 1).sum())
@@ -122,6 +123,7 @@ class GSeparableKernelE2(GSeparableKernel):
             group_kernel_size = (group_kernel_size, group_kernel_size)
 
         if grid_H is None:
+            self._check_group_kernel_size(group_kernel_size)
             grid_H = o2.uniform_grid(group_kernel_size)
         else:
             n_rotations = int((grid_H[:, 0] == 1).sum())
@@ -223,6 +225,7 @@ class GKernelE2(GKernel):
             group_kernel_size = (group_kernel_size, group_kernel_size)
 
         if grid_H is None:
+            self._check_group_kernel_size(group_kernel_size)
             grid_H = o2.uniform_grid(group_kernel_size)
         else:
             n_rotations = int((grid_H[:, 0] == 1).sum())
diff --git a/gconv/gnn/kernels/kernel_en/kernel_e3.py b/gconv/gnn/kernels/kernel_en/kernel_e3.py
index 24bfae2..c947398 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e3.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e3.py
@@ -47,6 +47,7 @@ class GLiftingKernelE3(GLiftingKernel):
             group_kernel_size = (group_kernel_size, group_kernel_size)
 
         if grid_H is None:
+            self._check_group_kernel_size(group_kernel_size)
             grid_H = o3.uniform_grid(group_kernel_size)
         else:
             n_rotations = int((grid_H[:, 0] == 1).sum())
@@ -122,6 +123,7 @@ class GSeparableKernelE3(GSeparableKernel):
             group_kernel_size = (group_kernel_size, group_kernel_size)
 
         if grid_H is None:
+            self._check_group_kernel_size(group_kernel_size)
             grid_H = o3.uniform_grid(group_kernel_size)
         else:
             n_rotations = int((grid_H[:, 0] == 1).sum())
@@ -223,6 +225,7 @@ class GKernelE3(GKernel):
             group_kernel_size = (group_kernel_size, group_kernel_size)
 
         if grid_H is None:
+            self._check_group_kernel_size(group_kernel_size)
             grid_H = o3.uniform_grid(group_kernel_size)
         else:
             n_rotations = int((grid_H[:, 0] == 1).sum())
-- 
2.43.0


From c28662a2eda41bf847de1ec5f093782042b10eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:45 +0000
Subject: [PATCH 31/32] fix: repulsion out of place of a grid that tracks
 gradients raised RuntimeError

---
 gconv/geometry/repulsion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/repulsion.py b/gconv/geometry/repulsion.py
index 50989c2..2effcad 100644
--- a/gconv/geometry/repulsion.py
+++ b/gconv/geometry/repulsion.py
@@ -64,7 +64,7 @@ def repulse(
 
     pbar = trange(steps, disable=not show_pbar, desc="Optimizing")
 
-    grid = grid if in_place else grid.clone()
+    grid = grid if in_place else grid.detach().clone()
     grid.requires_grad = True
 
     optimizer = torch.optim.SGD([grid], lr=step_size)
-- 
2.43.0


From 8c3f53a48a61d3609e271e631bbad2a97ec80705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:13 +0000
Subject: [PATCH 32/32] fix: repulsion also runs where the caller has switched
 gradients off

---
 gconv/geometry/repulsion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gconv/geometry/repulsion.py b/gconv/geometry/repulsion.py
index 2effcad..5d07023 100644
--- a/gconv/geometry/repulsion.py
+++ b/gconv/geometry/repulsion.py
@@ -27,6 +27,7 @@ def columb_energy(d: Tensor, k: int = 2) -> Tensor:
     return d ** (-k)
 
 
+@torch.enable_grad()
 def repulse(
     grid: Tensor,
     steps: int = 200,
-- 
2.43.0

