From 4abebc347ac98a387dc7748e33a4e07adc613bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 001/147] fix: om2qu keeps the relative signs of the axis for
 180 degree rotations

---
 ebsdtorch/s2_and_so3/orientations.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 7061a6a..1157714 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -121,13 +121,11 @@ def om2qu(matrix: Tensor) -> Tensor:
     qu[branch_4, 3] = (m01[branch_4] - m10[branch_4]) * branch_4_t_rsqrt
     qu[branch_4, 0] = branch_4_t * branch_4_t_rsqrt
 
-    # guarantee the correct axis signs
-    qu[..., 0] = torch.abs(qu[..., 0])
-    qu[..., 1] = qu[..., 1].copysign((m21 - m12))
-    qu[..., 2] = qu[..., 2].copysign((m02 - m20))
-    qu[..., 3] = qu[..., 3].copysign((m10 - m01))
-
-    return qu
+    # the branches above hold up to one overall sign for the transposed matrix:
+    # conjugate and make the real part non-negative (the relative signs of the
+    # axis are kept also when the off-diagonal differences vanish at 180 degrees)
+    qu[..., 0] = -qu[..., 0]
+    return torch.where(qu[..., 0:1] < 0, -qu, qu)
 
 
 @torch.jit.script
-- 
2.43.0


From 48afe6578eb59d8bb22c42a066971c568fb3d3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 002/147] fix: qu2ho leaves its input alone and accepts
 quaternions with negative real part

---
 ebsdtorch/s2_and_so3/orientations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 1157714..dac6991 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -39,9 +39,10 @@ def qu2ho(qu: Tensor) -> Tensor:
         raise ValueError(f"Invalid quaternion shape {qu.shape}.")
     ho = torch.empty_like(qu[..., :3])
     # get the angle
-    angle = 2 * torch.acos(qu[..., 0:1].clamp_(min=-1.0, max=1.0))
-    # get the unit vector
+    angle = 2 * torch.acos(torch.abs(qu[..., 0:1]).clamp(max=1.0))
+    # get the unit vector (q and -q are the same rotation)
     unit = qu[..., 1:] / torch.norm(qu[..., 1:], dim=-1, keepdim=True)
+    unit = torch.where(qu[..., 0:1] < 0, -unit, unit)
     ho = unit * (3.0 * (angle - torch.sin(angle)) / 4.0) ** (1 / 3)
     # fix the case where the angle is zero
     ho[(angle.squeeze(-1) < 1e-8)] = 0.0
-- 
2.43.0


From 921ac7c9b6e6f6235b351c0e54cb4064c9f8b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 003/147] fix: qu2ax returns the right angle for quaternions
 with negative real part

---
 ebsdtorch/s2_and_so3/orientations.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index dac6991..9129d52 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -758,12 +758,11 @@ def qu2ax(qu: Tensor) -> Tensor:
     """
 
     ax = torch.empty_like(qu)
-    angle = 2 * torch.acos(torch.clamp(qu[..., 0], min=-1.0, max=1.0))
+    angle = 2 * torch.acos(torch.clamp(torch.abs(qu[..., 0]), max=1.0))
 
-    s = torch.where(
-        qu[..., 0:1] != 0,
-        torch.sign(qu[..., 0:1]) / torch.norm(qu[..., 1:], dim=-1, keepdim=True),
-        1.0,
+    # q and -q are the same rotation: the axis flips with the sign of the real part
+    s = torch.where(qu[..., 0:1] < 0, -1.0, 1.0) / torch.norm(
+        qu[..., 1:], dim=-1, keepdim=True
     )
 
     ax[..., :3] = qu[..., 1:] * s
-- 
2.43.0


From 5ec2666c1ae2af7869e5185dc4549a3dce81ea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 004/147] fix: qu2ro returns a defined axis for the identity

---
 ebsdtorch/s2_and_so3/orientations.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 9129d52..f47a98d 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -801,6 +801,13 @@ def qu2ro(qu: Tensor) -> Tensor:
     eps = 1e-8 if qu.dtype == torch.float32 else 1e-10
     mask_zero = torch.abs(qu[..., 0]) < eps
     ro[mask_zero, 3] = float("inf")
+
+    # the identity has no axis: use z as in qu2ax
+    mask_identity = torch.sum(qu[..., 1:] ** 2, dim=-1) == 0
+    ro[mask_identity, 0] = 0.0
+    ro[mask_identity, 1] = 0.0
+    ro[mask_identity, 2] = 1.0
+    ro[mask_identity, 3] = 0.0
     return ro
 
 
-- 
2.43.0


From f942f29f0f1c14fd5975348c5ecaf4018e6e90f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 005/147] fix: om2ax handles 0 and 180 degrees and any batch
 shape

---
 ebsdtorch/s2_and_so3/orientations.py | 34 ++++++++++------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index f47a98d..0fb79d4 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -149,29 +149,19 @@ def om2ax(matrix: Tensor) -> Tensor:
     # set the output with the same batch dimensions as the input
     axis = torch.empty(batch_dim + (4,), dtype=matrix.dtype, device=matrix.device)
 
-    # Get the trace of the matrix
-    trace = matrix[..., 0, 0] + matrix[..., 1, 1] + matrix[..., 2, 2]
-
-    # find the angles
-    acos_arg = 0.5 * (trace - 1.0)
-    acos_arg = torch.clamp(acos_arg, -1.0, 1.0)
-    theta = torch.acos(acos_arg)
-
-    # where the angle is small, treat theta/sin(theta) as 1
-    stable = theta > 0.001
-    axis[..., 0] = matrix[..., 2, 1] - matrix[..., 1, 2]
-    axis[..., 1] = matrix[..., 0, 2] - matrix[..., 2, 0]
-    axis[..., 2] = matrix[..., 1, 0] - matrix[..., 0, 1]
-    factor = torch.where(stable, 0.5 / torch.sin(theta), 0.5)
-    axis[..., :3] = factor[:, None] * axis[:, :3]
-
-    # normalize the axis
-    axis[..., :3] /= torch.norm(axis[:, :3], dim=-1, keepdim=True)
-
-    # set the angle
-    axis[..., 3] = theta
+    # the skew part of the matrix vanishes at 0 and 180 degrees, so the axis is
+    # taken from the quaternion, which is well conditioned for every angle
+    qu = om2qu(matrix)
+    norm = torch.norm(qu[..., 1:], dim=-1)
+    axis[..., :3] = qu[..., 1:] / norm.unsqueeze(-1)
+    axis[..., 3] = 2 * torch.atan2(norm, qu[..., 0])
+
+    # the identity has no axis: use z
+    axis[norm == 0] = torch.tensor(
+        [0.0, 0.0, 1.0, 0.0], dtype=matrix.dtype, device=matrix.device
+    )
 
-    return axis.view(batch_dim + (4,))
+    return axis
 
 
 @torch.jit.script
-- 
2.43.0


From f3ee8f2f084c49a5329ba2d49bb354daeca6b638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 006/147] fix: ax2om accepts a single rotation and any batch
 shape

---
 ebsdtorch/s2_and_so3/orientations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 0fb79d4..d416140 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -179,7 +179,8 @@ def ax2om(axis_angle: Tensor) -> Tensor:
         raise ValueError(f"Invalid axis-angle shape {axis_angle.shape}.")
 
     batch_dim = axis_angle.shape[:-1]
-    data_n = int(torch.prod(torch.tensor(batch_dim)))
+    axis_angle = axis_angle.reshape(-1, 4)
+    data_n = axis_angle.shape[0]
 
     # set the output
     matrices = torch.empty(
@@ -200,7 +201,7 @@ def ax2om(axis_angle: Tensor) -> Tensor:
     skew_sq = torch.matmul(matrices, matrices)
 
     # Taylor expansion for small angles of each factor
-    stable = (theta > 0.05).squeeze()
+    stable = (theta > 0.05).squeeze(-1)
 
     theta_unstable = theta[~stable].unsqueeze(-1)
 
-- 
2.43.0


From 8613cb50b284c50dddaa68f40b9890891bd84318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 007/147] fix: ho2ax no longer snaps double precision rotations
 below 0.1 degree to the identity

---
 ebsdtorch/s2_and_so3/orientations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index d416140..2206395 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -499,7 +499,9 @@ def ho2ax(ho: Tensor, fast: bool = True) -> Tensor:
         ],
         dim=-1,
     )
-    rot_is_identity = torch.abs(ho_norm_sq) < 1e-6
+    # below this the angle is not resolved by arccos at the working precision
+    eps = 1e-15 if ho.dtype == torch.float64 else 1e-6
+    rot_is_identity = torch.abs(ho_norm_sq) < eps
     # set the identity rotation
     ax[rot_is_identity] = 0
     ax[rot_is_identity, ..., 2] = 1.0
-- 
2.43.0


From d7117de963d099714aee7223b17cf3f7a0c3e044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 008/147] fix: ho2ax_newton returns a unit axis

---
 ebsdtorch/s2_and_so3/orientations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 2206395..6de60ba 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -653,7 +653,9 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
         update[torch.isnan(update)] = 0
         w_newton -= update
 
-    ax[~mask_zero, 0:3] = ho[~mask_zero] * torch.rsqrt(h[~mask_zero].unsqueeze(-1))
+    ax[~mask_zero, 0:3] = ho[~mask_zero] * torch.reciprocal(
+        h[~mask_zero].unsqueeze(-1)
+    )
     ax[~mask_zero, 3] = w_newton
 
     return ax
-- 
2.43.0


From 3d628a74215da87843a7f41e3c6bfe7845aae026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 009/147] fix: ho2ax_reference no longer snaps small double
 precision rotations to the identity

---
 ebsdtorch/s2_and_so3/orientations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 6de60ba..7d2183a 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -595,7 +595,8 @@ def ho2ax_reference(ho: Tensor, coeffs: str = "kikuchipy") -> Tensor:
 
     ax = torch.empty(ho.shape[:-1] + (4,), dtype=ho.dtype, device=ho.device)
 
-    rot_is_identity = torch.abs(ho_norm_sq.squeeze(-1)) < 1e-8
+    eps = 1e-15 if ho.dtype == torch.float64 else 1e-8
+    rot_is_identity = torch.abs(ho_norm_sq.squeeze(-1)) < eps
     ax[rot_is_identity, 0:1] = 0.0
     ax[rot_is_identity, 1:2] = 0.0
     ax[rot_is_identity, 2:3] = 1.0
-- 
2.43.0


From abe2a674e7ebb2120f8e0c950a88324cc19990ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 010/147] fix: ro2ax returns a non-negative angle

---
 ebsdtorch/s2_and_so3/orientations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 7d2183a..10c1c10 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -719,7 +719,9 @@ def ro2ax(ro: Tensor) -> Tensor:
         ro[mask_else, :3], dim=-1, keepdim=True
     )
     ax[mask_else, 3] = 2 * torch.atan(ro[mask_else, 3])
-    return ax
+
+    # tan(angle / 2) < 0 is the same rotation about the opposite axis
+    return torch.where(ax[..., 3:4] < 0, -ax, ax)
 
 
 @torch.jit.script
-- 
2.43.0


From e089f5137b4821a765889d656636f13625896138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 011/147] fix: ax2om does not use the small angle series for
 large negative angles

---
 ebsdtorch/s2_and_so3/orientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 10c1c10..383a0c8 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -201,7 +201,7 @@ def ax2om(axis_angle: Tensor) -> Tensor:
     skew_sq = torch.matmul(matrices, matrices)
 
     # Taylor expansion for small angles of each factor
-    stable = (theta > 0.05).squeeze(-1)
+    stable = (torch.abs(theta) > 0.05).squeeze(-1)
 
     theta_unstable = theta[~stable].unsqueeze(-1)
 
-- 
2.43.0


From 571a48e72be501454dc395efe65e8f2397b6a33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 012/147] fix: qu_slerp handles batches and equal quaternions

---
 ebsdtorch/s2_and_so3/quaternions.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 2f10e34..7b944a5 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -106,12 +106,14 @@ def qu_slerp(a: Tensor, b: Tensor, t: float) -> Tensor:
     """
     a = qu_norm(a)
     b = qu_norm(b)
-    cos_theta = torch.sum(a * b, dim=-1)
-    angle = torch.acos(cos_theta)
+    cos_theta = torch.sum(a * b, dim=-1, keepdim=True)
+    angle = torch.acos(cos_theta.clamp(-1.0, 1.0))
     sin_theta = torch.sin(angle)
-    w1 = torch.sin((1 - t) * angle) / sin_theta
-    w2 = torch.sin(t * angle) / sin_theta
-    return (a.unsqueeze(-1) * w1 + b.unsqueeze(-1) * w2).squeeze(-1)
+    # the weights tend to the linear ones as the angle goes to zero
+    linear = sin_theta == 0
+    w1 = torch.where(linear, 1 - t, torch.sin((1 - t) * angle) / sin_theta)
+    w2 = torch.where(linear, t, torch.sin(t * angle) / sin_theta)
+    return qu_norm(a * w1 + b * w2)
 
 
 @torch.jit.script
-- 
2.43.0


From 1df82e5a109ebd15fe065b8fc11d0f759ad0bfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 013/147] fix: quaternion_rotate_sets_sphere handles small and
 180 degree rotations and any batch shape

---
 ebsdtorch/s2_and_so3/quaternions.py | 33 ++++++++++++-----------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 7b944a5..d66a24e 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -246,27 +246,22 @@ def quaternion_rotate_sets_sphere(points_start: Tensor, points_finish) -> Tensor
         The quaternions, as tensor of shape (..., 4).
 
     """
-    # determine mask for numerical stability
-    valid = torch.abs(torch.sum(points_start * points_finish, dim=-1)) < 0.999999
+    # the chord sum and difference are 2 cos(angle / 2) and 2 sin(angle / 2) long
+    cos_half = 0.5 * torch.norm(points_start + points_finish, dim=-1, keepdim=True)
+    sin_half = 0.5 * torch.norm(points_start - points_finish, dim=-1, keepdim=True)
     # get the cross product of the two sets of points
-    cross = torch.cross(points_start[valid], points_finish[valid], dim=-1)
-    # get the dot product of the two sets of points
-    dot = torch.sum(points_start[valid] * points_finish[valid], dim=-1)
-    # get the angle
-    angle = torch.atan2(torch.norm(cross, dim=-1), dot)
-    # add tau to the angle if the cross product is negative
-    angle[angle < 0] += 2 * torch.pi
-    # set the output
-    out = torch.empty(
-        (points_start.shape[0], 4), dtype=points_start.dtype, device=points_start.device
+    cross = torch.cross(points_start, points_finish, dim=-1)
+    cross_norm = torch.norm(cross, dim=-1, keepdim=True)
+    # antipodal points: rotate by pi about any axis perpendicular to the start
+    least = torch.argmin(torch.abs(points_start), dim=-1)
+    other = torch.eye(3, dtype=points_start.dtype, device=points_start.device)[least]
+    perp = torch.cross(points_start, other, dim=-1)
+    perp = perp / torch.norm(perp, dim=-1, keepdim=True)
+    eps = 1e-12 if points_start.dtype == torch.float64 else 1e-6
+    axis = torch.where(
+        (cos_half < eps) | (cross_norm == 0), perp, cross / cross_norm
     )
-    out[valid, 0] = torch.cos(angle / 2)
-    out[valid, 1:] = torch.sin(angle / 2).unsqueeze(-1) * (
-        cross / torch.norm(cross, dim=-1, keepdim=True)
-    )
-    out[~valid, 0] = 1
-    out[~valid, 1:] = 0
-    return out
+    return torch.cat((cos_half, sin_half * axis), dim=-1)
 
 
 @torch.jit.script
-- 
2.43.0


From aec396c23c3a9a56a62b5e09ec970de6fc8780c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 014/147] fix: qu_angle does not return NaN when rounding
 pushes the real part past one

---
 ebsdtorch/s2_and_so3/quaternions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index d66a24e..0a24580 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -275,4 +275,4 @@ def qu_angle(qu: Tensor) -> Tensor:
     Returns:
         tensor of shape (..., ) of rotation angles.
     """
-    return 2 * torch.acos(qu[..., 0])
+    return 2 * torch.acos(torch.clamp(qu[..., 0], min=-1.0, max=1.0))
-- 
2.43.0


From 7e96e90e48065f577c5db5f846246ffc47f2c33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 015/147] fix: disori_angle_laue in laue_fz_ori.py does not
 return NaN for equivalent orientations

---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 2c8f401..b291b19 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -466,7 +466,7 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     # find the largest real part magnitude and return the angle
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
 
-    return 2.0 * torch.acos(cosine_half_angle)
+    return 2.0 * torch.acos(torch.clamp(cosine_half_angle, max=1.0))
 
 
 @torch.jit.script
-- 
2.43.0


From cbca911f31d164a5ff2ff8a55a4346082c9ed345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 016/147] fix: disori_angle_laue in laue_fz_misori.py does not
 return NaN for equivalent orientations

---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index dcbb1b0..c482722 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -200,4 +200,4 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     # find the largest real part magnitude and return the angle
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
 
-    return 2.0 * torch.acos(cosine_half_angle)
+    return 2.0 * torch.acos(torch.clamp(cosine_half_angle, max=1.0))
-- 
2.43.0


From 6ee58e42f81cb981e4d866949bb22c796195c3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 017/147] fix: ori_to_fz_laue and ori_equiv_laue return
 symmetrically equivalent orientations (operators act on the crystal side)

---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index b291b19..4c28d43 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -76,7 +76,8 @@ def ori_to_fz_laue(quats: Tensor, laue_id: int) -> Tensor:
     row_maximum_indices = torch.argmax(equivalent_quaternions_real, dim=-1)
 
     # gather the equivalent quaternions with the largest w value for each equivalent quaternion set
-    output = qu_prod(quats.reshape(N, 4), laue_group[row_maximum_indices])
+    # (the operators act on the crystal frame, i.e. on the left of sample-to-crystal quaternions)
+    output = qu_prod(laue_group[row_maximum_indices], quats.reshape(N, 4))
 
     return output.reshape(data_shape)
 
@@ -100,7 +101,7 @@ def ori_equiv_laue(quats: Tensor, laue_id: int) -> Tensor:
     laue_group = laue_elements(laue_id).to(quats.dtype).to(quats.device)
 
     # reshape so that quaternions is (N, 1, 4) and laue_group is (1, card, 4) then use broadcasting
-    equivalent_quaternions = qu_prod(quats.reshape(N, 1, 4), laue_group.reshape(-1, 4))
+    equivalent_quaternions = qu_prod(laue_group.reshape(-1, 4), quats.reshape(N, 1, 4))
 
     return equivalent_quaternions.reshape(data_shape[:-1] + (len(laue_group), 4))
 
-- 
2.43.0


From f6c25336cc9b7eb704fda0283eadf8c3b7ce03fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 018/147] fix: disorientation with two different Laue groups
 applies each group to its own orientation

---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 12 ++++++------
 ebsdtorch/s2_and_so3/laue_fz_ori.py    |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index c482722..dcc3f94 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -53,8 +53,8 @@ def misori_to_fz_laue(qu: Tensor, laue_id_1: int, laue_id_2: int):
     # pre / post mult by Laue operators of the second and first symmetry groups respectively
     # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(qu.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(qu.view(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -122,8 +122,8 @@ def disorientation_naive(
     # pre / post mult by Laue operators of the second and first symmetry groups respectively
     # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -189,9 +189,9 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     # pre / post mult by Laue operators of the second and first symmetry groups respectively
     # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
     equivalent_quat_pos_real = qu_triple_prod_pos_real(
-        laue_group_2.reshape(1, -1, 1, 4),
+        laue_group_1.reshape(1, -1, 1, 4),
         misori_quats.view(N, 1, 1, 4),
-        laue_group_1.reshape(1, 1, -1, 4),
+        laue_group_2.reshape(1, 1, -1, 4),
     )
 
     # flatten along the laue group dimensions
diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 4c28d43..1a3fcd8 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -389,8 +389,8 @@ def disorientation(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2: in
     # pre / post mult by Laue operators of the second and first symmetry groups respectively
     # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -456,9 +456,9 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     # pre / post mult by Laue operators of the second and first symmetry groups respectively
     # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
     equivalent_quat_pos_real = qu_triple_prod_pos_real(
-        laue_group_2.reshape(1, -1, 1, 4),
+        laue_group_1.reshape(1, -1, 1, 4),
         misori_quats.view(N, 1, 1, 4),
-        laue_group_1.reshape(1, 1, -1, 4),
+        laue_group_2.reshape(1, 1, -1, 4),
     )
 
     # flatten along the laue group dimensions
-- 
2.43.0


From 4cfa717edde8c23cf4125c224b9c73a4ec9b458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 019/147] fix: cube_to_rfz stays inside the cubic fundamental
 zone (the pyramid scaling was inverted)

---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 1a3fcd8..5c8025d 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -271,7 +271,7 @@ def cube_to_rfz(
         # replace nans with 1 because we were at the origin
         factors[factors.isnan()] = 1
         # scale the sorted values
-        rfz_coords = torch.where(scales, sorted * factors, sorted)
+        rfz_coords = torch.where(scales, sorted / factors, sorted)
         # scatter the sorted values back to the original order
         rfz_coords = torch.scatter(rfz_coords, -1, indices, rfz_coords)
         # copy the sign of the original values
@@ -309,7 +309,7 @@ def rfz_to_cube(
             torch.sum(rfz_abs, dim=-1, keepdim=True) * (2**0.5 - 1) / sorted[..., 2:3]
         )
         factors[factors.isnan()] = 1
-        cc = torch.where(scales, sorted / factors, sorted)
+        cc = torch.where(scales, sorted * factors, sorted)
         cc = torch.scatter(cc, -1, indices, cc)
         cc.copysign_(rfz)
         return cc
-- 
2.43.0


From 62990676ab9ddfbaf32623d516c116ddb51cdcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 020/147] fix: s2_equiv_laue returns the whole orbit, inversion
 included

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index 4a312bf..82fbca5 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -219,7 +219,7 @@ def s2_equiv_laue(points: Tensor, laue_id: int) -> Tensor:
     # concatenate all of the points with their inverted coordinates
     equivalent_points = torch.cat([equivalent_points, -equivalent_points], dim=1)
 
-    return equivalent_points.reshape(data_shape[:-1] + (len(laue_group), 3))
+    return equivalent_points.reshape(data_shape[:-1] + (2 * len(laue_group), 3))
 
 
 @torch.jit.script
-- 
2.43.0


From 0502321b7f3775e7b67f760c84647062832219bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 021/147] fix: inv_rosca_lambert maps the centre of the square
 to the pole

---
 ebsdtorch/s2_and_so3/sphere.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index 81b14cb..f1207d4 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -133,6 +133,10 @@ def inv_rosca_lambert(pts: Tensor) -> Tensor:
     )
     z_out = 1 - (2 * x_new**2 / pi)
 
+    # the centre of the square (0 / 0 above) is the pole
+    x_hs = torch.where(x_new == 0, torch.zeros_like(x_hs), x_hs)
+    y_hs = torch.where(x_new == 0, torch.zeros_like(y_hs), y_hs)
+
     # swap back and copy sign
     x_out = torch.where(cond, x_hs, y_hs)
     y_out = torch.where(cond, y_hs, x_hs)
-- 
2.43.0


From 3199713291a3b0f39f8536fe2c48821d7d2de791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 022/147] fix: theta_phi_to_xyz takes the polar angle first as
 documented and inverts xyz_to_theta_phi for any batch shape

---
 ebsdtorch/s2_and_so3/sampling.py |  2 +-
 ebsdtorch/s2_and_so3/sphere.py   | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/sampling.py b/ebsdtorch/s2_and_so3/sampling.py
index e001040..527ad1a 100644
--- a/ebsdtorch/s2_and_so3/sampling.py
+++ b/ebsdtorch/s2_and_so3/sampling.py
@@ -58,7 +58,7 @@ def s2_fibonacci(
     indices = torch.arange(n, dtype=torch.float64, device=device)
     theta = 2 * torch.pi * indices / phi
     phi = torch.acos(1 - 2 * (indices + epsilon) / (n - 1 + 2 * epsilon))
-    points = theta_phi_to_xyz(theta, phi)
+    points = theta_phi_to_xyz(phi, theta)
     return points
 
 
diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index f1207d4..26a85ee 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -28,11 +28,11 @@ def theta_phi_to_xyz(theta: Tensor, phi: Tensor) -> Tensor:
     """
     return torch.stack(
         (
-            torch.cos(theta) * torch.sin(phi),
+            torch.sin(theta) * torch.cos(phi),
             torch.sin(theta) * torch.sin(phi),
-            torch.cos(phi),
+            torch.cos(theta),
         ),
-        dim=1,
+        dim=-1,
     )
 
 
@@ -51,10 +51,10 @@ def xyz_to_theta_phi(xyz: Tensor) -> Tensor:
     """
     return torch.stack(
         (
-            torch.atan2(torch.norm(xyz[:, :2], dim=1), xyz[:, 2]),
-            torch.atan2(xyz[:, 1], xyz[:, 0]),
+            torch.atan2(torch.norm(xyz[..., :2], dim=-1), xyz[..., 2]),
+            torch.atan2(xyz[..., 1], xyz[..., 0]),
         ),
-        dim=1,
+        dim=-1,
     )
 
 
-- 
2.43.0


From dc277f233391b62b58cd1905308ae5362b4248e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 023/147] fix: s2_in_fz_laue includes the poles and both edges
 of every sector

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 31 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index 82fbca5..d3a9c01 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -49,24 +49,24 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     x, y, z = points[..., 0], points[..., 1], points[..., 2]
 
     eta = torch.atan2(y, x)
-    chi = torch.acos(z)
+    chi = torch.acos(torch.clamp(z, min=-1.0, max=1.0))
 
     if laue_id == 1:  # triclinic
-        cond = z >= 0.0
+        cond = z >= -EPS
     elif laue_id == 2:  # monoclinic
-        cond = eta.ge(0.0) & eta.le(torch.pi + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(torch.pi + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 3 or laue_id == 4:  # orthorhombic, tetragonal-low
-        cond = eta.ge(0.0) & eta.le(PI_2 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_2 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 5:  # tetragonal-high
-        cond = eta.ge(0.0) & eta.le(PI_4 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_4 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 6:  # trigonal-low
-        cond = eta.ge(PI_n23) & (eta.le(0.0 + EPS)) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(PI_n23 - EPS) & (eta.le(0.0 + EPS)) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 7:  # trigonal-high
-        cond = eta.ge(-PI_2) & eta.le(-PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-PI_2 - EPS) & eta.le(-PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 8:  # hexagonal-low
-        cond = eta.ge(0.0) & eta.le(PI_3 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_3 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 9:  # hexagonal-high
-        cond = eta.ge(0.0) & eta.le(PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 10:  # cubic-low
         # where eta is over 45 degrees, subtract from 90 degrees
         cond = (
@@ -77,7 +77,7 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.ge(0.0)
+            & eta.ge(-EPS)
             & eta.le(PI_2 + EPS)
             & chi.ge(0.0)
         )
@@ -87,17 +87,18 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
             torch.where(
                 eta.gt(PI_4),
                 chi
-                < torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(PI_2 - eta) ** 2)))
+                <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(PI_2 - eta) ** 2)))
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.gt(0.0)
-            & eta.lt(PI_4 + EPS)
-            & chi.gt(0.0)
+            & eta.ge(-EPS)
+            & eta.le(PI_4 + EPS)
+            & chi.ge(0.0)
         )
     else:
         raise ValueError(f"Laue id {laue_id} not in [1, 11]")
-    return cond
+    # the azimuth is undefined at the pole, which belongs to every sector
+    return cond | ((x.abs() <= EPS) & (y.abs() <= EPS) & z.ge(0.0))
 
 
 # # get planar coordinates that are within the fundamental sector
-- 
2.43.0


From cdbd0e74b0f82f3fdfe919f73fd26ae7a28b1544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 024/147] fix: s2_to_fz_laue returns one representative for
 points on the sector boundary

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index d3a9c01..8da9cc8 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -175,7 +175,7 @@ def s2_to_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     laue_group = laue_elements(laue_id).to(points.dtype).to(points.device)
 
     # reshape so that points is (N, 1, 3) and laue_group is (1, card, 4) then use broadcasting
-    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.view(N, 1, 3))
+    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.reshape(N, 1, 3))
 
     # concatenate all of the points with their inverted coordinates
     equivalent_points = torch.cat([equivalent_points, -equivalent_points], dim=1)
@@ -183,15 +183,10 @@ def s2_to_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     # find the points that are in the s2 fundamental zone
     cond = s2_in_fz_laue(equivalent_points, laue_id)
 
-    # # in cases of more than one true value, set the first one to true
-    # more_trues = torch.sum(cond, dim=-1) >= 2
-    # cond[more_trues, 1:] = False
+    # points on the boundary can have several representatives: take the first
+    first = torch.argmax(cond.int(), dim=-1)
 
-    # # in cases of no true values, set the first one to true
-    # non_true = torch.sum(cond, dim=-1) == 0
-    # cond[non_true, 0] = True
-
-    return equivalent_points[cond].reshape(data_shape)
+    return equivalent_points[torch.arange(N), first].reshape(data_shape)
 
 
 @torch.jit.script
@@ -215,7 +210,7 @@ def s2_equiv_laue(points: Tensor, laue_id: int) -> Tensor:
     laue_group = laue_elements(laue_id).to(points.dtype).to(points.device)
 
     # reshape so that points is (N, 1, 3) and laue_group is (1, card, 4) then use broadcasting
-    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.view(N, 1, 3))
+    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.reshape(N, 1, 3))
 
     # concatenate all of the points with their inverted coordinates
     equivalent_points = torch.cat([equivalent_points, -equivalent_points], dim=1)
-- 
2.43.0


From 1d8178f6f102ad764e4c9b599795580e69e91fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 025/147] fix: laue_elements are unit quaternions in double
 precision (TorchScript stores float literals in single precision)

---
 ebsdtorch/s2_and_so3/laue_generators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/laue_generators.py b/ebsdtorch/s2_and_so3/laue_generators.py
index 6db1466..2e45929 100644
--- a/ebsdtorch/s2_and_so3/laue_generators.py
+++ b/ebsdtorch/s2_and_so3/laue_generators.py
@@ -246,4 +246,7 @@ def laue_elements(laue_id: int) -> Tensor:
         LAUE_O,  #  11 - Cubic high
     ]
 
-    return LAUE_GROUPS[laue_id - 1]
+    # TorchScript builds tensors from float literals in single precision whatever
+    # the dtype: the squared entries are multiples of 1/4, which restores them
+    elements = LAUE_GROUPS[laue_id - 1]
+    return torch.sign(elements) * torch.sqrt(torch.round(4.0 * elements**2) / 4.0)
-- 
2.43.0


From 4b3df65429732b3fcd832a61baa5f675821a54ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 026/147] fix: sample_ori_fz_laue_angle honours the angular
 resolution for groups with symmetry

---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 5c8025d..b7bf5a0 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -538,14 +538,10 @@ def sample_ori_fz_laue_angle(
         torch tensor of shape (n_samples, 4) containing the sampled orientations
 
     """
-    # get the multiplicity of the laue group
-    laue_mult = get_laue_mult(laue_id)
+    # use empirical fit to get the edge length of the grid over the whole of SO(3),
+    # whose spacing does not depend on the symmetry of the zone cut out of it
+    edge_length = int(2 * (131.97049) / (angular_resolution_deg - 0.03732) + 1.0) + 1
 
-    # use empirical fit to get the number of samples
-    n_so3_without_symmetry = (
-        2 * (131.97049) / (angular_resolution_deg - 0.03732) + 1
-    ) ** 3
-    edge_length = int((n_so3_without_symmetry / (0.5 * laue_mult)) ** (1.0 / 3.0) + 1.0)
     so3_samples = so3_cubochoric_grid(edge_length, device=device)
 
     # reject the points that are not in the fundamental zone
-- 
2.43.0


From c866dc32d3d6987edcf9ff7af4959477c39e2cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 027/147] fix: quaternion_rotate_sets_sphere stays accurate for
 nearly antipodal points

---
 ebsdtorch/s2_and_so3/quaternions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 0a24580..d857343 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -257,7 +257,7 @@ def quaternion_rotate_sets_sphere(points_start: Tensor, points_finish) -> Tensor
     other = torch.eye(3, dtype=points_start.dtype, device=points_start.device)[least]
     perp = torch.cross(points_start, other, dim=-1)
     perp = perp / torch.norm(perp, dim=-1, keepdim=True)
-    eps = 1e-12 if points_start.dtype == torch.float64 else 1e-6
+    eps = 1e-8 if points_start.dtype == torch.float64 else 2e-4
     axis = torch.where(
         (cos_half < eps) | (cross_norm == 0), perp, cross / cross_norm
     )
-- 
2.43.0


From a3d99a8c51ee5fd0854158e755749137eb6bb5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 028/147] fix: hexagon_to_hemisphere in utils/rosca_lambert.py
 maps onto the unit sphere, centre included

---
 ebsdtorch/utils/rosca_lambert.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/rosca_lambert.py b/ebsdtorch/utils/rosca_lambert.py
index 123528d..b782858 100644
--- a/ebsdtorch/utils/rosca_lambert.py
+++ b/ebsdtorch/utils/rosca_lambert.py
@@ -213,8 +213,16 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
     x_out = x_out.copysign_(pts[..., 1]) / ((3 * 3**0.5 / (2 * pi)) ** 0.5)
     y_out = y_out.copysign_(pts[..., 0]) / ((3 * 3**0.5 / (2 * pi)) ** 0.5)
 
+    # the centre of the hexagon (0 / 0 above) is the pole
+    x_out = torch.where(x_new == 0, torch.zeros_like(x_out), x_out)
+    y_out = torch.where(x_new == 0, torch.zeros_like(y_out), y_out)
+
+    # lift the unit disc onto the hemisphere (Lambert azimuthal equal area)
+    rho_sq = x_out**2 + y_out**2
+    lift = torch.sqrt(torch.clamp(2.0 - rho_sq, min=0.0))
+
     # undo original swap and compute the z coordinate on the hemisphere
-    return torch.stack((y_out, x_out, 1.0 - x_out**2 - y_out**2), dim=-1)
+    return torch.stack((y_out * lift, x_out * lift, 1.0 - rho_sq), dim=-1)
 
 
 # import matplotlib.pyplot as plt
-- 
2.43.0


From 6253da013614c4eb9ef645cdffb874c990fc1783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 029/147] fix: square_to_hemisphere in utils/rosca_lambert.py
 handles the centre and non-contiguous input

---
 ebsdtorch/utils/rosca_lambert.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/rosca_lambert.py b/ebsdtorch/utils/rosca_lambert.py
index b782858..bcf3d00 100644
--- a/ebsdtorch/utils/rosca_lambert.py
+++ b/ebsdtorch/utils/rosca_lambert.py
@@ -20,7 +20,7 @@ def square_to_hemisphere(pts: Tensor) -> Tensor:
     # get shape of input
     shape_in = pts.shape[:-1]
     n_pts = int(torch.prod(torch.tensor(shape_in)))
-    pts = pts.view(-1, 2)
+    pts = pts.reshape(-1, 2)
     pi = torch.pi
     a = pts[:, 0] * (pi / 2) ** 0.5
     b = pts[:, 1] * (pi / 2) ** 0.5
@@ -48,6 +48,10 @@ def square_to_hemisphere(pts: Tensor) -> Tensor:
         * torch.cos((pi * a[~m]) / (4 * b[~m]))
     )
     output[~m, 2] = 1 - (2 * b[~m] ** 2 / pi)
+    # the centre of the square (0 / 0 above) is the pole
+    center = (a == 0) & (b == 0)
+    output[center, 0] = 0.0
+    output[center, 1] = 0.0
     return output.reshape(shape_in + (3,))
 
 
@@ -92,6 +96,10 @@ def square_to_hemisphere_v2(x: Tensor) -> Tensor:
     )
     z_out = 1 - (2 * x_new**2 / pi)
 
+    # the centre of the square (0 / 0 above) is the pole
+    x_hs = torch.where(x_new == 0, torch.zeros_like(x_hs), x_hs)
+    y_hs = torch.where(x_new == 0, torch.zeros_like(y_hs), y_hs)
+
     # swap back and copy sign
     x_out = torch.where(cond, x_hs, y_hs)
     y_out = torch.where(cond, y_hs, x_hs)
-- 
2.43.0


From 861cc5e2da5d50afda68cbba3e0f4839bcd56e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 030/147] fix: hexagon_to_hemisphere in
 crystallography/kvectors.py maps onto the unit sphere

---
 ebsdtorch/crystallography/kvectors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index 7a9e3a9..e5e01a3 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -102,8 +102,12 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
     x_out = x_out.copysign_(pts[..., 1]) / ((3 * 3**0.5 / (2 * torch.pi)) ** 0.5)
     y_out = y_out.copysign_(pts[..., 0]) / ((3 * 3**0.5 / (2 * torch.pi)) ** 0.5)
 
+    # lift the unit disc onto the hemisphere (Lambert azimuthal equal area)
+    rho_sq = x_out**2 + y_out**2
+    lift = torch.sqrt(torch.clamp(2.0 - rho_sq, min=0.0))
+
     # undo original swap and compute the z coordinate on the hemisphere
-    out = torch.stack((y_out, x_out, 1.0 - x_out**2 - y_out**2), dim=-1)
+    out = torch.stack((y_out * lift, x_out * lift, 1.0 - rho_sq), dim=-1)
 
     # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
     mask = (pts[..., 0] == 0) & (pts[..., 1] == 0)
-- 
2.43.0


From cd3739f1d6a43167adbe2b830d885f01df988a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 031/147] fix: sample_s2_fz_laue_rosca aims at the requested
 number of samples (the grid covers one hemisphere)

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index 8da9cc8..230e774 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -281,7 +281,8 @@ def sample_s2_fz_laue_rosca(
     laue_mult = get_laue_mult(laue_id)
 
     # estimate the edge length of the square
-    edge_length = int((target_n_samples * laue_mult) ** 0.5)
+    # (it only covers one hemisphere)
+    edge_length = int((target_n_samples * laue_mult / 2.0) ** 0.5)
 
     # make a meshgrid and flatten it on the square [-1, 1] x [-1, 1]
     x = torch.linspace(-1.0, 1.0, edge_length, device=device)
-- 
2.43.0


From e053e4cc00edcb925d15f93f372ba1e48d23f539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 032/147] fix: s2_in_fz_laue accepts the monoclinic sector edge
 when the zero y component is negative

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index 230e774..44b5cf8 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -54,7 +54,8 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     if laue_id == 1:  # triclinic
         cond = z >= -EPS
     elif laue_id == 2:  # monoclinic
-        cond = eta.ge(-EPS) & eta.le(torch.pi + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        # eta in [0, pi], without the branch cut of atan2 at y = -0.0
+        cond = y.ge(-EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 3 or laue_id == 4:  # orthorhombic, tetragonal-low
         cond = eta.ge(-EPS) & eta.le(PI_2 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 5:  # tetragonal-high
-- 
2.43.0


From ae828ad46aef884a590fe9dfc4b79af490e03d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 033/147] fix: se3_log_map_om and se3_log_map_split handle 180
 degree rotations and any batch shape

---
 ebsdtorch/lie_algebra/se3.py | 84 ++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 38 deletions(-)

diff --git a/ebsdtorch/lie_algebra/se3.py b/ebsdtorch/lie_algebra/se3.py
index d304a75..190887b 100644
--- a/ebsdtorch/lie_algebra/se3.py
+++ b/ebsdtorch/lie_algebra/se3.py
@@ -403,6 +403,50 @@ def se3_exp_map_split(vecs: Tensor) -> Tuple[Tensor, Tensor]:
     return rexp, tvec
 
 
+@torch.jit.script
+def om_to_w(R: Tensor) -> Tensor:
+    """
+    Compute the scaled axis (logarithm) of rotation matrices for any angle in
+    [0, pi], with both ends included.
+
+    Args:
+        R: torch tensor of shape (..., 3, 3) containing the rotation matrices
+
+    Returns:
+        torch tensor of shape (..., 3) containing the scaled axes
+
+    """
+    # (R32 - R23, R13 - R31, R21 - R12) is 2 sin(theta) * axis
+    w = torch.stack(
+        (
+            R[..., 2, 1] - R[..., 1, 2],
+            R[..., 0, 2] - R[..., 2, 0],
+            R[..., 1, 0] - R[..., 0, 1],
+        ),
+        dim=-1,
+    )
+    two_sin = torch.linalg.norm(w, dim=-1, keepdim=True)
+    # the trace is 1 + 2 cos(theta)
+    two_cos = (torch.diagonal(R, dim1=-2, dim2=-1).sum(-1) - 1.0).unsqueeze(-1)
+    theta = torch.atan2(two_sin, two_cos)
+
+    nonzero = two_sin > 0
+    safe_sin = torch.where(nonzero, two_sin, torch.ones_like(two_sin))
+    omegas = torch.where(nonzero, theta / safe_sin, 0.5) * w
+
+    # near pi: the symmetric part is cos(theta) I + (1 - cos(theta)) axis axis^T
+    eye = torch.eye(3, dtype=R.dtype, device=R.device)
+    outer = 0.5 * (R + R.transpose(-1, -2)) - 0.5 * two_cos.unsqueeze(-1) * eye
+    largest = torch.argmax(torch.diagonal(outer, dim1=-2, dim2=-1), dim=-1)
+    axis = (outer * eye[largest].unsqueeze(-2)).sum(-1)
+    near_pi = two_cos < -1.9
+    axis = torch.where(near_pi, axis, eye[0])
+    axis = axis / torch.linalg.norm(axis, dim=-1, keepdim=True)
+    flip = (axis * w).sum(-1, keepdim=True) < 0
+    axis = torch.where(flip, -axis, axis)
+    return torch.where(near_pi, theta * axis, omegas)
+
+
 @torch.jit.script
 def se3_log_map_om(se3: Tensor) -> Tensor:
     """
@@ -417,25 +461,7 @@ def se3_log_map_om(se3: Tensor) -> Tensor:
     """
     data_shape = se3.shape[:-2]
 
-    # omega is (theta / 2 sin(theta)) * (R32 - R23, R13 - R31, R21 - R12)
-    omegas = torch.zeros(data_shape + (3,), dtype=se3.dtype, device=se3.device)
-
-    # find the trace of the rotation matrix portion
-    rtrace = torch.diagonal(se3[..., :3, :3], dim1=-2, dim2=-1).sum(-1)
-    # rtrace = torch.einsum("...ii", se3[..., :3, :3])
-
-    # find the angles
-    acos_arg = 0.5 * (rtrace - 1.0)
-    acos_arg = torch.clamp(acos_arg, -1.0, 1.0)
-    theta = torch.acos(acos_arg)
-
-    # where the angle is small, treat (theta/sin(theta)) as 1
-    stable = theta > 0.01
-    omegas[..., 0] = se3[..., 2, 1] - se3[..., 1, 2]
-    omegas[..., 1] = se3[..., 0, 2] - se3[..., 2, 0]
-    omegas[..., 2] = se3[..., 1, 0] - se3[..., 0, 1]
-    factor = torch.where(stable, 0.5 * theta / torch.sin(theta), 0.5)
-    omegas = factor[:, None] * omegas
+    omegas = om_to_w(se3[..., :3, :3])
 
     v_inv = w_to_v_inv(omegas)
     tvecs = torch.matmul(v_inv, se3[..., :3, 3][..., None]).view(data_shape + (3,))
@@ -458,25 +484,7 @@ def se3_log_map_split(R: Tensor, tvec: Tensor) -> Tensor:
     """
     data_shape = R.shape[:-2]
 
-    # omega is (theta / 2 sin(theta)) * (R32 - R23, R13 - R31, R21 - R12)
-    omegas = torch.zeros(data_shape + (3,), dtype=R.dtype, device=R.device)
-
-    # find the trace of the rotation matrix portion
-    rtrace = torch.diagonal(R, dim1=-2, dim2=-1).sum(-1)
-    # rtrace = torch.einsum("...ii", se3[..., :3, :3])
-
-    # find the angles
-    acos_arg = 0.5 * (rtrace - 1.0)
-    acos_arg = torch.clamp(acos_arg, -1.0, 1.0)
-    theta = torch.acos(acos_arg)
-
-    # where the angle is small, treat (theta/sin(theta)) as 1
-    stable = theta > 0.0001
-    omegas[..., 0] = R[..., 2, 1] - R[..., 1, 2]
-    omegas[..., 1] = R[..., 0, 2] - R[..., 2, 0]
-    omegas[..., 2] = R[..., 1, 0] - R[..., 0, 1]
-    factor = torch.where(stable, 0.5 * theta / torch.sin(theta), 0.5)
-    omegas = factor[:, None] * omegas
+    omegas = om_to_w(R)
 
     v_inv = w_to_v_inv(omegas)
     tau = torch.matmul(v_inv, tvec[..., None]).view(data_shape + (3,))
-- 
2.43.0


From 9f29c8c71fe1cfb7416ab280c1b53b8453174fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 034/147] fix: skew accepts non-contiguous input

---
 ebsdtorch/lie_algebra/se3.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/lie_algebra/se3.py b/ebsdtorch/lie_algebra/se3.py
index 190887b..1782af1 100644
--- a/ebsdtorch/lie_algebra/se3.py
+++ b/ebsdtorch/lie_algebra/se3.py
@@ -89,12 +89,12 @@ def skew(omega: Tensor) -> Tensor:
     data_shape = omega.shape[:-1]
     data_n = int(torch.prod(torch.tensor(data_shape)))
     out = torch.zeros((data_n, 3, 3), dtype=omega.dtype, device=omega.device)
-    out[..., 0, 1] = -omega[..., 2].view(-1)
-    out[..., 0, 2] = omega[..., 1].view(-1)
-    out[..., 1, 2] = -omega[..., 0].view(-1)
-    out[..., 1, 0] = omega[..., 2].view(-1)
-    out[..., 2, 0] = -omega[..., 1].view(-1)
-    out[..., 2, 1] = omega[..., 0].view(-1)
+    out[..., 0, 1] = -omega[..., 2].reshape(-1)
+    out[..., 0, 2] = omega[..., 1].reshape(-1)
+    out[..., 1, 2] = -omega[..., 0].reshape(-1)
+    out[..., 1, 0] = omega[..., 2].reshape(-1)
+    out[..., 2, 0] = -omega[..., 1].reshape(-1)
+    out[..., 2, 1] = omega[..., 0].reshape(-1)
     return out.view(data_shape + (3, 3))
 
 
-- 
2.43.0


From cf46feae442d82b6944950458051e40439709da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 035/147] fix: bruker_geometry_from_SE3 recovers the sign of
 the tilts and leaves its input alone

---
 ebsdtorch/ebsd/geometry.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index e8f77db..8f7ac65 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -113,10 +113,12 @@ def bruker_geometry_from_SE3(
     rows, cols = detector_shape
     rows, cols = float(rows), float(cols)
 
-    cos_sx = rotation_matrix[..., 1, 1]
-    cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp_(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp_(min=-1, max=1))
+    sx = torch.atan2(rotation_matrix[..., 1, 2], rotation_matrix[..., 1, 1])
+    cos_dt_minus_sy = (
+        torch.cos(sx) * rotation_matrix[..., 0, 2]
+        - torch.sin(sx) * rotation_matrix[..., 0, 1]
+    )
+    dt_minus_sy = torch.atan2(-rotation_matrix[..., 0, 0], cos_dt_minus_sy)
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
-- 
2.43.0


From a5f8299a7073666cf37fab5354da28b333f238f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 036/147] fix: get_coords_sample_frame places binned pixels at
 the centres of their blocks

---
 ebsdtorch/ebsd/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index 8f7ac65..c6e84f6 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -485,14 +485,14 @@ class EBSDGeometry(Module):
             torch.meshgrid(
                 torch.linspace(
                     0.5 * (binning_fp[0] - 1),
-                    self.detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                    self.detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                     binned_shape[0],
                     dtype=dtype,
                     device=self.pc_SE3_matrix.device,  # is always on model device
                 ),
                 torch.linspace(
                     0.5 * (binning_fp[1] - 1),
-                    self.detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                    self.detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                     binned_shape[1],
                     dtype=dtype,
                     device=self.pc_SE3_matrix.device,  # is always on model device
-- 
2.43.0


From a0b973cf39936d24660a949c1b80920eff4a46ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 037/147] fix: get_detector2sample returns a (3, 3) matrix and
 a (3,) vector as documented

---
 ebsdtorch/ebsd/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index c6e84f6..82f2e49 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -273,7 +273,7 @@ class EBSDGeometry(Module):
                 tune_se3 = se3_exp_map_om(self.se3_vector * self.mask).squeeze(0)
 
         # find the combined transform with the tunable one first
-        detector_2_sample = self.pc_SE3_matrix @ tune_se3
+        detector_2_sample = self.pc_SE3_matrix.squeeze(0) @ tune_se3
 
         # split the SE3 matrix into rotation and translation
         rotation_matrix = detector_2_sample[..., :3, :3]
-- 
2.43.0


From 676ae68d19c8084f740e0d4e0b3efe37f7ba263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 038/147] fix: bruker_geometry_from_SE3 in fitting.py recovers
 the sign of the tilts and leaves its input alone

---
 ebsdtorch/ebsd/fitting.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 3b48cdd..c11f853 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -133,10 +133,12 @@ def bruker_geometry_from_SE3(
     rows, cols = detector_shape
     rows, cols = float(rows), float(cols)
 
-    cos_sx = rotation_matrix[..., 1, 1]
-    cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp_(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp_(min=-1, max=1))
+    sx = torch.atan2(rotation_matrix[..., 1, 2], rotation_matrix[..., 1, 1])
+    cos_dt_minus_sy = (
+        torch.cos(sx) * rotation_matrix[..., 0, 2]
+        - torch.sin(sx) * rotation_matrix[..., 0, 1]
+    )
+    dt_minus_sy = torch.atan2(-rotation_matrix[..., 0, 0], cos_dt_minus_sy)
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
-- 
2.43.0


From a72dc793a6ffd85bb0d73ad3a3f91d1bc83e6d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 039/147] fix: get_3D_pixel_coords and its peripheral version
 place binned pixels at the centres of their blocks

---
 ebsdtorch/ebsd/fitting.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index c11f853..d81e8b2 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -193,14 +193,14 @@ def get_3D_pixel_coords(
         torch.meshgrid(
             torch.linspace(
                 0.5 * (binning_fp[0] - 1),
-                detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,
             ),
             torch.linspace(
                 0.5 * (binning_fp[1] - 1),
-                detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,
@@ -260,15 +260,15 @@ def get_3D_pixel_coords_with_periphery(
     pixel_coordinates = torch.stack(
         torch.meshgrid(
             torch.linspace(
-                0.5 * (binning_fp - 1) - h_pad_prior,
-                detector_shape[0] + h_pad_after - (0.5 * (binning_fp - 1)),
+                0.5 * (binning_fp - 1) - h_pad_prior * binning,
+                detector_shape[0] - 1 + h_pad_after * binning - (0.5 * (binning_fp - 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,
             ),
             torch.linspace(
-                0.5 * (binning_fp - 1) - w_pad_prior,
-                detector_shape[1] + w_pad_after - (0.5 * (binning_fp - 1)),
+                0.5 * (binning_fp - 1) - w_pad_prior * binning,
+                detector_shape[1] - 1 + w_pad_after * binning - (0.5 * (binning_fp - 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,
-- 
2.43.0


From 26df9c0b434e530e075a373e3c232eb264b536c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 040/147] fix: hrebsd_coords places binned pixels at the
 centres of their blocks

---
 ebsdtorch/ebsd/project_hrebsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/project_hrebsd.py b/ebsdtorch/ebsd/project_hrebsd.py
index 0ffb98b..c92f9b1 100644
--- a/ebsdtorch/ebsd/project_hrebsd.py
+++ b/ebsdtorch/ebsd/project_hrebsd.py
@@ -60,14 +60,14 @@ def hrebsd_coords(
         torch.meshgrid(
             torch.linspace(
                 0.5 * (binning_fp[0] - 1),
-                detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,  # is always on model device
             ),
             torch.linspace(
                 0.5 * (binning_fp[1] - 1),
-                detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,  # is always on model device
-- 
2.43.0


From 3a6df521b4d2cf89dc7c8d00c3b42a91388f555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 041/147] fix: MasterPattern.interpolate uses the requested
 binning of the current master pattern, not the first one cached

---
 ebsdtorch/ebsd/master_pattern.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index b3d50cf..a0eb2b0 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -89,6 +89,7 @@ class MasterPattern(Module):
 
         self.master_pattern = master_pattern
         self.master_pattern_binned = None
+        self.binning_factor = 1
         self.factor_dict = {}
 
     def bin(
@@ -111,6 +112,7 @@ class MasterPattern(Module):
         self.master_pattern_binned = torch.nn.functional.avg_pool2d(
             self.master_pattern[None, None, ...], binning_factor, stride=binning_factor
         )[0, 0]
+        self.binning_factor = binning_factor
 
     def normalize(
         self,
@@ -123,6 +125,8 @@ class MasterPattern(Module):
             :norm_type (str): Normalization type: "minmax", "zeromean", "standard"
 
         """
+        # any binned copy is out of date after this
+        self.master_pattern_binned = None
         if norm_type == "minmax":
             pat_mins = torch.min(self.master_pattern)
             pat_maxs = torch.max(self.master_pattern)
@@ -168,7 +172,10 @@ class MasterPattern(Module):
 
         # blur the master pattern if virtual binning is used
         if virtual_binning > 1:
-            if self.master_pattern_binned is None:
+            if (
+                self.master_pattern_binned is None
+                or self.binning_factor != virtual_binning
+            ):
                 self.bin(virtual_binning)
             master_pattern_prep = self.master_pattern_binned
         else:
@@ -223,6 +230,8 @@ class MasterPattern(Module):
             :grid_shape (Tuple[int, int]): The shape of the grid to divide the image into.
 
         """
+        # any binned copy is out of date after this
+        self.master_pattern_binned = None
         self.master_pattern = clahe_grayscale(
             self.master_pattern[None, None, ...],
             clip_limit=clip_limit,
-- 
2.43.0


From d32807861329da55bc7ca307c2a5fc7e279d5f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 042/147] fix: MasterPattern.normalize leaves the tensor it was
 constructed from alone

---
 ebsdtorch/ebsd/master_pattern.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index a0eb2b0..c4fbfbc 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -130,12 +130,12 @@ class MasterPattern(Module):
         if norm_type == "minmax":
             pat_mins = torch.min(self.master_pattern)
             pat_maxs = torch.max(self.master_pattern)
-            self.master_pattern -= pat_mins
+            self.master_pattern = self.master_pattern - pat_mins
             self.master_pattern /= 1e-4 + pat_maxs - pat_mins
         elif norm_type == "zeromean":
-            self.master_pattern -= torch.mean(self.master_pattern)
+            self.master_pattern = self.master_pattern - torch.mean(self.master_pattern)
         elif norm_type == "standard":
-            self.master_pattern -= torch.mean(self.master_pattern)
+            self.master_pattern = self.master_pattern - torch.mean(self.master_pattern)
             self.master_pattern /= torch.std(self.master_pattern)
         else:
             raise ValueError(
-- 
2.43.0


From fd262cf61c2e2dcdf757f1afaffed341ca9ed99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 043/147] fix: MasterPattern.bin pools each hemisphere on its
 own

---
 ebsdtorch/ebsd/master_pattern.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index c4fbfbc..3d3de32 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -109,9 +109,19 @@ class MasterPattern(Module):
         # )
         # self.master_pattern_binned = blurrer(self.master_pattern[None, None, ...])[0, 0]
 
-        self.master_pattern_binned = torch.nn.functional.avg_pool2d(
-            self.master_pattern[None, None, ...], binning_factor, stride=binning_factor
-        )[0, 0]
+        # pool each hemisphere on its own: a width that is not a multiple of the
+        # binning would otherwise shift the Southern one and blend the two
+        H, W = self.master_pattern.shape[0], self.master_pattern.shape[1] // 2
+        binned_shape = (max(H // binning_factor, 1), max(W // binning_factor, 1))
+        self.master_pattern_binned = torch.cat(
+            [
+                torch.nn.functional.adaptive_avg_pool2d(
+                    half[None, None, ...], binned_shape
+                )[0, 0]
+                for half in (self.master_pattern[:, :W], self.master_pattern[:, W:])
+            ],
+            dim=-1,
+        )
         self.binning_factor = binning_factor
 
     def normalize(
-- 
2.43.0


From 4e7d3a44b4d94ee3167aae7e18b0f491bde100b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 044/147] fix: MasterPattern.interpolate does not blend
 opposite directions across the seam between the hemispheres

---
 ebsdtorch/ebsd/master_pattern.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index 3d3de32..0306c9b 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -194,6 +194,15 @@ class MasterPattern(Module):
         # project to the square [-1, 1] x [-1, 1]
         projected_coords_2D = rosca_lambert_side_by_side(coords_3D)
 
+        # the hemispheres are stored side by side but are not neighbors along the
+        # seam, so stop at the centers of the outermost pixels of each hemisphere
+        n_cols = master_pattern_prep.shape[-1]
+        seam = 1.0 / (n_cols - 1 if align_corners else n_cols)
+        x = projected_coords_2D[..., 0]
+        projected_coords_2D[..., 0] = torch.where(
+            coords_3D[..., 2] < 0, x.clamp(min=seam), x.clamp(max=-seam)
+        )
+
         # we want to accept a generic number of dimensions (..., 2)
         # grid_sample will perform extremely poorly when given grid shaped:
         # (1, 1000000000, 1, 2) or (1, 1, 1000000000, 2) etc.
-- 
2.43.0


From 00424cae93d58eb86dddad1e9b41f45193efad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 045/147] fix: spatial_fft_pc_fitter leaves the patterns it is
 given alone

---
 ebsdtorch/ebsd/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index d81e8b2..9f0a295 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -392,7 +392,7 @@ def spatial_fft_pc_fitter(
             stride=virtual_binning,
         )
 
-    patterns -= patterns.view(B, -1).min(dim=-1, keepdim=True).values.view(B, 1, 1, 1)
+    patterns = patterns - patterns.reshape(B, -1).min(dim=-1).values.view(B, 1, 1, 1)
     patterns /= patterns.view(B, -1).max(dim=-1, keepdim=True).values.view(B, 1, 1, 1)
 
     if metric == "dot":
-- 
2.43.0


From 98c321ba78fd5bb881d54413fcbbce8d9026a546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 046/147] fix: spatial_fft_pc_fitter reports the dictionary
 orientation that won, not its position in the batch

---
 ebsdtorch/ebsd/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 9f0a295..c9dd852 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -505,7 +505,7 @@ def spatial_fft_pc_fitter(
 
             best_orientations[z_idx] = torch.where(
                 best_dots[z_idx] == batch_values,
-                batch_indices,
+                batch_indices + j,
                 best_orientations[z_idx],
             )
 
-- 
2.43.0


From af081787d7da9496b408be9993e59ac87f1d6abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 047/147] fix: FactorECM splits Carmichael numbers and rejects
 numbers without a factorisation instead of looping forever

---
 ebsdtorch/utils/factorize.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/utils/factorize.py b/ebsdtorch/utils/factorize.py
index ca27503..3c805a8 100644
--- a/ebsdtorch/utils/factorize.py
+++ b/ebsdtorch/utils/factorize.py
@@ -34,9 +34,21 @@ def FactorECM(N0):
             factors.append(x)
         return sorted(factors)
 
-    def is_probably_prime_fermat(n, trials=32):
+    def is_probably_prime(n, trials=32):
+        # Miller-Rabin: unlike the Fermat test it is not fooled by Carmichael numbers
+        d, s = n - 1, 0
+        while (d & 1) == 0:
+            d >>= 1
+            s += 1
         for _ in range(trials):
-            if pow(random.randint(2, n - 2), n - 1, n) != 1:
+            x = pow(random.randint(2, n - 2), d, n)
+            if x == 1 or x == n - 1:
+                continue
+            for _ in range(s - 1):
+                x = x * x % n
+                if x == n - 1:
+                    break
+            else:
                 return False
         return True
 
@@ -99,7 +111,7 @@ def FactorECM(N0):
         if N < (1 << 16):
             return factor_trial_division(N)
 
-        if is_probably_prime_fermat(N):
+        if is_probably_prime(N):
             return [N]
 
         while True:
@@ -120,6 +132,8 @@ def FactorECM(N0):
                     return next_factor_ecm(N)
         return next_factor_ecm(N)
 
+    if N0 < 1:
+        raise ValueError(f"Cannot factor {N0}: expected a positive integer.")
     return factor_ecm(N0)
 
 
-- 
2.43.0


From 85f3cc1304527d38168ed5c1ddbd9c2d134491b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 048/147] fix: MasterPattern.interpolate accepts an empty set
 of directions

---
 ebsdtorch/ebsd/master_pattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index 0306c9b..ab393e0 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -210,6 +210,8 @@ class MasterPattern(Module):
         # (..., 3) -> (1, H*, W*, 2) -> (...,) where H* x W* = n_coords
         #  3rd fastest integer factorization algorithm is good for small numbers
         n_elem = prod(projected_coords_2D.shape[:-1])
+        if n_elem == 0:
+            return projected_coords_2D[..., 0]
         if n_elem in self.factor_dict:
             H_pseudo, W_pseudo = self.factor_dict[n_elem]
         else:
-- 
2.43.0


From 89847cd7945aaaa0041e75b7eb0f861b7b1cdda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 049/147] fix: orientation conversions of batches with several
 leading dimensions

TorchScript resolves t[mask, i] with a multi-dimensional mask against the
wrong dimension: select the component first, then mask.
---
 ebsdtorch/s2_and_so3/orientations.py | 118 ++++++++++++++-------------
 1 file changed, 62 insertions(+), 56 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 383a0c8..0236ae6 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -102,25 +102,25 @@ def om2qu(matrix: Tensor) -> Tensor:
 
     qu = torch.empty(batch_dim + (4,), dtype=matrix.dtype, device=matrix.device)
 
-    qu[branch_1, 1] = branch_1_t * branch_1_t_rsqrt
-    qu[branch_1, 2] = (m01[branch_1] + m10[branch_1]) * branch_1_t_rsqrt
-    qu[branch_1, 3] = (m20[branch_1] + m02[branch_1]) * branch_1_t_rsqrt
-    qu[branch_1, 0] = (m12[branch_1] - m21[branch_1]) * branch_1_t_rsqrt
-
-    qu[branch_2, 1] = (m01[branch_2] + m10[branch_2]) * branch_2_t_rsqrt
-    qu[branch_2, 2] = branch_2_t * branch_2_t_rsqrt
-    qu[branch_2, 3] = (m12[branch_2] + m21[branch_2]) * branch_2_t_rsqrt
-    qu[branch_2, 0] = (m20[branch_2] - m02[branch_2]) * branch_2_t_rsqrt
-
-    qu[branch_3, 1] = (m20[branch_3] + m02[branch_3]) * branch_3_t_rsqrt
-    qu[branch_3, 2] = (m12[branch_3] + m21[branch_3]) * branch_3_t_rsqrt
-    qu[branch_3, 3] = branch_3_t * branch_3_t_rsqrt
-    qu[branch_3, 0] = (m01[branch_3] - m10[branch_3]) * branch_3_t_rsqrt
-
-    qu[branch_4, 1] = (m12[branch_4] - m21[branch_4]) * branch_4_t_rsqrt
-    qu[branch_4, 2] = (m20[branch_4] - m02[branch_4]) * branch_4_t_rsqrt
-    qu[branch_4, 3] = (m01[branch_4] - m10[branch_4]) * branch_4_t_rsqrt
-    qu[branch_4, 0] = branch_4_t * branch_4_t_rsqrt
+    qu[..., 1][branch_1] = branch_1_t * branch_1_t_rsqrt
+    qu[..., 2][branch_1] = (m01[branch_1] + m10[branch_1]) * branch_1_t_rsqrt
+    qu[..., 3][branch_1] = (m20[branch_1] + m02[branch_1]) * branch_1_t_rsqrt
+    qu[..., 0][branch_1] = (m12[branch_1] - m21[branch_1]) * branch_1_t_rsqrt
+
+    qu[..., 1][branch_2] = (m01[branch_2] + m10[branch_2]) * branch_2_t_rsqrt
+    qu[..., 2][branch_2] = branch_2_t * branch_2_t_rsqrt
+    qu[..., 3][branch_2] = (m12[branch_2] + m21[branch_2]) * branch_2_t_rsqrt
+    qu[..., 0][branch_2] = (m20[branch_2] - m02[branch_2]) * branch_2_t_rsqrt
+
+    qu[..., 1][branch_3] = (m20[branch_3] + m02[branch_3]) * branch_3_t_rsqrt
+    qu[..., 2][branch_3] = (m12[branch_3] + m21[branch_3]) * branch_3_t_rsqrt
+    qu[..., 3][branch_3] = branch_3_t * branch_3_t_rsqrt
+    qu[..., 0][branch_3] = (m01[branch_3] - m10[branch_3]) * branch_3_t_rsqrt
+
+    qu[..., 1][branch_4] = (m12[branch_4] - m21[branch_4]) * branch_4_t_rsqrt
+    qu[..., 2][branch_4] = (m20[branch_4] - m02[branch_4]) * branch_4_t_rsqrt
+    qu[..., 3][branch_4] = (m01[branch_4] - m10[branch_4]) * branch_4_t_rsqrt
+    qu[..., 0][branch_4] = branch_4_t * branch_4_t_rsqrt
 
     # the branches above hold up to one overall sign for the transposed matrix:
     # conjugate and make the real part non-negative (the relative signs of the
@@ -597,11 +597,11 @@ def ho2ax_reference(ho: Tensor, coeffs: str = "kikuchipy") -> Tensor:
 
     eps = 1e-15 if ho.dtype == torch.float64 else 1e-8
     rot_is_identity = torch.abs(ho_norm_sq.squeeze(-1)) < eps
-    ax[rot_is_identity, 0:1] = 0.0
-    ax[rot_is_identity, 1:2] = 0.0
-    ax[rot_is_identity, 2:3] = 1.0
+    ax[..., 0:1][rot_is_identity] = 0.0
+    ax[..., 1:2][rot_is_identity] = 0.0
+    ax[..., 2:3][rot_is_identity] = 1.0
 
-    ax[~rot_is_identity, :3] = ho[~rot_is_identity, :] * torch.rsqrt(
+    ax[..., :3][~rot_is_identity] = ho[~rot_is_identity] * torch.rsqrt(
         ho_norm_sq[~rot_is_identity]
     )
     ax[..., 3] = torch.where(
@@ -634,10 +634,10 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
     # where zero return zero
     mask_zero = h == 0
     ax = torch.empty(ho.shape[:-1] + (4,), dtype=ho.dtype, device=ho.device)
-    ax[mask_zero, 0] = 0.0
-    ax[mask_zero, 1] = 0.0
-    ax[mask_zero, 2] = 1.0
-    ax[mask_zero, 3] = 0.0
+    ax[..., 0][mask_zero] = 0.0
+    ax[..., 1][mask_zero] = 0.0
+    ax[..., 2][mask_zero] = 1.0
+    ax[..., 3][mask_zero] = 0.0
 
     # Newton's method
     # initial guess for w given h is an inverted Pade approximation
@@ -654,10 +654,10 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
         update[torch.isnan(update)] = 0
         w_newton -= update
 
-    ax[~mask_zero, 0:3] = ho[~mask_zero] * torch.reciprocal(
+    ax[..., 0:3][~mask_zero] = ho[~mask_zero] * torch.reciprocal(
         h[~mask_zero].unsqueeze(-1)
     )
-    ax[~mask_zero, 3] = w_newton
+    ax[..., 3][~mask_zero] = w_newton
 
     return ax
 
@@ -711,14 +711,14 @@ def ro2ax(ro: Tensor) -> Tensor:
     ax[mask_zero_ro] = torch.tensor([0, 0, 1, 0], dtype=ro.dtype, device=ro.device)
 
     mask_inf_ro = torch.isinf(ro[..., 3])
-    ax[mask_inf_ro, :3] = ro[mask_inf_ro, :3]
-    ax[mask_inf_ro, 3] = torch.pi
+    ax[..., :3][mask_inf_ro] = ro[..., :3][mask_inf_ro]
+    ax[..., 3][mask_inf_ro] = torch.pi
 
     mask_else = ~(mask_zero_ro | mask_inf_ro)
-    ax[mask_else, :3] = ro[mask_else, :3] / torch.norm(
-        ro[mask_else, :3], dim=-1, keepdim=True
+    ax[..., :3][mask_else] = ro[..., :3][mask_else] / torch.norm(
+        ro[..., :3][mask_else], dim=-1, keepdim=True
     )
-    ax[mask_else, 3] = 2 * torch.atan(ro[mask_else, 3])
+    ax[..., 3][mask_else] = 2 * torch.atan(ro[..., 3][mask_else])
 
     # tan(angle / 2) < 0 is the same rotation about the opposite axis
     return torch.where(ax[..., 3:4] < 0, -ax, ax)
@@ -768,10 +768,10 @@ def qu2ax(qu: Tensor) -> Tensor:
 
     # fix identity quaternions to be about z axis
     mask_identity = angle == 0.0
-    ax[mask_identity, 0] = 0.0
-    ax[mask_identity, 1] = 0.0
-    ax[mask_identity, 2] = 1.0
-    ax[mask_identity, 3] = 0.0
+    ax[..., 0][mask_identity] = 0.0
+    ax[..., 1][mask_identity] = 0.0
+    ax[..., 2][mask_identity] = 1.0
+    ax[..., 3][mask_identity] = 0.0
 
     return ax
 
@@ -798,14 +798,14 @@ def qu2ro(qu: Tensor) -> Tensor:
     # w < 1e-8 for float32 / w < 1e-10 for float64 -> infinite tan
     eps = 1e-8 if qu.dtype == torch.float32 else 1e-10
     mask_zero = torch.abs(qu[..., 0]) < eps
-    ro[mask_zero, 3] = float("inf")
+    ro[..., 3][mask_zero] = float("inf")
 
     # the identity has no axis: use z as in qu2ax
     mask_identity = torch.sum(qu[..., 1:] ** 2, dim=-1) == 0
-    ro[mask_identity, 0] = 0.0
-    ro[mask_identity, 1] = 0.0
-    ro[mask_identity, 2] = 1.0
-    ro[mask_identity, 3] = 0.0
+    ro[..., 0][mask_identity] = 0.0
+    ro[..., 1][mask_identity] = 0.0
+    ro[..., 2][mask_identity] = 1.0
+    ro[..., 3][mask_identity] = 0.0
     return ro
 
 
@@ -832,22 +832,28 @@ def qu2bu(qu: Tensor) -> Tensor:
     mB = (mask_chi_zero) & (q03 == 0)
     mC = ~mask_chi_zero
 
-    bu[mA, 0] = torch.atan2(-2 * qu[mA, 0] * qu[mA, 3], qu[mA, 0] ** 2 - qu[mA, 3] ** 2)
-    bu[mA, 1] = 0
-    bu[mA, 2] = 0
+    bu[..., 0][mA] = torch.atan2(
+        -2 * qu[..., 0][mA] * qu[..., 3][mA],
+        qu[..., 0][mA] ** 2 - qu[..., 3][mA] ** 2,
+    )
+    bu[..., 1][mA] = 0
+    bu[..., 2][mA] = 0
 
-    bu[mB, 0] = torch.atan2(2 * qu[mB, 1] * qu[mB, 2], qu[mB, 1] ** 2 - qu[mB, 2] ** 2)
-    bu[mB, 1] = torch.pi
-    bu[mB, 2] = 0
+    bu[..., 0][mB] = torch.atan2(
+        2 * qu[..., 1][mB] * qu[..., 2][mB],
+        qu[..., 1][mB] ** 2 - qu[..., 2][mB] ** 2,
+    )
+    bu[..., 1][mB] = torch.pi
+    bu[..., 2][mB] = 0
 
-    bu[mC, 0] = torch.atan2(
-        (qu[mC, 1] * qu[mC, 3] - qu[mC, 0] * qu[mC, 2]) / chi[mC],
-        (-qu[mC, 0] * qu[mC, 1] - qu[mC, 2] * qu[mC, 3]) / chi[mC],
+    bu[..., 0][mC] = torch.atan2(
+        (qu[..., 1][mC] * qu[..., 3][mC] - qu[..., 0][mC] * qu[..., 2][mC]) / chi[mC],
+        (-qu[..., 0][mC] * qu[..., 1][mC] - qu[..., 2][mC] * qu[..., 3][mC]) / chi[mC],
     )
-    bu[mC, 1] = torch.atan2(2 * chi[mC], q03[mC] - q12[mC])
-    bu[mC, 2] = torch.atan2(
-        (qu[mC, 0] * qu[mC, 2] + qu[mC, 1] * qu[mC, 3]) / chi[mC],
-        (qu[mC, 2] * qu[mC, 3] - qu[mC, 0] * qu[mC, 1]) / chi[mC],
+    bu[..., 1][mC] = torch.atan2(2 * chi[mC], q03[mC] - q12[mC])
+    bu[..., 2][mC] = torch.atan2(
+        (qu[..., 0][mC] * qu[..., 2][mC] + qu[..., 1][mC] * qu[..., 3][mC]) / chi[mC],
+        (qu[..., 2][mC] * qu[..., 3][mC] - qu[..., 0][mC] * qu[..., 1][mC]) / chi[mC],
     )
 
     # add 2pi to negative angles for first and last angles
-- 
2.43.0


From 81814818bf4c08ef33c755612ea2cd9b19041b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 050/147] fix: MasterPattern keeps its binned copy on the
 device and dtype of the pattern

---
 ebsdtorch/ebsd/master_pattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index ab393e0..0ea357c 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -88,7 +88,8 @@ class MasterPattern(Module):
             self.laue_group = space_group_to_laue(space_group)
 
         self.master_pattern = master_pattern
-        self.master_pattern_binned = None
+        # a buffer so that the binned copy follows .to(device or dtype)
+        self.register_buffer("master_pattern_binned", None, persistent=False)
         self.binning_factor = 1
         self.factor_dict = {}
 
-- 
2.43.0


From abbca9eb5798159cc3deb27b8370c1a0405c7bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 051/147] fix: read_master_pattern adds up the master patterns
 of all sites of the asymmetric unit

---
 ebsdtorch/io/read_master_pattern.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/io/read_master_pattern.py b/ebsdtorch/io/read_master_pattern.py
index afc9377..4f6d5d4 100644
--- a/ebsdtorch/io/read_master_pattern.py
+++ b/ebsdtorch/io/read_master_pattern.py
@@ -21,14 +21,18 @@ def read_master_pattern(file_path) -> MasterPattern:
 
         # load in the actual master patterns per energy
         # mLPNH = modified Lambert projection of North hemisphere
-        # this will be (1, n_energies, H, W) shaped
+        # this will be (n_sites, n_energies, H, W) shaped, added up over the sites
         north_master_patterns = (
-            f["EMData/EBSDmaster/mLPNH"][:].astype(np.float32).squeeze()
+            f["EMData/EBSDmaster/mLPNH"][:].astype(np.float32)
         )
         south_master_patterns = (
-            f["EMData/EBSDmaster/mLPSH"][:].astype(np.float32).squeeze()
+            f["EMData/EBSDmaster/mLPSH"][:].astype(np.float32)
         )
 
+        if north_master_patterns.ndim == 4:
+            north_master_patterns = north_master_patterns.sum(axis=0)
+            south_master_patterns = south_master_patterns.sum(axis=0)
+
         # load the space group number to have the Laue group
         space_group = f["CrystalData/SpaceGroupNumber"][0]
 
-- 
2.43.0


From b86ec8fb98eb53d4e69afe2331a04674b41028f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 052/147] fix: space_group_to_laue places space groups 149-155
 and 194 in their Laue group

---
 ebsdtorch/utils/symmetry_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/symmetry_classes.py b/ebsdtorch/utils/symmetry_classes.py
index 2d54b12..e3f17d0 100644
--- a/ebsdtorch/utils/symmetry_classes.py
+++ b/ebsdtorch/utils/symmetry_classes.py
@@ -7,13 +7,13 @@ def space_group_to_laue(space_group: int) -> int:
         raise ValueError("The space group must be between 1 and 230 inclusive.")
     if space_group > 206:
         laue_group = 11
-    elif space_group > 193:
+    elif space_group > 194:
         laue_group = 10
     elif space_group > 176:
         laue_group = 9
     elif space_group > 167:
         laue_group = 8
-    elif space_group > 155:
+    elif space_group > 148:
         laue_group = 7
     elif space_group > 142:
         laue_group = 6
-- 
2.43.0


From cb0d8f87d87d6d975629a39705f6f11086514760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 053/147] fix: ebsdtorch.ebsd.indexing can be imported without
 running its demonstration

---
 ebsdtorch/ebsd/indexing.py | 201 +++++++++++++++++++------------------
 1 file changed, 101 insertions(+), 100 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 5d7d02e..5bc79ac 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -476,103 +476,104 @@ def pca_dictionary_index_orientations(
     )
 
 
-import torch
-import kikuchipy as kp
-import numpy as np
-
-device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
-
-geom = EBSDGeometry(
-    detector_shape=(60, 60),
-    proj_center=(0.4221, 0.2179, 0.4954),
-).to(device)
-
-# create the master pattern
-kp_mp = kp.data.nickel_ebsd_master_pattern_small(
-    projection="lambert", hemisphere="both"
-)
-mp_nh = torch.from_numpy(kp_mp.data[0, :, :].astype(np.float32)).to(torch.float32)
-mp_sh = torch.from_numpy(kp_mp.data[1, :, :].astype(np.float32)).to(torch.float32)
-master_pattern = torch.concat((mp_nh, mp_sh), dim=-1)
-mp = MasterPattern(
-    master_pattern,
-    laue_group=11,
-).to(device)
-mp.normalize(norm_type="minmax")
-# mp.apply_clahe()
-
-# create the experiment patterns object
-exp_pats = (
-    torch.tensor(kp.data.ni_gain(number=5, allow_download=True).data)
-    .to(device)
-    .to(torch.float32)
-)
-
-exp_pats = ExperimentPatterns(
-    exp_pats,
-)
-
-# subtract background and do clahe
-exp_pats.standard_clean()
-# exp_pats.do_nlpar()
-
-# get radial mask
-from ebsdtorch.preprocessing.radial_mask import get_radial_mask
-
-mask = get_radial_mask(
-    shape=(60, 60),
-).to(device)
-# mask = None
-
-# # index the orientations
-# dictionary_index_orientations(
-#     mp,
-#     geom,
-#     exp_pats,
-#     dictionary_resolution_degrees=0.5,
-#     dictionary_chunk_size=4096,
-#     signal_mask=mask,
-#     virtual_binning=1,
-#     experiment_chunk_size=4096,
-#     match_dtype=torch.float16,
-# )
-
-# index the orientations
-pca_dictionary_index_orientations(
-    mp,
-    geom,
-    exp_pats,
-    dictionary_resolution_learn_deg=0.5,
-    dictionary_resolution_index_deg=0.2,
-    dictionary_chunk_size=4096,
-    signal_mask=mask,
-    virtual_binning=1,
-    experiment_chunk_size=4096,
-    match_dtype=torch.float16,
-    n_pca_components=500,
-)
-
-orientations = exp_pats.get_orientations().cpu().numpy()
-
-# plot the indexed orientations
-import numpy as np
-from orix import plot
-from orix.quaternion import Orientation
-from orix.vector import Vector3d
-from plotly.express import imshow
-
-# get the orientation colors
-pg_m3m = kp_mp.phase.point_group.laue
-ckey_m3m = plot.IPFColorKeyTSL(pg_m3m, direction=Vector3d.zvector())
-
-# save rgb image
-orientations = Orientation(orientations)
-rgb = ckey_m3m.orientation2color(orientations)
-rgb_byte = (rgb.reshape(149, 200, 3) * 255).astype(np.uint8)
-
-# plot the indexed orientations
-fig = imshow(rgb_byte)
-# set title
-fig.update_layout(title_text=f"Scan {1}")
-
-fig.show()
+if __name__ == "__main__":
+    import torch
+    import kikuchipy as kp
+    import numpy as np
+
+    device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
+
+    geom = EBSDGeometry(
+        detector_shape=(60, 60),
+        proj_center=(0.4221, 0.2179, 0.4954),
+    ).to(device)
+
+    # create the master pattern
+    kp_mp = kp.data.nickel_ebsd_master_pattern_small(
+        projection="lambert", hemisphere="both"
+    )
+    mp_nh = torch.from_numpy(kp_mp.data[0, :, :].astype(np.float32)).to(torch.float32)
+    mp_sh = torch.from_numpy(kp_mp.data[1, :, :].astype(np.float32)).to(torch.float32)
+    master_pattern = torch.concat((mp_nh, mp_sh), dim=-1)
+    mp = MasterPattern(
+        master_pattern,
+        laue_group=11,
+    ).to(device)
+    mp.normalize(norm_type="minmax")
+    # mp.apply_clahe()
+
+    # create the experiment patterns object
+    exp_pats = (
+        torch.tensor(kp.data.ni_gain(number=5, allow_download=True).data)
+        .to(device)
+        .to(torch.float32)
+    )
+
+    exp_pats = ExperimentPatterns(
+        exp_pats,
+    )
+
+    # subtract background and do clahe
+    exp_pats.standard_clean()
+    # exp_pats.do_nlpar()
+
+    # get radial mask
+    from ebsdtorch.preprocessing.radial_mask import get_radial_mask
+
+    mask = get_radial_mask(
+        shape=(60, 60),
+    ).to(device)
+    # mask = None
+
+    # # index the orientations
+    # dictionary_index_orientations(
+    #     mp,
+    #     geom,
+    #     exp_pats,
+    #     dictionary_resolution_degrees=0.5,
+    #     dictionary_chunk_size=4096,
+    #     signal_mask=mask,
+    #     virtual_binning=1,
+    #     experiment_chunk_size=4096,
+    #     match_dtype=torch.float16,
+    # )
+
+    # index the orientations
+    pca_dictionary_index_orientations(
+        mp,
+        geom,
+        exp_pats,
+        dictionary_resolution_learn_deg=0.5,
+        dictionary_resolution_index_deg=0.2,
+        dictionary_chunk_size=4096,
+        signal_mask=mask,
+        virtual_binning=1,
+        experiment_chunk_size=4096,
+        match_dtype=torch.float16,
+        n_pca_components=500,
+    )
+
+    orientations = exp_pats.get_orientations().cpu().numpy()
+
+    # plot the indexed orientations
+    import numpy as np
+    from orix import plot
+    from orix.quaternion import Orientation
+    from orix.vector import Vector3d
+    from plotly.express import imshow
+
+    # get the orientation colors
+    pg_m3m = kp_mp.phase.point_group.laue
+    ckey_m3m = plot.IPFColorKeyTSL(pg_m3m, direction=Vector3d.zvector())
+
+    # save rgb image
+    orientations = Orientation(orientations)
+    rgb = ckey_m3m.orientation2color(orientations)
+    rgb_byte = (rgb.reshape(149, 200, 3) * 255).astype(np.uint8)
+
+    # plot the indexed orientations
+    fig = imshow(rgb_byte)
+    # set title
+    fig.update_layout(title_text=f"Scan {1}")
+
+    fig.show()
-- 
2.43.0


From 1b9e48101d2e14864133c3326a03358036c4656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 054/147] fix: pattern indexing in chunks respects
 subtract_exp_pat_mean

---
 ebsdtorch/ebsd/indexing.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 5bc79ac..92b51b2 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -182,9 +182,10 @@ def dictionary_index_orientations(
                         query_chunk = query_chunk[:, signal_mask.flatten()]
 
                     # subtract the mean
-                    query_chunk = query_chunk - torch.mean(
-                        query_chunk, dim=-1, keepdim=True
-                    )
+                    if subtract_exp_pat_mean:
+                        query_chunk = query_chunk - torch.mean(
+                            query_chunk, dim=-1, keepdim=True
+                        )
 
                     # query the KNN object
                     knn.query_chunk(
@@ -444,9 +445,10 @@ def pca_dictionary_index_orientations(
                         query_chunk = query_chunk[:, signal_mask.flatten()]
 
                     # subtract the mean
-                    query_chunk = query_chunk - torch.mean(
-                        query_chunk, dim=-1, keepdim=True
-                    )
+                    if subtract_exp_pat_mean:
+                        query_chunk = query_chunk - torch.mean(
+                            query_chunk, dim=-1, keepdim=True
+                        )
 
                     # project the query chunk onto the PCA components
                     query_chunk = torch.matmul(query_chunk, pca_matrix)
-- 
2.43.0


From 262b897d17bb9e66d606059a5738bfa774dea33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 055/147] fix: PCA indexing keeps the components with the
 largest eigenvalues

---
 ebsdtorch/ebsd/indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 92b51b2..0b9c72f 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -353,7 +353,7 @@ def pca_dictionary_index_orientations(
 
         # trim the eigenvectors to the number of components
         # they are returned in ascending order of eigenvalue
-        pca_matrix = eigenvectors[:, -n_pca_components : (-n_pca_components + 300)]
+        pca_matrix = eigenvectors[:, -n_pca_components:]
 
         # calc dictionary (if the learning and indexing resolutions are different)
         if dictionary_resolution_learn_deg != dictionary_resolution_index_deg:
-- 
2.43.0


From 964a14889191e005811c7368828586682d13c8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 056/147] fix: PCA indexing supports virtual binning

---
 ebsdtorch/ebsd/indexing.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 0b9c72f..ea70979 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -285,7 +285,7 @@ def pca_dictionary_index_orientations(
         if signal_mask is not None:
             n_pixels = signal_mask.sum().item()
         else:
-            n_pixels = experiment_patterns.n_pixels
+            n_pixels = experiment_patterns.n_pixels // virtual_binning**2
 
         # make an object to do the PCA
         pcacovmat = OnlineCovMatrix(
@@ -406,9 +406,10 @@ def pca_dictionary_index_orientations(
 
             # # retrieve and project the experiment patterns
             if experiment_chunk_size > experiment_patterns.n_patterns:
-                exp_pats = experiment_patterns.patterns.view(
-                    experiment_patterns.n_patterns, -1
-                )
+                exp_pats = experiment_patterns.get_patterns(
+                    torch.arange(experiment_patterns.n_patterns),
+                    binning=virtual_binning,
+                ).view(experiment_patterns.n_patterns, -1)
                 # query all the experiment patterns
                 # first apply the signal mask if provided
                 if signal_mask is not None:
-- 
2.43.0


From 388e8527e29af411a85899330179da1bd60b6703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 057/147] fix: ChunkedKNN accepts data chunks smaller than the
 number of neighbours

---
 ebsdtorch/utils/knn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index a630995..817f68d 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -68,7 +68,9 @@ def quant_model_query(query: Tensor) -> Module:
 
 
 def topk_quantized_data(query_batch: Tensor, quantized_data: Module, k: int) -> Tensor:
-    res = torch.topk(quantized_data(query_batch), k, dim=1, largest=True, sorted=False)
+    dots = quantized_data(query_batch)
+    k = min(k, dots.shape[1])
+    res = torch.topk(dots, k, dim=1, largest=True, sorted=False)
     return res.values, res.indices
 
 
@@ -98,7 +100,7 @@ def knn_batch(
     else:
         raise NotImplementedError(f"'{metric}' not supported.")
     topk_distances, topk_indices = torch.topk(
-        dist, topk, dim=1, largest=lgst, sorted=False
+        dist, min(topk, dist.shape[1]), dim=1, largest=lgst, sorted=False
     )
     return topk_distances, topk_indices
 
-- 
2.43.0


From 644f30d05e8f0740820c12086cf7dcdc5dc74729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 058/147] fix: ChunkedKNN only quantizes dot products, not the
 other metrics

---
 ebsdtorch/utils/knn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index 817f68d..230ac10 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -134,6 +134,9 @@ class ChunkedKNN:
         self.match_device = match_device
         self.distance_metric = distance_metric
 
+        # the quantized matrix product only yields the angular metric
+        quantized_via_ao = quantized_via_ao and distance_metric == "angular"
+
         if (
             quantized_via_ao
             and match_dtype != torch.float32
-- 
2.43.0


From f6d3627e888f9ed14cb0cb58c4b3a66eccd388ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 059/147] fix: ExperimentPatterns accepts patterns that are not
 contiguous in memory

---
 ebsdtorch/ebsd/experiment_pats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 0d0e4ae..2de7b32 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -46,7 +46,7 @@ class ExperimentPatterns(Module):
 
         self.pattern_shape = patterns.shape[-2:]
         self.spatial_shape = patterns.shape[:-2] if len(patterns.shape) > 2 else (1, 1)
-        self.patterns = patterns.view(-1, *patterns.shape[-2:])
+        self.patterns = patterns.reshape(-1, *patterns.shape[-2:])
 
         # set number of patterns and pixels
         self.n_patterns = self.patterns.shape[0]
-- 
2.43.0


From e599f0e315ffd58cb9cc6f55f1939bd5086e9644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 060/147] fix: ExperimentPatterns.get_spatial_coords reports
 missing coordinates as documented

---
 ebsdtorch/ebsd/experiment_pats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 2de7b32..11e4bc3 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -52,6 +52,7 @@ class ExperimentPatterns(Module):
         self.n_patterns = self.patterns.shape[0]
         self.n_pixels = self.pattern_shape[0] * self.pattern_shape[1]
 
+        self.spatial_coords = None
         self.phases = None
         self.orientations = None
         self.inv_f_matrix = None
-- 
2.43.0


From ec24f94ad879588f294b9464e97bab7a7595cc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 061/147] fix: ExperimentPatterns.set_inv_f_matrix accepts one
 matrix for all patterns as documented

---
 ebsdtorch/ebsd/experiment_pats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 11e4bc3..784dc74 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -189,7 +189,7 @@ class ExperimentPatterns(Module):
             f_matrix[:, 8] = 1.0
             f_matrix = f_matrix.reshape(self.n_patterns, 3, 3)
         else:
-            if f_matrix.shape[0] != self.n_patterns:
+            if f_matrix.shape[0] not in (1, self.n_patterns):
                 raise ValueError(
                     f"Deformation gradients must have the same number of patterns as the ExperimentPatterns object. "
                     + f"Got {f_matrix.shape[0]} gradients and {self.n_patterns} patterns."
@@ -200,7 +200,7 @@ class ExperimentPatterns(Module):
                 raise ValueError(
                     f"Deformation gradients must be 3x3 matrices. Got {f_matrix.shape[-2:]} components."
                 )
-        self.inv_f_matrix = f_matrix.view(self.n_patterns, 3, 3)
+        self.inv_f_matrix = f_matrix.reshape(-1, 3, 3).expand(self.n_patterns, 3, 3)
 
     def get_inv_f_matrix(
         self,
-- 
2.43.0


From 228332f3957ba7b2c3a76a6b6adf86ed90fa369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 062/147] fix: ExperimentPatterns.get_indices_per_phase returns
 a 1D tensor for a single match

---
 ebsdtorch/ebsd/experiment_pats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 784dc74..7bcafc2 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -361,7 +361,7 @@ class ExperimentPatterns(Module):
                 "Phases must be indexed before retrieving indices per phase."
             )
         return [
-            torch.nonzero(self.phases == i, as_tuple=False).squeeze()
+            torch.nonzero(self.phases == i, as_tuple=False).squeeze(-1)
             for i in range(self.phases.max().item() + 1)
         ]
 
-- 
2.43.0


From 1e6f27f42f4d95f74e4dac115eaca02170bfa542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 063/147] fix: ExperimentPatterns.combine_indexing_results
 handles several phases and any single phase id

---
 ebsdtorch/ebsd/experiment_pats.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 7bcafc2..f847245 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -417,8 +417,8 @@ class ExperimentPatterns(Module):
 
             # make a phase_id tensor
             phase_ids = torch.full(
-                self.n_patterns,
-                fill_value=-1,
+                (self.n_patterns,),
+                fill_value=0,
                 dtype=torch.uint8,
                 device=self.patterns.device,
             )
@@ -431,6 +431,9 @@ class ExperimentPatterns(Module):
             )
 
             for phase_id, (quaternions, metrics) in self.raw_indexing_results.items():
+                # the matches of each pattern are sorted from best to worst
+                quaternions = quaternions[:, 0].to(orientations.dtype)
+                metrics = metrics[:, 0].to(best_metrics.dtype)
                 if higher_is_better:
                     mask = metrics > best_metrics
                 else:
@@ -448,5 +451,6 @@ class ExperimentPatterns(Module):
                 dtype=torch.uint8,
                 device=self.patterns.device,
             )
-            self.orientations = self.raw_indexing_results[0][0][:, 0]
-            self.best_metrics = self.raw_indexing_results[0][1][:, 0]
+            quaternions, metrics = list(self.raw_indexing_results.values())[0]
+            self.orientations = quaternions[:, 0]
+            self.best_metrics = metrics[:, 0]
-- 
2.43.0


From dc47d942268cee9b4e320a40fc57b5f0e7e1b1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 064/147] fix: ExperimentPatterns can normalize a cropped
 region of a scan

---
 ebsdtorch/ebsd/experiment_pats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index f847245..ad240fc 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -46,7 +46,7 @@ class ExperimentPatterns(Module):
 
         self.pattern_shape = patterns.shape[-2:]
         self.spatial_shape = patterns.shape[:-2] if len(patterns.shape) > 2 else (1, 1)
-        self.patterns = patterns.reshape(-1, *patterns.shape[-2:])
+        self.patterns = patterns.reshape(-1, *patterns.shape[-2:]).contiguous()
 
         # set number of patterns and pixels
         self.n_patterns = self.patterns.shape[0]
-- 
2.43.0


From 895c8fd436f890e25b8cda7dcfb2c69bcacc6e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 065/147] fix: ExperimentPatterns.normalize_per_pattern leaves
 the patterns alone when the method is unknown

---
 ebsdtorch/ebsd/experiment_pats.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index ad240fc..34b4adb 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -266,6 +266,10 @@ class ExperimentPatterns(Module):
 
         """
 
+        if norm_type not in ("minmax", "zeromean", "standard"):
+            raise ValueError(
+                f"Invalid normalization method. Got {norm_type} but expected 'minmax', 'zeromean', or 'standard'."
+            )
         self.patterns = self.patterns.view(self.n_patterns, -1)
         if norm_type == "minmax":
             pat_mins = torch.min(self.patterns, dim=-1).values
@@ -274,13 +278,9 @@ class ExperimentPatterns(Module):
             self.patterns /= 1e-4 + pat_maxs[..., None] - pat_mins[..., None]
         elif norm_type == "zeromean":
             self.patterns -= torch.mean(self.patterns, dim=-1, keepdim=True)
-        elif norm_type == "standard":
+        else:
             self.patterns -= torch.mean(self.patterns, dim=-1, keepdim=True)
             self.patterns /= torch.std(self.patterns, dim=-1, keepdim=True)
-        else:
-            raise ValueError(
-                f"Invalid normalization method. Got {norm_type} but expected 'minmax', 'zeromean', or 'standard'."
-            )
         self.patterns = self.patterns.view(-1, *self.pattern_shape)
 
     def standard_clean(
-- 
2.43.0


From 58ed40209e47051571c1a7049d857519084c97ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 066/147] fix: indexing a scan again does not mix in the
 results of phases indexed before

---
 ebsdtorch/ebsd/indexing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index ea70979..6a3f337 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -56,6 +56,9 @@ def dictionary_index_orientations(
     if isinstance(master_patterns, MasterPattern):
         master_patterns = [master_patterns]
 
+    # the results of an earlier indexing do not compete with these
+    experiment_patterns.raw_indexing_results = {}
+
     # we could save some compute by only computing the cosine vectors once
     # per unique Laue group ID and reuse those coordinates for all master patterns
     # with the same Laue group ID. But more than a few phases in a sample is rare.
@@ -259,6 +262,9 @@ def pca_dictionary_index_orientations(
     if isinstance(master_patterns, MasterPattern):
         master_patterns = [master_patterns]
 
+    # the results of an earlier indexing do not compete with these
+    experiment_patterns.raw_indexing_results = {}
+
     # we could save some compute by only computing the cosine vectors once
     # per unique Laue group ID and reuse those coordinates for all master patterns
     # with the same Laue group ID. But more than a few phases in a sample is rare.
-- 
2.43.0


From baa5ab99d5ee85d293f35486a70f8b90afa023f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 067/147] fix: KrasulinaPCA applies the implicit update to the
 whole batch, which cannot overshoot

---
 ebsdtorch/utils/pca_online.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/pca_online.py b/ebsdtorch/utils/pca_online.py
index 06bf3ed..e95660b 100644
--- a/ebsdtorch/utils/pca_online.py
+++ b/ebsdtorch/utils/pca_online.py
@@ -63,8 +63,10 @@ class KrasulinaPCA(nn.Module):
         # Project data
         latent = self.C_cross @ x.T
         residual = x.T - self.C @ latent
-        alpha = self.eta / (1.0 + self.eta * torch.norm(latent, dim=0))
-        self.C.add_((alpha[None, :] * residual) @ latent.T)
+        # the implicit step of the whole batch (eta / (1 + eta |latent|^2) for one sample)
+        gram = self.eta * (latent @ latent.T)
+        gram.diagonal().add_(1.0)
+        self.C.add_(self.eta * torch.linalg.solve(gram, latent @ residual.T).T)
         self.C_cross.copy_(torch.linalg.inv_ex(self.C.T @ self.C)[0] @ self.C.T)
 
     def get_components(self) -> Tensor:
-- 
2.43.0


From dc473765cd24ffb06d4abb682a5983aab694b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 068/147] fix: OjaPCA with use_oja_plus accepts a single
 component

---
 ebsdtorch/utils/pca_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/pca_online.py b/ebsdtorch/utils/pca_online.py
index e95660b..c375e9d 100644
--- a/ebsdtorch/utils/pca_online.py
+++ b/ebsdtorch/utils/pca_online.py
@@ -116,7 +116,7 @@ class OjaPCA(nn.Module):
 
         # For Oja++, gradually initialize columns
         if self.use_oja_plus and self.next_col_to_init < self.n_components:
-            if self.step % (self.n_components // 2) == 0:
+            if self.step % max(self.n_components // 2, 1) == 0:
                 self.Q[:, self.next_col_to_init] = torch.randn(
                     self.n_features, dtype=self.Q.dtype
                 )
-- 
2.43.0


From 22dccae8fa9cb1732bec7d75268dff2f2849544a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 069/147] fix: mutual_information keeps the bins of the joint
 histogram apart

---
 ebsdtorch/utils/mutual_information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index c3f967f..d6f17bc 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -48,7 +48,7 @@ def mutual_information(
         a_bin = (a * n_bins * 0.999999).long()
         b_bin = (b * n_bins * 0.999999).long()
 
-    joint_bin = a_bin * (n_bins - 1) + b_bin
+    joint_bin = a_bin * n_bins + b_bin
 
     # get the histogram
     if B1 == B2:
-- 
2.43.0


From b13113bd5a5eb99133ec7a1e72e21385df93e83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:57 +0000
Subject: [PATCH 070/147] fix: mutual_information of a constant image is zero
 instead of an indexing error

---
 ebsdtorch/utils/mutual_information.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index d6f17bc..344fd9d 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -42,8 +42,15 @@ def mutual_information(
     b_maxvals = b.max(dim=-1, keepdim=True).values
 
     if normalize:
-        a_bin = ((a - a_minvals) / (a_maxvals - a_minvals) * n_bins * 0.999999).long()
-        b_bin = ((b - b_minvals) / (b_maxvals - b_minvals) * n_bins * 0.999999).long()
+        # a constant image falls into a single bin
+        a_range = torch.where(
+            a_maxvals > a_minvals, a_maxvals - a_minvals, torch.ones_like(a_maxvals)
+        )
+        b_range = torch.where(
+            b_maxvals > b_minvals, b_maxvals - b_minvals, torch.ones_like(b_maxvals)
+        )
+        a_bin = ((a - a_minvals) / a_range * n_bins * 0.999999).long()
+        b_bin = ((b - b_minvals) / b_range * n_bins * 0.999999).long()
     else:
         a_bin = (a * n_bins * 0.999999).long()
         b_bin = (b * n_bins * 0.999999).long()
-- 
2.43.0


From ecf5fc03420beb722502674b4378aa0f9b7c232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 071/147] fix: binned_nmi counts the value 1 in the last bin

---
 ebsdtorch/utils/mutual_information.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 344fd9d..4b384c1 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -180,8 +180,9 @@ def binned_nmi(
     x = x.view(-1)
     y = y.view(-1)
 
-    x_binned = torch.floor(x * binsx)
-    y_binned = torch.floor(y * binsy)
+    # the last bin includes its upper edge
+    x_binned = torch.floor(x * binsx).clamp(max=binsx - 1)
+    y_binned = torch.floor(y * binsy).clamp(max=binsy - 1)
 
     # Create a combined variable for 1D histogram
     xy_combined = x_binned * binsy + y_binned
-- 
2.43.0


From 67df22702afa9b9ce4d5b4d34ccd8e7c40e0b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 072/147] fix: cmif of images with an odd width

---
 ebsdtorch/utils/mutual_information.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 4b384c1..06fc6dc 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -453,11 +453,11 @@ def cmif(
         else:
             # first compute the marginal histograms
             marg_hists_dst = fftshift(
-                irfft2(src_levels_fft[:, 0:1, :, :] * dst_levels_fft[:, 1:, :, :]),
+                irfft2(src_levels_fft[:, 0:1, :, :] * dst_levels_fft[:, 1:, :, :], s=(h1, w1)),
                 dim=(-2, -1),
             )
             marg_hists_src = fftshift(
-                irfft2(src_levels_fft[:, 1:, :, :] * dst_levels_fft[:, 0:1, :, :]),
+                irfft2(src_levels_fft[:, 1:, :, :] * dst_levels_fft[:, 0:1, :, :], s=(h1, w1)),
                 dim=(-2, -1),
             )
 
@@ -495,7 +495,7 @@ def cmif(
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
-                cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
+                cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1))
                 # where the bin occupancy was less than 1, set it to zero
                 cross_corr_real[cross_corr_real < 1.0] = 0.0
                 # update the tally
@@ -506,7 +506,7 @@ def cmif(
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
-                cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
+                cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1))
                 # where the bin occupancy was less than 1, set it to zero
                 cross_corr_real[cross_corr_real < 1.0] = 0.0
                 # increment the joint entropy
@@ -578,7 +578,7 @@ def cmif(
             )
 
             # Inverse 2D real valued fourier transform and shift and abs
-            cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
+            cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1))
 
             # where the bin occupancy was less than 1, set it to zero
             cross_corr_real[cross_corr_real < 1.0] = 0.0
@@ -608,7 +608,7 @@ def cmif(
             )
 
             # Inverse 2D real valued fourier transform and shift and abs
-            cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1)).real
+            cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1)).real
 
             # where the bin occupancy was less than 1, set it to zero
             cross_corr_real[cross_corr_real < 1.0] = 0.0
-- 
2.43.0


From eb8ba89b2a20beae631708977a529da5f28c1b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:55 +0000
Subject: [PATCH 073/147] fix: cmif counts the value 1 in the last bin

---
 ebsdtorch/utils/mutual_information.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 06fc6dc..b53e789 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -380,7 +380,9 @@ def cmif(
     images_dst = images_dst.view(-1, 1, h1, w1)
     images_src = images_src.view(-1, 1, h1, w1)
 
-    dst_levels = (bins_dst * images_dst).byte().repeat(1, bins_dst, 1, 1)
+    # the last bin includes its upper edge
+    dst_bins = (bins_dst * images_dst).byte().clamp(max=bins_dst - 1)
+    dst_levels = dst_bins.repeat(1, bins_dst, 1, 1)
     dst_levels = (
         dst_levels
         == torch.arange(bins_dst, dtype=torch.uint8, device=images_dst.device)[
@@ -388,7 +390,8 @@ def cmif(
         ]
     )
 
-    src_levels = (bins_src * images_src).byte().repeat(1, bins_src, 1, 1)
+    src_bins = (bins_src * images_src).byte().clamp(max=bins_src - 1)
+    src_levels = src_bins.repeat(1, bins_src, 1, 1)
     src_levels = (
         src_levels
         == torch.arange(bins_src, dtype=torch.uint8, device=images_src.device)[
@@ -521,8 +524,8 @@ def cmif(
     else:
         if constant_marginal:
             # the marginal is calculated from the entire original image and it is a scalar
-            src_discrete = (bins_src * images_src * 0.99999).long()
-            dst_discrete = (bins_dst * images_dst * 0.99999).long()
+            src_discrete = src_bins.long()
+            dst_discrete = dst_bins.long()
 
             # have to use scatter instead
             marg_hists_dst = torch.zeros(
-- 
2.43.0


From 62c5463288c0b2eda09b0ea0d950311242b98e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 074/147] fix: cmif only counts pairs of pixels inside both
 indicator masks

---
 ebsdtorch/utils/mutual_information.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index b53e789..12afd98 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -411,8 +411,9 @@ def cmif(
         src_ind = src_ind.view(-1, 1, h1, w1)
 
     # add the indicator images to the beginning of the levels
-    dst_levels = torch.cat((dst_ind, dst_levels), dim=1)
-    src_levels = torch.cat((src_ind, src_levels), dim=1)
+    # and restrict the levels to them, so that both histograms count the same pairs
+    dst_levels = torch.cat((dst_ind, dst_levels * dst_ind), dim=1)
+    src_levels = torch.cat((src_ind, src_levels * src_ind), dim=1)
 
     # calculate the 2D FFT of the indicator images
     dst_levels_fft = rfft2(dst_levels.float())
-- 
2.43.0


From 77eda9262a5b508bdb664e9f8ddca365560ee0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 075/147] fix: cmif does not drop bins that hold a single pair
 of pixels

---
 ebsdtorch/utils/mutual_information.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 12afd98..8d0d92d 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -500,8 +500,8 @@ def cmif(
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
                 cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1))
-                # where the bin occupancy was less than 1, set it to zero
-                cross_corr_real[cross_corr_real < 1.0] = 0.0
+                # where the bin occupancy was less than 1 (up to rounding), set it to zero
+                cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # update the tally
                 tally_joint += cross_corr_real.sum(dim=(2, 3))
 
@@ -511,8 +511,8 @@ def cmif(
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
                 cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1))
-                # where the bin occupancy was less than 1, set it to zero
-                cross_corr_real[cross_corr_real < 1.0] = 0.0
+                # where the bin occupancy was less than 1 (up to rounding), set it to zero
+                cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # increment the joint entropy
                 joint_p = cross_corr_real / tally_joint
                 joint_p_log_p = torch.where(
@@ -584,8 +584,8 @@ def cmif(
             # Inverse 2D real valued fourier transform and shift and abs
             cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1))
 
-            # where the bin occupancy was less than 1, set it to zero
-            cross_corr_real[cross_corr_real < 1.0] = 0.0
+            # where the bin occupancy was less than 1 (up to rounding), set it to zero
+            cross_corr_real[cross_corr_real < 0.5] = 0.0
 
             # extract out the joint histograms
             joint_hists = cross_corr_real[:, :, 1:, 1:, :, :]
@@ -614,8 +614,8 @@ def cmif(
             # Inverse 2D real valued fourier transform and shift and abs
             cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1)).real
 
-            # where the bin occupancy was less than 1, set it to zero
-            cross_corr_real[cross_corr_real < 1.0] = 0.0
+            # where the bin occupancy was less than 1 (up to rounding), set it to zero
+            cross_corr_real[cross_corr_real < 0.5] = 0.0
 
             # extract out the joint histograms
             joint_hists = cross_corr_real[:, :, 1:, 1:, :, :]
-- 
2.43.0


From d3cdc5506c5b631e29eb9d6ef9851053f8200607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 076/147] fix: cmif in chunks covers the last bin

---
 ebsdtorch/utils/mutual_information.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 8d0d92d..8c94933 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -493,8 +493,8 @@ def cmif(
             (images_dst.shape[0], images_src.shape[0], h1, w1), device=images_dst.device
         )
 
-        for i in range(1, bins_src, chunk_size):
-            for j in range(1, bins_dst, chunk_size):
+        for i in range(1, bins_src + 1, chunk_size):
+            for j in range(1, bins_dst + 1, chunk_size):
                 # print which chunk begin and end for each
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
@@ -505,8 +505,8 @@ def cmif(
                 # update the tally
                 tally_joint += cross_corr_real.sum(dim=(2, 3))
 
-        for i in range(1, bins_src, chunk_size):
-            for j in range(1, bins_dst, chunk_size):
+        for i in range(1, bins_src + 1, chunk_size):
+            for j in range(1, bins_dst + 1, chunk_size):
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
-- 
2.43.0


From e3a58ac28e2be3e0302cdf8fe098a5169f0719a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 077/147] fix: cmif in chunks computes the marginals of every
 pair of images

---
 ebsdtorch/utils/mutual_information.py | 30 ++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 8c94933..ffae172 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -455,19 +455,35 @@ def cmif(
             ent_dst = -torch.sum(marg_dst_p_log_p)
 
         else:
-            # first compute the marginal histograms
+            # first compute the marginal histograms of every pair of images
             marg_hists_dst = fftshift(
-                irfft2(src_levels_fft[:, 0:1, :, :] * dst_levels_fft[:, 1:, :, :], s=(h1, w1)),
+                irfft2(
+                    torch.einsum(
+                        "bihw,chw->bcihw",
+                        dst_levels_fft[:, 1:, :, :],
+                        src_levels_fft[:, 0, :, :],
+                    ),
+                    s=(h1, w1),
+                ),
                 dim=(-2, -1),
             )
             marg_hists_src = fftshift(
-                irfft2(src_levels_fft[:, 1:, :, :] * dst_levels_fft[:, 0:1, :, :], s=(h1, w1)),
+                irfft2(
+                    torch.einsum(
+                        "bhw,cihw->bcihw",
+                        dst_levels_fft[:, 0, :, :],
+                        src_levels_fft[:, 1:, :, :],
+                    ),
+                    s=(h1, w1),
+                ),
                 dim=(-2, -1),
             )
+            marg_hists_dst[marg_hists_dst < 0.5] = 0.0
+            marg_hists_src[marg_hists_src < 0.5] = 0.0
 
             # normalize the marginal histograms
-            marg_hists_src /= marg_hists_src.sum(dim=1, keepdim=True)
-            marg_hists_dst /= marg_hists_dst.sum(dim=1, keepdim=True)
+            marg_hists_src /= marg_hists_src.sum(dim=2, keepdim=True)
+            marg_hists_dst /= marg_hists_dst.sum(dim=2, keepdim=True)
 
             # calculate the marginal log probabilities
             marg_src_p_log_p = torch.where(
@@ -482,8 +498,8 @@ def cmif(
             )
 
             # find the entropies of the marginals
-            ent_src = -torch.sum(marg_src_p_log_p, dim=1)
-            ent_dst = -torch.sum(marg_dst_p_log_p, dim=1)
+            ent_src = -torch.sum(marg_src_p_log_p, dim=2)
+            ent_dst = -torch.sum(marg_dst_p_log_p, dim=2)
 
         # total number of pixel pair values is the olap value so we can normalize the histogram bars in the joint as they come
         ent_joint = torch.zeros(
-- 
2.43.0


From 7c2ecf3e4443c29fe2af35d62a60ba31ffb1b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 078/147] fix: cmif in chunks supports a constant marginal

---
 ebsdtorch/utils/mutual_information.py | 40 +++++++++++++++++++--------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index ffae172..02dea12 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -423,20 +423,38 @@ def cmif(
     if bins_src > 8 or bins_dst > 8:
         if constant_marginal:
             # the marginal is calculated from the entire original image and it is a scalar
-            src_discrete = (bins_src * images_src).byte()
-            dst_discrete = (bins_dst * images_dst).byte()
+            src_discrete = src_bins.long()
+            dst_discrete = dst_bins.long()
 
-            # calculate the marginal histograms
-            marg_hists_dst = torch.histc(
-                dst_discrete[src_ind].float(), bins=bins_dst, min=0, max=bins_dst - 1
+            # have to use scatter instead
+            marg_hists_dst = torch.zeros(
+                images_dst.shape[0], bins_dst, device=images_dst.device
             )
-            marg_hists_src = torch.histc(
-                src_discrete[dst_ind].float(), bins=bins_src, min=0, max=bins_src - 1
+            marg_hists_src = torch.zeros(
+                images_src.shape[0], bins_src, device=images_src.device
+            )
+
+            # reshape to be (B, n_bins, -1)
+            src_discrete = src_discrete.view(-1, h1 * w1)
+            dst_discrete = dst_discrete.view(-1, h1 * w1)
+
+            # scatter the joint histogram
+            marg_hists_dst = marg_hists_dst.scatter_(
+                -1,
+                dst_discrete,
+                1,
+                reduce="add",
+            )
+            marg_hists_src = marg_hists_src.scatter_(
+                -1,
+                src_discrete,
+                1,
+                reduce="add",
             )
 
             # normalize the marginal histograms
-            marg_hists_src /= marg_hists_src.sum()
-            marg_hists_dst /= marg_hists_dst.sum()
+            marg_hists_src /= marg_hists_src.sum(dim=1, keepdim=True)
+            marg_hists_dst /= marg_hists_dst.sum(dim=1, keepdim=True)
 
             # calculate the marginal log probabilities
             marg_src_p_log_p = torch.where(
@@ -451,8 +469,8 @@ def cmif(
             )
 
             # find the entropies of the marginals
-            ent_src = -torch.sum(marg_src_p_log_p)
-            ent_dst = -torch.sum(marg_dst_p_log_p)
+            ent_src = -torch.sum(marg_src_p_log_p, dim=1)
+            ent_dst = -torch.sum(marg_dst_p_log_p, dim=1)
 
         else:
             # first compute the marginal histograms of every pair of images
-- 
2.43.0


From 0f52a31e4a4a632302fe5935bd97580be520bbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 079/147] fix: cmif normalizes the map when the marginal is
 constant

---
 ebsdtorch/utils/mutual_information.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 02dea12..760bb9e 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -688,9 +688,9 @@ def cmif(
 
     # mutual information is the sum of the marginal entropies minus the joint entropy
     if constant_marginal:
-        mi = ent_dst[:, None, None, None] + ent_src[None, :, None, None] - ent_joint
-    else:
-        mi = ent_dst + ent_src - ent_joint
+        ent_dst = ent_dst[:, None, None, None]
+        ent_src = ent_src[None, :, None, None]
+    mi = ent_dst + ent_src - ent_joint
 
     # replace any NaNs or Infs or Negatives with zeros
     mi[torch.isnan(mi) | torch.isinf(mi) | (mi < 0.0)] = 0.0
-- 
2.43.0


From b8ed0d185011194a36d01cc3b8735f16f403b90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 080/147] fix: cmif in chunks normalizes the joint histogram of
 each pair of images

---
 ebsdtorch/utils/mutual_information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 760bb9e..ae76068 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -548,7 +548,7 @@ def cmif(
                 # where the bin occupancy was less than 1 (up to rounding), set it to zero
                 cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # increment the joint entropy
-                joint_p = cross_corr_real / tally_joint
+                joint_p = cross_corr_real / tally_joint[:, :, None, None]
                 joint_p_log_p = torch.where(
                     joint_p > 0.0,
                     joint_p * torch.log(joint_p),
-- 
2.43.0


From d98c44d25c348cee9684dd3ea40b4fc660ac98bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 081/147] fix: spatial_fft_pc_fitter with odd detector sizes

---
 ebsdtorch/ebsd/fitting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index c9dd852..bfd9e41 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -484,7 +484,10 @@ def spatial_fft_pc_fitter(
 
             if metric == "dot":
                 sim_pats_fft = rfft2(sim_pats, dim=(-2, -1))
-                dots_full = fftshift(irfft2(sim_pats_fft * pattern_fft), dim=(-2, -1))
+                dots_full = fftshift(
+                    irfft2(sim_pats_fft * pattern_fft, s=padded_shape),
+                    dim=(-2, -1),
+                )
             elif metric == "mi":
                 dots_full = cmif(
                     images_dst=sim_pats,
-- 
2.43.0


From 64c797d3443975475725d4ed58f2afeda4d1f623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:23 +0000
Subject: [PATCH 082/147] fix: get_3D_pixel_coords_with_periphery pads the side
 seen from the extreme pattern centers

---
 ebsdtorch/ebsd/fitting.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index bfd9e41..359f13d 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -247,10 +247,11 @@ def get_3D_pixel_coords_with_periphery(
     # get binned shape
     binning_fp = float(binning)
 
-    w_pad_prior = int((0.5 - pc_x_min) * detector_shape[1] / binning_fp)
-    w_pad_after = int((pc_x_max - 0.5) * detector_shape[1] / binning_fp)
-    h_pad_prior = int((0.5 - pc_y_min) * detector_shape[0] / binning_fp)
-    h_pad_after = int((pc_y_max - 0.5) * detector_shape[0] / binning_fp)
+    # a larger pattern center looks at pixels that come earlier, and vice versa
+    w_pad_prior = int((pc_x_max - 0.5) * detector_shape[1] / binning_fp)
+    w_pad_after = int((0.5 - pc_x_min) * detector_shape[1] / binning_fp)
+    h_pad_prior = int((pc_y_max - 0.5) * detector_shape[0] / binning_fp)
+    h_pad_after = int((0.5 - pc_y_min) * detector_shape[0] / binning_fp)
 
     binned_shape = (
         (detector_shape[0] // binning) + h_pad_prior + h_pad_after,
-- 
2.43.0


From 13d56c231d4f7babba991d017976399bd837a66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 083/147] fix: spatial_fft_pc_fitter reports the pattern
 center, not its mirror image, and stays in the requested range

---
 ebsdtorch/ebsd/fitting.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 359f13d..52c495d 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -521,14 +521,26 @@ def spatial_fft_pc_fitter(
     # Average over batch of experimental patterns
     avg_best_dots = best_dots.mean(dim=1)
 
+    # only the shifts that keep the pattern inside the simulated region are valid,
+    # the others wrap around (zero shift is at n // 2 after fftshift)
+    shifts_y = torch.arange(-padding[2], padding[3] + 1, device=patterns.device)
+    shifts_x = torch.arange(-padding[0], padding[1] + 1, device=patterns.device)
+    rows = (shifts_y + padded_shape[0] // 2) % padded_shape[0]
+    cols = (shifts_x + padded_shape[1] // 2) % padded_shape[1]
+    avg_best_dots = avg_best_dots[:, rows][:, :, cols]
+
     # Find global maximum
     best_z_idx, best_y_idx, best_x_idx = torch.unravel_index(
         avg_best_dots.argmax(), avg_best_dots.shape
     )
 
+    # the pattern matches the region of the simulation (pattern center at 0.5) shifted
+    # by the same number of pixels in the opposite direction
     best_pc_z = pc_z_vals[best_z_idx]
-    best_pc_y = 0.5 + float(best_y_idx - padding[2] - (H_bin + 1) // 2) / H_bin
-    best_pc_x = 0.5 + float(best_x_idx - padding[0] - (W_bin + 1) // 2) / W_bin
+    best_pc_y = 0.5 - float(shifts_y[best_y_idx]) / H_bin
+    best_pc_x = 0.5 - float(shifts_x[best_x_idx]) / W_bin
+    best_y_idx = rows[best_y_idx]
+    best_x_idx = cols[best_x_idx]
 
     # Get the best orientation for each pattern in the batch
     best_orientations_batch = best_orientations[best_z_idx, :, best_y_idx, best_x_idx]
-- 
2.43.0


From 7fe6fb648d04f3581985d018600276363cc70a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:47 +0000
Subject: [PATCH 084/147] fix: spatial_fft_pc_fitter finds the best orientation
 also when every dot product is negative

---
 ebsdtorch/ebsd/fitting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 52c495d..f68a822 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -426,8 +426,10 @@ def spatial_fft_pc_fitter(
 
     pc_z_vals = torch.linspace(pc_z_min, pc_z_max, pc_z_steps, device=patterns.device)
 
-    best_dots = torch.zeros(
-        (pc_z_steps, B, padded_shape[0], padded_shape[1]), device=patterns.device
+    best_dots = torch.full(
+        (pc_z_steps, B, padded_shape[0], padded_shape[1]),
+        -torch.inf,
+        device=patterns.device,
     )
     best_orientations = torch.zeros(
         (pc_z_steps, B, padded_shape[0], padded_shape[1]),
-- 
2.43.0


From 880b203a94faf98fcbc6941b0ef82ce9eea6fe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 085/147] fix: CLAHE interpolates between the tiles that
 surround each pixel

The sampling grid spanned the unpadded image while the tiles span the padded
one, so pixels were equalised with the histograms of other tiles.
---
 ebsdtorch/preprocessing/clahe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/preprocessing/clahe.py b/ebsdtorch/preprocessing/clahe.py
index fb5609d..bb77b57 100644
--- a/ebsdtorch/preprocessing/clahe.py
+++ b/ebsdtorch/preprocessing/clahe.py
@@ -102,8 +102,8 @@ def clahe_grayscale(
     )
     coords = torch.meshgrid(
         [
-            torch.linspace(-1.0, 1.0, w_img, device=x.device),
-            torch.linspace(-1.0, 1.0, h_img, device=x.device),
+            (torch.arange(w_img, device=x.device) + 0.5) * (2.0 / (w_img + pad_w)) - 1.0,
+            (torch.arange(h_img, device=x.device) + 0.5) * (2.0 / (h_img + pad_h)) - 1.0,
         ],
         indexing="xy",
     )
-- 
2.43.0


From 35bfbaca37c87b7559528746a63d2f4edbdd1273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 086/147] fix: CLAHE accepts non-contiguous images

---
 ebsdtorch/preprocessing/clahe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/preprocessing/clahe.py b/ebsdtorch/preprocessing/clahe.py
index bb77b57..383a159 100644
--- a/ebsdtorch/preprocessing/clahe.py
+++ b/ebsdtorch/preprocessing/clahe.py
@@ -113,7 +113,7 @@ def clahe_grayscale(
     # we have to use trilinear as tri-cubic is not available
     coords_into_cdfs = torch.cat(
         [
-            x[..., None].view(B, 1, h_img, w_img, 1) * 2.0 - 1.0,
+            x[..., None].reshape(B, 1, h_img, w_img, 1) * 2.0 - 1.0,
             coords[None, None].repeat(B, 1, 1, 1, 1),
         ],
         dim=-1,
-- 
2.43.0


From 64d7585b6ef0ab1fbd8fce1f97df53e00ad4c810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 087/147] fix: NLPAR takes the nearest neighbours by Euclidean
 distance

The first nine kernel positions stand for the 3x3 neighbourhood, but sorting by
the L1 distance ties diagonal neighbours with those two steps away.
---
 ebsdtorch/preprocessing/nlpar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 8465832..5ff33e5 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -93,7 +93,7 @@ def nlpar(
     # find indices of 8 nearest neighbors
     # closest point is self so we skip it
     offset_coords = offset_coords[
-        torch.argsort(torch.sum(torch.abs(offset_coords), dim=-1))
+        torch.argsort(torch.sum(offset_coords**2, dim=-1))
     ]
 
     starts_i = k_rad + offset_coords[:, 0]
-- 
2.43.0


From 6f9b42560a96ebff0f1ac260e5362c3345ee5e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 088/147] fix: NLPAR finds the smoothing coefficient by
 bisection

Newton's method from 1.0 diverges, or divides by a gradient that underflowed to
zero, on many scans; the mean center weight is monotonic in the coefficient.
---
 ebsdtorch/preprocessing/nlpar.py | 44 ++++++++++++--------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 5ff33e5..d9a4001 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -11,6 +11,7 @@ Non-local smoothing for enhanced EBSD pattern indexing." Ultramicroscopy 200
 
 """
 
+import math
 from typing import Tuple
 import torch
 from torch import Tensor
@@ -32,7 +33,7 @@ def nlpar(
         data (Tensor): The EBSD pattern data tensor.
         k_rad (int): The radius of the kernel.
         coeff (float): higher -> original pattern has more weight
-        coeff_fit_tol (float): tolerance (Newton's method) to hit coeff
+        coeff_fit_tol (float): tolerance (bisection) to hit coeff
         center_logit_bias (float): higher -> constant bias towards original pattern
 
     Returns:
@@ -138,38 +139,25 @@ def nlpar(
 
     # need average first bin in softmax normed pdf to equal coeff specified
     # by definition only applicable to the 3x3 NN kernel even when doing a larger kernel
-    # f  = exp(w[0]/x^2) / sum(exp(w[i]/x^2)) - coeff
-    # f' = -2 * exp(w[0]/x^2) * (sum(w[0] * exp(w[i]/x^2)) - sum(w[i] * exp(w[i]/x^2))) / x^3 * sum(exp(w[i]/x^2))^2
-    # Newton's method:
-    # x = x - f / f'
-    # The current implementation uses Nelder-Mead optimization to find the coefficient
+    # f(x) = mean(exp(w[0]/x^2) / sum(exp(w[i]/x^2))) - coeff
+    # f falls monotonically with x, so bisect on log(x). When coeff is out of reach
+    # this ends with no smoothing, or with equal weights.
+    log_low = -20.0
+    log_high = 20.0
     guess_coeff = 1.0
     nn_weights = weights[:, :, :9]
-    for _ in range(10):
-        # notice that guess_coeff_sq is only calculated at the beginning
-        guess_coeff_sq = guess_coeff**2
+    for _ in range(64):
+        guess_coeff = math.exp(0.5 * (log_low + log_high))
         obj = (
-            torch.mean(torch.softmax(nn_weights / guess_coeff_sq, dim=-1)[:, :, 0])
+            torch.mean(torch.softmax(nn_weights / guess_coeff**2, dim=-1)[:, :, 0])
             - coeff
-        )
-        grad = torch.mean(
-            -2
-            * torch.exp(nn_weights[:, :, 0] / guess_coeff_sq)
-            * (
-                torch.sum(
-                    nn_weights[:, :, [0]] * torch.exp(nn_weights / guess_coeff_sq),
-                    dim=-1,
-                )
-                - torch.sum(nn_weights * torch.exp(nn_weights / guess_coeff_sq), dim=-1)
-            )
-            / (
-                guess_coeff**3
-                * torch.sum(torch.exp(nn_weights / guess_coeff_sq), dim=-1) ** 2
-            )
-        )
-        guess_coeff -= obj / grad
-        if torch.abs(obj) < coeff_fit_tol:
+        ).item()
+        if abs(obj) < coeff_fit_tol:
             break
+        if obj > 0:
+            log_low = 0.5 * (log_low + log_high)
+        else:
+            log_high = 0.5 * (log_low + log_high)
 
     # apply the computed coefficient to the weights
     weights /= guess_coeff**2
-- 
2.43.0


From c30351db9decf1a94188574a52d850c6736dcb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 089/147] fix: NLPAR ignores the padding when it estimates
 noise and fits the coefficient

The zero padding around the scan counted as neighbours in both steps.
---
 ebsdtorch/preprocessing/nlpar.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index d9a4001..24b2a5f 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -116,10 +116,16 @@ def nlpar(
             starts_i[i] : ends_i[i], starts_j[i] : ends_j[i]
         ]
 
-    # estimate the noise level for the entire scan
+    # estimate the noise level for the entire scan from the neighbors inside it
     sigma_hat = torch.sqrt(
-        torch.min(dists[:, :, 1:9], dim=-1).values / (2 * n_pixels_per_pat)
+        torch.min(
+            dists[:, :, 1:9].masked_fill(out_bounds_mask_all[:, :, 1:9], torch.inf),
+            dim=-1,
+        ).values
+        / (2 * n_pixels_per_pat)
     )
+    # a pattern without any neighbor is only ever averaged with itself
+    sigma_hat = torch.where(torch.isinf(sigma_hat), 0.0, sigma_hat)
     # pad sigma_hat so we can use offsets
     sigma_hat_padded = torch.nn.functional.pad(
         sigma_hat,
@@ -137,6 +143,10 @@ def nlpar(
     # compute the weights as the clamped negative distances
     weights = -dists.clamp_min_(0.0)
 
+    # use the mask to change the weights of the pad values to -inf
+    # any softmax will take -inf to 0 weight contribution
+    weights = weights.masked_fill_(out_bounds_mask_all, -torch.inf)
+
     # need average first bin in softmax normed pdf to equal coeff specified
     # by definition only applicable to the 3x3 NN kernel even when doing a larger kernel
     # f(x) = mean(exp(w[0]/x^2) / sum(exp(w[i]/x^2))) - coeff
@@ -166,9 +176,6 @@ def nlpar(
     if center_logit_bias > 0:
         weights[:, :, 0] += center_logit_bias
 
-    # use the mask to change the weights of the pad values to -inf
-    # compute the softmax it will take -inf to 0 weight contribution
-    weights = weights.masked_fill_(out_bounds_mask_all, -torch.inf)
     weights = torch.nn.functional.softmax(weights, dim=-1)
 
     # unfolding could be too expensive so we have to use a loop again
-- 
2.43.0


From a5ee4855dc274f8f41509805eb9217e7a6870814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 090/147] fix: NLPAR handles neighbouring patterns that are
 identical

With no noise the normalised distance was 0 / 0 and the NaN spread to the whole
scan.
---
 ebsdtorch/preprocessing/nlpar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 24b2a5f..d78000d 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -138,7 +138,9 @@ def nlpar(
         sigma_other = sigma_hat_padded[starts_i[i] : ends_i[i], starts_j[i] : ends_j[i]]
         dists[:, :, i] = (
             dists[:, :, i] - n_pixels_per_pat * (sigma_hat**2 + sigma_other**2)
-        ) / (2**0.5 * n_pixels_per_pat**0.5 * (sigma_hat**2 + sigma_other**2))
+        ) / (
+            2**0.5 * n_pixels_per_pat**0.5 * (sigma_hat**2 + sigma_other**2)
+        ).clamp_min(1e-30)
 
     # compute the weights as the clamped negative distances
     weights = -dists.clamp_min_(0.0)
-- 
2.43.0


From ab0820b8110edc43aa43e09d476f28d77352f164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 091/147] fix: GaussianBlur2d keeps the last row and column of
 odd-sized images

After the convolution an odd side has its original length already; only an even
side carries the one extra pixel of padding.
---
 ebsdtorch/preprocessing/resampling.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/ebsdtorch/preprocessing/resampling.py b/ebsdtorch/preprocessing/resampling.py
index 4089cdf..20a65a8 100644
--- a/ebsdtorch/preprocessing/resampling.py
+++ b/ebsdtorch/preprocessing/resampling.py
@@ -29,6 +29,8 @@ class GaussianBlur2d(Module):
         )
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
+        h, w = x.shape[-2:]
+
         # apply padding
         pad = self._compute_padding(x)
         if self.reflect_padding:
@@ -40,15 +42,7 @@ class GaussianBlur2d(Module):
         x = F.conv2d(x, self.kernel, padding=0)
 
         # crop off the padding
-        h_even = x.shape[-2] % 2 == 0
-        w_even = x.shape[-1] % 2 == 0
-        x = x[
-            :,
-            :,
-            : -2 if h_even else -1,
-            : -2 if w_even else -1,
-        ]
-        return x
+        return x[:, :, :h, :w]
 
     def _get_gaussian_kernel(self) -> torch.Tensor:
         # establish the kernel size
-- 
2.43.0


From 390cfeac2536ebbe25e0f958f667c63b3145fa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 092/147] fix: the extended-exponent Wigner d seeds overflow
 beyond degree ~700

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 39 +++++++++++++++-------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index 8973db9..758da78 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -325,34 +325,37 @@ def wigner_d_xnum(
 
     # d_m_mn = c_{m+n} s_{m-n} e_mn
     # for m >= n, e_mn = sqrt((2m)! / ((m+n)! (m-n)!))
+    # which grows like 2^m, so its exponent has to be split off as well
+    log2_e_mn = (
+        0.5
+        * (
+            torch.lgamma(2 * mmn_coords_fp[:, 0] + 1)
+            - torch.lgamma(mmn_coords_fp[:, 0] + mmn_coords_fp[:, 2] + 1)
+            - torch.lgamma(mmn_coords_fp[:, 0] - mmn_coords_fp[:, 2] + 1)
+        )
+        / math.log(2.0)
+    )
+    e_mn_x_i = torch.round(log2_e_mn / 460.0)
+    e_mn_x = torch.pow(2.0, log2_e_mn - 460.0 * e_mn_x_i)
+    e_mn_x_i = e_mn_x_i.to(torch.int32)
+
     if beta.item() == torch.pi:
         wigner_xnum[0][first_seed_indices] = (
-            torch.exp(
-                0.5
-                * (
-                    torch.lgamma(2 * mmn_coords_fp[:, 0] + 1)
-                    - torch.lgamma(mmn_coords_fp[:, 0] + mmn_coords_fp[:, 2] + 1)
-                    - torch.lgamma(mmn_coords_fp[:, 0] - mmn_coords_fp[:, 2] + 1)
-                )
-            )
+            e_mn_x
             * half_power_xnum[0][mmn_coords[:, 1]]
         )
-        wigner_xnum[1][first_seed_indices] = half_power_xnum[1][mmn_coords[:, 1]]
+        wigner_xnum[1][first_seed_indices] = (
+            e_mn_x_i + half_power_xnum[1][mmn_coords[:, 1]]
+        )
     else:
         wigner_xnum[0][first_seed_indices] = (
-            torch.exp(
-                0.5
-                * (
-                    torch.lgamma(2 * mmn_coords_fp[:, 0] + 1)
-                    - torch.lgamma(mmn_coords_fp[:, 0] + mmn_coords_fp[:, 2] + 1)
-                    - torch.lgamma(mmn_coords_fp[:, 0] - mmn_coords_fp[:, 2] + 1)
-                )
-            )
+            e_mn_x
             * cos_powers_xnum[0][mmn_coords[:, 1] + mmn_coords[:, 2]]
             * sin_powers_xnum[0][mmn_coords[:, 1] - mmn_coords[:, 2]]
         )
         wigner_xnum[1][first_seed_indices] = (
-            cos_powers_xnum[1][mmn_coords[:, 1] + mmn_coords[:, 2]]
+            e_mn_x_i
+            + cos_powers_xnum[1][mmn_coords[:, 1] + mmn_coords[:, 2]]
             + sin_powers_xnum[1][mmn_coords[:, 1] - mmn_coords[:, 2]]
         )
 
-- 
2.43.0


From f2888a86affc93ab4b5a83c7fa555ebcbc59917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 093/147] fix: wigner_d_xnum uses the powers of one half at
 beta = pi instead of pi/2

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index 758da78..ee336e5 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -339,7 +339,7 @@ def wigner_d_xnum(
     e_mn_x = torch.pow(2.0, log2_e_mn - 460.0 * e_mn_x_i)
     e_mn_x_i = e_mn_x_i.to(torch.int32)
 
-    if beta.item() == torch.pi:
+    if beta.item() == torch.pi / 2.0:
         wigner_xnum[0][first_seed_indices] = (
             e_mn_x
             * half_power_xnum[0][mmn_coords[:, 1]]
-- 
2.43.0


From 559848279c60ddbe9157aff51f0aac1e0dff43bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 094/147] fix: Wigner d tables are NaN at beta = 0

---
 ebsdtorch/harmonics/wigner_d_logspace.py | 4 ++++
 ebsdtorch/harmonics/wigner_d_xnum.py     | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/ebsdtorch/harmonics/wigner_d_logspace.py b/ebsdtorch/harmonics/wigner_d_logspace.py
index f279fd9..58c9b97 100644
--- a/ebsdtorch/harmonics/wigner_d_logspace.py
+++ b/ebsdtorch/harmonics/wigner_d_logspace.py
@@ -150,6 +150,10 @@ def log_powers_trig_half_beta(
     # Compute the powers
     cos_powers = powers * math.log(math.cos(beta / 2.0))
     sin_powers = powers * math.log(math.sin(beta / 2.0))
+
+    # anything to the power zero is one, even when the base is zero (beta = 0)
+    cos_powers[0] = 0.0
+    sin_powers[0] = 0.0
     return cos_powers, sin_powers
 
 
diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index ee336e5..7482346 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -164,6 +164,15 @@ def trig_powers_xnum(
     log_cos_powers = lmch * powers
     log_sin_powers = lmsh * powers
 
+    # zero to a positive power is zero, which underflows even the x-numbers
+    smallest = -460.0 * 2.0**20
+    log_cos_powers = torch.clamp(log_cos_powers, min=smallest)
+    log_sin_powers = torch.clamp(log_sin_powers, min=smallest)
+
+    # anything to the power zero is one, even when the base is zero (beta = 0)
+    log_cos_powers[0] = 0.0
+    log_sin_powers[0] = 0.0
+
     # split according to 2**460
     log_cos_powers_x = torch.abs(log_cos_powers) % 460
     log_sin_powers_x = torch.abs(log_sin_powers) % 460
-- 
2.43.0


From f44e2fba03d46086e677c7353c7c8404858820e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 095/147] fix: retrieve_wigner_d ignores the signs of m and n

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 33 +++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index 7482346..9443f41 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -562,10 +562,31 @@ def retrieve_wigner_d(
     m_new = torch.where(mask_mn_swap, n, m)
     n_new = torch.where(mask_mn_swap, m, n)
 
-    prefactor = torch.where(
-        mask_mn_swap,
-        (-1.0) ** ((m_new - n_new) % 2),
-        1.0,
+    both_neg_mask = (m_new < 0) & (n_new < 0)
+    only_m_neg_mask = (m_new < 0) & (n_new >= 0)
+    only_n_neg_mask = (n_new < 0) & (m_new >= 0)
+
+    prefactor = (
+        torch.where(
+            both_neg_mask,
+            (-1.0) ** ((m_new - n_new) % 2),
+            1.0,
+        )
+        * torch.where(
+            only_m_neg_mask,
+            (-1.0) ** ((l - n_new) % 2),
+            1.0,
+        )
+        * torch.where(
+            only_n_neg_mask,
+            (-1.0) ** ((l + m_new) % 2),
+            1.0,
+        )
+        * torch.where(
+            mask_mn_swap,
+            (-1.0) ** ((m_new - n_new) % 2),
+            1.0,
+        )
     )
 
     if swap_mn:
@@ -573,7 +594,9 @@ def retrieve_wigner_d(
 
     return (
         wigner_d_values[
-            (((l * (l + 1)) // 2 * (l + 2)) // 3) + ((m_new * (m_new + 1)) // 2) + n_new
+            (((l * (l + 1)) // 2 * (l + 2)) // 3)
+            + ((torch.abs(m_new) * (torch.abs(m_new) + 1)) // 2)
+            + torch.abs(n_new)
         ]
         * prefactor
     )
-- 
2.43.0


From 72a23490e253b293fda7c99d70cb1b640cfa3f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:53 +0000
Subject: [PATCH 096/147] fix: x-number radix underflows to zero in single
 precision

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index 9443f41..889cea1 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -66,8 +66,8 @@ def xnum_to_fp(x_num: Tuple[Tensor, Tensor]) -> torch.Tensor:
 
     # Constants
     IND = torch.tensor(460, dtype=torch.int32)
-    BIG = 2.0**IND
-    BIGI = 2.0 ** (-IND)
+    BIG = 2.0 ** IND.double()
+    BIGI = 2.0 ** (-IND.double())
     return torch.where(ix == 0, x, torch.where(ix < 0, x * BIGI, x * BIG))
 
 
@@ -96,7 +96,7 @@ def xnum_sum(
 
     # Constants
     IND = torch.tensor(460, dtype=torch.int32)
-    BIGI = 2.0 ** (-IND)
+    BIGI = 2.0 ** (-IND.double())
 
     id = ix - iy
     z = torch.where(
-- 
2.43.0


From 4e84e4ec0eda2c704869df5ae37c87df1b7866ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:38 +0000
Subject: [PATCH 097/147] fix: rs2cc_fast_ drops the negative orders of the
 second function

---
 ebsdtorch/harmonics/sht_cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/harmonics/sht_cc.py b/ebsdtorch/harmonics/sht_cc.py
index 554eae0..5388d27 100644
--- a/ebsdtorch/harmonics/sht_cc.py
+++ b/ebsdtorch/harmonics/sht_cc.py
@@ -202,11 +202,11 @@ def rs2cc_fast_(
     )
 
     f_lmkb = torch.einsum("lmk,bml->blmk", d_lmk[:, (B - 1) :, :], f)
-    g_lknb = torch.einsum("lkn,bnl->blkn", d_lmk[:, :, (B - 1) :], g.conj())
+    g_lknb = torch.einsum("lkn,bnl->blkn", d_lmk, g_n_aug)
     cc = torch.einsum("blmk,blkn->bmkn", f_lmkb, g_lknb)
 
     # Need to do fftshift so that the low frequencies are at the periphery
-    cc = ifftshift(cc, dim=(-2))
+    cc = ifftshift(cc, dim=(-1, -2))
 
     # dim=(..., -3) means the half dimension is the -3 dimension (m)
     cc = irfftn(cc, s=(2 * B - 1,) * 3, dim=(-1, -2, -3), norm="forward")
-- 
2.43.0


From 6d836fee66a10e451c96df7d113474aafab49b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:55 +0000
Subject: [PATCH 098/147] fix: inverse spherical harmonic transforms reject
 truncated (strided) coefficients

---
 ebsdtorch/harmonics/sht.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/harmonics/sht.py b/ebsdtorch/harmonics/sht.py
index 3857458..435132c 100644
--- a/ebsdtorch/harmonics/sht.py
+++ b/ebsdtorch/harmonics/sht.py
@@ -280,7 +280,7 @@ class DLT(Module):
         L, b = self.L, Psi.size()[0]
 
         psiHat = torch.mm(
-            Psi.view(b, -1),
+            Psi.reshape(b, -1),
             self.D,
         ).reshape(b, 2 * L - 1, 2 * L)
 
@@ -443,7 +443,7 @@ class RDLT(Module):
         L, b = self.L, Psi.size()[0]
 
         psiHat = torch.mm(
-            Psi.view(b, -1),
+            Psi.reshape(b, -1),
             self.D,
         ).reshape(b, L, 2 * L)
 
-- 
2.43.0


From 1dc1993911be26cfdc074c48c425c3804447ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:11 +0000
Subject: [PATCH 099/147] fix: second-setting space groups read the origin
 shift, not its flag, and keep their translations

---
 ebsdtorch/crystallography/groups.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/ebsdtorch/crystallography/groups.py b/ebsdtorch/crystallography/groups.py
index cd73d5d..89f0815 100644
--- a/ebsdtorch/crystallography/groups.py
+++ b/ebsdtorch/crystallography/groups.py
@@ -309,8 +309,7 @@ def read_sg_gen_string(
 
     # now check for special origin conditions (choices 1 and 2)
     if (gen_string[2 + 4 * gen_num] != "0") and sg_setting == 2:
-        print("Special origin condition")
-        t = gen_string[2 + 4 * gen_num : (2 + 4 * gen_num) + 3]
+        t = gen_string[3 + 4 * gen_num : 6 + 4 * gen_num]
         translate_forward = torch.tensor(
             [
                 [1.0, 0.0, 0.0, -trans_map[t[0]]],
@@ -334,18 +333,18 @@ def read_sg_gen_string(
             torch.matmul(gens, translate_forward),
         )
 
-        gens[:, :, 3] = torch.where(
-            torch.abs(gens[:, :, 3]) < eps,
-            torch.zeros_like(gens[:, :, 3]),
-            gens[:, :, 3],
+        gens[:, :3, 3] = torch.where(
+            torch.abs(gens[:, :3, 3]) < eps,
+            torch.zeros_like(gens[:, :3, 3]),
+            gens[:, :3, 3],
         )
 
-        gens[:, :, 3] = torch.fmod(1000 + gens[:, :, 3], 1.0)
+        gens[:, :3, 3] = torch.fmod(1000 + gens[:, :3, 3], 1.0)
 
-        gens[:, :, 3] = torch.where(
-            torch.abs(gens[:, :, 3] - 1.0) < eps,
-            torch.zeros_like(gens[:, :, 3]),
-            gens[:, :, 3],
+        gens[:, :3, 3] = torch.where(
+            torch.abs(gens[:, :3, 3] - 1.0) < eps,
+            torch.zeros_like(gens[:, :3, 3]),
+            gens[:, :3, 3],
         )
 
     return gens
-- 
2.43.0


From b95f619a82ef0fa08da4af9078e755633cbe5154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 100/147] fix: space group operators stay homogeneous Seitz
 matrices

---
 ebsdtorch/crystallography/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/groups.py b/ebsdtorch/crystallography/groups.py
index 89f0815..fe09c22 100644
--- a/ebsdtorch/crystallography/groups.py
+++ b/ebsdtorch/crystallography/groups.py
@@ -472,7 +472,7 @@ def sg_operators(
                 if len(gens) >= target_ord:
                     break
 
-    gens[:, :, 3] = torch.fmod(100 + gens[:, :, 3], 1.0)
+    gens[:, :3, 3] = torch.fmod(100 + gens[:, :3, 3], 1.0)
 
     return gens
 
-- 
2.43.0


From 46d05a4cd0fef67ba577baf5dbb732d4b8a2badb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:11 +0000
Subject: [PATCH 101/147] fix: point group, crystal system and Laue group of a
 cell from its space group

---
 ebsdtorch/crystallography/unit_cell.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index fa8e724..6d7e3cf 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -192,21 +192,14 @@ class Cell:
         self.sg_setting = sg_setting
 
         # automatically find the point group for the space group
-        pg_num = [i + 1 for i, sg in enumerate(sg_pg_beg) if sg_num <= sg]
-        if len(pg_num) == 0:
-            self.pg_num = 32
-        else:
-            self.pg_num = pg_num[0]
+        # (the last one whose first space group is not beyond this one)
+        self.pg_num = sum(sg <= sg_num for sg in sg_pg_beg)
 
         # automatically find the crystal system for the space group
-        self.xtal_system = [i + 1 for i, sg in enumerate(sg_xt_beg) if sg_num <= sg]
-        if len(self.xtal_system) == 0:
-            self.xtal_system = 7
-        else:
-            self.xtal_system = self.xtal_system[0]
+        self.xtal_system = sum(sg <= sg_num for sg in sg_xt_beg)
 
         # automatically find the Laue group for the point group
-        self.laue_group = pg_to_laue[self.pg_num]
+        self.laue_group = pg_to_laue[self.pg_num - 1]
 
         self.a, self.b, self.c = map(
             lambda x: torch.tensor(x, device=device, dtype=torch.float64), abc
-- 
2.43.0


From 831a043bb99634caa3b05c987ccb70ec871a6637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:34 +0000
Subject: [PATCH 102/147] fix: the reciprocal structure matrix is the inverse
 transpose of the direct one

---
 ebsdtorch/crystallography/unit_cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 6d7e3cf..ae634f5 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -299,8 +299,8 @@ class Cell:
             device=device,
         )
 
-        # 5) reciprocal structure matrix is the inverse of the direct structure matrix
-        self.rsm = torch.linalg.inv(self.dsm)
+        # 5) reciprocal structure matrix is the inverse transpose of the direct one
+        self.rsm = torch.linalg.inv(self.dsm).T.contiguous()
 
         # 6) trigonal/rhombohedral case need a second direct structure matrix
         if self.xtal_system == 5:
-- 
2.43.0


From 7cffacb3d0c6e8a169d2f83e41f3bf84b77f9044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:03 +0000
Subject: [PATCH 103/147] fix: average atomic number and weight are averages
 over the atoms in the cell

---
 ebsdtorch/crystallography/unit_cell.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index ae634f5..b9c2f34 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -353,17 +353,15 @@ class Cell:
         self.n_s = len(self.apos)
 
         # 8) Compute average atomic number, weight and density
+        n_atoms = (self.atom_data[:, 3] * self.mults).sum()
         self.average_atomic_number = (
-            torch.mean(
-                self.atom_types.to(torch.float64) * self.atom_data[:, 3] * self.mults
-            )
-            / self.mults.sum()
-        )
+            self.atom_types.to(torch.float64) * self.atom_data[:, 3] * self.mults
+        ).sum() / n_atoms
 
         a_weights = atomic_weights[self.atom_types - 1].to(self.device)
         self.average_atomic_weight = (
-            torch.mean(a_weights * self.atom_data[:, 3] * self.mults) / self.mults.sum()
-        )
+            a_weights * self.atom_data[:, 3] * self.mults
+        ).sum() / n_atoms
 
         # Density in g/cm^3
         # self.density = self.average_atomic_weight / (self.vol * 6.02214076e2)
-- 
2.43.0


From 2e37d3c32659f4f1a82d50c66bbeebb86926dd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:40 +0000
Subject: [PATCH 104/147] fix: positions that differ by a lattice vector are
 one atom

---
 ebsdtorch/crystallography/unit_cell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index b9c2f34..e5833fd 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -134,7 +134,10 @@ def unique_rows(a: Tensor, eps: float = 5e-4) -> Tensor:
         if not remove[i]:
             # equals = torch.all(torch.abs(a[i, :] - a[(i + 1) :]) < eps, dim=1)
             # use sum
-            equals = torch.sum(torch.abs(a[i, :] - a[(i + 1) :]), dim=1) < eps
+            # (fractional coordinates: 0 and 1 are the same place)
+            diff = a[i, :] - a[(i + 1) :]
+            diff = diff - torch.round(diff)
+            equals = torch.sum(torch.abs(diff), dim=1) < eps
             remove[(i + 1) :] = torch.logical_or(remove[(i + 1) :], equals)
     return a[~remove]
 
-- 
2.43.0


From f7abef7d030ad26ac4a469bb9a6026fe4f2e7e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:18 +0000
Subject: [PATCH 105/147] fix: impossible cell angles are refused

---
 ebsdtorch/crystallography/unit_cell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index e5833fd..46a91c6 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -275,7 +275,7 @@ class Cell:
         self.vol = torch.sqrt(torch.det(self.dmt))
 
         # Check volume
-        if self.vol < 1e-6:
+        if not self.vol >= 1e-6:  # also catches NaN from impossible angles
             raise ValueError(
                 f"Unit cell volume of {self.vol} nm^3 is suspiciously small"
             )
-- 
2.43.0


From 31addf1f5ba93664c4680cbcecde15258aaf6c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:02 +0000
Subject: [PATCH 106/147] fix: coordinate transformations with a matrix that is
 not orthogonal

---
 ebsdtorch/crystallography/unit_cell.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 46a91c6..17eb99b 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -589,16 +589,17 @@ class Cell:
         original_shape = t.shape
         t = t.reshape(-1, 3)
 
+        alinv = torch.linalg.inv(talpha)
         if space == "d":
             if direction == "on":
-                d = torch.einsum("...i,ji->...j", t, talpha)
+                d = torch.einsum("...i,ij->...j", t, alinv)
             else:
                 d = torch.einsum("...i,ij->...j", t, talpha)
         else:
             if direction == "on":
                 d = torch.einsum("ij,...j->...i", talpha, t)
             else:
-                d = torch.einsum("ji,...j->...i", talpha, t)
+                d = torch.einsum("ij,...j->...i", alinv, t)
 
         # Reshape back to original shape
         return d.reshape(original_shape)
-- 
2.43.0


From e26781df9b1e4b20a2118956d81dca49ade4a42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:44 +0000
Subject: [PATCH 107/147] fix: cross products come out in the space asked for

---
 ebsdtorch/crystallography/unit_cell.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 17eb99b..ef47f3a 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -748,18 +748,12 @@ class Cell:
 
         if inspace == "d":
             r = vl * torch.cross(p, q, dim=-1)
-            if outspace == "d":
-                return torch.einsum("...i,ij->...j", r, self.rmt)
-            elif outspace == "c":
-                return torch.einsum("ij,...j->...i", self.rsm, r)
+            return self.transform_space(r, "r", outspace)
         elif inspace == "r":
             r = torch.cross(p, q, dim=-1) / vl
-            if outspace == "r":
-                return torch.einsum("...i,ij->...j", r, self.dmt)
-            elif outspace == "c":
-                return torch.einsum("ij,...j->...i", self.dsm, r)
+            return self.transform_space(r, "d", outspace)
         elif inspace == "c":
-            return torch.cross(p, q, dim=-1)
+            return self.transform_space(torch.cross(p, q, dim=-1), "c", outspace)
 
         raise ValueError(f"Invalid space transformation: from {inspace} to {outspace}")
 
-- 
2.43.0


From a6c9381ccd2983ab7036c36e440a0a6e43b14f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:14 +0000
Subject: [PATCH 108/147] fix: vectors are not transformed to an unknown space

---
 ebsdtorch/crystallography/unit_cell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index ef47f3a..c3d407c 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -529,6 +529,9 @@ class Cell:
         if t.shape[-1] != 3:
             raise ValueError("The last dimension of input tensor must be 3")
 
+        if outspace not in ("d", "r", "c"):
+            raise ValueError(f"Invalid transformation: from {inspace} to {outspace}")
+
         # Intercept the case where inspace and outspace are the same
         if inspace == outspace:
             return t
-- 
2.43.0


From 687ebd41fa4673241342762ccb081dea68261ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:30 +0000
Subject: [PATCH 109/147] fix: the reflection search reaches every index the
 resolution allows

---
 ebsdtorch/crystallography/unit_cell.py | 92 +++-----------------------
 1 file changed, 11 insertions(+), 81 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index c3d407c..0615407 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -6,6 +6,7 @@ should almost always use the CPU instead of the GPU.
 
 """
 
+import math
 import torch
 from torch import Tensor
 from typing import List, Tuple
@@ -860,43 +861,9 @@ class Cell:
         Returns:
             Tuple[int, int, int]: Maximum h, k, and l indices
         """
-        # First find approximate max indices along principal directions
-        test_range = torch.arange(1, 100, device=self.device, dtype=torch.int64)
-
-        # Test vectors along each axis
-        h_vec = torch.stack(
-            [test_range, torch.zeros_like(test_range), torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        k_vec = torch.stack(
-            [torch.zeros_like(test_range), test_range, torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        l_vec = torch.stack(
-            [torch.zeros_like(test_range), torch.zeros_like(test_range), test_range],
-            dim=-1,
-        )
-
-        # Calculate d-spacings for axial reflections
-        d_h = 1.0 / self.calc_length(h_vec, "r")
-        d_k = 1.0 / self.calc_length(k_vec, "r")
-        d_l = 1.0 / self.calc_length(l_vec, "r")
-
-        # Find maximum index needed for each axis
-        max_h = (
-            torch.nonzero(d_h < dmin)[0].item()
-            if len(torch.nonzero(d_h < dmin)) > 0
-            else len(test_range)
-        )
-        max_k = (
-            torch.nonzero(d_k < dmin)[0].item()
-            if len(torch.nonzero(d_k < dmin)) > 0
-            else len(test_range)
-        )
-        max_l = (
-            torch.nonzero(d_l < dmin)[0].item()
-            if len(torch.nonzero(d_l < dmin)) > 0
-            else len(test_range)
+        # h = g.a, so |h| <= |g||a| for every lattice, oblique ones included
+        max_h, max_k, max_l = (
+            int(math.floor(float(x) / dmin + 1e-9)) for x in (self.a, self.b, self.c)
         )
 
         return max_h, max_k, max_l
@@ -926,54 +893,17 @@ class Cell:
         else:
             filter_dmin = True
 
-        # First find approximate max indices along principal directions
-        test_range = torch.arange(1, 100, device=self.device, dtype=torch.int64)
-
-        # Test vectors along each axis
-        h_vec = torch.stack(
-            [test_range, torch.zeros_like(test_range), torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        k_vec = torch.stack(
-            [torch.zeros_like(test_range), test_range, torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        l_vec = torch.stack(
-            [torch.zeros_like(test_range), torch.zeros_like(test_range), test_range],
-            dim=-1,
-        )
-
-        # Calculate d-spacings for axial reflections
-        d_h = 1.0 / self.calc_length(h_vec, "r")
-        d_k = 1.0 / self.calc_length(k_vec, "r")
-        d_l = 1.0 / self.calc_length(l_vec, "r")
-
-        # Find maximum index needed for each axis
-        max_h = (
-            torch.nonzero(d_h < dmin)[0].item()
-            if len(torch.nonzero(d_h < dmin)) > 0
-            else len(test_range)
-        )
-        max_k = (
-            torch.nonzero(d_k < dmin)[0].item()
-            if len(torch.nonzero(d_k < dmin)) > 0
-            else len(test_range)
-        )
-        max_l = (
-            torch.nonzero(d_l < dmin)[0].item()
-            if len(torch.nonzero(d_l < dmin)) > 0
-            else len(test_range)
-        )
+        max_h, max_k, max_l = self.get_hkl_limits(dmin)
 
         if difference_table:  # differences of hkl (quadruple the size)
             h = torch.arange(
-                -2 * max_h + 1, 2 * max_h, device=self.device, dtype=torch.int64
+                -2 * max_h, 2 * max_h + 1, device=self.device, dtype=torch.int64
             )
             k = torch.arange(
-                -2 * max_k + 1, 2 * max_k, device=self.device, dtype=torch.int64
+                -2 * max_k, 2 * max_k + 1, device=self.device, dtype=torch.int64
             )
             l = torch.arange(
-                -2 * max_l + 1, 2 * max_l, device=self.device, dtype=torch.int64
+                -2 * max_l, 2 * max_l + 1, device=self.device, dtype=torch.int64
             )
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
@@ -982,9 +912,9 @@ class Cell:
             hkl = hkl[(hkl != 0).any(dim=-1)]
         else:  # normal reflection table
             # Create grid of h,k,l indices
-            h = torch.arange(-max_h + 1, max_h, device=self.device, dtype=torch.int64)
-            k = torch.arange(-max_k + 1, max_k, device=self.device, dtype=torch.int64)
-            l = torch.arange(-max_l + 1, max_l, device=self.device, dtype=torch.int64)
+            h = torch.arange(-max_h, max_h + 1, device=self.device, dtype=torch.int64)
+            k = torch.arange(-max_k, max_k + 1, device=self.device, dtype=torch.int64)
+            l = torch.arange(-max_l, max_l + 1, device=self.device, dtype=torch.int64)
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
             hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)[1:]  # remove (0,0,0)
-- 
2.43.0


From c6369ac30c4f95273432a0a78b27efc0b98350d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:50 +0000
Subject: [PATCH 110/147] fix: the direct beam is not one of the reflections

---
 ebsdtorch/crystallography/unit_cell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 0615407..b24012b 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -917,7 +917,9 @@ class Cell:
             l = torch.arange(-max_l, max_l + 1, device=self.device, dtype=torch.int64)
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
-            hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)[1:]  # remove (0,0,0)
+            hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)
+            # remove (0,0,0)
+            hkl = hkl[(hkl != 0).any(dim=-1)]
 
         if filter_centering:
             # Check if reflections are allowed by lattice centering
-- 
2.43.0


From 5ca3137ea119b4e96fb621e353750814117d0589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:59 +0000
Subject: [PATCH 111/147] fix: second structure matrix of a rhombohedral cell
 puts the three-fold axis along z

---
 ebsdtorch/crystallography/unit_cell.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index b24012b..e98d7c2 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -308,17 +308,17 @@ class Cell:
 
         # 6) trigonal/rhombohedral case need a second direct structure matrix
         if self.xtal_system == 5:
-            x = 0.5 / torch.cos(torch.pi * 0.5 * self.alpha)
+            x = 0.5 / torch.cos(0.5 * self.alpha)
             y = torch.sqrt(1 - x * x)
-            Mx = torch.tensor([[1, 0, 0], [0, x, -y], [0, y, x]], device=device).T
+            Mx = torch.tensor([[1, 0, 0], [0, x, -y], [0, y, x]], device=device)
 
             x = (
                 2
-                * torch.sin(torch.pi * 0.5 * self.alpha)
+                * torch.sin(0.5 * self.alpha)
                 / torch.sqrt(torch.tensor(3.0, device=device))
             )
             y = torch.sqrt(1 - x * x)
-            My = torch.tensor([[x, 0, -y], [0, 1, 0], [y, 0, x]], device=device).T
+            My = torch.tensor([[x, 0, -y], [0, 1, 0], [y, 0, x]], device=device)
             self.dsm2 = torch.matmul(torch.matmul(My, Mx), self.dsm)
         else:
             self.dsm2 = None
-- 
2.43.0


From ca21f8769f17eeb0ef309a1b7d90fda40facae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:30 +0000
Subject: [PATCH 112/147] fix: conversion from the rhombohedral to the
 hexagonal cell

---
 ebsdtorch/crystallography/unit_cell.py | 40 +++++++++++++++-----------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index e98d7c2..87626ef 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -250,6 +250,10 @@ class Cell:
         self.xtalname = xtalname
         self.source = source
 
+        self._derive()
+
+    def _derive(self) -> None:
+        """Compute all that follows from the lattice, the atoms and the space group."""
         # 1) direct metric tensor
         self.dmt = torch.tensor(
             [
@@ -269,7 +273,7 @@ class Cell:
                     self.c**2,
                 ],
             ],
-            device=device,
+            device=self.device,
         )
 
         # 2) volume is the root of the determinant of the metric tensor
@@ -300,7 +304,7 @@ class Cell:
                 ],
                 [0.0, 0.0, self.vol / (self.a * self.b * torch.sin(self.gamma))],
             ],
-            device=device,
+            device=self.device,
         )
 
         # 5) reciprocal structure matrix is the inverse transpose of the direct one
@@ -310,15 +314,15 @@ class Cell:
         if self.xtal_system == 5:
             x = 0.5 / torch.cos(0.5 * self.alpha)
             y = torch.sqrt(1 - x * x)
-            Mx = torch.tensor([[1, 0, 0], [0, x, -y], [0, y, x]], device=device)
+            Mx = torch.tensor([[1, 0, 0], [0, x, -y], [0, y, x]], device=self.device)
 
             x = (
                 2
                 * torch.sin(0.5 * self.alpha)
-                / torch.sqrt(torch.tensor(3.0, device=device))
+                / torch.sqrt(torch.tensor(3.0, device=self.device))
             )
             y = torch.sqrt(1 - x * x)
-            My = torch.tensor([[x, 0, -y], [0, 1, 0], [y, 0, x]], device=device)
+            My = torch.tensor([[x, 0, -y], [0, 1, 0], [y, 0, x]], device=self.device)
             self.dsm2 = torch.matmul(torch.matmul(My, Mx), self.dsm)
         else:
             self.dsm2 = None
@@ -350,7 +354,7 @@ class Cell:
         for i in range(all_pos.shape[0]):
             self.apos.append(unique_rows(all_pos[i], eps=1e-4))
         self.mults = torch.tensor(
-            [len(a) for a in self.apos], device=device, dtype=torch.int64
+            [len(a) for a in self.apos], device=self.device, dtype=torch.int64
         )
 
         # 7b) store number of unique atoms in the asymmetric unit
@@ -785,32 +789,36 @@ class Cell:
         We use the obverse setting in all cases.
         """
         # Convert lattice parameters to hexagonal
-        calpha = torch.cos(self.alpha * torch.pi / 180.0)
+        calpha = torch.cos(self.alpha)
         ar = self.a
 
-        self.alpha = torch.tensor(90.0, device=self.device)
-        self.beta = torch.tensor(90.0, device=self.device)
-        self.gamma = torch.tensor(120.0, device=self.device)
-        self.a = ar * torch.sqrt(torch.tensor(2.0, device=self.device) - 2.0 * calpha)
+        self.alpha = torch.full_like(ar, torch.pi / 2)
+        self.beta = torch.full_like(ar, torch.pi / 2)
+        self.gamma = torch.full_like(ar, 2 * torch.pi / 3)
+        self.a = ar * torch.sqrt(2.0 - 2.0 * calpha)
         self.b = self.a
-        self.c = ar * torch.sqrt(torch.tensor(3.0, device=self.device) + 6.0 * calpha)
+        self.c = ar * torch.sqrt(3.0 + 6.0 * calpha)
 
         # Transform matrix
         M = torch.tensor(
             [
-                [2.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
-                [-1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
-                [-1.0 / 3.0, -2.0 / 3.0, 1.0 / 3.0],
+                [2.0 / 3.0, -1.0 / 3.0, -1.0 / 3.0],
+                [1.0 / 3.0, 1.0 / 3.0, -2.0 / 3.0],
+                [1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
             ],
             device=self.device,
+            dtype=self.atom_data.dtype,
         )
 
         # Transform atom coordinates
-        for i in range(self.atom_ntype):
+        for i in range(len(self.atom_data)):
             pos = self.atom_data[i, :3].clone()
             pos = torch.matmul(M, pos)
             self.atom_data[i, :3] = pos
 
+        # the metric, the positions and the averages all follow the new cell
+        self._derive()
+
     def is_g_allowed(self, g: torch.Tensor) -> bool:
         """Determine whether a reflection is allowed by lattice centering.
 
-- 
2.43.0


From 336edc4ac13e52a339b4085ec3f2805f50c4f3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:29 +0000
Subject: [PATCH 113/147] fix: hexagonal grid indices are along lattice axes at
 120 degrees

---
 ebsdtorch/crystallography/kvectors.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index e5e01a3..dbe0fb0 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -196,7 +196,11 @@ def kvectors_grid(
     k_ij = torch.stack([ki, kj], dim=-1).reshape(-1, 2)
     # append hemisphere flag to k_ij
     k_ij = torch.cat((k_ij, torch.full_like(k_ij[:, 0:1], 1, device=device)), dim=1)
-    xy = k_ij.float() / float(grid_half_width)
+    xy = k_ij[:, :2].float() / float(grid_half_width)
+    # the hexagon is indexed along two axes at 120 degrees
+    xy_hex = torch.stack(
+        (xy[:, 0] - 0.5 * xy[:, 1], xy[:, 1] * (3**0.5) / 2.0), dim=-1
+    )
 
     if stnum == 1:  # triclinic 1
         kstar = square_to_hemisphere(xy)
@@ -265,7 +269,7 @@ def kvectors_grid(
     elif stnum == 10:  # hexagonal 3
         # keep x >= 0 and y >= 0 in hexagon with SH
         mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0)
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -287,7 +291,7 @@ def kvectors_grid(
             )
         # keep x >= 0 and y >= 0 and x >= y lacks SH
         mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -313,7 +317,7 @@ def kvectors_grid(
             & (k_ij[:, 0] >= (k_ij[:, 1] + 1) // 2)
             & (k_ij[:, 0] <= 2 * k_ij[:, 1])
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -327,7 +331,7 @@ def kvectors_grid(
     elif stnum == 15:  # hexagonal 31m, 6
         # keep kj >= 0 and ki >= kj with SH
         mask = (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -353,7 +357,7 @@ def kvectors_grid(
             & (ang >= (torch.pi / 5.9999))
             & (xx >= 0)
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -367,7 +371,7 @@ def kvectors_grid(
         mask = (
             (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (ang <= (torch.pi / 3)) & (xx >= 0)
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -384,7 +388,7 @@ def kvectors_grid(
             & (ang <= (torch.pi / 6.0001))
             & (xx >= 0)
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -407,7 +411,7 @@ def kvectors_grid(
             & (ang <= (torch.pi / 6.0001))
             & (xx >= 0)
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
-- 
2.43.0


From 2327e53bd386d3582d0c5ee3c7ac179217c25a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:03 +0000
Subject: [PATCH 114/147] fix: hexagonal grid keeps the nodes on the equator

---
 ebsdtorch/crystallography/kvectors.py | 32 +++++++++++++--------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index dbe0fb0..b056972 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -271,8 +271,8 @@ def kvectors_grid(
         mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0)
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        # filter again if outside of the hexagon
+        mask_in_hex = torch.abs(k_ij[:, 0] - k_ij[:, 1]) <= grid_half_width
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
         # add the other hemisphere
@@ -293,8 +293,8 @@ def kvectors_grid(
         mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        # filter again if outside of the hexagon
+        mask_in_hex = torch.abs(k_ij[:, 0] - k_ij[:, 1]) <= grid_half_width
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
     # examining "PGSamplingType" & "getHexvsRho" in EMsoft: case 13 is infeasible
@@ -319,8 +319,8 @@ def kvectors_grid(
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        # filter again if outside of the hexagon
+        mask_in_hex = torch.abs(k_ij[:, 0] - k_ij[:, 1]) <= grid_half_width
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
         # add the other hemisphere
@@ -333,8 +333,8 @@ def kvectors_grid(
         mask = (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        # filter again if outside of the hexagon
+        mask_in_hex = torch.abs(k_ij[:, 0] - k_ij[:, 1]) <= grid_half_width
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
         # add the other hemisphere
@@ -359,8 +359,8 @@ def kvectors_grid(
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        # filter again if outside of the hexagon
+        mask_in_hex = torch.abs(k_ij[:, 0] - k_ij[:, 1]) <= grid_half_width
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
     elif stnum == 17:  # hexagonal -31m, 6/m, -62m
@@ -373,8 +373,8 @@ def kvectors_grid(
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        # filter again if outside of the hexagon
+        mask_in_hex = torch.abs(k_ij[:, 0] - k_ij[:, 1]) <= grid_half_width
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
     elif stnum == 18:  # hexagonal 6mm
@@ -390,8 +390,8 @@ def kvectors_grid(
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        # filter again if outside of the hexagon
+        mask_in_hex = torch.abs(k_ij[:, 0] - k_ij[:, 1]) <= grid_half_width
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
         # add the other hemisphere
@@ -413,8 +413,8 @@ def kvectors_grid(
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
-        # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        # filter again if outside of the hexagon
+        mask_in_hex = torch.abs(k_ij[:, 0] - k_ij[:, 1]) <= grid_half_width
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
     else:
-- 
2.43.0


From f2c64639e242991f9a85425d938235424336b09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:29 +0000
Subject: [PATCH 115/147] fix: sampling wedges of trigonal -3, 32 and 31m cover
 the sphere

---
 ebsdtorch/crystallography/kvectors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index b056972..c5117f1 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -162,11 +162,11 @@ def kvectors_grid(
             if 143 <= sg <= 167:  # trigonal
                 if 143 <= sg <= 146:  # 3
                     stnum = 10
-                elif sg == 147 <= 155:  # bar3 and 32
+                elif 147 <= sg <= 155:  # bar3 and 32
                     stnum = 12
                 elif sg in [156, 158, 160, 161]:  # 3m
                     stnum = 14
-                elif sg == 157 | sg == 159:  # 3m
+                elif sg in [157, 159]:  # 3m
                     stnum = 15
                 elif sg in [162, 163]:  # bar3m
                     stnum = 17
@@ -289,8 +289,8 @@ def kvectors_grid(
             raise NotImplementedError(
                 "Rhombohedral 32 not implemented: use hexagonal setting."
             )
-        # keep x >= 0 and y >= 0 and x >= y lacks SH
-        mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])
+        # keep x >= 0 and y >= 0 (a third of the hexagon) lacks SH
+        mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0)
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if outside of the hexagon
-- 
2.43.0


From d534ab766deb30b00fb5501770aa9746b4dfa18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:05 +0000
Subject: [PATCH 116/147] fix: sampling wedges keep the nodes on their own
 boundary

---
 ebsdtorch/crystallography/kvectors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index c5117f1..61b9bd7 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -354,7 +354,7 @@ def kvectors_grid(
         mask = (
             (k_ij[:, 0] >= 0)
             & (k_ij[:, 1] >= 0)
-            & (ang >= (torch.pi / 5.9999))
+            & (ang >= (torch.pi / 6.0001))
             & (xx >= 0)
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
@@ -369,7 +369,7 @@ def kvectors_grid(
         yy = k_ij[:, 1] * (3**0.5) / 2.0
         ang = torch.atan2(yy, xx)
         mask = (
-            (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (ang <= (torch.pi / 3)) & (xx >= 0)
+            (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (ang <= (torch.pi / 2.9999)) & (xx >= 0)
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
@@ -385,7 +385,7 @@ def kvectors_grid(
         mask = (
             (k_ij[:, 0] >= 0)
             & (k_ij[:, 1] >= 0)
-            & (ang <= (torch.pi / 6.0001))
+            & (ang <= (torch.pi / 5.9999))
             & (xx >= 0)
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
@@ -408,7 +408,7 @@ def kvectors_grid(
         mask = (
             (k_ij[:, 0] >= 0)
             & (k_ij[:, 1] >= 0)
-            & (ang <= (torch.pi / 6.0001))
+            & (ang <= (torch.pi / 5.9999))
             & (xx >= 0)
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
-- 
2.43.0


From 34d3aea54445311f4a304f6e164d9db5324421a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 117/147] fix: dynamical matrix data without absorption

---
 ebsdtorch/crystallography/diffraction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/crystallography/diffraction.py b/ebsdtorch/crystallography/diffraction.py
index c75ac2d..1dcac8a 100644
--- a/ebsdtorch/crystallography/diffraction.py
+++ b/ebsdtorch/crystallography/diffraction.py
@@ -339,7 +339,7 @@ def calc_helper_bloch_formalism(
         # complex Ucg = U_g + i Uprime_g = U_g,r-Uprime_g,i + i(U_g,i+Uprime_g,r)
         ucg = pre * torch.complex(ff.real - gg.imag, ff.imag + gg.real)
     else:
-        upmod = torch.zeros_like(ff)
+        upmod = torch.zeros_like(vmod)
         ucg = pre * ff
 
     # cell%mLambda is the relativistic wavelength in the orignal f90 code...
@@ -551,8 +551,8 @@ def calc_helper_scatter_matrix(
         vpphase = torch.atan2(gg.imag, gg.real)
         upmod = preg * pref * torch.abs(gg)
     else:
-        vpphase = torch.zeros_like(ff)
-        upmod = torch.zeros_like(ff)
+        vpphase = torch.zeros_like(vphase)
+        upmod = torch.zeros_like(umod)
 
     # cell%mLambda is the relativistic wavelength in the orignal f90 code...
     # I don't want it to be an attribute of the cell object because it is defined
-- 
2.43.0


From ef645d30c2965eefa3095b6cfe81858113708927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:59 +0000
Subject: [PATCH 118/147] fix: master patterns for several voltages

---
 ebsdtorch/crystallography/ebsd_master.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_master.py b/ebsdtorch/crystallography/ebsd_master.py
index 02f248a..e0bfdc2 100644
--- a/ebsdtorch/crystallography/ebsd_master.py
+++ b/ebsdtorch/crystallography/ebsd_master.py
@@ -278,7 +278,9 @@ def ebsd_master_pattern(
             # form exp_A exactly instead of composing it via Zassenhaus
             A = (
                 dynmat_V[v]
-                + torch.diag_embed(torch.complex(2.0 * sg / mlambdas[v], upmod_000))
+                + torch.diag_embed(torch.complex(
+                        2.0 * sg / mlambdas[v], upmod_000[v].expand_as(sg)
+                    ))
             ) * (1j * torch.pi * mlambdas[v])
             exp_A = torch.matrix_exp(A)  # (k_chunk, n_g, n_g)
 
-- 
2.43.0


From 7691031220f4716b4f12130e5888b72446158fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:31 +0000
Subject: [PATCH 119/147] fix: the depth step scales the scattering matrix

---
 ebsdtorch/crystallography/ebsd_master.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_master.py b/ebsdtorch/crystallography/ebsd_master.py
index e0bfdc2..366f5b3 100644
--- a/ebsdtorch/crystallography/ebsd_master.py
+++ b/ebsdtorch/crystallography/ebsd_master.py
@@ -281,7 +281,7 @@ def ebsd_master_pattern(
                 + torch.diag_embed(torch.complex(
                         2.0 * sg / mlambdas[v], upmod_000[v].expand_as(sg)
                     ))
-            ) * (1j * torch.pi * mlambdas[v])
+            ) * (1j * torch.pi * mlambdas[v] * depth_step)
             exp_A = torch.matrix_exp(A)  # (k_chunk, n_g, n_g)
 
             # Initialize accumulated Lgh matrix
-- 
2.43.0


From db2cd1b40f53167ecef259ddc01af86e87bcf22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:59 +0000
Subject: [PATCH 120/147] fix: Monte Carlo weights of the caller are left alone

---
 ebsdtorch/crystallography/ebsd_master.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_master.py b/ebsdtorch/crystallography/ebsd_master.py
index 366f5b3..ace4685 100644
--- a/ebsdtorch/crystallography/ebsd_master.py
+++ b/ebsdtorch/crystallography/ebsd_master.py
@@ -248,7 +248,7 @@ def ebsd_master_pattern(
     hkl_valid_fp = hkl_valid.to(kvectors.dtype)
 
     # normalize mc weights
-    mc_weights /= mc_weights.sum()
+    mc_weights = mc_weights / mc_weights.sum()
 
     # get depths_95 from the Monte Carlo weights
     energy_marginals_1d = mc_weights / mc_weights.sum(dim=1, keepdim=True)
-- 
2.43.0


From 9483aeb8b5ffdfa0e89670d0ab5fcb7d22ab44f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 121/147] fix: the pole is part of the -3m1, 622 and -6m2
 sampling wedge

---
 ebsdtorch/crystallography/kvectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index 61b9bd7..a0ce5a4 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -354,7 +354,7 @@ def kvectors_grid(
         mask = (
             (k_ij[:, 0] >= 0)
             & (k_ij[:, 1] >= 0)
-            & (ang >= (torch.pi / 6.0001))
+            & ((ang >= (torch.pi / 6.0001)) | (k_ij[:, 1] == 0) & (k_ij[:, 0] == 0))
             & (xx >= 0)
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
-- 
2.43.0


From a8e028032eff84af66a2f73315626c7606eabb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:28 +0000
Subject: [PATCH 122/147] fix: phases of the Fourier coefficients are kept
 without absorption

---
 ebsdtorch/crystallography/diffraction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebsdtorch/crystallography/diffraction.py b/ebsdtorch/crystallography/diffraction.py
index 1dcac8a..6231ff0 100644
--- a/ebsdtorch/crystallography/diffraction.py
+++ b/ebsdtorch/crystallography/diffraction.py
@@ -597,6 +597,8 @@ def calc_helper_scatter_matrix(
                 1.0 / xg - torch.sin(arg) / xgp,
                 torch.cos(arg) / xgp,
             )
+    elif apply_qg_shift:
+        qg = torch.complex(torch.cos(vphase) / xg, torch.sin(vphase) / xg)
     else:
         qg = torch.complex(1.0 / xg, torch.zeros_like(xg))
 
-- 
2.43.0


From 7c86fdfbf537e06c3718c8ee6131920b16f0fdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:02 +0000
Subject: [PATCH 123/147] fix: the depth bin that completes the 95% is
 integrated

---
 ebsdtorch/crystallography/ebsd_master.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_master.py b/ebsdtorch/crystallography/ebsd_master.py
index ace4685..d6e0f71 100644
--- a/ebsdtorch/crystallography/ebsd_master.py
+++ b/ebsdtorch/crystallography/ebsd_master.py
@@ -295,7 +295,7 @@ def ebsd_master_pattern(
             psi = psi_0[None, :].expand(len(k_batch), n_g)
 
             # Integrate over depths
-            for d in range(min(depth_cutoffs[v], 100)):
+            for d in range(min(int(depth_cutoffs[v]) + 1, mc_weights.size(1), 100)):
                 # (k_chunk, n_g, n_g) @ (k_chunk, n_g, 1)
                 psi = torch.matmul(exp_A, psi[..., None]).squeeze(-1)
                 Lgh += mc_weights[v, d] * torch.einsum("ki,kj->kij", psi, psi.conj())
-- 
2.43.0


From 763767638b96910bac29646f35f39400c30a56f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:47 +0000
Subject: [PATCH 124/147] fix: the table of the exponential integral is
 interpolated with its own spacing

---
 .../scattering_factors/scattering_factors_Hybrid.py             | 2 +-
 .../crystallography/scattering_factors/scattering_factors_WK.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
index e10c00a..0668448 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
@@ -708,7 +708,7 @@ def RIH2_torch(X: Tensor) -> Tensor:
     idx = (200.0 / X).floor().long()
     idx = torch.clamp(idx, 0, len(rih2_table) - 2)
     sig = rih2_table[idx] + 200.0 * (rih2_table[idx + 1] - rih2_table[idx]) * (
-        1.0 / X - 0.5e-3 * idx
+        1.0 / X - 5.0e-3 * idx
     )
     return sig
 
diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index fd4b1f5..9746f27 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -542,7 +542,7 @@ def RIH2_torch(X: Tensor) -> Tensor:
     idx = (200.0 / X).floor().long()
     idx = torch.clamp(idx, 0, len(rih2_table) - 2)
     sig = rih2_table[idx] + 200.0 * (rih2_table[idx + 1] - rih2_table[idx]) * (
-        1.0 / X - 0.5e-3 * idx
+        1.0 / X - 5.0e-3 * idx
     )
     return sig
 
-- 
2.43.0


From d0454f36f67cec3ea52dd3b7e4290937704ddc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:26 +0000
Subject: [PATCH 125/147] fix: no thermal diffuse scattering from an atom that
 does not vibrate

---
 .../scattering_factors/scattering_factors_Hybrid.py             | 2 ++
 .../crystallography/scattering_factors/scattering_factors_WK.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
index 0668448..0ff6ca6 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
@@ -1047,6 +1047,8 @@ def scatter_factor_hybrid(
 
         # Sum over pairs and prepare for broadcasting
         Fphon = result.sum(dim=-1).view(1, N_Z, N_g)
+        # an atom that does not vibrate scatters no electrons diffusely
+        Fphon = torch.where(thermal_sigma.view(1, N_Z, 1) > 0, Fphon, 0.0)
     else:
         Fphon = 0.0
 
diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index 9746f27..08af08f 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -913,6 +913,8 @@ def scatter_factor_WK(
 
         # Sum over pairs and prepare for broadcasting
         Fphon = result.sum(dim=-1).view(1, N_Z, N_g)
+        # an atom that does not vibrate scatters no electrons diffusely
+        Fphon = torch.where(thermal_sigma.view(1, N_Z, 1) > 0, Fphon, 0.0)
     else:
         Fphon = torch.zeros(1, N_Z, N_g, dtype=g.dtype, device=g.device)
 
-- 
2.43.0


From 57daef5b5bb3a9b139e4499f989100435a2b2987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:01 +0000
Subject: [PATCH 126/147] fix: absorptive part of the WK factors is clamped to
 zero as documented

---
 .../scattering_factors/scattering_factors_WK.py                | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index 08af08f..3cb8c0f 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -931,6 +931,9 @@ def scatter_factor_WK(
             (Fcore * dwf + Fphon) * gamma**2 / (4.0 * torch.pi * k0)
         )  # [N_V, N_Z, N_g]
 
+        # clamp f_imag to be positive (absorptive)
+        f_imag = torch.clamp(f_imag, min=0.0)
+
         f_scatt = torch.view_as_complex(torch.stack((f_real_corrected, f_imag), dim=-1))
 
         # unlike py4DSTEM's current code no factor of 0.04787801 or (0.4787801)
-- 
2.43.0


From 7ec8a72c719801292c7052752c36b642c7ae52e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:39 +0000
Subject: [PATCH 127/147] fix: hybrid scattering factors take the same g as the
 WK factors

---
 .../scattering_factors/scattering_factors_Hybrid.py      | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
index 0ff6ca6..f9779a2 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
@@ -844,8 +844,13 @@ def scatter_factor_hybrid(
     N_g = len(g)
 
     # Prepare g-vector calculations
-    G = g.view(1, 1, -1) * 2.0 * torch.pi  # [1, 1, N_g]
-    S = g.view(1, 1, -1) / 2.0  # [1, 1, N_g]
+    if return_type == "ITC":
+        G = g.view(1, 1, -1) * 2.0 * torch.pi  # [1, 1, N_g]
+        S = g.view(1, 1, -1) / 2.0  # [1, 1, N_g]
+    else:
+        # as for the WK factors, g already has the two pi in it
+        G = g.view(1, 1, -1)  # [1, 1, N_g]
+        S = g.view(1, 1, -1) / (4.0 * torch.pi)  # [1, 1, N_g]
 
     f_real = eval_LVD_fit(
         Z.view(N_Z, 1),
-- 
2.43.0


From 0e0aa3a7f90c92902364f4e5fa2497d32fc91fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:11 +0000
Subject: [PATCH 128/147] fix: one displacement for several atoms

---
 .../scattering_factors/scattering_factors_Hybrid.py             | 2 +-
 .../scattering_factors/scattering_factors_LVD_TCB.py            | 2 +-
 .../crystallography/scattering_factors/scattering_factors_WK.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
index f9779a2..92ae4f8 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
@@ -835,7 +835,7 @@ def scatter_factor_hybrid(
     # Ensure inputs are 1D
     g = g.view(-1)  # [N_g]
     Z = Z.view(-1)  # [N_Z]
-    thermal_sigma = thermal_sigma.view(-1)  # [N_Z]
+    thermal_sigma = thermal_sigma.view(-1).expand(len(Z))  # [N_Z]
     voltage_kV = voltage_kV.view(-1)  # [N_V]
 
     # Get dimensions
diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
index c40e1ca..6290390 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
@@ -365,7 +365,7 @@ def scatter_factor_LVD(
 
     S = (g / 2.0).view(-1)  # [N_g]
     Z = Z.view(-1)  # [N_Z]
-    M_vals = (thermal_sigma.view(-1) ** 2.0) * (8 * torch.pi**2)  # [N_Z]
+    M_vals = (thermal_sigma.view(-1).expand(len(Z)) ** 2.0) * (8 * torch.pi**2)  # [N_Z]
 
     N_V = len(voltage_kV)
     N_Z = len(Z)
diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index 3cb8c0f..9fd04ba 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -668,7 +668,7 @@ def scatter_factor_WK(
     # Ensure inputs are 1D
     g = g.view(-1)  # [N_g]
     Z = Z.view(-1)  # [N_Z]
-    thermal_sigma = thermal_sigma.view(-1)  # [N_Z]
+    thermal_sigma = thermal_sigma.view(-1).expand(len(Z))  # [N_Z]
     voltage_kV = voltage_kV.view(-1)  # [N_V]
 
     # Get dimensions
-- 
2.43.0


From 0d21cfb9282ea7e5d0ed148f9aa87caeabf4e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:27 +0000
Subject: [PATCH 129/147] fix: MasterPattern.interpolate can be differentiated

---
 ebsdtorch/ebsd/master_pattern.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index 0ea357c..67c9d97 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -199,10 +199,9 @@ class MasterPattern(Module):
         # seam, so stop at the centers of the outermost pixels of each hemisphere
         n_cols = master_pattern_prep.shape[-1]
         seam = 1.0 / (n_cols - 1 if align_corners else n_cols)
-        x = projected_coords_2D[..., 0]
-        projected_coords_2D[..., 0] = torch.where(
-            coords_3D[..., 2] < 0, x.clamp(min=seam), x.clamp(max=-seam)
-        )
+        x, y = projected_coords_2D.unbind(dim=-1)
+        x = torch.where(coords_3D[..., 2] < 0, x.clamp(min=seam), x.clamp(max=-seam))
+        projected_coords_2D = torch.stack((x, y), dim=-1)
 
         # we want to accept a generic number of dimensions (..., 2)
         # grid_sample will perform extremely poorly when given grid shaped:
-- 
2.43.0


From 3782c92006bb7bfda6b50a677f6dcdd9ddea923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:42 +0000
Subject: [PATCH 130/147] fix: count every electron that exits into the same
 bin at the same time

---
 ebsdtorch/simulation/monte_carlo.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/simulation/monte_carlo.py b/ebsdtorch/simulation/monte_carlo.py
index 2f2ca0a..7b808bc 100644
--- a/ebsdtorch/simulation/monte_carlo.py
+++ b/ebsdtorch/simulation/monte_carlo.py
@@ -226,12 +226,19 @@ def bse_sim_mc(
         exit_direction_indices = exit_direction_indices[valid_mask]
 
         # push MC batch into accumulator
-        accumulator[
-            exit_energy_indices,
-            exit_depth_indices,
-            exit_direction_indices[..., 0],
-            exit_direction_indices[..., 1],
-        ] += 1
+        # (accumulate, as several electrons of one batch can exit into the same bin)
+        accumulator.index_put_(
+            [
+                exit_energy_indices,
+                exit_depth_indices,
+                exit_direction_indices[..., 0],
+                exit_direction_indices[..., 1],
+            ],
+            torch.ones(
+                exit_energy_indices.shape, device=device, dtype=accumulator.dtype
+            ),
+            accumulate=True,
+        )
 
         # reset if the ticks are greater than the max
         ticks += 1
-- 
2.43.0


From 1cc99df7b839b524b44d0e9a4ac76aa4f9beb37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:56 +0000
Subject: [PATCH 131/147] fix: centre of the local orientation grid is exactly
 zero

---
 ebsdtorch/ebsd/refining.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 9a4cf73..a9c16b6 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -43,11 +43,10 @@ def get_local_orientation_grid(
     # get the cubochoric grid edge length
     semi_edge_cubochoric = semi_edge_in_degrees * torch.pi ** (2 / 3) / 360.0
 
-    # make a meshgrid of cubochoric coordinates
-    cu = torch.linspace(
-        -semi_edge_cubochoric,
-        semi_edge_cubochoric,
-        2 * kernel_radius_in_steps + 1,
+    # make a meshgrid of cubochoric coordinates, scaled from integers so that the
+    # central coordinate is exactly zero
+    cu = torch.arange(-kernel_radius_in_steps, kernel_radius_in_steps + 1) * (
+        semi_edge_cubochoric / max(kernel_radius_in_steps, 1)
     )
 
     # get cartesian product meshgrid
-- 
2.43.0


From 0f2330899d252084751416cdba3ba165395077de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:57 +0000
Subject: [PATCH 132/147] fix: grid refinement of one pattern or with one grid
 point

---
 ebsdtorch/ebsd/refining.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index a9c16b6..a56d471 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -205,7 +205,7 @@ def orientation_grid_refinement(
                     align_corners=True,
                     normalize_coords=False,  # already normalized above
                     virtual_binning=virtual_binning,  # coarser grid requires blur of MP
-                ).squeeze()
+                )
 
                 # zero mean the sim_pats
                 sim_pats = sim_pats - torch.mean(sim_pats, dim=-1, keepdim=True)
-- 
2.43.0


From 9f7fddedfae3e0c488cbcc00f196e72644e6a420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:56 +0000
Subject: [PATCH 133/147] fix: grid refinement with match types other than
 float32

---
 ebsdtorch/ebsd/refining.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index a56d471..902222c 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -223,7 +223,7 @@ def orientation_grid_refinement(
                 best_dots, best_indices = torch.max(dot_products, dim=-1)
 
                 # update the dots
-                dots[indices_batch, j] = best_dots
+                dots[indices_batch, j] = best_dots.to(dots.dtype)
 
                 # update center of the grid
                 qu_current = qu_augmented[
-- 
2.43.0


From 0315df7417adb59a986723e114e41dfa1ea612f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:57 +0000
Subject: [PATCH 134/147] fix: scan positions are subtracted from the detector
 coordinates in refinement

---
 ebsdtorch/ebsd/refining.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 902222c..9d245e9 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -115,7 +115,7 @@ def orientation_grid_refinement(
 
     if not average_pattern_center:
         # broadcast subtract the sample scan coordinates from the detector coords
-        detector_coords = detector_coords[None, :, :] + torch.cat(
+        detector_coords = detector_coords[None, :, :] - torch.cat(
             [
                 experiment_patterns.spatial_coords[:, None, :],
                 torch.zeros_like(experiment_patterns.spatial_coords[:, None, [-1]]),
-- 
2.43.0


From 03f6be9b9ba4e6d58bad13c61833348efc05b2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:03 +0000
Subject: [PATCH 135/147] fix: gradient refinement keeps the orientations that
 match better

---
 ebsdtorch/ebsd/refining.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 9d245e9..5894ee2 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -326,7 +326,8 @@ def orientation_grad_refinement(
 
             initial_dots = None
 
-            for step in range(n_iter):
+            # one more pass than there are steps scores the final orientations
+            for step in range(n_iter + 1):
                 # apply the state of the lattice to the detector coordinates
                 detector_coords_rotated = qu_apply(
                     qu_current[:, None, :], detector_coords[None, :, :]
@@ -355,7 +356,10 @@ def orientation_grad_refinement(
                 )
 
                 if step == 0:
-                    initial_dots = -dot_products
+                    initial_dots = dot_products.detach()
+
+                if step == n_iter:
+                    break
 
                 # backpropagate the dot products
                 loss = -torch.mean(dot_products)
@@ -379,8 +383,8 @@ def orientation_grad_refinement(
 
             # update the experiment patterns
             # experiment_patterns.set_orientations(qu_current.detach(), indices_batch)
-            # only update if the final loss is better than the initial loss
-            updates = dot_products < initial_dots
+            # only update if the final match is better than the initial match
+            updates = dot_products > initial_dots
             experiment_patterns.set_orientations(
                 qu_current[updates].detach(),
                 indices_batch[updates],
-- 
2.43.0


From 146b160c8ee587eee3b8fd4bfa073ff8b19858ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:09 +0000
Subject: [PATCH 136/147] fix: gradient refinement of one pattern

---
 ebsdtorch/ebsd/refining.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 5894ee2..77f6092 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -341,7 +341,7 @@ def orientation_grad_refinement(
                     align_corners=True,
                     normalize_coords=False,  # already normalized above
                     virtual_binning=virtual_binning,  # coarser grid requires blur of MP
-                ).squeeze()
+                )
 
                 # zero mean the sim_pats
                 sim_pats = sim_pats - torch.mean(sim_pats, dim=-1, keepdim=True)
-- 
2.43.0


From 63e0a4535c0a4565f393f70d9a85023093e3397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:12 +0000
Subject: [PATCH 137/147] fix: scan positions are used in gradient refinement

---
 ebsdtorch/ebsd/refining.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 77f6092..6e71eec 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -286,6 +286,16 @@ def orientation_grad_refinement(
         binning=(virtual_binning, virtual_binning)
     ).view(-1, 3)
 
+    if not average_pattern_center:
+        # broadcast subtract the sample scan coordinates from the detector coords
+        detector_coords = detector_coords[None, :, :] - torch.cat(
+            [
+                experiment_patterns.spatial_coords[:, None, :],
+                torch.zeros_like(experiment_patterns.spatial_coords[:, None, [-1]]),
+            ],
+            dim=-1,
+        )
+
     # normalize the detector coordinates to be unit vectors
     detector_coords = detector_coords / detector_coords.norm(dim=-1, keepdim=True)
 
@@ -329,9 +339,14 @@ def orientation_grad_refinement(
             # one more pass than there are steps scores the final orientations
             for step in range(n_iter + 1):
                 # apply the state of the lattice to the detector coordinates
-                detector_coords_rotated = qu_apply(
-                    qu_current[:, None, :], detector_coords[None, :, :]
-                )
+                if average_pattern_center:
+                    detector_coords_rotated = qu_apply(
+                        qu_current[:, None, :], detector_coords[None, :, :]
+                    )
+                else:
+                    detector_coords_rotated = qu_apply(
+                        qu_current[:, None, :], detector_coords[indices_batch]
+                    )
 
                 # interpolate the master pattern
                 # shape (N_SIM_PATS, N_PIX)
-- 
2.43.0


From 2051aaeebef7fdf0df29bf91a10ad21842c8ea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:18 +0000
Subject: [PATCH 138/147] fix: refinement of a scan in which some phase has no
 patterns

---
 ebsdtorch/ebsd/refining.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 6e71eec..6ec2feb 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -134,7 +134,7 @@ def orientation_grid_refinement(
     for i, indices in enumerate(phase_indices):
         mp = master_patterns[i]
         pb = progressbar(
-            list(torch.split(indices, batch_size)),
+            [b for b in torch.split(indices, batch_size) if len(b) > 0],
             prefix=f"REFINE MP {i+1:01d}/{len(master_patterns):01d} ",
         )
 
@@ -305,7 +305,7 @@ def orientation_grad_refinement(
     for i, indices in enumerate(phase_indices):
         mp = master_patterns[i]
         pb = progressbar(
-            list(torch.split(indices, batch_size)),
+            [b for b in torch.split(indices, batch_size) if len(b) > 0],
             prefix=f"REFINE MP {i+1:01d}/{len(master_patterns):01d} ",
         )
         for indices_batch in pb:
-- 
2.43.0


From 863e53ee9fbeaaed86dc9f66638256ab444c030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:52 +0000
Subject: [PATCH 139/147] fix: LVD scattering factors of several voltages scale
 each voltage by its own wave number

---
 .../scattering_factors/scattering_factors_LVD_TCB.py             | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
index 6290390..24c9e01 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
@@ -378,6 +378,7 @@ def scatter_factor_LVD(
 
     # Calculate wavelength for each voltage
     k0 = 2.0 * torch.pi / e_wavelength_eV_to_A(1000.0 * voltage_kV)  # [N_V]
+    k0 = k0.view(N_V, 1, 1)
 
     # compute DWF
     dwf = torch.exp(-M_vals.view(-1, 1) * S.view(1, -1) ** 2).view(1, N_Z, N_g)
-- 
2.43.0


From d16565e5369a5dac24ff6f9dbf7071bb62d779d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:27 +0000
Subject: [PATCH 140/147] fix: linear interpolation of Monte Carlo histograms
 uses the segment that contains the point

With extrapolate='error' the segment index was one too high: values came from the
next segment and points of the last segment were refused.
---
 ebsdtorch/crystallography/ebsd_mc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/ebsd_mc.py b/ebsdtorch/crystallography/ebsd_mc.py
index 9753a3d..19a7373 100644
--- a/ebsdtorch/crystallography/ebsd_mc.py
+++ b/ebsdtorch/crystallography/ebsd_mc.py
@@ -408,9 +408,10 @@ class MonteCarloSimulator:
         indices = torch.searchsorted(xp.contiguous(), x.contiguous(), right=False)
 
         if extrapolate == "error":
-            # Check for out-of-range indices
-            if torch.any(indices < 0) or torch.any(indices >= m.shape[-1]):
+            # Check for out-of-range points
+            if torch.any(x < xp[..., :1]) or torch.any(x > xp[..., -1:]):
                 raise ValueError("(some) interpolation indices out of range")
+            indices = torch.clamp(indices - 1, 0, m.shape[-1] - 1)
         elif extrapolate == "const":
             # Pad for constant values outside range
             m = torch.cat(
-- 
2.43.0


From 6bfd95142cc5a067a9f56c95624895a5e2907d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:33 +0000
Subject: [PATCH 141/147] fix: constant extrapolation of the quadratic Monte
 Carlo interpolation keeps the interpolated dimension

The end points were compared without their last dimension, so that the call failed
(or compared along the wrong axis) for anything but one-dimensional input.
---
 ebsdtorch/crystallography/ebsd_mc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/crystallography/ebsd_mc.py b/ebsdtorch/crystallography/ebsd_mc.py
index 19a7373..db014c2 100644
--- a/ebsdtorch/crystallography/ebsd_mc.py
+++ b/ebsdtorch/crystallography/ebsd_mc.py
@@ -473,10 +473,10 @@ class MonteCarloSimulator:
 
         if extrapolate == "const":
             # Use constant values for extrapolation
-            below_range = x < xp[..., 0]
-            above_range = x > xp[..., -1]
-            values = torch.where(below_range, fp[..., 0], values)
-            values = torch.where(above_range, fp[..., -1], values)
+            below_range = x < xp[..., :1]
+            above_range = x > xp[..., -1:]
+            values = torch.where(below_range, fp[..., :1], values)
+            values = torch.where(above_range, fp[..., -1:], values)
 
         return values.movedim(-1, dim)
 
-- 
2.43.0


From 50e68da32acbc63669fd8268d977aecfc4f1ffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:40 +0000
Subject: [PATCH 142/147] fix: depth bin edges of Monte Carlo histograms are
 counted in integers

A floating point range gave one edge too many for many numbers of bins (2 or 24 bins
of 0.1), and resample_to_linear then failed on mismatched shapes.
---
 ebsdtorch/crystallography/ebsd_mc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/crystallography/ebsd_mc.py b/ebsdtorch/crystallography/ebsd_mc.py
index db014c2..15c99af 100644
--- a/ebsdtorch/crystallography/ebsd_mc.py
+++ b/ebsdtorch/crystallography/ebsd_mc.py
@@ -505,13 +505,11 @@ class MonteCarloSimulator:
         bin_edges = (
             torch.exp(
                 torch.arange(
-                    0,
-                    self.n_depth_bins * self.binsize_exit_depth
-                    + self.binsize_exit_depth,
-                    self.binsize_exit_depth,
+                    self.n_depth_bins + 1,
                     device=histogram.device,
                     dtype=torch.float32,
                 )
+                * self.binsize_exit_depth
             )
             - 1.0
         )
-- 
2.43.0


From c5ca686d98d95eba3ee660e5a51ee22dce26566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:56 +0000
Subject: [PATCH 143/147] fix: combined orientations are a copy of the indexing
 results

---
 ebsdtorch/ebsd/experiment_pats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 34b4adb..c8a283a 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -452,5 +452,6 @@ class ExperimentPatterns(Module):
                 device=self.patterns.device,
             )
             quaternions, metrics = list(self.raw_indexing_results.values())[0]
-            self.orientations = quaternions[:, 0]
-            self.best_metrics = metrics[:, 0]
+            # copies, as later updates of the orientations are done in place
+            self.orientations = quaternions[:, 0].clone()
+            self.best_metrics = metrics[:, 0].clone()
-- 
2.43.0


From ae833bd90dafa46ebfeaba0022c938770f8900fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:03 +0000
Subject: [PATCH 144/147] fix: clahe counts pixels exactly

---
 ebsdtorch/preprocessing/clahe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/preprocessing/clahe.py b/ebsdtorch/preprocessing/clahe.py
index 383a159..cc8000f 100644
--- a/ebsdtorch/preprocessing/clahe.py
+++ b/ebsdtorch/preprocessing/clahe.py
@@ -74,9 +74,9 @@ def clahe_grayscale(
         value=1,
         reduce="add",
     )
-    pdf = pdf / pdf.sum(dim=-1, keepdim=True)
-    # pdf is handled in pixel counts for OpenCV equivalence
-    histos = (pdf * voxels_per_tile).view(-1, n_bins)
+    # pdf is handled in pixel counts for OpenCV equivalence (exact integers as
+    # rounding errors would otherwise be redistributed as a whole pixel)
+    histos = pdf.view(-1, n_bins)
     if clip_limit > 0:
         # calc limit
         limit = max(clip_limit * voxels_per_tile // n_bins, 1)
-- 
2.43.0


From 104a3b983dc7a2489670cf238dfed7e4de98063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:10 +0000
Subject: [PATCH 145/147] fix: orientations and coordinates handed to a pattern
 store are copied

---
 ebsdtorch/ebsd/experiment_pats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index c8a283a..7e449c7 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -75,7 +75,8 @@ class ExperimentPatterns(Module):
                     f"Spatial coordinates must have the same number of patterns as the ExperimentPatterns object. "
                     + f"Got {spatial_coords.shape[0]} spatial coordinates and {self.n_patterns} patterns."
                 )
-            self.spatial_coords = spatial_coords
+            # a copy, as updates of single patterns are done in place
+            self.spatial_coords = spatial_coords.clone()
         else:
             if spatial_coords.shape[0] != indices.shape[0]:
                 raise ValueError(
@@ -132,7 +133,8 @@ class ExperimentPatterns(Module):
                 raise ValueError(
                     f"Orientations must be quaternions (w, x, y, z). Got {orientations.shape[1]}."
                 )
-            self.orientations = orientations
+            # a copy, as updates of single patterns are done in place
+            self.orientations = orientations.clone()
         else:
             # check dim of indices
             if len(indices.shape) != 1:
-- 
2.43.0


From 231339d93d791d52a960c86dd819a7196e42db6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:59 +0000
Subject: [PATCH 146/147] fix: disorientations of batches of any shape, also
 empty ones

---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 12 +++++++-----
 ebsdtorch/s2_and_so3/laue_fz_ori.py    |  8 +++++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index dcc3f94..4fac7e6 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -54,11 +54,11 @@ def misori_to_fz_laue(qu: Tensor, laue_id_1: int, laue_id_2: int):
     # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
     equivalent_quaternions = qu_prod(
         laue_group_1.reshape(1, -1, 1, 4),
-        qu_prod(qu.view(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
+        qu_prod(qu.reshape(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
-    equivalent_quaternions = equivalent_quaternions.reshape(N, -1, 4)
+    equivalent_quaternions = equivalent_quaternions.flatten(1, 2)
 
     # find the quaternion with the largest real part value (smallest angle)
     row_maximum_indices = torch.argmax(
@@ -127,7 +127,7 @@ def disorientation_naive(
     )
 
     # flatten along the laue group dimensions
-    equivalent_quaternions = equivalent_quaternions.reshape(N, -1, 4)
+    equivalent_quaternions = equivalent_quaternions.flatten(1, 2)
 
     # find the quaternion with the largest real part value (smallest angle)
     row_maximum_indices = torch.argmax(
@@ -195,9 +195,11 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     )
 
     # flatten along the laue group dimensions
-    equivalent_quat_pos_real = equivalent_quat_pos_real.reshape(N, -1)
+    equivalent_quat_pos_real = equivalent_quat_pos_real.flatten(1, 2)
 
     # find the largest real part magnitude and return the angle
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
 
-    return 2.0 * torch.acos(torch.clamp(cosine_half_angle, max=1.0))
+    angle = 2.0 * torch.acos(torch.clamp(cosine_half_angle, max=1.0))
+
+    return angle.reshape(data_shape[:-1])
diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index b7bf5a0..1c79047 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -394,7 +394,7 @@ def disorientation(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2: in
     )
 
     # flatten along the laue group dimensions
-    equivalent_quaternions = equivalent_quaternions.reshape(N, -1, 4)
+    equivalent_quaternions = equivalent_quaternions.flatten(1, 2)
 
     # find the quaternion with the largest real part value (smallest angle)
     row_maximum_indices = torch.argmax(
@@ -462,12 +462,14 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     )
 
     # flatten along the laue group dimensions
-    equivalent_quat_pos_real = equivalent_quat_pos_real.reshape(N, -1)
+    equivalent_quat_pos_real = equivalent_quat_pos_real.flatten(1, 2)
 
     # find the largest real part magnitude and return the angle
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
 
-    return 2.0 * torch.acos(torch.clamp(cosine_half_angle, max=1.0))
+    angle = 2.0 * torch.acos(torch.clamp(cosine_half_angle, max=1.0))
+
+    return angle.reshape(data_shape[:-1])
 
 
 @torch.jit.script
-- 
2.43.0


From 4cc6085d38b0948379336536b763f2f88ed63c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:21 +0000
Subject: [PATCH 147/147] fix: hexagon map at the smallest numbers is the pole,
 not NaN

---
 ebsdtorch/crystallography/kvectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index a0ce5a4..cee89db 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -110,7 +110,8 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
     out = torch.stack((y_out * lift, x_out * lift, 1.0 - rho_sq), dim=-1)
 
     # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
-    mask = (pts[..., 0] == 0) & (pts[..., 1] == 0)
+    # (also where the smallest numbers underflow in the rotation)
+    mask = x_new == 0
     out[mask] = torch.tensor([0.0, 0.0, 1.0], device=pts.device, dtype=pts.dtype)
 
     return out
-- 
2.43.0

