From 73d8273a1648e23d536fd2e8a1517ff8adf66e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:55 +0000
Subject: [PATCH 01/14] fix: accept an integer batch index in xyz2key, as
 documented

---
 ocnn/octree/shuffled_key.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/shuffled_key.py b/ocnn/octree/shuffled_key.py
index 449d882..5685282 100644
--- a/ocnn/octree/shuffled_key.py
+++ b/ocnn/octree/shuffled_key.py
@@ -84,7 +84,8 @@ def xyz2key(x: torch.Tensor, y: torch.Tensor, z: torch.Tensor,
     key = key16 << 24 | key
 
   if b is not None:
-    b = b.long()
+    if isinstance(b, torch.Tensor):
+      b = b.long()
     key = b << 48 | key
 
   return key
-- 
2.43.0


From 479c3cd3e6a0abe9c3db960c48736670a67f541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:55 +0000
Subject: [PATCH 02/14] fix: accept a 1-D batch_id in Points (Octree.to_points
 always failed)

---
 ocnn/octree/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index a23d061..ff54be8 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -63,9 +63,9 @@ class Points:
     if self.batch_id is not None:
       assert self.batch_id.dim() == 2 or self.batch_id.dim() == 1
       assert self.batch_id.size(0) == self.points.size(0)
-      assert self.batch_id.size(1) == 1
       if self.batch_id.dim() == 1:
         self.batch_id = self.batch_id.unsqueeze(1)
+      assert self.batch_id.size(1) == 1
 
   @property
   def npt(self):
-- 
2.43.0


From cdab51b92b1bfd1d877b4e8b4e29b0ee60457d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:18 +0000
Subject: [PATCH 03/14] fix: do not overwrite the caller's points in
 OctreeInterp

---
 ocnn/nn/octree_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index afdfafa..73811af 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -121,7 +121,7 @@ class OctreeInterp(torch.nn.Module):
     # rescale points from [-1, 1] to [0, 2^depth]
     if self.rescale_pts:
       scale = 2 ** (depth - 1)
-      pts[:, :3] = (pts[:, :3] + 1.0) * scale
+      pts = torch.cat([(pts[:, :3] + 1.0) * scale, pts[:, 3:]], dim=1)
 
     return self.func(data, octree, depth, pts, self.nempty, self.bound_check)
 
-- 
2.43.0


From 5fce2e3ff33ccb8ad88c4287d06af9ad4dd5d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:21 +0000
Subject: [PATCH 04/14] fix: no wrap-around at the boundary in OctreeUpsample's
 linear interpolation

---
 ocnn/nn/octree_interp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index 73811af..312effd 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -187,7 +187,8 @@ class OctreeUpsample(torch.nn.Module):
     xyzb = octree.xyzb(target_depth, self.nempty)
     pts = torch.stack(xyzb, dim=1).float()
     pts[:, :3] = (pts[:, :3] + 0.5) * (2**(depth - target_depth))  # !!! rescale
-    return self.func(data, octree, depth, pts, self.nempty)
+    # bound_check: the cells beyond the boundary do not wrap to the opposite side
+    return self.func(data, octree, depth, pts, self.nempty, bound_check=True)
 
   def extra_repr(self) -> str:
     r''' Sets the extra representation of the module.
-- 
2.43.0


From b3f3e27742f1ea01d6844936bf8ef89e25fe1b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:34 +0000
Subject: [PATCH 05/14] fix: keep the dtype of the values in octree_align

---
 ocnn/nn/octree_align.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_align.py b/ocnn/nn/octree_align.py
index ec3bc74..5e7ad8b 100644
--- a/ocnn/nn/octree_align.py
+++ b/ocnn/nn/octree_align.py
@@ -30,7 +30,8 @@ def search_value(value: torch.Tensor, key: torch.Tensor, query: torch.Tensor):
   found = key[idx] == query
 
   # assign the found value to the output
-  out = torch.zeros(query.shape[0], value.shape[1], device=value.device)
+  out = torch.zeros(query.shape[0], value.shape[1], dtype=value.dtype,
+                    device=value.device)
   out[found] = value[idx[found]]
   return out
 
-- 
2.43.0


From 77af95b39b00f49a7f404f6f3f204a85d89da2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:17 +0000
Subject: [PATCH 06/14] fix: do not overwrite the caller's tensors in
 Points.flip

---
 ocnn/octree/points.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index ff54be8..07ea0f6 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -149,11 +149,12 @@ class Points:
     '''
 
     axis_map = {'x': 0, 'y': 1, 'z': 2}
+    factor = self.points.new_ones(3)
     for x in axis:
-      idx = axis_map[x]
-      self.points[:, idx] *= -1.0
-      if self.normals is not None:
-        self.normals[:, idx] *= -1.0
+      factor[axis_map[x]] *= -1.0
+    self.points = self.points * factor
+    if self.normals is not None:
+      self.normals = self.normals * factor
 
   def clip(self, min: float = -1.0, max: float = 1.0, esp: float = 0.01):
     r''' Clips the point cloud to :obj:`[min+esp, max-esp]` and returns the mask.
-- 
2.43.0


From 638ef9fc434b0e6adbd38af732eeb2ff8eeec740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:17 +0000
Subject: [PATCH 07/14] fix: do not overwrite the caller's normals in
 Points.orient_normal

---
 ocnn/octree/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index 07ea0f6..ce3fb9d 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -89,7 +89,7 @@ class Points:
       flags = flags.float() * 2.0 - 1.0  # [0, 1] -> [-1, 1]
       self.normals = self.normals * flags.unsqueeze(1)
     else:
-      self.normals.abs_()
+      self.normals = self.normals.abs()
 
   def scale(self, factor: torch.Tensor):
     r''' Rescales the point cloud.
-- 
2.43.0


From 1abe05be9f7f937ca2cd58907bee88c7f3c5a725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:17 +0000
Subject: [PATCH 08/14] fix: keep the batch size in Points.to

---
 ocnn/octree/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index ce3fb9d..a240ba1 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -240,7 +240,8 @@ class Points:
       return self
 
     # Construct a new Points on the specified device
-    points = Points(torch.zeros(1, 3, device=device))
+    points = Points(torch.zeros(1, 3, device=device),
+                    batch_size=self.batch_size)
     points.batch_npt = self.batch_npt
     points.points = self.points.to(device, non_blocking=non_blocking)
     if self.normals is not None:
-- 
2.43.0


From 70b8a53e8c5625cc5462df3566c340dff12a5d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:13 +0000
Subject: [PATCH 09/14] fix: construct_all_neigh for octrees with a full depth
 of 0

---
 ocnn/octree/octree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/octree.py b/ocnn/octree/octree.py
index 6801adb..0b37d7a 100644
--- a/ocnn/octree/octree.py
+++ b/ocnn/octree/octree.py
@@ -349,7 +349,8 @@ class Octree:
     r''' A convenient handler for constructing all neighbors.
     '''
 
-    for depth in range(1, self.depth+1):
+    # the nodes below `full_depth` need the neighbors of their parents
+    for depth in range(min(1, self.full_depth), self.depth+1):
       self.construct_neigh(depth)
 
   def search_xyzb(self, query: torch.Tensor, depth: int, nempty: bool = False):
-- 
2.43.0


From 4e2ceba0d3e2f058e2fe9c004bb4f809d7e31e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:13 +0000
Subject: [PATCH 10/14] fix: avoid a division by zero for a max_buffer smaller
 than one row

---
 ocnn/nn/octree_conv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocnn/nn/octree_conv.py b/ocnn/nn/octree_conv.py
index 88be7ba..22ed96f 100644
--- a/ocnn/nn/octree_conv.py
+++ b/ocnn/nn/octree_conv.py
@@ -88,6 +88,7 @@ class OctreeConvBase:
     if ideal_size > self.max_buffer:
       kc = self.kdim * self.in_conv            # make `max_buffer` be divided
       max_buffer = self.max_buffer // kc * kc  # by `kc` with no remainder
+      max_buffer = max(max_buffer, kc)         # at least one row
       self.buffer_n = (ideal_size + max_buffer - 1) // max_buffer
       self.buffer_h = (self.buffer_h + self.buffer_n - 1) // self.buffer_n
     self.buffer_shape = (self.buffer_h, self.kdim, self.in_conv)
-- 
2.43.0


From 71381e535a6b51c7a2ca246f4a3cea986efce066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:13 +0000
Subject: [PATCH 11/14] fix: OctreeResBlock2 with stride 2 uses an undefined
 attribute

---
 ocnn/modules/resblocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/modules/resblocks.py b/ocnn/modules/resblocks.py
index df6a994..49075a1 100644
--- a/ocnn/modules/resblocks.py
+++ b/ocnn/modules/resblocks.py
@@ -76,7 +76,7 @@ class OctreeResBlock2(torch.nn.Module):
     channelb = int(out_channels / bottleneck)
 
     if self.stride == 2:
-      self.maxpool = OctreeMaxPool(self.depth)
+      self.maxpool = OctreeMaxPool(nempty)
     self.conv3x3a = OctreeConvBnRelu(in_channels, channelb, nempty=nempty)
     self.conv3x3b = OctreeConvBn(channelb, out_channels, nempty=nempty)
     if self.in_channels != self.out_channels:
-- 
2.43.0


From 0845108ae8e2ccb1e0a38e39f8a4d364a3418932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:13 +0000
Subject: [PATCH 12/14] fix: the bottleneck of SegNet ignores nempty

---
 ocnn/models/segnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/models/segnet.py b/ocnn/models/segnet.py
index cedcc90..e6fe642 100644
--- a/ocnn/models/segnet.py
+++ b/ocnn/models/segnet.py
@@ -31,7 +31,8 @@ class SegNet(torch.nn.Module):
     self.pools = torch.nn.ModuleList(
         [ocnn.nn.OctreeMaxPool(nempty, return_indices) for i in range(stages)])
 
-    self.bottleneck = ocnn.modules.OctreeConvBnRelu(channels[-1], channels[-1])
+    self.bottleneck = ocnn.modules.OctreeConvBnRelu(
+        channels[-1], channels[-1], nempty=nempty)
 
     channels = channels_stages[::-1] + [channels_stages[0]]
     self.deconvs = torch.nn.ModuleList(
-- 
2.43.0


From 594ce7577ecd346fbd26dfc49809bd955bacecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:13 +0000
Subject: [PATCH 13/14] fix: do not modify the caller's list in
 resize_with_last_val

---
 ocnn/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocnn/utils.py b/ocnn/utils.py
index b1436f7..de736a0 100644
--- a/ocnn/utils.py
+++ b/ocnn/utils.py
@@ -173,6 +173,7 @@ def resize_with_last_val(list_in: list, num: int = 3):
   '''
 
   assert (type(list_in) is list and len(list_in) < num + 1)
+  list_in = list(list_in)  # avoid modifying the caller's list
   for _ in range(len(list_in), num):
     list_in.append(list_in[-1])
   return list_in
-- 
2.43.0


From c1adbc07c7a4841f5993406a4e4f5192fd49be93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:57 +0000
Subject: [PATCH 14/14] fix: OUNet could not be constructed or run

---
 ocnn/models/autoencoder.py | 9 +++++++--
 ocnn/models/ounet.py       | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/ocnn/models/autoencoder.py b/ocnn/models/autoencoder.py
index 82be70e..d7bbfb8 100644
--- a/ocnn/models/autoencoder.py
+++ b/ocnn/models/autoencoder.py
@@ -23,10 +23,13 @@ class AutoEncoder(torch.nn.Module):
     full_depth (int): The full depth of the octree.
     feature (str): The feature type of the input signal. For details of this
         argument, please refer to :class:`ocnn.modules.InputFeature`.
+    code_channel (int): The channel of the shape code; if it is not positive,
+        the channel of the encoder at :attr:`full_depth` is used.
   '''
 
   def __init__(self, channel_in: int, channel_out: int, depth: int,
-               full_depth: int = 2, feature: str = 'ND'):
+               full_depth: int = 2, feature: str = 'ND',
+               code_channel: int = 64):
     super().__init__()
     self.channel_in = channel_in
     self.channel_out = channel_out
@@ -34,8 +37,10 @@ class AutoEncoder(torch.nn.Module):
     self.full_depth = full_depth
     self.feature = feature
     self.resblk_num = 2
-    self.code_channel = 64  # dim-of-code = code_channel * 2**(3*full_depth)
     self.channels = [512, 512, 256, 256, 128, 128, 32, 32, 16, 16]
+    # dim-of-code = code_channel * 2**(3*full_depth)
+    self.code_channel = (
+        code_channel if code_channel > 0 else self.channels[full_depth])
 
     # encoder
     self.conv1 = ocnn.modules.OctreeConvBnRelu(
diff --git a/ocnn/models/ounet.py b/ocnn/models/ounet.py
index 0dd81aa..621a850 100644
--- a/ocnn/models/ounet.py
+++ b/ocnn/models/ounet.py
@@ -28,7 +28,7 @@ class OUNet(AutoEncoder):
 
     convs = dict()
     depth, full_depth = self.depth, self.full_depth
-    data = self.get_input_feature(octree)
+    data = octree.get_input_feature(self.feature, nempty=False)
     convs[depth] = self.conv1(data, octree, depth)
     for i, d in enumerate(range(depth, full_depth-1, -1)):
       convs[d] = self.encoder_blks[i](convs[d], octree, d)
-- 
2.43.0

