From be7637b7e507ac36acfe711a82ecd7bb1212120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:31 +0000
Subject: [PATCH 01/29] fix: accept 1-D batch_id in Points so that
 Octree.to_points works

---
 ocnn/octree/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index a23d061..ff54be8 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -63,9 +63,9 @@ class Points:
     if self.batch_id is not None:
       assert self.batch_id.dim() == 2 or self.batch_id.dim() == 1
       assert self.batch_id.size(0) == self.points.size(0)
-      assert self.batch_id.size(1) == 1
       if self.batch_id.dim() == 1:
         self.batch_id = self.batch_id.unsqueeze(1)
+      assert self.batch_id.size(1) == 1
 
   @property
   def npt(self):
-- 
2.43.0


From e02a9d39fd467603019705cefc5e79eb14305d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:05 +0000
Subject: [PATCH 02/29] fix: resize_with_last_val no longer extends the
 caller's (or the default) list

---
 ocnn/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ocnn/utils.py b/ocnn/utils.py
index b1436f7..33bdf2f 100644
--- a/ocnn/utils.py
+++ b/ocnn/utils.py
@@ -173,9 +173,7 @@ def resize_with_last_val(list_in: list, num: int = 3):
   '''
 
   assert (type(list_in) is list and len(list_in) < num + 1)
-  for _ in range(len(list_in), num):
-    list_in.append(list_in[-1])
-  return list_in
+  return list_in + list_in[-1:] * (num - len(list_in))
 
 
 def list2str(list_in: list):
-- 
2.43.0


From d955734ce69edc66896e632bf15dff7322b0b879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:05 +0000
Subject: [PATCH 03/29] fix: OctreeInterp no longer rescales the caller's query
 points in place

---
 ocnn/nn/octree_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index afdfafa..73811af 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -121,7 +121,7 @@ class OctreeInterp(torch.nn.Module):
     # rescale points from [-1, 1] to [0, 2^depth]
     if self.rescale_pts:
       scale = 2 ** (depth - 1)
-      pts[:, :3] = (pts[:, :3] + 1.0) * scale
+      pts = torch.cat([(pts[:, :3] + 1.0) * scale, pts[:, 3:]], dim=1)
 
     return self.func(data, octree, depth, pts, self.nempty, self.bound_check)
 
-- 
2.43.0


From 7beb76219ceca65bad0d70b51c81bacb2307dc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:05 +0000
Subject: [PATCH 04/29] fix: pass nempty to the bottleneck of SegNet

---
 ocnn/models/segnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/models/segnet.py b/ocnn/models/segnet.py
index cedcc90..e6fe642 100644
--- a/ocnn/models/segnet.py
+++ b/ocnn/models/segnet.py
@@ -31,7 +31,8 @@ class SegNet(torch.nn.Module):
     self.pools = torch.nn.ModuleList(
         [ocnn.nn.OctreeMaxPool(nempty, return_indices) for i in range(stages)])
 
-    self.bottleneck = ocnn.modules.OctreeConvBnRelu(channels[-1], channels[-1])
+    self.bottleneck = ocnn.modules.OctreeConvBnRelu(
+        channels[-1], channels[-1], nempty=nempty)
 
     channels = channels_stages[::-1] + [channels_stages[0]]
     self.deconvs = torch.nn.ModuleList(
-- 
2.43.0


From ddc0e45025ae42439d7b7aeb9f543e88a2a96e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:05 +0000
Subject: [PATCH 05/29] fix: OctreeResBlock2 with stride 2 can be constructed

---
 ocnn/modules/resblocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/modules/resblocks.py b/ocnn/modules/resblocks.py
index df6a994..49075a1 100644
--- a/ocnn/modules/resblocks.py
+++ b/ocnn/modules/resblocks.py
@@ -76,7 +76,7 @@ class OctreeResBlock2(torch.nn.Module):
     channelb = int(out_channels / bottleneck)
 
     if self.stride == 2:
-      self.maxpool = OctreeMaxPool(self.depth)
+      self.maxpool = OctreeMaxPool(nempty)
     self.conv3x3a = OctreeConvBnRelu(in_channels, channelb, nempty=nempty)
     self.conv3x3b = OctreeConvBn(channelb, out_channels, nempty=nempty)
     if self.in_channels != self.out_channels:
-- 
2.43.0


From 6752168d5bb54cdd58cbc038268c61d6d0085172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 06/29] fix: OUNet can be constructed and run

---
 ocnn/models/autoencoder.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/ocnn/models/autoencoder.py b/ocnn/models/autoencoder.py
index 82be70e..e6e6333 100644
--- a/ocnn/models/autoencoder.py
+++ b/ocnn/models/autoencoder.py
@@ -23,10 +23,13 @@ class AutoEncoder(torch.nn.Module):
     full_depth (int): The full depth of the octree.
     feature (str): The feature type of the input signal. For details of this
         argument, please refer to :class:`ocnn.modules.InputFeature`.
+    code_channel (int): The channel of the shape code. If it is not positive,
+        the channel of the encoder at the full depth is used.
   '''
 
   def __init__(self, channel_in: int, channel_out: int, depth: int,
-               full_depth: int = 2, feature: str = 'ND'):
+               full_depth: int = 2, feature: str = 'ND',
+               code_channel: int = 64):
     super().__init__()
     self.channel_in = channel_in
     self.channel_out = channel_out
@@ -34,8 +37,10 @@ class AutoEncoder(torch.nn.Module):
     self.full_depth = full_depth
     self.feature = feature
     self.resblk_num = 2
-    self.code_channel = 64  # dim-of-code = code_channel * 2**(3*full_depth)
     self.channels = [512, 512, 256, 256, 128, 128, 32, 32, 16, 16]
+    if code_channel <= 0:
+      code_channel = self.channels[full_depth]
+    self.code_channel = code_channel  # dim-of-code = code_channel * 2**(3*full_depth)
 
     # encoder
     self.conv1 = ocnn.modules.OctreeConvBnRelu(
@@ -68,14 +73,21 @@ class AutoEncoder(torch.nn.Module):
         ocnn.modules.Conv1x1BnRelu(channel_in, num_hidden),
         ocnn.modules.Conv1x1(num_hidden, channel_out, use_bias=True))
 
+  def get_input_feature(self, octree: Octree):
+    r''' Returns the input feature of the octree.
+    '''
+
+    data = octree.get_input_feature(self.feature, nempty=False)
+    assert data.size(1) == self.channel_in
+    return data
+
   def encoder(self, octree: Octree):
     r''' The encoder network of the AutoEncoder.
     '''
 
     convs = dict()
     depth, full_depth = self.depth, self.full_depth
-    data = octree.get_input_feature(self.feature, nempty=False)
-    assert data.size(1) == self.channel_in
+    data = self.get_input_feature(octree)
     convs[depth] = self.conv1(data, octree, depth)
     for i, d in enumerate(range(depth, full_depth-1, -1)):
       convs[d] = self.encoder_blks[i](convs[d], octree, d)
-- 
2.43.0


From 63bbbbff95a6cb4e44250240747932637ea73926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:53 +0000
Subject: [PATCH 07/29] fix: Points.to keeps the batch size

---
 ocnn/octree/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index ff54be8..e51293c 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -239,7 +239,8 @@ class Points:
       return self
 
     # Construct a new Points on the specified device
-    points = Points(torch.zeros(1, 3, device=device))
+    points = Points(torch.zeros(1, 3, device=device),
+                    batch_size=self.batch_size)
     points.batch_npt = self.batch_npt
     points.points = self.points.to(device, non_blocking=non_blocking)
     if self.normals is not None:
-- 
2.43.0


From 1b6bc837cab3c3bfb04ffcaf5da22c46484b5ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:53 +0000
Subject: [PATCH 08/29] fix: Transform.preprocess no longer consumes the stored
 sample

---
 ocnn/dataset.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ocnn/dataset.py b/ocnn/dataset.py
index 55c615b..eac8b03 100644
--- a/ocnn/dataset.py
+++ b/ocnn/dataset.py
@@ -69,10 +69,13 @@ class Transform:
     transformations, like normalization.
     '''
 
-    xyz = torch.from_numpy(sample.pop('points'))
-    normals = torch.from_numpy(sample.pop('normals'))
-    sample['points'] = Points(xyz, normals)
-    return sample
+    # Make a new dictionary: the sample may be cached and loaded again.
+    output = {key: val for key, val in sample.items()
+              if key not in ('points', 'normals')}
+    xyz = torch.from_numpy(sample['points'])
+    normals = torch.from_numpy(sample['normals'])
+    output['points'] = Points(xyz, normals)
+    return output
 
   def transform(self, sample: dict, idx: int):
     r''' Applies the general transformations provided by :obj:`ocnn`.
-- 
2.43.0


From 6b73c691c683827f8f7542ab1a9d92a42c1e7136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:20 +0000
Subject: [PATCH 09/29] fix: Points.flip and orient_normal leave the source
 arrays intact

---
 ocnn/octree/points.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index e51293c..ad9ece5 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -89,7 +89,7 @@ class Points:
       flags = flags.float() * 2.0 - 1.0  # [0, 1] -> [-1, 1]
       self.normals = self.normals * flags.unsqueeze(1)
     else:
-      self.normals.abs_()
+      self.normals = self.normals.abs()
 
   def scale(self, factor: torch.Tensor):
     r''' Rescales the point cloud.
@@ -148,6 +148,11 @@ class Points:
       axis (str): The flipping axis, choosen from :obj:`x`, :obj:`y`, and :obj`z`.
     '''
 
+    # Clone first: the tensors may share memory with the source data.
+    self.points = self.points.clone()
+    if self.normals is not None:
+      self.normals = self.normals.clone()
+
     axis_map = {'x': 0, 'y': 1, 'z': 2}
     for x in axis:
       idx = axis_map[x]
-- 
2.43.0


From 9dd755b5a07d83abcf6a45f9e584f5515fdcc00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:42 +0000
Subject: [PATCH 10/29] fix: Transform.rnd_parameters accepts float angles and
 intervals

---
 ocnn/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/dataset.py b/ocnn/dataset.py
index eac8b03..babd39d 100644
--- a/ocnn/dataset.py
+++ b/ocnn/dataset.py
@@ -112,7 +112,7 @@ class Transform:
 
     rnd_angle = [None] * 3
     for i in range(3):
-      rot_num = self.angle[i] // self.interval[i]
+      rot_num = int(self.angle[i] // self.interval[i])
       rnd = torch.randint(low=-rot_num, high=rot_num+1, size=(1,))
       rnd_angle[i] = rnd * self.interval[i] * (3.14159265 / 180.0)
     rnd_angle = torch.cat(rnd_angle)
-- 
2.43.0


From 350ec80f583ff08ad204f688a44395f247f271b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:45 +0000
Subject: [PATCH 11/29] fix: scannet autocontrast leaves a constant colour
 channel finite

---
 projects/datascts/scannet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/datascts/scannet.py b/projects/datascts/scannet.py
index 8427a33..95bec3d 100644
--- a/projects/datascts/scannet.py
+++ b/projects/datascts/scannet.py
@@ -26,8 +26,9 @@ def color_distort(color, trans_range_ratio, jitter_std):
     hi = color[:, :3].max(0, keepdims=True)
     assert hi.max() > 1
 
-    scale = 255 / (hi - lo)
-    contrast_feats = (color[:, :3] - lo) * scale
+    # a constant channel has no contrast to stretch
+    scale = 255 / np.where(hi > lo, hi - lo, 1)
+    contrast_feats = np.where(hi > lo, (color[:, :3] - lo) * scale, color[:, :3])
 
     blend_factor = random.random()
     color[:, :3] = (1 - blend_factor) * color + blend_factor * contrast_feats
-- 
2.43.0


From a347ab47874aef32621ffbd228ab5b70bca3c0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:32 +0000
Subject: [PATCH 12/29] fix: OctreeDropPath never scales a sample twice for
 tiny probabilities

---
 ocnn/nn/octree_drop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_drop.py b/ocnn/nn/octree_drop.py
index 88a2485..1a983c4 100644
--- a/ocnn/nn/octree_drop.py
+++ b/ocnn/nn/octree_drop.py
@@ -40,7 +40,8 @@ class OctreeDropPath(torch.nn.Module):
     batch_size = octree.batch_size
     keep_prob = 1 - self.drop_prob
     rnd_tensor = torch.rand(batch_size, 1, dtype=data.dtype, device=data.device)
-    rnd_tensor = torch.floor(rnd_tensor + keep_prob)
+    # the sum may round up to 2.0 if `drop_prob` is tiny
+    rnd_tensor = torch.floor(rnd_tensor + keep_prob).clamp_(max=1.0)
     if keep_prob > 0.0 and self.scale_by_keep:
       rnd_tensor.div_(keep_prob)
 
-- 
2.43.0


From 016ad9f3fb0602861eecc20df86fc3a1371c8ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:37 +0000
Subject: [PATCH 13/29] fix: eval_step of segmentation predicts every point
 whatever its label

---
 projects/segmentation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/projects/segmentation.py b/projects/segmentation.py
index 8e7e0a4..11b80c9 100644
--- a/projects/segmentation.py
+++ b/projects/segmentation.py
@@ -67,13 +67,15 @@ class SegSolver(Solver):
       batch['octree'] = octree
     return batch
 
-  def model_forward(self, batch):
+  def get_logit(self, batch):
     octree, points = batch['octree'], batch['points']
     data = self.get_input_feature(octree)
     query_pts = torch.cat([points.points, points.batch_id], dim=1)
+    return self.model(data, octree, octree.depth, query_pts)
 
-    logit = self.model(data, octree, octree.depth, query_pts)
-    labels = points.labels.squeeze(1)
+  def model_forward(self, batch):
+    logit = self.get_logit(batch)
+    labels = batch['points'].labels.squeeze(1)
     label_mask = labels > self.FLAGS.LOSS.mask  # filter labels
     return logit[label_mask], labels[label_mask]
 
@@ -102,7 +104,7 @@ class SegSolver(Solver):
   def eval_step(self, batch):
     batch = self.process_batch(batch, self.FLAGS.DATA.test)
     with torch.no_grad():
-      logit, _ = self.model_forward(batch)
+      logit = self.get_logit(batch)  # predict all points, whatever their labels
     prob = torch.nn.functional.softmax(logit, dim=1)
 
     # split predictions
-- 
2.43.0


From 3736909c6319c9ba8f3240a02648c5b8eea42414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:20 +0000
Subject: [PATCH 14/29] fix: ranks sharing a log folder no longer race to
 create output folders

---
 projects/image2shape.py  | 2 +-
 projects/segmentation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/image2shape.py b/projects/image2shape.py
index 70fe921..497ec1a 100644
--- a/projects/image2shape.py
+++ b/projects/image2shape.py
@@ -49,7 +49,7 @@ class Image2ShapeSolver(AutoEncoderSolver):
       filename_img = os.path.join(self.logdir, filename + '.img.png')
       filename_out = os.path.join(self.logdir, filename + '.out.xyz')
       folder = os.path.dirname(filename_img)
-      if not os.path.exists(folder): os.makedirs(folder)
+      os.makedirs(folder, exist_ok=True)
 
       # NOTE: it consumes much time to save point clouds to hard disks
       image_pil = ToPILImage()(image[i])  # convert to PIL image
diff --git a/projects/segmentation.py b/projects/segmentation.py
index 11b80c9..61fdba0 100644
--- a/projects/segmentation.py
+++ b/projects/segmentation.py
@@ -131,7 +131,7 @@ class SegSolver(Solver):
       if self.FLAGS.SOLVER.eval_epoch - 1 == batch['epoch']:
         full_filename = os.path.join(self.logdir, filename[:-4] + '.eval.npz')
         curr_folder = os.path.dirname(full_filename)
-        if not os.path.exists(curr_folder): os.makedirs(curr_folder)
+        os.makedirs(curr_folder, exist_ok=True)
         np.savez(full_filename, prob=self.eval_rst[filename].cpu().numpy())
 
   def result_callback(self, avg_tracker, epoch):
-- 
2.43.0


From f4d292d8ffd9e549a1522c6bd1872fcb4902c540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:45 +0000
Subject: [PATCH 15/29] fix: generated shapes whose names contain dots no
 longer overwrite each other

---
 projects/autoencoder.py | 9 +++++++--
 projects/image2shape.py | 3 +--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/projects/autoencoder.py b/projects/autoencoder.py
index dda05f3..673d4ab 100644
--- a/projects/autoencoder.py
+++ b/projects/autoencoder.py
@@ -76,8 +76,7 @@ class AutoEncoderSolver(Solver):
     points_in = batch['points']
     filenames = batch['filename']
     for i, filename in enumerate(filenames):
-      pos = filename.rfind('.')
-      if pos != -1: filename = filename[:pos]  # remove the suffix
+      filename = self.remove_suffix(filename)
       filename_in = os.path.join(self.logdir, filename + '.in.xyz')
       filename_out = os.path.join(self.logdir, filename + '.out.xyz')
       os.makedirs(os.path.dirname(filename_in), exist_ok=True)
@@ -86,6 +85,12 @@ class AutoEncoderSolver(Solver):
       points_in[i].save(filename_in)
       np.savetxt(filename_out, points_out[i].cpu().numpy(), fmt='%.6f')
 
+  def remove_suffix(self, filename: str):
+    # NOTE: only remove the suffix of point clouds. The filenames may contain
+    # other dots, by which different samples must not be mixed up
+    name, suffix = os.path.splitext(filename)
+    return name if suffix in ('.ply', '.npz') else filename
+
   def octree2pts(self, octree: Octree):
     depth = octree.depth
     batch_size = octree.batch_size
diff --git a/projects/image2shape.py b/projects/image2shape.py
index 497ec1a..a1d88a0 100644
--- a/projects/image2shape.py
+++ b/projects/image2shape.py
@@ -44,8 +44,7 @@ class Image2ShapeSolver(AutoEncoderSolver):
     # save the output point clouds
     filenames = batch['filename']
     for i, filename in enumerate(filenames):
-      pos = filename.rfind('.')
-      if pos != -1: filename = filename[:pos]  # remove the suffix
+      filename = self.remove_suffix(filename)
       filename_img = os.path.join(self.logdir, filename + '.img.png')
       filename_out = os.path.join(self.logdir, filename + '.out.xyz')
       folder = os.path.dirname(filename_img)
-- 
2.43.0


From bf38539bbeba8066082893d6f3b0f5c088834d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:00 +0000
Subject: [PATCH 16/29] fix: merge chunks with ids of several digits into their
 own scan

---
 projects/tools/seg_scannet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/tools/seg_scannet.py b/projects/tools/seg_scannet.py
index 87f6951..302bb37 100644
--- a/projects/tools/seg_scannet.py
+++ b/projects/tools/seg_scannet.py
@@ -281,7 +281,7 @@ def generate_output_seg():
       prob1 = np.zeros([mask.shape[0], prob0.shape[1]])
       prob1[mask] = prob0
       prob0 = prob1                       # update prob0
-      filename_scan = filename_scan[:-8]  # remove '.chunk_x'
+      filename_scan = filename_scan[:filename_scan.rfind('.chunk_')]
 
     probs[filename_scan] = probs.get(filename_scan, 0) + prob0
 
-- 
2.43.0


From 0658a5423f66443827543c355d994019427b84fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:20 +0000
Subject: [PATCH 17/29] fix: report predictions that do not match their mask or
 scan

---
 projects/tools/seg_scannet.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/projects/tools/seg_scannet.py b/projects/tools/seg_scannet.py
index 302bb37..7bfe716 100644
--- a/projects/tools/seg_scannet.py
+++ b/projects/tools/seg_scannet.py
@@ -278,12 +278,18 @@ def generate_output_seg():
     if 'chunk' in filename_scan:
       filename_mask = filename_scan + '.mask.npy'
       mask = np.load(os.path.join(args.path_in, filename_mask))
+      if np.sum(mask) != prob0.shape[0]:  # a single row would be broadcast
+        raise ValueError('Mismatched mask and prediction: ' + filename_scan)
       prob1 = np.zeros([mask.shape[0], prob0.shape[1]])
       prob1[mask] = prob0
       prob0 = prob1                       # update prob0
       filename_scan = filename_scan[:filename_scan.rfind('.chunk_')]
 
-    probs[filename_scan] = probs.get(filename_scan, 0) + prob0
+    if filename_scan not in probs:
+      probs[filename_scan] = 0
+    elif probs[filename_scan].shape != prob0.shape:
+      raise ValueError('Mismatched predictions: ' + filename_scan)
+    probs[filename_scan] = probs[filename_scan] + prob0
 
   # output
   os.makedirs(args.path_out, exist_ok=True)
-- 
2.43.0


From c94c0e8eca9bb26c62b4390311dbf8091cb9fecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:31 +0000
Subject: [PATCH 18/29] fix: seg_shapenet no longer downloads a second archive
 when rerun

---
 projects/tools/seg_shapenet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/tools/seg_shapenet.py b/projects/tools/seg_shapenet.py
index 086b217..9156288 100644
--- a/projects/tools/seg_shapenet.py
+++ b/projects/tools/seg_shapenet.py
@@ -51,7 +51,8 @@ def download_shapenet_segmentation():
     os.makedirs(root_folder)
   url = 'https://shapenet.cs.stanford.edu/media/' + zip_name + '.zip'
   filename = os.path.join(root_folder, zip_name + '.zip')
-  wget.download(url, filename)
+  if not os.path.exists(filename):
+    wget.download(url, filename)
 
   # unzip
   with zipfile.ZipFile(filename, 'r') as zip_ref:
-- 
2.43.0


From e5105a9396a13c813d229b19d0d8a3673e7c445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:58 +0000
Subject: [PATCH 19/29] fix: process_scannet no longer keeps the torn output of
 a killed run

---
 projects/tools/seg_scannet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projects/tools/seg_scannet.py b/projects/tools/seg_scannet.py
index 7bfe716..7c591fb 100644
--- a/projects/tools/seg_scannet.py
+++ b/projects/tools/seg_scannet.py
@@ -250,9 +250,11 @@ def process_scannet():
         label_new = label_dict[label]
         pointcloud[:, -1] = label_new
 
-      # save the file
+      # save the file, `filename_out` exists only after it is complete
       save_file = save_ply if args.suffix_out == '.ply' else save_npz
-      save_file(pointcloud, filename_out)
+      filename_tmp = filename_out + '.tmp' + args.suffix_out
+      save_file(pointcloud, filename_tmp)
+      os.replace(filename_tmp, filename_out)
       tqdm.write('Save: %s' % filename_out)
 
 
-- 
2.43.0


From e68a240506cac7777486d53811715167a727c85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:46 +0000
Subject: [PATCH 20/29] fix: cls_modelnet no longer loses a mesh when killed
 while cleaning it

---
 projects/tools/cls_modelnet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projects/tools/cls_modelnet.py b/projects/tools/cls_modelnet.py
index b062eef..5eb83ae 100644
--- a/projects/tools/cls_modelnet.py
+++ b/projects/tools/cls_modelnet.py
@@ -65,8 +65,11 @@ def _clean_off_file(filename):
   elif file_str[0:4] != 'OFF\n':
     print('Info: fix an OFF file: ' + filename)
     new_str = file_str[0:3] + '\n' + file_str[3:]
-    with open(filename, 'w') as f_rewrite:
+    # the original file is intact until the fixed file is complete
+    filename_tmp = filename + '.tmp'
+    with open(filename_tmp, 'w') as f_rewrite:
       f_rewrite.write(new_str)
+    os.replace(filename_tmp, filename)
 
 
 def _get_point_folder():
-- 
2.43.0


From a517a15bdf4cd496f6eee4c09e8930af85ce7461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:22 +0000
Subject: [PATCH 21/29] fix: upgrade_ckpt renames the shortcuts of
 OctreeResBlock2 correctly

---
 projects/tools/upgrade_ckpt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/tools/upgrade_ckpt.py b/projects/tools/upgrade_ckpt.py
index 8b33d35..d0a319d 100644
--- a/projects/tools/upgrade_ckpt.py
+++ b/projects/tools/upgrade_ckpt.py
@@ -20,7 +20,9 @@ for key, val in weights.items():
 
   elif 'conv1x1.weight' in key:
     if 'conv1x1.conv1x1' in key:
-      new_key = key.replace('conv1x1.conv1x1', 'conv.linear')
+      # NOTE: replace the last match, the shortcut of `OctreeResBlock2` itself is
+      # named as `conv1x1`, i.e. `conv1x1.conv1x1.conv1x1.weight`
+      new_key = 'conv.linear'.join(key.rsplit('conv1x1.conv1x1', 1))
     else:
       new_key = key.replace('conv1x1', 'linear')
     upgrade[new_key] = val.squeeze(2)
-- 
2.43.0


From c9c762aca20750d130ec6814cb0739a6d17a4f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:13 +0000
Subject: [PATCH 22/29] fix: semantic_kitti reports incomplete scans and labels
 that do not match

---
 projects/datascts/semantic_kitti.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/projects/datascts/semantic_kitti.py b/projects/datascts/semantic_kitti.py
index 1b7b0e8..387699a 100644
--- a/projects/datascts/semantic_kitti.py
+++ b/projects/datascts/semantic_kitti.py
@@ -73,12 +73,20 @@ class KittiTransform(Transform):
     return {'points': points}
 
 
+def read_array(filename, dtype):
+  # unlike np.fromfile, it raises for read errors and incomplete items
+  with open(filename, 'rb') as fid:
+    return np.frombuffer(fid.read(), dtype).copy()
+
+
 def read_file(filename):
-  points = np.fromfile(filename, dtype=np.float32).reshape(-1, 4)
+  points = read_array(filename, np.float32).reshape(-1, 4)
 
   label_name = filename.replace('velodyne', 'labels').replace('.bin', '.label')
   if os.path.exists(label_name):
-    labels = np.fromfile(label_name, dtype=np.int32).reshape(-1)
+    labels = read_array(label_name, np.int32)
+    if labels.shape[0] != points.shape[0]:
+      raise ValueError('The labels do not match the points: ' + label_name)
   else:
     labels = np.zeros((points.shape[0],), dtype=np.int32)
 
-- 
2.43.0


From d93376ed969ebd5036704e61552fe84a9cfde007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:45 +0000
Subject: [PATCH 23/29] fix: save_points_to_ply accepts bare filenames and
 concurrent savers

---
 projects/tools/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/tools/utils.py b/projects/tools/utils.py
index 6095dd0..03c7180 100644
--- a/projects/tools/utils.py
+++ b/projects/tools/utils.py
@@ -35,6 +35,6 @@ def save_points_to_ply(filename: str, points: np.ndarray,
   el = PlyElement.describe(structured_array, 'vertex')
 
   folder = os.path.dirname(filename)
-  if not os.path.exists(folder):
-    os.makedirs(folder)
+  if folder:
+    os.makedirs(folder, exist_ok=True)
   PlyData([el], text).write(filename)
-- 
2.43.0


From 9c225293c2d8535a2db7807cc37c37f49ab2885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:29 +0000
Subject: [PATCH 24/29] fix: stop the ScanNet script when one of its programs
 fails

The labels and the score were computed from whatever an earlier or
unfinished run had left.
---
 projects/scripts/run_seg_scannet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/scripts/run_seg_scannet.py b/projects/scripts/run_seg_scannet.py
index 239bbb1..f5175ad 100644
--- a/projects/scripts/run_seg_scannet.py
+++ b/projects/scripts/run_seg_scannet.py
@@ -20,7 +20,8 @@ args = parser.parse_args()
 def execute_command(cmds):
   cmd = ' '.join(cmds)
   print('Execute: \n' + cmd + '\n')
-  os.system(cmd)
+  if os.system(cmd) != 0:
+    raise RuntimeError('Failed: ' + cmd)
 
 
 def train():
-- 
2.43.0


From 000391d1b6657a4abb0f543cd49139bee882bbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:29 +0000
Subject: [PATCH 25/29] fix: stop the ShapeNet benchmark when a training fails

The summary reported the score of the unfinished training as that of
the category.
---
 projects/scripts/run_seg_shapenet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/scripts/run_seg_shapenet.py b/projects/scripts/run_seg_shapenet.py
index 6514eae..beb5905 100644
--- a/projects/scripts/run_seg_shapenet.py
+++ b/projects/scripts/run_seg_shapenet.py
@@ -82,7 +82,8 @@ for i in range(len(ratios)):
 
     cmd = ' '.join(cmds)
     print('\n', cmd, '\n')
-    os.system(cmd)
+    if os.system(cmd) != 0:
+      raise RuntimeError('Failed: ' + cmd)
 
 summary = []
 summary.append('names, ' + ', '.join(names) + ', C.mIoU, I.mIoU')
-- 
2.43.0


From b3350852ec00f852a8ac2246ab594594257238b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:19 +0000
Subject: [PATCH 26/29] fix: OctreeUpsample no longer mixes values of the far
 side into border nodes

---
 ocnn/nn/octree_interp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index 73811af..82038fc 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -187,7 +187,8 @@ class OctreeUpsample(torch.nn.Module):
     xyzb = octree.xyzb(target_depth, self.nempty)
     pts = torch.stack(xyzb, dim=1).float()
     pts[:, :3] = (pts[:, :3] + 0.5) * (2**(depth - target_depth))  # !!! rescale
-    return self.func(data, octree, depth, pts, self.nempty)
+    # the neighbors of border nodes may be out of the volume
+    return self.func(data, octree, depth, pts, self.nempty, bound_check=True)
 
   def extra_repr(self) -> str:
     r''' Sets the extra representation of the module.
-- 
2.43.0


From 1939bbb4cace34e5864d6f7e6e250814d7d94a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:19 +0000
Subject: [PATCH 27/29] fix: interpolation, alignment and average pooling
 accept any floating type

---
 ocnn/nn/octree_align.py  | 3 ++-
 ocnn/nn/octree_interp.py | 2 +-
 ocnn/nn/octree_pool.py   | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocnn/nn/octree_align.py b/ocnn/nn/octree_align.py
index ec3bc74..3cc5966 100644
--- a/ocnn/nn/octree_align.py
+++ b/ocnn/nn/octree_align.py
@@ -30,7 +30,8 @@ def search_value(value: torch.Tensor, key: torch.Tensor, query: torch.Tensor):
   found = key[idx] == query
 
   # assign the found value to the output
-  out = torch.zeros(query.shape[0], value.shape[1], device=value.device)
+  out = torch.zeros(
+      query.shape[0], value.shape[1], device=value.device, dtype=value.dtype)
   out[found] = value[idx[found]]
   return out
 
diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index 82038fc..4df7785 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -86,7 +86,7 @@ def octree_linear_pts(data: torch.Tensor, octree: Octree, depth: int,
 
   frac = (1.0 - grid) - frac.unsqueeze(dim=1)  # (8, 3) - (N, 1, 3) -> (N, 8, 3)
   weight = frac.prod(dim=2).abs().view(-1)     # (8*N,)
-  weight = weight[valid]
+  weight = weight[valid].to(data.dtype)
 
   h = data.shape[0]
   mat = torch.sparse_coo_tensor(indices, weight, [npt, h], device=device)
diff --git a/ocnn/nn/octree_pool.py b/ocnn/nn/octree_pool.py
index c4c6f75..73bc9df 100644
--- a/ocnn/nn/octree_pool.py
+++ b/ocnn/nn/octree_pool.py
@@ -89,7 +89,7 @@ def octree_avg_pool(data: torch.Tensor, octree: Octree, depth: int,
   val = 1.0 / (torch.sum(mask, dim=1) + 1e-8)
   mask = mask.view(-1)
   val = val.unsqueeze(1).repeat(1, K).reshape(-1)
-  val = val[mask]
+  val = val[mask].to(data.dtype)
 
   row = torch.arange(N2, device=neigh.device)
   row = row.unsqueeze(1).repeat(1, K).view(-1)
-- 
2.43.0


From 17e1e15cbf21ba7fe3f6665c516efefc6f5ecbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:19 +0000
Subject: [PATCH 28/29] fix: xyz2key accepts an integer batch index

---
 ocnn/octree/shuffled_key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/shuffled_key.py b/ocnn/octree/shuffled_key.py
index 449d882..3ac2348 100644
--- a/ocnn/octree/shuffled_key.py
+++ b/ocnn/octree/shuffled_key.py
@@ -84,7 +84,7 @@ def xyz2key(x: torch.Tensor, y: torch.Tensor, z: torch.Tensor,
     key = key16 << 24 | key
 
   if b is not None:
-    b = b.long()
+    b = b.long() if isinstance(b, torch.Tensor) else b
     key = b << 48 | key
 
   return key
-- 
2.43.0


From 2b0736abbd0fdafa5ce27f2d0c9cfe759a50e5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:24 +0000
Subject: [PATCH 29/29] fix: generate_chunks covers scans that do not begin at
 the origin

---
 projects/tools/seg_scannet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/tools/seg_scannet.py b/projects/tools/seg_scannet.py
index 7c591fb..1d0c09e 100644
--- a/projects/tools/seg_scannet.py
+++ b/projects/tools/seg_scannet.py
@@ -195,7 +195,7 @@ def generate_chunks(filename, point_cloud, cropsize=10.0, stride=5.0):
   chunk_id = 0
   min_size = 3000
   chunk_num = np.ceil(np.maximum(
-      bbmax - cropsize, 0) / stride).astype(np.int32) + 1
+      bbox - cropsize, 0) / stride).astype(np.int32) + 1
   for i in range(chunk_num[0]):
     for j in range(chunk_num[1]):
       for k in range(chunk_num[2]):
-- 
2.43.0

