From ee49725cad128ddccaef8f9a86659fc871e24f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:19 +0000
Subject: [PATCH 001/102] fix: int128 axis arguments: any negative axis, and
 stacking along a new last axis

---
 tf_encrypted/tensor/int128.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 9e7abe5..a41e979 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -159,7 +159,7 @@ def int128_factory():  # pylint: disable=invalid-name
 
         def stack(self, xs: list, axis: int = 0):
             assert all(isinstance(x, Tensor) for x in xs)
-            axis = _lift_axis(axis, len(xs[0].shape))
+            axis = _lift_axis(axis, len(xs[0].shape) + 1)
 
             value = tf.stack([x.value for x in xs], axis=axis)
             return Tensor(value)
@@ -244,19 +244,11 @@ def int128_factory():  # pylint: disable=invalid-name
 
     def _lift_axis(axis, dims):
         if isinstance(axis, (list, tuple)):
-            new_axis = []
-            for a in axis:
-                if a == -1:
-                    new_axis.append(dims - 1)
-                else:
-                    assert a < dims, "# dimensions: {}, got axis: {}".format(dims, axis)
-                    new_axis.append(a)
-            return new_axis
-        if axis == -1:
-            return dims - 1
-        if axis is not None:
-            assert axis < dims, "# dimensions: {}, got axis: {}".format(dims, axis)
-        return axis
+            return [_lift_axis(a, dims) for a in axis]
+        if axis is None:
+            return axis
+        assert -dims <= axis < dims, "# dimensions: {}, got axis: {}".format(dims, axis)
+        return axis + dims if axis < 0 else axis
 
     FACTORY = Factory()  # pylint: disable=invalid-name
 
-- 
2.43.0


From edd7dfae02a1d031d2bd7f0ddd6200b60128248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:19 +0000
Subject: [PATCH 002/102] fix: int128 squeeze without an axis

---
 tf_encrypted/tensor/int128.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index a41e979..a22d3ee 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -500,6 +500,11 @@ def int128_factory():  # pylint: disable=invalid-name
             return Tensor(tf.expand_dims(self.value, axis))
 
         def squeeze(self, axis: Optional[List[int]] = None):
+            if axis is None:
+                # never squeeze the limb dimension
+                axis = [i for i, d in enumerate(self.shape.as_list()) if d == 1]
+                if not axis:
+                    return self.identity()
             axis = _lift_axis(axis, len(self.shape))
             return Tensor(tf.squeeze(self.value, axis=axis))
 
-- 
2.43.0


From 18ccc66c04046c96f80ac7123886f97ef79ebe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:19 +0000
Subject: [PATCH 003/102] fix: int128 indexing with an ellipsis must not index
 the limbs

---
 tf_encrypted/tensor/int128.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index a22d3ee..e203beb 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -336,6 +336,10 @@ def int128_factory():  # pylint: disable=invalid-name
             return self.negative()
 
         def __getitem__(self, slc):
+            slc = slc if isinstance(slc, tuple) else (slc,)
+            if any(s is Ellipsis for s in slc):
+                # keep the ellipsis from counting the limb dimension
+                slc = slc + (slice(None),)
             return Tensor(self.value[slc])
 
         def add(self, other):
-- 
2.43.0


From fda18fde2f24d2e422ce43b3d10e79bed0fc40eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:19 +0000
Subject: [PATCH 004/102] fix: pad of native and int128 factories passed the
 paddings to the wrong call

---
 tf_encrypted/tensor/int128.py | 2 +-
 tf_encrypted/tensor/native.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index e203beb..15a664a 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -190,7 +190,7 @@ def int128_factory():  # pylint: disable=invalid-name
 
         def pad(self, tensor, paddings):
             paddings = paddings + [[0, 0]]
-            return Tensor(tf.pad(tensor.value), paddings)
+            return Tensor(tf.pad(tensor.value, paddings))
 
         def ones_like(self, x: "Tensor"):
             return self.ones(x.shape)
diff --git a/tf_encrypted/tensor/native.py b/tf_encrypted/tensor/native.py
index 44171b0..d83f76f 100644
--- a/tf_encrypted/tensor/native.py
+++ b/tf_encrypted/tensor/native.py
@@ -224,7 +224,7 @@ def native_factory(
             return Tensor(tf.ones(shape, self.native_type))
 
         def pad(self, tensor, paddings):
-            return Tensor(tf.pad(tensor.value), paddings)
+            return Tensor(tf.pad(tensor.value, paddings))
 
         def ones_like(self, x: "Tensor"):
             return self.ones(x.shape)
-- 
2.43.0


From ac09b712fb5602b1544d5d2417c7095bc0ef53e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:19 +0000
Subject: [PATCH 005/102] fix: patches2im mixed up height and width

---
 tf_encrypted/tensor/shared.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/tensor/shared.py b/tf_encrypted/tensor/shared.py
index ae8817b..9f68ef8 100644
--- a/tf_encrypted/tensor/shared.py
+++ b/tf_encrypted/tensor/shared.py
@@ -103,16 +103,16 @@ def patches2im(
         patches = patches.reshape((bs, -1, ps_h, ps_w, col_ch))
 
         # Recalculate output shape of "extract_image_patches" including padded pixels
-        wout = (_w - 1) * strides[0] + ps_w
+        wout = (_w - 1) * strides[1] + ps_w
         # Recalculate output shape of "extract_image_patches" including padded pixels
-        hout = (_h - 1) * strides[1] + ps_h
+        hout = (_h - 1) * strides[0] + ps_h
 
         x, y = tf.meshgrid(tf.range(ps_w), tf.range(ps_h))
         x = tf.reshape(x, (1, 1, ps_h, ps_w, 1, 1))
         y = tf.reshape(y, (1, 1, ps_h, ps_w, 1, 1))
         xstart, ystart = tf.meshgrid(
-            tf.range(0, (wout - ps_w) + 1, strides[0]),
-            tf.range(0, (hout - ps_h) + 1, strides[1]),
+            tf.range(0, (wout - ps_w) + 1, strides[1]),
+            tf.range(0, (hout - ps_h) + 1, strides[0]),
         )
 
         bb = tf.zeros((1, np, ps_h, ps_w, col_ch, 1), dtype=tf.int32) + tf.reshape(
@@ -174,7 +174,7 @@ def patches2im(
 
             if img_w > wout:
                 reconstructed_img = reconstructed_img.factory.pad(
-                    reconstructed_img, [[0, 0], [0, 0], [0, img_w - hout], [0, 0]]
+                    reconstructed_img, [[0, 0], [0, 0], [0, img_w - wout], [0, 0]]
                 )
             elif img_w < wout:
                 pad_left = (wout - img_w) // 2
-- 
2.43.0


From 68704f7398fa84fdd419b8380d5724da1b2b1c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:19 +0000
Subject: [PATCH 006/102] fix: native factory zeros returned ones

---
 tf_encrypted/tensor/native.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/native.py b/tf_encrypted/tensor/native.py
index d83f76f..cc97af9 100644
--- a/tf_encrypted/tensor/native.py
+++ b/tf_encrypted/tensor/native.py
@@ -221,7 +221,7 @@ def native_factory(
         def zeros(self, shape):
             if not isinstance(shape, (list, tuple, TensorShape)):
                 raise TypeError("shape must be a list or tuple of integers")
-            return Tensor(tf.ones(shape, self.native_type))
+            return Tensor(tf.zeros(shape, self.native_type))
 
         def pad(self, tensor, paddings):
             return Tensor(tf.pad(tensor.value, paddings))
-- 
2.43.0


From 57e207262206d8612a231859ddf353d6144fd5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 007/102] fix: to_private overwrote the cached zero tensor

---
 tf_encrypted/protocol/aby3/aby3_tensors.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3_tensors.py b/tf_encrypted/protocol/aby3/aby3_tensors.py
index c75d12f..25872f6 100644
--- a/tf_encrypted/protocol/aby3/aby3_tensors.py
+++ b/tf_encrypted/protocol/aby3/aby3_tensors.py
@@ -487,10 +487,12 @@ class ABY3PublicTensor(ABY3Tensor, TFEPublicTensor):
 
     def to_private(self, share_type):
         factory = self.backing_dtype
-        result = self.prot.zeros(self.shape, self.is_scaled, share_type, factory)
-        result.unwrapped[0][0] = self.values[0]
-        result.unwrapped[2][1] = self.values[2]
-        return result
+        zeros = self.prot.zeros(self.shape, self.is_scaled, share_type, factory)
+        # zeros are cached, so do not write into them
+        shares = [list(pair) for pair in zeros.unwrapped]
+        shares[0][0] = self.values[0]
+        shares[2][1] = self.values[2]
+        return ABY3PrivateTensor(self.prot, shares, self.is_scaled, share_type)
 
 
 class ABY3Constant(ABY3PublicTensor):
-- 
2.43.0


From ae79d0d83f4cf9c7e959bc935eea47e386e98d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 008/102] fix: ABY3 add/sub of a private tensor and a larger
 public one

---
 tf_encrypted/protocol/aby3/aby3.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 4926c5b..52597e3 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2159,6 +2159,17 @@ def _add_private_private(prot, x, y):
     return ABY3PrivateTensor(prot, z, x.is_scaled, x.share_type)
 
 
+def _broadcast_private(prot, x, y):
+    """Locally broadcasts all shares of private `x` to its combined shape with `y`."""
+    if not (x.shape.is_fully_defined() and y.shape.is_fully_defined()):
+        return x
+    shape = tf.broadcast_static_shape(x.shape, y.shape)
+    if shape == x.shape:
+        return x
+    zeros = prot.zeros(shape, x.is_scaled, x.share_type, x.backing_dtype)
+    return _add_private_private(prot, x, zeros)
+
+
 def _add_private_public(prot, x, y):
     assert isinstance(x, ABY3PrivateTensor), type(x)
     assert isinstance(y, ABY3PublicTensor), type(y)
@@ -2166,7 +2177,7 @@ def _add_private_public(prot, x, y):
         "Cannot mix different encodings: " "{} {}"
     ).format(x.is_scaled, y.is_scaled)
 
-    shares = x.unwrapped
+    shares = _broadcast_private(prot, x, y).unwrapped
     y_on_0, _, y_on_2 = y.unwrapped
 
     z = [[None] * 2 for _ in range(3)]
@@ -2194,7 +2205,7 @@ def _add_public_private(prot, x, y):
     ).format(x.is_scaled, y.is_scaled)
 
     x_on_0, _, x_on_2 = x.unwrapped
-    shares = y.unwrapped
+    shares = _broadcast_private(prot, y, x).unwrapped
 
     z = [[None] * 2 for _ in range(3)]
     with tf.name_scope("add"):
@@ -2257,7 +2268,7 @@ def _sub_private_public(prot, x, y):
     assert isinstance(y, ABY3PublicTensor), type(y)
     assert x.is_scaled == y.is_scaled
 
-    shares = x.unwrapped
+    shares = _broadcast_private(prot, x, y).unwrapped
     y_on_0, _, y_on_2 = y.unwrapped
 
     z = [[None] * 2 for _ in range(3)]
@@ -2283,7 +2294,7 @@ def _sub_public_private(prot, x, y):
     assert isinstance(y, ABY3PrivateTensor), type(y)
 
     x_on_0, _, x_on_2 = x.unwrapped
-    shares = y.unwrapped
+    shares = _broadcast_private(prot, y, x).unwrapped
 
     z = [[None] * 2 for _ in range(3)]
     with tf.name_scope("sub"):
-- 
2.43.0


From 5657ed0dcd916427e05c234e6c9c16a5af153dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 009/102] fix: Kogge-Stone adder of more than 63 bits in the
 128-bit ring

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 52597e3..2165c87 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -3540,7 +3540,7 @@ def _ppa_kogge_stone_private_private(prot, x, y, n_bits):
 
         if k < x.backing_dtype.nbits:
             mask = prot.define_constant(
-                np.array((1 << k) - 1).astype(np.int64), apply_scaling=False
+                np.array((1 << k) - 1, dtype=object), apply_scaling=False
             )
             z = z & mask
     return z
-- 
2.43.0


From 8dc76475e7cc945a5a399fc6eedaf1736bd51b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 010/102] fix: reduce_max by sorting network over all axes

---
 tf_encrypted/protocol/aby3/aby3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 2165c87..344e045 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5091,10 +5091,10 @@ def _reduce_max_network_private(
     with tf.name_scope("reduce-max-network"):
 
         if axis is None:
-            x = prot.reshape(x, [-1])
-            y = prot.sort(x, 0, acc=False)
+            y = prot.sort(prot.reshape(x, [-1]), 0, acc=False)
+            maximum = y[0]
             if keepdims:
-                maximum = prot.reshape(y[0], [1] * len(x.shape))
+                maximum = prot.reshape(maximum, [1] * len(x.shape))
         else:
             y = prot.sort(x, axis, acc=False)
             if keepdims:
-- 
2.43.0


From f6c624966fb13df73d573b677b18945e49c3550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 011/102] fix: sort along an axis of length one

---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 344e045..f3a31ca 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5850,8 +5850,8 @@ def _sort_private(
             return np.stack(indices)
 
         axis = axis % len(x.shape)
-        if axis < 0:
-            axis += len(x.shape)
+        if int(x.shape[axis]) == 1:
+            return x
         if axis != 0:
             x = prot.transpose(
                 x,
-- 
2.43.0


From 3692b0fb26b3ff8dc63a9606358a2387feb73dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 012/102] fix: one-hot argmax along a negative axis

---
 tf_encrypted/protocol/aby3/aby3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index f3a31ca..5aaf260 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5142,6 +5142,7 @@ def _reduce_max_with_argmax_private(
 
             return maximum, argmax
 
+        axis = axis % len(x.shape)
         n = int(x.shape[axis])
         tensors = prot.split(x, n, axis=axis)
         if output_style == "onehot":
-- 
2.43.0


From 8251954c34761b5b9d131ad4bccd0fe1b10aa080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:13 +0000
Subject: [PATCH 013/102] fix: argmax indices have the shape of the result even
 along an axis of length one

---
 tf_encrypted/protocol/aby3/aby3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 5aaf260..35fac4e 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5161,8 +5161,10 @@ def _reduce_max_with_argmax_private(
                 # for i, _ in enumerate(tensors)
             ]
         elif output_style == "normal":
+            idx_shape = x.shape[:axis] + [1] + x.shape[(axis + 1) :]
             indices = [
-                prot.define_constant(np.array([i])) for i, _ in enumerate(tensors)
+                prot.define_constant(np.full(idx_shape, i))
+                for i, _ in enumerate(tensors)
             ]
         else:
             raise ValueError("Unknown output style: {}".format(output_style))
-- 
2.43.0


From 2b1a61a7a9c4163b36f8ad1ede02b4a4d51c6fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:55 +0000
Subject: [PATCH 014/102] fix: ABY3 public zeros, and with it extraction of bit
 0

---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 35fac4e..a7d3652 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5401,7 +5401,7 @@ def _ones_public(prot, shape, apply_scaling, share_type, factory) -> ABY3PublicT
         with tf.device(prot.servers[2].device_name):
             x[2] = factory.tensor(prot._encode(tf.ones(shape), apply_scaling))
 
-    x = ABY3PublicTensor(prot, x, apply_scaling, share_type)
+    x = ABY3PublicTensor(prot, x, apply_scaling)
     return x
 
 
@@ -5442,7 +5442,7 @@ def _zeros_public(prot, shape, apply_scaling, share_type, factory) -> ABY3Public
         with tf.device(prot.servers[2].device_name):
             x[2] = factory.tensor(prot._encode(tf.zeros(shape), apply_scaling))
 
-    x = ABY3PublicTensor(prot, x, apply_scaling, share_type)
+    x = ABY3PublicTensor(prot, x, apply_scaling)
     return x
 
 
-- 
2.43.0


From 49294029ce210bbbaa89d0fa5c13070ff4195e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:43 +0000
Subject: [PATCH 015/102] fix: ABY3 local computation on a public argument

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index a7d3652..a6ef443 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -605,7 +605,7 @@ class ABY3(Protocol):
                 return x
 
             if isinstance(x, ABY3PublicTensor):
-                w, _ = x.unwrapped
+                w = x.unwrapped[0]
                 v = self._decode(w, x.is_scaled)
                 return v
 
-- 
2.43.0


From 57550e8f588c67786f5da438b8e6cade8ec1d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:43 +0000
Subject: [PATCH 016/102] fix: ABY3 local computation reconstructs an argument
 by its own share type

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index a6ef443..59b59fa 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -611,7 +611,7 @@ class ABY3(Protocol):
 
             if isinstance(x, ABY3PrivateTensor):
                 shares = x.unwrapped
-                w = self._reconstruct(shares, player, share_type)
+                w = self._reconstruct(shares, player, x.share_type)
                 v = self._decode(w, x.is_scaled)
                 return v
 
-- 
2.43.0


From 348f167b367ace3da6f8d89f2be3002cfc328474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:03 +0000
Subject: [PATCH 017/102] fix: exact conversion of integer tensors to 128 bits

---
 tf_encrypted/operations/tf_i128/tf_i128.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf_encrypted/operations/tf_i128/tf_i128.py b/tf_encrypted/operations/tf_i128/tf_i128.py
index ee2aa05..9679f4d 100644
--- a/tf_encrypted/operations/tf_i128/tf_i128.py
+++ b/tf_encrypted/operations/tf_i128/tf_i128.py
@@ -157,6 +157,11 @@ def reduce_sum(x: tf.Tensor, axis=None, keepdims=False):
 def to_i128(x: tf.Tensor, scale: int = 1):
     assert scale > 0
     assert __is_tf_tensor(x)
+    if x.dtype in (tf.int8, tf.int16, tf.int32, tf.int64) and scale == 1:
+        # sign-extend, since float64 cannot hold all 64-bit integers
+        low = tf.cast(x, tf.int64)
+        high = tf.where(low < 0, -tf.ones_like(low), tf.zeros_like(low))
+        return tf.stack([low, high], axis=-1)
     x = tf.cast(x, tf.float64)
     if isinstance(scale, float):
         print(
-- 
2.43.0


From f7c2dc939a2c56fafe601c0408e67dedc6d87f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:13 +0000
Subject: [PATCH 018/102] fix: exp2 approximation left out its highest power

---
 tf_encrypted/protocol/aby3/aby3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 59b59fa..b19b7e2 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5577,7 +5577,7 @@ def _exp2_pade_private(prot, x):
         x_pows = [0] * (degree + 1)
         x_pows[0] = 1
         x_pows[1] = x
-        for i in range(2, degree):
+        for i in range(2, degree + 1):
             x_pows[i] = x_pows[i // 2] * x_pows[(i + 1) // 2]
 
         y = [x_pows[i] * c[i] for i in range(degree + 1)]
-- 
2.43.0


From d13d2eb53d16374c52032d59ec14f2d697afccbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:13 +0000
Subject: [PATCH 019/102] fix: ABY3 addition of public tensors runs on the
 servers holding them

---
 tf_encrypted/protocol/aby3/aby3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index b19b7e2..e7a7931 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2236,7 +2236,8 @@ def _add_public_public(prot, x, y):
     z = [None] * 3
     with tf.name_scope("add"):
         for i in range(3):
-            z[i] = x_shares[i] + y_shares[i]
+            with tf.device(prot.servers[i].device_name):
+                z[i] = x_shares[i] + y_shares[i]
 
     return ABY3PublicTensor(prot, z, x.is_scaled)
 
-- 
2.43.0


From 48df8b803e0fdb56941c76b5bf4e6b5415e9c77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:13 +0000
Subject: [PATCH 020/102] fix: ABY3 local truncation places its shares on the
 servers holding them

---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index e7a7931..34b7c06 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2760,7 +2760,7 @@ def _truncate_local_private(
         # server 1 sends `y1`
         with tf.device(prot.servers[0].device_name):
             y[0][0] = y0
-            y[0][1] = y1
+            y[0][1] = y1.identity()
         # Local
         with tf.device(prot.servers[1].device_name):
             y[1][0] = y1
@@ -2768,7 +2768,7 @@ def _truncate_local_private(
         # server 0 sends `y0`
         with tf.device(prot.servers[2].device_name):
             y[2][0] = r_on_2
-            y[2][1] = y0
+            y[2][1] = y0.identity()
 
     return ABY3PrivateTensor(prot, y, x.is_scaled, x.share_type)
 
-- 
2.43.0


From c5d875c5e70dabd5c7e2d06bc866c25a992db208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:13 +0000
Subject: [PATCH 021/102] fix: ABY3 masks every element of a product of
 broadcast operands

---
 tf_encrypted/protocol/aby3/aby3.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 34b7c06..67a2512 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2452,6 +2452,11 @@ def _mul_private_public(prot, x, y):
         return z
 
 
+def _broadcast_shape(x, y):
+    """Static shape of an elementwise operation of `x` and `y`."""
+    return tf.broadcast_static_shape(tf.TensorShape(x.shape), tf.TensorShape(y.shape))
+
+
 def _mul_private_private(prot, x, y):
     assert isinstance(x, ABY3PrivateTensor), type(x)
     assert isinstance(y, ABY3PrivateTensor), type(y)
@@ -2461,7 +2466,7 @@ def _mul_private_private(prot, x, y):
 
     z = [[None, None], [None, None], [None, None]]
     with tf.name_scope("mul"):
-        a0, a1, a2 = prot._gen_zero_sharing(x.shape)
+        a0, a1, a2 = prot._gen_zero_sharing(_broadcast_shape(x, y))
         with tf.device(prot.servers[0].device_name):
             z0 = (
                 x_shares[0][0] * y_shares[0][0]
@@ -2517,7 +2522,7 @@ def _mul_trunc2_private_private(prot, x, y):
 
     x_shares = x.unwrapped
     y_shares = y.unwrapped
-    shape = x_shares[0][0].shape
+    shape = _broadcast_shape(x, y)
     amount = prot.fixedpoint_config.precision_fractional
 
     with tf.name_scope("mul_trunc2"):
@@ -2529,7 +2534,7 @@ def _mul_trunc2_private_private(prot, x, y):
         r_trunc = prot.b2a(r_trunc)
 
         # Step 2: Compute 3-out-of-3 sharing of (x*y - r)
-        a0, a1, a2 = prot._gen_zero_sharing(x.shape)
+        a0, a1, a2 = prot._gen_zero_sharing(shape)
         with tf.device(prot.servers[0].device_name):
             z0 = (
                 x_shares[0][0] * y_shares[0][0]
@@ -3143,7 +3148,9 @@ def _and_private_private(prot: ABY3, x: ABY3PrivateTensor, y: ABY3PrivateTensor)
     z = [[None, None], [None, None], [None, None]]
     with tf.name_scope("and"):
         a0, a1, a2 = prot._gen_zero_sharing(
-            x.shape, share_type=ShareType.BOOLEAN, factory=x.backing_dtype
+            _broadcast_shape(x, y),
+            share_type=ShareType.BOOLEAN,
+            factory=x.backing_dtype,
         )
 
         with tf.device(prot.servers[0].device_name):
-- 
2.43.0


From a264ebceb8aa5febf4ad2c045ab7c86ce4a8fe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:13 +0000
Subject: [PATCH 022/102] fix: ABY3 Cheetah truncation: fresh masks,
 re-randomized shares on their servers

---
 tf_encrypted/protocol/aby3/aby3.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 67a2512..dfc80e0 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2804,8 +2804,6 @@ def _truncate_msb0_cheetah_private(
         msb_bob_on_1 = x_bob_on_1.logical_rshift(x.backing_dtype.nbits - 1).cast(
             bfactory
         )
-        # x_B >> f
-        x_bob_on_1_trunc = x_bob_on_1.logical_rshift(amount)
     with tf.device(prot.servers[2].device_name):
         x_bob_on_2 = x_shares[2][0]
         msb_bob_on_2 = x_bob_on_2.logical_rshift(x.backing_dtype.nbits - 1).cast(
@@ -2842,24 +2840,32 @@ def _truncate_msb0_cheetah_private(
         w[1][1] = w_bob ^ w[1][0]
 
     with tf.device(prot.servers[2].device_name):
-        w[2][0] = w[1][1]
-        w[2][1] = w_alice
+        w[2][0] = w[1][1].identity()
+        w[2][1] = w_alice.identity()
+
+    prot._update_pairwise_nonces()
 
     # b2a. TODO: communication could be optimized from l to f
     w = prot.b2a_single(ABY3PrivateTensor(prot, w, False, ShareType.BOOLEAN))
 
     # Fix potential big error: w * 2^{l-f}
     error = (w << (x.backing_dtype.nbits - amount)).unwrapped
+    # `error` only covers the high bits of the truncated values, hence the shares
+    # have to be re-randomized before they are sent to another server
+    a0, a1, a2 = prot._gen_zero_sharing(shape, factory=x.backing_dtype)
     z = [[None, None], [None, None], [None, None]]
     with tf.device(prot.servers[0].device_name):
-        z[0][0] = x_alice_trunc - error[0][0]
-        z[0][1] = -error[0][1]
+        z[0][0] = x_alice_trunc - error[0][0] + a0
+    with tf.device(prot.servers[1].device_name):
+        z[1][0] = a1 - error[1][0]
+    with tf.device(prot.servers[2].device_name):
+        z[2][0] = x_bob_on_2_trunc - error[2][0] + a2
+    with tf.device(prot.servers[0].device_name):
+        z[0][1] = z[1][0].identity()
     with tf.device(prot.servers[1].device_name):
-        z[1][0] = -error[1][0]
-        z[1][1] = x_bob_on_1_trunc - error[1][1]
+        z[1][1] = z[2][0].identity()
     with tf.device(prot.servers[2].device_name):
-        z[2][0] = x_bob_on_2_trunc - error[2][0]
-        z[2][1] = z[0][0]
+        z[2][1] = z[0][0].identity()
 
     z = ABY3PrivateTensor(prot, z, x.is_scaled, ShareType.ARITHMETIC)
     return z
-- 
2.43.0


From 1b4291733462d9351f5bcc0f358e959787750f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:24 +0000
Subject: [PATCH 023/102] fix: mark unseeded secure random ops as stateful so
 that graph optimisation does not merge their samples

---
 operations/secure_random/secure_random.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/operations/secure_random/secure_random.cc b/operations/secure_random/secure_random.cc
index 27616dd..11c4bba 100644
--- a/operations/secure_random/secure_random.cc
+++ b/operations/secure_random/secure_random.cc
@@ -75,6 +75,7 @@ REGISTER_OP("SecureRandomUniform")
     .Output("output: dtype")
     .Attr("dtype: {int8, int16, int32, int64} = DT_INT32")
     .Attr("T: {int32, int64} = DT_INT32")
+    .SetIsStateful()
     .SetShapeFn(RandomUniformShapeCommon);
   
 REGISTER_OP("I128SecureSeededRandomUniform")
@@ -95,6 +96,7 @@ REGISTER_OP("I128SecureRandomUniform")
     .Output("output: dtype")
     .Attr("dtype: {int64} = DT_INT64")
     .Attr("T: {int32, int64} = DT_INT32")
+    .SetIsStateful()
     .SetShapeFn(I128RandomUniformShapeCommon);
 
 REGISTER_OP("SecureSeed")
-- 
2.43.0


From 26e047f92b87c039e3ee85f0086e285f0bbfda46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:24 +0000
Subject: [PATCH 024/102] fix: report I/O errors of WriteRecord instead of
 dereferencing a null file or losing the record

---
 operations/dataset/write_record.cc | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/operations/dataset/write_record.cc b/operations/dataset/write_record.cc
index 99abee5..b7bf884 100644
--- a/operations/dataset/write_record.cc
+++ b/operations/dataset/write_record.cc
@@ -26,20 +26,16 @@ public:
 
       std::unique_ptr<tensorflow::WritableFile> file;
       if(append){
-        tensorflow::Env::Default()->NewAppendableFile(filename, &file);
+        OP_REQUIRES_OK(ctx, tensorflow::Env::Default()->NewAppendableFile(filename, &file));
       }else{
-        tensorflow::Env::Default()->NewWritableFile(filename, &file);
+        OP_REQUIRES_OK(ctx, tensorflow::Env::Default()->NewWritableFile(filename, &file));
       }
       const RecordWriterOptions& options = RecordWriterOptions::CreateRecordWriterOptions("");
       auto writer = absl::make_unique<tensorflow::io::RecordWriter>(file.get(), options);
 
-      if(file == nullptr && writer == nullptr){
-        return;
-      }
-
-      writer->WriteRecord(StringPiece(record));
-      writer->Close();
-      file->Close();
+      OP_REQUIRES_OK(ctx, writer->WriteRecord(StringPiece(record)));
+      OP_REQUIRES_OK(ctx, writer->Close());
+      OP_REQUIRES_OK(ctx, file->Close());
     }
 };
 
-- 
2.43.0


From 2d99c8999cd0ff31210ea6b9cdc3070a7b9f85d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:24 +0000
Subject: [PATCH 025/102] fix: int100 reflected subtraction computed self -
 other

---
 tf_encrypted/tensor/int100.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 4d98cfc..1944022 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -553,7 +553,7 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
 
         def __rsub__(self, other):
             x, y = _lift(self, other)
-            return x.sub(y)
+            return y.sub(x)
 
         def __mul__(self, other):
             x, y = _lift(self, other)
-- 
2.43.0


From 9bb9b880c26d0b6adecdea45a841c1a94f705812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:24 +0000
Subject: [PATCH 026/102] fix: int100 lifts a Python int to a scalar instead of
 a vector of length 1

---
 tf_encrypted/tensor/int100.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 1944022..2252d4b 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -399,12 +399,12 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
         if isinstance(x, Tensor):
 
             if isinstance(y, int):
-                return x, x.factory.tensor(np.array([y]))
+                return x, x.factory.tensor(np.array(y))
 
         if isinstance(y, Tensor):
 
             if isinstance(x, int):
-                return y.factory.tensor(np.array([x])), y
+                return y.factory.tensor(np.array(x)), y
 
         raise TypeError("Don't know how to lift {} {}".format(type(x), type(y)))
 
-- 
2.43.0


From 73e1105d0852fc0b3ca09b0379bb522d8bb598e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:24 +0000
Subject: [PATCH 027/102] fix: int100 and bool variables raised TypeError on
 every assignment

---
 tf_encrypted/tensor/boolfactory.py | 6 +++---
 tf_encrypted/tensor/int100.py      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tf_encrypted/tensor/boolfactory.py b/tf_encrypted/tensor/boolfactory.py
index af47629..aa8da01 100644
--- a/tf_encrypted/tensor/boolfactory.py
+++ b/tf_encrypted/tensor/boolfactory.py
@@ -291,10 +291,10 @@ def bool_factory():
         def assign(self, value: Union[Tensor, np.ndarray]) -> None:
             if isinstance(value, Tensor):
                 self.variable.assign(value.value)
-            if isinstance(value, np.ndarray):
+            elif isinstance(value, np.ndarray):
                 self.variable.assign(value)
-
-            raise TypeError("Don't know how to handle {}".format(type(value)))
+            else:
+                raise TypeError("Don't know how to handle {}".format(type(value)))
 
         def read_value(self) -> Tensor:
             return Tensor(self.variable.read_value())
diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 2252d4b..bcadf86 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -814,11 +814,11 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
             if isinstance(value, Tensor):
                 for (variable, vi) in zip(self.variables, value.backing):
                     variable.assign(vi)
-            if isinstance(value, np.ndarray):
+            elif isinstance(value, np.ndarray):
                 for (variable, vi) in zip(self.variables, value):
                     variable.assign(vi)
-
-            raise TypeError("Don't know how to handle {}".format(type(value)))
+            else:
+                raise TypeError("Don't know how to handle {}".format(type(value)))
 
         def read_value(self) -> Tensor:
             backing = [var.read_value() for var in self.variables]
-- 
2.43.0


From e4a626e256328a65ab4bc53ffa40bbd330c3d63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:24 +0000
Subject: [PATCH 028/102] fix: int128 bit decomposition beyond 64 bits returned
 bits of the wrong shape and value

---
 tf_encrypted/tensor/int128.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 15a664a..40ed6ee 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -286,9 +286,9 @@ def int128_factory():  # pylint: disable=invalid-name
             else:
                 t0 = tf.gather(self.value, 0, axis=-1)
                 t1 = tf.gather(self.value, 1, axis=-1)
-                t0 = binarize(t0, bitsize)
-                t1 = binarize(t1, bitsize)
-                return factory.tensor(tf.stack([t0, t1], axis=-1))
+                t0 = binarize(t0, 64)
+                t1 = binarize(t1, bitsize - 64)
+                return factory.tensor(tf.concat([t0, t1], axis=-1))
 
         def __repr__(self) -> str:
             return "{}(shape={})".format(type(self), self.shape)
-- 
2.43.0


From e4559a232beedd3e38158e75c11d3e7b36e12f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:24 +0000
Subject: [PATCH 029/102] fix: int100 seeded sampling drew every CRT component
 below the last modulus, so shares were not uniform

---
 tf_encrypted/tensor/int100.py | 36 ++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index bcadf86..30bac95 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -236,29 +236,31 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
             assert maxval is None
 
             if secure_random.supports_seeded_randomness():
-                shape = list(shape) + [len(MODULI)]
-                value = secure_random.seeded_random_uniform(
-                    shape=shape,
-                    dtype=INT_TYPE,
-                    minval=0,
-                    maxval=mi,
-                    seed=seed,
-                )
-                backing = tf.split(value, len(MODULI), axis=-1)
-                backing = [tf.squeeze(b, axis=-1) for b in backing]
-                return Tensor(backing)
+                sampler = secure_random.seeded_random_uniform
             else:
-                shape = list(shape) + [len(MODULI)]
-                value = tf.random.stateless_uniform(
+                sampler = tf.random.stateless_uniform
+
+            # the components must be uniform and independent modulo their own
+            # modulus, so expand the seed into one seed per component
+            seed = tf.convert_to_tensor(seed)
+            seeds = sampler(
+                shape=[len(MODULI)] + seed.shape.as_list(),
+                dtype=seed.dtype,
+                minval=seed.dtype.min,
+                maxval=seed.dtype.max,
+                seed=seed,
+            )
+            backing = [
+                sampler(
                     shape=shape,
                     dtype=INT_TYPE,
                     minval=0,
                     maxval=mi,
-                    seed=seed,
+                    seed=seeds[i],
                 )
-                backing = tf.split(value, len(MODULI), axis=-1)
-                backing = [tf.squeeze(b, axis=-1) for b in backing]
-                return Tensor(backing)
+                for i, mi in enumerate(MODULI)
+            ]
+            return Tensor(backing)
 
         def sample_bounded(self, shape, bitlength: int):
 
-- 
2.43.0


From dada37461fec8d741cc383d1502e93428966c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:16 +0000
Subject: [PATCH 030/102] fix: Pond masked local computations used only half of
 the mask and sent the plaintext to the triple producer

---
 tf_encrypted/protocol/pond/pond.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 7b11193..0125886 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -556,8 +556,10 @@ class Pond(Protocol):
                 with tf.device(self.triple_source.producer.device_name):
                     seed0 = crypto.secure_seed()
                     seed1 = crypto.secure_seed()
-                    a = factory.sample_seeded_uniform(v.shape, seed0)
-                    +factory.sample_seeded_uniform(v.shape, seed1)
+                    a = factory.sample_seeded_uniform(
+                        v.shape, seed0
+                    ) + factory.sample_seeded_uniform(v.shape, seed1)
+                with tf.device(player.device_name):
                     alpha = w - a
                 with tf.device(self.server_0.device_name):
                     a0 = factory.sample_seeded_uniform(v.shape, seed0)
-- 
2.43.0


From 3636e72e3edbe8f9b7d902b7bddecba507f44563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:16 +0000
Subject: [PATCH 031/102] fix: Pond transpose, stack and strided_slice returned
 the cached result of a call with other arguments

---
 tf_encrypted/protocol/pond/pond.py | 33 +++++++++++-------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 0125886..93ada58 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1082,7 +1082,7 @@ class Pond(Protocol):
         :param List perm: A permutation of axis indices.
         """
 
-        node_key = ("transpose", x)
+        node_key = ("transpose", x, None if perm is None else tuple(perm))
         x_t = nodes.get(node_key, None)
 
         if x_t is not None:
@@ -1166,6 +1166,7 @@ class Pond(Protocol):
 
         raise TypeError("Don't know how to squeeze {}".format(type(x)))
 
+    @memoize
     def strided_slice(self, x: "PondTensor", *args: Any, **kwargs: Any):
         """
         strided_slice(x, *args, **kwargs) -> PondTensor
@@ -1174,28 +1175,18 @@ class Pond(Protocol):
         documentation.
         """
 
-        node_key = ("strided_slice", x)
-
-        x_sliced = nodes.get(node_key, None)
-
-        if x_sliced is not None:
-            return x_sliced
-
         if isinstance(x, PondPublicTensor):
-            x_sliced = _strided_slice_public(self, x, args, kwargs)
-        elif isinstance(x, PondPrivateTensor):
-            x_sliced = _strided_slice_private(self, x, args, kwargs)
-        elif isinstance(x, PondMaskedTensor):
-            x_sliced = _strided_slice_masked(self, x, args, kwargs)
-            nodes[("strided_slice", x.unmasked)] = x_sliced.unmasked
-        else:
-            raise TypeError(
-                ("Don't know how to do a strided slice on " " {}").format(type(x))
-            )
+            return _strided_slice_public(self, x, args, kwargs)
 
-        nodes[node_key] = x_sliced
+        if isinstance(x, PondPrivateTensor):
+            return _strided_slice_private(self, x, args, kwargs)
 
-        return x_sliced
+        if isinstance(x, PondMaskedTensor):
+            return _strided_slice_masked(self, x, args, kwargs)
+
+        raise TypeError(
+            ("Don't know how to do a strided slice on " " {}").format(type(x))
+        )
 
     @memoize
     def gather(self, x: "PondTensor", indices: list, axis=0) -> "PondTensor":
@@ -1210,7 +1201,7 @@ class Pond(Protocol):
     def stack(self, xs: List["PondTensor"], axis=0):
         """See tf.stack."""
 
-        node_key = ("stack", tuple(xs))
+        node_key = ("stack", tuple(xs), axis)
         xs_stack = nodes.get(node_key, None)
 
         if xs_stack is not None:
-- 
2.43.0


From bef26e902040f5853baf741d869cbf5eb0059beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:16 +0000
Subject: [PATCH 032/102] fix: Pond squeeze and strided_slice of masked tensors

---
 tf_encrypted/protocol/pond/pond.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 93ada58..42777ab 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3711,7 +3711,7 @@ def _strided_slice_masked(prot, x: PondMaskedTensor, args: Any, kwargs: Any):
 
         return PondMaskedTensor(
             prot,
-            prot.strided_slice(x.unmasked, args, kwargs),
+            prot.strided_slice(x.unmasked, *args, **kwargs),
             a_slice,
             a0_slice,
             a1_slice,
@@ -4420,11 +4420,11 @@ def _squeeze_masked(
 ) -> PondMaskedTensor:
     assert isinstance(x, PondMaskedTensor)
 
-    _, a0, a1, alpha_on_0, alpha_on_1 = x.unwrapped
+    a, a0, a1, alpha_on_0, alpha_on_1 = x.unwrapped
 
     with tf.name_scope("squeeze"):
 
-        a_squeezed = prot.triple_source.squeeze_mask(axis=axis)
+        a_squeezed = prot.triple_source.squeeze_mask(a, axis=axis)
 
         with tf.device(prot.server_0.device_name):
             a0_squeezed = a0.squeeze(axis)
@@ -4436,7 +4436,7 @@ def _squeeze_masked(
 
         return PondMaskedTensor(
             prot,
-            prot.squeeze(x.unmasked),
+            prot.squeeze(x.unmasked, axis),
             a_squeezed,
             a0_squeezed,
             a1_squeezed,
-- 
2.43.0


From fed5769d27f22eb4681030c8c14c8dead8c4c4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:16 +0000
Subject: [PATCH 033/102] fix: Pond division by a float raised TypeError

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 42777ab..3bdf587 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1044,7 +1044,7 @@ class Pond(Protocol):
 
         if isinstance(y, float):
             y_inverse = 1.0 / y
-        if isinstance(y, int):
+        elif isinstance(y, int):
             y_inverse = 1.0 / float(y)
         elif isinstance(y, PondPublicTensor):
             y_inverse = self.reciprocal(y)
-- 
2.43.0


From bbbd02af83dcdb0644d94790c1593dbb842f4bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:16 +0000
Subject: [PATCH 034/102] fix: Pond reflected addition of a number raised
 AttributeError

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 3bdf587..0e8a99c 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1690,7 +1690,7 @@ class PondTensor(TFETensor):
         return self.prot.add(self, other)
 
     def __radd__(self, other):
-        return other.prot.add(other, self)
+        return self.prot.add(self, other)
 
     def reduce_sum(self, axis=None, keepdims=None):
         """
-- 
2.43.0


From 0be4b830084ea6be142cc65f1dcb2a982dc22f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:16 +0000
Subject: [PATCH 035/102] fix: Pond private-public matmul and public equality
 sent server 1's share to server 0

---
 tf_encrypted/protocol/pond/pond.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 0e8a99c..1c011e8 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3142,7 +3142,7 @@ def _matmul_private_public(prot, x, y):
         with tf.device(prot.server_0.device_name):
             z0 = x0.matmul(y_on_0)
 
-        with tf.device(prot.server_0.device_name):
+        with tf.device(prot.server_1.device_name):
             z1 = x1.matmul(y_on_1)
 
         z = PondPrivateTensor(prot, z0, z1, x.is_scaled or y.is_scaled)
@@ -4465,7 +4465,7 @@ def _equal_public_public(
         with tf.device(prot.server_0.device_name):
             z_on_0 = x_on_0.equal(y_on_0)
 
-        with tf.device(prot.server_0.device_name):
+        with tf.device(prot.server_1.device_name):
             z_on_1 = x_on_1.equal(y_on_1)
 
         return PondPublicTensor(prot, z_on_0, z_on_1, False)
-- 
2.43.0


From 178d3ed24445607c9bad6707f084a50b8705d5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:16 +0000
Subject: [PATCH 036/102] fix: Pond average pooling with equal pool size and
 strides used the removed tf.Dimension

---
 tf_encrypted/protocol/pond/pond.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 1c011e8..18ef610 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3364,8 +3364,7 @@ def _avgpool2d_im2col_reduce(
 def _avgpool2d_reshape_reduce(x, pool_size: Tuple[int, int], *args):
     """Perform 2D average pooling by the reshape method."""
     del args
-    pool_height = tf.Dimension(pool_size[0])
-    pool_width = tf.Dimension(pool_size[1])
+    pool_height, pool_width = pool_size
     n, c, h, w = x.shape
     return (
         x.reshape([n, c, h // pool_height, pool_height, w // pool_width, pool_width])
-- 
2.43.0


From 9cf6ffd1e56298c77e9734c1a6455b05bba1347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:16 +0000
Subject: [PATCH 037/102] fix: Pond conv2d with list strides raised TypeError

---
 tf_encrypted/protocol/pond/pond.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 18ef610..58c922b 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1372,7 +1372,13 @@ class Pond(Protocol):
     def conv2d(self, x, w, strides, padding):
         """See tf.nn.conv2d."""
 
-        node_key = ("conv2d", x, w, strides, padding)
+        node_key = (
+            "conv2d",
+            x,
+            w,
+            tuple(strides) if isinstance(strides, list) else strides,
+            padding,
+        )
         z = nodes.get(node_key, None)
 
         if z is not None:
-- 
2.43.0


From 4416e2cee1e8e43129335630bf7661234c8298b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:16 +0000
Subject: [PATCH 038/102] fix: Pond pad of an unscaled tensor

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 58c922b..1b01f9b 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1494,7 +1494,7 @@ class Pond(Protocol):
                 zval1 = tf.zeros(shape, dtype=backing_type.native_type)
                 zeros1 = backing_type.tensor(zval1)
 
-            return tensor_type(self, zeros0, zeros1, True)
+            return tensor_type(self, zeros0, zeros1, x.is_scaled)
 
         def prepend_zeros(tensor, pad_amt, axis):
 
-- 
2.43.0


From f2097689576ed2517fc951bdc56a8876dcd5312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:51 +0000
Subject: [PATCH 039/102] fix: bit decomposition of int8 and int16 tensors
 failed as tf.range lacks these types

---
 tf_encrypted/tensor/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/shared.py b/tf_encrypted/tensor/shared.py
index 9f68ef8..8881a54 100644
--- a/tf_encrypted/tensor/shared.py
+++ b/tf_encrypted/tensor/shared.py
@@ -16,7 +16,7 @@ def binarize(
         bitsize = bitsize or (tensor.dtype.size * 8)
 
         bit_indices_shape = [1] * len(tensor.shape) + [bitsize]
-        bit_indices = tf.range(bitsize, dtype=tensor.dtype)
+        bit_indices = tf.cast(tf.range(bitsize), tensor.dtype)
         bit_indices = tf.reshape(bit_indices, bit_indices_shape)
 
         val = tf.expand_dims(tensor, -1)
-- 
2.43.0


From 6b075fb157b8d306bc7359bdbfa615a4a1c8f135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:51 +0000
Subject: [PATCH 040/102] fix: int100 decoding turned scalars into vectors of
 length 1

---
 tf_encrypted/tensor/int100.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 30bac95..4543f13 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -70,7 +70,7 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
         def crt_recombine_explicit(x, bound):
 
             big_b = MODULUS % bound
-            b = [np.array([(MODULUS // mi) % bound], dtype=np.int64) for mi in MODULI]
+            b = [np.array((MODULUS // mi) % bound, dtype=np.int64) for mi in MODULI]
 
             with tf.name_scope("crt_recombine_explicit"):
 
-- 
2.43.0


From 6bc3fa8b9c8ba29840751749739105249cea1db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:02 +0000
Subject: [PATCH 041/102] fix: SecureNN max pooling raised, and could not
 handle masked tensors

---
 tf_encrypted/protocol/securenn/securenn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 09eece2..7155c9c 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -812,11 +812,11 @@ def _im2col(
 
     with tf.device(prot.server_0.device_name):
         x_split = x_on_0.reshape((batch * channels, 1, height, width))
-        y_on_0 = x_split.im2col(pool_height, pool_width, strides[0], padding)
+        y_on_0 = x_split.im2col(pool_height, pool_width, strides, padding)
 
     with tf.device(prot.server_1.device_name):
         x_split = x_on_1.reshape((batch * channels, 1, height, width))
-        y_on_1 = x_split.im2col(pool_height, pool_width, strides[0], padding)
+        y_on_1 = x_split.im2col(pool_height, pool_width, strides, padding)
 
     return y_on_0, y_on_1, [out_height, out_width, int(batch), int(channels)]
 
@@ -861,7 +861,7 @@ def _maxpool2d_masked(
     padding: str,
 ) -> PondPrivateTensor:
     with tf.name_scope("maxpool2d"):
-        return prot.maxpool2d(x.unwrapped, pool_size, strides, padding)
+        return prot.maxpool2d(x.unmasked, pool_size, strides, padding)
 
 
 #
-- 
2.43.0


From fdfb7d5c3865ae436f0c9efc3d024cc9c9fff9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:02 +0000
Subject: [PATCH 042/102] fix: SecureNN relu of a tensor large enough to be
 split returned the sign bits

---
 tf_encrypted/protocol/securenn/securenn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 7155c9c..4767dd1 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -384,7 +384,7 @@ class SecureNN(Pond):
             drelu = []
 
             for i, _ in enumerate(xs):
-                d, r = actual_relu_with_cmp(xs[i], "subrelu")
+                r, d = actual_relu_with_cmp(xs[i], "subrelu")
                 res.append(r)
                 drelu.append(d)
             return self.concat(res, axis=-1), self.concat(drelu, axis=-1)
-- 
2.43.0


From 17605f8d3c60f434f22f1b3979c073dc2778e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:50 +0000
Subject: [PATCH 043/102] fix: SecureNN sign of public 100-bit tensors was
 always positive

---
 tf_encrypted/protocol/securenn/securenn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 4767dd1..0bc49c5 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -155,6 +155,9 @@ class SecureNN(Pond):
         :param PondTensor x: The tensor to take the most significant bit of
         """
         with tf.name_scope("msb"):
+            if isinstance(x, PondPublicTensor):
+                return self.bits(x)[..., -1]
+
             # when the modulus is odd msb reduces to lsb via x -> 2*x
             x = self.cast_backing(x, self.odd_factory)
             return self.lsb(x + x)
-- 
2.43.0


From 2c74c4a3d98ec204086e265da14f59269ea5cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:51 +0000
Subject: [PATCH 044/102] fix: SecureNN comparison of values one unit apart was
 wrong in the 64-bit ring

---
 tf_encrypted/protocol/securenn/securenn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 0bc49c5..bdc5bbd 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -200,6 +200,10 @@ class SecureNN(Pond):
         :param PondTensor x: The tensor to check.
         """
         with tf.name_scope("is_negative"):
+            if self.odd_factory is not self.tensor_factory:
+                # casting the shares of x to the odd modulus is off by one when
+                # they wrap around, which must not move x across zero
+                x = x + x
             # NOTE MSB is 1 iff xi < 0
             return self.msb(x)
 
@@ -220,7 +224,7 @@ class SecureNN(Pond):
         :param PondTensor x: The tensor to check.
         """
         with tf.name_scope("non_negative"):
-            return self.bitwise_not(self.msb(x))
+            return self.bitwise_not(self.is_negative(x))
 
     @memoize
     def less(self, x: PondTensor, y: PondTensor) -> PondTensor:
-- 
2.43.0


From f5125123e09f903947e81de01d29e05fa7495a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:51 +0000
Subject: [PATCH 045/102] fix: SecureNN comparison of scalars gave vectors of
 length 1

---
 tf_encrypted/protocol/securenn/securenn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index bdc5bbd..159e89b 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -736,7 +736,7 @@ def _private_compare(
             # tensor for edge cases: one zero and the rest ones
             c_edge_vals = [0] + [1] * (bit_length - 1)
             c_const = tf.constant(
-                c_edge_vals, dtype=prime_dtype.native_type, shape=(1, bit_length)
+                c_edge_vals, dtype=prime_dtype.native_type, shape=(bit_length,)
             )
             c_edge_case_raw = prime_dtype.tensor(c_const)
             c_edge_case = prot._share_and_wrap(c_edge_case_raw, False)
-- 
2.43.0


From 3a043283099f047792c48366ceee21690aae79c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:51 +0000
Subject: [PATCH 046/102] fix: SecureNN sign and relu of masked tensors raised

---
 tf_encrypted/protocol/securenn/securenn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 159e89b..b899b6e 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -893,6 +893,11 @@ def _cast_backing_public(prot, x: PondPublicTensor, backing_dtype):
         return PondPublicTensor(prot, y_on_0, y_on_1, x.is_scaled)
 
 
+def _cast_backing_masked(prot, x: PondMaskedTensor, backing_dtype):
+    """Cast a masked tensor's backing dtype; the mask does not survive."""
+    return prot.cast_backing(x.unmasked, backing_dtype)
+
+
 def _cast_backing_private(prot, x: PondPrivateTensor, backing_dtype):
     """Cast a private tensor's backing dtype."""
     # TODO[Morten]
-- 
2.43.0


From c8754df01dc9820fd137f6e99761ebb7bab5acfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:31 +0000
Subject: [PATCH 047/102] fix: SecureNN relu of a large vector raised

---
 tf_encrypted/protocol/securenn/securenn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index b899b6e..4c278da 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -376,7 +376,7 @@ class SecureNN(Pond):
         # close as possible to `maxsize` (but possibly larger)
 
         # compute how large the last dimension can be while being at least 1
-        max_last_dimension = max(max_size // np.prod(shape[:-1]), 1)
+        max_last_dimension = max(max_size // int(np.prod(shape[:-1])), 1)
         # compute split vector
         last_dimension = shape[-1]
         number_of_max_last_dimension = last_dimension // max_last_dimension
-- 
2.43.0


From ff286e51fae8dbd2d425c744cbc9f12137b15c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:31 +0000
Subject: [PATCH 048/102] fix: SecureNN argmax along an axis of length one had
 the wrong shape

---
 tf_encrypted/protocol/securenn/securenn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 4c278da..4b6db6d 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -555,7 +555,8 @@ class SecureNN(Pond):
 
             tensors = self.split(x, int(x.shape[axis]), axis=axis)
             indices = [
-                self.define_constant(np.array([i])) for i, _ in enumerate(tensors)
+                self.define_constant(np.full(t.shape.as_list(), i))
+                for i, t in enumerate(tensors)
             ]
 
             with tf.name_scope("comparison-tree"):
-- 
2.43.0


From 898920d7be84596364ebfadd4c27c5bff176d15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:52 +0000
Subject: [PATCH 049/102] fix: SecureNN comparison showed the crypto producer
 where operands first differ

---
 tf_encrypted/protocol/securenn/securenn.py | 28 ++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 4b6db6d..1c59691 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -759,11 +759,35 @@ def _private_compare(
             c_masked = c * mask
             assert c_masked.backing_dtype == prime_dtype
 
-            # TODO[Morten] permute
+            # rotate each bit sequence by a random amount known only to server 0
+            # and 1, since the position of its zero depends on the private input
+            with tf.device(prot.server_0.device_name):
+                rotation0 = prime_dtype.sample_uniform(
+                    out_shape, minval=0, maxval=int(bit_length)
+                ).identity()
+            with tf.device(prot.server_1.device_name):
+                rotation1 = rotation0.identity()
+
+            c_rotated = []
+            for server, share, rotation in zip(
+                (prot.server_0, prot.server_1),
+                c_masked.unwrapped,
+                (rotation0, rotation1),
+            ):
+                with tf.device(server.device_name):
+                    indices = tf.expand_dims(rotation.value, axis=-1)
+                    indices += tf.range(int(bit_length), dtype=indices.dtype)
+                    rotated = tf.gather(
+                        share.value,
+                        indices % int(bit_length),
+                        axis=-1,
+                        batch_dims=len(out_shape),
+                    )
+                    c_rotated.append(prime_dtype.tensor(rotated))
 
             # reconstruct masked values on server 2 to find entries with zeros
             with tf.device(prot.server_2.device_name):
-                d = prot._reconstruct(*c_masked.unwrapped)
+                d = prot._reconstruct(*c_rotated)
                 # find all zero entries
                 zeros = d.equal_zero(out_dtype)
                 # for each bit sequence, determine whether it has one or no zero in it
-- 
2.43.0


From 57fd70677abe7fad05d38890dfbcccb2afe07627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:46 +0000
Subject: [PATCH 050/102] fix: memoized operations returned results of other
 operands

---
 tf_encrypted/protocol/protocol.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index aa820d7..8fff301 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -6,6 +6,7 @@ from typing import Any
 from typing import Callable
 from typing import Optional
 
+import numpy as np
 import tensorflow as tf
 
 import tf_encrypted as tfe
@@ -76,19 +77,24 @@ def make_hashable(x):
     elif isinstance(x, dict):
         return tuple(
             sorted(
-                [(make_hashable(item[0]), make_hashable(item[1])) for item in x.items()]
+                [(item[0], make_hashable(item[1])) for item in x.items()],
+                key=lambda item: item[0],
             )
         )
     elif isinstance(x, tf.TensorShape):
         return tuple(x.as_list())
+    elif isinstance(x, np.ndarray) and x.dtype != object:
+        # arrays are mutable, so that only their content identifies them
+        return (np.ndarray, x.dtype.str, x.shape, x.tobytes())
+    elif isinstance(x, tf.Tensor):
+        # unlike its id, a reference stays unique as it keeps the tensor alive
+        return x.ref()
+    elif isinstance(x, tf.Variable):
+        raise TypeError("The value of a variable may change")
     else:
-        try:
-            hash(x)
-            return x
-        except TypeError:
-            # not safe
-            # collision may happen
-            return str(id(x)) + str(x)
+        hash(x)
+        # values of different types may compare equal, as 1, 1.0 and True do
+        return (type(x), x)
 
 
 def memoize(func: Callable) -> Callable:
@@ -106,8 +112,12 @@ def memoize(func: Callable) -> Callable:
         if get_config().debug:
             return func(self, *args, **kwargs)
 
-        hashable_args = make_hashable(args)
-        hashable_kwargs = make_hashable(kwargs)
+        try:
+            hashable_args = make_hashable(args)
+            hashable_kwargs = make_hashable(kwargs)
+        except TypeError:
+            # nothing to identify these arguments by, hence no memoization
+            return func(self, *args, **kwargs)
         node_key = (func.__name__, hashable_args, hashable_kwargs)
 
         cached_result = nodes.get(node_key, None)
-- 
2.43.0


From e865d7f9890daf135aa3022a86f2ab64837149b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:04 +0000
Subject: [PATCH 051/102] fix: memoized operations returned results of other
 protocol instances

---
 tf_encrypted/protocol/protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index 8fff301..698fa41 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -118,7 +118,8 @@ def memoize(func: Callable) -> Callable:
         except TypeError:
             # nothing to identify these arguments by, hence no memoization
             return func(self, *args, **kwargs)
-        node_key = (func.__name__, hashable_args, hashable_kwargs)
+        # instances of protocols, and methods overridden by them, differ in their results
+        node_key = (self, func, hashable_args, hashable_kwargs)
 
         cached_result = nodes.get(node_key, None)
         if cached_result is not None:
-- 
2.43.0


From c149c2a0e1d4258499d2bfaffd420159d6edf266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:04 +0000
Subject: [PATCH 052/102] fix: memoized operations returned tensors of other
 graphs

---
 tf_encrypted/protocol/protocol.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index 698fa41..6c69cd2 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -14,7 +14,28 @@ import tf_encrypted as tfe
 from ..config import get_config
 from ..tensor.factory import AbstractTensor
 
-nodes = dict()
+
+class Nodes(dict):
+    """
+    Results of memoized operations.
+
+    A symbolic tensor can be used in the graph it was created in only, so that
+    results are found again only in the graph (or eager context) storing them.
+    """
+
+    @staticmethod
+    def _in_context(node_key):
+        context = None if tf.executing_eagerly() else tf.compat.v1.get_default_graph()
+        return (context, node_key)
+
+    def get(self, node_key, default=None):
+        return super().get(self._in_context(node_key), default)
+
+    def __setitem__(self, node_key, result):
+        super().__setitem__(self._in_context(node_key), result)
+
+
+nodes = Nodes()
 
 
 class Protocol(ABC):
-- 
2.43.0


From 958263786979b9f90ff942a47b288ddc2575221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:04 +0000
Subject: [PATCH 053/102] fix: changing a list returned by a memoized operation
 changed later results

---
 tf_encrypted/protocol/protocol.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index 6c69cd2..73bbca0 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -118,6 +118,10 @@ def make_hashable(x):
         return (type(x), x)
 
 
+def copy_lists(x):
+    return [copy_lists(y) for y in x] if type(x) is list else x
+
+
 def memoize(func: Callable) -> Callable:
     """
     memoize(func) -> Callable
@@ -143,13 +147,12 @@ def memoize(func: Callable) -> Callable:
         node_key = (self, func, hashable_args, hashable_kwargs)
 
         cached_result = nodes.get(node_key, None)
-        if cached_result is not None:
-            return cached_result
+        if cached_result is None:
+            cached_result = func(self, *args, **kwargs)
+            nodes[node_key] = cached_result
 
-        result = func(self, *args, **kwargs)
-
-        nodes[node_key] = result
-        return result
+        # callers may change the lists they get
+        return copy_lists(cached_result)
 
     return cache_nodes
 
-- 
2.43.0


From f32658d432beb56443a0ffe5d3e9e6088c991380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:44 +0000
Subject: [PATCH 054/102] fix: ABY3 assign accepted values of another share
 type

---
 tf_encrypted/protocol/aby3/aby3.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index dfc80e0..aab90b0 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -1127,6 +1127,12 @@ class ABY3(Protocol):
                 variable.is_scaled,
                 value.is_scaled,
             )
+            assert (
+                variable.share_type == value.share_type
+            ), "Share type must match: {}, {}".format(
+                variable.share_type,
+                value.share_type,
+            )
 
             var_shares = variable.unwrapped
             val_shares = value.unwrapped
-- 
2.43.0


From c45fe7b7b6ecd9cd1d7cd559be8a6a1a4f1bca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:44 +0000
Subject: [PATCH 055/102] fix: ABY3 variables initialised with a tensor lost
 its scaling and share type

---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index aab90b0..3a03a4b 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -375,6 +375,8 @@ class ABY3(Protocol):
 
             elif isinstance(initial_value, ABY3PublicTensor):
                 vs = initial_value.unwrapped
+                factory = initial_value.backing_dtype
+                apply_scaling = initial_value.is_scaled
 
             else:
                 raise TypeError(
@@ -435,6 +437,8 @@ class ABY3(Protocol):
 
             elif isinstance(initial_value, ABY3PrivateTensor):
                 shares = initial_value.unwrapped
+                apply_scaling = initial_value.is_scaled
+                share_type = initial_value.share_type
 
             else:
                 raise TypeError(
-- 
2.43.0


From 5efbde2745449838da20538d2970186a55831545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:45 +0000
Subject: [PATCH 056/102] fix: Pond variables initialised with a tensor lost
 its scaling and tensor type

---
 tf_encrypted/protocol/pond/pond.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 1b01f9b..e96986d 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -255,6 +255,8 @@ class Pond(Protocol):
 
             elif isinstance(initial_value, PondPublicTensor):
                 v_on_0, v_on_1 = initial_value.unwrapped
+                factory = initial_value.backing_dtype
+                apply_scaling = initial_value.is_scaled
 
             else:
                 raise TypeError(
@@ -321,6 +323,8 @@ class Pond(Protocol):
 
             elif isinstance(initial_value, PondPublicTensor):
                 v_on_0, _ = initial_value.unwrapped
+                factory = initial_value.backing_dtype
+                apply_scaling = initial_value.is_scaled
                 with tf.device(self.server_0.device_name):
                     # NOTE[Morten]
                     # we can alternatively avoid transfer of v1 from server0 and server1
@@ -329,6 +333,8 @@ class Pond(Protocol):
 
             elif isinstance(initial_value, PondPrivateTensor):
                 v0, v1 = initial_value.unwrapped
+                factory = initial_value.backing_dtype
+                apply_scaling = initial_value.is_scaled
 
             else:
                 raise TypeError(
-- 
2.43.0


From 385b2a10db6952804def38bc1e06199c0b911465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:01 +0000
Subject: [PATCH 057/102] fix: ABY3 while_loop, sort and softmax could not be
 compiled

---
 tf_encrypted/protocol/aby3/aby3.py | 61 +++---------------------------
 1 file changed, 6 insertions(+), 55 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 3a03a4b..72ad64e 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -6,8 +6,6 @@ Implementation of the ABY3 framework.
 from __future__ import absolute_import
 
 import math
-import random
-import string
 import sys
 from functools import reduce
 from functools import wraps
@@ -22,8 +20,6 @@ from typing import Union
 import numpy as np
 import tensorflow as tf
 from tensorflow.python.eager import context
-from tensorflow.python.ops.while_v2 import _build_while_op
-from tensorflow.python.ops.while_v2 import glob_stateful_parallelism
 
 from ...config import get_config
 from ...operations import dataset
@@ -3714,19 +3710,12 @@ def _while_loop_(prot, cond, body, loop_vars):
             _wrapped_vars.append(var)
         return _wrapped_vars
 
-    @tf.function
-    def cond_wrapper(*unwrapped_loop_vars):
-        unwrapped_loop_vars = unwrapped_loop_vars[0:native_vars_nums]
-        wrapped_loop_vars = wrap(aux_info, unwrapped_loop_vars)
-        return cond(*wrapped_loop_vars)
+    def cond_wrapper(*native_vars):
+        return cond(*wrap(aux_info, native_vars))
 
-    @tf.function
-    def body_wrapper(*unwrapped_loop_vars):
-        unwrapped_loop_vars = unwrapped_loop_vars[0:native_vars_nums]
-        wrapped_loop_vars = wrap(aux_info, unwrapped_loop_vars)
-        wrapped_result = body(*wrapped_loop_vars)
-        _, unwrapped_result = unwrap(wrapped_result)
-        return unwrapped_result
+    def body_wrapper(*native_vars):
+        _, native_result = unwrap(body(*wrap(aux_info, native_vars)))
+        return native_result
 
     if context.executing_eagerly():
         while cond(*loop_vars):
@@ -3734,45 +3723,7 @@ def _while_loop_(prot, cond, body, loop_vars):
         return loop_vars
 
     aux_info, native_vars = unwrap(loop_vars)
-    native_vars_nums = len(native_vars)
-
-    body_func = body_wrapper.get_concrete_function(*native_vars)
-    native_vars.extend(body_func.captured_inputs)
-    cond_graph = cond_wrapper.get_concrete_function(*native_vars).graph
-    body_graph = body_func.graph
-    body_graph.outputs.extend(body_graph.internal_captures)
-    output_shapes = [var.shape for var in native_vars]
-
-    cond_graph.name = "".join(
-        random.choices(string.ascii_uppercase + string.digits, k=10)
-    )
-    body_graph.name = "".join(
-        random.choices(string.ascii_uppercase + string.digits, k=10)
-    )
-
-    if glob_stateful_parallelism == "stateless_cond":
-        stateful_parallelism = not any(
-            op._is_stateful for op in cond_graph.get_operations()
-        )
-    else:
-        stateful_parallelism = glob_stateful_parallelism
-
-    with tf.control_dependencies(
-        list(cond_graph.control_captures) + list(body_graph.control_captures)
-    ):
-        result = _build_while_op(
-            native_vars,
-            cond_graph,
-            body_graph,
-            output_shapes,
-            name="while_op",
-            parallel_iterations=10,
-            num_original_outputs=len(native_vars),
-            stateful_parallelism=stateful_parallelism,
-        )
-    result = result[:native_vars_nums]
-    if not isinstance(result, (tuple, list)):
-        result = [result]
+    result = tf.while_loop(cond_wrapper, body_wrapper, native_vars)
     return wrap(aux_info, result)
 
 
-- 
2.43.0


From ee3e8b62a3e6d79d404aff5b12338f50ee6a8af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:10 +0000
Subject: [PATCH 058/102] fix: queues without a shared name were all the same
 queue

---
 tf_encrypted/queue/fifo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/queue/fifo.py b/tf_encrypted/queue/fifo.py
index d93e828..5fa255c 100644
--- a/tf_encrypted/queue/fifo.py
+++ b/tf_encrypted/queue/fifo.py
@@ -62,11 +62,15 @@ class TFFIFOQueue(tf.queue.QueueBase):
         shapes = _as_shape_list(shapes, dtypes)
         names = _as_name_list(names, dtypes)
         with ops.init_scope(), ops.device("CPU"):
+            resource_name = shared_name
+            if not shared_name and tf.executing_eagerly():
+                # all queues without a name would be the same queue otherwise
+                resource_name = "anonymous_fifo_queue_{}".format(ops.uid())
             queue_ref = gen_data_flow_ops.fifo_queue_v2(
                 component_types=dtypes,
                 shapes=shapes,
                 capacity=capacity,
-                shared_name=shared_name,
+                shared_name=resource_name,
                 name=name,
             )
 
-- 
2.43.0


From f52b479f0231de4bfaa035a346f371d085a4301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:10 +0000
Subject: [PATCH 059/102] fix: dropping one of several handles destroyed the
 shared queue

---
 tf_encrypted/queue/fifo.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tf_encrypted/queue/fifo.py b/tf_encrypted/queue/fifo.py
index 5fa255c..d4288b2 100644
--- a/tf_encrypted/queue/fifo.py
+++ b/tf_encrypted/queue/fifo.py
@@ -16,6 +16,11 @@ from tensorflow.python.ops.data_flow_ops import gen_data_flow_ops
 import tf_encrypted as tfe
 
 
+# Handles of the queues shared under a name. A queue is destroyed along with the
+# first handle to it that is, while others may still be using it.
+_shared_handles = []
+
+
 # copy from tensorflow/python/ops/data_flow_ops.py
 # because we have to specify shared name in eager execution
 class TFFIFOQueue(tf.queue.QueueBase):
@@ -75,6 +80,8 @@ class TFFIFOQueue(tf.queue.QueueBase):
             )
 
         super(TFFIFOQueue, self).__init__(dtypes, shapes, names, queue_ref)
+        if shared_name and hasattr(self, "_resource_deleter"):
+            _shared_handles.append(self._resource_deleter)
 
 
 class AbstractFIFOQueue(abc.ABC):
-- 
2.43.0


From 179cce34a9ae078a19fab7bedcf316b0965ef8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:10 +0000
Subject: [PATCH 060/102] fix: concurrent users of a queue mixed up the shares
 of its elements

---
 tf_encrypted/protocol/pond/pond.py | 70 ++++++++++++++++++++++++------
 1 file changed, 56 insertions(+), 14 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index e96986d..babdaef 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1587,6 +1587,42 @@ class AdditiveFIFOQueue(AbstractFIFOQueue):
                 shared_name="{}-1".format(shared_name) if shared_name else None,
             )
 
+        # Elements consist of a share in each queue, so that these must be accessed
+        # together; a full lock is held, by whichever process or graph filled it.
+        with tf.device(self.server_0.device_name):
+            self.enqueue_lock, self.dequeue_lock = [
+                TFFIFOQueue(
+                    capacity=1,
+                    dtypes=[tf.bool],
+                    shapes=[()],
+                    shared_name="{}-{}".format(shared_name, lock)
+                    if shared_name
+                    else None,
+                )
+                for lock in ("enqueue-lock", "dequeue-lock")
+            ]
+
+    def _exclusively(self, lock, access):
+        """
+        Apply `access` to both queues while holding `lock`.
+        """
+        with tf.device(self.server_0.device_name):
+            locked = lock.enqueue(True)
+
+        results = []
+        try:
+            with tf.control_dependencies([locked]):
+                with tf.device(self.server_0.device_name):
+                    results.append(access(self.queue0, 0))
+                with tf.device(self.server_1.device_name):
+                    results.append(access(self.queue1, 1))
+        finally:
+            with tf.control_dependencies(results):
+                with tf.device(self.server_0.device_name):
+                    unlocked = lock.dequeue()
+
+        return results, unlocked
+
     def size(self):
         return self.queue0.size()
 
@@ -1601,24 +1637,30 @@ class AdditiveFIFOQueue(AbstractFIFOQueue):
         raw_tensor0 = tensor0.value
         raw_tensor1 = tensor1.value
 
-        with tf.device(self.server_0.device_name):
-            enqueue_op0 = self.queue0.enqueue(raw_tensor0)
-
-        with tf.device(self.server_1.device_name):
-            enqueue_op1 = self.queue1.enqueue(raw_tensor1)
-
-        enqueue_op = tf.group(enqueue_op0, enqueue_op1)
-        return enqueue_op
+        raw_tensors = [raw_tensor0, raw_tensor1]
+        _, unlocked = self._exclusively(
+            self.enqueue_lock,
+            lambda queue, i: queue.enqueue(raw_tensors[i]),
+        )
+        return tf.group(unlocked)
 
     def dequeue(self):
 
-        with tf.device(self.server_0.device_name):
-            raw_tensor0 = self.queue0.dequeue()
-            tensor_0 = self.dtype.tensor(raw_tensor0, encode=False)
+        raw_tensors, unlocked = self._exclusively(
+            self.dequeue_lock,
+            lambda queue, _: queue.dequeue(),
+        )
 
-        with tf.device(self.server_1.device_name):
-            raw_tensor1 = self.queue1.dequeue()
-            tensor_1 = self.dtype.tensor(raw_tensor1, encode=False)
+        with tf.control_dependencies([unlocked]):
+            with tf.device(self.server_0.device_name):
+                tensor_0 = self.dtype.tensor(
+                    tf.identity(raw_tensors[0]), encode=False
+                )
+
+            with tf.device(self.server_1.device_name):
+                tensor_1 = self.dtype.tensor(
+                    tf.identity(raw_tensors[1]), encode=False
+                )
 
         return PondPrivateTensor(
             self.protocol,
-- 
2.43.0


From 93f392ba68c4d1e2afea24c7b488d2e1b3a8363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:09 +0000
Subject: [PATCH 061/102] fix: compiled functions kept using the protocol of
 their first call

---
 tf_encrypted/protocol/protocol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index 73bbca0..2976c72 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -207,8 +207,9 @@ def function(func: Callable) -> Callable:
     tensorflow tensors and transform inversely.
     """
 
+    # the graph depends on the protocol, which hence is an argument as well
     @tf.function
-    def graph_function(args, kwargs):
+    def graph_function(prot, args, kwargs):
         args, kwargs = input_wrap(args, kwargs)
         result = func(*args, **kwargs)
         result = unwrap_func(result)
@@ -220,7 +221,7 @@ def function(func: Callable) -> Callable:
             return func(*args, **kwargs)
 
         args, kwargs = input_unwrap(args, kwargs)
-        result = graph_function(args, kwargs)
+        result = graph_function(tfe.get_protocol(), args, kwargs)
         result = wrap_func(result)
 
         return result
-- 
2.43.0


From af455abf831f7b419390609a2b51b440c40a4351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:10 +0000
Subject: [PATCH 062/102] fix: leaving nested scopes of a protocol did not
 restore the outer protocol

---
 tf_encrypted/protocol/protocol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index 2976c72..30b90ca 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -48,7 +48,8 @@ class Protocol(ABC):
     """
 
     def __enter__(self) -> "Protocol":
-        self.last_protocol = tfe.get_protocol()
+        # an instance may be entered again before it is exited
+        self.__dict__.setdefault("last_protocols", []).append(tfe.get_protocol())
         tfe.set_protocol(self)
         return self
 
@@ -58,7 +59,7 @@ class Protocol(ABC):
         exception_value: Optional[Exception],
         traceback: Optional[TracebackType],
     ) -> Optional[bool]:
-        tfe.set_protocol(self.last_protocol)
+        tfe.set_protocol(self.last_protocols.pop())
 
     def reset(self):
         pass
-- 
2.43.0


From 010650006770434ce7f352eafe2b4d3b629f8516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:10 +0000
Subject: [PATCH 063/102] fix: get_players returned players in another order
 than requested

---
 tf_encrypted/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/config.py b/tf_encrypted/config.py
index 3eb29c0..0bbc95a 100644
--- a/tf_encrypted/config.py
+++ b/tf_encrypted/config.py
@@ -145,7 +145,7 @@ class LocalConfig(Config):
         if isinstance(names, str):
             names = [name.strip() for name in names.split(",")]
         assert isinstance(names, list)
-        return [player for player in self._players if player.name in names]
+        return [p for name in names for p in self._players if p.name == name]
 
 
 class RemoteConfig(Config):
@@ -225,7 +225,7 @@ class RemoteConfig(Config):
         if isinstance(names, str):
             names = [name.strip() for name in names.split(",")]
         assert isinstance(names, list)
-        return [player for name, player in self._players.items() if name in names]
+        return [self._players[name] for name in names if name in self._players]
 
     def start_server(self, name, start=True):
         """Construct a :class:`tf.distribute.Server` object for the corresponding
-- 
2.43.0


From aa910b357d27ed2de9eb10fd7e8734d0a1caec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:10 +0000
Subject: [PATCH 064/102] fix: methods of a user-defined protocol stayed
 available after leaving it

---
 tf_encrypted/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf_encrypted/__init__.py b/tf_encrypted/__init__.py
index fca4fe4..d85dd29 100644
--- a/tf_encrypted/__init__.py
+++ b/tf_encrypted/__init__.py
@@ -76,6 +76,7 @@ def set_protocol(prot: Optional[protocol.Protocol] = None) -> None:
     if prot is not None:
         methods = inspect.getmembers(prot, predicate=inspect.ismethod)
         public_methods = [method for method in methods if not method[0].startswith("_")]
+        __all_prot_funcs__.update(name for name, _ in public_methods)
         for name, func in public_methods:
             globals()[name] = func
 
-- 
2.43.0


From 462c3ce041ade36488a89aed92325f45fe112ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:24 +0000
Subject: [PATCH 065/102] fix: ABY3 public inputs failed unless their owner was
 every server

---
 tf_encrypted/protocol/aby3/aby3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 72ad64e..5d5241d 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -714,7 +714,11 @@ class ABY3(Protocol):
             )
             v = self._encode(v, apply_scaling)
             w = factory.tensor(v)
-            return ABY3PublicTensor(self, [w, w, w], apply_scaling)
+            values = []
+            for server in self.servers:
+                with tf.device(server.device_name):
+                    values.append(w.identity())
+            return ABY3PublicTensor(self, values, apply_scaling)
 
         with tf.name_scope("public-input{}".format(suffix)):
 
-- 
2.43.0


From 87d98c1f2a0ffa31512342ede11e5554cd023e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:26 +0000
Subject: [PATCH 066/102] fix: set_weights of layers replaced the elements of
 the caller's list

---
 tf_encrypted/keras/engine/base_layer.py    | 1 +
 tf_encrypted/keras/layers/convolutional.py | 1 +
 tf_encrypted/keras/layers/normalization.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/tf_encrypted/keras/engine/base_layer.py b/tf_encrypted/keras/engine/base_layer.py
index c8f6551..69bf725 100644
--- a/tf_encrypted/keras/engine/base_layer.py
+++ b/tf_encrypted/keras/engine/base_layer.py
@@ -130,6 +130,7 @@ class Layer(ABC):
         """
         weights_types = (np.ndarray, TFEPrivateTensor)
         assert isinstance(weights[0], weights_types), type(weights[0])
+        weights = list(weights)
 
         if isinstance(weights[0], np.ndarray):
             for index, weight in enumerate(weights):
diff --git a/tf_encrypted/keras/layers/convolutional.py b/tf_encrypted/keras/layers/convolutional.py
index 1707f43..b3cdc14 100644
--- a/tf_encrypted/keras/layers/convolutional.py
+++ b/tf_encrypted/keras/layers/convolutional.py
@@ -610,6 +610,7 @@ class DepthwiseConv2D(Conv2D):
 
         weights_types = (np.ndarray, TFEPrivateTensor)
         assert isinstance(weights[0], weights_types), type(weights[0])
+        weights = list(weights)
 
         # Assign new keras weights to existing weights defined by
         # default when tfe layer was instantiated
diff --git a/tf_encrypted/keras/layers/normalization.py b/tf_encrypted/keras/layers/normalization.py
index 064deb0..48a144e 100644
--- a/tf_encrypted/keras/layers/normalization.py
+++ b/tf_encrypted/keras/layers/normalization.py
@@ -226,6 +226,7 @@ class BatchNormalization(Layer):
 
         weights_types = (np.ndarray, TFEPublicTensor)
         assert isinstance(weights[0], weights_types), type(weights[0])
+        weights = list(weights)
         if isinstance(weights[0], np.ndarray):
             for index, weight in enumerate(weights):
                 weights[index] = tfe.define_public_variable(weight)
-- 
2.43.0


From 474b2bf1da5b2b1aa21888da79bb46f0804a2eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:26 +0000
Subject: [PATCH 067/102] fix: predict kept the first call's choice of
 revealing the result

---
 tf_encrypted/keras/models/base_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index c548f8f..6375a12 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -31,6 +31,7 @@ class BaseModel(Layer):
         self._optimizer = None
         self.train_function = None
         self.predict_function = None
+        self._predict_reveal = None
         self.test_function = None
 
     def __call__(self, inputs, *args, **kargs):
@@ -139,8 +140,9 @@ class BaseModel(Layer):
     def predict(self, x, batch_size=32, reveal=True):
         y_preds = []
         data_iter = data_wrap(x, None, batch_size)
-        if self.predict_function is None:
+        if self.predict_function is None or self._predict_reveal != reveal:
             self.predict_function = self.make_predict_function(reveal)
+            self._predict_reveal = reveal
 
         for input_x in data_iter:
             y_pred = self.predict_function(input_x)
-- 
2.43.0


From e773d4eb0ecc9543f1d3f17b4715b7010eba0271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:26 +0000
Subject: [PATCH 068/102] fix: batches of training data were counted by
 features instead of samples

---
 tf_encrypted/keras/models/base_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index 6375a12..bbe5ca3 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -214,7 +214,7 @@ def data_wrap(x, y=None, batch_size=32):
         def iter_over_data(x_data, y_data, batch_size):
             start_index = 0
             end_index = batch_size
-            while start_index < x_data[0].shape[0]:
+            while start_index < x_data.shape[0]:
                 yield (x_data[start_index:end_index], y_data[start_index:end_index])
                 start_index += batch_size
                 end_index += batch_size
-- 
2.43.0


From 2caa8c8a284b7649dc63e62792f8c6927941fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 069/102] fix: fit trained only in the first epoch: the batches
 were not started anew

---
 tf_encrypted/keras/models/base_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index bbe5ca3..e312569 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -110,12 +110,12 @@ class BaseModel(Layer):
                 the batch size, or 1 if that cannot be determined.
         """
 
-        data_iter = data_wrap(x, y, batch_size)
         if self.train_function is None:
             self.train_function = self.make_train_function()
         for e in range(epochs):
             print("Epoch {}/{}".format(e + 1, epochs))
             progbar = utils.Progbar(steps_per_epoch, verbose=verbose)
+            data_iter = data_wrap(x, y, batch_size)
             for index, (input_x, input_y) in enumerate(data_iter):
                 start = time.time()
                 current_loss = self.train_function(input_x, input_y)
-- 
2.43.0


From e27a57669179c710936790a06714a464cdc91a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 070/102] fix: evaluate on tensors failed with its default
 batch size

---
 tf_encrypted/keras/models/base_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index e312569..009b5a6 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -207,6 +207,8 @@ class BaseModel(Layer):
 
 
 def data_wrap(x, y=None, batch_size=32):
+    if batch_size is None:
+        batch_size = 32
     if isinstance(x, Iterator):
         return x
     elif isinstance(x, TFEPrivateTensor) and isinstance(y, TFEPrivateTensor):
-- 
2.43.0


From 0da1acd3235b4f4028b99bf158a5ba712cb01e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 071/102] fix: output shape of convolution layers used the
 vertical stride for the width

---
 tf_encrypted/keras/layers/convolutional.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/keras/layers/convolutional.py b/tf_encrypted/keras/layers/convolutional.py
index b3cdc14..c88fea2 100644
--- a/tf_encrypted/keras/layers/convolutional.py
+++ b/tf_encrypted/keras/layers/convolutional.py
@@ -302,10 +302,10 @@ class Conv2D(Layer):
 
         if self.padding == "SAME":
             h_out = int(np.ceil(float(h_x) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x) / float(self.strides[1])))
         if self.padding == "VALID":
             h_out = int(np.ceil(float(h_x - h_filter + 1) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[1])))
 
         if self.data_format == "channels_first":
             return [n_x, n_filters, h_out, w_out]
@@ -577,10 +577,10 @@ class DepthwiseConv2D(Conv2D):
 
         if self.padding == "SAME":
             h_out = int(np.ceil(float(h_x) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x) / float(self.strides[1])))
         if self.padding == "VALID":
             h_out = int(np.ceil(float(h_x - h_filter + 1) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[1])))
 
         return [n_x, n_filters, h_out, w_out]
 
-- 
2.43.0


From 7eb0de3cf163acc18f654c6ff5c260efb87cbfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 072/102] fix: output shape of DepthwiseConv2D had the wrong
 channels and order

---
 tf_encrypted/keras/layers/convolutional.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/keras/layers/convolutional.py b/tf_encrypted/keras/layers/convolutional.py
index c88fea2..ad873f0 100644
--- a/tf_encrypted/keras/layers/convolutional.py
+++ b/tf_encrypted/keras/layers/convolutional.py
@@ -568,7 +568,8 @@ class DepthwiseConv2D(Conv2D):
 
     def compute_output_shape(self, input_shape):
         """Compute output_shape for the layer."""
-        h_filter, w_filter, _, n_filters = self.kernel_shape
+        h_filter, w_filter, _, _ = self.kernel_shape
+        n_filters = self.input_dim * self.depth_multiplier
 
         if self.data_format == "channels_first":
             n_x, _, h_x, w_x = input_shape
@@ -582,7 +583,10 @@ class DepthwiseConv2D(Conv2D):
             h_out = int(np.ceil(float(h_x - h_filter + 1) / float(self.strides[0])))
             w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[1])))
 
-        return [n_x, n_filters, h_out, w_out]
+        if self.data_format == "channels_first":
+            return [n_x, n_filters, h_out, w_out]
+        else:
+            return [n_x, h_out, w_out, n_filters]
 
     def get_mask(self, in_channels):
         mask = np.zeros(
-- 
2.43.0


From 92e5de291a2aa30846fb67591d0e5413fbc03ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 073/102] fix: GlobalMaxPooling2D ignored keepdims

---
 tf_encrypted/keras/layers/pooling.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/layers/pooling.py b/tf_encrypted/keras/layers/pooling.py
index 81b6c2f..584fbd9 100644
--- a/tf_encrypted/keras/layers/pooling.py
+++ b/tf_encrypted/keras/layers/pooling.py
@@ -427,6 +427,11 @@ class GlobalMaxPooling2D(GlobalPooling2D):
 
         self._layer_output = (outputs, outputs_argmax)
 
+        if self.keepdims:
+            outputs = outputs.reshape(
+                self.compute_output_shape(self._layer_input.shape)
+            )
+
         return outputs
 
     def backward(self, d_y):
@@ -438,7 +443,7 @@ class GlobalMaxPooling2D(GlobalPooling2D):
         else:
             batch, channels, h_x, w_x = x.shape
 
-        _d_y = tfe.expand_dims(d_y, axis=2)
+        _d_y = tfe.reshape(d_y, [batch, channels, 1])
         d_x = tfe.tile(_d_y, multiples=[1, 1, h_x * w_x])
         d_x = d_x * y_arg
         d_x = tfe.reshape(d_x, [batch, channels, h_x, w_x])
-- 
2.43.0


From 15b92f7f25e4735bd8f180df1bd35eb4637e3a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 074/102] fix: gradient of GlobalAveragePooling2D with keepdims
 had mixed up axes

---
 tf_encrypted/keras/layers/pooling.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/keras/layers/pooling.py b/tf_encrypted/keras/layers/pooling.py
index 584fbd9..661142b 100644
--- a/tf_encrypted/keras/layers/pooling.py
+++ b/tf_encrypted/keras/layers/pooling.py
@@ -375,9 +375,11 @@ class GlobalAveragePooling2D(GlobalPooling2D):
         else:
             h_x, w_x = (x.shape[2], x.shape[3])
 
-        _d_y = d_y * self.scalar
-        if not self.keepdims:
-            _d_y = tfe.expand_dims(tfe.expand_dims(_d_y, axis=2), axis=3)
+        batch, channels = (x.shape[0], x.shape[-1])
+        if self.data_format != "channels_last":
+            channels = x.shape[1]
+
+        _d_y = tfe.reshape(d_y * self.scalar, [batch, channels, 1, 1])
 
         d_x = tfe.tile(_d_y, multiples=[1, 1, h_x, w_x])
 
-- 
2.43.0


From 7a6b34c731de0943851fee401fa6b8778e1c0d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 075/102] fix: gradient of Flatten with channels_first was not
 transposed back

---
 tf_encrypted/keras/layers/flatten.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/layers/flatten.py b/tf_encrypted/keras/layers/flatten.py
index f9660a5..80d5639 100644
--- a/tf_encrypted/keras/layers/flatten.py
+++ b/tf_encrypted/keras/layers/flatten.py
@@ -53,8 +53,15 @@ class Flatten(Layer):
         grad_weights = []
 
         input_shape = x.shape.as_list()
+        rank = len(input_shape)
 
-        d_x = tfe.reshape(d_y, input_shape)
+        if self.data_format == "channels_first" and rank > 1:
+            # the channels were moved to the end before flattening
+            d_x = tfe.reshape(d_y, input_shape[:1] + input_shape[2:] + input_shape[1:2])
+            perm = [0, rank - 1] + list(range(1, rank - 1))
+            d_x = tfe.transpose(d_x, perm=perm)
+        else:
+            d_x = tfe.reshape(d_y, input_shape)
         return grad_weights, d_x
 
     def compute_output_shape(self, input_shape):
-- 
2.43.0


From fd0fd05b8ab7c709f18858cbe1af0349603367a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 076/102] fix: the derivative of no activation was a function
 of one argument

---
 tf_encrypted/keras/activations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/activations.py b/tf_encrypted/keras/activations.py
index 60f25a1..a776242 100644
--- a/tf_encrypted/keras/activations.py
+++ b/tf_encrypted/keras/activations.py
@@ -59,7 +59,7 @@ def get(identifier):
 def get_deriv(identifier):
     """get the activation derivative function"""
     if identifier is None:
-        return linear
+        return linear_deriv
     if callable(identifier):
         raise NotImplementedError(
             "During training, please use a string "
-- 
2.43.0


From ae88eaccd0ee8fb5b2c9b32848b985364327bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:09 +0000
Subject: [PATCH 077/102] fix: gradient of Conv2D failed with unequal strides
 and with strides that leave a rest

---
 tf_encrypted/keras/layers/convolutional.py | 18 ++++++++++++++----
 tf_encrypted/protocol/aby3/aby3.py         |  8 +++++---
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/tf_encrypted/keras/layers/convolutional.py b/tf_encrypted/keras/layers/convolutional.py
index ad873f0..dc71296 100644
--- a/tf_encrypted/keras/layers/convolutional.py
+++ b/tf_encrypted/keras/layers/convolutional.py
@@ -211,12 +211,21 @@ class Conv2D(Layer):
         else:
             d_y = tfe.transpose(d_y, perm=[1, 2, 0, 3])
 
-        inner_padded_d_y = tfe.expand(d_y, self.strides[0])
+        # Padding of the input, and rows and columns no window reached
+        pad_top = pad_bottom = pad_left = pad_right = 0
+        if self.padding == "SAME":
+            [[pad_top, pad_bottom], [pad_left, pad_right]] = self.pad_size(h_x, w_x)
+        h_padded = h_x + pad_top + pad_bottom
+        w_padded = w_x + pad_left + pad_right
+        h_rest = (h_padded - self.kernel_size[0]) % self.strides[0]
+        w_rest = (w_padded - self.kernel_size[1]) % self.strides[1]
+
+        inner_padded_d_y = tfe.expand(d_y, self.strides)
         padded_d_y = tfe.pad(
             inner_padded_d_y,
             [
-                [self.kernel_size[0] - 1, self.kernel_size[0] - 1],
-                [self.kernel_size[1] - 1, self.kernel_size[1] - 1],
+                [self.kernel_size[0] - 1, self.kernel_size[0] - 1 + h_rest],
+                [self.kernel_size[1] - 1, self.kernel_size[1] - 1 + w_rest],
             ],
         )
 
@@ -232,7 +241,6 @@ class Conv2D(Layer):
 
         # Remove padding, if any
         if self.padding == "SAME":
-            [[pad_top, pad_bottom], [pad_left, pad_right]] = self.pad_size(h_x, w_x)
             d_x = d_x[
                 :,
                 :,
@@ -242,6 +250,8 @@ class Conv2D(Layer):
             x = tfe.pad(
                 x, [[0, 0], [0, 0], [pad_top, pad_bottom], [pad_left, pad_right]]
             )
+        if h_rest > 0 or w_rest > 0:
+            x = x[:, :, : (h_padded - h_rest), : (w_padded - w_rest)]
 
         if self.data_format != "channels_first":
             d_x = tfe.transpose(d_x, perm=[0, 2, 3, 1])
diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 5d5241d..54a3cb1 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -1785,6 +1785,7 @@ class ABY3(Protocol):
             ]
             ```
         NOTE: `x` should have at least two dimensions, and only the first two dimensions will be padded.
+        `stride` is an integer, or a pair of integers for the two dimensions.
         """
         return self.dispatch("expand", x, stride)
 
@@ -5429,12 +5430,13 @@ def _expand_private(prot, x, stride):
 
     h_in = x.shape[0]
     w_in = x.shape[1]
-    h_out = (h_in - 1) * stride + 1
-    w_out = (w_in - 1) * stride + 1
+    h_stride, w_stride = stride if isinstance(stride, (list, tuple)) else (stride,) * 2
+    h_out = (h_in - 1) * h_stride + 1
+    w_out = (w_in - 1) * w_stride + 1
     shape_out = [h_out, w_out] + x.shape[2:]
 
     I, J = tf.meshgrid(
-        tf.range(h_out, delta=stride), tf.range(w_out, delta=stride), indexing="ij"
+        tf.range(h_out, delta=h_stride), tf.range(w_out, delta=w_stride), indexing="ij"
     )
     indices = tf.stack([I, J], axis=2)
 
-- 
2.43.0


From fd79d4c127e3f78c847eebd00b8935b1202fa5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:47 +0000
Subject: [PATCH 078/102] fix: layers with trainable=False were trained

---
 tf_encrypted/keras/models/sequential.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/sequential.py b/tf_encrypted/keras/models/sequential.py
index 0cae08e..d0092d3 100644
--- a/tf_encrypted/keras/models/sequential.py
+++ b/tf_encrypted/keras/models/sequential.py
@@ -127,7 +127,10 @@ class Sequential(BaseModel):
         for i in range(len(self.layers) - 1, -1, -1):
             with tf.name_scope(self.layers[i].name + "/backward"):
                 grad_weights, d_y = self.layers[i].backward(d_y)
-                self._optimizer.apply_gradients(self.layers[i].weights, grad_weights)
+                if self.layers[i].trainable:
+                    self._optimizer.apply_gradients(
+                        self.layers[i].weights, grad_weights
+                    )
 
     def compile(self, optimizer, loss):
         """Configures the model for training.
-- 
2.43.0


From a54ee935cdfd5e36650689514ed935501280110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 079/102] fix: SAME padding of maxpool2d beat negative values

---
 tf_encrypted/protocol/aby3/aby3.py         | 32 ++++++++++++++++++++
 tf_encrypted/protocol/securenn/securenn.py | 35 ++++++++++++++++++++++
 tf_encrypted/tensor/shared.py              | 18 +++++++++++
 3 files changed, 85 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 54a3cb1..28543a9 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -32,6 +32,7 @@ from ...tensor.fixed import FixedpointConfig
 from ...tensor.fixed import fixed64_heuristic
 from ...tensor.fixed import fixed128_heuristic
 from ...tensor.shared import out_size
+from ...tensor.shared import pool_counts
 from ..protocol import Protocol
 from ..protocol import memoize
 from . import fp
@@ -5246,6 +5247,19 @@ def _maxpool2d_private(
     return __maxpool2d_computation(prot, x, pool_size, strides, padding)
 
 
+def _pool_offset(prot: ABY3, x: ABY3Tensor) -> ABY3PublicTensor:
+    """Public value that exceeds the absolute value of anything in `x`."""
+    factory = x.backing_dtype
+    value = 1 << (factory.nbits - 2)
+
+    offset = [None, None, None]
+    for i in range(3):
+        with tf.device(prot.servers[i].device_name):
+            offset[i] = factory.constant(np.array(value).astype(object))
+
+    return ABY3PublicTensor(prot, offset, x.is_scaled)
+
+
 def __maxpool2d_computation(
     prot: ABY3,
     x: ABY3Tensor,
@@ -5257,10 +5271,19 @@ def __maxpool2d_computation(
     out_height, out_width = out_size([height, width], pool_size, strides, padding)
 
     with tf.name_scope("maxpool2d"):
+        # Padding consists of zeros, so lift the values above them
+        counts = pool_counts([height, width], pool_size, strides, padding)
+        offset = None
+        if np.any(counts < pool_size[0] * pool_size[1]):
+            offset = _pool_offset(prot, x)
+            x = x + offset
+
         x_split = x.reshape((batch * channels, 1, height, width))
 
         y = prot.im2patches(x_split, pool_size, strides=strides, padding=padding)
         i2c_max = y.reduce_max(axis=1)
+        if offset is not None:
+            i2c_max = i2c_max - offset
         result = i2c_max.reshape([batch, channels, out_height, out_width])
         return result
 
@@ -5287,6 +5310,13 @@ def __maxpool2d_with_argmax_computation(
     out_height, out_width = out_size([height, width], pool_size, strides, padding)
 
     with tf.name_scope("maxpool2d-with-argmax"):
+        # Padding consists of zeros, so lift the values above them
+        counts = pool_counts([height, width], pool_size, strides, padding)
+        offset = None
+        if np.any(counts < pool_size[0] * pool_size[1]):
+            offset = _pool_offset(prot, x)
+            x = x + offset
+
         x_split = x.reshape((batch * channels, 1, height, width))
 
         y = prot.im2patches(
@@ -5295,6 +5325,8 @@ def __maxpool2d_with_argmax_computation(
         i2c_max, i2c_argmax = prot.reduce_max_with_argmax(
             y, axis=1, output_style="onehot"
         )
+        if offset is not None:
+            i2c_max = i2c_max - offset
         i2c_max = i2c_max.reshape([batch, channels, out_height, out_width])
         i2c_argmax = prot.transpose(i2c_argmax, perm=[0, 2, 3, 1]).reshape(
             [batch, channels, out_height, out_width, -1]
diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 1c59691..fef3012 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -30,6 +30,7 @@ from tf_encrypted.tensor import int64factory
 from tf_encrypted.tensor import native_factory
 from tf_encrypted.tensor.factory import AbstractFactory
 from tf_encrypted.tensor.factory import AbstractTensor
+from tf_encrypted.tensor.shared import pool_counts
 
 _thismodule = sys.modules[__name__]
 
@@ -853,6 +854,34 @@ def _im2col(
     return y_on_0, y_on_1, [out_height, out_width, int(batch), int(channels)]
 
 
+def _lift_above_padding(
+    prot: Pond,
+    x: PondTensor,
+    pool_size: Tuple[int, int],
+    strides: Tuple[int, int],
+    padding: str,
+) -> Tuple[PondTensor, Optional[PondPublicTensor]]:
+    """
+    Padding consists of zeros, so if there is any then add a public offset that
+    lifts all values above them; the offset must be subtracted from the maximum.
+    """
+    counts = pool_counts(x.shape[2:], pool_size, strides, padding)
+    if np.all(counts == pool_size[0] * pool_size[1]):
+        return x, None
+
+    factory = x.backing_dtype
+    value = factory.modulus // 4
+
+    with tf.device(prot.server_0.device_name):
+        offset_on_0 = factory.constant(np.array(value).astype(object))
+
+    with tf.device(prot.server_1.device_name):
+        offset_on_1 = factory.constant(np.array(value).astype(object))
+
+    offset = PondPublicTensor(prot, offset_on_0, offset_on_1, x.is_scaled)
+    return x + offset, offset
+
+
 def _maxpool2d_public(
     prot: Pond,
     x: PondPublicTensor,
@@ -862,9 +891,12 @@ def _maxpool2d_public(
 ) -> PondPublicTensor:
     """Logic for performing maxpool2d on public input."""
     with tf.name_scope("maxpool2d"):
+        x, offset = _lift_above_padding(prot, x, pool_size, strides, padding)
         y_on_0, y_on_1, reshape_to = _im2col(prot, x, pool_size, strides, padding)
         im2col = PondPublicTensor(prot, y_on_0, y_on_1, x.is_scaled)
         i2c_max = im2col.reduce_max(axis=0)
+        if offset is not None:
+            i2c_max = i2c_max - offset
         result = i2c_max.reshape(reshape_to).transpose([2, 3, 0, 1])
         return result
 
@@ -878,9 +910,12 @@ def _maxpool2d_private(
 ) -> PondPrivateTensor:
     """Logic for performing maxpool2d on private input."""
     with tf.name_scope("maxpool2d"):
+        x, offset = _lift_above_padding(prot, x, pool_size, strides, padding)
         y_on_0, y_on_1, reshape_to = _im2col(prot, x, pool_size, strides, padding)
         im2col = PondPrivateTensor(prot, y_on_0, y_on_1, x.is_scaled)
         i2c_max = im2col.reduce_max(axis=0)
+        if offset is not None:
+            i2c_max = i2c_max - offset
         result = i2c_max.reshape(reshape_to).transpose([2, 3, 0, 1])
         return result
 
diff --git a/tf_encrypted/tensor/shared.py b/tf_encrypted/tensor/shared.py
index 8881a54..cd4ede4 100644
--- a/tf_encrypted/tensor/shared.py
+++ b/tf_encrypted/tensor/shared.py
@@ -2,6 +2,7 @@
 import math
 from typing import Optional
 
+import numpy as np
 import tensorflow as tf
 
 
@@ -259,6 +260,23 @@ def out_size(in_size, pool_size, strides, padding):
     return [out_height, out_width]
 
 
+def pool_counts(in_size, pool_size, strides, padding):
+    """
+    Number of entries of the input, not counting padding, under each of the
+    windows of a 2D pooling operation, as an array of shape `out_size`.
+    """
+
+    counts = []
+    for n_in, n_out, size, stride in zip(
+        in_size, out_size(in_size, pool_size, strides, padding), pool_size, strides
+    ):
+        n_in = int(n_in)
+        pad = max((n_out - 1) * stride + size - n_in, 0) if padding == "SAME" else 0
+        start = np.arange(n_out) * stride - pad // 2
+        counts.append(np.minimum(start + size, n_in) - np.maximum(start, 0))
+    return np.outer(counts[0], counts[1])
+
+
 def conv2d(x, y, strides=[1, 1], padding="SAME", data_format="NCHW"):
     """
     Generic convolution implementation with im2col over AbstractTensors.
-- 
2.43.0


From c048092c9b6a418e0dc4e8d705a3836ecdd4b582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:20 +0000
Subject: [PATCH 080/102] fix: SAME padding of avgpool2d counted as zeros

---
 tf_encrypted/keras/layers/pooling.py | 11 ++++++++---
 tf_encrypted/protocol/aby3/aby3.py   | 11 +++++++----
 tf_encrypted/protocol/pond/pond.py   | 10 ++++++++--
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/tf_encrypted/keras/layers/pooling.py b/tf_encrypted/keras/layers/pooling.py
index 661142b..609b8a4 100644
--- a/tf_encrypted/keras/layers/pooling.py
+++ b/tf_encrypted/keras/layers/pooling.py
@@ -2,10 +2,12 @@
 import math
 from abc import abstractmethod
 
+import numpy as np
 from tensorflow.python.keras.utils import conv_utils
 
 import tf_encrypted as tfe
 from tf_encrypted.keras.engine import Layer
+from tf_encrypted.tensor.shared import pool_counts
 
 
 class Pooling2D(Layer):
@@ -261,7 +263,6 @@ class AveragePooling2D(Pooling2D):
     def backward(self, d_y):
         x = self._layer_input
         pool_len = self.pool_size[0] * self.pool_size[1]
-        scalar = 1 / pool_len
 
         if self.data_format != "channels_first":
             d_y = tfe.transpose(d_y, perm=[0, 3, 1, 2])
@@ -271,8 +272,12 @@ class AveragePooling2D(Pooling2D):
 
         batch, channels, h_y, w_y = d_y.shape
 
-        _d_y = tfe.tile(tfe.expand_dims(d_y, 4), [1, 1, 1, 1, pool_len])
-        _d_y = _d_y * scalar
+        # Padding does not count
+        scalar = 1 / pool_counts((h_x, w_x), self.pool_size, self.strides, self.padding)
+        if np.all(scalar == scalar[0, 0]):
+            scalar = float(scalar[0, 0])
+
+        _d_y = tfe.tile(tfe.expand_dims(d_y * scalar, 4), [1, 1, 1, 1, pool_len])
         _d_y = tfe.reshape(_d_y, [batch * channels, h_y, w_y, pool_len])
 
         d_x = tfe.patches2im(
diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 28543a9..72367de 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5365,17 +5365,20 @@ def __avgpool2d_computation(
 ) -> ABY3Tensor:
     batch, channels, height, width = x.shape
     out_height, out_width = out_size([height, width], pool_size, strides, padding)
-    scalar = 1 / (pool_size[0] * pool_size[1])
+    # Padding does not count
+    scalar = 1 / pool_counts([height, width], pool_size, strides, padding)
 
     with tf.name_scope("avgpool2d"):
         x_split = x.reshape((batch * channels, 1, height, width))
 
         y = prot.im2col(x_split, pool_size[0], pool_size[1], strides, padding)
-        i2c_max = y.reduce_sum(axis=0) * scalar
-        result = i2c_max.reshape([out_height, out_width, batch, channels]).transpose(
+        i2c_sum = y.reduce_sum(axis=0)
+        result = i2c_sum.reshape([out_height, out_width, batch, channels]).transpose(
             [2, 3, 0, 1]
         )
-        return result
+        if np.all(scalar == scalar[0, 0]):
+            scalar = float(scalar[0, 0])
+        return result * scalar
 
 
 def _ones_private(prot, shape, apply_scaling, share_type, factory) -> ABY3PrivateTensor:
diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index babdaef..5299d84 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -40,6 +40,7 @@ from ...tensor.factory import AbstractVariable
 from ...tensor.fixed import FixedpointConfig
 from ...tensor.fixed import _validate_fixedpoint_config
 from ...tensor.helpers import inverse
+from ...tensor.shared import pool_counts
 from ..protocol import Protocol
 from ..protocol import TFEPrivateTensor
 from ..protocol import TFEPrivateVariable
@@ -3369,10 +3370,15 @@ def _avgpool2d_core(
     pool_size: Tuple[int, int],
     strides: Tuple[int, int],
     padding: str,
-) -> Tuple[AbstractTensor, AbstractTensor, float]:
+) -> Tuple[AbstractTensor, AbstractTensor, Union[float, PondConstant]]:
     x_on_0, x_on_1 = x.unwrapped
     _, _, h, w = x.shape
-    scalar = 1 / (pool_size[0] * pool_size[1])
+    # Padding does not count
+    scalar = 1 / pool_counts([h, w], pool_size, strides, padding)
+    if np.all(scalar == scalar[0, 0]):
+        scalar = float(scalar[0, 0])
+    else:
+        scalar = prot.define_constant(scalar)
     siamese = pool_size == strides and pool_size[0] == pool_size[1]
     even = h % pool_size[0] == 0 and w % pool_size[1] == 0
 
-- 
2.43.0


From d088b1240425e234aa3aabef426209e2a63627df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:25 +0000
Subject: [PATCH 081/102] fix: ABY3 could not multiply a public value by a
 negative power of two

---
 tf_encrypted/protocol/aby3/aby3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 72367de..ec27286 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2720,6 +2720,11 @@ def _truncate_heuristic_private(
     return z
 
 
+def _truncate_heuristic_public(prot, x, amount):
+    # Truncation of a public value is exact
+    return _truncate_local_public(prot, x, amount)
+
+
 def _truncate_local_public(prot, x, amount):
     assert isinstance(x, ABY3PublicTensor)
 
-- 
2.43.0


From 7306e3def56912be06db6e3cc53d615b199b47aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 082/102] fix: ABY3 argmax over a single element was public, so
 max pooling of 1x1 windows had no gradient

---
 tf_encrypted/protocol/aby3/aby3.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index ec27286..76f7f02 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5158,6 +5158,20 @@ def _reduce_max_with_argmax_private(
         with tf.name_scope("comparison-tree"):
             maximum, argmax = build_comparison_tree(tensors, indices)
 
+        if n == 1:
+            # Nothing was compared, so the argmax is still public
+            share_type = (
+                ShareType.BOOLEAN if output_style == "onehot" else ShareType.ARITHMETIC
+            )
+            zeros = _zeros_private(
+                prot, argmax.shape, argmax.is_scaled, share_type, argmax.backing_dtype
+            )
+            argmax = (
+                prot.xor(argmax, zeros)
+                if output_style == "onehot"
+                else prot.add(argmax, zeros)
+            )
+
         if not keepdims:
             maximum = prot.squeeze(maximum, axis=(axis,))
         if output_style == "normal":
-- 
2.43.0


From b58b84a309b7e2d59f91f5fdb426540928462619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:44 +0000
Subject: [PATCH 083/102] fix: converter could not read initializers stored as
 typed data

---
 tf_encrypted/convert/convert.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/tf_encrypted/convert/convert.py b/tf_encrypted/convert/convert.py
index 483acb7..b1b2d91 100644
--- a/tf_encrypted/convert/convert.py
+++ b/tf_encrypted/convert/convert.py
@@ -8,11 +8,10 @@ from typing import List
 from typing import Optional
 from typing import Union
 
-import numpy as np
 import onnx
 import tensorflow as tf
 import tf2onnx
-from onnx.mapping import TENSOR_TYPE_TO_NP_TYPE
+from onnx import numpy_helper
 from onnx.onnx_ml_pb2 import ModelProto
 from tf2onnx import optimizer
 
@@ -172,13 +171,8 @@ class Converter:
         initializers = {}
 
         for initializer in model_proto.graph.initializer:
-            name = initializer.name
-            shape = initializer.dims
-            data_type = TENSOR_TYPE_TO_NP_TYPE[initializer.data_type]
-            data = np.frombuffer(initializer.raw_data, dtype=data_type)
-            data = data.reshape(shape)
-            data = tf.convert_to_tensor(data)
-            initializers[name] = data
+            data = numpy_helper.to_array(initializer)
+            initializers[initializer.name] = tf.convert_to_tensor(data)
         return initializers
 
     def _build_node(
-- 
2.43.0


From c299e3a0187d8f02c6becbf70b32de6da55d078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:44 +0000
Subject: [PATCH 084/102] fix: converter confused nodes without a name

---
 tf_encrypted/convert/convert.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tf_encrypted/convert/convert.py b/tf_encrypted/convert/convert.py
index b1b2d91..d935402 100644
--- a/tf_encrypted/convert/convert.py
+++ b/tf_encrypted/convert/convert.py
@@ -116,7 +116,7 @@ class Converter:
                 self.tfe_nodes = tfe_nodes
                 self.forward_func = forward_func
                 self.weights = []
-                for tfe_node in self.tfe_nodes.values():
+                for tfe_node in self.tfe_nodes:
                     self.weights.append(tfe_node.weights)
                 self.backward_func = None
                 self.backward_builder = backward_builder
@@ -178,7 +178,8 @@ class Converter:
     def _build_node(
         self, model_input_shapes, model_proto, model_initializers, model_providers
     ):
-        tfe_nodes = {}
+        # names of nodes are optional, so they are kept in order
+        tfe_nodes = []
         input_shapes = {}
         for index, input in enumerate(model_proto.graph.input):
             input_shapes[input.name] = model_input_shapes[index]
@@ -195,7 +196,7 @@ class Converter:
                         "Node " + node.name + " input: " + input + " doesn't found!"
                     )
             tfe_node = build_node(node, inputs, model_providers)
-            tfe_nodes[node.name] = tfe_node
+            tfe_nodes.append(tfe_node)
             for index, output in enumerate(node.output):
                 input_shapes[output] = tfe_node.output_shape[index]
 
@@ -208,13 +209,13 @@ class Converter:
             node_outputs = {}
             for index, input in enumerate(model_proto.graph.input):
                 node_outputs[input.name] = x[index]
-            for node in nodes:
+            for node, tfe_node in zip(nodes, tfe_nodes):
                 inputs = []
                 for input in node.input:
                     if input in node_outputs.keys():
                         inputs.append(node_outputs[input])
-                with tf.name_scope(node.name + "/forward"):
-                    res = tfe_nodes[node.name].forward(inputs)
+                with tf.name_scope((node.name or node.op_type) + "/forward"):
+                    res = tfe_node.forward(inputs)
                 for i, output in enumerate(node.output):
                     node_outputs[output] = res[i]
             res = []
@@ -232,13 +233,12 @@ class Converter:
             dy_dict = {}
             for index, output in enumerate(model_proto.graph.output):
                 dy_dict[output.name] = d_y[index]
-            for node in reversed(nodes):
+            for node, tfe_node in zip(reversed(nodes), reversed(tfe_nodes)):
                 d_y = []
-                tfe_node = tfe_nodes[node.name]
                 for output in node.output:
                     d_y.append(dy_dict[output])
 
-                with tf.name_scope(node.name + "/backward"):
+                with tf.name_scope((node.name or node.op_type) + "/backward"):
                     grad_weights, d_y = tfe_node.backward(d_y)
                     optimizer.apply_gradients(tfe_node.weights, grad_weights)
 
-- 
2.43.0


From 59ee30b7ab3214dc031bee6cf4574ea6d9994c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:44 +0000
Subject: [PATCH 085/102] fix: converted models lost all but one gradient of a
 value used more than once

---
 tf_encrypted/convert/convert.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/convert/convert.py b/tf_encrypted/convert/convert.py
index d935402..59a7ed7 100644
--- a/tf_encrypted/convert/convert.py
+++ b/tf_encrypted/convert/convert.py
@@ -245,7 +245,11 @@ class Converter:
                 index = 0
                 for input in node.input:
                     if input in nodes_output:
-                        dy_dict[input] = d_y[index]
+                        if input in dy_dict:
+                            # used more than once
+                            dy_dict[input] = dy_dict[input] + d_y[index]
+                        else:
+                            dy_dict[input] = d_y[index]
                         index += 1
 
             res_dy = []
-- 
2.43.0


From 5ff8c110d9653ca88be29e93cd1ae7efc97665b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:44 +0000
Subject: [PATCH 086/102] fix: converter changed the shapes given by its caller

---
 tf_encrypted/convert/convert.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf_encrypted/convert/convert.py b/tf_encrypted/convert/convert.py
index 59a7ed7..f65db41 100644
--- a/tf_encrypted/convert/convert.py
+++ b/tf_encrypted/convert/convert.py
@@ -63,6 +63,8 @@ class Converter:
         """
         if not isinstance(input_shapes[0], list):
             input_shapes = [input_shapes]
+        # the caller keeps its lists
+        input_shapes = [list(input_shape) for input_shape in input_shapes]
 
         if model_provider is None:
             model_provider = self.config.get_player("weights-provider")
-- 
2.43.0


From 71b1da6218933f4c70dfd42e656b7a99354b7a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:44 +0000
Subject: [PATCH 087/102] fix: converter took initializers listed among the
 inputs of a graph for inputs

---
 tf_encrypted/convert/convert.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/convert/convert.py b/tf_encrypted/convert/convert.py
index f65db41..c965c41 100644
--- a/tf_encrypted/convert/convert.py
+++ b/tf_encrypted/convert/convert.py
@@ -169,6 +169,11 @@ class Converter:
         model = DefinedModel(tfe_nodes, forward_func, backward_builder)
         return model
 
+    def _graph_inputs(self, model_proto):
+        """Inputs of the graph; older models list their initializers among them."""
+        initializers = {i.name for i in model_proto.graph.initializer}
+        return [i for i in model_proto.graph.input if i.name not in initializers]
+
     def _build_initializer(self, model_proto) -> None:
         initializers = {}
 
@@ -183,7 +188,7 @@ class Converter:
         # names of nodes are optional, so they are kept in order
         tfe_nodes = []
         input_shapes = {}
-        for index, input in enumerate(model_proto.graph.input):
+        for index, input in enumerate(self._graph_inputs(model_proto)):
             input_shapes[input.name] = model_input_shapes[index]
 
         for node in model_proto.graph.node:
@@ -209,7 +214,7 @@ class Converter:
 
         def forward_function(x):
             node_outputs = {}
-            for index, input in enumerate(model_proto.graph.input):
+            for index, input in enumerate(self._graph_inputs(model_proto)):
                 node_outputs[input.name] = x[index]
             for node, tfe_node in zip(nodes, tfe_nodes):
                 inputs = []
@@ -229,7 +234,7 @@ class Converter:
 
     def _build_backward(self, model_proto, tfe_nodes, nodes_output, optimizer):
         nodes = model_proto.graph.node
-        graph_input = model_proto.graph.input
+        graph_input = self._graph_inputs(model_proto)
 
         def backward_function(d_y):
             dy_dict = {}
-- 
2.43.0


From 1afe4faf7301f4c5dbdb6b07c279ea07719ea070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:27 +0000
Subject: [PATCH 088/102] fix: converter read the attributes of Gemm by
 position

---
 tf_encrypted/convert/nodes.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index d558de0..8180d7e 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -7,6 +7,7 @@ from typing import List
 
 import numpy as np
 import tensorflow as tf
+from onnx import helper
 from onnx.onnx_ml_pb2 import NodeProto
 
 import tf_encrypted as tfe
@@ -24,6 +25,11 @@ from ..keras.layers import MaxPooling2D
 from ..keras.layers import ReLU
 
 
+def _attributes(node: NodeProto) -> dict:
+    """Attributes of a node by name; their order is of no meaning."""
+    return {attr.name: helper.get_attribute_value(attr) for attr in node.attribute}
+
+
 class BaseNode(ABC):
     """
     An abstraction for node in an ONNX computation graph
@@ -225,20 +231,29 @@ class GemmNode(BaseNode):
         self._input_shapes.append(inputs[0])
 
         assert isinstance(inputs[1], tf.Tensor), "kernel must be a tensor"
-        kernel = tfe.define_private_input(model_provider, lambda: inputs[1])
-        assert isinstance(inputs[2], tf.Tensor), "bias must be a tensor"
-        bias = tfe.define_private_input(model_provider, lambda: inputs[2])
-        if node.attribute[1].i:
+        attributes = _attributes(node)
+        alpha = attributes.get("alpha", 1.0)
+        beta = attributes.get("beta", 1.0)
+
+        kernel = tfe.define_private_input(model_provider, lambda: inputs[1] * alpha)
+        if attributes.get("transB", 0):
             kernel = kernel.transpose()
-        weights = []
-        weights.append(kernel)
-        weights.append(bias)
+        units = int(kernel.shape[1])
+        weights = [kernel]
+
+        use_bias = len(inputs) == 3
+        if use_bias:
+            assert isinstance(inputs[2], tf.Tensor), "bias must be a tensor"
+            bias_value = tf.broadcast_to(tf.squeeze(inputs[2] * beta), [units])
+            bias = tfe.define_private_input(model_provider, lambda: bias_value)
+            weights.append(bias)
 
+        # The batch is the first dimension of every input
+        if attributes.get("transA", 0):
+            raise NotImplementedError("Gemm with transA is not supported")
         self.transpose_x = False
-        if node.attribute[0].i:
-            self.transpose_x = True
 
-        self.layer = Dense(kernel.shape[1], use_bias=True)
+        self.layer = Dense(units, use_bias=use_bias)
         self.layer.build(self._input_shapes[0])
         self._output_shapes.append(
             self.layer.compute_output_shape(self._input_shapes[0])
-- 
2.43.0


From 420d8e16bb13306e1b992a306c7b9eb829929945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:27 +0000
Subject: [PATCH 089/102] fix: converter swapped top and bottom padding of
 convolutions, and ignored other attributes of them

---
 tf_encrypted/convert/nodes.py | 50 ++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 8180d7e..d68b898 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -30,6 +30,28 @@ def _attributes(node: NodeProto) -> dict:
     return {attr.name: helper.get_attribute_value(attr) for attr in node.attribute}
 
 
+def _explicit_pads(attributes, in_size, window, strides):
+    """
+    Padding of a convolution or a pooling as `[top, left, bottom, right]`, or `None`
+    if there is none.
+    """
+    auto_pad = attributes.get("auto_pad", b"NOTSET")
+    if auto_pad == b"NOTSET":
+        pads = list(attributes.get("pads", [0, 0, 0, 0]))
+    elif auto_pad == b"VALID":
+        pads = [0, 0, 0, 0]
+    else:
+        pads = [0, 0, 0, 0]
+        for i in range(2):
+            n_in = int(in_size[i])
+            n_out = -(-n_in // strides[i])
+            total = max((n_out - 1) * strides[i] + int(window[i]) - n_in, 0)
+            small, big = total // 2, total - total // 2
+            upper = auto_pad == b"SAME_UPPER"
+            pads[i], pads[i + 2] = (small, big) if upper else (big, small)
+    return pads if any(pads) else None
+
+
 class BaseNode(ABC):
     """
     An abstraction for node in an ONNX computation graph
@@ -300,18 +322,22 @@ class Conv2dNode(BaseNode):
             use_bias = False
             bias = None
 
-        attributes = {}
-        for attr in node.attribute:
-            attributes[attr.name] = attr
-
-        strides = list(attributes["strides"].ints)
-        group = attributes["group"].i
-        try:
-            self.padding = list(attributes["pads"].ints)
+        attributes = _attributes(node)
+        strides = list(attributes.get("strides", [1, 1]))
+        group = attributes.get("group", 1)
+        if any(d != 1 for d in attributes.get("dilations", [])):
+            raise NotImplementedError("Conv with dilations is not supported")
+
+        # the padding before both dimensions, then after them
+        self.padding = _explicit_pads(
+            attributes, inputs[0][2:], list(inputs[1].shape[2:]), strides
+        )
+        if self.padding is not None:
             padded_shape[2] += self.padding[0] + self.padding[2]
             padded_shape[3] += self.padding[1] + self.padding[3]
-        except KeyError:
-            self.padding = None
+
+        if group not in (1, inputs[0][1]):
+            raise NotImplementedError("Conv with groups of channels is not supported")
 
         if group == 1:
             self.layer = Conv2D(
@@ -344,7 +370,7 @@ class Conv2dNode(BaseNode):
                 [
                     [0, 0],
                     [0, 0],
-                    [self.padding[2], self.padding[0]],
+                    [self.padding[0], self.padding[2]],
                     [self.padding[1], self.padding[3]],
                 ],
             )
@@ -358,7 +384,7 @@ class Conv2dNode(BaseNode):
             d_y = d_y[
                 :,
                 :,
-                self.padding[2] : dy_shape[2] - self.padding[0],
+                self.padding[0] : dy_shape[2] - self.padding[2],
                 self.padding[1] : dy_shape[3] - self.padding[3],
             ]
         return grad_weights, [d_y]
-- 
2.43.0


From b448dedf7389b6bd4782c9518134450f8c02715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:27 +0000
Subject: [PATCH 090/102] fix: converter took the first attribute of batch
 normalization for epsilon

---
 tf_encrypted/convert/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index d68b898..13b1577 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -398,7 +398,7 @@ class BatchnormalizationNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        epsilon = float(node.attribute[0].f)
+        epsilon = float(_attributes(node).get("epsilon", 1e-5))
         assert isinstance(inputs[1], tf.Tensor), "gamma must be a tensor"
         gamma = tf.keras.initializers.Constant(inputs[1])
         assert isinstance(inputs[2], tf.Tensor), "beta must be a tensor"
-- 
2.43.0


From 0bd5166a1d6581c508682b47128ec8944cb63bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:27 +0000
Subject: [PATCH 091/102] fix: converter ignored the padding of pooling nodes

---
 tf_encrypted/convert/nodes.py | 53 ++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 13b1577..32b017f 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -52,6 +52,35 @@ def _explicit_pads(attributes, in_size, window, strides):
     return pads if any(pads) else None
 
 
+def _pooling(node, input_shape):
+    """Window, strides and padding of a pooling node."""
+    attributes = _attributes(node)
+    pool_shape = list(attributes["kernel_shape"])
+    strides = list(attributes.get("strides", [1, 1]))
+
+    if attributes.get("ceil_mode", 0):
+        raise NotImplementedError("Pooling with ceil_mode is not supported")
+    if any(d != 1 for d in attributes.get("dilations", [])):
+        raise NotImplementedError("Pooling with dilations is not supported")
+
+    pads = _explicit_pads(attributes, input_shape[2:], pool_shape, strides)
+    if pads is None:
+        return pool_shape, strides, "VALID"
+
+    same = _explicit_pads(
+        {"auto_pad": b"SAME_UPPER"}, input_shape[2:], pool_shape, strides
+    )
+    n_out = [
+        (int(input_shape[i + 2]) + pads[i] + pads[i + 2] - pool_shape[i]) // strides[i]
+        + 1
+        for i in range(2)
+    ]
+    n_same = [-(-int(input_shape[i + 2]) // strides[i]) for i in range(2)]
+    if pads != same or n_out != n_same or attributes.get("count_include_pad", 0):
+        raise NotImplementedError("Pooling with this padding is not supported")
+    return pool_shape, strides, "SAME"
+
+
 class BaseNode(ABC):
     """
     An abstraction for node in an ONNX computation graph
@@ -438,14 +467,10 @@ class AvgpoolNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        attributes = {}
-        for attr in node.attribute:
-            attributes[attr.name] = attr
-
-        pool_shape = attributes["kernel_shape"].ints
-        strides = attributes["strides"].ints
-
-        self.layer = AveragePooling2D(pool_shape, strides, data_format="channels_first")
+        pool_shape, strides, padding = _pooling(node, inputs[0])
+        self.layer = AveragePooling2D(
+            pool_shape, strides, padding, data_format="channels_first"
+        )
         self.layer.build(self._input_shapes[0])
         self._output_shapes.append(
             self.layer.compute_output_shape(self._input_shapes[0])
@@ -573,14 +598,10 @@ class MaxPoolNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        attributes = {}
-        for attr in node.attribute:
-            attributes[attr.name] = attr
-
-        pool_shape = attributes["kernel_shape"].ints
-        strides = attributes["strides"].ints
-
-        self.layer = MaxPooling2D(pool_shape, strides, "VALID", "channels_first")
+        pool_shape, strides, padding = _pooling(node, inputs[0])
+        self.layer = MaxPooling2D(
+            pool_shape, strides, padding, data_format="channels_first"
+        )
         self.layer.build(self._input_shapes[0])
         self._output_shapes.append(
             self.layer.compute_output_shape(self._input_shapes[0])
-- 
2.43.0


From 5020247552af210b166c5e7e57418bc7fa83b369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:27 +0000
Subject: [PATCH 092/102] fix: converter guessed the axes and the shape of
 global pooling

---
 tf_encrypted/convert/nodes.py | 56 ++++++++++++++---------------------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 32b017f..5476de6 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -81,6 +81,26 @@ def _pooling(node, input_shape):
     return pool_shape, strides, "SAME"
 
 
+def _global_pooling(node, inputs):
+    """Data format and keepdims of a node that reduces both spatial dimensions."""
+    if node.op_type.startswith("Global"):
+        return "channels_first", True
+
+    attributes = _attributes(node)
+    if len(inputs) > 1:
+        axes = inputs[1].numpy().tolist()
+    else:
+        axes = attributes.get("axes", [])
+    axes = sorted(axis % len(inputs[0]) for axis in axes)
+    keepdims = attributes.get("keepdims", 1) == 1
+
+    if len(inputs[0]) == 4 and axes == [2, 3]:
+        return "channels_first", keepdims
+    if len(inputs[0]) == 4 and axes == [1, 2]:
+        return "channels_last", keepdims
+    raise NotImplementedError("Only the spatial dimensions of images can be reduced")
+
+
 class BaseNode(ABC):
     """
     An abstraction for node in an ONNX computation graph
@@ -492,23 +512,7 @@ class GlobalAvgpoolNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        data_format = "channels_first"
-        keepdims = True
-
-        try:
-            attributes = {}
-            for attr in node.attribute:
-                attributes[attr.name] = attr
-
-            axes = attributes["axes"].ints
-            keepdims = attributes["keepdims"].i == 1
-
-            if axes[0] == 1 and axes[1] == 2:
-                data_format = "channels_last"
-            else:
-                data_format = "channels_first"
-        except:  # noqa:E722
-            pass
+        data_format, keepdims = _global_pooling(node, inputs)
 
         self.layer = GlobalAveragePooling2D(data_format=data_format, keepdims=keepdims)
         self.layer.build(self._input_shapes[0])
@@ -623,23 +627,7 @@ class GlobalMaxPoolNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        data_format = "channels_first"
-        keepdims = False
-
-        try:
-            attributes = {}
-            for attr in node.attribute:
-                attributes[attr.name] = attr
-
-            axes = attributes["axes"].ints
-            keepdims = attributes["keepdims"].i == 1
-
-            if axes[0] == 1 and axes[1] == 2:
-                data_format = "channels_last"
-            else:
-                data_format = "channels_first"
-        except:  # noqa:E722
-            pass
+        data_format, keepdims = _global_pooling(node, inputs)
 
         self.layer = GlobalMaxPooling2D(data_format=data_format, keepdims=keepdims)
         self.layer.build(self._input_shapes[0])
-- 
2.43.0


From b09637c9e313544d8a38562e17367281b708cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:08 +0000
Subject: [PATCH 093/102] fix: converted Slice lost the last entry of the batch
 and misread the ends of its dimensions

---
 tf_encrypted/convert/nodes.py | 48 ++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 5476de6..ce80bbd 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -651,26 +651,33 @@ class StrideSliceNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        self.begin = [0] * len(inputs[0])
-        self.end = deepcopy(inputs[0])
-        self.strides = [1] * len(inputs[0])
-        if len(inputs) > 3:
-            self.axes = inputs[3]
-        else:
-            self.axes = range(len(inputs[0]))
-
-        if len(inputs) == 5:
-            for index, a in enumerate(self.axes):
-                self.strides[a] = inputs[4][index]
-
-        for index, a in enumerate(self.axes):
-            self.begin[a] = inputs[1][index]
-            self.end[a] = inputs[2][index]
-
-        output_shape = deepcopy(self.end)
-        for index, dim in enumerate(output_shape):
-            dim = dim - self.begin[index]
-            dim = dim // self.strides[index]
+        rank = len(inputs[0])
+        begin, end = inputs[1].numpy().tolist(), inputs[2].numpy().tolist()
+        axes = inputs[3].numpy().tolist() if len(inputs) > 3 else range(len(begin))
+        steps = inputs[4].numpy().tolist() if len(inputs) > 4 else [1] * len(begin)
+
+        self.begin = [0] * rank
+        self.end = [0] * rank
+        self.strides = [1] * rank
+        # dimensions that are taken up to their end, whatever that is
+        self.end_mask = (1 << rank) - 1
+
+        output_shape = list(inputs[0])
+        for b, e, axis, step in zip(begin, end, axes, steps):
+            axis = axis % rank
+            dim = output_shape[axis]
+            if dim == -1:
+                # the batch, of which the size is not known
+                if b < 0 or step < 0 or 0 <= e < 2**31 - 1:
+                    raise NotImplementedError("Slice of the batch is not supported")
+            else:
+                b, e, step = slice(b, e, step).indices(int(dim))
+                output_shape[axis] = len(range(b, e, step))
+            self.begin[axis], self.strides[axis] = b, step
+            if (e < 0 and step < 0) or e >= 2**31 - 1:
+                continue
+            self.end[axis] = e
+            self.end_mask &= ~(1 << axis)
         self._output_shapes.append(output_shape)
 
     def forward(self, x):
@@ -680,6 +687,7 @@ class StrideSliceNode(BaseNode):
                 self.begin,
                 self.end,
                 strides=self.strides,
+                end_mask=self.end_mask,
             )
         ]
 
-- 
2.43.0


From a6390f4755b3e80251f21d9b29ecc3f91f5db027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:08 +0000
Subject: [PATCH 094/102] fix: converted Gather failed with a single index,
 negative axes and negative indices

---
 tf_encrypted/convert/nodes.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index ce80bbd..d485f25 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -704,19 +704,16 @@ class GatherNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        attributes = {}
-        for attr in node.attribute:
-            attributes[attr.name] = attr
-
-        self.axis = attributes["axis"].i
+        self.axis = _attributes(node).get("axis", 0) % len(inputs[0])
         self.indices = inputs[1]
-
-        output_shape = []
-        for index, dim in enumerate(self._input_shapes[0]):
-            if index == self.axis:
-                output_shape.append(len(self.indices))
-            else:
-                output_shape.append(dim)
+        dim = inputs[0][self.axis]
+        if dim != -1:
+            # negative indices count from the end
+            self.indices = tf.where(self.indices < 0, self.indices + dim, self.indices)
+
+        output_shape = inputs[0][: self.axis]
+        output_shape = output_shape + list(self.indices.shape)
+        output_shape = output_shape + inputs[0][self.axis + 1 :]
         self._output_shapes.append(output_shape)
 
     def forward(self, x):
-- 
2.43.0


From 8272285d9d20104529c01947b1f50c9fa4044e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:08 +0000
Subject: [PATCH 095/102] fix: converted Reshape failed with zeros in its
 shape, and Split and Concat read their attributes by position

---
 tf_encrypted/convert/nodes.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index d485f25..3e1e1e7 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -732,10 +732,14 @@ class SplitNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        self.axis = node.attribute[0].i
+        attributes = _attributes(node)
+        self.axis = attributes.get("axis", 0)
 
-        if len(inputs) == 2:
-            self.num_or_size_splits = inputs[1]
+        if len(inputs) == 2 or "split" in attributes:
+            if len(inputs) == 2:
+                self.num_or_size_splits = inputs[1].numpy().tolist()
+            else:
+                self.num_or_size_splits = list(attributes["split"])
             for size_split in self.num_or_size_splits:
                 output_shape = deepcopy(self._input_shapes[0])
                 output_shape[self.axis] = size_split
@@ -743,7 +747,9 @@ class SplitNode(BaseNode):
         else:
             self.num_or_size_splits = len(node.output)
             output_shape = deepcopy(self._input_shapes[0])
-            output_shape[self.axis] /= self.num_or_size_splits
+            if output_shape[self.axis] % self.num_or_size_splits:
+                raise NotImplementedError("Split into unequal parts is not supported")
+            output_shape[self.axis] //= self.num_or_size_splits
             self._output_shapes = [output_shape for i in range(self.num_or_size_splits)]
 
     def forward(self, x):
@@ -761,7 +767,7 @@ class ConcatNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.extend(inputs)
 
-        self.axis = node.attribute[0].i
+        self.axis = _attributes(node)["axis"]
         output_shape = deepcopy(inputs[0])
         output_shape[self.axis] = 0
         self.input_dims = []
@@ -813,7 +819,16 @@ class ReshapeNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        output_shape = list(inputs[1].numpy())
+        # zeros stand for the dimensions of the input
+        output_shape = [
+            inputs[0][i] if dim == 0 else dim
+            for i, dim in enumerate(inputs[1].numpy().tolist())
+        ]
+        if output_shape[0] == -1 and output_shape.count(-1) == 2:
+            # the batch stays as it is, so the other dimension is known
+            size = reduce(lambda x, y: x * y, inputs[0][1:], 1)
+            known = reduce(lambda x, y: x * y, output_shape[1:], 1)
+            output_shape[output_shape.index(-1, 1)] = size // -known
         self._output_shapes.append(output_shape)
 
     def forward(self, x):
-- 
2.43.0


From 2d94ea8cf1b02a9539c8b6ccee2e43c891960906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:08 +0000
Subject: [PATCH 096/102] fix: converted Squeeze and Unsqueeze gave wrong
 shapes for negative axes

---
 tf_encrypted/convert/nodes.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 3e1e1e7..31f0ca9 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -868,7 +868,8 @@ class TransposeNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        self.perm = np.array(node.attribute[0].ints)
+        perm = _attributes(node).get("perm", range(len(inputs[0]))[::-1])
+        self.perm = np.array(perm)
         self.reversed_perm = np.argsort(self.perm)
         self._output_shapes.append(list(np.array(inputs[0])[self.perm]))
 
@@ -887,16 +888,19 @@ class ExpandDimsNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        self.axis = inputs[1].numpy().item()
-        output_shape = []
-        for index, dim in enumerate(inputs[0]):
-            if index == self.axis:
-                output_shape.append(1)
-            output_shape.append(dim)
-        self._output_shapes.append(deepcopy(output_shape))
+        axes = inputs[1].numpy().flatten().tolist()
+        rank = len(inputs[0]) + len(axes)
+        self.axes = sorted(axis % rank for axis in axes)
+        output_shape = list(inputs[0])
+        for axis in self.axes:
+            output_shape.insert(axis, 1)
+        self._output_shapes.append(output_shape)
 
     def forward(self, x):
-        return [tfe.expand_dims(x[0], axis=self.axis)]
+        x = x[0]
+        for axis in self.axes:
+            x = tfe.expand_dims(x, axis=axis)
+        return [x]
 
     def backward(self, d_y):
         return [], [tfe.reshape(d_y[0], self._input_shapes[0])]
@@ -911,7 +915,8 @@ class SqueezeNode(BaseNode):
         self._input_shapes.append(inputs[0])
 
         if len(inputs) == 2:
-            self.axes = list(inputs[1].numpy())
+            rank = len(inputs[0])
+            self.axes = [axis % rank for axis in inputs[1].numpy().tolist()]
         else:
             self.axes = None
 
-- 
2.43.0


From be792c562509f57982888ce7fca15a25cc8cd300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:08 +0000
Subject: [PATCH 097/102] fix: converted Pad ignored its mode and its value,
 and Slice of the batch its size being unknown

---
 tf_encrypted/convert/nodes.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 31f0ca9..67c7acf 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -668,16 +668,17 @@ class StrideSliceNode(BaseNode):
             dim = output_shape[axis]
             if dim == -1:
                 # the batch, of which the size is not known
-                if b < 0 or step < 0 or 0 <= e < 2**31 - 1:
-                    raise NotImplementedError("Slice of the batch is not supported")
+                limit = 2**31 - 1
+                b = min(max(b, -limit), limit)
+                to_end = e <= -limit if step < 0 else e >= limit
             else:
                 b, e, step = slice(b, e, step).indices(int(dim))
                 output_shape[axis] = len(range(b, e, step))
+                to_end = e < 0
             self.begin[axis], self.strides[axis] = b, step
-            if (e < 0 and step < 0) or e >= 2**31 - 1:
-                continue
-            self.end[axis] = e
-            self.end_mask &= ~(1 << axis)
+            if not to_end:
+                self.end[axis] = e
+                self.end_mask &= ~(1 << axis)
         self._output_shapes.append(output_shape)
 
     def forward(self, x):
@@ -942,13 +943,19 @@ class PadNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
+        if _attributes(node).get("mode", b"constant") != b"constant":
+            raise NotImplementedError("Only padding with zeros is supported")
+        if len(inputs) > 2 and inputs[2].numpy().any():
+            raise NotImplementedError("Only padding with zeros is supported")
+
         p = list(inputs[1].numpy())
         dims = len(p) // 2
         self.paddings_lst = [[p[i], p[i + dims]] for i in range(0, dims)]
 
         output_shape = deepcopy(self._input_shapes[0])
         for i in range(len(output_shape)):
-            output_shape[i] += self.paddings_lst[i][0] + self.paddings_lst[i][1]
+            if output_shape[i] != -1:
+                output_shape[i] += self.paddings_lst[i][0] + self.paddings_lst[i][1]
         self._output_shapes.append(output_shape)
 
     def forward(self, x):
-- 
2.43.0


From 233253d646565fd698b0b0288ebe429fe1642c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:45 +0000
Subject: [PATCH 098/102] fix: gradient of the bias of a converted Add was
 divided by the batch and had the wrong shape

---
 tf_encrypted/convert/nodes.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 67c7acf..9a819b8 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -165,6 +165,9 @@ class AddNode(BaseNode):
         self, node: NodeProto, inputs: List[tf.Tensor], model_provider: Player
     ) -> None:
         super(AddNode, self).__init__(node, inputs, model_provider)
+        if isinstance(inputs[0], tf.Tensor):
+            # addition commutes
+            inputs = [inputs[1], inputs[0]]
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
         self._output_shapes.append(inputs[0])
@@ -172,6 +175,8 @@ class AddNode(BaseNode):
 
         if isinstance(input_b, tf.Tensor):
             assert isinstance(inputs[1], tf.Tensor), "bias must be a tensor"
+            if len(input_b.shape) > len(inputs[0]):
+                raise NotImplementedError("Bias of a higher rank is not supported")
             self.bias = tfe.define_private_input(model_provider, lambda: inputs[1])
             self.bias = tfe.define_private_variable(self.bias)
             self._weights.append(self.bias)
@@ -191,9 +196,14 @@ class AddNode(BaseNode):
         if self.bias is None:
             d_ys = [d_y, d_y]
         else:
-            batch_size = d_y.shape[0]
-            d_bias = d_y.reduce_sum(axis=0)
-            d_bias = d_bias / batch_size
+            # the bias was broadcast over the other dimensions
+            d_bias = d_y
+            shape = [int(dim) for dim in self.bias.shape]
+            for _ in range(len(d_y.shape) - len(shape)):
+                d_bias = d_bias.reduce_sum(axis=0)
+            for axis, dim in enumerate(shape):
+                if dim == 1 and int(d_bias.shape[axis]) != 1:
+                    d_bias = d_bias.reduce_sum(axis=axis, keepdims=True)
             grad_weights.append(d_bias)
             d_ys = [d_y]
         return grad_weights, d_ys
-- 
2.43.0


From 69d0523e4dbc181ece9a65b2949c2301a373dc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:45 +0000
Subject: [PATCH 099/102] fix: converter ignored the axis of Softmax and
 Flatten

---
 tf_encrypted/convert/nodes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 9a819b8..12eec51 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -590,6 +590,10 @@ class SoftmaxNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
+        axis = _attributes(node).get("axis", -1)
+        if axis not in (-1, len(inputs[0]) - 1):
+            raise NotImplementedError("Softmax is supported on the last axis only")
+
         self.layer = Activation("softmax")
         self.layer.build(self._input_shapes[0])
         self._output_shapes.append(
@@ -859,7 +863,10 @@ class FlattenNode(BaseNode):
         assert isinstance(inputs[0], list), "input shape must be a list"
         self._input_shapes.append(inputs[0])
 
-        last_dim = reduce(lambda x, y: x * y, list(inputs[0][1:]))
+        if _attributes(node).get("axis", 1) % len(inputs[0]) != 1:
+            raise NotImplementedError("Flatten must keep the batch")
+
+        last_dim = reduce(lambda x, y: x * y, list(inputs[0][1:]), 1)
         self._output_shapes.append([-1, last_dim])
 
     def forward(self, x):
-- 
2.43.0


From ffaffbeb300c5723196dae49169214cd83ed233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:29 +0000
Subject: [PATCH 100/102] fix: converted Add kept using the initial value of
 its bias after training

---
 tf_encrypted/convert/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/convert/nodes.py b/tf_encrypted/convert/nodes.py
index 12eec51..6f24e25 100644
--- a/tf_encrypted/convert/nodes.py
+++ b/tf_encrypted/convert/nodes.py
@@ -188,7 +188,7 @@ class AddNode(BaseNode):
         if self.bias is None:
             return [tfe.add(x[0], x[1])]
         else:
-            return [tfe.add(x[0], self.bias)]
+            return [tfe.add(x[0], self.bias.read_value())]
 
     def backward(self, d_y):
         d_y = d_y[0]
-- 
2.43.0


From c1b8e69b6820299f3de4856375cef5b7963858fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 101/102] fix: average pooling layers with SAME padding counted
 the padding, avgpool2d goes on doing so

---
 tf_encrypted/keras/layers/pooling.py |  8 ++++++++
 tf_encrypted/protocol/aby3/aby3.py   | 11 ++++-------
 tf_encrypted/protocol/pond/pond.py   | 10 ++--------
 3 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/tf_encrypted/keras/layers/pooling.py b/tf_encrypted/keras/layers/pooling.py
index 609b8a4..1e4d814 100644
--- a/tf_encrypted/keras/layers/pooling.py
+++ b/tf_encrypted/keras/layers/pooling.py
@@ -253,6 +253,14 @@ class AveragePooling2D(Pooling2D):
 
         outputs = tfe.avgpool2d(inputs, self.pool_size, self.strides, self.padding)
 
+        # Padding does not count
+        counts = pool_counts(
+            inputs.shape[2:], self.pool_size, self.strides, self.padding
+        )
+        pool_len = self.pool_size[0] * self.pool_size[1]
+        if np.any(counts != pool_len):
+            outputs = outputs * tfe.define_constant(pool_len / counts)
+
         if self.data_format != "channels_first":
             outputs = tfe.transpose(outputs, perm=[0, 2, 3, 1])
 
diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 76f7f02..aaccc6d 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5384,20 +5384,17 @@ def __avgpool2d_computation(
 ) -> ABY3Tensor:
     batch, channels, height, width = x.shape
     out_height, out_width = out_size([height, width], pool_size, strides, padding)
-    # Padding does not count
-    scalar = 1 / pool_counts([height, width], pool_size, strides, padding)
+    scalar = 1 / (pool_size[0] * pool_size[1])
 
     with tf.name_scope("avgpool2d"):
         x_split = x.reshape((batch * channels, 1, height, width))
 
         y = prot.im2col(x_split, pool_size[0], pool_size[1], strides, padding)
-        i2c_sum = y.reduce_sum(axis=0)
-        result = i2c_sum.reshape([out_height, out_width, batch, channels]).transpose(
+        i2c_max = y.reduce_sum(axis=0) * scalar
+        result = i2c_max.reshape([out_height, out_width, batch, channels]).transpose(
             [2, 3, 0, 1]
         )
-        if np.all(scalar == scalar[0, 0]):
-            scalar = float(scalar[0, 0])
-        return result * scalar
+        return result
 
 
 def _ones_private(prot, shape, apply_scaling, share_type, factory) -> ABY3PrivateTensor:
diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 5299d84..babdaef 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -40,7 +40,6 @@ from ...tensor.factory import AbstractVariable
 from ...tensor.fixed import FixedpointConfig
 from ...tensor.fixed import _validate_fixedpoint_config
 from ...tensor.helpers import inverse
-from ...tensor.shared import pool_counts
 from ..protocol import Protocol
 from ..protocol import TFEPrivateTensor
 from ..protocol import TFEPrivateVariable
@@ -3370,15 +3369,10 @@ def _avgpool2d_core(
     pool_size: Tuple[int, int],
     strides: Tuple[int, int],
     padding: str,
-) -> Tuple[AbstractTensor, AbstractTensor, Union[float, PondConstant]]:
+) -> Tuple[AbstractTensor, AbstractTensor, float]:
     x_on_0, x_on_1 = x.unwrapped
     _, _, h, w = x.shape
-    # Padding does not count
-    scalar = 1 / pool_counts([h, w], pool_size, strides, padding)
-    if np.all(scalar == scalar[0, 0]):
-        scalar = float(scalar[0, 0])
-    else:
-        scalar = prot.define_constant(scalar)
+    scalar = 1 / (pool_size[0] * pool_size[1])
     siamese = pool_size == strides and pool_size[0] == pool_size[1]
     even = h % pool_size[0] == 0 and w % pool_size[1] == 0
 
-- 
2.43.0


From 81571805182e3510c73d16e1a83c915ac8ce282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 102/102] fix: SecureNN maxpool2d with SAME padding compared
 values too large for int100

---
 tf_encrypted/protocol/securenn/securenn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index fef3012..d24d6de 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -870,7 +870,9 @@ def _lift_above_padding(
         return x, None
 
     factory = x.backing_dtype
-    value = factory.modulus // 4
+    # comparisons err beyond a quarter of int64, and over int100 the more often
+    # the larger the values
+    value = min(factory.modulus // 8, 2**64)
 
     with tf.device(prot.server_0.device_name):
         offset_on_0 = factory.constant(np.array(value).astype(object))
-- 
2.43.0

