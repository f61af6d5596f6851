From 807265f30ebf1cbb93e2435fee3b991f41db9e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 01/15] fix: do not swap transformed weights into the layer
 itself during a call

A call that raised left the layer with transformed kernel, bias and filters,
and concurrent calls transformed each other's transformed kernels.
---
 groco/utils/misc.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/groco/utils/misc.py b/groco/utils/misc.py
index 992e9e1..fa09a4d 100644
--- a/groco/utils/misc.py
+++ b/groco/utils/misc.py
@@ -1,14 +1,18 @@
+from copy import copy
+
+
 def backup_and_restore(attribute_names):
     """
-    Decorator that backs up given attributes, runs the function, and then restores the backed up values.
+    Decorator that protects the given attributes from being changed by the function.
+
+    The function runs on a shallow copy of the object, so the attributes keep their values on the
+    object itself throughout, also when the function fails or when it runs in several threads.
     """
 
     def decorator(function):
         def wrapper(self, inputs):
-            backup = {name: getattr(self, name) for name in attribute_names}
-            result = function(self, inputs)
-            for name in attribute_names:
-                setattr(self, name, backup[name])
+            protected = copy(self)
+            result = function(protected, inputs)
             return result
 
         return wrapper
-- 
2.43.0


From 8618a0ec7d17610406fa522b965ca6a80a58e9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 02/15] fix: compute the equivariant padding of channels_first
 layers on their spatial axes

The data format never reached the padding, which read the sizes off, and padded,
the channel axis.
---
 groco/layers/group_transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index d4d231c..3f3741f 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -53,6 +53,7 @@ class GroupTransforms:
             allow_non_equivariance=allow_non_equivariance,
             kernel_size=kernel_size,
             dimensions=dimensions,
+            data_format=data_format,
             transpose=transpose,
             **kwargs,
         )
-- 
2.43.0


From 4ecf88467db3c286f331cdcc6fb83c0a02d8cdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 03/15] fix: pooling strides default to the pool size also when
 computing the padding

Without explicit strides, the padding (and its checks) assumed strides of 1 while
the pooling itself strides by the pool size, silently breaking equivariance.
---
 groco/layers/pooling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 94bdcc4..fc57410 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -32,10 +32,13 @@ class GroupPooling(Layer):
         allow_non_equivariance: bool = False,
         subgroup="",
         pool_size=2,
+        strides=None,
         **kwargs
     ):
         super().__init__()
 
+        # as in Keras, the strides default to the pool size
+        kwargs["strides"] = pool_size if strides is None else strides
         self.dimensions = dimensions
         self.group_transforms = GroupTransforms(
             allow_non_equivariance=allow_non_equivariance,
-- 
2.43.0


From 79288e1bf03c3a5cc859a444a2137898ee8f62e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 04/15] fix: choose the padding for the shape of each call
 instead of that of the first

The padding was frozen during build, so a built layer called on another spatial
size padded wrongly, or not at all, and silently lost its equivariance.
---
 groco/layers/padding.py | 50 ++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 80716c9..a19640b 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -1,5 +1,6 @@
 from keras import ops
 from keras.layers import Layer
+import numpy as np
 
 
 class EquivariantPadding(Layer):
@@ -45,13 +46,13 @@ class EquivariantPadding(Layer):
 
         self.allow_non_equivariance = allow_non_equivariance
         self.dimensions = dimensions
-        self.strides = ops.cast(
+        self.strides = np.array(
             strides
             if isinstance(strides, tuple)
             else tuple(strides for _ in range(self.dimensions)),
             "int32",
         )
-        self.kernel_sizes = ops.cast(
+        self.kernel_sizes = np.array(
             kernel_size
             if isinstance(kernel_size, tuple)
             else tuple(kernel_size for _ in range(self.dimensions)),
@@ -59,40 +60,43 @@ class EquivariantPadding(Layer):
         )
         self.data_format = data_format
         self.transpose = transpose
-        # set during build
-        self.equivariant_padding = None
-        self.needs_padding = None
 
         super().__init__()
 
     def call(self, inputs):
-        if self.needs_padding:
-            return ops.pad(inputs, self.equivariant_padding)
+        # the spatial shape can differ from the one seen during build
+        equivariant_padding = self.find_padding(inputs.shape)
+        if equivariant_padding is not None:
+            return ops.pad(inputs, equivariant_padding)
         else:
             return inputs
 
     def build(self, input_shape):
+        # only to fail early if the padding is not possible
+        self.find_padding(input_shape)
+
+    def find_padding(self, input_shape):
+        """Find the padding for this input shape, or None if none is needed."""
         if self.padding_option in ["SAME", "VALID"] and self.allow_non_equivariance:
-            self.needs_padding = False
-            return
+            return None
 
         if self.data_format == "channels_last":
-            spatial_shape = ops.cast(input_shape[1 : 1 + self.dimensions], "int32")
+            spatial_shape = np.array(input_shape[1 : 1 + self.dimensions], "int32")
         else:
-            spatial_shape = ops.cast(input_shape[2:], "int32")
+            spatial_shape = np.array(input_shape[2:], "int32")
         extra_padding, total_padding = self.compute_equivariant_padding(spatial_shape)
 
-        self.needs_padding = ops.any(extra_padding != 0)
-        if not self.needs_padding:
-            return
+        needs_padding = np.any(extra_padding != 0)
+        if not needs_padding:
+            return None
         elif self.padding_option in ["SAME", "VALID"]:
             raise self.non_equivariant_error(spatial_shape)
 
         # if the stride is even the padding can still be odd, no padding will maintain equivariance
-        if ops.any(total_padding % 2 != 0):
+        if np.any(total_padding % 2 != 0):
             raise self.padding_parity_error(spatial_shape)
 
-        self.equivariant_padding = self.split_padding(extra_padding)
+        return self.split_padding(extra_padding).tolist()
 
     def compute_equivariant_padding(self, spatial_shape):
         built_in_padding = self.compute_built_in_padding(spatial_shape)
@@ -101,12 +105,12 @@ class EquivariantPadding(Layer):
 
     def compute_built_in_padding(self, spatial_shape):
         if self.padding_option in ["SAME", "SAME_EQUIV"]:
-            return ops.relu(self.kernel_sizes - self.strides + (-spatial_shape % self.strides))
+            return np.maximum(self.kernel_sizes - self.strides + (-spatial_shape % self.strides), 0)
         else:
             if self.transpose:
-                return ops.relu(self.strides - self.kernel_sizes)
+                return np.maximum(self.strides - self.kernel_sizes, 0)
             else:
-                return ops.zeros_like(self.kernel_sizes)
+                return np.zeros_like(self.kernel_sizes)
 
     def compute_extra_padding(self, spatial_shape, built_in_padding):
         extra_padding = (-(spatial_shape + built_in_padding - self.kernel_sizes)) % self.strides
@@ -119,17 +123,17 @@ class EquivariantPadding(Layer):
     def split_padding(self, paddings):
         # add 0 at both ends, not to pad the batch and channel axes
         if self.data_format == "channels_last":
-            paddings = ops.pad(paddings, [[1, 1]])
+            paddings = np.pad(paddings, [[1, 1]])
         else:
-            paddings = ops.pad(paddings, [[2, 0]])
+            paddings = np.pad(paddings, [[2, 0]])
 
         # paddings may be odd if the 'same' paddings are too, must make sure to do this opposite to 'same' padding
         # to make the total padding the same on both sides
         pads_after = paddings // 2
         pads_before = paddings - pads_after
 
-        return ops.concatenate(
-            [ops.expand_dims(pads_before, axis=1), ops.expand_dims(pads_after, axis=1)], axis=1
+        return np.concatenate(
+            [np.expand_dims(pads_before, axis=1), np.expand_dims(pads_after, axis=1)], axis=1
         )
 
     def get_config(self):
-- 
2.43.0


From 156b1331ef7a8d3821560b1e0d65fb1b581ff6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 05/15] fix: raise the intended ValueError when same_equiv
 padding is impossible

The message was built with a method that does not exist, raising AttributeError.
---
 groco/layers/padding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index a19640b..8a04975 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -182,6 +182,6 @@ class EquivariantPadding(Layer):
             f"strides: {tuple(self.strides)},\n"
         )
         if self.padding_option == "SAME_EQUIV":
-            same_padding = self.compute_same_padding(spatial_shape)
+            same_padding = self.compute_built_in_padding(spatial_shape)
             message += f"built-in same padding: {tuple(same_padding)}"
         return message
-- 
2.43.0


From 57bda2d91f929253a3cf6dcb12e53093a3f025c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 06/15] fix: a layer whose build failed can be built again

A rejected or failed build left group state of the failed attempt behind (the
channels axis shifted, the domain group unset, the input spec of the merged
input), or a layer marked as built without its kernel indices, so that every
later attempt failed too.
---
 groco/layers/conv2d.py           | 13 +++++++++++--
 groco/layers/conv2d_transpose.py | 13 +++++++++++--
 groco/layers/conv3d.py           | 13 +++++++++++--
 groco/layers/conv3d_transpose.py | 13 +++++++++++--
 groco/layers/group_transforms.py | 15 ++++++++++-----
 5 files changed, 54 insertions(+), 13 deletions(-)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index 60dc8b9..5e6afab 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -66,8 +66,17 @@ class GroupConv2D(Conv2D):
 
     def build(self, input_shape):
         self.group_transforms.build(input_shape)
-        super().build(self.group_transforms.reshaped_input)
-        self.group_transforms.build_conv(self.kernel, self.bias, self.use_bias)
+        reshaped_input = self.group_transforms.reshaped_input
+        channels = reshaped_input[1 if self.data_format == "channels_first" else -1]
+        kernel_shape = self.kernel_size + (channels // self.groups, self.filters)
+        # this can fail, so do it before creating weights and being marked as built
+        self.group_transforms.build_conv(kernel_shape, self.filters, self.use_bias)
+        input_spec = self.input_spec
+        try:
+            super().build(reshaped_input)
+        except BaseException:
+            self.input_spec = input_spec
+            raise
         if self.group_transforms.group_valued_input:
             if self.data_format == "channels_first":
                 channel_axis = 1
diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index b5c12e6..64575ff 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -64,8 +64,17 @@ class GroupConv2DTranspose(Conv2DTranspose):
 
     def build(self, input_shape):
         self.group_transforms.build(input_shape)
-        super().build(self.group_transforms.reshaped_input)
-        self.group_transforms.build_conv(self.kernel, self.bias, self.use_bias)
+        reshaped_input = self.group_transforms.reshaped_input
+        channels = reshaped_input[1 if self.data_format == "channels_first" else -1]
+        kernel_shape = self.kernel_size + (self.filters, channels)
+        # this can fail, so do it before creating weights and being marked as built
+        self.group_transforms.build_conv(kernel_shape, self.filters, self.use_bias)
+        input_spec = self.input_spec
+        try:
+            super().build(reshaped_input)
+        except BaseException:
+            self.input_spec = input_spec
+            raise
         if self.group_transforms.group_valued_input:
             if self.data_format == "channels_first":
                 channel_axis = 1
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index edb1485..0adf36c 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -66,8 +66,17 @@ class GroupConv3D(Conv3D):
 
     def build(self, input_shape):
         self.group_transforms.build(input_shape)
-        super().build(self.group_transforms.reshaped_input)
-        self.group_transforms.build_conv(self.kernel, self.bias, self.use_bias)
+        reshaped_input = self.group_transforms.reshaped_input
+        channels = reshaped_input[1 if self.data_format == "channels_first" else -1]
+        kernel_shape = self.kernel_size + (channels // self.groups, self.filters)
+        # this can fail, so do it before creating weights and being marked as built
+        self.group_transforms.build_conv(kernel_shape, self.filters, self.use_bias)
+        input_spec = self.input_spec
+        try:
+            super().build(reshaped_input)
+        except BaseException:
+            self.input_spec = input_spec
+            raise
         if self.group_transforms.group_valued_input:
             if self.data_format == "channels_first":
                 channel_axis = 1
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index 2445d47..991147b 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -70,8 +70,17 @@ class GroupConv3DTranspose(Conv3DTranspose):
 
     def build(self, input_shape):
         self.group_transforms.build(input_shape)
-        super().build(self.group_transforms.reshaped_input)
-        self.group_transforms.build_conv(self.kernel, self.bias, self.use_bias)
+        reshaped_input = self.group_transforms.reshaped_input
+        channels = reshaped_input[1 if self.data_format == "channels_first" else -1]
+        kernel_shape = self.kernel_size + (self.filters, channels)
+        # this can fail, so do it before creating weights and being marked as built
+        self.group_transforms.build_conv(kernel_shape, self.filters, self.use_bias)
+        input_spec = self.input_spec
+        try:
+            super().build(reshaped_input)
+        except BaseException:
+            self.input_spec = input_spec
+            raise
         if self.group_transforms.group_valued_input:
             if self.data_format == "channels_first":
                 channel_axis = 1
diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 3f3741f..a3723b3 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -1,5 +1,6 @@
 from keras import ops
 from keras.layers import Layer
+import numpy as np
 
 from groco import utils
 from groco.groups import Group, group_dict
@@ -135,10 +136,12 @@ class GroupTransforms:
         # apart from the spatial dimensions, there are feature and batch axes
         # if there is a third axis, it is the group axis and the input is a signal on the group
         self.group_valued_input = len(input_shape) == self.dimensions + 3
-        if not self.group_valued_input:
-            self.domain_group = None
-        if self.data_format == "channels_last" and self.group_valued_input:
-            self.channels_axis += 1
+        # derive these from scratch, an earlier build may have failed after setting them
+        self.domain_group = None
+        if self.group_valued_input:
+            self.domain_group = self.subgroup.name if self.transpose else self.group.name
+        if self.data_format == "channels_last":
+            self.channels_axis = self.dimensions + 1 + self.group_valued_input
 
         if self.group_valued_input:
             order = len(self.group.subgroup[self.domain_group])
@@ -155,7 +158,9 @@ class GroupTransforms:
         self.reshaped_input = reshaped_input
         self.equivariant_padding.build(reshaped_input)
 
-    def build_conv(self, kernel, bias, use_bias):
+    def build_conv(self, kernel_shape, filters, use_bias):
+        # only the shapes matter here, the weights themselves are created after this
+        kernel, bias = np.empty(kernel_shape), np.empty((filters,))
         if use_bias:
             self._repeated_bias_indices = self._compute_repeated_bias_indices(bias)
         self._transformed_kernel_indices = self._compute_transformed_kernel_indices(kernel)
-- 
2.43.0


From f969e966d918421d01be52480e70c95a06c3b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:19 +0000
Subject: [PATCH 07/15] fix: compute group indices eagerly also when a layer is
 built while being traced

---
 groco/layers/group_transforms.py | 20 +++++++++++---------
 groco/utils/__init__.py          |  1 +
 groco/utils/eager.py             | 19 +++++++++++++++++++
 3 files changed, 31 insertions(+), 9 deletions(-)
 create mode 100644 groco/utils/eager.py

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index a3723b3..fee5062 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -160,17 +160,19 @@ class GroupTransforms:
 
     def build_conv(self, kernel_shape, filters, use_bias):
         # only the shapes matter here, the weights themselves are created after this
-        kernel, bias = np.empty(kernel_shape), np.empty((filters,))
-        if use_bias:
-            self._repeated_bias_indices = self._compute_repeated_bias_indices(bias)
-        self._transformed_kernel_indices = self._compute_transformed_kernel_indices(kernel)
+        kernel, bias = np.zeros(kernel_shape), np.zeros((filters,))
+        with utils.eager_scope():
+            if use_bias:
+                self._repeated_bias_indices = self._compute_repeated_bias_indices(bias)
+            self._transformed_kernel_indices = self._compute_transformed_kernel_indices(kernel)
 
     def build_pool(self):
-        indices = ops.take(
-            self.group.composition, axis=1, indices=self.group.cosets[self.subgroup.name]
-        )
-        subgroup_indices = self.group.subgroup[self.subgroup.name]
-        self._pooling_indices = ops.take(indices, axis=0, indices=subgroup_indices)
+        with utils.eager_scope():
+            indices = ops.take(
+                self.group.composition, axis=1, indices=self.group.cosets[self.subgroup.name]
+            )
+            subgroup_indices = self.group.subgroup[self.subgroup.name]
+            self._pooling_indices = ops.take(indices, axis=0, indices=subgroup_indices)
 
     def _compute_repeated_bias_indices(self, bias):
         """Compute a 1D tensor of indices used to gather from the bias in order to repeat it across the group axis."""
diff --git a/groco/utils/__init__.py b/groco/utils/__init__.py
index a7361a4..5e3c7e2 100644
--- a/groco/utils/__init__.py
+++ b/groco/utils/__init__.py
@@ -1,3 +1,4 @@
+from .eager import eager_scope
 from .equivariance import *
 from .misc import *
 from .tensor_manips import *
diff --git a/groco/utils/eager.py b/groco/utils/eager.py
new file mode 100644
index 0000000..59037ae
--- /dev/null
+++ b/groco/utils/eager.py
@@ -0,0 +1,19 @@
+from contextlib import nullcontext
+
+from keras import backend
+
+
+def eager_scope():
+    """
+    Scope in which operations on concrete tensors give concrete tensors, even when entered while
+    some function, such as a training step, is being traced.
+    """
+    if backend.backend() == "jax":
+        import jax
+
+        return jax.ensure_compile_time_eval()
+    if backend.backend() == "tensorflow":
+        import tensorflow as tf
+
+        return tf.init_scope()
+    return nullcontext()
-- 
2.43.0


From 8540a6d24c4d7cd32068c5388d533390e1124db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:19 +0000
Subject: [PATCH 08/15] fix: compute the output shape of group convolutions
 from the given input shape

---
 groco/layers/conv2d.py           |  4 ++--
 groco/layers/conv2d_transpose.py |  4 ++--
 groco/layers/conv3d.py           |  4 ++--
 groco/layers/conv3d_transpose.py |  4 ++--
 groco/layers/group_transforms.py | 22 ++++++++++++++++++----
 5 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index 5e6afab..060167e 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -90,8 +90,8 @@ class GroupConv2D(Conv2D):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
-        output_shape = super().compute_output_shape(input_shape_merged)
+        input_shape = self.group_transforms.merge_group_axis_and_pad_shape(input_shape)
+        output_shape = super().compute_output_shape(input_shape)
         return self.group_transforms.correct_output_shape(output_shape)
 
 
diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index 64575ff..e6d42e0 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -88,6 +88,6 @@ class GroupConv2DTranspose(Conv2DTranspose):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
-        output_shape = super().compute_output_shape(input_shape_merged)
+        input_shape = self.group_transforms.merge_group_axis_and_pad_shape(input_shape)
+        output_shape = super().compute_output_shape(input_shape)
         return self.group_transforms.correct_output_shape(output_shape)
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index 0adf36c..9c352eb 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -90,8 +90,8 @@ class GroupConv3D(Conv3D):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
-        output_shape = super().compute_output_shape(input_shape_merged)
+        input_shape = self.group_transforms.merge_group_axis_and_pad_shape(input_shape)
+        output_shape = super().compute_output_shape(input_shape)
         return self.group_transforms.correct_output_shape(output_shape)
 
 
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index 991147b..43018d3 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -94,6 +94,6 @@ class GroupConv3DTranspose(Conv3DTranspose):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
-        output_shape = super().compute_output_shape(input_shape_merged)
+        input_shape = self.group_transforms.merge_group_axis_and_pad_shape(input_shape)
+        output_shape = super().compute_output_shape(input_shape)
         return self.group_transforms.correct_output_shape(output_shape)
diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index fee5062..afaaffd 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -90,6 +90,21 @@ class GroupTransforms:
         inputs = self.equivariant_padding(inputs)
         return inputs
 
+    def merge_group_axis_and_pad_shape(self, input_shape):
+        """The shape that `merge_group_axis_and_pad` gives to an input of this shape."""
+        if len(input_shape) == self.dimensions + 3:
+            channels_axis = 1 if self.data_format == "channels_first" else self.dimensions + 2
+            input_shape = utils.merge_shapes(
+                input_shape, merged_axis=self.group_axis, target_axis=channels_axis
+            )
+        padding = self.equivariant_padding.find_padding(input_shape)
+        if padding is not None:
+            input_shape = [
+                size + before + after if before or after else size
+                for size, (before, after) in zip(input_shape, padding)
+            ]
+        return tuple(input_shape)
+
     def repeat_bias(self, bias):
         """Transform the bias to subgroup.order repeated copies of itself."""
         return ops.take(bias, indices=self._repeated_bias_indices, axis=0)
@@ -224,10 +239,9 @@ class GroupTransforms:
 
     def correct_output_shape(self, output_shape):
         """Insert the group axis in the correct place."""
-        output_shape = list(output_shape)
-        return (
-            output_shape[: self.group_axis] + [self.group.order] + output_shape[self.group_axis :]
-        )
+        output_shape = tuple(output_shape)
+        order = len(self.group.subgroup[self.acting_group])
+        return output_shape[: self.group_axis] + (order,) + output_shape[self.group_axis :]
 
     def get_config(self):
         config = {"group": self.group, "subgroup": self.subgroup.name}
-- 
2.43.0


From 160f308a6f54c4b07856f5447773b1650d76128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:56 +0000
Subject: [PATCH 09/15] fix: layer configs can be serialized and recreate the
 layer

---
 groco/layers/group_transforms.py | 10 +++++++---
 groco/layers/padding.py          | 24 +++++++++++++++---------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index afaaffd..0b36ee2 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -244,9 +244,13 @@ class GroupTransforms:
         return output_shape[: self.group_axis] + (order,) + output_shape[self.group_axis :]
 
     def get_config(self):
-        config = {"group": self.group, "subgroup": self.subgroup.name}
-        config.update(self.equivariant_padding.get_config())
-        return config
+        padding_config = self.equivariant_padding.get_config()
+        return {
+            "group": self.group.name,
+            "subgroup": self.subgroup.name,
+            "padding": padding_config["padding"],
+            "allow_non_equivariance": padding_config["allow_non_equivariance"],
+        }
 
     def prepare_call(self, kernel, bias, filters, inputs, use_bias):
         inputs = self.merge_group_axis_and_pad(inputs)
diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 8a04975..2b39a9b 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -48,13 +48,13 @@ class EquivariantPadding(Layer):
         self.dimensions = dimensions
         self.strides = np.array(
             strides
-            if isinstance(strides, tuple)
+            if isinstance(strides, (tuple, list))
             else tuple(strides for _ in range(self.dimensions)),
             "int32",
         )
         self.kernel_sizes = np.array(
             kernel_size
-            if isinstance(kernel_size, tuple)
+            if isinstance(kernel_size, (tuple, list))
             else tuple(kernel_size for _ in range(self.dimensions)),
             "int32",
         )
@@ -137,13 +137,19 @@ class EquivariantPadding(Layer):
         )
 
     def get_config(self):
-        return {
-            "kernel_size": self.kernel_size,
-            "strides": self.strides,
-            "padding": self.padding,
-            "allow_non_equivariance": self.allow_non_equivariance,
-            "dimensions": self.dimensions,
-        }
+        config = super().get_config()
+        config.update(
+            {
+                "kernel_size": self.kernel_sizes.tolist(),
+                "dimensions": self.dimensions,
+                "strides": self.strides.tolist(),
+                "padding": self.padding_option.lower(),
+                "allow_non_equivariance": self.allow_non_equivariance,
+                "data_format": self.data_format,
+                "transpose": self.transpose,
+            }
+        )
+        return config
 
     @staticmethod
     def format_padding_option(padding_option):
-- 
2.43.0


From fd46f2da7ee1065d7f192726ec8454fd7b2684fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 10/15] fix: pooling and padding layers keep the name and
 options they are given

---
 groco/layers/padding.py |  3 ++-
 groco/layers/pooling.py | 14 +++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 2b39a9b..9a2a600 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -39,6 +39,7 @@ class EquivariantPadding(Layer):
         allow_non_equivariance=False,
         data_format="channels_last",
         transpose=False,
+        name=None,
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
@@ -61,7 +62,7 @@ class EquivariantPadding(Layer):
         self.data_format = data_format
         self.transpose = transpose
 
-        super().__init__()
+        super().__init__(name=name)
 
     def call(self, inputs):
         # the spatial shape can differ from the one seen during build
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index fc57410..c8f4dec 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -19,6 +19,11 @@ from groco import utils
 from groco.layers.group_transforms import GroupTransforms
 
 
+def layer_options(kwargs):
+    """The options of any layer, that apply to a pooling layer as well as to the one it wraps."""
+    return {option: kwargs[option] for option in ("trainable", "dtype") if option in kwargs}
+
+
 class GroupPooling(Layer):
     """
     Base group pooling layer. Only meant to be subclassed.
@@ -33,9 +38,10 @@ class GroupPooling(Layer):
         subgroup="",
         pool_size=2,
         strides=None,
+        name=None,
         **kwargs
     ):
-        super().__init__()
+        super().__init__(name=name, **layer_options(kwargs))
 
         # as in Keras, the strides default to the pool size
         kwargs["strides"] = pool_size if strides is None else strides
@@ -73,6 +79,7 @@ class GroupPooling(Layer):
 
     def get_config(self):
         config = self.pooling.get_config()
+        config.update(super().get_config())
         config.update(self.group_transforms.get_config())
         return config
 
@@ -82,8 +89,8 @@ class GlobalGroupPooling(Layer):
     Base global group pooling layer. Only meant to be subclassed.
     """
 
-    def __init__(self, dimensions: int, pool_type: str, **kwargs):
-        super().__init__()
+    def __init__(self, dimensions: int, pool_type: str, name=None, **kwargs):
+        super().__init__(name=name, **layer_options(kwargs))
         self.dimensions = dimensions
         self.pool_type = pool_type
         if self.dimensions == 1:
@@ -129,6 +136,7 @@ class GlobalGroupPooling(Layer):
 
     def get_config(self):
         config = self.pooling.get_config()
+        config.update(super().get_config())
         return config
 
 
-- 
2.43.0


From 75e30926c6e0f96ebe0f7b61fa5de5cb00037ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 11/15] fix: the padding follows the dtype policy of the layer
 it belongs to

---
 groco/layers/padding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 9a2a600..d14fc1f 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -40,6 +40,7 @@ class EquivariantPadding(Layer):
         data_format="channels_last",
         transpose=False,
         name=None,
+        dtype=None,
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
@@ -62,7 +63,7 @@ class EquivariantPadding(Layer):
         self.data_format = data_format
         self.transpose = transpose
 
-        super().__init__(name=name)
+        super().__init__(name=name, dtype=dtype)
 
     def call(self, inputs):
         # the spatial shape can differ from the one seen during build
-- 
2.43.0


From cc697cbd2dbd9ef80a263be9f65f9d27c337d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 12/15] fix: a built layer rejects inputs whose group axis has
 another size

---
 groco/layers/conv2d.py           | 6 +++++-
 groco/layers/conv2d_transpose.py | 6 +++++-
 groco/layers/conv3d.py           | 6 +++++-
 groco/layers/conv3d_transpose.py | 6 +++++-
 groco/layers/pooling.py          | 5 +++++
 5 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index 060167e..d6fc92c 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -82,7 +82,11 @@ class GroupConv2D(Conv2D):
                 channel_axis = 1
             else:
                 channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            group_axis = self.group_transforms.group_axis
+            self.input_spec.axes = {
+                channel_axis: input_shape[self.group_transforms.channels_axis],
+                group_axis: input_shape[group_axis],
+            }
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index e6d42e0..5e7ad3d 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -80,7 +80,11 @@ class GroupConv2DTranspose(Conv2DTranspose):
                 channel_axis = 1
             else:
                 channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            group_axis = self.group_transforms.group_axis
+            self.input_spec.axes = {
+                channel_axis: input_shape[self.group_transforms.channels_axis],
+                group_axis: input_shape[group_axis],
+            }
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index 9c352eb..e68ba57 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -82,7 +82,11 @@ class GroupConv3D(Conv3D):
                 channel_axis = 1
             else:
                 channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            group_axis = self.group_transforms.group_axis
+            self.input_spec.axes = {
+                channel_axis: input_shape[self.group_transforms.channels_axis],
+                group_axis: input_shape[group_axis],
+            }
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index 43018d3..73f8396 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -86,7 +86,11 @@ class GroupConv3DTranspose(Conv3DTranspose):
                 channel_axis = 1
             else:
                 channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            group_axis = self.group_transforms.group_axis
+            self.input_spec.axes = {
+                channel_axis: input_shape[self.group_transforms.channels_axis],
+                group_axis: input_shape[group_axis],
+            }
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index c8f4dec..657ffde 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -9,6 +9,7 @@ from keras.layers import (
     GlobalMaxPooling1D,
     GlobalMaxPooling2D,
     GlobalMaxPooling3D,
+    InputSpec,
     Layer,
     MaxPooling1D,
     MaxPooling2D,
@@ -76,6 +77,10 @@ class GroupPooling(Layer):
         self.group_transforms.build(input_shape)
         self.pooling.build(self.group_transforms.reshaped_input)
         self.group_transforms.build_pool()
+        group_axis = self.group_transforms.group_axis
+        self.input_spec = InputSpec(
+            ndim=self.dimensions + 3, axes={group_axis: input_shape[group_axis]}
+        )
 
     def get_config(self):
         config = self.pooling.get_config()
-- 
2.43.0


From 21ec0871835ea73b6a4cb8b46f59730545e7a320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 13/15] fix: odd same_equiv padding of transposed convolutions
 goes to the side that is cropped

---
 groco/layers/padding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index d14fc1f..1007667 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -131,7 +131,8 @@ class EquivariantPadding(Layer):
 
         # paddings may be odd if the 'same' paddings are too, must make sure to do this opposite to 'same' padding
         # to make the total padding the same on both sides
-        pads_after = paddings // 2
+        # the transposed convolution crops its output where the convolution pads its input
+        pads_after = (paddings + self.transpose) // 2
         pads_before = paddings - pads_after
 
         return np.concatenate(
-- 
2.43.0


From f0597a5053cf01a4e74c26333dd6841a0dc0d617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:29 +0000
Subject: [PATCH 14/15] fix: the equivariant padding takes the dilation of the
 kernel into account

---
 groco/layers/padding.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 1007667..41f056c 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -28,6 +28,7 @@ class EquivariantPadding(Layer):
         allow_non_equivariance: bool, whether to allow non-equivariant padding.
         data_format: string, one of 'channels_last', 'channels_first'.
         transpose: bool, whether the layer is a transposed convolution.
+        dilation_rate: int or tuple of int, the dilation of the kernel.
     """
 
     def __init__(
@@ -39,6 +40,7 @@ class EquivariantPadding(Layer):
         allow_non_equivariance=False,
         data_format="channels_last",
         transpose=False,
+        dilation_rate=1,
         name=None,
         dtype=None,
         **kwargs,
@@ -60,6 +62,9 @@ class EquivariantPadding(Layer):
             else tuple(kernel_size for _ in range(self.dimensions)),
             "int32",
         )
+        self.dilation_rate = dilation_rate
+        # the number of input cells that the kernel spans
+        self.kernel_extents = (self.kernel_sizes - 1) * np.array(dilation_rate, "int32") + 1
         self.data_format = data_format
         self.transpose = transpose
 
@@ -107,15 +112,15 @@ class EquivariantPadding(Layer):
 
     def compute_built_in_padding(self, spatial_shape):
         if self.padding_option in ["SAME", "SAME_EQUIV"]:
-            return np.maximum(self.kernel_sizes - self.strides + (-spatial_shape % self.strides), 0)
+            return np.maximum(self.kernel_extents - self.strides + (-spatial_shape % self.strides), 0)
         else:
             if self.transpose:
-                return np.maximum(self.strides - self.kernel_sizes, 0)
+                return np.maximum(self.strides - self.kernel_extents, 0)
             else:
-                return np.zeros_like(self.kernel_sizes)
+                return np.zeros_like(self.kernel_extents)
 
     def compute_extra_padding(self, spatial_shape, built_in_padding):
-        extra_padding = (-(spatial_shape + built_in_padding - self.kernel_sizes)) % self.strides
+        extra_padding = (-(spatial_shape + built_in_padding - self.kernel_extents)) % self.strides
         # add stride where necessary to make total padding even
         total_padding = extra_padding + built_in_padding
         extra_padding = extra_padding + (total_padding % 2) * self.strides
@@ -150,6 +155,7 @@ class EquivariantPadding(Layer):
                 "allow_non_equivariance": self.allow_non_equivariance,
                 "data_format": self.data_format,
                 "transpose": self.transpose,
+                "dilation_rate": self.dilation_rate,
             }
         )
         return config
-- 
2.43.0


From 28b690d1fb939ed9515a062cca1428769938ed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 15/15] fix: mixed precision layers could not be called
 statelessly

The padding casts the inputs to the compute dtype of the layer also where Keras has not cast the
weights, as in stateless_call.
---
 groco/layers/group_transforms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 0b36ee2..0401d82 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -254,9 +254,11 @@ class GroupTransforms:
 
     def prepare_call(self, kernel, bias, filters, inputs, use_bias):
         inputs = self.merge_group_axis_and_pad(inputs)
-        kernel = self.transform_kernel(kernel)
+        # the padding has cast the inputs, outside of a usual call nothing has cast the weights
+        dtype = self.equivariant_padding.compute_dtype
+        kernel = ops.cast(self.transform_kernel(kernel), dtype)
         if use_bias:
-            bias = self.repeat_bias(bias)
+            bias = ops.cast(self.repeat_bias(bias), dtype)
         factor = len(self.group.subgroup[self.acting_group])
         filters *= factor
         return kernel, bias, filters, inputs
-- 
2.43.0

