From 1d100cb7c42a7b64146ad8d35a0107ac58de09d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 001/164] fix: Sum infers the multidirectional broadcast of its
 inputs

---
 onnx_tool/node.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1a7b996..215e494 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -722,6 +722,11 @@ class SumNode(PWNode):
         self.op_mac = ADD_MACS
         self.ratio = len(nodeproto.input) - 1
 
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        # multidirectional broadcasting: the output may be larger than every input
+        outtensors[0].update_shape(_broadcast_shape([tensor.get_shape() for tensor in intensors]))
+        outtensors[0].update_dtype(intensors[0].dtype)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         y = intensors[0].get_numpy()
         for i in range(1, len(intensors)):
-- 
2.43.0


From a607f5813b20545bd98a5a866cb0620a4122204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 002/164] fix: Round keeps the element type of its input
 instead of reporting bool

---
 onnx_tool/node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 215e494..c0941bf 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -789,6 +789,10 @@ class LessOrEqualNode(LessNode):
 
 @NODE_REGISTRY.register()
 class RoundNode(LessNode):
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        outtensors[0].update_shape(intensors[0].get_shape())
+        outtensors[0].update_dtype(intensors[0].dtype)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         result = numpy.round(intensors[0].get_numpy())
         outtensors[0].update_tensor(result)
-- 
2.43.0


From 592c473de0e97288efb8dbe7452f115b4dabe8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 003/164] fix: Conv, ConvInteger and QLinearConv honour
 auto_pad with dilations and three spatial axes

---
 onnx_tool/node.py | 91 ++++++++++++-----------------------------------
 1 file changed, 23 insertions(+), 68 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index c0941bf..0bde2b3 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -48,6 +48,23 @@ def _conv_output_shape(xin, pad, ksize, stride, dilation):
     return int((xin + pad - dilation * (ksize - 1) - 1) / stride + 1)
 
 
+def _conv_spatial_shape(xdims, kdims, auto_pad, pads, strides, dilations):
+    n = len(xdims)
+    shape = []
+    for i in range(n):
+        if auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
+            shape.append(_auto_pad_same_shape_calc(xdims[i], strides[i]))
+            continue
+        if auto_pad is None or auto_pad == b'NOTSET':
+            pad = pads[i] + pads[i + n]
+        elif auto_pad == b'VALID':
+            pad = 0
+        else:
+            assert 0
+        shape.append(_conv_output_shape(xdims[i], pad, kdims[i], strides[i], dilations[i]))
+    return shape
+
+
 def _convtranspose_output_shape(xin, output_padding, pad, ksize, stride, dilation):
     return stride * (xin - 1) + output_padding + ((ksize - 1) * dilation + 1) - pad
 
@@ -2152,40 +2169,8 @@ class ConvNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-        shape = []
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                shape = (xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0]))
-                if len(xshape) == 4:
-                    shape += (math.ceil(xshape[3] / self.strides[1]),)
-            elif self.auto_pad == b'VALID':
-                oh = math.ceil((xshape[2] - wshape[2] + 1) / self.strides[0])
-                shape = (xshape[0], wshape[0], oh)
-                if len(xshape) == 4:
-                    ow = math.ceil((xshape[3] - wshape[3] + 1) / self.strides[1])
-                    shape += (ow,)
-            else:
-                assert 0
-
-        else:
-            if len(xshape) == 5:
-                od = _conv_output_shape(xshape[2], self.pads[0] + self.pads[3], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                oh = _conv_output_shape(xshape[3], self.pads[1] + self.pads[4], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                ow = _conv_output_shape(xshape[4], self.pads[2] + self.pads[5], wshape[4], self.strides[2],
-                                        self.dilations[2])
-                shape = (xshape[0], wshape[0], od, oh, ow)
-            if len(xshape) == 4:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                ow = _conv_output_shape(xshape[3], self.pads[1] + self.pads[3], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                shape = (xshape[0], wshape[0], oh, ow)
-            elif len(xshape) == 3:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[1], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                shape = (xshape[0], wshape[0], oh)
+        shape = [xshape[0], wshape[0]] + _conv_spatial_shape(xshape[2:], wshape[2:], self.auto_pad, self.pads,
+                                                             self.strides, self.dilations)
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
@@ -2600,23 +2585,8 @@ class QLinearConvNode(ConvNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[3].get_shape()
-        shape = []
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                shape = [xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0])]
-                if len(xshape) == 4:
-                    shape += [math.ceil(xshape[3] / self.strides[1]), ]
-        else:
-            if len(xshape) == 4:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                ow = _conv_output_shape(xshape[3], self.pads[1] + self.pads[3], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                shape = [xshape[0], wshape[0], oh, ow]
-            elif len(xshape) == 3:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[1], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                shape = [xshape[0], wshape[0], oh]
+        shape = [xshape[0], wshape[0]] + _conv_spatial_shape(xshape[2:], wshape[2:], self.auto_pad, self.pads,
+                                                             self.strides, self.dilations)
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[-2].dtype)
 
@@ -2644,23 +2614,8 @@ class ConvIntegerNode(ConvNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-        shape = []
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                shape = [xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0])]
-                if len(xshape) == 4:
-                    shape += [math.ceil(xshape[3] / self.strides[1]), ]
-        else:
-            if len(xshape) == 4:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                ow = _conv_output_shape(xshape[3], self.pads[1] + self.pads[3], wshape[3], self.strides[1],
-                                        self.dilations[1])
-                shape = [xshape[0], wshape[0], oh, ow]
-            elif len(xshape) == 3:
-                oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[1], wshape[2], self.strides[0],
-                                        self.dilations[0])
-                shape = [xshape[0], wshape[0], oh]
+        shape = [xshape[0], wshape[0]] + _conv_spatial_shape(xshape[2:], wshape[2:], self.auto_pad, self.pads,
+                                                             self.strides, self.dilations)
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(numpy.int32)
 
-- 
2.43.0


From 8cd15f86250e83f8870d88b4edaff4ca3c367332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 004/164] fix: QLinearConv reports the element type of
 y_zero_point, with or without bias

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 0bde2b3..a73459b 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2588,7 +2588,7 @@ class QLinearConvNode(ConvNode):
         shape = [xshape[0], wshape[0]] + _conv_spatial_shape(xshape[2:], wshape[2:], self.auto_pad, self.pads,
                                                              self.strides, self.dilations)
         outtensors[0].update_shape(shape)
-        outtensors[0].update_dtype(intensors[-2].dtype)
+        outtensors[0].update_dtype(intensors[7].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
-- 
2.43.0


From 444d17bde8276e344d741f45a3a5bb659a18d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 005/164] fix: pooling honours end pads, third dilation and
 auto_pad on one and three spatial axes

---
 onnx_tool/node.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index a73459b..a20e171 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1417,23 +1417,21 @@ class PoolBase(Node):
         self.op_mac = CMP_MACS
         self.add_default_value('kernel_shape', (3, 3))
         self.add_default_value('ceil_mode', 0)
-        self.add_default_value('pads', (0, 0, 0, 0))
-        self.add_default_value('strides', (1, 1))
-        self.add_default_value('dilations', (1, 1))
+        self.add_default_value('pads', (0, 0, 0, 0, 0, 0))
+        self.add_default_value('strides', (1, 1, 1))
+        self.add_default_value('dilations', (1, 1, 1))
         self.add_default_value('auto_pad', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
         if self.auto_pad is not None and self.auto_pad != b'NOTSET':
             outshape = inshape[:2]
-            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                outshape += (_auto_pad_same_shape_calc(inshape[2], self.strides[0]),)
-                if len(self.strides) == 2:
-                    outshape += [_auto_pad_same_shape_calc(inshape[3], self.strides[1]), ]
-            elif self.auto_pad == b'VALID':
-                outshape += [_auto_pad_valid_shape_calc(inshape[2], self.kernel_shape[0], self.strides[0]), ]
-                if len(self.strides) == 2:
-                    outshape += [_auto_pad_valid_shape_calc(inshape[3], self.kernel_shape[1], self.strides[1]), ]
+            for i, (k, stride) in enumerate(zip(self.kernel_shape, self.strides)):
+                if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
+                    outshape.append(_auto_pad_same_shape_calc(inshape[2 + i], stride))
+                elif self.auto_pad == b'VALID':
+                    window = (k - 1) * self.dilations[i] + 1
+                    outshape.append(_auto_pad_valid_shape_calc(inshape[2 + i], window, stride))
         else:
             if len(self.kernel_shape) == 1:
                 outshape = inshape[:2] + [
@@ -1453,16 +1451,16 @@ class PoolBase(Node):
                 ]
             if len(self.kernel_shape) == 3:
                 outshape = inshape[:2] + [
-                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[0], self.kernel_shape[0],
+                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[3], self.kernel_shape[0],
                                         self.dilations[0],
                                         self.strides[0],
                                         self.ceil_mode),
-                    _pooling_shape_calc(inshape[3], self.pads[1] + self.pads[1], self.kernel_shape[1],
+                    _pooling_shape_calc(inshape[3], self.pads[1] + self.pads[4], self.kernel_shape[1],
                                         self.dilations[1],
                                         self.strides[1],
                                         self.ceil_mode),
-                    _pooling_shape_calc(inshape[4], self.pads[2] + self.pads[2], self.kernel_shape[2],
-                                        self.dilations[1],
+                    _pooling_shape_calc(inshape[4], self.pads[2] + self.pads[5], self.kernel_shape[2],
+                                        self.dilations[2],
                                         self.strides[2],
                                         self.ceil_mode),
                 ]
-- 
2.43.0


From 19d7de8d253461cb47df3fd9c0255c785e001140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 006/164] fix: ConvTranspose accepts default attributes on
 three spatial axes and honours auto_pad SAME

---
 onnx_tool/node.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index a20e171..9ccc14e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2638,10 +2638,11 @@ class ConvIntegerNode(ConvNode):
 class ConvTransposeNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('pads', (0, 0, 0, 0))
+        self.add_default_value('auto_pad', None)
+        self.add_default_value('pads', (0, 0, 0, 0, 0, 0))
         self.add_default_value('output_padding', (0, 0, 0, 0))
-        self.add_default_value('strides', (1, 1))
-        self.add_default_value('dilations', (1, 1))
+        self.add_default_value('strides', (1, 1, 1))
+        self.add_default_value('dilations', (1, 1, 1))
         self.add_default_value('output_shape', (0, 0))
         self.add_default_value('group', 1)
 
@@ -2680,6 +2681,8 @@ class ConvTransposeNode(Node):
             shape = [xshape[0], outc, ow]
             if volume(self.output_shape) != 0:
                 shape[2] = self.output_shape[0]
+        if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER'] and volume(self.output_shape) == 0:
+            shape[2:] = [x * stride for x, stride in zip(xshape[2:], self.strides)]
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From df6a46730a16282714afacbb03694d595b72fe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 007/164] fix: Slice accepts omitted axes (attribute form, and
 fewer starts than dimensions)

---
 onnx_tool/node.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 9ccc14e..7dc8a3a 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1731,6 +1731,7 @@ class SliceNode(Node):
     def __init__(self, n):
         super(SliceNode, self).__init__(n)
         self.add_default_value('steps', None)
+        self.add_default_value('axes', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
@@ -1755,9 +1756,9 @@ class SliceNode(Node):
                     steps = list(intensors[4].get_numpy())
 
         r = len(inshape)
-        # If axes omitted, set to [0..r-1]
+        # If axes omitted, set to [0..len(starts)-1]
         if axes is None:
-            axes = list(range(r))
+            axes = list(range(len(starts)))
         # Normalize negative axes
         axes = _axes_neg2pos(r, list(axes))
 
-- 
2.43.0


From c9dd6e14f4dd5e0f82ca163fcf91fb0043d7eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 008/164] fix: Expand reports the bidirectional broadcast shape
 and refuses incompatible targets

---
 onnx_tool/node.py | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 7dc8a3a..d799b5c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1561,26 +1561,7 @@ class ExpandNode(Node):
         expandshape = intensors[1].get_numpy().tolist()
         if not isinstance(expandshape, list):
             expandshape = [expandshape, ]
-        # Ensure both shapes have the same rank by prepending 1s to the shorter one.
-        xshape = list(xshape)
-        expandshape = list(expandshape)
-        if len(xshape) < len(expandshape):
-            xshape = [1] * (len(expandshape) - len(xshape)) + xshape
-        elif len(expandshape) < len(xshape):
-            expandshape = [1] * (len(xshape) - len(expandshape)) + expandshape
-
-        yshape = []
-        for x, e in zip(xshape, expandshape):
-            try:
-                xi = int(x)
-            except Exception:
-                xi = x
-            try:
-                ei = int(e)
-            except Exception:
-                ei = e
-            yshape.append(max(xi, ei))
-        outtensors[0].update_shape(yshape)
+        outtensors[0].update_shape(_broadcast_shape([xshape, expandshape]))
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 81d5a870efa724e0e9d84f8216040dbf4dd592a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 009/164] fix: Flatten accepts a negative axis

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d799b5c..2a8d280 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1666,7 +1666,8 @@ class FlattenNode(Node):
             y = x.reshape((x.shape[0], -1))
         else:
             vol = 1
-            for i in range(self.axis):
+            axis = self.axis + len(x.shape) if self.axis < 0 else self.axis
+            for i in range(axis):
                 vol *= x.shape[i]
             y = x.reshape((vol, -1))
         outtensors[0].update_tensor(y)
-- 
2.43.0


From 90da9a5636f51a54081707c173947cb86b451c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 010/164] fix: GatherND honours batch_dims

---
 onnx_tool/node.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 2a8d280..41de3c3 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2394,10 +2394,14 @@ class ScatterNDNode(Node):
 
 @NODE_REGISTRY.register()
 class GatherNDNode(Node):
+    def __init__(self, n):
+        super().__init__(n)
+        self.add_default_value('batch_dims', 0)
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data_shape = intensors[0].get_shape()
         indice_shape = intensors[1].get_shape()
-        batch_dims = 0
+        batch_dims = self.batch_dims
         # Note the data rank - will be reused multiple times later
         data_rank = len(data_shape)
 
@@ -2431,7 +2435,7 @@ class GatherNDNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
         indices = intensors[1].get_numpy()
-        ret = gather_nd_impl(data, indices, 0)
+        ret = gather_nd_impl(data, indices, self.batch_dims)
         outtensors[0].update_tensor(ret)
 
 
-- 
2.43.0


From a3c78a5c9e6358fbb7788850af70a186dd6e91b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 011/164] fix: Split defaults to axis 0 and yields every output
 when trailing parts are empty

---
 onnx_tool/node.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 41de3c3..5a6b9d1 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2870,7 +2870,7 @@ class MQANode(SDPANode):
 class SplitNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('axis', None)
+        self.add_default_value('axis', 0)
         self.add_default_value('split', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -2926,9 +2926,7 @@ class SplitNode(Node):
             split = self.split
 
         axis = _axes_neg2pos(len(inshape), [self.axis])[0]
-        for v in split:
-            if end + v >= inshape[axis]:
-                break
+        for v in split[:-1]:
             splitpos.append(end + v)
             end += v
         ret = numpy.split(intensors[0].get_numpy(), splitpos, axis)
-- 
2.43.0


From b69a67938f97fadfa22888c14ae4e633a85c0e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 012/164] fix: Squeeze without axes removes every dimension of
 extent 1; axes may come in any order

---
 onnx_tool/node.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 5a6b9d1..6b017b3 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1326,14 +1326,17 @@ class UnsqueezeNode(Node):
 class SqueezeNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('axes', [0])
+        self.add_default_value('axes', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
         outshape = []
         if len(intensors) == 2:
             self.axes = intensors[1].get_numpy()
-        axes = _axes_neg2pos(len(inshape), self.axes)
+        if self.axes is None:
+            axes = [i for i in range(len(inshape)) if inshape[i] == 1]
+        else:
+            axes = _axes_neg2pos(len(inshape), self.axes)
         for i in range(len(inshape)):
             if i in axes:
                 continue
@@ -1344,12 +1347,12 @@ class SqueezeNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensor = intensors[0].get_numpy().copy()
-        idx = 0
         if len(intensors) == 2:
             self.axes = intensors[1].get_numpy()
-        for axis in self.axes:
-            outtensor = numpy.squeeze(outtensor, axis=axis - idx)
-            idx += 1
+        if self.axes is None:
+            outtensor = numpy.squeeze(outtensor)
+        else:
+            outtensor = numpy.squeeze(outtensor, axis=tuple(_axes_neg2pos(outtensor.ndim, self.axes)))
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From fdb912e37537c3c2b67a687754556e769caa3567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 013/164] fix: reductions without axes reduce every dimension;
 axes tensors work in value inference

---
 onnx_tool/node.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 6b017b3..1314580 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1929,9 +1929,8 @@ class ReduceMeanNode(Node):
         else:
             axes = self.axes
         if axes is None:
-            return [[1]]
-        else:
-            axes = _axes_neg2pos(len(xshape), axes)
+            axes = range(len(xshape))
+        axes = _axes_neg2pos(len(xshape), axes)
 
         for i in range(len(xshape)):
             if i in axes:
@@ -1947,6 +1946,7 @@ class ReduceMeanNode(Node):
             axes = intensors[1].get_numpy()
         else:
             axes = self.axes
+        axes = None if axes is None else tuple(axes)
         reduced = numpy.mean(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -1962,6 +1962,7 @@ class ReduceProdNode(ReduceMeanNode):
             axes = intensors[1].get_numpy()
         else:
             axes = self.axes
+        axes = None if axes is None else tuple(axes)
         reduced = numpy.prod(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -1990,6 +1991,7 @@ class ReduceMinNode(ReduceMeanNode):
             axes = intensors[1].get_numpy()
         else:
             axes = self.axes
+        axes = None if axes is None else tuple(axes)
         reduced = numpy.minimum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -2007,6 +2009,7 @@ class ReduceMaxNode(ReduceMinNode):
             axes = intensors[1].get_numpy()
         else:
             axes = self.axes
+        axes = None if axes is None else tuple(axes)
         reduced = numpy.maximum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
-- 
2.43.0


From 469f72bcf8975e9be4d5929897db7d90dc84d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 014/164] fix: ReduceL2 reads axes given as a tensor

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1314580..3b5dd12 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2220,8 +2220,9 @@ class ReduceL2Node(Node):
         self.axes = tuple(self.axes) if self.axes is not None else None
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        axes = self.axes if len(intensors) < 2 else tuple(intensors[1].get_numpy())
         reduced = numpy.sqrt(
-            numpy.sum(intensors[0].get_numpy() * intensors[0].get_numpy(), axis=self.axes, keepdims=self.keepdims == 1))
+            numpy.sum(intensors[0].get_numpy() * intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1))
         outtensors[0].update_tensor(reduced)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 55f4f4782b723965777f4a115ed6ff18aaa8da39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 015/164] fix: TopK defaults to the last axis

---
 onnx_tool/node.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 3b5dd12..71efd16 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2018,14 +2018,11 @@ class ReduceMaxNode(ReduceMinNode):
 class TopKNode(Node):
     def __init__(self, node):
         super().__init__(node)
-        self.add_default_value('axis', None)
+        self.add_default_value('axis', -1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         k = intensors[1].get_numpy()[0]
-        # when the input tensor only contain 1 dimension, the axis attribute (default: 0) may not appear in the node
-        if len(xshape) == 1 and self.axis is None:
-            self.axis = 0
         axis = _axes_neg2pos(len(xshape), [self.axis])[0]
         newshape = []
         for i in range(len(xshape)):
-- 
2.43.0


From eca4ece2823938935921129a22f651c87a218619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 016/164] fix: GRU accepts a node without the final hidden
 state output

---
 onnx_tool/node.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 71efd16..92371ec 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2764,8 +2764,9 @@ class GRUNode(Node):
         h_len = wshape[1] // 3
         outtensors[0].update_shape([seq_len, num_dir, batch, h_len])
         outtensors[0].update_dtype(intensors[0].dtype)
-        outtensors[1].update_shape([num_dir, batch, h_len])
-        outtensors[1].update_dtype(intensors[0].dtype)
+        if len(outtensors) > 1:
+            outtensors[1].update_shape([num_dir, batch, h_len])
+            outtensors[1].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-- 
2.43.0


From 9822e069a293731b986323dec36c8fbe82535474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 017/164] fix: MatMul and MatMulInteger broadcast batch
 dimensions, accept vectors and refuse mismatched operands

---
 onnx_tool/node.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 92371ec..abd9b95 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -179,6 +179,20 @@ def _broadcast_shape(shapes: []):
     return outshape
 
 
+def _matmul_shape(ashape, bshape):
+    # numpy.matmul semantics: vectors are promoted to matrices, batch dimensions broadcast
+    a = list(ashape) if len(ashape) > 1 else [1] + list(ashape)
+    b = list(bshape) if len(bshape) > 1 else list(bshape) + [1]
+    if a[-1] != b[-2]:
+        raise RuntimeError(f'Incompatible MatMul shapes: A {ashape} B {bshape}')
+    yshape = _broadcast_shape([a[:-2], b[:-2]])
+    if len(ashape) > 1:
+        yshape.append(a[-2])
+    if len(bshape) > 1:
+        yshape.append(b[-1])
+    return yshape
+
+
 class TmpNodeProto:
     def __init__(self, name, op_type, attributes):
         self.name = name
@@ -889,9 +903,9 @@ class GemmNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         a_shape = intensors[0].get_shape()
         b_shape = intensors[1].get_shape()
-        if len(a_shape) < 2 or len(b_shape) < 2:
-            raise RuntimeError('Gemm inputs must have rank >= 2')
         if self.__class__ == GemmNode:
+            if len(a_shape) < 2 or len(b_shape) < 2:
+                raise RuntimeError('Gemm inputs must have rank >= 2')
             # determine M,K from A depending on transA
             if self.transA > 0:
                 a_m = a_shape[-1]
@@ -913,9 +927,7 @@ class GemmNode(Node):
             batchshape = a_batch if volume(a_batch) >= volume(b_batch) else b_batch
             yshape = batchshape + [a_m, b_n]
         else:
-            # broadcast support for MatMul-like nodes
-            batchshape = a_shape[:-2] if volume(a_shape[:-2]) >= volume(b_shape[:-2]) else b_shape[:-2]
-            yshape = batchshape + [a_shape[-2], b_shape[-1]]
+            yshape = _matmul_shape(a_shape, b_shape)
         outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From 10f6e07e5b2ac21e34bd4a0593ea2dc284497326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 018/164] fix: QLinearMatMul broadcasts batch dimensions and
 refuses mismatched operands

---
 onnx_tool/node.py | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index abd9b95..46f4def 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2555,19 +2555,7 @@ class QLinearMatMulNode(GemmNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[3].get_shape()
-
-        if self.__class__ == GemmNode:
-            if self.transA is not None and self.transA > 0:
-                xshape = xshape[::-1]
-            else:
-                xshape = xshape
-            if self.transB is not None and self.transB > 0:
-                yshape = xshape[:-1] + [wshape[-2], ]
-            else:
-                yshape = xshape[:-1] + [wshape[-1], ]
-        else:
-            yshape = xshape[:-1] + [wshape[-1], ]
-        outtensors[0].update_shape(yshape)
+        outtensors[0].update_shape(_matmul_shape(xshape, wshape))
         outtensors[0].update_dtype(intensors[-1].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 5e85a692e5c27b19a26c9ee82f29214a9b9e30c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 019/164] fix: Einsum places ellipsis dimensions where the
 equation puts them

---
 onnx_tool/node.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 46f4def..6b04d62 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1210,17 +1210,14 @@ class EinsumNode(Node):
                 if ch != '.' and all_labels.count(ch) == 1:
                     if ch not in unique_labels:
                         unique_labels.append(ch)
-            self.output_label_str = ''.join(sorted(unique_labels))
+            self.output_label_str = ('...' if '...' in lhs else '') + ''.join(sorted(unique_labels))
 
     def _has_ellipsis(self, label_str):
         return '...' in label_str
 
     def _get_non_ellipsis_labels(self, label_str):
-        """Get the labels after the ellipsis part."""
-        if '...' in label_str:
-            idx = label_str.index('...')
-            return label_str[idx + 3:]
-        return label_str
+        """Get the labels around the ellipsis part."""
+        return label_str.replace('...', '')
 
     def _get_ellipsis_ndim(self, label_str, total_ndim):
         """Compute how many dimensions the ellipsis covers."""
@@ -1239,17 +1236,15 @@ class EinsumNode(Node):
             if self._has_ellipsis(label_str):
                 non_ellipsis = self._get_non_ellipsis_labels(label_str)
                 ellipsis_ndim = len(tshape) - len(non_ellipsis)
+                start = label_str.index('...')
                 # Record ellipsis dimensions for broadcasting
-                ellipsis_dims_list.append(tshape[:ellipsis_ndim])
-                offset = ellipsis_ndim
+                ellipsis_dims_list.append(tshape[start:start + ellipsis_ndim])
+                tshape = tshape[:start] + tshape[start + ellipsis_ndim:]
             else:
                 non_ellipsis = label_str
-                offset = 0
 
             for i, ch in enumerate(non_ellipsis):
-                if ch == '.':
-                    continue
-                dim_val = tshape[offset + i]
+                dim_val = tshape[i]
                 if ch not in label_to_dims:
                     label_to_dims[ch] = []
                 label_to_dims[ch].append(dim_val)
@@ -1268,14 +1263,11 @@ class EinsumNode(Node):
             for dims in zip(*padded_shapes):
                 ellipsis_shape.append(max(dims))
 
-        # Build output shape: first ellipsis dims, then output labels
-        shape.extend(ellipsis_shape)
-
         # For each output label, take the max across all inputs (broadcast)
-        for ch in self.output_label_str:
+        for ch in self.output_label_str.replace('...', '.'):
             if ch == '.':
-                continue
-            if ch in label_to_dims:
+                shape.extend(ellipsis_shape)
+            elif ch in label_to_dims:
                 shape.append(max(label_to_dims[ch]))
             else:
                 # Label not found in any input (shouldn't happen in valid equations)
-- 
2.43.0


From 00f692bf930b2ca7f5844fff9d73eccd0e1951c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 020/164] fix: Min folds to the element-wise minimum

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 6b04d62..84421ea 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -339,7 +339,7 @@ class MinNode(NpMathBase):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         result = intensors[0].get_numpy()
         for i in range(1, len(intensors)):
-            result = not numpy.minimum(result, intensors[i].get_numpy())
+            result = numpy.minimum(result, intensors[i].get_numpy())
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From 0ea5bdbd93e56453e38ee43ec7ed2db970da38be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 021/164] fix: integer Div folds with truncation and keeps its
 element type

---
 onnx_tool/node.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 84421ea..d3364d9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -369,13 +369,13 @@ class DivNode(NpMathBase):
         self.op_mac = DIV_MACS
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if intensors[0].dtype == intensors[1].dtype:
-            if intensors[0].dtype in [numpy.int64]:
-                result = intensors[0].get_numpy() // intensors[1].get_numpy()
-            else:
-                result = intensors[0].get_numpy() / intensors[1].get_numpy()
+        x = intensors[0].get_numpy()
+        y = intensors[1].get_numpy()
+        if intensors[0].dtype == intensors[1].dtype and numpy.issubdtype(intensors[0].dtype, numpy.integer):
+            # ONNX integer division truncates toward zero
+            result = (x - numpy.fmod(x, y)) // y
         else:
-            result = intensors[0].get_numpy() / intensors[1].get_numpy()
+            result = x / y
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From 700d8f4f7a50e795c80b63a93de2fdd081fbb0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 022/164] fix: Mod honours the fmod attribute

---
 onnx_tool/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d3364d9..4984d09 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -384,9 +384,11 @@ class ModNode(NpMathBase):
     def __init__(self, n):
         super().__init__(n)
         self.op_mac = ADD_MACS
+        self.add_default_value('fmod', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = numpy.mod(intensors[0].get_numpy(), intensors[1].get_numpy())
+        mod = numpy.fmod if self.fmod else numpy.mod
+        result = mod(intensors[0].get_numpy(), intensors[1].get_numpy())
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From a1a3b5b4fcd39cc072e30986727793dc1abcb1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 023/164] fix: Pow keeps the element type of its base

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4984d09..d9c238b 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -519,7 +519,7 @@ class PowNode(Node):
 
     def value_infer(sel, intensors: List[Tensor], outtensors: List[Tensor]):
         result = numpy.power(intensors[0].get_numpy(), intensors[1].get_numpy())
-        outtensors[0].update_tensor(result)
+        outtensors[0].update_tensor(result.astype(intensors[0].dtype))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outshape = outtensors[0].get_shape()
-- 
2.43.0


From 6d1c6eec782b1f2b59e472e8a88b6e20172f847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 024/164] fix: HardSigmoid and HardSwish fold arrays of any
 size

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d9c238b..a508fd1 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -620,7 +620,7 @@ class HardSigmoidNode(PWNode):
         self.add_default_value('beta', 0.5)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = max(0, min(1, self.alpha * intensors[0].get_numpy() + self.beta))
+        result = numpy.clip(self.alpha * intensors[0].get_numpy() + self.beta, 0, 1)
         outtensors[0].update_tensor(result)
 
 
@@ -633,7 +633,7 @@ class HardSwishNode(PWNode):
         self.add_default_value('beta', 0.5)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = intensors[0].get_numpy() * max(0, min(1, self.alpha * intensors[0].get_numpy() + self.beta))
+        result = intensors[0].get_numpy() * numpy.clip(self.alpha * intensors[0].get_numpy() + self.beta, 0, 1)
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From 40e750f39ec8233faaa75725c33e910ab169ac56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 025/164] fix: LeakyRelu folds arrays with more than one
 element

---
 onnx_tool/node.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index a508fd1..daefb59 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -741,11 +741,7 @@ class LeakyReluNode(PWNode):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        outtensor = numpy.zeros_like(x)
-        for i in numpy.ndindex(x.shape):
-            x = x[i]
-            outtensor[i] = x if x >= 0 else x * self.alpha
-        outtensors[0].update_tensor(outtensor)
+        outtensors[0].update_tensor(numpy.where(x >= 0, x, x * self.alpha))
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From a2ceb324a75e9b3f07a0e1952cfcf17913ef7f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 026/164] fix: Clip folds with omitted bounds and with
 attribute bounds

---
 onnx_tool/node.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index daefb59..045ff5e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1022,15 +1022,15 @@ class ClipNode(PWNode):
         super().__init__(n)
         self.op_mac = CMP_MACS * 2
         self.ratio = 1
+        self.add_default_value('min', None)
+        self.add_default_value('max', None)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if intensors[1].name == '':
-            minval = None
-        else:
+        minval = self.min
+        maxval = self.max
+        if len(intensors) > 1 and intensors[1].name != '':
             minval = intensors[1].get_numpy()
-        if intensors[2].name == '':
-            maxval = None
-        else:
+        if len(intensors) > 2 and intensors[2].name != '':
             maxval = intensors[2].get_numpy()
         y = numpy.clip(intensors[0].get_numpy(), minval, maxval)
         outtensors[0].update_tensor(y)
-- 
2.43.0


From b8fab49b69f2527e4e7e11c21e7301218560f85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 027/164] fix: Softmax defaults to the last axis

---
 onnx_tool/node.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 045ff5e..6b4adf0 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -439,6 +439,7 @@ class SoftmaxNode(ExpNode):
         super().__init__(node_proto)
         self.op_mac = EXP_MACS + DIV_MACS
         self.ratio = 1
+        self.add_default_value('axis', -1)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xexp = numpy.exp(intensors[0].get_numpy())
-- 
2.43.0


From 4d11f8ea9856ae508b06081356080d19a55b3d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 028/164] fix: ConstantOfShape without a value folds to float32
 zeros

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 6b4adf0..151af55 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2796,7 +2796,8 @@ class ConstantOfShapeNode(Node):
             outtensors[0].update_dtype(self.value.dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        arr = numpy.zeros(intensors[0].get_numpy(), dtype=self.value.dtype)
+        dtype = numpy.float32 if self.value is None else self.value.dtype
+        arr = numpy.zeros(intensors[0].get_numpy(), dtype=dtype)
         if self.value is not None and len(self.value) == 1:
             arr.fill(self.value[0])
         outtensors[0].update_tensor(arr)
-- 
2.43.0


From 5d4f10cf9547a575e964d04544d70b2b229942da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 029/164] fix: GatherElements keeps the element type of its
 data

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 151af55..338aec9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2735,7 +2735,7 @@ class GatherElementsNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
         indice = intensors[1].get_numpy()
-        outtensor = numpy.zeros_like(indice)
+        outtensor = numpy.zeros_like(indice, dtype=x.dtype)
         for i in numpy.ndindex(outtensor.shape):
             idx = list(i)
             idx[self.axis] = indice[i]
-- 
2.43.0


From 4c993f0bf70c8ccbf75f858bda08198c2119e916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 030/164] fix: Gemm folds with its alpha and beta

---
 onnx_tool/node.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 338aec9..386509c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -898,6 +898,8 @@ class GemmNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('transA', 0)
         self.add_default_value('transB', 0)
+        self.add_default_value('alpha', 1.0)
+        self.add_default_value('beta', 1.0)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         a_shape = intensors[0].get_shape()
@@ -945,8 +947,13 @@ class GemmNode(Node):
         if self.transB > 0:
             B = numpy.swapaxes(B, -1, -2)
         C = numpy.matmul(A, B)
+        if self.alpha != 1:
+            C = (C * self.alpha).astype(C.dtype)
         if len(intensors) > 2:
-            C = numpy.add(C, intensors[2].get_numpy())
+            bias = intensors[2].get_numpy()
+            if self.beta != 1:
+                bias = (bias * self.beta).astype(bias.dtype)
+            C = numpy.add(C, bias)
         outtensors[0].update_tensor(C)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 946bf5e4525ab814ab8020be45e29068b2023728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 031/164] fix: MatMul folds vectors

---
 onnx_tool/node.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 386509c..bd4d07b 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -934,9 +934,6 @@ class GemmNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if self.__class__ == MatMulNode:
-            ashape = intensors[0].get_shape()
-            bshape = intensors[1].get_shape()
-            assert (ashape[-1] == bshape[-2])
             result = numpy.matmul(intensors[0].get_numpy(), intensors[1].get_numpy())
             outtensors[0].update_tensor(result)
             return
-- 
2.43.0


From 78f160037a83f166354ab628c46de8e841c57394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 032/164] fix: OneHot folds to its off/on values and leaves
 out-of-range indices off

---
 onnx_tool/node.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index bd4d07b..4b8841d 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1155,8 +1155,10 @@ class OneHotNode(Node):
         indices = intensors[0].get_numpy()
         depth = intensors[1].get_numpy()
         values = intensors[2].get_numpy()
-        y = one_hot(indices, depth, self.axis)
-        outtensors[0].update_tensor(y)
+        hot = one_hot(indices, depth, self.axis, dtype=numpy.bool_)
+        inrange = numpy.expand_dims((indices >= -depth) & (indices < depth), self.axis)
+        y = numpy.where(hot & inrange, values[1], values[0])
+        outtensors[0].update_tensor(y.astype(values.dtype))
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 7b1d56dc07238ab80e9b4482f09b00d602c94949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 033/164] fix: Pad folds with attribute pads, the default mode
 and the edge and reflect modes

---
 onnx_tool/node.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4b8841d..a553724 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1609,6 +1609,7 @@ class PadNode(Node):
             pads = self.pads
         elif len(intensors) > 1:
             pads = intensors[1].get_numpy()
+        pads = numpy.asarray(pads)
         nrank = len(pads) // 2
         start = pads[:nrank].reshape(nrank, 1)
         end = pads[nrank:].reshape(nrank, 1)
@@ -1616,8 +1617,9 @@ class PadNode(Node):
         value = self.value
         if len(intensors) > 2:
             value = intensors[2].get_numpy()
-        outtensor = numpy.pad(intensors[0].get_numpy(), pad_width=pad_width, mode=self.mode.decode("utf-8"),
-                              constant_values=value)
+        mode = self.mode.decode("utf-8") if isinstance(self.mode, bytes) else self.mode
+        kwargs = {'constant_values': value} if mode == 'constant' else {}
+        outtensor = numpy.pad(intensors[0].get_numpy(), pad_width=pad_width, mode=mode, **kwargs)
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From 3b2693605fdaf412fd0dac062112bc8705e954c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 034/164] fix: ReduceSum folds with axes given as an attribute

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index a553724..d78f4be 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1987,9 +1987,10 @@ class ReduceProdNode(ReduceMeanNode):
 class ReduceSumNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if len(intensors) == 2:
-            axes = tuple(intensors[1].get_numpy().tolist())
+            axes = intensors[1].get_numpy()
         else:
             axes = self.axes
+        axes = None if axes is None else tuple(axes)
         reduced = numpy.sum(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
-- 
2.43.0


From 09ace4775783fa1c5e69abe04869067449d497b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 035/164] fix: ScatterND folds with its reduction

---
 onnx_tool/node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d78f4be..8c6ccee 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2397,6 +2397,10 @@ def gather_nd_impl(
 
 @NODE_REGISTRY.register()
 class ScatterNDNode(Node):
+    def __init__(self, n):
+        super().__init__(n)
+        self.add_default_value('reduction', 'none')
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
         outtensors[0].update_dtype(intensors[0].dtype)
@@ -2405,7 +2409,8 @@ class ScatterNDNode(Node):
         data = intensors[0].get_numpy()
         indices = intensors[1].get_numpy()
         updates = intensors[2].get_numpy()
-        outtensors[0].update_tensor(scatter_nd_impl(data, indices, updates))
+        reduction = self.reduction.decode() if isinstance(self.reduction, bytes) else self.reduction
+        outtensors[0].update_tensor(scatter_nd_impl(data, indices, updates, reduction))
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 5dc0b929ad938c4e65b91d9caaee2c4950a4af83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 036/164] fix: Slice folds along default, negative and any
 number of axes, with steps

---
 onnx_tool/node.py | 71 +++++++++++------------------------------------
 1 file changed, 16 insertions(+), 55 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8c6ccee..be8fc56 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1865,63 +1865,24 @@ class SliceNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        datashape = intensors[0].get_shape()
-        if len(intensors) == 3:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            x = data[starts[0]:ends[0]]
-        if len(intensors) == 4:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            axes = intensors[3].get_numpy()
-            index = 0
-            x = data.copy()
-            for i in axes:
-                if i == 0:
-                    x = x[starts[index]:ends[index], ...]
-                if i == 1:
-                    x = x[:, starts[index]:ends[index], ...]
-                if i == 2:
-                    x = x[:, :, starts[index]:ends[index], ...]
-                if i == 3:
-                    x = x[:, :, :, starts[index]:ends[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, starts[index]:ends[index], ...]
-                index += 1
-        if len(intensors) == 5:
+        axes = self.axes
+        steps = self.steps
+        if len(intensors) == 1:
+            starts = self.starts
+            ends = self.ends
+        else:
             starts = intensors[1].get_numpy()
             ends = intensors[2].get_numpy()
-            axes = intensors[3].get_numpy()
-            steps = intensors[4].get_numpy()
-            index = 0
-            x = data.copy()
-            for i in axes:
-                if i == 0:
-                    x = x[starts[index]:ends[index]:steps[index], ...]
-                if i == 1:
-                    x = x[:, starts[index]:ends[index]:steps[index], ...]
-                if i == 2:
-                    x = x[:, :, starts[index]:ends[index]:steps[index], ...]
-                if i == 3:
-                    x = x[:, :, :, starts[index]:ends[index]:steps[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, starts[index]:ends[index]:steps[index], ...]
-                index += 1
-        if len(intensors) == 1:
-            index = 0
-            x = data.copy()
-            for i in self.axes:
-                if i == 0:
-                    x = x[self.starts[index]:self.ends[index], ...]
-                if i == 1:
-                    x = x[:, self.starts[index]:self.ends[index], ...]
-                if i == 2:
-                    x = x[:, :, self.starts[index]:self.ends[index], ...]
-                if i == 3:
-                    x = x[:, :, :, self.starts[index]:self.ends[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, self.starts[index]:self.ends[index], ...]
-                index += 1
+            if len(intensors) >= 4:
+                axes = intensors[3].get_numpy()
+            if len(intensors) >= 5:
+                steps = intensors[4].get_numpy()
+        slices = [slice(None)] * data.ndim
+        for i in range(len(starts)):
+            axis = i if axes is None else axes[i]
+            step = 1 if steps is None else steps[i]
+            slices[axis] = slice(starts[i], ends[i], step)
+        x = data[tuple(slices)].copy()
         outtensors[0].update_tensor(x)
 
 
-- 
2.43.0


From 14482358f4033f4e8a5134d817ee5e8158f8e063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 037/164] fix: Unsqueeze folds with axes in any order and
 negative axes

---
 onnx_tool/node.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index be8fc56..4f76cd5 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1326,8 +1326,7 @@ class UnsqueezeNode(Node):
             axes = intensors[1].get_numpy()
         else:
             axes = self.axes
-        for axis in axes:
-            outtensor = numpy.expand_dims(outtensor, axis=axis)
+        outtensor = numpy.expand_dims(outtensor, axis=tuple(axes))
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From f6295d2ff2c0ab30568fa55fb367617b43f365e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 038/164] fix: pooling counts every axis of a three-dimensional
 window

---
 onnx_tool/node.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4f76cd5..5492c9e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1481,9 +1481,7 @@ class PoolBase(Node):
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outshape = outtensors[0].get_shape()
         outvol = volume(outshape)
-        macs = outvol * CMP_MACS * self.kernel_shape[0]
-        if len(self.kernel_shape) == 2:
-            macs *= self.kernel_shape[1]
+        macs = outvol * CMP_MACS * volume(self.kernel_shape)
         return macs
 
 
-- 
2.43.0


From 76853cb7a650f6ad69f2c504950ee6906e007f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 039/164] fix: quantised convolutions count every axis of a
 three-dimensional kernel

---
 onnx_tool/node.py | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 5492c9e..d03f1e3 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2547,15 +2547,8 @@ class QLinearConvNode(ConvNode):
         outshape = outtensors[0].get_shape()
         if len(outtensors) == 1:
             kernel_shape = intensors[3].get_shape()
-            if len(kernel_shape) > 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2] * kernel_shape[3]
-            elif len(kernel_shape) == 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2]
-            else:
-                outvol = 0
-                raise NotImplementedError()
+            outvol = volume(outshape)
+            macs += outvol * volume(kernel_shape[1:])
             if len(intensors) == 9:
                 macs += (outvol * ADD_MACS)
         return macs
@@ -2576,15 +2569,8 @@ class ConvIntegerNode(ConvNode):
         outshape = outtensors[0].get_shape()
         if len(outtensors) == 1:
             kernel_shape = intensors[1].get_shape()
-            if len(kernel_shape) > 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2] * kernel_shape[3]
-            elif len(kernel_shape) == 3:
-                outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2]
-            else:
-                outvol = 0
-                raise NotImplementedError()
+            outvol = volume(outshape)
+            macs += outvol * volume(kernel_shape[1:])
         return macs
 
 
-- 
2.43.0


From e37739c91729c0615b545f13b22c05655786b7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 040/164] fix: transposed convolutions multiply per input
 element, not per output element

---
 onnx_tool/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d03f1e3..657c14a 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2632,9 +2632,11 @@ class ConvTransposeNode(Node):
             if len(intensors) == 3 or len(intensors) == 2:
                 kernel_shape = intensors[1].get_shape()
                 outvol = volume(outtensors[0].get_shape())
+                # every input element contributes to (M/group) x kernel outputs
+                invol = volume(intensors[0].get_shape())
                 reduce_shape = kernel_shape[1:]
                 reduce_vol = volume(reduce_shape)
-                macs += outvol * reduce_vol * MUL_MACS
+                macs += invol * reduce_vol * MUL_MACS
                 if len(intensors) > 2:
                     macs += (outvol * ADD_MACS)
         return macs
-- 
2.43.0


From 6014b05ba9eaa7274915ee82decd9a40772a6a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 041/164] fix: einsum MACs handle ellipses and any number of
 operands

---
 onnx_tool/node.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 657c14a..147cd0e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1284,12 +1284,17 @@ class EinsumNode(Node):
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 1
         map = {}
-        shape0 = intensors[0].get_shape()
-        shape1 = intensors[1].get_shape()
-        for i, v in enumerate(shape0):
-            map[self.input_labels[0].replace('.', '')[i]] = v
-        for i, v in enumerate(shape1):
-            map[self.input_labels[1].replace('.', '')[i]] = v
+        for tensor, label in zip(intensors, self.input_labels):
+            label = label.replace('...', '.')
+            shape = tensor.get_shape()
+            nell = len(shape) - (len(label) - label.count('.'))
+            # dimensions behind the ellipsis are aligned at their last axis
+            ell = [-i for i in range(nell, 0, -1)]
+            keys = []
+            for ch in label:
+                keys.extend(ell if ch == '.' else [ch])
+            for key, v in zip(keys, shape):
+                map[key] = max(v, map.get(key, 1))
         for key in map.keys():
             macs *= map[key]
         return macs
-- 
2.43.0


From 438fbdd41a7ac88a8620c28ac171c1016cff0715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 042/164] fix: matrix products count the contracted extent for
 quantised, batched and vector operands

---
 onnx_tool/node.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 147cd0e..4a42dc0 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -966,6 +966,8 @@ class GemmNode(Node):
             else:
                 if len(weight_shape) > 1:
                     macs *= weight_shape[-2]
+                else:
+                    macs *= weight_shape[0]
             if len(intensors) == 3:
                 macs += volume(yshape) * ADD_MACS
         else:
@@ -2528,12 +2530,7 @@ class QLinearMatMulNode(GemmNode):
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-        weight_shape = intensors[3].get_shape()
-        macs = volume(xshape)
-        if self.__class__ == GemmNode:
-            macs *= weight_shape[0]
-        else:
-            macs *= weight_shape[-1]
+        macs = volume(outtensors[0].get_shape()) * xshape[-1]
         return macs
 
 
-- 
2.43.0


From 664987248c8ee0b86ea8c31abf7860cacb9434bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 043/164] fix: LayerNormalization counts one mean and deviation
 per normalised slice

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4a42dc0..94060b3 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2491,8 +2491,8 @@ class LayerNormalizationNode(Node):
         tshape = intensors[0].get_shape()
         axis = _axes_neg2pos(len(tshape), [self.axis])[0]
         vol = volume(tshape)
-        tshape[axis] = 1
-        vol2 = volume(tshape)
+        # one mean and deviation for every slice over axis..last
+        vol2 = volume(tshape[:axis]) if axis > 0 else 1
         return vol * (MUL_MACS * 3 + ADD_MACS * 4) + vol2 * (ADD_MACS + SQRT_MACS + DIV_MACS)
 
 
-- 
2.43.0


From 934b33e84e7e12896d2ad238e3cf65b4d4a8dadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 044/164] fix: Gather reads as many table elements as it
 outputs, whatever the axis

---
 onnx_tool/node.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 94060b3..440382a 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1010,12 +1010,8 @@ class GatherNode(Node):
 
     def profile(self, intensors: List[Tensor], outtensors: List[Tensor]):
         # Embedding lookup: only seq_len rows of the weight table are accessed
-        weight_shape = intensors[0].get_shape()
-        ids_shape = intensors[1].get_shape()
-        seq_tokens = volume(ids_shape)
-        hidden = weight_shape[-1]
         io_params = volume(outtensors[0].get_shape())  # output activation
-        static_params = seq_tokens * hidden  # weight rows accessed
+        static_params = io_params  # weight elements accessed, one per output element
         return [0, io_params, static_params]
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 378a4d949fad06176f74ebec7084a7ca81333c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 045/164] fix: variadic Min and Max cost one comparison per
 extra operand

---
 onnx_tool/node.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 440382a..7d05792 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -299,7 +299,6 @@ class NpMathBase(Node):
     def __init__(self, n):
         super().__init__(n)
         self.op_mac = ADD_MACS
-        self.ratio = max(1, len(self.input) - 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshapes = []
@@ -312,7 +311,7 @@ class NpMathBase(Node):
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outshape = outtensors[0].get_shape()
-        macs = volume(outshape) * self.ratio * self.op_mac
+        macs = volume(outshape) * max(1, len(intensors) - 1) * self.op_mac
         return macs
 
 
-- 
2.43.0


From e6c9be5d47ba7e5695d6e3090954e0efea73a92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 046/164] fix: LSTM and GRU MACs accept an absent bias and
 count both directions

---
 onnx_tool/node.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 7d05792..353f987 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2088,14 +2088,15 @@ class LSTMNode(Node):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         rshape = intensors[2].get_shape()
-        bshape = intensors[3].get_shape()
+        # the bias is optional, and one set of weights exists per direction
+        bshape = intensors[3].get_shape() if len(intensors) > 3 else []
         seq = xshape[0]
         batch = xshape[1]
         num_dir = wshape[0]
         h_len = wshape[1] // 4
         if self.hidden_size is not None:
             assert (h_len == self.hidden_size)
-        ht_size = volume([batch, seq, h_len])
+        ht_size = volume([batch, seq, num_dir, h_len])
         # ft = sig(W*X+U*Ht-1+B)
         # it = sig(W*X+U*Ht-1+B)
         # ot = sig(W*X+U*Ht-1+B)
@@ -2720,11 +2721,13 @@ class GRUNode(Node):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         rshape = intensors[2].get_shape()
-        bshape = intensors[3].get_shape()
+        # the bias is optional, and one set of weights exists per direction
+        bshape = intensors[3].get_shape() if len(intensors) > 3 else []
         batch = xshape[1]
         seq = xshape[0]
+        num_dir = wshape[0]
         h_len = wshape[1] // 3
-        ht_size = volume([batch, seq, h_len])
+        ht_size = volume([batch, seq, num_dir, h_len])
         # r = sigmoid(Wr*X+Wr*Ht-1+br)
         # z = sigmoid(Wz*X+Wz*Ht-1+bz)
         # h' = tanh(W*X+W*(r*Ht-1)+bh)
-- 
2.43.0


From 918f586c58aa9739ced0420f68cf87ccd8f7e48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 047/164] fix: fixed_topk: k computed from initialisers or
 graph inputs has no producer to remove

---
 onnx_tool/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 80de650..0151efc 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -395,14 +395,14 @@ class Graph():
                 # remove condition node chain
                 node_list = []
                 ktensor = node.input[1]
-                if len(self.consumedby[ktensor]) == 1:
+                if len(self.consumedby[ktensor]) == 1 and ktensor in self.producedby:
                     node_list = [self.producedby[ktensor][0]]
                 while len(node_list):
                     remove = True
                     sname = node_list.pop(0)
                     snode = self.nodemap[sname]
                     for ipn in snode.input:
-                        if len(self.consumedby[ipn]) == 1:  # consumed by this node
+                        if len(self.consumedby[ipn]) == 1 and ipn in self.producedby:  # consumed by this node
                             node_list.append(self.producedby[ipn][0])
                     if remove:
                         remove_list.append(sname)
-- 
2.43.0


From 60f2bb53dba24c4a9579d162c4a3fc54972d7406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 048/164] fix: model_profile: exclude_ops of one call leaked
 into the default hidden operators of later calls

---
 onnx_tool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index b7d892a..f145853 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -86,7 +86,7 @@ def model_profile(m, dynamic_shapes: {str: tuple} = None,
         all_ops = {op.name for op in get_all_schemas()}
         for item in exclude_ops:
             assert item in all_ops, f"Provided exclude op is not a valid onnx op: {item}"
-        hidden_ops.update(exclude_ops)
+        hidden_ops = set(hidden_ops or ()) | set(exclude_ops)
     gtmr.start()
     g.shape_infer(dynamic_shapes)
     g.log(f'infered all tensor shapes, time cost {gtmr.stop():.3f} s')
-- 
2.43.0


From 3b7c84499abd36f297f1dba30802a35e704a5539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 049/164] fix: compress_memory: memory of a graph output was
 reused once its consumers inside the graph were done

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 0151efc..040e504 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1209,7 +1209,7 @@ class Graph():
                         tensor_consumed[name] = [node]
                     consumers = self.consumedby[name]
                     if len(tensor_consumed[name]) == len(consumers):
-                        if name in tensor_in_mem:
+                        if name in tensor_in_mem and name not in self.output:
                             tensor_in_mem.remove(name)
         for output in self.output:
             if output not in tensor_in_mem:
-- 
2.43.0


From 4e847eddf4da98f9d3026f9dcb344e837ca60339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 050/164] fix: compress_memory: a graph without intermediate
 tensors failed with a division by zero

---
 onnx_tool/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 040e504..9733a29 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1377,7 +1377,8 @@ class Graph():
 
         self.log(f"Raw memory size (without parameter memory): {raw_memsize:,} bytes")
         self.log(f"Compressed memory size: {compress_size:,} bytes")
-        self.log(f'Comression ratio: {compress_size / raw_memsize * 100:.3f}%')
+        if raw_memsize > 0:
+            self.log(f'Comression ratio: {compress_size / raw_memsize * 100:.3f}%')
         return compress_mem, compress_size
 
     def get_compute_graph(self):
-- 
2.43.0


From 5dd0d8c7ab2b122fb9d33092ab84d0a28fc93e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 051/164] fix: constant folding: a graph output that is itself
 constant was dropped from the folded model

---
 onnx_tool/graph.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 9733a29..4d7a246 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -224,6 +224,9 @@ class Graph():
                 for tname in self.nodemap[name].output:
                     if tname not in self.dynamics:
                         self.dynamics.append(tname)
+            for tname in self.output:
+                if tname in self.tensormap and self.tensormap[tname].type == STATIC_TENSOR and tname not in self.initials:
+                    self.initials.append(tname)
         else:
             for initial in self.rawgraph.initializer:
                 self.initials.append(initial.name)
@@ -864,6 +867,10 @@ class Graph():
         initializer = None
         if with_initializer:
             initializer = self.get_initials_from_nodenames(nodenames)
+            saved = [proto.name for proto in initializer]
+            for name in outputnames:
+                if name in self.initials and name not in saved and self.tensormap[name].numpy is not None:
+                    initializer.append(self.tensormap[name].make_tensor_proto())
 
         inputs = []
         outputs = []
-- 
2.43.0


From 9fb1ce9963070f9bd412e9ee37c6a1075f91fadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 052/164] fix: TensorProto: 8/16-bit integers and booleans
 stored in int32_data were read as zeros

---
 onnx_tool/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index f773fde..c3630ec 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -98,7 +98,7 @@ def tensorproto2ndarray(initial):
         if ndtype == numpy.float32:
             arr = numpy.fromiter(initial.float_data, dtype=ndtype)
 
-        elif ndtype == numpy.int32:
+        elif ndtype in (numpy.int32, numpy.int16, numpy.uint16, numpy.int8, numpy.uint8, numpy.bool_):
             arr = numpy.fromiter(initial.int32_data, dtype=ndtype)
 
         elif ndtype == numpy.float16:
-- 
2.43.0


From ab96a7d0b51365526265ae5b1c0fa537050b8d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 053/164] fix: TensorProto: uint32 and uint64 tensors were read
 as float64

---
 onnx_tool/tensor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index c3630ec..e8a012c 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -53,6 +53,10 @@ def onnxdtype2npdtype(data_type):
         return numpy.uint8
     if data_type == onnx.TensorProto.UINT16:
         return numpy.uint16
+    if data_type == onnx.TensorProto.UINT32:
+        return numpy.uint32
+    if data_type == onnx.TensorProto.UINT64:
+        return numpy.uint64
     if data_type == onnx.TensorProto.BOOL:
         return numpy.bool_
     if data_type == onnx.TensorProto.STRING:
@@ -82,6 +86,10 @@ def npdtype2onnxdtype(npdtype):
         return onnx.TensorProto.UINT8
     if npdtype == numpy.uint16:
         return onnx.TensorProto.UINT16
+    if npdtype == numpy.uint32:
+        return onnx.TensorProto.UINT32
+    if npdtype == numpy.uint64:
+        return onnx.TensorProto.UINT64
     if npdtype == numpy.bool_:
         return onnx.TensorProto.BOOL
     if npdtype == numpy.bytes_:
@@ -110,6 +118,9 @@ def tensorproto2ndarray(initial):
         elif ndtype == numpy.int64:
             arr = numpy.fromiter(initial.int64_data, dtype=ndtype)
 
+        elif ndtype in (numpy.uint32, numpy.uint64):
+            arr = numpy.fromiter(initial.uint64_data, dtype=ndtype)
+
         elif ndtype == numpy.float64:
             arr = numpy.fromiter(initial.double_data, dtype=ndtype)
         elif ndtype == numpy.bytes_:
-- 
2.43.0


From be1dc4475f9b79603ef72f084c39544dd6b795f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 054/164] fix: text tensors could be loaded but not saved

---
 onnx_tool/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index e8a012c..4876bd0 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -500,6 +500,8 @@ class Tensor():
     def make_tensor_proto(self):
         if self.numpy is None:
             return None
+        if self.numpy.dtype.kind == 'S':
+            return onnx.helper.make_tensor(self.name, onnx.TensorProto.STRING, self.numpy.shape, self.numpy.flatten().tolist())
         if len(self.numpy.shape) == 0:
             tproto = onnx.helper.make_tensor(self.name, npdtype2onnxdtype(self.numpy.dtype)
                                              , [], [self.numpy.item()])
-- 
2.43.0


From a5968155d76fe650561c9c125e5e5d8b3edd9e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 055/164] fix: unknown dimensions were saved as the number -1

---
 onnx_tool/tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 4876bd0..b05212c 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -487,6 +487,9 @@ class Tensor():
         shape = self.get_shape()
         if len(self.shape) == 0:
             shape = None
+        else:
+            # unknown dims are -1 in Tensor.shape and have no value in the proto
+            shape = [None if not isinstance(i, str) and i < 0 else i for i in shape]
         if self.numpy is None:
             dtype = npdtype2onnxdtype(self.dtype)
         else:
-- 
2.43.0


From 082b8e4b103d2d3fddbc4e720c4a21b850b9aebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 056/164] fix: keep the operator domain and empty list
 attributes when saving a node

---
 onnx_tool/node.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 353f987..d0c4a41 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -235,7 +235,16 @@ class Node():
             setattr(self, attname, defaultvalue)
 
     def make_nodeproto(self):
-        return onnx.helper.make_node(self.op_type, self.input, self.output, self.name, **self.attr)
+        # an empty list does not tell its attribute type, copy the loaded attribute instead
+        empty = [key for key, val in self.attr.items() if isinstance(val, (list, tuple)) and len(val) == 0]
+        attr = {key: val for key, val in self.attr.items() if key not in empty}
+        node = onnx.helper.make_node(self.op_type, self.input, self.output, self.name,
+                                     domain=getattr(self.proto, 'domain', None), **attr)
+        if not isinstance(self.proto.attribute, dict):
+            for att in self.proto.attribute:
+                if att.name in empty:
+                    node.attribute.append(att)
+        return node
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         self.value_infer(intensors, outtensors)
-- 
2.43.0


From 3ff03706153ee334c4bc019c57340d282a1b94e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 057/164] fix: do not declare unused initializers as inputs of
 a saved graph

---
 onnx_tool/graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 4d7a246..a51445e 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -887,9 +887,14 @@ class Graph():
             else:
                 inputs.append(onnx.helper.make_tensor_value_info(name, 1, None))
         # 把没有 numpy 数据的 initializer 也作为 graph input（保留 shape 信息）
+        used_names = set(outputnames)
+        for name in nodenames:
+            used_names.update(self.nodemap[name].input)
         for name in self.initials:
             if name in initializer_names:
                 continue  # 已有 numpy 数据，作为 initializer 导出
+            if name not in used_names or name in inputnames:
+                continue
             if name in self.tensormap:
                 proto = self.tensormap[name].make_value_proto(make_dummy=True)
                 if proto is not None:
-- 
2.43.0


From 315fadd5adb66c44ca1f339d842cd5e3a0260757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 058/164] fix: do not save a made-up type for tensors of
 unknown type and shape

---
 onnx_tool/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index a51445e..cf92272 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -910,6 +910,8 @@ class Graph():
                 if key in self.input or key in self.output:
                     continue
                 tensor = self.tensormap[key]
+                if tensor.proto is None and tensor.numpy is None and len(tensor.shape) == 0:
+                    continue  # neither declared nor infered
                 vinfo = tensor.make_value_proto()
                 if vinfo is None:
                     continue
-- 
2.43.0


From 35a1d8e5ebb470767c05828398cbe9be3a14ea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 059/164] fix: keep every node of a model with repeated or
 clashing node names

---
 onnx_tool/graph.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index cf92272..4005cda 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -416,10 +416,19 @@ class Graph():
         for n in remove_list:
             self.remove_node(n)
 
+    def __unique_node_name__(self, name):
+        unique = name
+        count = 1
+        while unique in self.nodemap:
+            unique = name + '_' + str(count)
+            count += 1
+        return unique
+
     def __add_node_from_proto__(self, node_proto):
         newnode = create_node(node_proto)
         if len(newnode.name) == 0:
             newnode.name = newnode.op_type + '_' + str(self.node_count)
+        newnode.name = self.__unique_node_name__(newnode.name)
         self.node_count += 1
         for tensor in node_proto.input:
             if tensor in self.producedby:
@@ -448,6 +457,7 @@ class Graph():
             newnode = create_node(node)
             if noderename or len(newnode.name) == 0:
                 newnode.name = newnode.op_type + '_' + str(self.node_count)
+            newnode.name = self.__unique_node_name__(newnode.name)
             self.node_count += 1
             for tensor in node.input:
                 if tensor in self.producedby:
-- 
2.43.0


From d34eb52adbf1d1eadb33e8c1233657257ffd4e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:53 +0000
Subject: [PATCH 060/164] fix: inline every output, initializer and unnamed
 node of a fixed If branch

---
 onnx_tool/graph.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 4005cda..72be4bb 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -361,12 +361,25 @@ class Graph():
                     # add branch node
                     names = []
                     for node_proto in node.attr[selected_branch].node:
-                        self.__add_node_from_proto__(node_proto)
-                        names.append(node_proto.name)
+                        names.append(self.__add_node_from_proto__(node_proto))
+                    for initial in node.attr[selected_branch].initializer:
+                        self.tensormap[initial.name] = Tensor(initial)
+                        self.initials.append(initial.name)
 
                     # revise output name
-                    preoutput = node.attr[selected_branch].output[0].name
-                    newoutput = node.output[0]
+                    newoutputs = {}
+                    for branch_output, if_output in zip(node.attr[selected_branch].output, node.output):
+                        newoutputs[branch_output.name] = if_output
+                    for newname in names:
+                        newnode = self.nodemap[newname]
+                        for i, v in enumerate(newnode.input):
+                            if v in newoutputs:
+                                newnode.input[i] = newoutputs[v]
+                                self.consumedby.setdefault(newoutputs[v], []).append(newname)
+                        for i, v in enumerate(newnode.output):
+                            if v in newoutputs:
+                                newnode.output[i] = newoutputs[v]
+                                self.producedby[newoutputs[v]].append(newname)
                     for newname in names:
                         newnode = self.nodemap[newname]
                         for tensor in newnode.input:
@@ -377,11 +390,7 @@ class Graph():
                                 self.tensormap[tensor] = Tensor(tensor)
                             if tensor in self.consumedby:
                                 for consumer in self.consumedby[tensor]:
-                                    self.nodemap[newnode.name].nextnodes.append(self.nodemap[consumer])
-                        for i, v in enumerate(newnode.output):
-                            if v == preoutput:
-                                newnode.output[i] = newoutput
-                                self.producedby[newoutput].append(newname)
+                                    newnode.nextnodes.append(self.nodemap[consumer])
             if len(remove_list)==0:
                 break
             for n in remove_list:
@@ -444,6 +453,7 @@ class Graph():
             self.producedby[tensor].append(newnode.name)
             newnode.output.append(tensor)
         self.nodemap[newnode.name] = newnode
+        return newnode.name
 
     def __init_graph_from_onnxproto__(self, g, noderename):
         if g is None:
-- 
2.43.0


From 8387e79535476348295c33ce764853b7c3e5a7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 061/164] fix: keep producers with other users when removing If
 and TopK input chains

---
 onnx_tool/graph.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 72be4bb..1f6a41e 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -333,6 +333,12 @@ class Graph():
         self.__update_consumer_producer__()
         self.dynamics = list(self.producedby.keys())
 
+    def __is_unused__(self, nodename, used=()):
+        for o in self.nodemap[nodename].output:
+            if o in self.output or o in used or len(self.consumedby.get(o, [])) > 0:
+                return False
+        return True
+
     def __remove_if__(self):
         while True:
             prekeys = list(self.nodemap.keys())
@@ -352,10 +358,9 @@ class Graph():
                         sname = node_list.pop(0)
                         snode = self.nodemap[sname]
                         for ipn in snode.input:
-                            if len(self.consumedby[ipn]) == 1 and ipn not in sub_input:  # consumed by this node
-                                if ipn in self.producedby.keys():
-                                    node_list.append(self.producedby[ipn][0])
                             self.consumedby[ipn].remove(sname)
+                            if ipn in self.producedby and self.__is_unused__(self.producedby[ipn][0], sub_input):
+                                node_list.append(self.producedby[ipn][0])
                         if remove:
                             remove_list.append(sname)
                     # add branch node
@@ -407,14 +412,16 @@ class Graph():
                 # remove condition node chain
                 node_list = []
                 ktensor = node.input[1]
-                if len(self.consumedby[ktensor]) == 1 and ktensor in self.producedby:
+                self.consumedby[ktensor].remove(n)
+                if ktensor in self.producedby and self.__is_unused__(self.producedby[ktensor][0]):
                     node_list = [self.producedby[ktensor][0]]
                 while len(node_list):
                     remove = True
                     sname = node_list.pop(0)
                     snode = self.nodemap[sname]
                     for ipn in snode.input:
-                        if len(self.consumedby[ipn]) == 1 and ipn in self.producedby:  # consumed by this node
+                        self.consumedby[ipn].remove(sname)
+                        if ipn in self.producedby and self.__is_unused__(self.producedby[ipn][0]):
                             node_list.append(self.producedby[ipn][0])
                     if remove:
                         remove_list.append(sname)
-- 
2.43.0


From fdd24ac76be462f28189bd38ce6307c4c739a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 062/164] fix: replace both kinds of separators in exported
 tensor file names

---
 onnx_tool/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index f145853..9ee2bf0 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -44,8 +44,8 @@ def model_export_tensors_numpy(m, tensornames: [str] = None, savefolder: str = N
             name = key
             if '/' in key:
                 name = key.replace('/', '_')
-            if '\\' in key:
-                name = key.replace('\\', '_')
+            if '\\' in name:
+                name = name.replace('\\', '_')
             narr = g.tensormap[key].numpy
             save_numpy(narr, fp16, os.path.join(savefolder, name + '.npy'))
 
@@ -57,8 +57,8 @@ def model_export_tensors_numpy(m, tensornames: [str] = None, savefolder: str = N
             fname = name
             if '/' in name:
                 fname = name.replace('/', '_')
-            if '\\' in name:
-                fname = name.replace('\\', '_')
+            if '\\' in fname:
+                fname = fname.replace('\\', '_')
             narr = g.tensormap[name].numpy
             save_numpy(narr, fp16, os.path.join(savefolder, fname + '.npy'))
 
-- 
2.43.0


From 7182577571b7bfb3c70a6f67a73ab6178448b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 063/164] fix: accept --dynamic_shapes without element type
 when profiling, refuse unknown types

---
 onnx_tool/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/__main__.py b/onnx_tool/__main__.py
index a7a8a54..7c8405b 100644
--- a/onnx_tool/__main__.py
+++ b/onnx_tool/__main__.py
@@ -59,6 +59,7 @@ def __str2numpytype__(strtype):
         return numpy.float32
     if strtype == 'int32':
         return numpy.int32
+    raise ValueError(f'unsupported element type: {strtype}')
 
 
 def __str2list__(strshape, type):
@@ -73,6 +74,8 @@ def __args2dynamicshapes__(args: [str]):
     dic = {}
     for arg in args:
         strs = arg.split(':')
+        if len(strs) == 2:  # no element type, e.g. input:1x3x224x224
+            strs.insert(1, 'f32')
         dtype = __str2numpytype__(strs[1])
         shape = __str2list__(strs[2], int)
         if len(strs) > 3:
-- 
2.43.0


From 35fb0328f89561a5ab836d224bc12e9b79cf099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 064/164] fix: fit decreasing and odd-offset strided relations
 in ValueExpr

---
 onnx_tool/graph.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 1f6a41e..a34b158 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -74,21 +74,23 @@ class ValueExpr():
         lastidx = len(srcrange) - 1
         srclen = srcrange[lastidx] - srcrange[0]
         dstlen = dstrange[lastidx] - dstrange[0]
-        if srclen <= dstlen:
+        if srclen <= abs(dstlen):
             self.factor = 0
             self.alpha = round(dstlen / srclen)
             self.beta = round(dstrange[lastidx] - srcrange[lastidx] * self.alpha)
         else:
             self.factor = 1
             self.alpha = round(srclen / dstlen)
-            self.beta = round(dstrange[lastidx] - srcrange[lastidx] / self.alpha)
-
-        test = [self.__call__(x) for x in srcrange]
-        diff = 0
-        for x0, x1 in zip(test, dstrange):
-            diff += x0 - x1
-        if diff != 0:
-            self.truncmode = 1
+            # rounding at the last sample hides half a step: keep the offset and mode that fit all samples best
+            beta = dstrange[lastidx] - srcrange[lastidx] / self.alpha
+            best = None
+            for truncmode in (0, 1):
+                for offset in (math.floor(beta), math.ceil(beta)):
+                    self.truncmode, self.beta = truncmode, offset
+                    err = self.error(srcrange, dstrange)
+                    if best is None or err < best[0]:
+                        best = (err, truncmode, offset)
+            self.truncmode, self.beta = best[1], best[2]
 
     def __call__(self, x):
         if self.factor == 0:
-- 
2.43.0


From dea269b2e85dab1d857bc52c8a381be9cffad049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 065/164] fix: shape regression keeps constant extents that are
 numpy integers

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index a34b158..7d8d701 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1144,7 +1144,7 @@ class Graph():
             maxshape = maxtensormap[key].shape
             for i, a in zip(minshape, maxshape):
                 if i == a:
-                    shape_desc.append(i)
+                    shape_desc.append(int(i))
                 else:
                     shape_desc.append('')
             shapeengine.add_tensor_desc(key, shape_desc)
-- 
2.43.0


From fcfd0ee3da735dcda139c741d85e3f788c111d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 066/164] fix: extracting the compute graph leaves the original
 graph as it is

---
 onnx_tool/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 7d8d701..db30bdd 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1426,6 +1426,10 @@ class Graph():
 
     def get_compute_graph(self):
         cg = copy.copy(self)
+        cg.nodemap = dict(self.nodemap)
+        cg.output = list(self.output)
+        cg.producedby = {key: list(val) for key, val in self.producedby.items()}
+        cg.consumedby = {key: list(val) for key, val in self.consumedby.items()}
         nodes = []
         rmnodes = []
         for key in cg.nodemap.keys():
@@ -1469,7 +1473,7 @@ class Graph():
         cg.dynamics.extend(cg.output)
         for name in cg.nodemap.keys():
             for output in cg.nodemap[name].output:
-                if name not in cg.dynamics:
+                if output not in cg.dynamics:
                     cg.dynamics.append(output)
 
         return cg
-- 
2.43.0


From 8f95366e704ce7074a32578df3b59c0b4ccb678f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 067/164] fix: the compute graph keeps nodes whose results are
 also data or graph outputs

---
 onnx_tool/graph.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index db30bdd..21d30fd 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1463,6 +1463,18 @@ class Graph():
                                 searchnodes.append(pnodename)
                 continue
             nodes.append(node.name)
+        # a shape node whose result is also read as data, or is a graph output, has to stay
+        search = [key for key in cg.nodemap if key not in rmnodes]
+        search.extend(self.producedby[o][0] for o in self.output if o in self.producedby)
+        while len(search) > 0:
+            key = search.pop()
+            if key in rmnodes:
+                rmnodes.remove(key)
+            shape_tensors = _contains_shape_tensor(cg.nodemap[key])
+            for input in cg.nodemap[key].input:
+                if input in self.producedby and input not in shape_tensors:
+                    if self.producedby[input][0] in rmnodes:
+                        search.append(self.producedby[input][0])
         self.log(f'Total Nodes:{len(cg.nodemap)} Removed Shape Nodes:{len(rmnodes)}')
         for key in rmnodes:
             cg.remove_node(key)
-- 
2.43.0


From 8631f8d7cdec9c2658661fdbf93575dcbed4cced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 068/164] fix: Graph can be built without a configuration, as
 subgraph extraction does

---
 onnx_tool/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 21d30fd..4c0df02 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -163,8 +163,8 @@ class ShapeEngine():
 
 
 class Graph():
-    def __init__(self, g: onnx.GraphProto, mcfg: ModelConfig):
-        self.cfg = mcfg
+    def __init__(self, g: onnx.GraphProto, mcfg: ModelConfig = None):
+        self.cfg = mcfg if mcfg is not None else ModelConfig()
         self.nodemap = {}
         self.tensormap = {}
         self.producedby = {}
-- 
2.43.0


From 87c083f223e784bd943b9a74596fa977694835d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 069/164] fix: a graph output read by the selected nodes is an
 output of the selection

---
 onnx_tool/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 4c0df02..926cb2a 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1027,9 +1027,11 @@ class Graph():
                     intensors.append(input)
 
             for output in self.nodemap[name].output:
+                if len(output) == 0:
+                    continue
                 if remove_initials and output in self.initials:
                     continue
-                if output in self.consumedby:
+                if output in self.consumedby and output not in self.output:
                     consumers = self.consumedby[output]
                     inner = True
                     for consumer in consumers:
-- 
2.43.0


From 80165e40f0c7ea4dcd2f602e8802ed61666c5b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 070/164] fix: removing a node recursively keeps producers of
 graph outputs

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 926cb2a..bdc9328 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -688,7 +688,7 @@ class Graph():
                 if len(self.consumedby[i]) == 1 and i in self.producedby:
                     pnode = self.producedby[i][0]
                     assert (len(self.producedby[i]) == 1)
-                    dangle_node = True
+                    dangle_node = i not in self.output
                     for o in self.nodemap[pnode].output:
                         if o == i:
                             continue
-- 
2.43.0


From 2e7d8087245f4a0f3c4c349f72fc907510dfe20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 071/164] fix: remove_dangling_nodes and remove_subtree follow
 the current consumers

---
 onnx_tool/graph.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index bdc9328..1bc71dd 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -711,15 +711,17 @@ class Graph():
             if nodename in self.nodemap:  # may be already removed?
                 node = self.nodemap[nodename]
 
-                for n in node.nextnodes:
-                    nodeset.add(n.name)
-                    nodeset.union(self.remove_subtree(n.name, nodeset))
+                for o in node.output:
+                    for n in self.consumedby.get(o, []):
+                        if n not in nodeset:
+                            nodeset.add(n)
+                            self.remove_subtree(n, nodeset)
                 return nodeset
             return nodeset
 
         nodeset = set()
         nodeset.add(nodename)
-        nodeset.union(self.remove_subtree(nodename, nodeset))
+        self.remove_subtree(nodename, nodeset)
 
         for node in nodeset:
             if node not in self.nodemap:
@@ -731,14 +733,12 @@ class Graph():
         while try_to_remove:
             try_to_remove = False
             for nodename in list(self.nodemap.keys()):
+                if nodename not in self.nodemap:  # already removed with its consumer
+                    continue
                 node = self.nodemap[nodename]
                 node_used = False
                 for o in node.output:
-                    if o in self.output:
-                        node_used = True
-
-                for nnode in node.nextnodes:
-                    if nnode.name in self.nodemap:
+                    if o in self.output or len(self.consumedby.get(o, [])) > 0:
                         node_used = True
                         break
 
-- 
2.43.0


From f36e7985984556458505e5476f48521e74034441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 072/164] fix: skip_node rewires every consumer and keeps graph
 outputs

---
 onnx_tool/graph.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 1bc71dd..461413d 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -750,27 +750,27 @@ class Graph():
 
     def skip_node(self, nodename):
         node = self.nodemap[nodename]
-        count = 0
-        for input in node.input:
-            if input in self.dynamics:
-                count += 1
-                indtensor = input
-        if count == 1 and len(node.output) == 1:
-            self.consumedby[indtensor].remove(nodename)
-            if node.output[0] in self.consumedby:
-                for con in self.consumedby[node.output[0]]:
-                    con_node = self.nodemap[con]
-                    for i in range(len(con_node.input)):
-                        if con_node.input[i] == node.output[0]:
-                            con_node.input[i] = indtensor
-                            self.consumedby[indtensor].append(con)
-                            break
-            else:
-                for pro in self.producedby[indtensor]:
-                    pro_node = self.nodemap[pro]
-                    assert (len(pro_node.output) == 1)
-                    pro_node.output[0] = node.output[0]
+        dyninputs = [i for i in node.input if len(i) and self.tensormap[i].type == DYNAMIC_TENSOR]
+        if len(dyninputs) != 1 or len(node.output) != 1:
+            warnings.warn(f"node {nodename} can not be skipped: it needs one activation input and one output")
+            return
+        indtensor, outtensor = dyninputs[0], node.output[0]
+        oldname, newname = outtensor, indtensor
+        if outtensor in self.output:
+            # the graph output keeps its name, its value comes from the producer of the activation
+            if indtensor in self.input or indtensor in self.output:
+                warnings.warn(f"node {nodename} can not be skipped: it connects graph inputs and outputs")
+                return
+            oldname, newname = indtensor, outtensor
         self.nodemap.pop(nodename)
+        for other in self.nodemap.values():
+            for i in range(len(other.input)):
+                if other.input[i] == oldname:
+                    other.input[i] = newname
+            for i in range(len(other.output)):
+                if other.output[i] == oldname:
+                    other.output[i] = newname
+        self.__update_consumer_producer__()
 
     def fuse_subgraph_node_names(self, nodes: [str], nodeop: str, nodename: str, keep_attr=True):
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
-- 
2.43.0


From e5164d8a7b14e0cdb458e9d03bb5fa851e4280ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 073/164] fix: removing a node keeps a graph output that
 another node still produces

---
 onnx_tool/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 461413d..17a62b6 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -678,8 +678,8 @@ class Graph():
                 if len(self.producedby[o]) == 0:
                     self.producedby.pop(o)
 
-                if o in self.output:
-                    self.output.remove(o)
+                    if o in self.output:
+                        self.output.remove(o)
 
         newnodes = []
         # update consumer
-- 
2.43.0


From c1760265bdec06f38e3e64dff1b968d0b9b0cec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 074/164] fix: fused nodes keep graph outputs and the consumer
 table

---
 onnx_tool/graph.py | 53 +++++++++++++++++-----------------------------
 1 file changed, 19 insertions(+), 34 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 17a62b6..24c4328 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -685,7 +685,7 @@ class Graph():
         # update consumer
         for i in node.input:
             if i in self.consumedby.keys():
-                if len(self.consumedby[i]) == 1 and i in self.producedby:
+                if recursive and len(self.consumedby[i]) == 1 and i in self.producedby:
                     pnode = self.producedby[i][0]
                     assert (len(self.producedby[i]) == 1)
                     dangle_node = i not in self.output
@@ -772,6 +772,22 @@ class Graph():
                     other.output[i] = newname
         self.__update_consumer_producer__()
 
+    def __replace_nodes__(self, nodes, node_proto, inputs, outputs):
+        newnode = create_node(node_proto)
+        newnode.input = inputs
+        newnode.output = outputs
+        # the new node is registered as producer first: graph outputs are never without one
+        for o in outputs:
+            self.producedby[o].append(newnode.name)
+        for name in nodes:
+            self.remove_node(name)
+        for i in inputs:
+            self.consumedby.setdefault(i, []).append(newnode.name)
+            newnode.prevnodes.extend(self.nodemap[p] for p in self.producedby.get(i, []))
+        for o in outputs:
+            newnode.nextnodes.extend(self.nodemap[c] for c in self.consumedby.get(o, []))
+        self.nodemap[newnode.name] = newnode
+
     def fuse_subgraph_node_names(self, nodes: [str], nodeop: str, nodename: str, keep_attr=True):
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
         newnode_prot = onnx.helper.make_node(nodeop, _inputs, _outputs, name=nodename)
@@ -784,24 +800,7 @@ class Graph():
                         get_attribute_data(attribute))
                     newnode_prot.attribute.append(attr)
                 count += 1
-        from .node import create_node
-        for name in nodes:
-            self.remove_node(name)
-        newnode = create_node(newnode_prot)
-        newnode.input = _inputs
-        newnode.output = _outputs
-        for i in _inputs:
-            if i in self.consumedby:
-                self.consumedby[i].append(nodename)
-            else:
-                self.consumedby[i] = [nodename]
-            if i in self.producedby.keys():
-                newnode.prevnodes.append(self.producedby[i])
-        for o in _outputs:
-            self.producedby[o] = [nodename]
-            if o in self.consumedby.keys():
-                newnode.nextnodes.append(self.consumedby[o])
-        self.nodemap[nodename] = newnode
+        self.__replace_nodes__(nodes, newnode_prot, _inputs, _outputs)
 
     def fuse_postop_node_names(self, nodes: [str], append_attr: bool, **extrakeys):
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
@@ -836,21 +835,7 @@ class Graph():
         attr = onnx.helper.make_attribute('postop_count', count)
         newnode.attribute.append(attr)
 
-        for name in nodes:
-            self.remove_node(name)
-        newnode = create_node(newnode)
-        newnode.input = _inputs
-        newnode.output = _outputs
-        for i in _inputs:
-            if i in self.consumedby.keys():
-                self.consumedby[i].append(mainnode.name)
-            if i in self.producedby.keys():
-                newnode.prevnodes.append(self.producedby[i])
-        for o in _outputs:
-            self.producedby[o] = [mainnode.name]
-            if o in self.consumedby.keys():
-                newnode.nextnodes.append(self.consumedby[o])
-        self.nodemap[mainnode.name] = newnode
+        self.__replace_nodes__(nodes, newnode, _inputs, _outputs)
 
     def fuse_subgraph_iotensors(self, inputs: [], outputs: [], nodeop: str, name_prefix: str = None, keep_attr=True):
         _, nodes, _ = self.__get_subnodes_byio__(inputs, outputs)
-- 
2.43.0


From f8cb09ee2b62755ac300355d109268ff5c4a4262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 075/164] fix: model_opfusion passes the operator name and
 saves the nodes in order

---
 onnx_tool/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 9ee2bf0..84ac0eb 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -185,9 +185,11 @@ def model_opfusion(m, op_type: str, op_name: str, save_file: str, in_tensor_name
     model = loadmodel(m)
     graph = model.graph
     if in_tensor_names is not None and out_tensor_names is not None:
-        graph.fuse_subgraph_iotensors(inputs=in_tensor_names, outputs=out_tensor_names, name=op_name,
-                                      nodeop=op_type, keep_attr=keep_attr)
+        graph.fuse_subgraph_iotensors(inputs=in_tensor_names, outputs=out_tensor_names, nodeop=op_type,
+                                      name_prefix=op_name, keep_attr=keep_attr)
+        graph.graph_reorder_nodes()
         model.save_model(save_file)
     if nodenames is not None:
-        graph.fuse_subgraph_node_names(nodenames, nodeop=op_type, name=op_name, keep_attr=keep_attr)
+        graph.fuse_subgraph_node_names(nodenames, nodeop=op_type, nodename=op_name, keep_attr=keep_attr)
+        graph.graph_reorder_nodes()
         model.save_model(save_file)
-- 
2.43.0


From 64edf09e9949c4de5ab2de9007415a42e3caf54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 076/164] fix: attribute conditions on a missing list element
 do not match

---
 onnx_tool/fusion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index bdf20e5..6729d4a 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -230,10 +230,11 @@ class AttrExpr():
 
     def __call__(self, x):
         if hasattr(x, self.attrname):
+            attr = x.__getattribute__(self.attrname)
             if self.idx == -1:
-                return self.logical(x.__getattribute__(self.attrname))
-            else:
-                return self.logical(x.__getattribute__(self.attrname)[self.idx])
+                return self.logical(attr)
+            elif self.idx < len(attr):
+                return self.logical(attr[self.idx])
         return False
 
     def logical(self, attr):
-- 
2.43.0


From e19b38ea8021e0176312c317a5e083797c8969f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 077/164] fix: the int8 attention pattern links the second
 QuantizeLinear to the Softmax

---
 onnx_tool/fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 6729d4a..c36ff78 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -116,7 +116,7 @@ MHAint8_Pattern = [
         'op': 'QuantizeLinear',
         'attrs': [
         ],
-        'inport': [[0, 'Add_0', 0]],
+        'inport': [[0, 'Softmax_0', 0]],
         'outport': [[0, 'MatMul_1', 0]],
     },
     {
-- 
2.43.0


From 395f13fef232c99379818258043262ce3231bb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 078/164] fix: pattern search checks every described link and
 does not reuse nodes

---
 onnx_tool/fusion.py | 188 +++++++++++++-------------------------------
 1 file changed, 55 insertions(+), 133 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index c36ff78..83e162c 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -312,150 +312,72 @@ class FusionPattern():
         for desc in nodedescs:
             self.nodedesc[desc['name']] = NodeCondition(desc)
 
-    def search_node(self, nodepair, graph, searched):
-        curdescname = nodepair[0]
-        curnodename = nodepair[1]
-
-        desc = self.nodedesc[curdescname]
-        node = graph.nodemap[curnodename]
-        searched.append(curnodename)
-
-        # expand in nodes
-        invalid = False if len(desc.inport) > 0 else True
-        uppaths = []
-        for inset in desc.inport:
-            inidx = inset[0]
-            indesckey = inset[1]
-            prev_outidx = inset[2]
-            nextdesc = self.nodedesc[indesckey]
-            if inidx == -1:
-                for tname in node.input:
-                    if tname not in graph.producedby:
-                        continue
-                    producer_node = graph.producedby[tname]
-                    for nodename in producer_node:
-                        nodeobject = graph.nodemap[nodename]
-                        if prev_outidx == -1 or nodeobject.output.index(tname) == prev_outidx:
-                            if nextdesc.is_node(nodeobject):
-                                if nodename not in searched:
-                                    invalid, uppath = self.search_node((indesckey, nodename), graph, searched)
-                                    if invalid:
-                                        uppaths.append(uppath)
-                                        break
-                                else:
-                                    invalid = True
-                            else:
-                                invalid = False
-                        else:
-                            invalid = False
-            elif inidx < len(node.input):
-                tname = node.input[inidx]
-                producer_node = graph.producedby[tname]
-                for nodename in producer_node:
-                    nodeobject = graph.nodemap[nodename]
-                    if prev_outidx == -1 or nodeobject.output.index(tname) == prev_outidx:
-                        if nextdesc.is_node(nodeobject):
-                            if nodename not in searched:
-                                invalid, uppath = self.search_node((indesckey, nodename), graph, searched)
-                                if invalid:
-                                    uppaths.append(uppath)
-                                    break
-                            else:
-                                invalid = True
-                        else:
-                            invalid = False
-                    else:
-                        invalid = False
-
-        if not invalid:
-            searched.remove(curnodename)
-            return False, None
-        outpath = []
-        for uppath in uppaths:
-            if uppath is not None:
-                for v in uppath:
-                    outpath.append(v)
-        outpath.append(nodepair)
-
-        outvalid = False if len(desc.outport) > 0 else True
-        downpaths = []
-        for outset in desc.outport:
-            outidx = outset[0]
-            outdescky = outset[1]
-            next_inidx = outset[2]
-            nextdesc = self.nodedesc[outdescky]
-            if outidx == -1:
-                for output in node.output:
-                    if outvalid:
-                        break
-                    if output in graph.consumedby:
-                        consumed_nodes = graph.consumedby[output]
-                        if self.append_fusion and len(consumed_nodes) > 1:
-                            # inpalce_fusion the consumer op will be appended to this op as postop
-                            # it requires that the output of this op is consumed by next op only
-                            continue
-                        for nodename in consumed_nodes:
-                            nodeobject = graph.nodemap[nodename]
-                            if next_inidx == -1 or nodeobject.input.index(output) == next_inidx:
-                                if nextdesc.is_node(nodeobject):
-                                    if nodename not in searched:
-                                        outvalid, downpath = self.search_node((outdescky, nodename), graph, searched)
-                                        if outvalid:
-                                            downpaths.append(downpath)
-                                            break
-                                    else:
-                                        outvalid = True
-
-
-            elif outidx < len(node.output):
-                tname = node.output[outidx]
-                if tname in graph.consumedby:
-                    consumed_nodes = graph.consumedby[tname]
-                    if self.append_fusion and len(consumed_nodes) > 1:
-                        # inpalce_fusion the consumer op will be appended to this op as postop
-                        # it requires that the output of this op is consumed by next op only
-                        continue
-                    for nodename in consumed_nodes:
-                        nodeobject = graph.nodemap[nodename]
-                        if next_inidx == -1 or nodeobject.input.index(tname) == next_inidx:
-                            if nextdesc.is_node(nodeobject):
-                                if nodename not in searched:
-                                    outvalid, downpath = self.search_node((outdescky, nodename), graph, searched)
-                                    if outvalid:
-                                        downpaths.append(downpath)
-                                        break
-                                else:
-                                    outvalid = True
-                                    break
+    def linked(self, graph, link, match):
+        """is there a tensor from the producer to the consumer through the described ports?"""
+        producer, outidx, consumer, inidx = link
+        outputs = graph.nodemap[match[producer]].output
+        inputs = graph.nodemap[match[consumer]].input
+        for i, tname in enumerate(inputs):
+            if inidx not in (-1, i) or len(tname) == 0 or tname not in outputs:
+                continue
+            if outidx not in (-1, outputs.index(tname)):
+                continue
+            if self.append_fusion and len(graph.consumedby[tname]) > 1:
+                # inpalce_fusion the consumer op will be appended to this op as postop
+                # it requires that the output of this op is consumed by next op only
+                continue
+            return True
+        return False
 
-        if outvalid:
-            for downpath in downpaths:
-                if downpath is not None:
-                    for v in downpath:
-                        outpath.append(v)
-            return True, outpath
-        else:
-            searched.remove(curnodename)
-            return False, None
+    def search_node(self, graph, match):
+        """extend the partial match {description: node} along the links; the complete match or None"""
+        for link in self.links:
+            producer, _, consumer, _ = link
+            if (producer in match) == (consumer in match):
+                continue
+            if producer in match:
+                newdesc = consumer
+                tables, tnames = graph.consumedby, graph.nodemap[match[producer]].output
+            else:
+                newdesc = producer
+                tables, tnames = graph.producedby, graph.nodemap[match[consumer]].input
+            candidates = []
+            for tname in tnames:
+                for name in tables.get(tname, []):
+                    if name not in candidates and name not in match.values() and name not in self.found_node_names:
+                        candidates.append(name)
+            for name in candidates:
+                if not self.nodedesc[newdesc].is_node(graph.nodemap[name]):
+                    continue
+                trial = dict(match)
+                trial[newdesc] = name
+                if all(self.linked(graph, l, trial) for l in self.links if l[0] in trial and l[2] in trial):
+                    trial = self.search_node(graph, trial)
+                    if trial is not None:
+                        return trial
+            return None
+        return match if len(match) == len(self.nodedesc) else None
 
     def search_pattern(self, graph: Graph):
         ls_nodes = []
         first_desc = self.nodedesc[self.first_key]
         self.found_node_names = []
-        self.tmp_names = []
+        self.links = []
+        for name, desc in self.nodedesc.items():
+            for outidx, nextname, inidx in desc.outport:
+                self.links.append((name, outidx, nextname, inidx))
+            for inidx, prevname, outidx in desc.inport:
+                if (prevname, outidx, name, inidx) not in self.links:
+                    self.links.append((prevname, outidx, name, inidx))
         for name in graph.nodemap.keys():
             if name in self.found_node_names:
                 continue
             node = graph.nodemap[name]
             if first_desc.is_node(node):
-                searched = []
-                valid, path = self.search_node((self.first_key, name), graph, searched)
-                if valid:
-                    desckeys = list(self.nodedesc.keys())
-                    nodes = ['a'] * len(desckeys)
-                    for val in path:
-                        idx = desckeys.index(val[0])
-                        nodes[idx] = val[1]
+                match = self.search_node(graph, {self.first_key: name})
+                if match is not None:
+                    nodes = [match[key] for key in self.nodedesc.keys()]
+                    self.found_node_names.extend(nodes)
                     ls_nodes.append(nodes)
         return ls_nodes
 
-- 
2.43.0


From 5e9e888ee82dc08e316fb1198de55556ba004133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 079/164] fix: ConvBNFusion only fuses constant parameters and
 keeps other readers of the weights

---
 onnx_tool/fusion.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 83e162c..63b8d09 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -389,18 +389,26 @@ def ConvBNFusion(graph: Graph):
     for nodes in node_sets:
         conv_node = graph.nodemap[nodes[0]]
         bn_node = graph.nodemap[nodes[1]]
+        params = [i for i in conv_node.input[1:] if len(i)] + bn_node.input[1:]
+        if any(i not in graph.initials or graph.tensormap[i].numpy is None for i in params):
+            continue  # not constant
+        if conv_node.output[0] in graph.output or len(graph.consumedby[conv_node.output[0]]) > 1:
+            continue  # the result of the convolution is needed itself
+        if len(graph.consumedby[conv_node.input[1]]) > 1:
+            newweightname = conv_node.name + "_weight_"
+            graph.add_initial(newweightname, graph.tensormap[conv_node.input[1]].numpy.copy())
+            conv_node.input[1] = newweightname
         weight = graph.tensormap[conv_node.input[1]]
         gamma = graph.tensormap[bn_node.input[1]]
         beta = graph.tensormap[bn_node.input[2]]
         mean = graph.tensormap[bn_node.input[3]]
         var = graph.tensormap[bn_node.input[4]]
         wshape = weight.shape
-        if len(conv_node.input) == 3:
-            hasbias = True
-            newbias = graph.nodemap[conv_node.input[2]].numpy
+        hasbias = len(conv_node.input) == 3
+        if hasbias and len(conv_node.input[2]):
+            newbias = graph.tensormap[conv_node.input[2]].numpy.copy()
         else:
-            hasbias = False
-            newbias = numpy.zeros((wshape[0],), dtype=numpy.float32)
+            newbias = numpy.zeros((wshape[0],), dtype=weight.numpy.dtype)
         for i in range(wshape[0]):
             sm = gamma.numpy[i] / math.sqrt(var.numpy[i] + bn_node.epsilon)
             sv = beta.numpy[i]
@@ -412,10 +420,11 @@ def ConvBNFusion(graph: Graph):
         weight.update_proto(weight.numpy)
         newbiasname = conv_node.name + "_bias_"
         graph.add_initial(newbiasname, newbias)
+        graph.producedby[bn_node.output[0]].append(conv_node.name)
         graph.remove_node(nodes[1])
         if hasbias:
             conv_node.input[2] = newbiasname
         else:
             conv_node.input.append(newbiasname)
-        graph.producedby[bn_node.output[0]] = [conv_node.name]
         conv_node.output[0] = bn_node.output[0]
+        graph.__update_consumer_producer__()
-- 
2.43.0


From 33752aa9f938f938d99f7c7255ad687f608b5f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 080/164] fix: ConvBNFusion works on weights loaded from raw
 data

---
 onnx_tool/fusion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 63b8d09..1b2946e 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -396,7 +396,7 @@ def ConvBNFusion(graph: Graph):
             continue  # the result of the convolution is needed itself
         if len(graph.consumedby[conv_node.input[1]]) > 1:
             newweightname = conv_node.name + "_weight_"
-            graph.add_initial(newweightname, graph.tensormap[conv_node.input[1]].numpy.copy())
+            graph.add_initial(newweightname, graph.tensormap[conv_node.input[1]].numpy)
             conv_node.input[1] = newweightname
         weight = graph.tensormap[conv_node.input[1]]
         gamma = graph.tensormap[bn_node.input[1]]
@@ -404,6 +404,7 @@ def ConvBNFusion(graph: Graph):
         mean = graph.tensormap[bn_node.input[3]]
         var = graph.tensormap[bn_node.input[4]]
         wshape = weight.shape
+        newweight = weight.numpy.copy()  # arrays of loaded models are read-only
         hasbias = len(conv_node.input) == 3
         if hasbias and len(conv_node.input[2]):
             newbias = graph.tensormap[conv_node.input[2]].numpy.copy()
@@ -415,9 +416,9 @@ def ConvBNFusion(graph: Graph):
             for j in range(wshape[1]):
                 for k in range(wshape[2]):
                     for l in range(wshape[3]):
-                        weight.numpy[i, j, k, l] = sm * weight.numpy[i, j, k, l]
+                        newweight[i, j, k, l] = sm * newweight[i, j, k, l]
             newbias[i] = sm * (newbias[i] - mean.numpy[i]) + sv
-        weight.update_proto(weight.numpy)
+        weight.update_proto(newweight)
         newbiasname = conv_node.name + "_bias_"
         graph.add_initial(newbiasname, newbias)
         graph.producedby[bn_node.output[0]].append(conv_node.name)
-- 
2.43.0


From ddc7778d7035b2080db485c7d964f6cd8b406d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 081/164] fix: quantizing all-zero values uses a step of one

---
 onnx_tool/quantization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 6b2781f..9e89ec9 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -37,6 +37,8 @@ def find_min_max(f32: numpy.ndarray, block):
 def get_symmetric_parameter(fmin, fmax, bits):
     alpha = max(abs(fmin), abs(fmax))
     scale = alpha / (2 ** (bits - 1) - 1)
+    if scale == 0:  # all zeros
+        scale = 1.0
     return scale, 0
 
 
@@ -45,6 +47,8 @@ def get_asymmetric_u8_parameter(fmin, fmax, bits):
     fmax = max(fmax, 0)
     delta = fmax - fmin
     scale = delta / (2 ** bits - 1)
+    if scale == 0:  # all zeros
+        scale = 1.0
     zp = round(-fmin / scale)
     return scale, zp
 
-- 
2.43.0


From e4773e0a18d831b08722fce43dc5ab0ebc896762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 082/164] fix: quantized codes stay in the range of their bits

---
 onnx_tool/quantization.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 9e89ec9..e240d99 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -53,12 +53,12 @@ def get_asymmetric_u8_parameter(fmin, fmax, bits):
     return scale, zp
 
 
-def symmetric_quant(fval, scale, *agrs):
-    return numpy.clip(round(fval / scale), -128, 127)
+def symmetric_quant(fval, scale, zp, bits=8):
+    return numpy.clip(round(fval / scale), -2 ** (bits - 1), 2 ** (bits - 1) - 1)
 
 
-def asymmetric_quant(fval, scale, zp):
-    return numpy.clip(round(fval / scale) + zp, 0, 255)
+def asymmetric_quant(fval, scale, zp, bits=8):
+    return numpy.clip(round(fval / scale) + zp, 0, 2 ** bits - 1)
 
 
 def symmetric_dequant(qval, scale, *agrs):
@@ -81,7 +81,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
         scale, zp = get_param(fmin, fmax, bits)
         for i in numpy.ndindex(*f32.shape):
-            Q[i] = quant_val(f32[i], scale, zp)
+            Q[i] = quant_val(f32[i], scale, zp, bits)
         return Q, numpy.array(scale), numpy.array(zp)
     if len(fmin.shape) == 1:
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
@@ -90,7 +90,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
         for i in range(len(fmin)):
             scale[i], zp[i] = get_param(fmin[i], fmax[i], bits)
         for i in numpy.ndindex(*f32.shape):
-            Q[i] = quant_val(f32[i], scale[i[0]], zp[i[0]])
+            Q[i] = quant_val(f32[i], scale[i[0]], zp[i[0]], bits)
         return Q, scale, zp
     if len(fmin.shape) == 2:
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
@@ -100,7 +100,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
             scale[i], zp[i] = get_param(fmin[i], fmax[i], bits)
         for i in numpy.ndindex(*f32.shape):
             blk_idx = i[1] // block
-            Q[i] = quant_val(f32[i], scale[i[0], blk_idx], zp[i[0], blk_idx])
+            Q[i] = quant_val(f32[i], scale[i[0], blk_idx], zp[i[0], blk_idx], bits)
         return Q, scale, zp
 
 def pack_4bits(Q_int:numpy.ndarray):
-- 
2.43.0


From b0e47cc1c50e7d264b2fc2e36d1acd44834218e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 083/164] fix: pack_4bits keeps unsigned codes above 7 and the
 last column of odd widths

---
 onnx_tool/quantization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index e240d99..7c19685 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -104,16 +104,16 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
         return Q, scale, zp
 
 def pack_4bits(Q_int:numpy.ndarray):
+    if Q_int.shape[-1]%2:
+        padding=numpy.zeros(Q_int.shape[:-1]+(1,),dtype=Q_int.dtype)
+        Q_int=numpy.concatenate((Q_int,padding),axis=-1)
     shape=Q_int.shape
     s4shape=list(shape)
     s4shape[-1]=shape[-1]//2
     s4arr=numpy.ones(s4shape,dtype=numpy.uint8)
     import ctypes
     def cvt_s8bits_to_s4bits(v8):
-        sigbit=v8&0x80
-        sigbit=sigbit>>4
-        v8=v8&0x7
-        return v8|sigbit
+        return v8&0xf
     for i in numpy.ndindex(*s4shape):
         rawi=list(i)
         rawi[-1]*=2
-- 
2.43.0


From 91d008059d377c7b6509313f854d27c01ca12e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 084/164] fix: graph_quantize supports weights shared by
 several nodes

---
 onnx_tool/quantization.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 7c19685..26cbebd 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -178,14 +178,8 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
             node.input.insert(idx, tname_z)
         node.input.insert(idx, tname_s)
         node.input.insert(idx, tname_q)
-        if tname_q not in g.consumedby.keys():
-            g.consumedby[tname_q] = nname
-            g.consumedby[tname_s] = nname
-            g.consumedby[tname_z] = nname
-        else:
-            g.consumedby[tname_q].append(nname)
-            g.consumedby[tname_s].append(nname)
-            g.consumedby[tname_z].append(nname)
+        for name in (tname_q, tname_s) + ((tname_z,) if type == 'asym' else ()):
+            g.consumedby.setdefault(name, []).append(nname)
     g.consumedby.pop(tname)
     g.initials.remove(tname)
     g.tensormap.pop(tname)
-- 
2.43.0


From e5d83b39760f0b3491b42f0f764c52f407fb6ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 085/164] fix: quantizing while iterating over the initials
 does not skip weights

---
 onnx_tool/quantization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 26cbebd..2273b1b 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -167,6 +167,9 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
             Q = pack_4bits(Q)
 
     g.add_initial(tname_q, Q)
+    # take the place of the original tensor: the caller may be iterating over g.initials
+    g.initials.pop()
+    g.initials[g.initials.index(tname)] = tname_q
     g.add_initial(tname_s, scale)
     if type == 'asym':
         g.add_initial(tname_z, zp)
@@ -181,5 +184,4 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
         for name in (tname_q, tname_s) + ((tname_z,) if type == 'asym' else ()):
             g.consumedby.setdefault(name, []).append(nname)
     g.consumedby.pop(tname)
-    g.initials.remove(tname)
     g.tensormap.pop(tname)
-- 
2.43.0


From a07499580cf40e0f086389ba26eb61ad6625deb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:14 +0000
Subject: [PATCH 086/164] fix: sparse block search returns a block size
 together with its own ratio

---
 onnx_tool/tensor.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index b05212c..649da83 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -265,7 +265,8 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
         validsize = 1
         prevalid0 = True
         prevalid1 = True
-        validratio = ratio
+        validratio0 = ratio
+        validratio1 = ratio
         while True:
             # try axis=1
             if prevalid1 and arr.shape[1] % initsize == 0:
@@ -275,7 +276,7 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
                 ratio1 = (arrsum == initsize).sum() / arrsum.size
                 if ratio1 > ratio - deltar_thres:
                     valid1 = True
-                    validratio = ratio1
+                    validratio1 = ratio1
                 else:
                     valid1 = False
             else:
@@ -289,7 +290,7 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
                 ratio0 = (arrsum == initsize).sum() / arrsum.size
                 if ratio0 > ratio - deltar_thres:
                     valid0 = True
-                    validratio = ratio0
+                    validratio0 = ratio0
                 else:
                     valid0 = False
             else:
@@ -311,7 +312,9 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
             if ratios > ratio - deltar_thres:
                 return (validsize, validsize), ratios
 
-        return (validsize if prevalid0 else 1, validsize if prevalid1 else 1), validratio
+        if prevalid0 and (not prevalid1 or validratio0 > validratio1):
+            return (validsize, 1), validratio0
+        return (1, validsize), validratio1
 
     if len(arr.shape) == 4:  # conv2d
         initsize = 2
@@ -364,7 +367,7 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
             ratios = (arrsum == (validsize * validsize)).sum() / arrsum.size
             if ratios > ratio - deltar_thres:
                 return (validsize, validsize), ratios
-        if validratio0 > validratio1:
+        if prevalid0 and (not prevalid1 or validratio0 > validratio1):
             return (validsize, 1), validratio0
         return (1, validsize), validratio1
 
-- 
2.43.0


From 34456d7bcd8b0af76ea6b9575fa09a67a10f15b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:46 +0000
Subject: [PATCH 087/164] fix: building a model does not change the
 architecture table

---
 onnx_tool/llm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 72520c5..2703815 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -248,9 +248,9 @@ class Builder():
         if not hasattr(self, 'model_type'):
             setattr(self, 'model_type', '')
         if ArchMap.__contains__(self.architectures[0]):
-            self.arch_config = ArchMap[self.architectures[0]]
+            self.arch_config = dict(ArchMap[self.architectures[0]])
         else:
-            self.arch_config = ArchMap['LlamaForCausalLM']
+            self.arch_config = dict(ArchMap['LlamaForCausalLM'])
         if hasattr(self, 'mlp_bias'):
             self.arch_config['mlp_bias'] = self.mlp_bias
         if hasattr(self, 'attention_bias'):
-- 
2.43.0


From bcdab898403e857afd94629dfe350573b1e30392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:46 +0000
Subject: [PATCH 088/164] fix: the attention gate of Qwen3.5 is a sigmoid

---
 onnx_tool/llm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 2703815..cd8fba8 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -13,7 +13,8 @@ null = None
 ActMap = {
     'silu': 'Silu',
     'gelu_new': 'Gelu',
-    'gegelu': 'GeGelu'
+    'gegelu': 'GeGelu',
+    'sigmoid': 'Sigmoid'
 }
 
 ArchMap = {
@@ -1072,7 +1073,7 @@ class Builder():
                 attn_out = self.num_attention_heads * self.head_size
                 # Attention output gate (Qwen3.5): gate 在 O 投影之前
                 if gate is not None:
-                    gate = self.add_act(gate, 'silu', self.layer_prefix + 'attn_gate.act')
+                    gate = self.add_act(gate, 'sigmoid', self.layer_prefix + 'attn_gate.act')
                     cur = self.add_eltop(cur, gate, 'Mul', self.layer_prefix + 'attn.gated')
                 cur = self.add_mm(cur, attn_out, self.hidden_size, self.arch_config['o_bias'],
                                   self.layer_prefix + self.w_map['attention']['o'])
-- 
2.43.0


From 8b4e9c0e80e5af03e498ce0c56b8cc04832f159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:46 +0000
Subject: [PATCH 089/164] fix: Q/K norm weights of DeltaNet layers have the
 DeltaNet head size

---
 onnx_tool/llm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index cd8fba8..c8a70ab 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -735,8 +735,8 @@ class Builder():
         v = self.add_mm(inp, self.hidden_size, v_out, qkv_bias, namev)
 
         # Q/K per-head RMS norm
-        q = self.add_qk_norm(q, self.layer_prefix + 'self_attn.q_norm', num_q_heads)
-        k = self.add_qk_norm(k, self.layer_prefix + 'self_attn.k_norm', num_q_heads)
+        q = self.add_qk_norm(q, self.layer_prefix + 'self_attn.q_norm', num_q_heads, qk_head_dim)
+        k = self.add_qk_norm(k, self.layer_prefix + 'self_attn.k_norm', num_q_heads, qk_head_dim)
 
         # GDN 融合算子
         attrs = {
@@ -989,14 +989,14 @@ class Builder():
 
         self.graph.output.append(vision_features.name)
 
-    def add_qk_norm(self, inp, name, num_heads):
+    def add_qk_norm(self, inp, name, num_heads, head_dim=None):
         """Per-head Q/K RMS norm (Qwen3 特有).
         
         输入: [B, S, num_heads * head_dim]
         输出: [B, S, num_heads * head_dim]
         对每个 head 独立做 RMS norm，weight shape = [head_dim]
         """
-        head_dim = self.head_size
+        head_dim = self.head_size if head_dim is None else head_dim
         # Reshape: [B, S, num_heads * head_dim] -> [B, S, num_heads, head_dim]
         # 做 LayerNormalization（沿最后一个维度，即 head_dim）
         attrs = {'epsilon': self.rms_norm_eps, 'type': 'rms'}
-- 
2.43.0


From 07acaa9aec2445ca0f627dc84c50fabf478910ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:01 +0000
Subject: [PATCH 090/164] fix: SDPA counts the tokens of a Q given as [B, N, S,
 D]

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d0c4a41..e9dfa52 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2801,7 +2801,7 @@ class SDPANode(Node):
         Q = intensors[0]
         q_shape = Q.get_shape()
         bs = q_shape[0]
-        seq = q_shape[1]
+        seq = q_shape[2] if len(q_shape) == 4 else q_shape[1]
         if len(intensors) >= 5:  # with KV cache
             t_n_past = intensors[3]
             t_kv_cache = intensors[4]
-- 
2.43.0


From c2eb130ebcae96aa4d7f67be7bf49daa515f9f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:01 +0000
Subject: [PATCH 091/164] fix: MoE without shared expert has no shared expert
 gate

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e9dfa52..f824a0c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -3082,7 +3082,7 @@ class MoENode(Node):
             # down_proj: B × S × SI × H
             macs += B * S * SI * H
 
-        if not self.no_shared_gate:
+        if not self.no_shared_gate and not self.no_shared_expert:
             # Shared expert gate (Qwen3.5-MoE): sigmoid + multiply
             macs += B * S * H * (EXP_MACS + MUL_MACS)
 
-- 
2.43.0


From 7f893863919e377285b48cb65b2ac6af96e84f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:01 +0000
Subject: [PATCH 092/164] fix: MoE counts the weights of the shared expert gate

---
 onnx_tool/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f824a0c..8ef16a4 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -3095,6 +3095,8 @@ class MoENode(Node):
         # Static params: router(full) + routed experts(scaled if partial) + shared expert(full, if present)
         total_activations = B * S * k
         shared_static = 0 if self.no_shared_expert else 3 * SI * H
+        if not self.no_shared_expert and not self.no_shared_gate:
+            shared_static += H
         if total_activations < E:
             static_params = H * E + total_activations * 3 * I * H + shared_static
         else:
-- 
2.43.0


From e27415cee5929a6105b76b9933c4e322caf3eb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 093/164] fix: print_profile prints latencies in ms as its
 header says

---
 onnx_tool/llm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index c8a70ab..1dff543 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -1208,7 +1208,7 @@ class Builder():
             row.append(num2str(int(node.llm_profile['Memory']), csvformat))
             Device = node.llm_profile['Device']
             if self.llm_profile[2] > 0:
-                row.append('{:.5f}'.format(Device['latency'][2]))
+                row.append('{:.5f}'.format(Device['latency'][2] * 1e3))
                 row.append(Device['Bottleneck'])
             row.append(tuple2str(node.inshape, splitch))
             row.append(tuple2str(node.outshape, splitch))
@@ -1218,7 +1218,7 @@ class Builder():
         row.append(num2str(self.llm_profile[0], csvformat))
         row.append(num2str(self.llm_profile[1], csvformat))
         if self.llm_profile[2] > 0:
-            row.append(num2str(self.llm_profile[2], csvformat))
+            row.append(num2str(self.llm_profile[2] * 1e3, csvformat))
             row.append('_')
         row.append('_')
         row.append('_')
-- 
2.43.0


From 56ea5b608f43db33a99faca8b515d94e79617750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 094/164] fix: serialize_graph refuses attributes it cannot
 represent instead of corrupting the file

---
 onnx_tool/serialization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/serialization.py b/onnx_tool/serialization.py
index 15edf42..26cb3c2 100644
--- a/onnx_tool/serialization.py
+++ b/onnx_tool/serialization.py
@@ -46,10 +46,12 @@ DTYPE_INT64 = 9
 def __write_data_type(buf, data):
     if isinstance(data, str) or isinstance(data, bytes):
         buf = __write_int2buf(buf, DTYPE_STR)
-    if isinstance(data, int):
+    elif isinstance(data, int):
         buf = __write_int2buf(buf, DTYPE_INT)
-    if isinstance(data, float):
+    elif isinstance(data, float):
         buf = __write_int2buf(buf, DTYPE_FLOAT)
+    else:
+        raise ValueError(f'Unsupported data {type(data)}')
     return buf
 
 
@@ -155,6 +157,7 @@ def serialize_graph(graph: onnx_tool.Graph, filepath):
 
             if not isinstance(attrval, list):
                 attrval = [attrval]
+            attrval = [val.item() if isinstance(val, numpy.generic) else val for val in attrval]
             buf = __write_len2buf(buf, attrval)
             buf = __write_data_type(buf, attrval[0])
             for val in attrval:
-- 
2.43.0


From 83f67e160a2e41cbb4c4d71dcf36a5953b77704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:30 +0000
Subject: [PATCH 095/164] fix: an omitted optional operand is not a graph input

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 24c4328..276261f 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -257,7 +257,7 @@ class Graph():
         for name in self.nodemap.keys():
             node = self.nodemap[name]
             for tensor in node.input:
-                if tensor not in self.producedby and tensor in self.dynamics:
+                if tensor != '' and tensor not in self.producedby and tensor in self.dynamics:
                     if tensor not in self.input:
                         self.input.append(tensor)
             if not self.cfg.remove_dangling:
-- 
2.43.0


From 29e1f68713e3002f947cb3c55528b2c25bd7e664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:30 +0000
Subject: [PATCH 096/164] fix: shape_regress fits an extent against every
 derived variable of the operands and the input variable

---
 onnx_tool/graph.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 276261f..f47dba5 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1190,10 +1190,14 @@ class Graph():
                                 err = expr.error(dstranges[0], newrange)
                                 srckey = key
                             else:
-                                # TODO multiple src variables comparison
-                                srckey = srcvalkey[0]
-                                expr = ValueExpr(tensor_range_map[srckey], newrange)
-                                err = expr.error(tensor_range_map[srckey], newrange)
+                                # keep the first source variable with the smallest error
+                                err = None
+                                for candi in srcvalkey + [key]:
+                                    candirange = dstranges[0] if candi == key else tensor_range_map[candi]
+                                    candiexpr = ValueExpr(candirange, newrange)
+                                    candierr = candiexpr.error(candirange, newrange)
+                                    if err is None or candierr < err:
+                                        srckey, expr, err = candi, candiexpr, candierr
                             if err > 0:
                                 warnings.warn(f'src key {srckey} dst key {vidx} error:{err}')
 
-- 
2.43.0


From 0e15be9d2f2c3310eb3ca26d413778456dc0ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 097/164] fix: Conv evaluation starts from zero, honours
 auto_pad and an omitted bias

---
 onnx_tool/node.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8ef16a4..48a75d5 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -69,6 +69,19 @@ def _convtranspose_output_shape(xin, output_padding, pad, ksize, stride, dilatio
     return stride * (xin - 1) + output_padding + ((ksize - 1) * dilation + 1) - pad
 
 
+def _begin_pads(xdims, kdims, outdims, auto_pad, pads, strides, dilations):
+    """padding in front of each spatial axis"""
+    if auto_pad is None or auto_pad == b'NOTSET':
+        return list(pads[:len(xdims)])
+    if auto_pad == b'VALID':
+        return [0] * len(xdims)
+    begins = []
+    for x, k, o, s, d in zip(xdims, kdims, outdims, strides, dilations):
+        total = max((o - 1) * s + (k - 1) * d + 1 - x, 0)
+        begins.append(total // 2 if auto_pad == b'SAME_UPPER' else total - total // 2)
+    return begins
+
+
 def _auto_pad_valid_shape_calc(x, ksize, stride):
     return math.ceil((x - ksize + 1) / stride)
 
@@ -2145,12 +2158,13 @@ class ConvNode(Node):
             raise NotImplementedError()
         self.shape_infer(intensors, outtensors)
         outshape = outtensors[0].get_shape()
-        outtensor = outtensors[0].get_numpy()
-        has_bias = len(intensors) > 2
+        outtensor = numpy.zeros(outshape, dtype=intensors[0].dtype)
+        has_bias = len(intensors) > 2 and intensors[2].name != ''
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         if len(wshape) != 4:
             raise NotImplementedError()
+        pads = _begin_pads(xshape[2:], wshape[2:], outshape[2:], self.auto_pad, self.pads, self.strides, self.dilations)
 
         reduce_shape = tuple(wshape[1:])
         for i in numpy.ndindex(tuple(outshape)):
@@ -2165,8 +2179,8 @@ class ConvNode(Node):
                 icn = j[0]
                 kh = j[1]
                 kw = j[2]
-                srch = oh * self.strides[0] + kh * self.dilations[0] - self.pads[0]
-                srcw = ow * self.strides[1] + kw * self.dilations[1] - self.pads[1]
+                srch = oh * self.strides[0] + kh * self.dilations[0] - pads[0]
+                srcw = ow * self.strides[1] + kw * self.dilations[1] - pads[1]
                 if srch < 0 or srch >= xshape[2] or srcw < 0 or srcw >= xshape[3]:
                     srcv = 0
                 else:
-- 
2.43.0


From 1c05423b21442bc8f87f2effa1fc651bc272862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 098/164] fix: MaxPool evaluation takes the maximum of the
 window only, with dilations and auto_pad

---
 onnx_tool/node.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 48a75d5..d979d5c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1524,26 +1524,32 @@ class MaxPoolNode(PoolBase):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
+        if len(xshape) != 4:
+            raise NotImplementedError()
         self.shape_infer(intensors, outtensors)
-        ot = outtensors[0].get_numpy()
+        ks = tuple(self.kernel_shape)
+        outshape = outtensors[0].get_shape()
+        pads = _begin_pads(xshape[2:], ks, outshape[2:], self.auto_pad, self.pads, self.strides, self.dilations)
+        ot = numpy.zeros(outshape, dtype=intensors[0].dtype)
         for i in numpy.ndindex(ot.shape):
             batch = i[0]
             ocn = i[1]
             oh = i[2]
             ow = i[3]
-            t = ot[i]
-            ks = tuple(self.kernel_shape)
+            t = None
             for j in numpy.ndindex(ks):
                 kh = j[0]
                 kw = j[1]
-                srch = oh * self.strides[0] + kh - self.pads[0]
-                srcw = ow * self.strides[1] + kw - self.pads[1]
+                srch = oh * self.strides[0] + kh * self.dilations[0] - pads[0]
+                srcw = ow * self.strides[1] + kw * self.dilations[1] - pads[1]
                 if srch < 0 or srch >= xshape[2] or srcw < 0 or srcw >= xshape[3]:
                     continue
                 else:
                     srcv = intensors[0].get_numpy()[batch, ocn, srch, srcw]
-                t = max(srcv, t)
-            ot[i] = t
+                t = srcv if t is None else max(srcv, t)
+            if t is not None:
+                ot[i] = t
+        outtensors[0].update_tensor(ot)
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 191d8ce623e36776ff5c93596ffb6a56fa69f10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 099/164] fix: GlobalAveragePool evaluation keeps the spatial
 axes, of any number, and the element type

---
 onnx_tool/node.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d979d5c..079673e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1574,15 +1574,13 @@ class GlobalAveragePoolNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        h = x.shape[2]
-        w = x.shape[3]
-        y = numpy.zeros(x.shape[:2], dtype=numpy.float32)
-        for i in numpy.ndindex(y.shape):
+        y = numpy.zeros(x.shape[:2] + (1,) * (x.ndim - 2), dtype=x.dtype)
+        for i in numpy.ndindex(x.shape[:2]):
             t = 0
-            for j in numpy.ndindex((h, w)):
+            for j in numpy.ndindex(x.shape[2:]):
                 xi = i + j
                 t += x[xi]
-            t /= (h * w)
+            t /= volume(x.shape[2:])
             y[i] = t
         outtensors[0].update_tensor(y)
 
-- 
2.43.0


From 466a1bc29f535c57a3c805a9598745ad567f8c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:21 +0000
Subject: [PATCH 100/164] fix: Erf of a constant can be folded

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 079673e..14992bf 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1657,7 +1657,7 @@ class IdentityNode(FusedBase):
 class ErfNode(FusedBase):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensor = numpy.zeros_like(intensors[0].get_numpy())
-        for i in numpy.ndindex(intensors[0].shape):
+        for i in numpy.ndindex(outtensor.shape):
             outtensor[i] = math.erf(intensors[0].get_numpy()[i])
         outtensors[0].update_tensor(outtensor)
 
-- 
2.43.0


From 003a86a614b95f736396087affe973fb758a16fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 101/164] fix: graph_quantize tells every reader of the weight
 how it was quantised

---
 onnx_tool/quantization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 2273b1b..ce76671 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -145,9 +145,6 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
     if isinstance(node,onnx_tool.node.GemmNode):
         if node.transB==0:
             f32arr=f32arr.transpose()
-    node.set_attr('OTQ_Block',block)
-    node.set_attr('OTQ_Type',type)
-    node.set_attr('OTQ_Bits',bits)
     Q, scale, zp = quantize(f32arr, block, type, bits)
     tname_q = tname + '_ot_q'
     tname_s = tname + '_ot_s'
@@ -175,6 +172,9 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
         g.add_initial(tname_z, zp)
     for nname in g.consumedby[tname]:
         node = g.nodemap[nname]
+        node.set_attr('OTQ_Block',block)
+        node.set_attr('OTQ_Type',type)
+        node.set_attr('OTQ_Bits',bits)
         idx = node.input.index(tname)
         node.input.remove(tname)
         if type == 'asym':
-- 
2.43.0


From 2a0045052537ad04c4a7354f6f573b0f73d93815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 102/164] fix: graph_quantize leaves a weight whose readers
 need different layouts

---
 onnx_tool/quantization.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index ce76671..c7266dd 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -140,11 +140,13 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
         return
     if f32arr.dtype is not numpy.float32:
         f32arr = f32arr.astype(numpy.float32)
-    name=g.consumedby[tname][0]
-    node=g.nodemap[name]
-    if isinstance(node,onnx_tool.node.GemmNode):
-        if node.transB==0:
-            f32arr=f32arr.transpose()
+    readers=[g.nodemap[name] for name in g.consumedby[tname]]
+    transposed={isinstance(node,onnx_tool.node.GemmNode) and node.transB==0 for node in readers}
+    if len(transposed) > 1:
+        warnings.warn(f"{tname} is read in two layouts, it is not quantized")
+        return
+    if transposed == {True}:
+        f32arr=f32arr.transpose()
     Q, scale, zp = quantize(f32arr, block, type, bits)
     tname_q = tname + '_ot_q'
     tname_s = tname + '_ot_s'
-- 
2.43.0


From dee145b08437341dccce18ecfc2be659e4416a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:31 +0000
Subject: [PATCH 103/164] fix: an optional input left out by an empty name at
 the end of the list is left out

---
 onnx_tool/graph.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index f47dba5..39a57f7 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -293,9 +293,8 @@ class Graph():
                     this_node = self.nodemap[search_nodes[0]]
                     search_nodes.pop(0)
                     if constant_folding:
-                        itensors = []
+                        itensors = self.__input_tensors__(this_node)
                         for input in this_node.input:
-                            itensors.append(self.tensormap[input])
                             if self.tensormap[input].numpy is None and input != '':
                                 warnings.warn(f'Tensor {input} has shape only, {name} may has wrong value infer result')
                         otensors = []
@@ -1066,9 +1065,7 @@ class Graph():
         for key in self.nodemap.keys():
             tm.start()
             node = self.nodemap[key]
-            itensors = []
-            for input in node.input:
-                itensors.append(self.tensormap[input])
+            itensors = self.__input_tensors__(node)
             otensors = []
             for output in node.output:
                 otensors.append(self.tensormap[output])
@@ -1087,13 +1084,18 @@ class Graph():
         self.log(self.shapeinfer_optime_map)
         self.valid_shape = True
 
+    def __input_tensors__(self, node):
+        # an optional input at the end of the list is left out by an empty name as well as by no name
+        names = list(node.input)
+        while names and names[-1] == '':
+            names.pop()
+        return [self.tensormap[name] for name in names]
+
     def value_infer(self, inputs: {}):
         self.update_input_by_map(inputs)
         for key in self.nodemap.keys():
             node = self.nodemap[key]
-            itensors = []
-            for input in node.input:
-                itensors.append(self.tensormap[input])
+            itensors = self.__input_tensors__(node)
             otensors = []
             for output in node.output:
                 otensors.append(self.tensormap[output])
@@ -1492,15 +1494,13 @@ class Graph():
         ops_to_cover = {k for k, v in self.nodemap.items() if v.op_type not in exclude_ops} if exclude_ops else self.nodemap.keys()
         for key in ops_to_cover:
             node = self.nodemap[key]
-            itensors = []
+            itensors = self.__input_tensors__(node)
             _params = 0
             _memory = 0
             max_sparsity = 0
             block_sparsity = {'blocksize': (1, 1), 'blockratio': 0, 'ratio': 0}
 
-            for input in node.input:
-                tensor = self.tensormap[input]
-                itensors.append(tensor)
+            for tensor in itensors:
                 if tensor.sparsity is not None and tensor.sparsity['ratio'] > max_sparsity:
                     max_sparsity = tensor.sparsity['ratio']
                     block_sparsity = tensor.sparsity
-- 
2.43.0


From 9bb6548ddbe5a0054be43deb4e69a2e60a44536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:38 +0000
Subject: [PATCH 104/164] fix: Slice takes steps with the axes left out

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 14992bf..41b3adb 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1771,7 +1771,7 @@ class SliceNode(Node):
                 # fallback behaviour when axes/steps omitted
                 axes = None
             else:
-                if len(intensors) >= 4:
+                if len(intensors) >= 4 and intensors[3].name != '':
                     axes = list(intensors[3].get_numpy())
                 if len(intensors) >= 5:
                     steps = list(intensors[4].get_numpy())
@@ -1898,7 +1898,7 @@ class SliceNode(Node):
         else:
             starts = intensors[1].get_numpy()
             ends = intensors[2].get_numpy()
-            if len(intensors) >= 4:
+            if len(intensors) >= 4 and intensors[3].name != '':
                 axes = intensors[3].get_numpy()
             if len(intensors) >= 5:
                 steps = intensors[4].get_numpy()
-- 
2.43.0


From 84b06c43a290ab2a457194033bc6eae643127464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:38 +0000
Subject: [PATCH 105/164] fix: Pad takes the axes its pads are for

---
 onnx_tool/node.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 41b3adb..6522f02 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1614,12 +1614,24 @@ class PadNode(Node):
         self.add_default_value('value', 0)
         self.add_default_value('mode', 'constant')
 
+    def __all_pads__(self, intensors):
+        pads = intensors[1].get_numpy()
+        if len(intensors) < 4:
+            return pads
+        rank = len(intensors[0].get_shape())
+        axes = _axes_neg2pos(rank, intensors[3].get_numpy())
+        allpads = [0] * (2 * rank)
+        for i, axis in enumerate(axes):
+            allpads[axis] = pads[i]
+            allpads[axis + rank] = pads[i + len(axes)]
+        return allpads
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
         newshape = []
         if self.pads is None:
             if len(intensors) > 1:
-                pads = intensors[1].get_numpy()
+                pads = self.__all_pads__(intensors)
                 for i, v in enumerate(inshape):
                     newshape.append(v + pads[i] + pads[i + len(inshape)])
         else:
@@ -1633,14 +1645,14 @@ class PadNode(Node):
         if self.pads is not None:
             pads = self.pads
         elif len(intensors) > 1:
-            pads = intensors[1].get_numpy()
+            pads = self.__all_pads__(intensors)
         pads = numpy.asarray(pads)
         nrank = len(pads) // 2
         start = pads[:nrank].reshape(nrank, 1)
         end = pads[nrank:].reshape(nrank, 1)
         pad_width = numpy.concatenate([start, end], axis=-1)
         value = self.value
-        if len(intensors) > 2:
+        if len(intensors) > 2 and intensors[2].name != '':
             value = intensors[2].get_numpy()
         mode = self.mode.decode("utf-8") if isinstance(self.mode, bytes) else self.mode
         kwargs = {'constant_values': value} if mode == 'constant' else {}
-- 
2.43.0


From 9b9096e3d997683f2b273f9a35a9ab482e8a4b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:38 +0000
Subject: [PATCH 106/164] fix: QuantizeLinear without a zero point gives uint8

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 6522f02..723ffaf 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2540,7 +2540,7 @@ class QuantizeLinearNode(PWNode):
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
-        outtensors[0].update_dtype(intensors[2].dtype)
+        outtensors[0].update_dtype(intensors[2].dtype if len(intensors) > 2 else numpy.uint8)
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 986a1e6eb235b897cd5bc9f73392c6449c88bf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:38 +0000
Subject: [PATCH 107/164] fix: Resize and Upsample without a mode are nearest

---
 onnx_tool/node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 723ffaf..8be3915 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1397,6 +1397,10 @@ class ShapeNode(Node):
 
 @NODE_REGISTRY.register()
 class ResizeNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('mode', b'nearest')
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         roi = []
-- 
2.43.0


From a545564492bac486042dfe2464140d135b4de032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:38 +0000
Subject: [PATCH 108/164] fix: RoiAlign without an output size pools each
 region to one element

---
 onnx_tool/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8be3915..7a54ba3 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2298,6 +2298,8 @@ class FloorNode(FusedBase):
 class RoiAlignNode(Node):
     def __init__(self, node):
         super().__init__(node)
+        self.add_default_value('output_height', 1)
+        self.add_default_value('output_width', 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-- 
2.43.0


From 36723de15b166c985dc6f76b5808e53078c03a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:38 +0000
Subject: [PATCH 109/164] fix: a zero point of MatMulInteger is not a bias

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 7a54ba3..62633f6 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -989,7 +989,7 @@ class GemmNode(Node):
                     macs *= weight_shape[-2]
                 else:
                     macs *= weight_shape[0]
-            if len(intensors) == 3:
+            if len(intensors) == 3 and self.__class__ == GemmNode:
                 macs += volume(yshape) * ADD_MACS
         else:
             raise NotImplementedError()
-- 
2.43.0


From 2b573e80528f906c40669ca2890bd666ea079f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:08 +0000
Subject: [PATCH 110/164] fix: the axes of every reduction and of Pad, and an
 operand followed by an omitted one, are shape operands

---
 onnx_tool/graph.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 39a57f7..51466ca 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -30,13 +30,17 @@ _SHAPE_TENSORS = {
     'Range': ('0,1,2of3',),
     'OneHot': ('1of3',),
     'TopK': ('1of2',),
-    'Pad': ('1of2', '1of3',),
+    'Pad': ('1of2', '1of3', '1,3of4'),
     'NonMaxSuppression': ('2of5', '2of4'),
     'Split': ('1of2',),
     'Unsqueeze': ('1of2',),
     'Squeeze': ('1of2',),
     'ReduceSum': ('1of2',),
-    'ReduceMean': ('1of2',)
+    'ReduceMean': ('1of2',),
+    'ReduceMax': ('1of2',),
+    'ReduceMin': ('1of2',),
+    'ReduceProd': ('1of2',),
+    'ReduceL2': ('1of2',)
 }
 
 
@@ -45,14 +49,18 @@ def _contains_shape_tensor(n):
     shape_tensors = []
     if n.op_type in nodeset:
         tensor_descs = _SHAPE_TENSORS[n.op_type]
+        ninput = len(n.input)
+        while ninput > 0 and n.input[ninput - 1] == '':
+            ninput -= 1
         for desc in tensor_descs:
             strs = desc.split('of')
             indice = strs[0]
             count = int(strs[1])
-            if len(n.input) == count:
+            if ninput == count:
                 indistr = indice.split(',')
                 for istr in indistr:
-                    shape_tensors.append(n.input[int(istr)])
+                    if n.input[int(istr)] != '':
+                        shape_tensors.append(n.input[int(istr)])
     return shape_tensors
 
 
-- 
2.43.0


From c5f33615df463745ebb9d66c173c1986eeb2fa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:00 +0000
Subject: [PATCH 111/164] fix: the Indices output of MaxPool has the shape of
 the pooled output

---
 onnx_tool/node.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 62633f6..289f820 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1526,6 +1526,12 @@ class MaxPoolNode(PoolBase):
         super().__init__(nodeproto)
         self.op_mac = CMP_MACS
 
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        super().shape_infer(intensors, outtensors)
+        if len(outtensors) > 1 and outtensors[1].name != '':
+            outtensors[1].update_shape(list(outtensors[0].get_shape()))
+            outtensors[1].update_dtype(numpy.int64)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         if len(xshape) != 4:
-- 
2.43.0


From 275ebe7906163e8487cd752b8fec2829ec35bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:00 +0000
Subject: [PATCH 112/164] fix: the statistics outputs of LayerNormalization
 have shapes

---
 onnx_tool/node.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 289f820..7646d54 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2527,12 +2527,19 @@ class LayerNormalizationNode(Node):
     def __init__(self, node_proto):
         super().__init__(node_proto)
         self.add_default_value('axis', -1)
-        self.add_default_value('epsilon ', 1e-05)
+        self.add_default_value('epsilon', 1e-05)
         self.add_default_value('stash_type', 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
         outtensors[0].update_dtype(intensors[0].dtype)
+        # mean and inverse standard deviation of every slice over axis..last
+        xshape = list(intensors[0].get_shape())
+        axis = _axes_neg2pos(len(xshape), [self.axis])[0]
+        for tensor in outtensors[1:]:
+            if tensor.name != '':
+                tensor.update_shape(xshape[:axis] + [1] * (len(xshape) - axis))
+                tensor.update_dtype(onnxdtype2npdtype(self.stash_type))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         tshape = intensors[0].get_shape()
-- 
2.43.0


From 37fc97985ffaa690be48c56b833a8a2efcb20cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:00 +0000
Subject: [PATCH 113/164] fix: the statistics outputs of BatchNormalization
 have shapes

---
 onnx_tool/node.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 7646d54..c179b77 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1692,6 +1692,13 @@ class BatchNormalizationNode(FusedBase):
         self.add_default_value('momentum', 0.9)
         self.add_default_value('training_mode', int(0))
 
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        super().shape_infer(intensors, outtensors)
+        for tensor in outtensors[1:]:
+            if tensor.name != '':
+                tensor.update_shape(intensors[3].get_shape())
+                tensor.update_dtype(intensors[3].dtype)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
         scale = intensors[1].get_numpy()
-- 
2.43.0


From f2710ec4c4c6be68d60f26bee291c3cc390a470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:51 +0000
Subject: [PATCH 114/164] fix: a reduction with an empty list of axes reduces
 all of them, or none with noop_with_empty_axes

---
 onnx_tool/node.py | 46 +++++++++++++++-------------------------------
 1 file changed, 15 insertions(+), 31 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index c179b77..105628e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -107,6 +107,14 @@ def _axes_neg2pos(len, axes):
     return newaxes
 
 
+def _reduce_axes(node, intensors):
+    """axes of a reduction, None for all of them"""
+    axes = node.axes if len(intensors) < 2 else intensors[1].get_numpy()
+    if axes is None or len(axes) == 0:
+        return () if getattr(node, 'noop_with_empty_axes', 0) else None
+    return tuple(axes)
+
+
 def _max_shape(shapes: [numpy.ndarray]):
     maxshape = shapes[0]
     maxvol = volume(maxshape)
@@ -1950,10 +1958,7 @@ class ReduceMeanNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         yshape = []
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
+        axes = _reduce_axes(self, intensors)
         if axes is None:
             axes = range(len(xshape))
         axes = _axes_neg2pos(len(xshape), axes)
@@ -1968,11 +1973,7 @@ class ReduceMeanNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
-        axes = None if axes is None else tuple(axes)
+        axes = _reduce_axes(self, intensors)
         reduced = numpy.mean(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -1984,11 +1985,7 @@ class ReduceMeanNode(Node):
 @NODE_REGISTRY.register()
 class ReduceProdNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
-        axes = None if axes is None else tuple(axes)
+        axes = _reduce_axes(self, intensors)
         reduced = numpy.prod(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -2001,11 +1998,7 @@ class ReduceProdNode(ReduceMeanNode):
 @NODE_REGISTRY.register()
 class ReduceSumNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
-        axes = None if axes is None else tuple(axes)
+        axes = _reduce_axes(self, intensors)
         reduced = numpy.sum(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -2014,11 +2007,7 @@ class ReduceSumNode(ReduceMeanNode):
 class ReduceMinNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
-        axes = None if axes is None else tuple(axes)
+        axes = _reduce_axes(self, intensors)
         reduced = numpy.minimum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -2032,11 +2021,7 @@ class ReduceMinNode(ReduceMeanNode):
 class ReduceMaxNode(ReduceMinNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
-        axes = None if axes is None else tuple(axes)
+        axes = _reduce_axes(self, intensors)
         reduced = numpy.maximum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -2243,10 +2228,9 @@ class ReduceL2Node(Node):
         super().__init__(nodeproto)
         self.add_default_value('axes', None)
         self.add_default_value('keepdims', 1)
-        self.axes = tuple(self.axes) if self.axes is not None else None
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        axes = self.axes if len(intensors) < 2 else tuple(intensors[1].get_numpy())
+        axes = _reduce_axes(self, intensors)
         reduced = numpy.sqrt(
             numpy.sum(intensors[0].get_numpy() * intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1))
         outtensors[0].update_tensor(reduced)
-- 
2.43.0


From 4dce2cc549fc7d586274796a55ab17bea6c8d32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:51 +0000
Subject: [PATCH 115/164] fix: LSTM and GRU with layout 1 are batch first

---
 onnx_tool/node.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 105628e..e333d2b 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2104,24 +2104,26 @@ class LSTMNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('direction', None)
         self.add_default_value('hidden_size', None)
+        self.add_default_value('layout', 0)
         # TODO(Shinji) add activation types support in attributes
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-        seq_len = xshape[0]
-        batch = xshape[1]
+        seq_len = xshape[1] if self.layout else xshape[0]
+        batch = xshape[0] if self.layout else xshape[1]
         num_dir = wshape[0]
         h_len = wshape[1] // 4
         if self.hidden_size is not None:
             assert (h_len == self.hidden_size)
-        outtensors[0].update_shape([seq_len, num_dir, batch, h_len])
+        outtensors[0].update_shape([batch, seq_len, num_dir, h_len] if self.layout else [seq_len, num_dir, batch, h_len])
         outtensors[0].update_dtype(intensors[0].dtype)
+        state_shape = [batch, num_dir, h_len] if self.layout else [num_dir, batch, h_len]
         if len(outtensors) > 1:
-            outtensors[1].update_shape([num_dir, batch, h_len])
+            outtensors[1].update_shape(state_shape)
             outtensors[1].update_dtype(intensors[0].dtype)
             if len(outtensors) > 2:
-                outtensors[2].update_shape([num_dir, batch, h_len])
+                outtensors[2].update_shape(state_shape)
                 outtensors[2].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -2752,18 +2754,22 @@ class GatherElementsNode(Node):
 
 @NODE_REGISTRY.register()
 class GRUNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('layout', 0)
+
     # TODO(Shinji) add activation types support in attributes
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-        seq_len = xshape[0]
-        batch = xshape[1]
+        seq_len = xshape[1] if self.layout else xshape[0]
+        batch = xshape[0] if self.layout else xshape[1]
         num_dir = wshape[0]
         h_len = wshape[1] // 3
-        outtensors[0].update_shape([seq_len, num_dir, batch, h_len])
+        outtensors[0].update_shape([batch, seq_len, num_dir, h_len] if self.layout else [seq_len, num_dir, batch, h_len])
         outtensors[0].update_dtype(intensors[0].dtype)
         if len(outtensors) > 1:
-            outtensors[1].update_shape([num_dir, batch, h_len])
+            outtensors[1].update_shape([batch, num_dir, h_len] if self.layout else [num_dir, batch, h_len])
             outtensors[1].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From e4e858be5d8b95e7e5a028bf3f7b8d6eb31077bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:00 +0000
Subject: [PATCH 116/164] fix: an empty tensor name connects nothing: outputs
 and inputs left out do not meet

---
 onnx_tool/graph.py | 66 ++++++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 51466ca..b8a3917 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -225,6 +225,8 @@ class Graph():
         if constant_folding:
             for name in self.nodemap.keys():
                 for tname in self.nodemap[name].input:
+                    if tname == '':
+                        continue
                     if self.tensormap[tname].type == STATIC_TENSOR:
                         if tname not in self.initials:
                             self.initials.append(tname)
@@ -232,7 +234,7 @@ class Graph():
                         if tname not in self.dynamics:
                             self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
-                    if tname not in self.dynamics:
+                    if tname != '' and tname not in self.dynamics:
                         self.dynamics.append(tname)
             for tname in self.output:
                 if tname in self.tensormap and self.tensormap[tname].type == STATIC_TENSOR and tname not in self.initials:
@@ -243,13 +245,13 @@ class Graph():
             self.dynamics.extend(self.input)
             for name in self.nodemap.keys():
                 for tname in self.nodemap[name].input:
-                    if tname not in self.initials and tname not in self.dynamics:
+                    if tname != '' and tname not in self.initials and tname not in self.dynamics:
                         self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
-                    if tname not in self.dynamics:
+                    if tname != '' and tname not in self.dynamics:
                         self.dynamics.append(tname)
 
-        valid_tensors = []
+        valid_tensors = ['']
         valid_tensors.extend(self.initials)
         valid_tensors.extend(self.dynamics)
         rm_list = []
@@ -270,6 +272,8 @@ class Graph():
                         self.input.append(tensor)
             if not self.cfg.remove_dangling:
                 for tensor in node.output:
+                    if tensor == '':
+                        continue
                     if tensor not in self.consumedby or len(self.consumedby[tensor]) == 0:
                         if tensor not in self.output:
                             self.output.append(tensor)
@@ -305,9 +309,7 @@ class Graph():
                         for input in this_node.input:
                             if self.tensormap[input].numpy is None and input != '':
                                 warnings.warn(f'Tensor {input} has shape only, {name} may has wrong value infer result')
-                        otensors = []
-                        for output in this_node.output:
-                            otensors.append(self.tensormap[output])
+                        otensors = self.__output_tensors__(this_node)
                         this_node.value_infer(itensors, otensors)
                         if len(otensors) > 0:
                             for i, output in enumerate(this_node.output):
@@ -330,10 +332,14 @@ class Graph():
         for name in self.nodemap:
             node = self.nodemap[name]
             for tensor in node.input:
+                if tensor == '':
+                    continue
                 if tensor not in self.consumedby:
                     self.consumedby[tensor] = []
                 self.consumedby[tensor].append(node.name)
             for tensor in node.output:
+                if tensor == '':
+                    continue
                 if tensor not in self.producedby:
                     self.producedby[tensor] = []
                 self.producedby[tensor].append(node.name)
@@ -360,13 +366,16 @@ class Graph():
                     sub_input = []
                     for node_proto in node.attr[selected_branch].node:
                         for ipn in node_proto.input:
-                            sub_input.append(ipn)
+                            if ipn != '':
+                                sub_input.append(ipn)
                     node_list = [node.name]
                     while len(node_list):
                         remove = True
                         sname = node_list.pop(0)
                         snode = self.nodemap[sname]
                         for ipn in snode.input:
+                            if ipn == '':
+                                continue
                             self.consumedby[ipn].remove(sname)
                             if ipn in self.producedby and self.__is_unused__(self.producedby[ipn][0], sub_input):
                                 node_list.append(self.producedby[ipn][0])
@@ -429,6 +438,8 @@ class Graph():
                     sname = node_list.pop(0)
                     snode = self.nodemap[sname]
                     for ipn in snode.input:
+                        if ipn == '':
+                            continue
                         self.consumedby[ipn].remove(sname)
                         if ipn in self.producedby and self.__is_unused__(self.producedby[ipn][0]):
                             node_list.append(self.producedby[ipn][0])
@@ -456,18 +467,22 @@ class Graph():
         newnode.name = self.__unique_node_name__(newnode.name)
         self.node_count += 1
         for tensor in node_proto.input:
+            newnode.input.append(tensor)
+            if tensor == '':
+                continue
             if tensor in self.producedby:
                 for producer in self.producedby[tensor]:
                     newnode.prevnodes.append(self.nodemap[producer])
             if tensor not in self.consumedby:
                 self.consumedby[tensor] = []
             self.consumedby[tensor].append(newnode.name)
-            newnode.input.append(tensor)
         for tensor in node_proto.output:
+            newnode.output.append(tensor)
+            if tensor == '':
+                continue
             if tensor not in self.producedby:
                 self.producedby[tensor] = []
             self.producedby[tensor].append(newnode.name)
-            newnode.output.append(tensor)
         self.nodemap[newnode.name] = newnode
         return newnode.name
 
@@ -486,18 +501,22 @@ class Graph():
             newnode.name = self.__unique_node_name__(newnode.name)
             self.node_count += 1
             for tensor in node.input:
+                newnode.input.append(tensor)
+                if tensor == '':
+                    continue
                 if tensor in self.producedby:
                     for producer in self.producedby[tensor]:
                         newnode.prevnodes.append(self.nodemap[producer])
                 if tensor not in self.consumedby:
                     self.consumedby[tensor] = []
                 self.consumedby[tensor].append(newnode.name)
-                newnode.input.append(tensor)
             for tensor in node.output:
+                newnode.output.append(tensor)
+                if tensor == '':
+                    continue
                 if tensor not in self.producedby:
                     self.producedby[tensor] = []
                 self.producedby[tensor].append(newnode.name)
-                newnode.output.append(tensor)
 
             self.nodemap[newnode.name] = newnode
 
@@ -954,7 +973,8 @@ class Graph():
         for name in node_names:
             node = self.nodemap[name]
             for tname in node.output:
-                produced_by[tname] = name
+                if tname != '':
+                    produced_by[tname] = name
 
         consumed_by = {}
         dependencies = {}
@@ -1074,9 +1094,7 @@ class Graph():
             tm.start()
             node = self.nodemap[key]
             itensors = self.__input_tensors__(node)
-            otensors = []
-            for output in node.output:
-                otensors.append(self.tensormap[output])
+            otensors = self.__output_tensors__(node)
             try:
                 if node.shape_calc:
                     node.value_infer(itensors, otensors)
@@ -1099,14 +1117,16 @@ class Graph():
             names.pop()
         return [self.tensormap[name] for name in names]
 
+    def __output_tensors__(self, node):
+        # what is inferred for an output left out by an empty name is kept nowhere
+        return [self.tensormap[name] if name != '' else Tensor('') for name in node.output]
+
     def value_infer(self, inputs: {}):
         self.update_input_by_map(inputs)
         for key in self.nodemap.keys():
             node = self.nodemap[key]
             itensors = self.__input_tensors__(node)
-            otensors = []
-            for output in node.output:
-                otensors.append(self.tensormap[output])
+            otensors = self.__output_tensors__(node)
             node.value_infer(itensors, otensors)
         outputs = []
         for output in self.output:
@@ -1440,6 +1460,8 @@ class Graph():
                 continue
             dummy_node = True
             for output in node.output:
+                if output == '':
+                    continue
                 dummy = True
                 if output in cg.consumedby.keys():
                     for consumer in cg.consumedby[output]:
@@ -1486,7 +1508,7 @@ class Graph():
         cg.dynamics.extend(cg.output)
         for name in cg.nodemap.keys():
             for output in cg.nodemap[name].output:
-                if output not in cg.dynamics:
+                if output != '' and output not in cg.dynamics:
                     cg.dynamics.append(output)
 
         return cg
@@ -1515,9 +1537,7 @@ class Graph():
             # Annotate static/dynamic inputs on the node
             node.static_inputs = [i for i, t in enumerate(itensors) if t.name != '' and t.type == STATIC_TENSOR]
             node.dynamic_inputs = [i for i, t in enumerate(itensors) if t.name != '' and t.type == DYNAMIC_TENSOR]
-            otensors = []
-            for output in node.output:
-                otensors.append(self.tensormap[output])
+            otensors = self.__output_tensors__(node)
             ret = node.profile(itensors, otensors)
             macs = ret[0]
             # params: sum of all static input volumes (not deduped)
-- 
2.43.0


From 6ee7f830f6c5224ef13e5d91a89f7cc65e5b6576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:16 +0000
Subject: [PATCH 117/164] fix: the size and element type of a node whose first
 output is left out are those of its first output

---
 onnx_tool/graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index b8a3917..3451ffc 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1542,12 +1542,13 @@ class Graph():
             macs = ret[0]
             # params: sum of all static input volumes (not deduped)
             _params = sum(volume(itensors[i].get_shape()) for i in node.static_inputs)
-            io_elesize = self.tensormap[node.output[0]].get_elementsize() if node.output else 4
+            outputs = [name for name in node.output if name != '']
+            io_elesize = self.tensormap[outputs[0]].get_elementsize() if outputs else 4
             static_elesize = self.tensormap[node.input[0]].get_elementsize() if node.input else 4
             _memory = ret[1] * io_elesize + ret[2] * static_elesize
             outshape = (0,)
-            if len(node.output) > 0:
-                outshape = self.tensormap[node.output[0]].get_shape()
+            if len(outputs) > 0:
+                outshape = self.tensormap[outputs[0]].get_shape()
                 outshape = (0,) if len(outshape) == 0 else outshape
             inshape = (0,)
             if len(node.input) > 0:
-- 
2.43.0


From 24aa98756bd811e0585c60f6e1d785fd135b506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:16 +0000
Subject: [PATCH 118/164] fix: the inputs of a graph stay among its activations
 when it is reordered

---
 onnx_tool/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 3451ffc..970aae4 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -346,7 +346,8 @@ class Graph():
 
     def update_tensor_relations(self):
         self.__update_consumer_producer__()
-        self.dynamics = list(self.producedby.keys())
+        self.dynamics = [name for name in self.input if name not in self.producedby]
+        self.dynamics.extend(self.producedby.keys())
 
     def __is_unused__(self, nodename, used=()):
         for o in self.nodemap[nodename].output:
-- 
2.43.0


From 7aa7f0218d7ee892da218e3f8435d45fb79ee4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 119/164] fix: a saved model keeps the local functions and the
 metadata of the loaded one

---
 onnx_tool/graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 970aae4..ca72bd4 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -898,6 +898,11 @@ class Graph():
                 model.opset_import.pop()
                 for opset in rawmodel.opset_import:
                     model.opset_import.append(opset)
+                model.functions.extend(rawmodel.functions)
+                model.metadata_props.extend(rawmodel.metadata_props)
+                model.domain = rawmodel.domain
+                model.model_version = rawmodel.model_version
+                model.doc_string = rawmodel.doc_string
             onnx.save_model(model, f)
 
     def make_graph_onnx(self, nodenames, gname, inputnames, outputnames, with_initializer=True, with_shape_info=True):
-- 
2.43.0


From bcdd52680f716a8df2678024d27df55c0d32fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 120/164] fix: the inputs of a graph keep their declared order

---
 onnx_tool/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index ca72bd4..0123689 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -277,6 +277,8 @@ class Graph():
                     if tensor not in self.consumedby or len(self.consumedby[tensor]) == 0:
                         if tensor not in self.output:
                             self.output.append(tensor)
+        declared = [i.name for i in self.rawgraph.input] if self.rawgraph is not None else []
+        self.input.sort(key=lambda name: declared.index(name) if name in declared else len(declared))
         self.__update_consumer_producer__()
         self.log(f'Update Nodes Tensors  Time Elapsed {tm.stop()}')
 
-- 
2.43.0


From f13cdfb2005cd9eee919a37f17eca45b7b054e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 121/164] fix: an attribute named like a member of a node does
 not replace it

---
 onnx_tool/node.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e333d2b..83e2856 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -235,13 +235,15 @@ class Node():
         # Annotated by graph.profile(): which input indices are static (weights) vs dynamic (activations)
         self.static_inputs = []   # list of indices
         self.dynamic_inputs = []  # list of indices
+        self.members = set(dir(self))
         if isinstance(n.attribute, dict):
             for att in n.attribute:
-                self.attr[att] = n.attribute[att]
-                self.__setattr__(att, n.attribute[att])
+                self.set_attr(att, n.attribute[att])
         else:
             for att in n.attribute:
                 self.attr[att.name] = onnx.helper.get_attribute_value(att)
+                if att.name in self.members:
+                    continue
                 self.__setattr__(att.name, get_attribute_data(att))
                 if att.name == 'axes':
                     if isinstance(self.axes, list):
@@ -249,7 +251,8 @@ class Node():
 
     def set_attr(self, key, val):
         self.attr[key] = val
-        self.__setattr__(key, val)
+        if key not in self.members:
+            self.__setattr__(key, val)
 
     def add_default_value(self, attname, defaultvalue):
         if not hasattr(self, attname):
@@ -260,7 +263,8 @@ class Node():
         empty = [key for key, val in self.attr.items() if isinstance(val, (list, tuple)) and len(val) == 0]
         attr = {key: val for key, val in self.attr.items() if key not in empty}
         node = onnx.helper.make_node(self.op_type, self.input, self.output, self.name,
-                                     domain=getattr(self.proto, 'domain', None), **attr)
+                                     domain=getattr(self.proto, 'domain', None))
+        node.attribute.extend(onnx.helper.make_attribute(key, attr[key]) for key in sorted(attr) if attr[key] is not None)
         if not isinstance(self.proto.attribute, dict):
             for att in self.proto.attribute:
                 if att.name in empty:
-- 
2.43.0


From 851613f1601f6d3d4af3675643083bdf7d1cd1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 122/164] fix: a scalar is saved with its shape

---
 onnx_tool/graph.py  | 2 +-
 onnx_tool/tensor.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 0123689..85f2dc8 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -958,7 +958,7 @@ class Graph():
                 if key in self.input or key in self.output:
                     continue
                 tensor = self.tensormap[key]
-                if tensor.proto is None and tensor.numpy is None and len(tensor.shape) == 0:
+                if tensor.proto is None and tensor.numpy is None and not tensor.rank_known:
                     continue  # neither declared nor infered
                 vinfo = tensor.make_value_proto()
                 if vinfo is None:
diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 649da83..e77d325 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -386,6 +386,7 @@ class Tensor():
             self.name = t
             self.proto = None
             self.shape = []
+            self.rank_known = False
             self.numpy = None
             self.type = DYNAMIC_TENSOR if t != '' else STATIC_TENSOR
             self.dtype = numpy.float32
@@ -393,6 +394,7 @@ class Tensor():
             self.name = t.name
             self.proto = t
             self.shape = shape_of_tensor(t)
+            self.rank_known = t.type.tensor_type.HasField('shape')
             self.numpy = None
             self.type = DYNAMIC_TENSOR
             self.dtype = type_of_tensor(t)
@@ -402,6 +404,7 @@ class Tensor():
             self.numpy = tensorproto2ndarray(t)
             # NOTE: The shape of the tensor should be a list.
             self.shape = list(self.numpy.shape)
+            self.rank_known = True
             self.type = STATIC_TENSOR
             self.dtype = self.numpy.dtype.type
         else:
@@ -423,6 +426,7 @@ class Tensor():
         if isinstance(shape, numpy.ndarray):
             assert 0
         self.shape = shape
+        self.rank_known = True
 
     def update_dtype(self, dtype):
         self.dtype = dtype
@@ -488,7 +492,7 @@ class Tensor():
 
     def make_value_proto(self, make_dummy=False):
         shape = self.get_shape()
-        if len(self.shape) == 0:
+        if len(self.shape) == 0 and not self.rank_known:
             shape = None
         else:
             # unknown dims are -1 in Tensor.shape and have no value in the proto
-- 
2.43.0


From ef437a28321da3f216aa6f683aac28823905ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:17 +0000
Subject: [PATCH 123/164] fix: an element-wise node with an empty data tensor
 keeps the shape of its data

---
 onnx_tool/node.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 83e2856..678f835 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -317,10 +317,7 @@ class PWNode(Node):
         self.ratio = max(1, len(self.input) - 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        inshapes = []
-        for tensor in intensors:
-            inshapes.append(tensor.get_shape())
-        outtensors[0].update_shape(_max_shape(inshapes))
+        outtensors[0].update_shape(intensors[0].get_shape())
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 5dbb8042f4a5141e53bcc7df8ec6b7f72fdbc4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:17 +0000
Subject: [PATCH 124/164] fix: Flatten takes an empty tensor

---
 onnx_tool/node.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 678f835..b58e112 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1739,14 +1739,9 @@ class FlattenNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        if self.axis is None:
-            y = x.reshape((x.shape[0], -1))
-        else:
-            vol = 1
-            axis = self.axis + len(x.shape) if self.axis < 0 else self.axis
-            for i in range(axis):
-                vol *= x.shape[i]
-            y = x.reshape((vol, -1))
+        axis = 1 if self.axis is None else self.axis
+        axis = axis + len(x.shape) if axis < 0 else axis
+        y = x.reshape((math.prod(x.shape[:axis]), math.prod(x.shape[axis:])))
         outtensors[0].update_tensor(y)
 
 
-- 
2.43.0


From 7d598e2e926574d4cf3e1b417baecd18478101ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:17 +0000
Subject: [PATCH 125/164] fix: Reshape takes scalars and allowzero and refuses
 a target it cannot infer

---
 onnx_tool/node.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b58e112..260a5f9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2689,6 +2689,10 @@ class ConvTransposeNode(Node):
 
 @NODE_REGISTRY.register()
 class ReshapeNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('allowzero', 0)
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         srcshape = intensors[0].get_shape()
         if not is_valid_ndarray(intensors[1].get_numpy()):
@@ -2698,19 +2702,18 @@ class ReshapeNode(Node):
         shape = intensors[1].get_numpy()
         newshape = []
         for i in range(len(shape)):
-            if shape[i] == 0:
+            if shape[i] == 0 and not self.allowzero:
                 newshape.append(int(srcshape[i]))
             else:
                 newshape.append(int(shape[i]))
-        sum = volume(newshape)
-        raw = volume(srcshape)
-        if sum < 0:
-            remain = raw // -sum
-            for i, val in enumerate(newshape):
-                if val == -1:
-                    newshape[i] = remain
-                    break
-        assert raw == volume(newshape)
+        raw = math.prod(srcshape)
+        for i, val in enumerate(newshape):
+            if val == -1:
+                known = -math.prod(newshape)
+                assert known > 0, f'Reshape cannot infer its target {newshape}'
+                newshape[i] = raw // known
+                break
+        assert raw == math.prod(newshape) and all(val >= 0 for val in newshape)
         outtensors[0].update_shape(newshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
@@ -2719,7 +2722,7 @@ class ReshapeNode(Node):
         xtensor = intensors[0].get_numpy()
         stensor = intensors[1].get_numpy()
         for i, v in enumerate(stensor):
-            if v == 0:
+            if v == 0 and not self.allowzero:
                 shape.append(xtensor.shape[i])
             else:
                 shape.append(v)
-- 
2.43.0


From 4b92347a5478444c8cf65239b06d6be89817ba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:30 +0000
Subject: [PATCH 126/164] fix: Reshape takes an empty target

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 260a5f9..72dd6a9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2695,7 +2695,7 @@ class ReshapeNode(Node):
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         srcshape = intensors[0].get_shape()
-        if not is_valid_ndarray(intensors[1].get_numpy()):
+        if not isinstance(intensors[1].get_numpy(), numpy.ndarray):
             outtensors[0].update_shape([1, ])
             outtensors[0].update_dtype(intensors[0].dtype)
             return
-- 
2.43.0


From 3961eeeb8ed680bd778e7288fbe1bdc57adbe5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:53 +0000
Subject: [PATCH 127/164] fix: Shape follows start and end

---
 onnx_tool/node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 72dd6a9..f32728e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1399,8 +1399,13 @@ class SqueezeNode(Node):
 
 @NODE_REGISTRY.register()
 class ShapeNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('start', None)
+        self.add_default_value('end', None)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        ret = numpy.array(intensors[0].get_shape(), dtype=numpy.int64)
+        ret = numpy.array(intensors[0].get_shape()[self.start:self.end], dtype=numpy.int64)
         outtensors[0].update_tensor(ret)
 
 
-- 
2.43.0


From 2a5a8fcf8c804b109a1df6135a2c370ce6241d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:53 +0000
Subject: [PATCH 128/164] fix: ArgMax follows select_last_index

---
 onnx_tool/node.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f32728e..4b2491a 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1751,8 +1751,12 @@ class FlattenNode(Node):
 
 
 # copy from https://github.com/onnx/onnx/blob/main/onnx/backend/test/case/node/argmax.py
-def argmax_use_numpy(data: numpy.ndarray, axis: int = 0, keepdims: int = 1) -> (numpy.ndarray):
-    result = numpy.argmax(data, axis=axis)
+def argmax_use_numpy(data: numpy.ndarray, axis: int = 0, keepdims: int = 1, select_last_index: int = 0) -> (numpy.ndarray):
+    if select_last_index:
+        back = (slice(None),) * (axis % data.ndim) + (slice(None, None, -1),)
+        result = data.shape[axis] - 1 - numpy.argmax(data[back], axis=axis)
+    else:
+        result = numpy.argmax(data, axis=axis)
     if (keepdims == 1):
         result = numpy.expand_dims(result, axis)
     return result.astype(numpy.int64)
@@ -1764,10 +1768,11 @@ class ArgMaxNode(Node):
         super().__init__(n)
         self.add_default_value('axis', 0)
         self.add_default_value('keepdims', 1)
+        self.add_default_value('select_last_index', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        out = argmax_use_numpy(data, self.axis, self.keepdims)
+        out = argmax_use_numpy(data, self.axis, self.keepdims, self.select_last_index)
         outtensors[0].update_tensor(out)
 
 
-- 
2.43.0


From 95d5e17b533253ee3165ce28d5107fb04acc7f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:53 +0000
Subject: [PATCH 129/164] fix: CumSum keeps its element type and follows
 exclusive and reverse

---
 onnx_tool/node.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4b2491a..2e66049 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2258,11 +2258,18 @@ class CumSumNode(PWNode):
         self.add_default_value('reverse', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if self.exclusive == 0 and self.reverse == 0:
-            y = numpy.cumsum(intensors[0].get_numpy(), intensors[1].get_numpy())
-            outtensors[0].update_tensor(y)
-            return
-        raise NotImplementedError(f"CumSum doesnt support {self.exclusive} {self.reverse}")
+        x = intensors[0].get_numpy()
+        along = (slice(None),) * (int(intensors[1].get_scalar()) % x.ndim)
+        back = along + (slice(None, None, -1),)
+        if self.reverse:
+            x = x[back]
+        y = numpy.cumsum(x, len(along), dtype=x.dtype)
+        if self.exclusive:
+            zero = numpy.zeros_like(y[along + (slice(0, 1),)])
+            y = numpy.concatenate([zero, y[along + (slice(0, -1),)]], len(along))
+        if self.reverse:
+            y = y[back]
+        outtensors[0].update_tensor(y)
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 0f9fad164fc92673564941777780ed80d2e41949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:53 +0000
Subject: [PATCH 130/164] fix: a Constant may be given as a number, a list or a
 text

---
 onnx_tool/node.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 2e66049..646c003 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1096,6 +1096,12 @@ class Relu6Node(PWNode):
 class ConstantNode(Node):
     def __init__(self, n):
         super().__init__(n)
+        for key, dtype in (('value_int', numpy.int64), ('value_float', numpy.float32), ('value_string', object)):
+            for val in (self.attr.get(key), self.attr.get(key + 's')):
+                if val is not None:
+                    if dtype is object:
+                        val = [s.decode() for s in val] if isinstance(val, list) else val.decode()
+                    self.value = numpy.array(val, dtype=dtype)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(self.value.shape)
-- 
2.43.0


From be597e0da2069fc0855d52abb4418fbe73a4b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:16 +0000
Subject: [PATCH 131/164] fix: fusing nodes keeps attributes of every type and
 their edits

---
 onnx_tool/graph.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 85f2dc8..1ffe724 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -7,7 +7,7 @@ import onnx
 
 from .node import create_node
 from .tensor import STATIC_TENSOR, DYNAMIC_TENSOR
-from .tensor import get_attribute_data, Tensor, volume
+from .tensor import Tensor, volume
 from .utils import VERSION, tuple2str, ModelConfig, print_table, num2str
 
 
@@ -823,20 +823,19 @@ class Graph():
         count = 0
         if keep_attr:
             for node in nodes:
-                for attribute in self.nodemap[node].proto.attribute:
-                    attr = onnx.helper.make_attribute(
-                        self.nodemap[node].proto.op_type + str(count) + '_' + attribute.name,
-                        get_attribute_data(attribute))
-                    newnode_prot.attribute.append(attr)
+                for attribute in self.nodemap[node].make_nodeproto().attribute:
+                    attribute.name = self.nodemap[node].op_type + str(count) + '_' + attribute.name
+                    newnode_prot.attribute.append(attribute)
                 count += 1
         self.__replace_nodes__(nodes, newnode_prot, _inputs, _outputs)
 
     def fuse_postop_node_names(self, nodes: [str], append_attr: bool, **extrakeys):
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
         mainnode = self.nodemap[nodes[0]]
-        newnode = onnx.helper.make_node(mainnode.op_type, _inputs, _outputs, name=mainnode.name)
+        newnode = onnx.helper.make_node(mainnode.op_type, _inputs, _outputs, name=mainnode.name,
+                                        domain=getattr(mainnode.proto, 'domain', None))
         count = 0
-        for attr in mainnode.proto.attribute:
+        for attr in mainnode.make_nodeproto().attribute:
             if attr.name == 'postop_count':
                 count = onnx.helper.get_attribute_value(attr)
             else:
@@ -854,11 +853,9 @@ class Graph():
                 attr = onnx.helper.make_attribute(
                     'postop_' + str(count), pnode.op_type)
                 newnode.attribute.append(attr)
-                for attribute in pnode.proto.attribute:
-                    attr = onnx.helper.make_attribute(
-                        'postop_' + str(count) + '_' + attribute.name,
-                        get_attribute_data(attribute))
-                    newnode.attribute.append(attr)
+                for attribute in pnode.make_nodeproto().attribute:
+                    attribute.name = 'postop_' + str(count) + '_' + attribute.name
+                    newnode.attribute.append(attribute)
                 count += 1
 
         attr = onnx.helper.make_attribute('postop_count', count)
-- 
2.43.0


From 2695c73fc0fcb52a4e0801e89d378fc133773299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:16 +0000
Subject: [PATCH 132/164] fix: an attribute holding several texts is read

---
 onnx_tool/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index e77d325..50e2833 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -149,6 +149,8 @@ def get_attribute_data(att):
         for f in att.floats:
             val.append(f)
         return val
+    elif att.type == att.STRINGS:
+        return list(att.strings)
     elif att.type == att.TENSOR:
         return tensorproto2ndarray(att.t)
 
-- 
2.43.0


From a01b23f25fe2ee7b4b90bfd680eef7c442146f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:04 +0000
Subject: [PATCH 133/164] fix: a backward Slice of an empty axis is empty

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 646c003..d5d3d06 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1868,7 +1868,7 @@ class SliceNode(Node):
             if isinstance(st, int) and st < 0:
                 # negative stepping: start clamped to [0, dim-1]
                 if isinstance(dim, int):
-                    s = max(0, min(s, dim - 1))
+                    s = min(max(0, s), dim - 1)
                 else:
                     s = max(0, s)
             else:
-- 
2.43.0


From 0eb4002c1f5c78b1c335fb66b8a72053dbe27221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:04 +0000
Subject: [PATCH 134/164] fix: evaluated reductions keep the element type

---
 onnx_tool/node.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d5d3d06..f75fa00 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1986,7 +1986,8 @@ class ReduceMeanNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         axes = _reduce_axes(self, intensors)
-        reduced = numpy.mean(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
+        data = intensors[0].get_numpy()
+        reduced = numpy.mean(data, axis=axes, keepdims=self.keepdims == 1).astype(data.dtype)
         outtensors[0].update_tensor(reduced)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -1998,7 +1999,8 @@ class ReduceMeanNode(Node):
 class ReduceProdNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         axes = _reduce_axes(self, intensors)
-        reduced = numpy.prod(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
+        data = intensors[0].get_numpy()
+        reduced = numpy.prod(data, axis=axes, dtype=data.dtype, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -2011,7 +2013,8 @@ class ReduceProdNode(ReduceMeanNode):
 class ReduceSumNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         axes = _reduce_axes(self, intensors)
-        reduced = numpy.sum(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
+        data = intensors[0].get_numpy()
+        reduced = numpy.sum(data, axis=axes, dtype=data.dtype, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
 
@@ -2245,8 +2248,8 @@ class ReduceL2Node(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         axes = _reduce_axes(self, intensors)
-        reduced = numpy.sqrt(
-            numpy.sum(intensors[0].get_numpy() * intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1))
+        data = intensors[0].get_numpy()
+        reduced = numpy.sqrt(numpy.sum(data * data, axis=axes, keepdims=self.keepdims == 1)).astype(data.dtype)
         outtensors[0].update_tensor(reduced)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 746d1df5ae0e10e567e985b2671f24d6bd1583fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:04 +0000
Subject: [PATCH 135/164] fix: Resize takes the axes and the aspect ratio
 policy of opset 18

---
 onnx_tool/node.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f75fa00..1fb7eff 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1420,9 +1420,12 @@ class ResizeNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
         self.add_default_value('mode', b'nearest')
+        self.add_default_value('axes', None)
+        self.add_default_value('keep_aspect_ratio_policy', b'stretch')
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
+        axes = range(len(xshape)) if self.axes is None else _axes_neg2pos(len(xshape), self.axes)
         roi = []
         sizes = []
         if len(intensors) == 2:
@@ -1435,20 +1438,20 @@ class ResizeNode(Node):
 
         newshape = []
         if is_valid_ndarray(sizes):
-            if len(sizes) == len(xshape):
-                newshape = sizes
-            if len(sizes) == 2:
-                newshape = xshape[:2] + sizes
+            if self.keep_aspect_ratio_policy != b'stretch':
+                pick = min if self.keep_aspect_ratio_policy == b'not_larger' else max
+                scale = pick(size / xshape[axis] for axis, size in zip(axes, sizes))
+                sizes = [math.floor(scale * xshape[axis] + 0.5) for axis in axes]
+            newshape = list(xshape)
+            for axis, size in zip(axes, sizes):
+                newshape[axis] = int(size)
         else:
             if is_valid_ndarray(scales):
-                newshape = []
-                for src, scale in zip(xshape, scales):
-                    newshape.append(math.floor(src * scale))
-
-        if is_valid_ndarray(newshape):
-            if newshape.dtype != numpy.int64:
-                newshape = newshape.astype(dtype=numpy.int64)
-        outtensors[0].update_shape(list(newshape))
+                newshape = list(xshape)
+                for axis, scale in zip(axes, scales):
+                    newshape[axis] = math.floor(xshape[axis] * scale)
+
+        outtensors[0].update_shape(newshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From af03ba94db7bf4bfcdfb5ee8cad4bc5e9210b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:04 +0000
Subject: [PATCH 136/164] fix: QuantizeLinear and DequantizeLinear follow
 output_dtype

---
 onnx_tool/node.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1fb7eff..a074164 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2534,10 +2534,11 @@ class DequantizeLinearNode(PWNode):
         super().__init__(node_proto)
         self.op_mac = MUL_MACS + ADD_MACS
         self.ratio = 1
+        self.add_default_value('output_dtype', 0)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
-        outtensors[0].update_dtype(intensors[1].dtype)
+        outtensors[0].update_dtype(onnxdtype2npdtype(self.output_dtype) if self.output_dtype else intensors[1].dtype)
 
 
 @NODE_REGISTRY.register()
@@ -2574,10 +2575,15 @@ class QuantizeLinearNode(PWNode):
         super().__init__(node_proto)
         self.op_mac = MUL_MACS + ADD_MACS
         self.ratio = 1
+        self.add_default_value('output_dtype', 0)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
-        outtensors[0].update_dtype(intensors[2].dtype if len(intensors) > 2 else numpy.uint8)
+        if self.output_dtype:
+            dtype = onnxdtype2npdtype(self.output_dtype)
+        else:
+            dtype = intensors[2].dtype if len(intensors) > 2 else numpy.uint8
+        outtensors[0].update_dtype(dtype)
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From e85264733882364d848201254de4d0ca07fbfe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:29 +0000
Subject: [PATCH 137/164] fix: Pad with negative pads crops

---
 onnx_tool/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index a074164..5bd2f50 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1689,7 +1689,9 @@ class PadNode(Node):
             value = intensors[2].get_numpy()
         mode = self.mode.decode("utf-8") if isinstance(self.mode, bytes) else self.mode
         kwargs = {'constant_values': value} if mode == 'constant' else {}
-        outtensor = numpy.pad(intensors[0].get_numpy(), pad_width=pad_width, mode=mode, **kwargs)
+        data = intensors[0].get_numpy()
+        data = data[tuple(slice(max(-b, 0), dim + min(e, 0)) for dim, (b, e) in zip(data.shape, pad_width.tolist()))]
+        outtensor = numpy.pad(data, pad_width=numpy.maximum(pad_width, 0), mode=mode, **kwargs)
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From a66524718c67a8ec26e3a9e4b270bb5a5955b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:29 +0000
Subject: [PATCH 138/164] fix: integer convolution and product are evaluated in
 int32, less their zero points

---
 onnx_tool/node.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 5bd2f50..38fef2b 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -82,6 +82,19 @@ def _begin_pads(xdims, kdims, outdims, auto_pad, pads, strides, dilations):
     return begins
 
 
+def _less_zero_point(intensors, i, zero, axis):
+    """an integer operand less its zero point, which is one number or one for each entry of `axis`"""
+    data = intensors[i].get_numpy().astype(numpy.int32)
+    if len(intensors) <= zero or intensors[zero].name == '':
+        return data
+    point = intensors[zero].get_numpy().astype(numpy.int32)
+    if point.ndim == 1 and data.ndim > 1:
+        shape = [1] * data.ndim
+        shape[axis] = -1
+        point = point.reshape(shape)
+    return data - point
+
+
 def _auto_pad_valid_shape_calc(x, ksize, stride):
     return math.ceil((x - ksize + 1) / stride)
 
@@ -2594,6 +2607,11 @@ class MatMulIntegerNode(GemmNode):
         super().shape_infer(intensors, outtensors)
         outtensors[0].update_dtype(numpy.int32)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        a = _less_zero_point(intensors, 0, 2, -2)
+        b = _less_zero_point(intensors, 1, 3, -1)
+        outtensors[0].update_tensor(numpy.matmul(a, b))
+
 
 @NODE_REGISTRY.register()
 class QLinearMatMulNode(GemmNode):
@@ -2608,6 +2626,9 @@ class QLinearMatMulNode(GemmNode):
         outtensors[0].update_shape(_matmul_shape(xshape, wshape))
         outtensors[0].update_dtype(intensors[-1].dtype)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        raise NotImplementedError()
+
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         macs = volume(outtensors[0].get_shape()) * xshape[-1]
@@ -2624,6 +2645,9 @@ class QLinearConvNode(ConvNode):
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[7].dtype)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        raise NotImplementedError()
+
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
         outshape = outtensors[0].get_shape()
@@ -2646,6 +2670,12 @@ class ConvIntegerNode(ConvNode):
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(numpy.int32)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        x, w = Tensor(intensors[0].name), Tensor(intensors[1].name)
+        x.update_tensor(_less_zero_point(intensors, 0, 2, 1))
+        w.update_tensor(_less_zero_point(intensors, 1, 3, 0))
+        super().value_infer([x, w], outtensors)
+
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
         outshape = outtensors[0].get_shape()
-- 
2.43.0


From d9a1e385aeac4491efe56e673e7178ba1394c284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:14 +0000
Subject: [PATCH 139/164] fix: an evaluated MaxPool gives its Indices

---
 onnx_tool/node.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 38fef2b..70f23b5 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1561,6 +1561,7 @@ class MaxPoolNode(PoolBase):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
         self.op_mac = CMP_MACS
+        self.add_default_value('storage_order', 0)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         super().shape_infer(intensors, outtensors)
@@ -1577,12 +1578,14 @@ class MaxPoolNode(PoolBase):
         outshape = outtensors[0].get_shape()
         pads = _begin_pads(xshape[2:], ks, outshape[2:], self.auto_pad, self.pads, self.strides, self.dilations)
         ot = numpy.zeros(outshape, dtype=intensors[0].dtype)
+        indices = numpy.zeros(outshape, dtype=numpy.int64)
         for i in numpy.ndindex(ot.shape):
             batch = i[0]
             ocn = i[1]
             oh = i[2]
             ow = i[3]
             t = None
+            taken, spots = [], []
             for j in numpy.ndindex(ks):
                 kh = j[0]
                 kw = j[1]
@@ -1593,9 +1596,15 @@ class MaxPoolNode(PoolBase):
                 else:
                     srcv = intensors[0].get_numpy()[batch, ocn, srch, srcw]
                 t = srcv if t is None else max(srcv, t)
+                taken.append(srcv)
+                spots.append(srcw * xshape[2] + srch if self.storage_order else srch * xshape[3] + srcw)
             if t is not None:
                 ot[i] = t
+                if len(outtensors) > 1:
+                    indices[i] = (batch * xshape[1] + ocn) * xshape[2] * xshape[3] + spots[numpy.argmax(taken)]
         outtensors[0].update_tensor(ot)
+        if len(outtensors) > 1:
+            outtensors[1].update_tensor(indices)
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 57d03e345d2b560993a08285cd784a69d89b74fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:15 +0000
Subject: [PATCH 140/164] fix: an evaluated Dropout gives its mask

---
 onnx_tool/node.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 70f23b5..4898f73 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1616,6 +1616,11 @@ class DropoutNode(FusedBase):
             outtensors[1].update_shape(intensors[0].get_shape())
             outtensors[1].update_dtype(numpy.bool_)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        super().value_infer(intensors, outtensors)
+        if len(outtensors) == 2:
+            outtensors[1].update_tensor(numpy.ones(intensors[0].get_shape(), dtype=numpy.bool_))
+
 
 @NODE_REGISTRY.register()
 class GlobalAveragePoolNode(Node):
-- 
2.43.0


From 386fabc8e9d0023ebd0955b588af8e2943199788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:28 +0000
Subject: [PATCH 141/164] fix: an evaluated BatchNormalization in training mode
 uses the statistics of its data

---
 onnx_tool/node.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4898f73..2b18f7d 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1757,6 +1757,12 @@ class BatchNormalizationNode(FusedBase):
         b = intensors[2].get_numpy()
         mean = intensors[3].get_numpy()
         var = intensors[4].get_numpy()
+        if self.training_mode:
+            seen = tuple(i for i in range(x.ndim) if i != 1)
+            running = mean * self.momentum, var * self.momentum
+            mean, var = numpy.mean(x, axis=seen), numpy.var(x, axis=seen)
+            for tensor, kept, now in zip(outtensors[1:], running, (mean, var)):
+                tensor.update_tensor((kept + now * (1 - self.momentum)).astype(kept.dtype))
         y = numpy.zeros_like(x)
         for i in numpy.ndindex(y.shape):
             cn = i[1]
-- 
2.43.0


From 88535fbf2bae70c32590fd37f91acee61fce35a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:28 +0000
Subject: [PATCH 142/164] fix: ArrayFeatureExtractor selects along the last
 axis

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 2b18f7d..028eb5c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1823,7 +1823,8 @@ class ArgMaxNode(Node):
 @NODE_REGISTRY.register()
 class ArrayFeatureExtractorNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        outtensors[0].update_shape(intensors[1].get_shape())
+        lead = intensors[0].get_shape()[:-1] or [1]
+        outtensors[0].update_shape(lead + [math.prod(intensors[1].get_shape())])
         outtensors[0].update_dtype(intensors[0].dtype)
 
 
-- 
2.43.0


From 4e18bb26a17981dc3d4cfb2fe1a3ca3885b232b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:28 +0000
Subject: [PATCH 143/164] fix: constant folding leaves the nodes that cannot be
 evaluated

---
 onnx_tool/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 1ffe724..6e1318c 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -312,7 +312,11 @@ class Graph():
                             if self.tensormap[input].numpy is None and input != '':
                                 warnings.warn(f'Tensor {input} has shape only, {name} may has wrong value infer result')
                         otensors = self.__output_tensors__(this_node)
-                        this_node.value_infer(itensors, otensors)
+                        try:
+                            this_node.value_infer(itensors, otensors)
+                        except NotImplementedError:
+                            this_node.constant = False
+                            continue
                         if len(otensors) > 0:
                             for i, output in enumerate(this_node.output):
                                 self.tensormap[output].type = STATIC_TENSOR
-- 
2.43.0


From ce160092a7deb4497bf20dc5cb39fd690cdf4f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:46 +0000
Subject: [PATCH 144/164] fix: profile counts the weights of covered operators
 only

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 6e1318c..9e86c3e 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1578,7 +1578,7 @@ class Graph():
         # Dedup params: sum each static tensor's volume only once
         self.dedup_params = 0
         for key in self.initials:
-            if key in self.consumedby and len(self.consumedby[key]) > 0:
+            if any(name in ops_to_cover for name in self.consumedby.get(key, [])):
                 self.dedup_params += volume(self.tensormap[key].get_shape())
 
         self.valid_profile = True
-- 
2.43.0


From 354d2af76e47d32d968f9804c424bff95ee5e80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:22 +0000
Subject: [PATCH 145/164] fix: Einsum refuses operands whose extents do not
 match

---
 onnx_tool/node.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 028eb5c..d137070 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1295,6 +1295,8 @@ class EinsumNode(Node):
             else:
                 non_ellipsis = label_str
 
+            if len(tshape) != len(non_ellipsis) or len(tensor.get_shape()) < len(non_ellipsis):
+                raise ValueError(f'Einsum operand {idx} of {self.equation} has the wrong number of dimensions')
             for i, ch in enumerate(non_ellipsis):
                 dim_val = tshape[i]
                 if ch not in label_to_dims:
@@ -1302,25 +1304,14 @@ class EinsumNode(Node):
                 label_to_dims[ch].append(dim_val)
 
         # Compute broadcast shape for ellipsis dimensions
-        ellipsis_shape = []
-        if ellipsis_dims_list:
-            max_ndim = max(len(d) for d in ellipsis_dims_list)
-            # Pad shorter ellipsis shapes with 1s on the left (broadcast semantics)
-            padded_shapes = []
-            for d in ellipsis_dims_list:
-                if len(d) < max_ndim:
-                    padded_shapes.append([1] * (max_ndim - len(d)) + list(d))
-                else:
-                    padded_shapes.append(list(d))
-            for dims in zip(*padded_shapes):
-                ellipsis_shape.append(max(dims))
+        ellipsis_shape = _broadcast_shape(ellipsis_dims_list)
+        label_to_dims = {ch: _broadcast_shape([[d] for d in dims]) for ch, dims in label_to_dims.items()}
 
-        # For each output label, take the max across all inputs (broadcast)
         for ch in self.output_label_str.replace('...', '.'):
             if ch == '.':
                 shape.extend(ellipsis_shape)
             elif ch in label_to_dims:
-                shape.append(max(label_to_dims[ch]))
+                shape.extend(label_to_dims[ch])
             else:
                 # Label not found in any input (shouldn't happen in valid equations)
                 shape.append(1)
@@ -1341,9 +1332,9 @@ class EinsumNode(Node):
             for ch in label:
                 keys.extend(ell if ch == '.' else [ch])
             for key, v in zip(keys, shape):
-                map[key] = max(v, map.get(key, 1))
+                map.setdefault(key, []).append([v])
         for key in map.keys():
-            macs *= map[key]
+            macs *= _broadcast_shape(map[key])[0]
         return macs
 
 
-- 
2.43.0


From 1e06bb0b0496feebdbbc3d62394c1d29e7208c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:52 +0000
Subject: [PATCH 146/164] fix: inference engine transposes only MatMul weights
 read from safetensors

---
 inference/infer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inference/infer.py b/inference/infer.py
index 3667ca0..0b418de 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -641,6 +641,8 @@ class GraphInfer:
                     st_name = self.weight_map[tname]
                     t = safetensors_data[st_name].to(device=self.device, dtype=self.dtype)
 
+            from_safetensors = t is not None
+
             # 2. fallback: 从 ONNX 内嵌数据加载
             if t is None and tensor_obj.numpy is not None:
                 t = torch.from_numpy(tensor_obj.numpy.astype(
@@ -649,8 +651,10 @@ class GraphInfer:
 
             if t is not None:
                 # safetensors 的 2D weight 为 [N, K]，MatMul 的 weight 转置为 [K, N]
+                # （ONNX 内嵌的 weight 已经是 [K, N]，不转置）
                 op_type = const_consumer.get(tname, ('', {}))[0] if tname in const_consumer else ''
-                t = self._transpose_safetensors_tensor(t, op_type)
+                if from_safetensors:
+                    t = self._transpose_safetensors_tensor(t, op_type)
 
                 # 如果该 constant 有消费者 kernel 且实现了 preprocess_weight，则调用
                 if tname in const_consumer:
-- 
2.43.0


From cd621837b5381d1ea1d7b3adef55e83cfaced69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:06 +0000
Subject: [PATCH 147/164] fix: inference engine takes each size from the input
 that has it

---
 inference/infer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index 0b418de..15ba0a3 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -246,8 +246,7 @@ class GraphInfer:
             当 profile=True 时，outputs 额外包含 '__profile__' key
         """
         # 根据输入 tensor 的实际形状更新 shape_engine 变量
-        first_input = next(iter(inputs.values()))
-        shape_changed = self._update_shape_from_input(first_input)
+        shape_changed = self._update_shape_from_input(inputs)
 
         # 批量刷新所有 tensor 的 shape 缓存（仅当 shape 实际变化时）
         if shape_changed or not self._tensor_shape_cache:
@@ -709,8 +708,8 @@ class GraphInfer:
         """将 self.dtype (torch.dtype) 转为对应的 numpy dtype"""
         return np.dtype(self._get_torch_dtype_name(self.dtype))
 
-    def _update_shape_from_input(self, input_tensor: torch.Tensor) -> bool:
-        """根据实际输入 tensor 的形状，更新 shape_engine 中的变量。
+    def _update_shape_from_input(self, inputs: Dict[str, torch.Tensor]) -> bool:
+        """根据每个实际输入 tensor 的形状，更新 shape_engine 中的变量。
 
         Returns:
             True 如果 shape 变量发生了实际变化，False 如果与上次相同。
@@ -719,7 +718,8 @@ class GraphInfer:
             self._last_var_values = {}
         changed = False
         for input_name, desc in self.input_desc.items():
-            if len(desc) == len(input_tensor.shape):
+            input_tensor = inputs.get(input_name)
+            if input_tensor is not None and len(desc) == len(input_tensor.shape):
                 for i, dim_var in enumerate(desc):
                     if isinstance(dim_var, str) and dim_var in self.input_range:
                         actual_val = int(input_tensor.shape[i])
-- 
2.43.0


From 0e557d74fe7d0f5e3590db65f61d5b0bc894ed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:21 +0000
Subject: [PATCH 148/164] fix: Conv and pooling kernels read pads as begins
 then ends

---
 inference/kernels.py | 46 ++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 7a56599..a781035 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -102,6 +102,19 @@ def _to_2d_padding(pads: tuple, auto_pad=None) -> int:
     return 0
 
 
+def _apply_pads(x: torch.Tensor, pads: tuple, value: float = 0.0):
+    """ONNX pads [h_begin, w_begin, h_end, w_end]：对称部分交给算子，非对称时先用 F.pad 填充。
+
+    Returns:
+        (x, (pad_h, pad_w))
+    """
+    if len(pads) != 4:
+        return x, (0, 0)
+    if pads[0] == pads[2] and pads[1] == pads[3]:
+        return x, (pads[0], pads[1])
+    return F.pad(x, (pads[1], pads[3], pads[0], pads[2]), value=value), (0, 0)
+
+
 # ===========================================================================
 # 注册算子内核
 # ===========================================================================
@@ -123,16 +136,14 @@ class ConvKernel(Kernel):
 
         # ONNX pads 格式: [x1_begin, x2_begin, x1_end, x2_end]
         if len(pads) == 2:
-            pad_h, pad_w = pads[0], pads[1]
-        elif len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
+            padding = (pads[0], pads[1])
         else:
-            pad_h, pad_w = 0, 0
+            x, padding = _apply_pads(x, pads)
 
         result = F.conv2d(
             x, w, bias=bias,
             stride=strides,
-            padding=(pad_h, pad_w),
+            padding=padding,
             dilation=dilations,
             groups=group,
         )
@@ -352,14 +363,15 @@ class AveragePoolKernel(Kernel):
         strides = attrs.get('strides', (1, 1))
         pads = attrs.get('pads', (0, 0, 0, 0))
 
-        if len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
-        else:
-            pad_h, pad_w = 0, 0
-
-        outputs[0].copy_(
-            F.avg_pool2d(x, kernel_shape, stride=strides, padding=(pad_h, pad_w))
-        )
+        count_include_pad = bool(attrs.get('count_include_pad', 0))
+        padded, padding = _apply_pads(x, pads)
+        result = F.avg_pool2d(padded, kernel_shape, stride=strides, padding=padding,
+                              count_include_pad=count_include_pad)
+        if padded is not x and not count_include_pad:
+            # 非对称 pads 由 F.pad 填充：除以窗口内有效元素的比例
+            valid, _ = _apply_pads(torch.ones_like(x), pads)
+            result = result / F.avg_pool2d(valid, kernel_shape, stride=strides)
+        outputs[0].copy_(result)
 
 
 @KernelRegistry.register("MaxPool")
@@ -373,13 +385,9 @@ class MaxPoolKernel(Kernel):
         strides = attrs.get('strides', (1, 1))
         pads = attrs.get('pads', (0, 0, 0, 0))
 
-        if len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
-        else:
-            pad_h, pad_w = 0, 0
-
+        x, padding = _apply_pads(x, pads, value=float('-inf'))
         outputs[0].copy_(
-            F.max_pool2d(x, kernel_shape, stride=strides, padding=(pad_h, pad_w))
+            F.max_pool2d(x, kernel_shape, stride=strides, padding=padding)
         )
 
 
-- 
2.43.0


From cb1c16be12a32422225e7da75bf4733f026d3062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:21 +0000
Subject: [PATCH 149/164] fix: Gather kernels take negative and
 multi-dimensional indices

---
 inference/kernels.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index a781035..48be7a8 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -502,18 +502,16 @@ class GatherKernel(Kernel):
         axis = attrs.get('axis', 0)
         data = inputs[0]
         indices = inputs[1].long()
+        if axis < 0:
+            axis += data.dim()
         # ONNX Gather: data[indices, ...] 沿 axis 维收集
-        # 使用 torch.index_select 更高效且语义正确
-        if indices.dim() > 1:
-            # 多维 indices: 需要先展平再 reshape
-            flat_idx = indices.reshape(-1)
-            result = torch.index_select(data, axis, flat_idx)
-            # 恢复 indices 的维度
-            out_shape = list(data.shape)
-            out_shape[axis] = indices.numel()
-            outputs[0].copy_(result.reshape(out_shape))
-        else:
-            outputs[0].copy_(torch.index_select(data, axis, indices))
+        # 使用 torch.index_select 更高效且语义正确；indices 先展平再 reshape，负索引从末尾算起
+        flat_idx = indices.reshape(-1)
+        flat_idx = torch.where(flat_idx < 0, flat_idx + data.shape[axis], flat_idx)
+        result = torch.index_select(data, axis, flat_idx)
+        # 恢复 indices 的维度
+        out_shape = list(data.shape[:axis]) + list(indices.shape) + list(data.shape[axis + 1:])
+        outputs[0].copy_(result.reshape(out_shape))
 
 
 @KernelRegistry.register("Cast")
@@ -1091,6 +1089,7 @@ class GatherElementsKernel(Kernel):
         axis = attrs.get('axis', 0)
         data = inputs[0]
         indices = inputs[1].long()
+        indices = torch.where(indices < 0, indices + data.shape[axis], indices)
         outputs[0].copy_(torch.gather(data, axis, indices))
 
 
-- 
2.43.0


From a89aa5fe9d155812e38a42155d0e5c516e760636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:21 +0000
Subject: [PATCH 150/164] fix: Gemm kernel transposes its own B and nothing
 else

---
 inference/kernels.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 48be7a8..8d91750 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -298,9 +298,8 @@ class GemmKernel(Kernel):
 
         if transA:
             A = A.T
-        # B 已在 preprocess_weight 中预转置，无需再次转置
-        # if transB:
-        #     B = B.T
+        if transB:
+            B = B.T
 
         torch.mm(A, B, out=outputs[0])
         if alpha != 1.0:
@@ -308,14 +307,6 @@ class GemmKernel(Kernel):
         if C is not None:
             outputs[0].add_(beta * C)
 
-    @staticmethod
-    def preprocess_weight(src_name: str, tensor: torch.Tensor, attrs: Dict) -> torch.Tensor:
-        """Gemm weight 前处理：如果 transB=1，预转置 weight 矩阵。"""
-        transB = attrs.get('transB', 0)
-        if transB:
-            tensor = tensor.T.contiguous()
-        return tensor
-
 
 @KernelRegistry.register("MatMul")
 class MatMulKernel(Kernel):
-- 
2.43.0


From 63b563aa3c22d794e959ff35ab6a0b798f875d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:22 +0000
Subject: [PATCH 151/164] fix: Pad kernel pads the dimensions it is told to

---
 inference/kernels.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 8d91750..f5c199f 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -702,22 +702,31 @@ class PadKernel(Kernel):
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
-        pads = inputs[1].cpu().tolist() if len(inputs) > 1 else attrs.get('pads', [0, 0, 0, 0])
+        pads = [int(v) for v in inputs[1].cpu().tolist()] if len(inputs) > 1 else attrs.get('pads', [0, 0, 0, 0])
         mode = attrs.get('mode', 'constant')
-        value = inputs[2].item() if len(inputs) > 2 else attrs.get('value', 0.0)
+        if isinstance(mode, bytes):
+            mode = mode.decode()
+        value = inputs[2].item() if len(inputs) > 2 and inputs[2] is not None else attrs.get('value', 0.0)
 
         # ONNX pads: [x1_begin, x2_begin, ..., x1_end, x2_end, ...]
-        # F.pad: (x1_begin, x1_end, x2_begin, x2_end, ...)
+        # F.pad: 从最后一个维度开始 (xn_begin, xn_end, ..., x1_begin, x1_end)
         ndim = len(pads) // 2
         pad_tuple = []
-        for i in range(ndim):
+        for i in reversed(range(ndim)):
             pad_tuple.append(pads[i])           # begin
             pad_tuple.append(pads[i + ndim])     # end
-        # F.pad 格式从最后一个维度开始
-        pad_tuple = tuple(pad_tuple[::-1])
 
         torch_mode = {'constant': 'constant', 'reflect': 'reflect', 'edge': 'replicate'}.get(mode, 'constant')
-        outputs[0].copy_(F.pad(x, pad_tuple, mode=torch_mode, value=value))
+        if torch_mode == 'constant':
+            outputs[0].copy_(F.pad(x, tuple(pad_tuple), value=value))
+        else:
+            # 非 constant 模式的 F.pad 不接受外层维度：去掉外层的零填充
+            while len(pad_tuple) > 2 and pad_tuple[-2:] == [0, 0]:
+                pad_tuple = pad_tuple[:-2]
+            keep = len(pad_tuple) // 2
+            lead = x.shape[:x.dim() - keep]
+            y = F.pad(x.reshape([1, -1] + list(x.shape[x.dim() - keep:])), tuple(pad_tuple), mode=torch_mode)
+            outputs[0].copy_(y.reshape(list(lead) + list(y.shape[2:])))
 
 
 @KernelRegistry.register("Resize")
-- 
2.43.0


From 3665616f13b3d1d6d250e90d7cd292e176f98652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:22 +0000
Subject: [PATCH 152/164] fix: ReduceMean and ReduceSum kernels reduce every
 axis without axes

---
 inference/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index f5c199f..e437baf 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -641,7 +641,7 @@ class ReduceMeanKernel(Kernel):
         if axes is not None:
             outputs[0].copy_(inputs[0].mean(dim=tuple(axes), keepdim=bool(keepdims)))
         else:
-            outputs[0].copy_(inputs[0].mean(keepdim=bool(keepdims)))
+            outputs[0].copy_(inputs[0].mean(dim=tuple(range(inputs[0].dim())), keepdim=bool(keepdims)))
 
 
 @KernelRegistry.register("ReduceSum")
@@ -659,7 +659,7 @@ class ReduceSumKernel(Kernel):
         if axes is not None:
             outputs[0].copy_(inputs[0].sum(dim=tuple(axes), keepdim=bool(keepdims)))
         else:
-            outputs[0].copy_(inputs[0].sum(keepdim=bool(keepdims)))
+            outputs[0].copy_(inputs[0].sum(dim=tuple(range(inputs[0].dim())), keepdim=bool(keepdims)))
 
 
 @KernelRegistry.register("Identity")
-- 
2.43.0


From 16924b2f682dcdffbaee087e35929429d2fe7f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:22 +0000
Subject: [PATCH 153/164] fix: Expand and Resize kernels take sizes from float
 constants

---
 inference/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index e437baf..7661ad4 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -535,7 +535,7 @@ class ExpandKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        shape = inputs[1].cpu().tolist()
+        shape = [int(v) for v in inputs[1].cpu().tolist()]
         outputs[0].copy_(inputs[0].expand(shape))
 
 
@@ -738,7 +738,7 @@ class ResizeKernel(Kernel):
         x = inputs[0]
         # inputs[1] = roi (optional), inputs[2] = scales (optional), inputs[3] = sizes
         if len(inputs) > 3 and inputs[3] is not None:
-            sizes = inputs[3].cpu().tolist()
+            sizes = [int(v) for v in inputs[3].cpu().tolist()]
             # sizes 是 [N, C, H, W] 格式
             mode = attrs.get('mode', 'nearest').decode() if isinstance(attrs.get('mode', ''), bytes) else attrs.get('mode', 'nearest')
             align_corners = attrs.get('coordinate_transformation_mode', 'half_pixel') == 'align_corners'
-- 
2.43.0


From 9ea168ca233933612af8ff70cfdcecb4932c57d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:22 +0000
Subject: [PATCH 154/164] fix: Squeeze takes its axes input, Unsqueeze its
 negative axes

---
 inference/kernels.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 7661ad4..15c759b 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -446,7 +446,11 @@ class SqueezeKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        axes = attrs.get('axes', None)
+        # axes 来源: inputs[1] (ONNX 13+) 或 attrs['axes'] (ONNX 11-)
+        if len(inputs) > 1 and inputs[1] is not None:
+            axes = [int(x) for x in inputs[1].cpu().tolist()]
+        else:
+            axes = attrs.get('axes', None)
         if axes is not None:
             outputs[0].copy_(inputs[0].squeeze(dim=tuple(axes)))
         else:
@@ -467,7 +471,8 @@ class UnsqueezeKernel(Kernel):
 
         if axes is not None:
             t = inputs[0]
-            for ax in sorted(axes):
+            rank = t.dim() + len(axes)
+            for ax in sorted(ax + rank if ax < 0 else ax for ax in axes):
                 t = t.unsqueeze(ax)
             outputs[0].copy_(t)
         else:
-- 
2.43.0


From 9606604021b588f71af6f7a5640490fd32024f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:22 +0000
Subject: [PATCH 155/164] fix: SDPA kernel reads and writes the KV cache for 4D
 inputs

---
 inference/kernels.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 15c759b..5f27a3e 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -922,7 +922,7 @@ class SDPAKernel(Kernel):
             kv_hidden_size = k.shape[-1]  # 保存原始 K 的最后一维
         else:
             head_dim = q.shape[-1]
-            kv_hidden_size = k.shape[-1] * k.shape[-2] if k.dim() == 4 else k.shape[-1]
+            kv_hidden_size = k.shape[1] * k.shape[-1] if k.dim() == 4 else k.shape[-1]
 
         # 统一转为 4D [B, N, S, head_dim]
         if q.dim() == 3:
@@ -955,13 +955,15 @@ class SDPAKernel(Kernel):
             cache_k = cache_k.reshape(B, n_past, kv_head_num, head_dim).transpose(1, 2)
             cache_v = cache_v.reshape(B, n_past, kv_head_num, head_dim).transpose(1, 2)
 
+            # 当前 K/V 展平为 [B, S, kv_hidden_size]
+            curr_k_flat = k.transpose(1, 2).reshape(B, S, -1)
+            curr_v_flat = v.transpose(1, 2).reshape(B, S, -1)
+
             # 拼接历史和当前
             k = torch.cat([cache_k, k], dim=2)  # [B, kv_head_num, n_past+S, head_dim]
             v = torch.cat([cache_v, v], dim=2)
 
             # 把当前 K/V 写回 kv_cache（只写 kv_hidden_size 个元素）
-            curr_k_flat = inputs[1].reshape(B, S, -1)  # [B, S, kv_hidden_size]
-            curr_v_flat = inputs[2].reshape(B, S, -1)  # [B, S, kv_hidden_size]
             kv_cache[:, layer_i * 2, n_past:n_past + S, :kv_hidden_size] = curr_k_flat
             kv_cache[:, layer_i * 2 + 1, n_past:n_past + S, :kv_hidden_size] = curr_v_flat
 
-- 
2.43.0


From 297cc45b8676807daf3cec24e85838bc1f11cbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:37 +0000
Subject: [PATCH 156/164] fix: generation feeds the model its inputs and not
 its weights

---
 inference/llm_infer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inference/llm_infer.py b/inference/llm_infer.py
index 13f71cf..3fec652 100644
--- a/inference/llm_infer.py
+++ b/inference/llm_infer.py
@@ -174,6 +174,10 @@ class LLMInfer:
                                 input_range[var_name] = (1, max_seq_len)
                     input_desc[name] = tuple(desc)
 
+        # Builder 导出的 ONNX 中 weight 也在 graph input 中，只喂动态输入
+        if 'ids' in input_desc:
+            self.input_names = list(input_desc)
+
         # 对于 KV-cache 模型，确保 kv_cache 的 shape 使用正确的固定值
         # （避免 shape_regress 错误推导 kv_cache 的维度）
         if self.has_kv_cache and 'kv_cache' in input_desc:
-- 
2.43.0


From ab7be0ece91a75671e041e64eccc66ab73ba324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:37 +0000
Subject: [PATCH 157/164] fix: generation ends at max_length tokens

---
 inference/llm_infer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference/llm_infer.py b/inference/llm_infer.py
index 3fec652..29395a8 100644
--- a/inference/llm_infer.py
+++ b/inference/llm_infer.py
@@ -301,7 +301,7 @@ class LLMInfer:
         if verbose:
             print("Warmup done.\n")
 
-        for step in range(max_length - prompt_len + 1):
+        for step in range(max_length - prompt_len):
             if step == 0:
                 # Prefill: 输入所有 prompt tokens
                 step_input = torch.tensor([input_ids], device=device, dtype=torch.int64)
@@ -396,7 +396,7 @@ class LLMInfer:
         total_time = (time.perf_counter() - t_start) * 1000
         generated_text = self.tokenizer.decode(generated, skip_special_tokens=True)
 
-        if verbose:
+        if verbose and total_tokens:
             print(f"\n{total_tokens} tokens in {total_time:.1f}ms "
                   f"({total_time/total_tokens:.1f}ms/token)")
 
-- 
2.43.0


From 02e976148ce6ccd08f456a5692bea2753e7d3c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:47 +0000
Subject: [PATCH 158/164] fix: recognise the rms norm type of a loaded model,
 which arrives as bytes

---
 inference/kernels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inference/kernels.py b/inference/kernels.py
index 5f27a3e..f9f6b2b 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -860,6 +860,8 @@ class LayerNormKernel(Kernel):
         bias = inputs[2] if len(inputs) > 2 else None
         eps = attrs.get('epsilon', 1e-5)
         norm_type = attrs.get('type', 'layer')
+        if isinstance(norm_type, bytes):
+            norm_type = norm_type.decode()
 
         # 检测 per-head norm：weight 维度小于 x 最后一维
         head_dim = weight.shape[-1]
-- 
2.43.0


From c9e5a29a5c89b574e3da9f312e62e138852daada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:56 +0000
Subject: [PATCH 159/164] fix: linear Resize honours align_corners given as
 bytes or together with scales

---
 inference/kernels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index f9f6b2b..b468fb9 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -746,7 +746,7 @@ class ResizeKernel(Kernel):
             sizes = [int(v) for v in inputs[3].cpu().tolist()]
             # sizes 是 [N, C, H, W] 格式
             mode = attrs.get('mode', 'nearest').decode() if isinstance(attrs.get('mode', ''), bytes) else attrs.get('mode', 'nearest')
-            align_corners = attrs.get('coordinate_transformation_mode', 'half_pixel') == 'align_corners'
+            align_corners = attrs.get('coordinate_transformation_mode', 'half_pixel') in ('align_corners', b'align_corners')
             torch_mode = {'nearest': 'nearest', 'linear': 'bilinear', 'cubic': 'bicubic'}.get(mode, 'nearest')
             result = F.interpolate(x, size=sizes[2:], mode=torch_mode, align_corners=align_corners if torch_mode != 'nearest' else None)
             outputs[0].copy_(result)
@@ -755,7 +755,8 @@ class ResizeKernel(Kernel):
             sizes = [int(x.shape[i] * scales[i]) for i in range(len(scales))]
             mode = attrs.get('mode', 'nearest').decode() if isinstance(attrs.get('mode', ''), bytes) else attrs.get('mode', 'nearest')
             torch_mode = {'nearest': 'nearest', 'linear': 'bilinear', 'cubic': 'bicubic'}.get(mode, 'nearest')
-            result = F.interpolate(x, size=sizes[2:], mode=torch_mode)
+            align_corners = attrs.get('coordinate_transformation_mode', 'half_pixel') in ('align_corners', b'align_corners')
+            result = F.interpolate(x, size=sizes[2:], mode=torch_mode, align_corners=align_corners if torch_mode != 'nearest' else None)
             outputs[0].copy_(result)
 
 
-- 
2.43.0


From d939a714308ec1c81f312a615c9c616a849a3a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:34 +0000
Subject: [PATCH 160/164] fix: 101-point average precision samples the recall
 it reaches, so a perfect detector scores 1

---
 inference/yolo_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index 6010959..b88bb28 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -323,7 +323,7 @@ def _compute_ap(recalls: np.ndarray, precisions: np.ndarray) -> float:
     # 在 101 个 recall 点采样
     ap = 0.0
     for t in np.linspace(0, 1, 101):
-        idx = np.searchsorted(recalls, t, side='right')
+        idx = np.searchsorted(recalls, t, side='left')
         if idx < len(precisions):
             ap += precisions[idx]
     return ap / 101.0
-- 
2.43.0


From 99430fc8ed9f7bcc5f06a374eccde28a7f0f158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:34 +0000
Subject: [PATCH 161/164] fix: COCO metrics compare class indices with category
 ids by the position of the category

---
 inference/yolo_eval.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index b88bb28..9e9f098 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -210,9 +210,13 @@ def compute_coco_metrics(
         iou_thresholds = np.linspace(0.5, 0.95, 10).tolist()
 
     # 构建 GT 索引: image_id -> [annotations]
+    # COCO 类别 id 不连续 (1..90)，模型输出的是按 id 排序后的类别序号
+    cat_index = {cat_id: i for i, cat_id in enumerate(
+        sorted(cat['id'] for cat in gt_annotations.get('categories', [])))}
     gt_by_image = defaultdict(list)
     for ann in gt_annotations['annotations']:
-        gt_by_image[ann['image_id']].append(ann)
+        cat_id = ann['category_id']
+        gt_by_image[ann['image_id']].append({**ann, 'category_id': cat_index.get(cat_id, cat_id)})
 
     # 按类别组织预测
     preds_by_class = defaultdict(list)  # class_id -> [(image_id, score, box, matched)]
-- 
2.43.0


From f06b9d44a647e00853bc5d9c346cf37749c7b3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:34 +0000
Subject: [PATCH 162/164] fix: COCO metrics count the ground truth of evaluated
 images only

---
 inference/yolo_eval.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index 9e9f098..1165983 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -214,7 +214,10 @@ def compute_coco_metrics(
     cat_index = {cat_id: i for i, cat_id in enumerate(
         sorted(cat['id'] for cat in gt_annotations.get('categories', [])))}
     gt_by_image = defaultdict(list)
+    evaluated = {det['image_id'] for det in all_dets}  # 未评估的图片（max_images / 缺失文件）不计入 GT
     for ann in gt_annotations['annotations']:
+        if ann['image_id'] not in evaluated:
+            continue
         cat_id = ann['category_id']
         gt_by_image[ann['image_id']].append({**ann, 'category_id': cat_index.get(cat_id, cat_id)})
 
-- 
2.43.0


From 8a3914d9f45beb5faeb766ab41fcdf47f48d5cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:34 +0000
Subject: [PATCH 163/164] fix: YOLO evaluation compares boxes in the
 coordinates of the original image

---
 inference/yolo_eval.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index 1165983..8afd931 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -580,6 +580,12 @@ def load_image(image_path: str, target_size: Tuple[int, int] = (640, 640)) -> Tu
         return img[np.newaxis, ...], letterbox_info
 
 
+def unletterbox(boxes: np.ndarray, lb_info: Tuple[float, float, float]) -> np.ndarray:
+    """将 xyxy 框从 letterbox 坐标逆映射回原始图像坐标"""
+    pad_left, pad_top, scale = lb_info
+    return (boxes - np.array([pad_left, pad_top, pad_left, pad_top])) / scale
+
+
 # ===========================================================================
 # 主评估流程
 # ===========================================================================
@@ -705,7 +711,7 @@ class YOLOEvaluator:
 
             all_dets.append({
                 'image_id': image_id,
-                'boxes': dets[:, 1:5] if len(dets) > 0 else np.zeros((0, 4)),
+                'boxes': unletterbox(dets[:, 1:5], lb_info) if len(dets) > 0 else np.zeros((0, 4)),
                 'scores': dets[:, 6] if len(dets) > 0 else np.zeros(0),
                 'labels': dets[:, 5] if len(dets) > 0 else np.zeros(0),
             })
@@ -789,7 +795,7 @@ class YOLOEvaluator:
             all_dets.append({
                 'image_id': idx,
                 'file_name': file_name,
-                'boxes': dets[:, 1:5] if len(dets) > 0 else np.zeros((0, 4)),
+                'boxes': unletterbox(dets[:, 1:5], lb_info) if len(dets) > 0 else np.zeros((0, 4)),
                 'scores': dets[:, 6] if len(dets) > 0 else np.zeros(0),
                 'labels': dets[:, 5] if len(dets) > 0 else np.zeros(0),
             })
@@ -918,7 +924,7 @@ def export_pr_curve(
         image_path = os.path.join(image_dir, file_name)
         if not os.path.isfile(image_path):
             continue
-        img, _ = load_image(image_path, evaluator.input_size)
+        img, lb_info = load_image(image_path, evaluator.input_size)
         output = evaluator.infer_single(img)
 
         if output.ndim == 3:
@@ -927,7 +933,7 @@ def export_pr_curve(
         for det in output:
             all_preds.append({
                 'image_id': img_info['id'],
-                'box': det[:4].tolist(),
+                'box': unletterbox(det[:4], lb_info).tolist(),
                 'score': float(det[4]),
                 'cls': int(det[5]),
             })
-- 
2.43.0


From 2383f982e0a05b306f54dfc261b5633189c210ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:34 +0000
Subject: [PATCH 164/164] fix: evaluating a directory matches each image with
 its annotations by file name

---
 inference/yolo_eval.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index 8afd931..dea452f 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -773,6 +773,10 @@ class YOLOEvaluator:
         if max_images > 0:
             image_files = image_files[:max_images]
 
+        image_ids = {}
+        if anno_file and os.path.isfile(anno_file):
+            image_ids = {img['file_name']: img['id'] for img in load_coco_annotations(anno_file).get('images', [])}
+
         all_dets = []
         total_time = 0.0
 
@@ -780,6 +784,7 @@ class YOLOEvaluator:
 
         for idx, file_name in enumerate(image_files):
             image_path = os.path.join(image_dir, file_name)
+            image_id = image_ids.get(file_name, file_name) if image_ids else idx
             img, lb_info = load_image(image_path, self.input_size)
             t0 = time.time()
             output = self.infer_single(img)
@@ -793,7 +798,7 @@ class YOLOEvaluator:
             )[0]
 
             all_dets.append({
-                'image_id': idx,
+                'image_id': image_id,
                 'file_name': file_name,
                 'boxes': unletterbox(dets[:, 1:5], lb_info) if len(dets) > 0 else np.zeros((0, 4)),
                 'scores': dets[:, 6] if len(dets) > 0 else np.zeros(0),
@@ -809,7 +814,7 @@ class YOLOEvaluator:
                     image_path, dets, save_dir, file_name,
                     lb_info=lb_info,
                     gt_annotations=gt,
-                    image_id=idx,
+                    image_id=image_id,
                 )
 
             if (idx + 1) % 10 == 0 or idx == len(image_files) - 1:
-- 
2.43.0

