From eacf7bb33286e06fdb5fb4eb5607d34e95477077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:56 +0000
Subject: [PATCH 01/50] fix: LSTM gradients ignored the carried-over context

The recurrent and peephole gradients of the first time step used the
deltas (dy[-1], dCa[-1], always zero) instead of the context values
(y[-1], Ca[-1]), and the forget-gate peephole used the input gate's
deltas.
---
 brainstorm/layers/clockwork_lstm_layer.py | 12 ++++++------
 brainstorm/layers/lstm_layer.py           | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/brainstorm/layers/clockwork_lstm_layer.py b/brainstorm/layers/clockwork_lstm_layer.py
index 37819c8..d40da00 100644
--- a/brainstorm/layers/clockwork_lstm_layer.py
+++ b/brainstorm/layers/clockwork_lstm_layer.py
@@ -303,10 +303,10 @@ class ClockworkLstmLayerImpl(Layer):
         _h.dot_add_mm(flat_dOa, flat_outputs, dRo, transa=True)
         _h.dot_add_mm(flat_dZa, flat_outputs, dRz, transa=True)
 
-        _h.dot_add_mm(dIa[0], dy[-1], dRi, transa=True)
-        _h.dot_add_mm(dFa[0], dy[-1], dRf, transa=True)
-        _h.dot_add_mm(dOa[0], dy[-1], dRo, transa=True)
-        _h.dot_add_mm(dZa[0], dy[-1], dRz, transa=True)
+        _h.dot_add_mm(dIa[0], y[-1], dRi, transa=True)
+        _h.dot_add_mm(dFa[0], y[-1], dRf, transa=True)
+        _h.dot_add_mm(dOa[0], y[-1], dRo, transa=True)
+        _h.dot_add_mm(dZa[0], y[-1], dRz, transa=True)
 
         # Other Peephole connections
         dWcif_tmp = _h.allocate(flat_cell.shape)
@@ -318,9 +318,9 @@ class ClockworkLstmLayerImpl(Layer):
         _h.add_tt(dpf, dWc_tmp, dpf)
 
         dWcif_tmp = _h.allocate(dIa[0].shape)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dIa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpi, dWc_tmp, dpi)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dFa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpf, dWc_tmp, dpf)
diff --git a/brainstorm/layers/lstm_layer.py b/brainstorm/layers/lstm_layer.py
index 8433706..972903c 100644
--- a/brainstorm/layers/lstm_layer.py
+++ b/brainstorm/layers/lstm_layer.py
@@ -255,10 +255,10 @@ class LstmLayerImpl(Layer):
         _h.dot_add_mm(flat_dOa, flat_outputs, dRo, transa=True)
         _h.dot_add_mm(flat_dZa, flat_outputs, dRz, transa=True)
 
-        _h.dot_add_mm(dIa[0], dy[-1], dRi, transa=True)
-        _h.dot_add_mm(dFa[0], dy[-1], dRf, transa=True)
-        _h.dot_add_mm(dOa[0], dy[-1], dRo, transa=True)
-        _h.dot_add_mm(dZa[0], dy[-1], dRz, transa=True)
+        _h.dot_add_mm(dIa[0], y[-1], dRi, transa=True)
+        _h.dot_add_mm(dFa[0], y[-1], dRf, transa=True)
+        _h.dot_add_mm(dOa[0], y[-1], dRo, transa=True)
+        _h.dot_add_mm(dZa[0], y[-1], dRz, transa=True)
 
         # Other Peephole connections
         dWcif_tmp = _h.allocate(flat_cell.shape)
@@ -270,9 +270,9 @@ class LstmLayerImpl(Layer):
         _h.add_tt(dpf, dWc_tmp, dpf)
 
         dWcif_tmp = _h.allocate(dIa[0].shape)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dIa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpi, dWc_tmp, dpi)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dFa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpf, dWc_tmp, dpf)
-- 
2.43.0


From e8aba85f50b0f8861c972bae6b11c7f8d966181b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:56 +0000
Subject: [PATCH 02/50] fix: Dropout backward pass ignored the 1/(1 -
 drop_prob) scaling

The forward pass scales the kept units by 1/(1 - drop_prob), so the
deltas passed to the inputs have to be scaled by the same factor.
---
 brainstorm/layers/dropout_layer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/brainstorm/layers/dropout_layer.py b/brainstorm/layers/dropout_layer.py
index 88c0116..c678c9b 100644
--- a/brainstorm/layers/dropout_layer.py
+++ b/brainstorm/layers/dropout_layer.py
@@ -47,6 +47,9 @@ class DropoutLayerImpl(Layer):
             _h.copy_to(buffers.inputs.default, buffers.outputs.default)
 
     def backward_pass(self, buffers):
-        self.handler.mult_add_tt(buffers.output_deltas.default,
-                                 buffers.internals.mask,
-                                 buffers.input_deltas.default)
+        _h = self.handler
+        tmp = _h.allocate(buffers.input_deltas.default.shape)
+        _h.mult_tt(buffers.output_deltas.default, buffers.internals.mask,
+                   out=tmp)
+        _h.mult_add_st(1 / (1 - self.drop_prob), tmp,
+                       out=buffers.input_deltas.default)
-- 
2.43.0


From 94d53753cb58e9149ee155e2a8eb40344a45d2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:56 +0000
Subject: [PATCH 03/50] fix: FullyConnected and Convolution2D overwrote
 parameter gradients

Gradients flowing back into the parameters from other layers (through
an outgoing '..parameters.W' connection) were lost because these two
layers assigned their gradients instead of accumulating them.
---
 brainstorm/layers/convolution_layer_2d.py  | 7 ++++++-
 brainstorm/layers/fully_connected_layer.py | 6 ++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/brainstorm/layers/convolution_layer_2d.py b/brainstorm/layers/convolution_layer_2d.py
index 533ef90..724c866 100644
--- a/brainstorm/layers/convolution_layer_2d.py
+++ b/brainstorm/layers/convolution_layer_2d.py
@@ -108,5 +108,10 @@ class Convolution2DLayerImpl(Layer):
 
         # calculate in_deltas and gradients
         _h.inplace_act_func_deriv[self.activation](outputs, out_deltas)
+        dW_tmp = _h.allocate(dW.shape)
+        dbias_tmp = _h.allocate(dbias.shape)
         _h.conv2d_backward_batch(flat_inputs, W, self.padding, self.stride,
-                                 flat_in_deltas, flat_out_deltas, dW, dbias)
+                                 flat_in_deltas, flat_out_deltas, dW_tmp,
+                                 dbias_tmp)
+        _h.add_tt(dW, dW_tmp, dW)
+        _h.add_tt(dbias, dbias_tmp, dbias)
diff --git a/brainstorm/layers/fully_connected_layer.py b/brainstorm/layers/fully_connected_layer.py
index 79f46d4..dedaa2e 100644
--- a/brainstorm/layers/fully_connected_layer.py
+++ b/brainstorm/layers/fully_connected_layer.py
@@ -74,5 +74,7 @@ class FullyConnectedLayerImpl(Layer):
         # calculate in_deltas and gradients
         _h.inplace_act_func_deriv[self.activation](outputs, out_deltas)
         _h.dot_add_mm(out_deltas, W, out=in_deltas)
-        _h.dot_mm(out_deltas, inputs, out=dW, transa=True)
-        _h.sum_t(out_deltas, axis=0, out=dbias)
+        _h.dot_add_mm(out_deltas, inputs, out=dW, transa=True)
+        dbias_tmp = _h.allocate(dbias.shape)
+        _h.sum_t(out_deltas, axis=0, out=dbias_tmp)
+        _h.add_tt(dbias, dbias_tmp, dbias)
-- 
2.43.0


From dd4934fcb0bd790d722412063047259e7f54f5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:56 +0000
Subject: [PATCH 04/50] fix: BinomialCrossEntropy backward pass failed for
 image-like inputs

---
 brainstorm/layers/binomial_cross_entropy_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brainstorm/layers/binomial_cross_entropy_layer.py b/brainstorm/layers/binomial_cross_entropy_layer.py
index 30b6579..dd07e7a 100644
--- a/brainstorm/layers/binomial_cross_entropy_layer.py
+++ b/brainstorm/layers/binomial_cross_entropy_layer.py
@@ -110,7 +110,8 @@ class BinomialCrossEntropyLayerImpl(Layer):
 
         # ceed_sum has only one feature dimension due to summation,
         # so we broadcast to all feature dimensions
-        _h.broadcast_t(ceed_sum, 2, tmp)
+        _h.broadcast_t(flatten_time(ceed_sum), 1,
+                       flatten_time_and_features(tmp))
         _h.mult_tt(ceed, tmp, ceed)
 
         _h.add_tt(ceed, yd, yd)
-- 
2.43.0


From 58d922d0a73d226d26c2f93b079dfcd3d6664804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 05/50] fix: Network.from_hdf5 used an attribute h5py no longer
 has

Dataset.value was removed in h5py 3.0, so no saved network could be
loaded. Use dataset[()] which works with every h5py version.
---
 brainstorm/structure/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index a0f4dbf..88d39b5 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -95,10 +95,10 @@ class Network(Seedable):
             :meth:`.save_as_hdf5`
         """
         with h5py.File(filename, 'r') as f:
-            description = json.loads(f['description'].value.decode())
+            description = json.loads(f['description'][()].decode())
             net = create_from_description(description)
             net.handler.set_from_numpy(net.buffer.parameters,
-                                       f['parameters'].value)
+                                       f['parameters'][()])
         return net
 
     def __init__(self, layers, buffer_manager, architecture, seed=None,
-- 
2.43.0


From bfc787aa1891888dbe11732419f912f03e54cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 06/50] fix: a network saved before it was initialized could
 not be loaded

---
 brainstorm/structure/network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index 88d39b5..a1f54fc 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -70,7 +70,9 @@ class Network(Seedable):
     def __new_from_description__(cls, description):
         net = Network.from_architecture(description['architecture'])
         net.set_handler(create_from_description(description['handler']))
-        net.initialize(create_from_description(description['initializers']))
+        if description['initializers']:
+            net.initialize(
+                create_from_description(description['initializers']))
         net.set_gradient_modifiers(
             create_from_description(description['gradient_modifiers']))
         net.set_weight_modifiers(
-- 
2.43.0


From f75aa2fe6ec6c2f9f0251e81990230c1b0c5ec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 07/50] fix: initialize and set_*_modifiers changed the
 dictionary passed in

---
 brainstorm/structure/network.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index a1f54fc..adcd149 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -547,7 +547,7 @@ def _update_references_with_dict(refs, ref_dict):
     if refs is None:
         references = dict()
     elif isinstance(refs, dict):
-        references = refs
+        references = dict(refs)
     else:
         references = {'default': refs}
 
@@ -563,6 +563,7 @@ def _update_references_with_dict(refs, ref_dict):
 def _replace_lists_with_array_initializers(ref_dict):
     for key, value in ref_dict.items():
         if isinstance(value, dict):
-            _replace_lists_with_array_initializers(value)
+            ref_dict[key] = dict(value)
+            _replace_lists_with_array_initializers(ref_dict[key])
         elif isinstance(value, (list, np.ndarray)):
             ref_dict[key] = ArrayInitializer(value)
-- 
2.43.0


From 7cd9df390a71bb380556c7a40e0671cfb94ec999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 08/50] fix: a Uniform initializer created from a description
 had no rnd

Its __init_from_description__ did not call the one of Seedable, so using
it (for example by loading a network that was initialized with Uniform)
failed.
---
 brainstorm/initializers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index 7001f56..eef5b69 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -382,9 +382,13 @@ class Uniform(Initializer):
         super(Uniform, self).__init__()
         self.low = low
         self.high = high
-        self.__init_from_description__(None)
+        self._setup_interval()
 
     def __init_from_description__(self, description):
+        super(Uniform, self).__init_from_description__(description)
+        self._setup_interval()
+
+    def _setup_interval(self):
         if self.high is None:
             self.low, self.high = sorted([-self.low, self.low])
         assert self.low < self.high, \
-- 
2.43.0


From 70943237e230b339370efa2bbff37c208ec1d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 09/50] fix: MaskValues created from a description did not work

Its mask is described as a nested list and has to be converted back to a
numpy array.
---
 brainstorm/value_modifiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index 0f91e75..dc6aa7a 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -137,6 +137,10 @@ class MaskValues(ValueModifier):
         self.mask = mask
         self.device_mask = None
 
+    def __init_from_description__(self, description):
+        super(MaskValues, self).__init_from_description__(description)
+        self.mask = np.array(self.mask)
+
     def __call__(self, handler, view):
         if (self.device_mask is None or
                 not isinstance(self.device_mask, handler.array_type)):
-- 
2.43.0


From d41fdfe92cd0a40074b49ae7b87763f6e78ce0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 10/50] fix: SparseInputs and SparseOutputs ignored the
 initialization seed

Their sub-initializer was evaluated without a seed, so initializing a
network twice with the same seed gave different parameters.
---
 brainstorm/initializers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index eef5b69..7f65c9f 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -334,7 +334,8 @@ class SparseInputs(Initializer):
             raise InitializationError("Input dimension to small: {} < {}"
                                       "".format(shape[0], self.connections))
 
-        sub_result = evaluate_initializer(self.sub_initializer, shape)
+        sub_result = evaluate_initializer(self.sub_initializer, shape,
+                                          seed=self.rnd.generate_seed())
         connection_mask = np.zeros(shape)
         connection_mask[:self.connections, :] = 1.
         for i in range(shape[1]):
@@ -363,7 +364,8 @@ class SparseOutputs(Initializer):
         if shape[1] < self.connections:
             raise InitializationError("Output dimension to small: {} < {}"
                                       "".format(shape[1], self.connections))
-        sub_result = evaluate_initializer(self.sub_initializer, shape)
+        sub_result = evaluate_initializer(self.sub_initializer, shape,
+                                          seed=self.rnd.generate_seed())
         connection_mask = np.zeros(shape)
         connection_mask[:, :self.connections] = 1.
         for i in range(shape[0]):
-- 
2.43.0


From fa9ec431a061298f376dc79133a6b1a81ce4345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 11/50] fix: arrays nested in other initializers did not
 survive a description

An ArrayInitializer is described by a plain list, which SparseInputs,
SparseOutputs and LstmOptInit could then not evaluate.
---
 brainstorm/initializers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index 7f65c9f..13140d3 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -405,6 +405,9 @@ class Uniform(Initializer):
 # ########################### helper methods ##################################
 
 def evaluate_initializer(initializer, shape, fallback=None, seed=None):
+    if isinstance(initializer, (list, np.ndarray)):
+        initializer = ArrayInitializer(initializer)
+
     if isinstance(initializer, Initializer):
         if seed is not None:
             initializer.rnd.set_seed(seed)
-- 
2.43.0


From edbc0a5299f3377177b6a5fd36c8bc984e619a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:30 +0000
Subject: [PATCH 12/50] fix: transforming iterators accumulated their effect on
 Undivided data

Undivided yielded its own dictionary, so an iterator wrapped around it
stored the transformed arrays in it and transformed them again in the
next epoch.
---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index aef02db..530d128 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -394,7 +394,7 @@ class Undivided(DataIterator):
         self.total_size = int(sum(d.size for d in self.data.values()))
 
     def __call__(self, handler=None):
-        yield self.data
+        yield dict(self.data)
 
 
 class Minibatches(DataIterator):
-- 
2.43.0


From 51211e07a0ea9604ac09489bc9468204fa120ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:30 +0000
Subject: [PATCH 13/50] fix: Flip modified the user's data in place

Every epoch flipped the images as left behind by the previous epochs and
the original data was lost.
---
 brainstorm/data_iterators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 530d128..09cc1f8 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -179,9 +179,11 @@ class Flip(DataIterator):
         for data in self.iter(handler):
             for name in self.prob_dict.keys():
                 assert isinstance(data[name], np.ndarray)
-                for i in range(data[name].shape[1]):
+                d = data[name].copy()
+                for i in range(d.shape[1]):
                     if self.rnd.random_sample() < self.prob_dict[name]:
-                        data[name][:, i, ...] = data[name][:, i, :, ::-1, :]
+                        d[:, i, ...] = data[name][:, i, :, ::-1, :]
+                data[name] = d
             yield data
 
 
-- 
2.43.0


From c745a7b2b93f9a40436d4496d3e27a26c788d7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:30 +0000
Subject: [PATCH 14/50] fix: Pad failed for a padding size of 0

---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 09cc1f8..2db225e 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -320,7 +320,7 @@ class Pad(DataIterator):
                 size = self.size_dict[name]
                 val = self.value_dict.get(name, 0.0)
                 new_data = val * np.ones((t, b, h + 2 * size, w + 2 * size, c))
-                new_data[:, :, size: -size, size: -size, :] = data[name]
+                new_data[:, :, size: size + h, size: size + w, :] = data[name]
                 data[name] = new_data
             yield data
 
-- 
2.43.0


From ea56ff8c225685254d78bff26f661be56bbb4737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:30 +0000
Subject: [PATCH 15/50] fix: RandomCrop only worked on float64 data

---
 brainstorm/data_iterators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 2db225e..2fcdfe9 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -372,8 +372,8 @@ class RandomCrop(DataIterator):
                 row_indices = self.rnd.random_integers(0, max_r, n)
                 col_indices = self.rnd.random_integers(0, max_c, n)
                 cropped = np.zeros((t, n, crop_h, crop_w, c))
-                _crop_images(data[name], crop_h, crop_w, row_indices,
-                             col_indices, cropped)
+                _crop_images(np.ascontiguousarray(data[name], np.float64), crop_h,
+                             crop_w, row_indices, col_indices, cropped)
                 data[name] = cropped
             yield data
 
-- 
2.43.0


From 876bdc5344d21c6253baeff112cf62063b1d09b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:30 +0000
Subject: [PATCH 16/50] fix: MultiHot could not be called without a handler
 like all other iterators

---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 2fcdfe9..54ae4f9 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -266,7 +266,7 @@ class MultiHot(DataIterator):
         self.vocab_size_dict = vocab_size_dict
         self.iter = iter
 
-    def __call__(self, handler):
+    def __call__(self, handler=None):
         for data in self.iter(handler):
             for name in self.vocab_size_dict.keys():
                 vocab_size = self.vocab_size_dict[name]
-- 
2.43.0


From 24a8d0523377427682c74699be18fb1ccb8211a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:30 +0000
Subject: [PATCH 17/50] fix: ForwardStepper called a method that does not exist

---
 brainstorm/training/steppers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/training/steppers.py b/brainstorm/training/steppers.py
index 286e547..4e0067b 100644
--- a/brainstorm/training/steppers.py
+++ b/brainstorm/training/steppers.py
@@ -40,7 +40,7 @@ class ForwardStepper(TrainingStepper):
 
     def run(self):
         self.net.forward_pass(training_pass=self.use_training_pass)
-        return self.net.get_loss_value()
+        return self.net.get_loss_values()
 
 
 class SgdStepper(TrainingStepper):
-- 
2.43.0


From 96a02c1b659f79dde1a25f7c45b62c096c0d4203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:30 +0000
Subject: [PATCH 18/50] fix: MonitorLayerDeltas failed with a KeyError for
 layers with inputs

---
 brainstorm/hooks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 7dd32e4..b3e6c21 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -243,9 +243,9 @@ class MonitorLayerDeltas(Hook):
         for key, v in net.buffer[self.layer_name].input_deltas.items():
             key_log = in_deltas_log[key] = OrderedDict()
             v = net.handler.get_numpy_copy(v)
-            key_log[key]['min'] = v.min()
-            key_log[key]['avg'] = v.mean()
-            key_log[key]['max'] = v.max()
+            key_log['min'] = v.min()
+            key_log['avg'] = v.mean()
+            key_log['max'] = v.max()
 
         return log
 
-- 
2.43.0


From 5d617b9d2a19c73a7369b67a66f0610bd849cfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:17 +0000
Subject: [PATCH 19/50] fix: MonitorLayerInOuts and MonitorLayerDeltas failed
 before training

All hooks are called once before the first update, when the buffers are
still empty and have no minimum or maximum.
---
 brainstorm/hooks.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index b3e6c21..efeb44c 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -226,6 +226,8 @@ class MonitorLayerDeltas(Hook):
         log = OrderedDict()
         for key, v in net.buffer[self.layer_name].internals.items():
             v = net.handler.get_numpy_copy(v)
+            if v.size == 0:  # no data has been provided yet
+                continue
             log[key] = OrderedDict()
             log[key]['min'] = v.min()
             log[key]['avg'] = v.mean()
@@ -234,6 +236,8 @@ class MonitorLayerDeltas(Hook):
         out_deltas_log = log['output_deltas'] = OrderedDict()
         for key, v in net.buffer[self.layer_name].output_deltas.items():
             v = net.handler.get_numpy_copy(v)
+            if v.size == 0:  # no data has been provided yet
+                continue
             key_log = out_deltas_log[key] = OrderedDict()
             key_log['min'] = v.min()
             key_log['avg'] = v.mean()
@@ -241,8 +245,10 @@ class MonitorLayerDeltas(Hook):
 
         in_deltas_log = log['input_deltas'] = OrderedDict()
         for key, v in net.buffer[self.layer_name].input_deltas.items():
-            key_log = in_deltas_log[key] = OrderedDict()
             v = net.handler.get_numpy_copy(v)
+            if v.size == 0:  # no data has been provided yet
+                continue
+            key_log = in_deltas_log[key] = OrderedDict()
             key_log['min'] = v.min()
             key_log['avg'] = v.mean()
             key_log['max'] = v.max()
@@ -300,6 +306,8 @@ class MonitorLayerInOuts(Hook):
         input_log = log['inputs'] = OrderedDict()
         for key, v in net.buffer[self.layer_name].inputs.items():
             v = net.handler.get_numpy_copy(v)
+            if v.size == 0:  # no data has been provided yet
+                continue
             key_log = input_log[key] = OrderedDict()
             key_log['min'] = v.min()
             key_log['avg'] = v.mean()
@@ -307,8 +315,10 @@ class MonitorLayerInOuts(Hook):
 
         output_log = log['outputs'] = OrderedDict()
         for key, v in net.buffer[self.layer_name].outputs.items():
-            key_log = output_log[key] = OrderedDict()
             v = net.handler.get_numpy_copy(v)
+            if v.size == 0:  # no data has been provided yet
+                continue
+            key_log = output_log[key] = OrderedDict()
             key_log['min'] = v.min()
             key_log['avg'] = v.mean()
             key_log['max'] = v.max()
-- 
2.43.0


From c5e5c866fdbb623cf5fcb6db8a9096d83ab58240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:17 +0000
Subject: [PATCH 20/50] fix: StopAfterThresholdReached and StopOnNan failed
 before training

All hooks are called once before the first epoch, when for example the
rolling_training log does not exist yet. EarlyStopper and
SaveBestNetwork already take that into account.
---
 brainstorm/hooks.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index efeb44c..bcc4b69 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -609,6 +609,11 @@ class StopAfterThresholdReached(Hook):
         self.criterion = criterion
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
+        if epoch_nr == 0:
+            try:
+                e = get_by_path(logs, self.log_name)
+            except KeyError:
+                return
         e = get_by_path(logs, self.log_name)
         is_threshold_reached = False
         if self.criterion == 'max' and max(e) >= self.threshold:
@@ -660,7 +665,12 @@ class StopOnNan(Hook):
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
         for log_name in self.logs_to_check:
-            log = get_by_path(logs, log_name)
+            try:
+                log = get_by_path(logs, log_name)
+            except KeyError:
+                if epoch_nr == 0:
+                    continue
+                raise
             if not np.all(np.isfinite(log)):
                 self.message("NaN or inf detected in {}!".format(log_name))
                 raise StopIteration()
-- 
2.43.0


From e4ea7827854a0233ff7bf1bc9fad7915820ff2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:17 +0000
Subject: [PATCH 21/50] fix: SaveBestNetwork.load_best_network failed before
 any improvement

The cached parameters live in self.parameters, but __init__ created
best_parameters instead.
---
 brainstorm/hooks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index bcc4b69..7b5ef67 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -118,7 +118,7 @@ class SaveBestNetwork(Hook):
                                               interval, verbose)
         self.log_name = log_name
         self.filename = filename
-        self.best_parameters = None
+        self.parameters = None
         assert criterion == 'min' or criterion == 'max'
         self.best_so_far = np.inf if criterion == 'min' else -np.inf
         self.best_t = None
-- 
2.43.0


From 50344ee353fc9acedb7a53ba56309e11f52494af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:11 +0000
Subject: [PATCH 22/50] fix: extract and extract_and_save failed for batches of
 different lengths

---
 brainstorm/tools.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 2b00f63..b01ae80 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -103,7 +103,7 @@ def extract(network, iter, buffer_names):
     if isinstance(buffer_names, six.string_types):
         buffer_names = [buffer_names]
 
-    nr_examples = list(iter.data_shapes.values())[0][1]
+    nr_timesteps, nr_examples = list(iter.data_shapes.values())[0][:2]
     return_data = {}
     nr_items = 0
     for _ in run_network(network, iterator, all_inputs=False):
@@ -114,13 +114,20 @@ def extract(network, iter, buffer_names):
             if num == 0:
                 nr_items += data.shape[1]
             if first_pass:
-                data_shape = (data.shape[0], nr_examples) + data.shape[2:]
+                # batches might be cut to different lengths
+                nr_cut = nr_timesteps - _get_time_size(network)
+                data_shape = (data.shape[0] + nr_cut, nr_examples) + \
+                    data.shape[2:]
                 return_data[buffer_name] = np.zeros(data_shape, data.dtype)
-            return_data[buffer_name][:, nr_items - data.shape[1]:nr_items] = \
-                data
+            return_data[buffer_name][:data.shape[0],
+                                     nr_items - data.shape[1]:nr_items] = data
     return return_data
 
 
+def _get_time_size(network):
+    return next(iter(network.buffer.Input.outputs.values())).shape[0]
+
+
 def extract_and_save(network, iter, buffer_names, file_name):
     """Save the desired buffer values of a network to an HDF5 file.
 
@@ -169,11 +176,14 @@ def extract_and_save(network, iter, buffer_names, file_name):
                 if first_pass:
                     ds.append(f.create_dataset(
                         buffer_name, data.shape, data.dtype, chunks=data.shape,
-                        maxshape=(data.shape[0], None) + data.shape[2:]))
+                        maxshape=(None, None) + data.shape[2:]))
                     ds[-1][:] = data
                 else:
                     ds[num].resize(size=nr_items, axis=1)
-                    ds[num][:, nr_items - data.shape[1]:nr_items, ...] = data
+                    if data.shape[0] > ds[num].shape[0]:
+                        ds[num].resize(size=data.shape[0], axis=0)
+                    ds[num][:data.shape[0],
+                            nr_items - data.shape[1]:nr_items, ...] = data
 
 
 def get_in_out_layers(task_type, in_shape, out_shape, data_name='default',
-- 
2.43.0


From 20dc704c2ac3171bd6453f56bc05eed856be5394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:51 +0000
Subject: [PATCH 23/50] fix: the last time step of inputs sharing a hub with a
 recurrent layer was erased

clear_context wiped the last regular time step in addition to the context. If
an input of the network is concatenated with the output of a recurrent layer
they share a buffer hub, and its last time step was replaced by zeros.
---
 brainstorm/structure/buffers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/brainstorm/structure/buffers.py b/brainstorm/structure/buffers.py
index ec773ea..e3d219b 100644
--- a/brainstorm/structure/buffers.py
+++ b/brainstorm/structure/buffers.py
@@ -141,8 +141,7 @@ class BufferManager(object):
         for hub, buf in zip(self.hubs, self.buffers):
             if hub.btype != 2 or not hub.context_size:
                 continue
-            self.handler.fill(
-                buf[self.time_size - hub.context_size:], 0.)
+            self.handler.fill(buf[self.time_size:], 0.)
 
     def clear_backward_buffers(self):
         for h, b in zip(self.hubs, self.buffers):
-- 
2.43.0


From 63ef50fbe4a39a954243bc3d5e1cc45cf58808c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:20 +0000
Subject: [PATCH 24/50] fix: the exponential linear activation gave NaN for
 large inputs

exp(x) overflows to infinity for large positive x, and inf * 0 is NaN.
---
 brainstorm/handlers/numpy_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index 64a344f..7e5c442 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -302,7 +302,7 @@ class NumpyHandler(Handler):
 
     def el(self, x, y):
         # TODO: Optimize this implementation
-        y[:] = x * (x >= 0.) + (np.exp(x) - 1.) * (x < 0.)
+        y[:] = x * (x >= 0.) + (np.exp(np.minimum(x, 0.)) - 1.) * (x < 0.)
 
     def el_deriv(self, x, y, dy, dx):
         # TODO: Optimize this implementation
-- 
2.43.0


From b1bcfd26d3c19a3ab3bdb6c1412555f6e5437093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:20 +0000
Subject: [PATCH 25/50] fix: sigmoid left stale values in its output where the
 input was NaN

---
 brainstorm/handlers/numpy_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index 7e5c442..30dd446 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -283,7 +283,7 @@ class NumpyHandler(Handler):
     def sigmoid(self, x, y):
         indices = x >= 0
         y[indices] = 1. / (1. + np.exp(-x[indices]))
-        indices = x < 0
+        indices = ~indices
         y[indices] = np.exp(x[indices]) / (1. + np.exp(x[indices]))
 
     def sigmoid_deriv(self, x, y, dy, dx):
-- 
2.43.0


From d35ca3be6b8d4d41d4b78f0bf4cf9f752370b38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:36 +0000
Subject: [PATCH 26/50] fix: FreezeValues lost its weights when described

The weights passed to FreezeValues were left out of the description, so a
saved and loaded network froze the parameters to other values.
---
 brainstorm/value_modifiers.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index dc6aa7a..ee6b99c 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -163,21 +163,28 @@ class FreezeValues(ValueModifier):
     weights to affect.
     """
 
-    __undescribed__ = {'weights', 'device_weights'}
+    __undescribed__ = {'frozen_weights', 'device_weights'}
 
     def __init__(self, weights=None):
         super(FreezeValues, self).__init__()
         self.weights = weights
+        self.frozen_weights = weights
         self.device_weights = None
 
+    def __init_from_description__(self, description):
+        super(FreezeValues, self).__init_from_description__(description)
+        if self.weights is not None:
+            self.weights = np.array(self.weights)
+            self.frozen_weights = self.weights
+
     def __call__(self, handler, view):
-        if self.weights is None:
-            self.weights = handler.get_numpy_copy(view)
+        if self.frozen_weights is None:
+            self.frozen_weights = handler.get_numpy_copy(view)
 
         if (self.device_weights is None or
                 not isinstance(self.device_weights, handler.array_type)):
-            self.device_weights = handler.allocate(self.weights.shape)
-            handler.set_from_numpy(self.device_weights, self.weights)
+            self.device_weights = handler.allocate(self.frozen_weights.shape)
+            handler.set_from_numpy(self.device_weights, self.frozen_weights)
 
         handler.copy_to(self.device_weights, view)
 
-- 
2.43.0


From 983bc857e1999d21e352d7291b5ca87451aff85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:40 +0000
Subject: [PATCH 27/50] fix: RandomWalk divided by N instead of sqrt(N)

The referenced random walk initialization scales weights of variance 1/N by
the correction factor g. Dividing unit variance weights by N gives them the
variance 1/N**2, so activations and deltas vanish with depth.
---
 brainstorm/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index 13140d3..fc9a5ae 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -309,7 +309,7 @@ class RandomWalk(Initializer):
         else:
             scale = self.scale
 
-        return scale * self.rnd.randn(*shape) / N
+        return scale * self.rnd.randn(*shape) / np.sqrt(N)
 
 
 class SparseInputs(Initializer):
-- 
2.43.0


From 8a5db5b242abe115848fc1bc3bb085f6de918f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:52 +0000
Subject: [PATCH 28/50] fix: StopAfterThresholdReached never stopped after a
 NaN had been logged

---
 brainstorm/hooks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 7b5ef67..0baf0e3 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -616,9 +616,9 @@ class StopAfterThresholdReached(Hook):
                 return
         e = get_by_path(logs, self.log_name)
         is_threshold_reached = False
-        if self.criterion == 'max' and max(e) >= self.threshold:
+        if self.criterion == 'max' and np.any(np.array(e) >= self.threshold):
             is_threshold_reached = True
-        elif self.criterion == 'min' and min(e) <= self.threshold:
+        elif self.criterion == 'min' and np.any(np.array(e) <= self.threshold):
             is_threshold_reached = True
         if is_threshold_reached:
             self.message("Stopping because {} has reached the threshold {} "
-- 
2.43.0


From f3efb07cab539d424d61e2aa8a51fa9106b91f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:30 +0000
Subject: [PATCH 29/50] fix: extract read leftovers from memory for inputs the
 data does not have

---
 brainstorm/training/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brainstorm/training/utils.py b/brainstorm/training/utils.py
index 0afb9ad..b70c560 100644
--- a/brainstorm/training/utils.py
+++ b/brainstorm/training/utils.py
@@ -6,4 +6,7 @@ from __future__ import division, print_function, unicode_literals
 def run_network(net, iterator, all_inputs=True):
     for i, data in enumerate(iterator):
         net.provide_external_data(data, all_inputs=all_inputs)
+        for name, buf in net.buffer.Input.outputs.items():
+            if name not in data:  # not whatever the memory was used for before
+                net.handler.fill(buf, 0.0)
         yield i
-- 
2.43.0


From de94d923ee36b57e405611683799f5e90a5243a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:35 +0000
Subject: [PATCH 30/50] fix: DebugHandler accepted merges and splits of arrays
 with different leading dimensions

---
 brainstorm/handlers/debug_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/brainstorm/handlers/debug_handler.py b/brainstorm/handlers/debug_handler.py
index cbe7437..65ea019 100644
--- a/brainstorm/handlers/debug_handler.py
+++ b/brainstorm/handlers/debug_handler.py
@@ -380,6 +380,7 @@ class DebugHandler(Handler):
     def merge_tt(self, a, b, out):
         assert(a.shape[-1] + b.shape[-1] == out.shape[-1])
         assert_debug_arrays(a, b, out)
+        assert_shapes_equal(out.shape[:-1], a.shape[:-1], b.shape[:-1])
         self.handler.merge_tt(a.array, b.array, out.array)
 
     @check_for_inf_or_nan
@@ -442,6 +443,7 @@ class DebugHandler(Handler):
     def split_add_tt(self, x, out_a, out_b):
         assert(out_a.shape[-1] + out_b.shape[-1] == x.shape[-1])
         assert_debug_arrays(out_a, out_b, x)
+        assert_shapes_equal(x.shape[:-1], out_a.shape[:-1], out_b.shape[:-1])
         self.handler.split_add_tt(x.array, out_a.array, out_b.array)
 
     @check_for_inf_or_nan
-- 
2.43.0


From 6bcd45050b4ac1deaaf03f7e35283472b8093655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:24 +0000
Subject: [PATCH 31/50] fix: Convolution2D accepted kernels that do not fit
 into its input

---
 brainstorm/layers/convolution_layer_2d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brainstorm/layers/convolution_layer_2d.py b/brainstorm/layers/convolution_layer_2d.py
index 724c866..64c6088 100644
--- a/brainstorm/layers/convolution_layer_2d.py
+++ b/brainstorm/layers/convolution_layer_2d.py
@@ -62,6 +62,9 @@ class Convolution2DLayerImpl(Layer):
                          stride[0]) + 1
         output_width = ((in_shape[1] + 2 * padding - kernel_y) //
                         stride[1]) + 1
+        assert output_height > 0 and output_width > 0, \
+            "Evaluated output height and width must be positive but were " \
+            "({}, {})".format(output_height, output_width)
         out_shape = (output_height, output_width, num_filters)
 
         outputs = OrderedDict()
-- 
2.43.0


From ed7302bf611798e5b70255882f0c4f457c67998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:40 +0000
Subject: [PATCH 32/50] fix: a second input layer was accepted and never got
 any data

---
 brainstorm/structure/architecture.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/brainstorm/structure/architecture.py b/brainstorm/structure/architecture.py
index 722fa3a..3b8b098 100644
--- a/brainstorm/structure/architecture.py
+++ b/brainstorm/structure/architecture.py
@@ -114,6 +114,11 @@ def validate_architecture(architecture):
         raise NetworkValidationError(
             'Needs exactly one Input that is called "Input"')
 
+    if any(name != 'Input' and layer['@type'] == 'Input'
+           for name, layer in architecture.items()):
+        raise NetworkValidationError(
+            'Needs exactly one Input that is called "Input"')
+
     # no connections to Input
     if 'Input' in end_layers:
         raise NetworkValidationError(
-- 
2.43.0


From 05792dc5da21a6089ec851ecb2e5df1ae1a7e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:25 +0000
Subject: [PATCH 33/50] fix: dropout masks did not depend on the seed of
 global_rnd

---
 brainstorm/structure/network.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index adcd149..5310574 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -104,7 +104,7 @@ class Network(Seedable):
         return net
 
     def __init__(self, layers, buffer_manager, architecture, seed=None,
-                 handler=default_handler):
+                 handler=None):
         super(Network, self).__init__(seed)
         self.layers = layers
         self.loss_layers = _get_loss_layers(layers)
@@ -112,6 +112,10 @@ class Network(Seedable):
         self.buffer = self._buffer_manager.views
         self.architecture = architecture
         self.handler = None
+        if handler is None:
+            # a handler of its own, so its randomness depends on global_rnd
+            handler = create_from_description(
+                get_description(default_handler))
         self.set_handler(handler)
         self.initializers = {}
         self.weight_modifiers = {}
-- 
2.43.0


From 408aef1a291fee92d3e790b4ed832ebf05e23557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:46 +0000
Subject: [PATCH 34/50] fix: shuffle_data ignored the seed of global_rnd

---
 brainstorm/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index b01ae80..a0271a6 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -7,6 +7,7 @@ import numpy as np
 import six
 
 from brainstorm import layers, Network, initializers
+from brainstorm.randomness import global_rnd
 from brainstorm.scorers import (aggregate_losses_and_scores,
                                 gather_losses_and_scores)
 from brainstorm.training.trainer import run_network
@@ -623,7 +624,7 @@ def shuffle_data(*args, **kwargs):
             list of shuffled arrays
 
     """
-    rnd = np.random.RandomState(kwargs.get('seed', None))
+    rnd = global_rnd.create_random_state(kwargs.get('seed', None))
     idxs = np.arange(args[0].shape[1])
     rnd.shuffle(idxs)
     return [None if A is None else A[:, idxs] for A in args]
-- 
2.43.0


From a8eac616cd6c9909ce4a8a43f5d3c3362a24cdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:44 +0000
Subject: [PATCH 35/50] fix: create_net_from_spec needed whitespace between a
 layer without arguments and the next

---
 brainstorm/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index a0271a6..ccbea31 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -578,7 +578,7 @@ def create_net_from_spec(task_type, in_shape, out_shape, spec,
     output_name = 'Output.outputs.predictions'
 
     import re
-    LAYER_TYPE = r'\s*(?P<layer_type>[A-Z]+)\s*'
+    LAYER_TYPE = r'\s*(?P<layer_type>[A-Z])\s*'
     FLOAT = r'\s*[-+]?[0-9]*\.?[0-9]+\s*'
     ARG = r'\s*([a-z]|{float})\s*[:/|]?\s*'.format(float=FLOAT)
     ARG_LIST = r'(?P<args>({arg})*)'.format(arg=ARG)
-- 
2.43.0


From fd9134b648a81d6273ff3ed8de9fb80b466e4364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:25 +0000
Subject: [PATCH 36/50] fix: trainers could not be described, or with all the
 data, after monitors had run

---
 brainstorm/hooks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 0baf0e3..5b1b80d 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -365,6 +365,8 @@ class MonitorLoss(Hook):
     Monitor the losses computed by the network on a dataset using a given data
     iterator.
     """
+    __undescribed__ = {'iter': None}
+
     def __init__(self, iter_name, name=None, timescale='epoch', interval=1,
                  verbose=None):
         super(MonitorLoss, self).__init__(name, timescale, interval, verbose)
@@ -411,6 +413,8 @@ class MonitorScores(Hook):
         MonitorLoss: monitor the overall loss of the network.
 
     """
+    __undescribed__ = {'iter': None}
+
     def __init__(self, iter_name, scorers, name=None, timescale='epoch',
                  interval=1, verbose=None):
 
@@ -841,6 +845,8 @@ else:
 
 class ProgressBar(Hook):
     """ Adds a progress bar to show the training progress. """
+    __undescribed__ = {'length': None, 'bar': None}
+
     def __init__(self):
         super(ProgressBar, self).__init__(None, 'update', 1)
         self.length = None
-- 
2.43.0


From 5da661f814ad7174ef64ad1745e068d4de8e3396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:25 +0000
Subject: [PATCH 37/50] fix: SaveBestNetwork created from a description
 remembered the best value of an earlier training

---
 brainstorm/hooks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 5b1b80d..3821a04 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -109,7 +109,7 @@ class SaveBestNetwork(Hook):
             ...                                       filename='best_loss.h5',
         ...                                           criterion='min'))
     """
-    __undescribed__ = {'parameters': None}
+    __undescribed__ = {'parameters': None, 'best_so_far': None, 'best_t': None}
     __default_values__ = {'filename': None}
 
     def __init__(self, log_name, filename=None, criterion='max', name=None,
@@ -124,6 +124,9 @@ class SaveBestNetwork(Hook):
         self.best_t = None
         self.criterion = criterion
 
+    def __init_from_description__(self, description):
+        self.best_so_far = np.inf if self.criterion == 'min' else -np.inf
+
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
         if epoch_nr == 0:
             try:
-- 
2.43.0


From 722d9e22f90659516ced3efdc72030591c3bbef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:10 +0000
Subject: [PATCH 38/50] fix: describing an array where there is a default value
 raised a ValueError

---
 brainstorm/describable.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/brainstorm/describable.py b/brainstorm/describable.py
index a31a0ae..a9b2dde 100644
--- a/brainstorm/describable.py
+++ b/brainstorm/describable.py
@@ -78,7 +78,7 @@ class Describable(object):
         for member, value in self.__dict__.items():
             if member in ignorelist:
                 continue
-            if member in defaultlist and defaultlist[member] == value:
+            if member in defaultlist and _same(defaultlist[member], value):
                 continue
             try:
                 description[member] = get_description(value)
@@ -234,6 +234,12 @@ def create_from_description(description):
     raise TypeError('Invalid description of type {}'.format(type(description)))
 
 
+def _same(a, b):
+    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
+        return type(a) == type(b) and np.array_equal(a, b)
+    return a == b
+
+
 def _traverse_ancestor_attrs(cls, attr_name):
     for c in reversed(cls.__mro__):
         if hasattr(c, attr_name):
-- 
2.43.0


From 1e171577e7e13505b236e09b34cfa881dbcbdb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:52 +0000
Subject: [PATCH 39/50] fix: ConstrainL2Norm could not be used with the
 DebugHandler

---
 brainstorm/handlers/debug_handler.py |  3 ++-
 brainstorm/value_modifiers.py        | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/brainstorm/handlers/debug_handler.py b/brainstorm/handlers/debug_handler.py
index 65ea019..dce147f 100644
--- a/brainstorm/handlers/debug_handler.py
+++ b/brainstorm/handlers/debug_handler.py
@@ -59,11 +59,12 @@ def check_for_inf_or_nan(f):
 # ############################# Debug Handler ############################### #
 
 class DebugHandler(Handler):
-    __undescribed__ = {'EMPTY', 'array_type'}
+    __undescribed__ = {'EMPTY', 'array_type', 'dtype'}
 
     def __init__(self, handler):
         super(DebugHandler, self).__init__()
         self.handler = handler
+        self.dtype = handler.dtype
         self.EMPTY = DebugArray(arr=handler.EMPTY)
         self.array_type = DebugArray
 
diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index ee6b99c..9e7a843 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -75,11 +75,13 @@ class ConstrainL2Norm(ValueModifier):
         sq_norm = handler.allocate((view.shape[0], 1))
         divisor = handler.allocate(sq_norm.shape)
 
-        # FIXME: use handler operations for this
-        handler.sum_t(mat * mat, axis=1, out=sq_norm)
-        handler.mult_st(1 / self.limit, sq_norm ** 0.5, out=divisor)
+        squares = handler.allocate(mat.shape)
+        handler.mult_tt(mat, mat, out=squares)
+        handler.sum_t(squares, axis=1, out=sq_norm)
+        handler.sqrt_t(sq_norm, out=sq_norm)
+        handler.mult_st(1 / self.limit, sq_norm, out=divisor)
         handler.clip_t(divisor, a_min=1.0,
-                       a_max=np.finfo(handler.dtype).max, out=divisor)
+                       a_max=float(np.finfo(handler.dtype).max), out=divisor)
         handler.divide_mv(mat, divisor, mat)
 
     def __repr__(self):
-- 
2.43.0


From 96d8acfbf3aa165a5ce255582315b8796b2e1be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:43 +0000
Subject: [PATCH 40/50] fix: NumpyHandler silently broadcast data and contexts
 of the wrong shape

---
 brainstorm/handlers/numpy_handler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index 30dd446..1de12e2 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -49,6 +49,8 @@ class NumpyHandler(Handler):
         # Can't be done right now, because it will lead to problems with
         # provide_external_data trying to call this function on ndarrays with
         # the wrong dtype.
+        assert dest.shape == src.shape, \
+            "{} != {}".format(dest.shape, src.shape)
         np.copyto(dest, src, casting='same_kind')
 
     def create_from_numpy(self, arr):
@@ -62,6 +64,8 @@ class NumpyHandler(Handler):
         return arr.copy()
 
     def set_from_numpy(self, mem, arr):
+        assert mem.shape == arr.shape, \
+            "{} != {}".format(mem.shape, arr.shape)
         mem[:] = arr.astype(self.dtype)
 
     # ---------------------------- Debug helpers ---------------------------- #
-- 
2.43.0


From 50c81bf46f40b5bb3379b63a611a11f445079cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:05 +0000
Subject: [PATCH 41/50] fix: layers and inputs called items, _asdict or adjust
 broke the buffer view

---
 brainstorm/structure/buffer_views.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/brainstorm/structure/buffer_views.py b/brainstorm/structure/buffer_views.py
index dfc17d2..f2c0d4a 100644
--- a/brainstorm/structure/buffer_views.py
+++ b/brainstorm/structure/buffer_views.py
@@ -14,17 +14,22 @@ class BufferView(list):
         self._full_buffer = full_buffer
         self._buffer_names = tuple(buffer_names)
         self._keys = set(buffer_names)
-        for i, n in enumerate(buffer_names):
-            self.__dict__[n] = self[i]
+        self._set_attributes()
 
     def adjust(self, buffer_names, buffers, full_buffer=None):
         assert self._buffer_names == tuple(buffer_names)
         self._full_buffer = full_buffer
-        for i, (n, b) in enumerate(zip(buffer_names, buffers)):
+        for i, b in enumerate(buffers):
             self[i] = b
-            self.__dict__[n] = self[i]
+        self._set_attributes()
         return self
 
+    def _set_attributes(self):
+        for i, n in enumerate(self._buffer_names):
+            # names like items or keys must not hide the methods
+            if n not in self._RESERVED:
+                self.__dict__[n] = self[i]
+
     def _asdict(self):
         return dict(zip(self._buffer_names, self))
 
@@ -41,7 +46,7 @@ class BufferView(list):
         if isinstance(item, int):
             return super(BufferView, self).__getitem__(item)
         if item in self._keys:
-            return self.__dict__[item]
+            return self[self._buffer_names.index(item)]
         elif '.' in item:
             return get_by_path(self, item)
 
@@ -50,3 +55,7 @@ class BufferView(list):
 
     def __contains__(self, item):
         return item in self._buffer_names
+
+
+BufferView._RESERVED = frozenset(vars(BufferView)) | {
+    '_full_buffer', '_buffer_names', '_keys', '_RESERVED'}
-- 
2.43.0


From 3d214dac27c8c6910e0586817a17ee8ba2cbbba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:19 +0000
Subject: [PATCH 42/50] fix: layers called parameters or gradients clashed with
 the flat vectors

---
 brainstorm/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/utils.py b/brainstorm/utils.py
index 375f72c..8880e8e 100644
--- a/brainstorm/utils.py
+++ b/brainstorm/utils.py
@@ -16,7 +16,7 @@ product = lambda arr: reduce(operator.mul, arr, 1)
 
 PYTHON_IDENTIFIER = re.compile("^[_a-zA-Z][_a-zA-Z0-9]*$")
 
-NAME_BLACKLIST = {'default', 'fallback'}
+NAME_BLACKLIST = {'default', 'fallback', 'parameters', 'gradients'}
 
 
 def is_valid_layer_name(identifier):
-- 
2.43.0


From 9a712aff07df28cc4453dea0b2007564cb77d06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:15 +0000
Subject: [PATCH 43/50] fix: modifiers from several patterns were applied in a
 different order in every run

---
 brainstorm/structure/view_references.py | 34 ++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/brainstorm/structure/view_references.py b/brainstorm/structure/view_references.py
index b7a26b3..7b487f9 100644
--- a/brainstorm/structure/view_references.py
+++ b/brainstorm/structure/view_references.py
@@ -10,6 +10,32 @@ from brainstorm.structure.buffer_views import BufferView
 from brainstorm.utils import NetworkValidationError, is_valid_layer_name
 
 
+class OrderedSet(set):
+    """A set that iterates over its items in the order of insertion."""
+
+    def __init__(self, items=()):
+        super(OrderedSet, self).__init__()
+        self._order = []
+        self.update(items)
+
+    def __iter__(self):
+        return iter(self._order)
+
+    def add(self, item):
+        if item not in self:
+            super(OrderedSet, self).add(item)
+            self._order.append(item)
+
+    def update(self, items):
+        for item in items:
+            self.add(item)
+
+    def pop(self):
+        item = self._order.pop(0)
+        self.remove(item)
+        return item
+
+
 def get_regex_for_reference(reference):
     """
     Return a corresponding regex for refs like: 'FooLayer', 'I*_bias',
@@ -41,7 +67,7 @@ def get_key_to_references_mapping(keys, references):
         dict[str, set[str]]:
             Dictionary mapping keys to sets of matching references.
     """
-    key_to_reference = {key: set() for key in keys}
+    key_to_reference = {key: OrderedSet() for key in keys}
 
     for ref in references:
         if ref in {'default', 'fallback'}:
@@ -83,7 +109,7 @@ def empty_dict_from(structure):
     if isinstance(structure, (dict, BufferView)):
         return {k: empty_dict_from(v) for k, v in structure.items()}
     else:
-        return Node(set(), set(), set())
+        return Node(OrderedSet(), OrderedSet(), OrderedSet())
 
 
 def add_or_update(s, v):
@@ -138,9 +164,9 @@ def evaluate_defaults(structure):
         assert isinstance(structure, Node)
         if not structure.content:
             assert len(structure.defaults) <= 1
-            return set(structure.defaults)
+            return OrderedSet(structure.defaults)
         else:
-            return set(structure.content)
+            return OrderedSet(structure.content)
 
 
 def get_fallbacks(structure):
-- 
2.43.0


From 3768f207e148a0b0cd65f167f3c11f980e5f3a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:16 +0000
Subject: [PATCH 44/50] fix: a progress bar ended training that was continued,
 and failed after a stop within an epoch

---
 brainstorm/hooks.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 3821a04..b511803 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -848,29 +848,36 @@ else:
 
 class ProgressBar(Hook):
     """ Adds a progress bar to show the training progress. """
-    __undescribed__ = {'length': None, 'bar': None}
+    __undescribed__ = {'length': None, 'bar': None, 'current_epoch_nr': None,
+                       'previous_updates': None}
 
     def __init__(self):
         super(ProgressBar, self).__init__(None, 'update', 1)
         self.length = None
         self.bar = None
+        self.current_epoch_nr = None
+        self.previous_updates = None
 
     def start(self, net, stepper, verbose, named_data_iters):
         assert 'training_data_iter' in named_data_iters
         self.length = named_data_iters['training_data_iter'].length
+        self.current_epoch_nr = None
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
-        assert epoch_nr == 0 or math.ceil(update_nr / self.length) == epoch_nr
-        if update_nr % self.length == 1:
+        if self.current_epoch_nr is None:  # the call before training starts
+            self.current_epoch_nr = epoch_nr
+            return
+
+        if epoch_nr != self.current_epoch_nr:  # the first update of an epoch
+            self.current_epoch_nr = epoch_nr
+            self.previous_updates = update_nr - 1
             self.bar = progress_bar(self.length)
             print(next(self.bar), end='')
-            sys.stdout.flush()
-        elif update_nr % self.length == 0:
-            if self.bar:
-                print(self.bar.send(self.length))
-        else:
-            print(self.bar.send(update_nr % self.length), end='')
-            sys.stdout.flush()
+        progress = update_nr - self.previous_updates
+        assert progress <= self.length
+        print(self.bar.send(progress),
+              end='\n' if progress == self.length else '')
+        sys.stdout.flush()
 
 
 # ----------------------------- Miscellaneous ------------------------------- #
-- 
2.43.0


From a1d0298b39b3f37b25e33a5185893d35d5c82b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:38 +0000
Subject: [PATCH 45/50] fix: changing an architecture after creating a network
 from it changed the network's description

---
 brainstorm/structure/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index 5310574..7b4d7df 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -4,6 +4,7 @@ from __future__ import division, print_function, unicode_literals
 
 import json
 from collections import OrderedDict
+from copy import deepcopy
 
 import h5py
 import numpy as np
@@ -61,6 +62,8 @@ class Network(Seedable):
             Network:
                 A fully functional Network instance.
         """
+        # keep a copy, because the caller might go on to change the original
+        architecture = deepcopy(architecture)
         layers = instantiate_layers_from_architecture(architecture)
         hubs, layout = create_layout(layers)
         buffer_manager = BufferManager(layout, hubs)
-- 
2.43.0


From 989581dcd2695754ecddac33812dd4a54f709cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:18 +0000
Subject: [PATCH 46/50] fix: contexts of sizes other than one were cut wrongly
 when passed on

Sources with different context sizes in the same buffer, and passes over
fewer time steps than the context size, lost the context of a layer.
---
 brainstorm/structure/buffers.py | 20 +++++++++++++++-----
 brainstorm/structure/layout.py  | 11 +++++++++++
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/brainstorm/structure/buffers.py b/brainstorm/structure/buffers.py
index e3d219b..b441263 100644
--- a/brainstorm/structure/buffers.py
+++ b/brainstorm/structure/buffers.py
@@ -120,11 +120,21 @@ class BufferManager(object):
                 c = self.handler.zeros(
                     (hub.context_size, self.batch_size, hub.size))
 
-                context_start_idx = self.time_size - hub.context_size
-                context_stop_idx = self.time_size
-
-                self.handler.copy_to(buf[context_start_idx:context_stop_idx],
-                                     c)
+                # every source starts at time index 0 of the hub, so its last
+                # context_size time steps end at time_size
+                for (start, stop), size in hub.get_context_sizes():
+                    # if there are fewer time steps than that, then keep some
+                    # of the previous context too
+                    new = min(size, self.time_size)
+                    old = size - new
+                    if old:
+                        self.handler.copy_to(
+                            buf[self.time_size + new:self.time_size + size, :,
+                                start:stop], c[:old, :, start:stop])
+                    if new:
+                        self.handler.copy_to(
+                            buf[self.time_size - new:self.time_size, :,
+                                start:stop], c[old:size, :, start:stop])
                 context.append(c)
 
         return context
diff --git a/brainstorm/structure/layout.py b/brainstorm/structure/layout.py
index c78390b..48d6114 100644
--- a/brainstorm/structure/layout.py
+++ b/brainstorm/structure/layout.py
@@ -35,6 +35,7 @@ class Hub(object):
         hub.setup(connections)
         hub.sizes = [structs[i].feature_size for i in hub.perm]
         hub.size = sum(hub.sizes)
+        hub.context_sizes = [structs[i].context_size for i in hub.perm]
         hub.is_backward_only = ensure_uniform([structs[i].is_backward_only
                                                for i in hub.perm])
         return hub
@@ -47,6 +48,7 @@ class Hub(object):
         self.context_size = context_size
         self.connection_table = []
         self.sizes = []
+        self.context_sizes = []
         self.size = -1
         self.perm = None
 
@@ -130,6 +132,15 @@ class Hub(object):
                         np.argmax(self.connection_table[::-1, i])]
             yield sink_name, (int(start), int(stop))
 
+    def get_context_sizes(self):
+        """Yield slices of the hub with the context size they need."""
+        start = 0
+        for context_size, sources in itertools.groupby(
+                zip(self.context_sizes, self.sizes), key=lambda s: s[0]):
+            stop = start + int(sum(size for _, size in sources))
+            yield (start, stop), context_size
+            start = stop
+
 
 def create_layout(layers):
     # gather connections and order-constraints
-- 
2.43.0


From a7f6fe10aa836536f7c351fa2b97acf53e6d3b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:55 +0000
Subject: [PATCH 47/50] fix: a failure while the buffers are resized or moved
 to another handler lost the parameters

---
 brainstorm/structure/buffers.py | 53 ++++++++++++++++++++-------------
 brainstorm/structure/network.py |  2 +-
 2 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/brainstorm/structure/buffers.py b/brainstorm/structure/buffers.py
index b441263..392cd93 100644
--- a/brainstorm/structure/buffers.py
+++ b/brainstorm/structure/buffers.py
@@ -70,44 +70,55 @@ class BufferManager(object):
         if time_size == self.time_size and batch_size == self.batch_size:
             return self.views  # lazy
 
-        self.time_size = time_size
-        self.batch_size = batch_size
         total_size, slices, shapes = get_total_size_slices_and_shapes(
             self.hubs, time_size, batch_size)
 
-        if total_size > self.size:
-            self.full_buffer = self.handler.allocate((total_size,))
-            self.size = total_size
+        # anything in here might fail (e.g. because there is not enough
+        # memory), so the current buffers are kept until everything is ready
+        full_buffer, size = self.full_buffer, self.size
+        if total_size > size:
+            full_buffer = self.handler.allocate((total_size,))
+            size = total_size
 
-        self.buffers = [self.full_buffer[slices[i]].reshape(shapes[i])
-                        for i in range(len(self.hubs))]
+        buffers = [full_buffer[slices[i]].reshape(shapes[i])
+                   for i in range(len(self.hubs))]
 
-        parameters = None
         if self.views is not None:
             # copy the parameters
             parameters = self.handler.get_numpy_copy(self.views.parameters)
+            new_views = create_buffer_views_from_layout(
+                self.layout, buffers, self.hubs)
+            self.handler.set_from_numpy(new_views.parameters, parameters)
 
         self.views = create_buffer_views_from_layout(
-            self.layout, self.buffers, self.hubs, existing_view=self.views)
-
-        if parameters is not None:
-            self.handler.set_from_numpy(self.views.parameters, parameters)
+            self.layout, buffers, self.hubs, existing_view=self.views)
+        self.full_buffer = full_buffer
+        self.size = size
+        self.buffers = buffers
+        self.time_size = time_size
+        self.batch_size = batch_size
 
         return self.views
 
     def set_handler(self, new_handler):
-        self.full_buffer = None
-        self.size = -1
-        self.time_size = -1
-        self.batch_size = -1
+        old_state = dict(self.__dict__)
         parameters = None
         if self.views is not None:
             parameters = self.handler.get_numpy_copy(self.views.parameters)
-        self.views = None
-        self.handler = new_handler
-        self.resize(0, 0)
-        if parameters is not None:
-            self.handler.set_from_numpy(self.views.parameters, parameters)
+        try:
+            self.full_buffer = None
+            self.size = -1
+            self.time_size = -1
+            self.batch_size = -1
+            self.views = None
+            self.handler = new_handler
+            self.resize(0, 0)
+            if parameters is not None:
+                self.handler.set_from_numpy(self.views.parameters, parameters)
+        except BaseException:
+            # do not lose the parameters
+            self.__dict__.update(old_state)
+            raise
 
     def get_context(self):
         if self.buffers is None:
diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index 7b4d7df..ccc446a 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -379,8 +379,8 @@ class Network(Seedable):
             new_handler (brainstorm.handlers.base_handler.Handler):
                 The new handler this network should use.
         """
-        self.handler = new_handler
         self._buffer_manager.set_handler(new_handler)
+        self.handler = new_handler
         self.buffer = self._buffer_manager.views
         for layer in self.layers.values():
             layer.set_handler(new_handler)
-- 
2.43.0


From 752dae910f323cccf44070a972f125785a1eee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:55 +0000
Subject: [PATCH 48/50] fix: a rejected initialization had already changed the
 network

---
 brainstorm/structure/network.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index ccc446a..5ae2005 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -250,13 +250,14 @@ class Network(Seedable):
         >>> net.initialize({'default': bs.Gaussian()}, seed=1234)
         """
         init_refs = _update_references_with_dict(default_or_init_dict, kwargs)
-        self.initializers = get_description(init_refs)
+        init_description = get_description(init_refs)
         all_parameters = {k: v.parameters
                           for k, v in self.buffer.items()
                           if isinstance(v, BufferView) and 'parameters' in v}
         _replace_lists_with_array_initializers(init_refs)
         initializers, fallback = resolve_references(all_parameters, init_refs)
         init_rnd = self.rnd.create_random_state(seed)
+        values = []
         for layer_name, views in sorted(all_parameters.items()):
             if views is None:
                 continue
@@ -277,10 +278,15 @@ class Network(Seedable):
                             layer_name, view_name, fb))
 
                 fb = fb.pop() if len(fb) else None
-                self.handler.set_from_numpy(
-                    view,
-                    evaluate_initializer(init.pop(), view.shape, fb,
-                                         seed=init_rnd.generate_seed()))
+                values.append(
+                    (view, evaluate_initializer(
+                        init.pop(), view.shape, fb,
+                        seed=init_rnd.generate_seed())))
+
+        # only change the network once nothing can be rejected anymore
+        for view, value in values:
+            self.handler.set_from_numpy(view, value)
+        self.initializers = init_description
 
     def set_weight_modifiers(self, default_or_mod_dict=None, **kwargs):
         """
-- 
2.43.0


From 97dfb09ec9b9cccb606367155dbb19087a031752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:17 +0000
Subject: [PATCH 49/50] fix: SaveBestNetwork counted a best network that it
 failed to save

---
 brainstorm/hooks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index b511803..8e7b5ab 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -142,8 +142,6 @@ class SaveBestNetwork(Hook):
             imp = last > self.best_so_far
 
         if imp:
-            self.best_so_far = last
-            self.best_t = epoch_nr if self.timescale == 'epoch' else update_nr
             params = net.get('parameters')
             if self.filename is not None:
                 self.message("{} improved (criterion: {}). Saving network to "
@@ -154,6 +152,9 @@ class SaveBestNetwork(Hook):
                 self.message("{} improved (criterion: {}). Caching parameters".
                              format(self.log_name, self.criterion))
                 self.parameters = params
+            # only once it is saved, so that a failure can be tried again
+            self.best_so_far = last
+            self.best_t = epoch_nr if self.timescale == 'epoch' else update_nr
         else:
             self.message("Last saved parameters at {} {} when {} was {}".
                          format(self.timescale, self.best_t, self.log_name,
-- 
2.43.0


From c83c8c6f018c11f3262f9a529953bfdc4374e8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:44 +0000
Subject: [PATCH 50/50] fix: kernels of size zero or less and drop
 probabilities outside [0, 1) were accepted

Pooling with a non-positive kernel size and convolution with a kernel of size
zero were accepted and computed nonsense; Dropout accepted any drop_prob, in
training dividing by zero or by a negative number.
---
 brainstorm/layers/convolution_layer_2d.py | 2 ++
 brainstorm/layers/dropout_layer.py        | 5 +++++
 brainstorm/layers/pooling_layer_2d.py     | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/brainstorm/layers/convolution_layer_2d.py b/brainstorm/layers/convolution_layer_2d.py
index 64c6088..75e66e3 100644
--- a/brainstorm/layers/convolution_layer_2d.py
+++ b/brainstorm/layers/convolution_layer_2d.py
@@ -43,6 +43,8 @@ class Convolution2DLayerImpl(Layer):
         assert type(kernel_size) in [list, tuple] and \
             len(kernel_size) == 2, "Kernel size must be list or tuple  of " \
                                    "length 2: {}".format(kernel_size)
+        assert kernel_size[0] > 0 and kernel_size[1] > 0, \
+            "Invalid kernel size: {}".format(kernel_size)
         assert type(stride) in [list, tuple] and len(stride) == 2, \
             "Stride must be list or tuple of length 2: {}".format(stride)
         in_shape = self.in_shapes['default'].feature_shape
diff --git a/brainstorm/layers/dropout_layer.py b/brainstorm/layers/dropout_layer.py
index c678c9b..febccf0 100644
--- a/brainstorm/layers/dropout_layer.py
+++ b/brainstorm/layers/dropout_layer.py
@@ -7,6 +7,7 @@ from collections import OrderedDict
 from brainstorm.layers.base_layer import Layer
 from brainstorm.structure.buffer_structure import StructureTemplate
 from brainstorm.structure.construction import ConstructionWrapper
+from brainstorm.utils import LayerValidationError
 
 
 def Dropout(drop_prob=0.5, name=None):
@@ -25,6 +26,10 @@ class DropoutLayerImpl(Layer):
 
     def setup(self, kwargs, in_shapes):
         self.drop_prob = kwargs.get('drop_prob', 0.5)
+        if not 0.0 <= self.drop_prob < 1.0:
+            raise LayerValidationError('drop_prob must be at least 0 and less '
+                                       'than 1 but was {}'
+                                       .format(self.drop_prob))
 
         outputs = OrderedDict()
         outputs['default'] = in_shapes['default']
diff --git a/brainstorm/layers/pooling_layer_2d.py b/brainstorm/layers/pooling_layer_2d.py
index 9e0a635..2014e88 100644
--- a/brainstorm/layers/pooling_layer_2d.py
+++ b/brainstorm/layers/pooling_layer_2d.py
@@ -41,6 +41,8 @@ class Pooling2DLayerImpl(Layer):
             len(kernel_size) == 2, "Kernel size must be list or " \
                                    "tuple  of length 2: {}".format(
                                    kernel_size)
+        assert kernel_size[0] > 0 and kernel_size[1] > 0, \
+            "Invalid kernel size: {}".format(kernel_size)
         assert type(stride) in [list, tuple] and len(stride) == 2, \
             "Stride must be list or tuple of length 2: {}".format(stride)
         assert stride[0] >= 0 and stride[1] >= 0, \
-- 
2.43.0

