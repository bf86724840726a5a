From e8e64176aeb3910ab53c9cc1da499a55309bef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 01/85] fix: constant weights no longer give NaN conductances
 in the single-device converter

---
 src/aihwkit/inference/converter/conductance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/converter/conductance.py b/src/aihwkit/inference/converter/conductance.py
index bf19ea0..f1c79c6 100644
--- a/src/aihwkit/inference/converter/conductance.py
+++ b/src/aihwkit/inference/converter/conductance.py
@@ -376,7 +376,7 @@ class SingleDeviceConductanceConverter(BaseConductanceConverter):
     def convert_to_conductances(self, weights: Tensor) -> Tuple[List[Tensor], Dict]:
         w_min = weights.min()
         w_max = weights.max()
-        scale_ratio = (self.g_max - self.g_min) / (w_max - w_min)
+        scale_ratio = (self.g_max - self.g_min) / (w_max - w_min).clamp(min=_ZERO_CLIP)
         scaled_weights = (weights - w_min) * scale_ratio
         conductance = scaled_weights + self.g_min
         params = {"scale_ratio": scale_ratio, "min": w_min}
-- 
2.43.0


From 86d22392315d41bb6fbf5f9fdad6b5bca50c2d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 02/85] fix: recalculate the unfolding indexes of convolutions
 when the image shape changes

The index cache was keyed on the number of image elements only, so an image of
a different shape with the same number of elements used stale indexes.
---
 src/aihwkit/nn/modules/conv.py        | 6 ++++--
 src/aihwkit/nn/modules/conv_mapped.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/nn/modules/conv.py b/src/aihwkit/nn/modules/conv.py
index 6859e95..10440db 100644
--- a/src/aihwkit/nn/modules/conv.py
+++ b/src/aihwkit/nn/modules/conv.py
@@ -92,6 +92,7 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
 
         self.fold_indices = Tensor().detach()
         self.input_size = 0
+        self.input_shape = ()  # type: Tuple[int, ...]
         self.tensor_view = (-1,)  # type: Tuple[int, ...]
 
         # Unregister weight/bias as a parameter but keep it for syncs
@@ -164,9 +165,10 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
         if not use_indexed and self.NEEDS_INDEXED:
             raise ModuleError("Tile module does not support indexed computation.")
         if use_indexed:
-            input_size = x_input.numel() / x_input.size(0)
-            if self.input_size != input_size or not self.analog_module.is_indexed():
+            input_shape = tuple(x_input.shape[1:])
+            if self.input_shape != input_shape or not self.analog_module.is_indexed():
                 self._recalculate_indexes(x_input)
+                self.input_shape = input_shape
             return self.analog_module(x_input, tensor_view=self.tensor_view)
 
         # Brute-force unfold.
diff --git a/src/aihwkit/nn/modules/conv_mapped.py b/src/aihwkit/nn/modules/conv_mapped.py
index 65caa2f..17e9412 100644
--- a/src/aihwkit/nn/modules/conv_mapped.py
+++ b/src/aihwkit/nn/modules/conv_mapped.py
@@ -110,6 +110,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
         self.use_indexed = self.use_indexed and analog_tile.supports_indexed
 
         self.input_size = 0
+        self.input_shape = ()  # type: Tuple[int, ...]
         self.fold_indices_lst = []  # type: List[Tensor]
         self.tensor_view = (-1,)  # type: Tuple[int, ...]
 
@@ -234,9 +235,10 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
         use_indexed = self.use_indexed and analog_tile.supports_indexed
 
         if use_indexed:
-            input_size = x_input.numel() / x_input.size(0)
-            if self.input_size != input_size or not analog_tile.is_indexed():
+            input_shape = tuple(x_input.shape[1:])
+            if self.input_shape != input_shape or not analog_tile.is_indexed():
                 self._recalculate_indexes(x_input)
+                self.input_shape = input_shape
 
         if self.analog_tile_count() == 1:
             if use_indexed:
-- 
2.43.0


From 9bbe86f421e21be93d5d64f107f191fac8bab05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 03/85] fix: quantized tile arrays with a single tile or
 learned bias quantization can be used

module_out_quantizer was left undefined for arrays of one tile, and the update
index of the learned bias quantizer used a device attribute that does not exist.
---
 src/aihwkit/simulator/tiles/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index 8469312..f9cb998 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -226,6 +226,7 @@ class QuantizedTileModuleArray(TileModuleArray):
         # same bit-precision. The wide layers need to be quantized to equalize
         # the range across the different tiles and keep the precision down
         # in case of bias addition.
+        self.module_out_quantizer = None
         if self.analog_tile_count > 1:
             if rpu_config.act_quant_config is not None and rpu_config.act_quant_config.n_bits > 0:
                 self.module_out_quantizer = QuantizedActivation(
@@ -251,7 +252,7 @@ class QuantizedTileModuleArray(TileModuleArray):
                 )
                 if periph_quant.learn_quant_params:
                     self.bias_quant_update_idx = Parameter(
-                        full((1,), 0.0, device=self.device), requires_grad=False
+                        full((1,), 0.0, device=self.bias.device), requires_grad=False
                     )
             else:
                 self.bias_quantizer = None
-- 
2.43.0


From ac248cd88bb6552ea47482d290bf526db7836395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 04/85] fix: pass the tensor view to the tiles of mapped
 convolutions in indexed mode

Learned column-wise output scales were applied along the last image dimension
instead of the channels.
---
 src/aihwkit/nn/modules/conv_mapped.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/nn/modules/conv_mapped.py b/src/aihwkit/nn/modules/conv_mapped.py
index 17e9412..f44d79c 100644
--- a/src/aihwkit/nn/modules/conv_mapped.py
+++ b/src/aihwkit/nn/modules/conv_mapped.py
@@ -242,7 +242,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
 
         if self.analog_tile_count() == 1:
             if use_indexed:
-                output = analog_tile(x_input)
+                output = analog_tile(x_input, tensor_view=self.tensor_view)
             else:
                 output = self._single_unfold(analog_tile, x_input)
 
@@ -259,7 +259,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
 
             for analog_tile in in_tiles:
                 if use_indexed:
-                    output = analog_tile(x)
+                    output = analog_tile(x, tensor_view=self.tensor_view)
                 else:
                     output = self._single_unfold(analog_tile, x)
                 out_result.append(output)
-- 
2.43.0


From febaa71ced081756e9db7a897f7c21b1c5f381df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 05/85] fix: no output bound gradient mask for perfect forward
 passes

With forward.is_perfect no output is clipped, but gradients of outputs beyond
forward.out_bound were still zeroed.
---
 src/aihwkit/simulator/tiles/rpucuda.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/rpucuda.py b/src/aihwkit/simulator/tiles/rpucuda.py
index 639a925..b986be6 100644
--- a/src/aihwkit/simulator/tiles/rpucuda.py
+++ b/src/aihwkit/simulator/tiles/rpucuda.py
@@ -120,7 +120,9 @@ class RPUCudaSimulatorTileWrapper(SimulatorTileWrapper):
         """Helper for getting the output bound to correct the
         gradients using the AnalogFunction.
         """
-        if hasattr(self.rpu_config, "forward") and self.rpu_config.forward.out_bound > 0:
+        if not hasattr(self.rpu_config, "forward") or self.rpu_config.forward.is_perfect:
+            return None
+        if self.rpu_config.forward.out_bound > 0:
             return self.rpu_config.forward.out_scale * self.rpu_config.forward.out_bound * 0.999
         return None
 
-- 
2.43.0


From e2729bda666c91260f0a9d6fe2d71c12f091d2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 06/85] fix: apply per-output noise strengths along the output
 dimension of the torch tile

---
 src/aihwkit/simulator/tiles/analog_mvm.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm.py b/src/aihwkit/simulator/tiles/analog_mvm.py
index b05932e..c39e74d 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm.py
@@ -258,9 +258,8 @@ class AnalogMVM:
             if out_noise_values is None:
                 out_values += io_pars.out_noise * randn_like(out_values)
             else:
-                out_values += randn_like(out_values) * out_noise_values.view(
-                    1, -1, *((1,) * (out_values.ndim - 2))
-                )
+                # outputs are along the last dimension
+                out_values += randn_like(out_values) * out_noise_values
 
         # - Discretize
         if res > 0:
-- 
2.43.0


From a095fed95d7157308df5364a8f472f009fcf2c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 07/85] fix: PCM read noise of the IR-drop tile handles zero
 inputs

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index 2207b7e..145ad4c 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -246,7 +246,7 @@ class AnalogMVMIRDropT(AnalogMVM):
         if t_integration > 0.:
             x = torch_log10(t_integration)
         else:
-            torch.tensor(0., dtype=t_integration.dtype, device=t_integration.device)
+            x = torch.tensor(0., dtype=t_integration.dtype, device=t_integration.device)
 
         # Convert weights into conductance units
         conductances_lst, params = g_converter.convert_to_conductances(weight)
-- 
2.43.0


From 922123772c827600dcb7db4474b76be9abb8603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 08/85] fix: gradient_scale of the input range also applies to
 absolute gradients

---
 src/aihwkit/simulator/tiles/inference_torch.py | 2 +-
 src/aihwkit/simulator/tiles/periphery.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference_torch.py b/src/aihwkit/simulator/tiles/inference_torch.py
index 305e6b6..966e40b 100644
--- a/src/aihwkit/simulator/tiles/inference_torch.py
+++ b/src/aihwkit/simulator/tiles/inference_torch.py
@@ -56,7 +56,7 @@ class InputRangeForward(Function):
 
             if ir_params.gradient_relative:
                 ir_grad *= input_range
-                ir_grad *= ir_params.gradient_scale
+            ir_grad *= ir_params.gradient_scale
 
             if ir_params.manage_output_clipping:
                 raise NotImplementedError
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 4747399..dd8ba48 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1123,7 +1123,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
             if ir_params.gradient_relative:
                 grad *= self.input_range
-                grad *= ir_params.gradient_scale
+            grad *= ir_params.gradient_scale
 
             zero_grad_msk = (
                 None if len(ctx.saved_analog_tensors) < 2 else ctx.saved_analog_tensors[1]
-- 
2.43.0


From 664017f851649f5043525e96263fab0d54984814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 09/85] fix: percentage of clipped outputs is relative to the
 number of outputs

---
 src/aihwkit/simulator/tiles/periphery.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index dd8ba48..ea2deb7 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1129,7 +1129,8 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
                 None if len(ctx.saved_analog_tensors) < 2 else ctx.saved_analog_tensors[1]
             )
             if ir_params.manage_output_clipping and zero_grad_msk is not None:
-                output_percentage = 1.0 - zero_grad_msk.count_nonzero().item() / d_output.numel()
+                n_clipped = zero_grad_msk.count_nonzero().item()
+                output_percentage = 1.0 - n_clipped / zero_grad_msk.numel()
                 grad -= (
                     (1.0 - output_percentage)
                     * self.input_range
-- 
2.43.0


From 66fe21d4864b0810cfb2ada0ac9512c7059ac405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 10/85] fix: a learned input range stays positive after the
 initialization phase

---
 src/aihwkit/simulator/tiles/periphery.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index ea2deb7..6103728 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -825,7 +825,8 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
                     ) / (idx + 1)
                     self.input_range_update_idx.data += 1
 
-                self.input_range.data = self.input_range.data.abs()
+            # the optimizer might have changed the sign
+            self.input_range.data = self.input_range.data.abs()
 
         return clamp(
             values,
-- 
2.43.0


From 8cb519f235cc4a94a4e3b9798d34faae39e72fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 11/85] fix: apply_noise without inference time returns the
 programmed weights

---
 src/aihwkit/inference/noise/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/inference/noise/base.py b/src/aihwkit/inference/noise/base.py
index b20bf89..0e0b3ef 100644
--- a/src/aihwkit/inference/noise/base.py
+++ b/src/aihwkit/inference/noise/base.py
@@ -63,9 +63,8 @@ class BaseNoiseModel:
             g_prog = self.apply_programming_noise_to_conductance(g_target)
             if t_inference > 0:
                 nu_drift = self.generate_drift_coefficients(g_target)
-                noisy_conductances.append(
-                    self.apply_drift_noise_to_conductance(g_prog, nu_drift, t_inference)
-                )
+                g_prog = self.apply_drift_noise_to_conductance(g_prog, nu_drift, t_inference)
+            noisy_conductances.append(g_prog)
 
         noisy_weights = self.g_converter.convert_back_to_weights(noisy_conductances, params)
 
-- 
2.43.0


From 4362161f8e5d9fd290c2f187269d80ac06d70065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 12/85] fix: noise models store the reference conductance of
 their coefficients

---
 src/aihwkit/inference/noise/hermes.py | 3 ++-
 src/aihwkit/inference/noise/pcm.py    | 3 ++-
 src/aihwkit/inference/noise/reram.py  | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/inference/noise/hermes.py b/src/aihwkit/inference/noise/hermes.py
index c7a84ff..8ed8c51 100644
--- a/src/aihwkit/inference/noise/hermes.py
+++ b/src/aihwkit/inference/noise/hermes.py
@@ -133,7 +133,8 @@ class HermesNoiseModel(BaseNoiseModel):
             raise ValueError("g_max cannot be established from g_converter")
 
         if prog_coeff_g_max_reference is None:
-            self.prog_coeff_g_max_reference = self.g_max
+            prog_coeff_g_max_reference = self.g_max
+        self.prog_coeff_g_max_reference = prog_coeff_g_max_reference
 
         if prog_coeff is None:
             # standard g_max are defined in respect to 20.7 or 10.35 uS. Need to
diff --git a/src/aihwkit/inference/noise/pcm.py b/src/aihwkit/inference/noise/pcm.py
index fbaa4c5..e121326 100644
--- a/src/aihwkit/inference/noise/pcm.py
+++ b/src/aihwkit/inference/noise/pcm.py
@@ -81,7 +81,8 @@ class PCMLikeNoiseModel(BaseNoiseModel):
             raise ValueError("g_max cannot be established from g_converter")
 
         if prog_coeff_g_max_reference is None:
-            self.prog_coeff_g_max_reference = self.g_max
+            prog_coeff_g_max_reference = self.g_max
+        self.prog_coeff_g_max_reference = prog_coeff_g_max_reference
 
         if prog_coeff is None:
             # standard g_max are defined in respect to 25.0 uS. Need to
diff --git a/src/aihwkit/inference/noise/reram.py b/src/aihwkit/inference/noise/reram.py
index d154953..9f38765 100644
--- a/src/aihwkit/inference/noise/reram.py
+++ b/src/aihwkit/inference/noise/reram.py
@@ -80,7 +80,8 @@ class ReRamWan2022NoiseModel(BaseNoiseModel):
             raise ValueError("g_max cannot be established from g_converter")
 
         if coeff_g_max_reference is None:
-            self.coeff_g_max_reference = self.g_max
+            coeff_g_max_reference = self.g_max
+        self.coeff_g_max_reference = coeff_g_max_reference
 
         if coeff_dic is None:
             # standard g_max are defined in respect to 40.0 uS. Need to
@@ -91,7 +92,7 @@ class ReRamWan2022NoiseModel(BaseNoiseModel):
                 3600 * 24.0: [-16.458, 47.095, -50.773, 22.086, 0.701][::-1],
                 3600 * 24.0 * 2: [-11.934, 37.062, -43.507, 20.274, 0.782][::-1],
             }
-            self.prog_coeff_g_max_reference = 40.0
+            self.coeff_g_max_reference = 40.0
         self.coeff_dic = coeff_dic
         self.noise_scale = noise_scale
 
-- 
2.43.0


From a3eaa11760b427044c02925cd5aa3e471dd74f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 13/85] fix: drift coefficients of the custom drift model do
 not modify the target conductances

---
 src/aihwkit/inference/noise/pcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/inference/noise/pcm.py b/src/aihwkit/inference/noise/pcm.py
index e121326..e90337c 100644
--- a/src/aihwkit/inference/noise/pcm.py
+++ b/src/aihwkit/inference/noise/pcm.py
@@ -281,8 +281,8 @@ class CustomDriftPCMLikeNoiseModel(PCMLikeNoiseModel):
         g_min = torch_min(g_lst)
         g_max = torch_max(g_lst)
 
-        g_target[g_target > g_max] = g_max  # clip G values to g_max
-        g_target[g_target < g_min] = g_min  # clip G values to g_min
+        # clip G values to the range of the model without changing the given tensor
+        g_target = clamp(g_target, min=g_min, max=g_max)
 
         assert (g_target >= g_min).all(), "All G values must be >= g_min"
         assert (g_target <= g_max).all(), "All G values must be <= g_max"
-- 
2.43.0


From a633de06748745c434e333803d5d9157de39da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 14/85] fix: program_weights can be repeated from the reference
 and accepts x_values

---
 src/aihwkit/simulator/tiles/periphery.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 6103728..7cdfb77 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -278,12 +278,12 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
         if not from_reference or self.reference_combined_weights is None:
             self.reference_combined_weights = self.tile.get_weights()
-            target_weights = self.reference_combined_weights
+        target_weights = self.reference_combined_weights
 
         if x_values is None:
             x_values = eye(self.tile.get_x_size())
-            x_values = x_values.to(self.device)
-            target_values = x_values @ target_weights.to(self.device).T
+        x_values = x_values.to(self.device)
+        target_values = x_values @ target_weights.to(self.device).T
 
         target_max = target_values.abs().max().item()
         if isinstance(w_init, Tensor):
-- 
2.43.0


From e2ee6123be2ea0e6f01af2f94128ea0b93c31a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 15/85] fix: drift read-out of tiles with transposed inputs

---
 src/aihwkit/simulator/tiles/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index ccc5c4a..6e96572 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -129,7 +129,7 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
                 .to(self.device)
             )
             if self.in_trans:
-                self.drift_readout_tensor = self.drift_readout_tensor.tranpose(
+                self.drift_readout_tensor = self.drift_readout_tensor.transpose(
                     0, 1
                 ).clone()
         else:
-- 
2.43.0


From 95187d18f894a75ac17d4cc7914a48caee5e858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 16/85] fix: writing weights without weight scaling resets the
 digital scales

---
 src/aihwkit/simulator/tiles/periphery.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 7cdfb77..8add54c 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -493,6 +493,11 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
             combined_weights = combined_weights / alpha
 
             self.set_scales(alpha)
+        elif self.get_scales() is not None:
+            # no scaling: scales left from before would distort the weights
+            if self.mapping_scales is not None:
+                self.set_mapping_scales(1.0)
+            self.set_learned_out_scales(1.0)
         return combined_weights
 
     @no_grad()
@@ -524,7 +529,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         if isinstance(mapping_scales, float):
             if self.mapping_scales is None:
                 self.mapping_scales = ones((1,), dtype=self.get_dtype(), device=self.device)
-                self.mapping_scales[:] = mapping_scales
+            self.mapping_scales[:] = mapping_scales
         elif isinstance(self.mapping_scales, Tensor) and len(mapping_scales) == 1:
             self.mapping_scales[:] = mapping_scales.to(self.device)
         else:
-- 
2.43.0


From a1d76139cf4f90347bdd100b016197c6486c7ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 17/85] fix: discretize weight modifier with per-batch samples
 in the torch tile

---
 src/aihwkit/simulator/tiles/torch_tile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index 6bae2a2..ecfaffa 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -240,7 +240,7 @@ class TorchSimulatorTile(SimulatorTile, Module):
 
         if modifier.type == WeightModifierType.DISCRETIZE:
             # - Discretize the weights on the fly and backprob through them
-            out_weight = inp_weight.clone().view(target_shape)
+            out_weight = inp_weight.clone().expand(target_shape)
             out_weight = UniformQuantize.apply(
                 out_weight, modifier.res, assumed_wmax, modifier.sto_round
             )
-- 
2.43.0


From 536657b9a7a49d9948f61716606d88576ab2ca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 18/85] fix: weight modifier of the torch tile for all-zero
 weights

---
 src/aihwkit/simulator/tiles/torch_tile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index ecfaffa..4b76fee 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -8,7 +8,7 @@
 
 from typing import Callable, Any, Type, TYPE_CHECKING
 
-from torch import Tensor, zeros, clamp, randn
+from torch import Tensor, zeros, clamp, randn, ones_like, where
 from torch.nn import Parameter, Module
 from torch.autograd import no_grad
 
@@ -237,6 +237,7 @@ class TorchSimulatorTile(SimulatorTile, Module):
         assumed_wmax = modifier.assumed_wmax
         if modifier.rel_to_actual_wmax:
             assumed_wmax = inp_weight.abs().max()
+            assumed_wmax = where(assumed_wmax > 0.0, assumed_wmax, ones_like(assumed_wmax))
 
         if modifier.type == WeightModifierType.DISCRETIZE:
             # - Discretize the weights on the fly and backprob through them
-- 
2.43.0


From b1986b9fcdf35f644cfd524f50eac7863f613d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 19/85] fix: remapping of zero weights in the torch tile

---
 src/aihwkit/simulator/tiles/torch_tile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index 4b76fee..cbab32a 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -128,10 +128,12 @@ class TorchSimulatorTile(SimulatorTile, Module):
         scaled_weights = self.weight * scales.view(-1, 1)
         if remap.type == WeightRemapType.LAYERWISE_SYMMETRIC:
             new_scale = scaled_weights.abs().max()
+            new_scale = where(new_scale > 0.0, new_scale, ones_like(new_scale))
             self.weight.data = scaled_weights / new_scale
             return new_scale.view(-1)
         if remap.type == WeightRemapType.CHANNELWISE_SYMMETRIC:
             new_scale, _ = scaled_weights.abs().max(1)
+            new_scale = where(new_scale > 0.0, new_scale, ones_like(new_scale))
             self.weight.data = scaled_weights / new_scale.view(-1, 1)
             return new_scale
 
-- 
2.43.0


From 40c4879fe07ae960e68ed11ac2ec5602c5708f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 20/85] fix: allocate the minimum buffer of the channelwise
 asymmetric weight remapping

---
 src/rpucuda/weight_remapper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpucuda/weight_remapper.cpp b/src/rpucuda/weight_remapper.cpp
index cdddc3f..acf4fce 100644
--- a/src/rpucuda/weight_remapper.cpp
+++ b/src/rpucuda/weight_remapper.cpp
@@ -187,6 +187,9 @@ void WeightRemapper<T>::apply(
     if (max_values_.size() < (size_t)d_size_) {
       max_values_.resize(d_size_);
     }
+    if (min_values_.size() < (size_t)d_size_) {
+      min_values_.resize(d_size_);
+    }
     std::fill(max_values_.begin(), max_values_.end(), std::numeric_limits<T>::lowest());
     std::fill(min_values_.begin(), min_values_.end(), std::numeric_limits<T>::max());
 
-- 
2.43.0


From 0f89473f45bfe1cc81c0376c0eb6d878be02fb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 21/85] fix: weight averaging without scales uses each weight

---
 src/rpucuda/weight_remapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/weight_remapper.cpp b/src/rpucuda/weight_remapper.cpp
index acf4fce..64a1a79 100644
--- a/src/rpucuda/weight_remapper.cpp
+++ b/src/rpucuda/weight_remapper.cpp
@@ -269,7 +269,7 @@ bool WeightRemapper<T>::applySWA(
   } else {
     PRAGMA_SIMD
     for (int i = 0; i < size_; i++) {
-      swa_weights[i] = swa_weights[i] * ratio + weights[0] / (T)(n + 1);
+      swa_weights[i] = swa_weights[i] * ratio + weights[i] / (T)(n + 1);
     }
   }
 
-- 
2.43.0


From 1d981ce7196fd086a6b4e4ce2aef189b12844492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 22/85] fix: channelwise asymmetric remapping maps each row
 onto [-1, 1]

---
 src/rpucuda/cuda/weight_remapper_cuda.cu | 10 +++++-----
 src/rpucuda/weight_remapper.cpp          |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/rpucuda/cuda/weight_remapper_cuda.cu b/src/rpucuda/cuda/weight_remapper_cuda.cu
index 9a3c0ea..ccd9546 100644
--- a/src/rpucuda/cuda/weight_remapper_cuda.cu
+++ b/src/rpucuda/cuda/weight_remapper_cuda.cu
@@ -290,18 +290,18 @@ __global__ void kernelRemapScaleAndShiftRowwise(
     T half_span = (max_value - min_value) / (T)2.0;
     half_span = half_span > (T)0.0 ? half_span : (T)1.0;
     T new_scale = s * half_span;
-    T new_b = b - new_scale - s * min_value;
+    T new_b = b + new_scale + s * min_value;
     // T full_w = w*s + b;
     // T new_full_w = new_w*new_scale + new_b;
     /* new_full_w == full_w
        new_w*new_scale + new_b == w*s + b
        new_w == (w*s + b - new_b)/new_scale
-       new_w == (w*s + new_scale + s*min_value)/new_scale
-       new_w == w*s/new_scale + 1 + s*min_value/new_scale
-       new_w == w/half_span + 1 + min_value/half_span
+       new_w == (w*s - new_scale - s*min_value)/new_scale
+       new_w == w*s/new_scale - 1 - s*min_value/new_scale
+       new_w == w/half_span - 1 - min_value/half_span
     */
 
-    weights_out[idx] = w / half_span + (T)1.0 + min_value / half_span;
+    weights_out[idx] = w / half_span - (T)1.0 - min_value / half_span;
 
     if (idx < d_size) {
       scales_out[didx] = new_scale;
diff --git a/src/rpucuda/weight_remapper.cpp b/src/rpucuda/weight_remapper.cpp
index 64a1a79..5b240a9 100644
--- a/src/rpucuda/weight_remapper.cpp
+++ b/src/rpucuda/weight_remapper.cpp
@@ -215,12 +215,12 @@ void WeightRemapper<T>::apply(
       half_span = half_span > (T)0.0 ? half_span : (T)1.0;
 
       T new_scale = s * half_span;
-      T new_b = b - new_scale - s * mn;
+      T new_b = b + new_scale + s * mn;
 
       PRAGMA_SIMD
       for (int j = 0; j < x_size_; j++) {
         weights[j + row_idx * x_size_] =
-            weights[j + row_idx * x_size_] / half_span + (T)1.0 + mn / half_span;
+            weights[j + row_idx * x_size_] / half_span - (T)1.0 - mn / half_span;
       }
 
       scales[row_idx] = new_scale;
-- 
2.43.0


From 4c3245fe6aedb7739af9ae0744267136264a4610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:15 +0000
Subject: [PATCH 23/85] fix: clipping moved weights out of the bounds of
 devices stuck beyond the clipping value

---
 src/rpucuda/rpu_pulsed_device.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index bb4ae5c..e98bf46 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -459,8 +459,10 @@ template <typename T> void PulsedRPUDevice<T>::clipWeights(T **weights, T clip)
   } else {
     PRAGMA_SIMD
     for (int i = 0; i < this->size_; ++i) {
-      w[i] = MIN(w[i], MIN(max_bound[i], clip));
-      w[i] = MAX(w[i], MAX(min_bound[i], -clip));
+      // bounds of the device last, since they might not contain the clipping range
+      w[i] = MAX(MIN(w[i], clip), -clip);
+      w[i] = MIN(w[i], max_bound[i]);
+      w[i] = MAX(w[i], min_bound[i]);
     }
   }
   applyUpdateWriteNoise(weights);
-- 
2.43.0


From e83754cc80f8fbf07b22ff941dd400031bc7a0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:28 +0000
Subject: [PATCH 24/85] fix: bounds of soft bounds reference devices were NaN
 for devices without steps in one direction

---
 src/rpucuda/rpu_softbounds_reference_device.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/rpucuda/rpu_softbounds_reference_device.cpp b/src/rpucuda/rpu_softbounds_reference_device.cpp
index a55deb8..bfb3dcf 100644
--- a/src/rpucuda/rpu_softbounds_reference_device.cpp
+++ b/src/rpucuda/rpu_softbounds_reference_device.cpp
@@ -35,16 +35,9 @@ void SoftBoundsReferenceRPUDevice<T>::populate(
 
       if (w_max > (T)0.0 && w_min < (T)0.0) {
         // only apply an additional variation if consistent
-        // no real need to compute the full slope here, but for clarity
-
-        T current_slope_down = -scale_down / w_min;
-        current_slope_down *= (T)fabsf((T)1.0 + par.slope_down_dtod * rng->sampleGauss());
-
-        T current_slope_up = scale_up / w_max;
-        current_slope_up *= (T)fabsf((T)1.0 + par.slope_up_dtod * rng->sampleGauss());
-
-        w_max = scale_up / current_slope_up;
-        w_min = -scale_down / current_slope_down;
+        // a factor on the slope is the inverse factor on the bound
+        w_min /= (T)fabsf((T)1.0 + par.slope_down_dtod * rng->sampleGauss());
+        w_max /= (T)fabsf((T)1.0 + par.slope_up_dtod * rng->sampleGauss());
         this->w_max_bound_[i][j] = w_max;
         this->w_min_bound_[i][j] = w_min;
       }
-- 
2.43.0


From 2938b2fed1b4489804261ba7cf6e7f4e213ced94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 25/85] fix: pulses at the bounds of power step reference
 devices could reset the weight to the lower bound

---
 src/rpucuda/rpu_powstep_reference_device.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_powstep_reference_device.cpp b/src/rpucuda/rpu_powstep_reference_device.cpp
index 2d5fec6..da0600a 100644
--- a/src/rpucuda/rpu_powstep_reference_device.cpp
+++ b/src/rpucuda/rpu_powstep_reference_device.cpp
@@ -134,10 +134,10 @@ inline void update_once_reference(
   w += ref; // first add
 
   if (sign > 0) {
-    w -= scale_down * (T)powf((w - min_bound) / range, gamma_down) *
+    w -= scale_down * (T)powf(MAX((w - min_bound) / range, (T)0.0), gamma_down) *
          ((T)1.0 + dw_min_std * rng->sampleGauss());
   } else {
-    w += scale_up * (T)powf((max_bound - w) / range, gamma_up) *
+    w += scale_up * (T)powf(MAX((max_bound - w) / range, (T)0.0), gamma_up) *
          ((T)1.0 + dw_min_std * rng->sampleGauss());
   }
   w = MAX(w, min_bound);
-- 
2.43.0


From 36f96c58e3de448710ef29827d3579b6b34754d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 26/85] fix: positive clipping was forgotten by the bound
 management when a later output clips negatively

---
 src/rpucuda/rpu_forward_backward_pass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index 329d62b..bbaee99 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -705,7 +705,7 @@ inline bool finalizeOutputImplStage5(ARGS) {
         bound_test_passed = false;
       } else if (value < -bound) {
         value = -bound;
-        bound_test_passed = !io.bm_test_negative_bound;
+        bound_test_passed = bound_test_passed && !io.bm_test_negative_bound;
       }
     } else {
       value = value > bound ? bound : value;
-- 
2.43.0


From 297d4911663a9ce5e21cad6230a9f446dc291f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 27/85] fix: running average of the noise management was shared
 by forward and backward and lost in copies

---
 src/rpucuda/rpu_forward_backward_pass.cpp | 10 +++++++++-
 src/rpucuda/rpu_forward_backward_pass.h   |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index bbaee99..25dd4db 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -187,6 +187,7 @@ ForwardBackwardPassIOManaged<T>::ForwardBackwardPassIOManaged(
     : ForwardBackwardPass<T>(x_size, d_size) {
   rng_ = rng;
   aux_nm_value_ = (T)-1.0;
+  aux_nm_value_bwd_ = (T)-1.0;
 }
 
 // dtor
@@ -205,6 +206,8 @@ ForwardBackwardPassIOManaged<T>::ForwardBackwardPassIOManaged(
   f_io_ = other.f_io_;
   b_io_ = other.b_io_;
   checked_implemented_ = other.checked_implemented_;
+  aux_nm_value_ = other.aux_nm_value_;
+  aux_nm_value_bwd_ = other.aux_nm_value_bwd_;
   rng_ = other.rng_;
 }
 
@@ -235,6 +238,8 @@ ForwardBackwardPassIOManaged<T>::operator=(ForwardBackwardPassIOManaged<T> &&oth
   f_io_ = other.f_io_;
   b_io_ = other.b_io_;
   checked_implemented_ = other.checked_implemented_;
+  aux_nm_value_ = other.aux_nm_value_;
+  aux_nm_value_bwd_ = other.aux_nm_value_bwd_;
   rng_ = std::move(other.rng_);
 
   return *this;
@@ -1001,7 +1006,7 @@ void ForwardBackwardPassIOManaged<T>::backwardVector(
   // io managed version
   b_io_.bound_management = BoundManagementType::None; // not supported
   T nm_scale_value = computeNoiseManagement(
-      d_input, this->d_size_, d_inc, b_io_.noise_management, aux_nm_value_, b_io_);
+      d_input, this->d_size_, d_inc, b_io_.noise_management, aux_nm_value_bwd_, b_io_);
   bool nm = b_io_.noise_management != NoiseManagementType::None;
   T out_scale = b_io_.out_scale * alpha;
   bool scaling = nm && nm_scale_value > (T)0.0;
@@ -1034,6 +1039,7 @@ void ForwardBackwardPassIOManaged<T>::dumpExtra(RPU::state_t &extra, const std::
 
   RPU::state_t state;
   RPU::insert(state, "aux_nm_value", aux_nm_value_);
+  RPU::insert(state, "aux_nm_value_bwd", aux_nm_value_bwd_);
   RPU::insertWithPrefix(extra, state, prefix);
 }
 
@@ -1045,6 +1051,8 @@ void ForwardBackwardPassIOManaged<T>::loadExtra(
 
   auto state = RPU::selectWithPrefix(extra, prefix);
   RPU::load(state, "aux_nm_value", aux_nm_value_, strict);
+  // not in the states of older versions
+  RPU::load(state, "aux_nm_value_bwd", aux_nm_value_bwd_, false);
 }
 
 template class ForwardBackwardPassIOManaged<float>;
diff --git a/src/rpucuda/rpu_forward_backward_pass.h b/src/rpucuda/rpu_forward_backward_pass.h
index e4bb949..a7a69f7 100644
--- a/src/rpucuda/rpu_forward_backward_pass.h
+++ b/src/rpucuda/rpu_forward_backward_pass.h
@@ -106,6 +106,8 @@ public:
     swap(a.f_io_, b.f_io_);
     swap(a.b_io_, b.b_io_);
     swap(a.checked_implemented_, b.checked_implemented_);
+    swap(a.aux_nm_value_, b.aux_nm_value_);
+    swap(a.aux_nm_value_bwd_, b.aux_nm_value_bwd_);
     swap(a.rng_, b.rng_);
 
     // others are tmps so far
@@ -238,7 +240,9 @@ private:
 
   T **neg_weights_ = nullptr;
 
+  // running averages of the noise management (separately for forward and backward)
   T aux_nm_value_ = -1.0;
+  T aux_nm_value_bwd_ = -1.0;
   IOMetaParameter<T> f_io_;
   IOMetaParameter<T> b_io_;
   bool checked_implemented_ = false;
-- 
2.43.0


From 3b0a5ca722429e360517c9c5b34c7efe3e0b3085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 28/85] fix: sign of a negative learning rate was applied twice
 in mean count and deterministic implicit pulse trains

---
 src/rpucuda/dense_bit_line_maker.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/rpucuda/dense_bit_line_maker.cpp b/src/rpucuda/dense_bit_line_maker.cpp
index c66f0be..ca13dbf 100644
--- a/src/rpucuda/dense_bit_line_maker.cpp
+++ b/src/rpucuda/dense_bit_line_maker.cpp
@@ -303,9 +303,9 @@ int *DenseBitLineMaker<T>::makeCoincidences(
     // x counts
     generateCountsMean(
         x_counts_, x_in, x_inc, x_size_, x_noz, B, rng, BL, up.res, up.sto_round, lr);
-    // d counts
+    // d counts (the sign of the learning rate is applied to x only)
     generateCountsMean(
-        d_counts_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.res, up.sto_round, lr);
+        d_counts_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.res, up.sto_round, (T)1.0);
 
     generateCoincidences(coincidences_, x_counts_, x_size_, d_counts_, d_size_, BL);
     break;
@@ -317,9 +317,10 @@ int *DenseBitLineMaker<T>::makeCoincidences(
     generateDetImplicit(
         x_values_, x_in, x_inc, x_size_, x_noz, B, rng, BL, up.x_res_implicit, up.sto_round, lr);
 
-    // d counts
+    // d counts (the sign of the learning rate is applied to x only)
     generateDetImplicit(
-        d_values_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.d_res_implicit, up.sto_round, lr);
+        d_values_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.d_res_implicit, up.sto_round,
+        (T)1.0);
 
     generateCoincidencesDetI(coincidences_, x_values_, x_size_, d_values_, d_size_, BL);
   } break;
-- 
2.43.0


From fcf3f7ad94e36a55e4bf2bc4cd65c6f5b6027e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 29/85] fix: copied tiles with deterministic implicit pulse
 trains crashed

---
 src/rpucuda/dense_bit_line_maker.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rpucuda/dense_bit_line_maker.h b/src/rpucuda/dense_bit_line_maker.h
index 5ea6f07..3f105c8 100644
--- a/src/rpucuda/dense_bit_line_maker.h
+++ b/src/rpucuda/dense_bit_line_maker.h
@@ -31,6 +31,8 @@ public:
     swap(a.containers_allocated_, b.containers_allocated_);
     swap(a.d_counts_, b.d_counts_);
     swap(a.x_counts_, b.x_counts_);
+    swap(a.d_values_, b.d_values_);
+    swap(a.x_values_, b.x_values_);
     swap(a.coincidences_, b.coincidences_);
     swap(a.rw_rng_, b.rw_rng_);
   }
-- 
2.43.0


From dc1f39e7b9b49d571cf7bfb422d4b3195cf8f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 30/85] fix: resolutions of the pulsed update given as number
 of steps were not inverted

---
 src/rpucuda/rpu_pulsed_meta_parameter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_meta_parameter.cpp b/src/rpucuda/rpu_pulsed_meta_parameter.cpp
index 8bff996..a0b9590 100644
--- a/src/rpucuda/rpu_pulsed_meta_parameter.cpp
+++ b/src/rpucuda/rpu_pulsed_meta_parameter.cpp
@@ -139,9 +139,9 @@ template <typename T> void PulsedUpdateMetaParameter<T>::initialize() {
     // always turn on UM for UBL management
     update_management = update_management || update_bl_management;
 
-    detail::checkRes(res);
-    detail::checkRes(x_res_implicit);
-    detail::checkRes(d_res_implicit);
+    res = detail::checkRes(res);
+    x_res_implicit = detail::checkRes(x_res_implicit);
+    d_res_implicit = detail::checkRes(d_res_implicit);
   }
 
   if (_currently_tuning) {
-- 
2.43.0


From 1e396365f7da8f6d5ecbbb44de920a20e09450aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 31/85] fix: copies of vector devices keep the weightening of
 their members

---
 src/rpucuda/rpu_vector_device.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_vector_device.cpp b/src/rpucuda/rpu_vector_device.cpp
index fa3c74a..c9a13f3 100644
--- a/src/rpucuda/rpu_vector_device.cpp
+++ b/src/rpucuda/rpu_vector_device.cpp
@@ -132,11 +132,11 @@ template <typename T>
 VectorRPUDevice<T>::VectorRPUDevice(const VectorRPUDevice<T> &other)
     : PulsedRPUDeviceBase<T>(other) {
 
-  reduce_weightening_ = other.reduce_weightening_;
   current_device_idx_ = other.current_device_idx_;
   current_update_idx_ = other.current_update_idx_;
 
-  allocateContainers(other.n_devices_);
+  allocateContainers(other.n_devices_); // clears the weightening
+  reduce_weightening_ = other.reduce_weightening_;
 
   if (other.weights_vec_ != nullptr) {
     RPU::math::copy<T>(
-- 
2.43.0


From f4c4a3bcb1d8e768485c6e6b4ffb6584d6fd98c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 32/85] fix: copy_inverted takes the parameters of the other
 device

---
 src/rpucuda/rpu_powstep_reference_device.h    | 2 +-
 src/rpucuda/rpu_pulsed_device.cpp             | 8 ++++----
 src/rpucuda/rpu_softbounds_reference_device.h | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rpucuda/rpu_powstep_reference_device.h b/src/rpucuda/rpu_powstep_reference_device.h
index ba171b9..a07885a 100644
--- a/src/rpucuda/rpu_powstep_reference_device.h
+++ b/src/rpucuda/rpu_powstep_reference_device.h
@@ -127,7 +127,7 @@ template <typename T> class PowStepReferenceRPUDevice : public PulsedRPUDevice<T
         for (int i = 0; i < this->d_size_; ++i) {
           w_gamma_down_[i][j] = gamma_up[i][j];
           w_gamma_up_[i][j] = gamma_down[i][j];
-          w_reference_[i][j] = -w_reference_[i][j];
+          w_reference_[i][j] = -rpu->getReference()[i][j];
         }
       }
 
diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index e98bf46..faa4b8c 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -534,12 +534,12 @@ void PulsedRPUDevice<T>::copyInvertDeviceParameter(const PulsedRPUDeviceBase<T>
     for (int i = 0; i < this->d_size_; ++i) {
 
       // scaleup/down both have same sign
-      std::swap(w_scale_up_[i][j], w_scale_down_[i][j]);
+      w_scale_up_[i][j] = rpu->w_scale_down_[i][j];
+      w_scale_down_[i][j] = rpu->w_scale_up_[i][j];
 
       // min max have sign. mirror
-      T b = w_max_bound_[i][j];
-      w_max_bound_[i][j] = -w_min_bound_[i][j];
-      w_min_bound_[i][j] = -b;
+      w_max_bound_[i][j] = -rpu->w_min_bound_[i][j];
+      w_min_bound_[i][j] = -rpu->w_max_bound_[i][j];
     }
   }
 }
diff --git a/src/rpucuda/rpu_softbounds_reference_device.h b/src/rpucuda/rpu_softbounds_reference_device.h
index f2a5b56..78bd9cf 100644
--- a/src/rpucuda/rpu_softbounds_reference_device.h
+++ b/src/rpucuda/rpu_softbounds_reference_device.h
@@ -87,7 +87,7 @@ template <typename T> class SoftBoundsReferenceRPUDevice : public PulsedRPUDevic
       /*invert copy DP */
       for (int j = 0; j < this->x_size_; ++j) {
         for (int i = 0; i < this->d_size_; ++i) {
-          w_reference_[i][j] = -w_reference_[i][j];
+          w_reference_[i][j] = -rpu->getReference()[i][j];
         }
       }
 
-- 
2.43.0


From f47c04d0674df10b1fe171cf4547e623fee9e8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 33/85] fix: transfer reset only clears the columns that were
 read

---
 src/rpucuda/rpu_transfer_device.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index db8c7fd..f9193a9 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -466,7 +466,8 @@ void TransferRPUDevice<T>::readAndUpdate(
       // potentially reset here (because of possible same device to-from):
       // NOTE that with_reset_prob is COL-wise prob (elem device prob is 1)
       T **W_from = getDeviceWeights(from_device_idx);
-      this->rpu_device_vec_[from_device_idx]->resetCols(W_from, i_slice, n_vec, 1, this->rw_rng_);
+      this->rpu_device_vec_[from_device_idx]->resetCols(
+          W_from, i_slice + (int)i, 1, 1, this->rw_rng_); // only the column just read
     }
 
     // update according to device
-- 
2.43.0


From 3cb69c74eec7b52d3a3cce5d4fc84c29d5da7ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 34/85] fix: default transfer periods scale with the number of
 transferred vectors

---
 src/rpucuda/rpu_transfer_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index f9193a9..15e953a 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -184,7 +184,7 @@ void TransferRPUDeviceMetaParameter<T>::initializeWithSize(int x_size, int d_siz
     T n = transfer_every;
     for (size_t i = 0; i < n_devices; i++) {
       transfer_every_vec.push_back(n);
-      n *= (T)_out_size / (T)n_reads_per_transfer;
+      n *= (T)_in_size / (T)n_reads_per_transfer;
     }
     if (no_self_transfer) {
       transfer_every_vec[n_devices - 1] = 0;
-- 
2.43.0


From 74e1cc8be2ac9f2ce6e24ad37661d06eab831c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 35/85] fix: transfer device is fully hidden only if no hidden
 member contributes

---
 src/rpucuda/rpu_transfer_device.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_transfer_device.h b/src/rpucuda/rpu_transfer_device.h
index 0cc15da..282e424 100644
--- a/src/rpucuda/rpu_transfer_device.h
+++ b/src/rpucuda/rpu_transfer_device.h
@@ -86,7 +86,15 @@ template <typename T> struct TransferRPUDeviceMetaParameter : VectorRPUDeviceMet
   virtual void initializeWithSize(int x_size, int d_size);
   void initialize() override { /* do nothing */ };
 
-  inline bool fullyHidden() const { return (!gamma && this->gamma_vec.back() == (T)1.0); };
+  inline bool fullyHidden() const {
+    // none of the hidden devices contributes (their weightening might also cancel in the sum)
+    for (size_t i = 0; i + 1 < this->gamma_vec.size(); i++) {
+      if (this->gamma_vec[i] != (T)0.0) {
+        return false;
+      }
+    }
+    return (!gamma && this->gamma_vec.back() == (T)1.0);
+  };
 
   inline int getInSize() const { return _in_size; };
   inline int getOutSize() const { return _out_size; };
-- 
2.43.0


From 8798b2dcfa3d54e018247fa1ec991af7286136e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 36/85] fix: writing weights of fully hidden transfer devices
 also resets hidden members

---
 src/rpucuda/rpu_transfer_device.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index 15e953a..4cac7a8 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -576,6 +576,9 @@ template <typename T> bool TransferRPUDevice<T>::onSetWeights(T **weights) {
     }
   }
   if (fully_hidden_) {
+    for (int k = 0; k < last_idx; k++) {
+      this->rpu_device_vec_[k]->onSetWeights(this->weights_vec_[k]);
+    }
     // no need to copy, as we directly use the weights
     this->rpu_device_vec_[last_idx]->onSetWeights(weights);
 
-- 
2.43.0


From ba30ea43828e7a0034327f264a373348beec193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 37/85] fix: move assignment of buffered transfer device takes
 over the buffers

---
 src/rpucuda/rpu_buffered_transfer_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_buffered_transfer_device.cpp b/src/rpucuda/rpu_buffered_transfer_device.cpp
index 4e71de7..387b3ca 100644
--- a/src/rpucuda/rpu_buffered_transfer_device.cpp
+++ b/src/rpucuda/rpu_buffered_transfer_device.cpp
@@ -109,7 +109,7 @@ template <typename T>
 BufferedTransferRPUDevice<T> &
 BufferedTransferRPUDevice<T>::operator=(BufferedTransferRPUDevice<T> &&other) noexcept {
   TransferRPUDevice<T>::operator=(std::move(other));
-  transfer_buffer_vec_ = std::move(transfer_buffer_vec_);
+  transfer_buffer_vec_ = std::move(other.transfer_buffer_vec_);
 
   return *this;
 }
-- 
2.43.0


From 7aa9b921c5dffadd11bbd22bf574d36b534d37a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 38/85] fix: buffered transfer buffer size for row transfers

---
 src/rpucuda/rpu_buffered_transfer_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_buffered_transfer_device.cpp b/src/rpucuda/rpu_buffered_transfer_device.cpp
index 387b3ca..47e9876 100644
--- a/src/rpucuda/rpu_buffered_transfer_device.cpp
+++ b/src/rpucuda/rpu_buffered_transfer_device.cpp
@@ -156,10 +156,10 @@ void BufferedTransferRPUDevice<T>::readAndUpdate(
     return;
   }
 
-  this->transfer_tmp_.resize(this->d_size_);
   const auto &par = getPar();
   int in_size = par.getInSize();
   int out_size = par.getOutSize();
+  this->transfer_tmp_.resize(out_size);
 
   T weight_granularity = this->rpu_device_vec_[to_device_idx]->getWeightGranularity();
   T buffer_granularity = par.thres_scale * weight_granularity;
-- 
2.43.0


From b034c0bbcbfc3d2167b9c072f0f3209a4475005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 39/85] fix: chopper correction of the effective weight uses
 the storage layout

---
 src/rpucuda/rpu_chopped_transfer_device.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rpucuda/rpu_chopped_transfer_device.cpp b/src/rpucuda/rpu_chopped_transfer_device.cpp
index 6db1e4e..3f494ba 100644
--- a/src/rpucuda/rpu_chopped_transfer_device.cpp
+++ b/src/rpucuda/rpu_chopped_transfer_device.cpp
@@ -545,11 +545,14 @@ void ChoppedTransferRPUDevice<T>::reduceToWeights(T **weights) const {
   T *A = *this->weights_vec_[0];
   int size = this->x_size_ * this->d_size_;
 
-  // Layout: W[x_idx * d_size + d_idx] (column-major, d as inner dimension)
+  const auto &d_chopper = (par.transfer_columns) ? out_chopper_ : in_chopper_;
+  const auto &x_chopper = (par.transfer_columns) ? in_chopper_ : out_chopper_;
+
+  // Layout: W[d_idx * x_size + x_idx] (x as inner dimension)
   for (int idx = 0; idx < size; idx++) {
-    int d_idx = idx % this->d_size_;
-    int x_idx = idx / this->d_size_;
-    T chop = (in_chopper_[x_idx] != out_chopper_[d_idx]) ? (T)-1.0 : (T)1.0;
+    int d_idx = idx / this->x_size_;
+    int x_idx = idx % this->x_size_;
+    T chop = (x_chopper[x_idx] != d_chopper[d_idx]) ? (T)-1.0 : (T)1.0;
     weights[0][idx] += gamma * (chop - (T)1.0) * A[idx];
   }
 }
-- 
2.43.0


From bc6ddd094dd9b44ad3ba6272a6bb1932d4a3b9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 40/85] fix: members of a vector device get their own weights
 in the update cycle

---
 src/rpucuda/rpu_vector_device.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/rpucuda/rpu_vector_device.cpp b/src/rpucuda/rpu_vector_device.cpp
index c9a13f3..8889d97 100644
--- a/src/rpucuda/rpu_vector_device.cpp
+++ b/src/rpucuda/rpu_vector_device.cpp
@@ -458,11 +458,11 @@ void VectorRPUDevice<T>::initUpdateCycle(
 
   if (par.singleDeviceUpdate()) {
     rpu_device_vec_[current_device_idx_]->initUpdateCycle(
-        weights, up, current_lr, m_batch_info, x_input, x_inc, d_input, d_inc);
+        weights_vec_[current_device_idx_], up, current_lr, m_batch_info, x_input, x_inc, d_input, d_inc);
   } else {
     for (size_t k = 0; k < rpu_device_vec_.size(); k++) {
       rpu_device_vec_[k]->initUpdateCycle(
-          weights, up, current_lr, m_batch_info, x_input, x_inc, d_input, d_inc);
+          weights_vec_[k], up, current_lr, m_batch_info, x_input, x_inc, d_input, d_inc);
     }
   }
 }
@@ -514,10 +514,11 @@ void VectorRPUDevice<T>::finishUpdateCycle(
     T **weights, const PulsedUpdateMetaParameter<T> &up, T current_lr, int m_batch_info) {
 
   if (getPar().singleDeviceUpdate()) {
-    rpu_device_vec_[current_device_idx_]->finishUpdateCycle(weights, up, current_lr, m_batch_info);
+    rpu_device_vec_[current_device_idx_]->finishUpdateCycle(
+        weights_vec_[current_device_idx_], up, current_lr, m_batch_info);
   } else {
     for (size_t k = 0; k < rpu_device_vec_.size(); k++) {
-      rpu_device_vec_[k]->finishUpdateCycle(weights, up, current_lr, m_batch_info);
+      rpu_device_vec_[k]->finishUpdateCycle(weights_vec_[k], up, current_lr, m_batch_info);
     }
   }
 
-- 
2.43.0


From b6b3e8dc25885ded0f24631708caa57fad5407a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 41/85] fix: state dump of nested compound devices

---
 src/rpucuda/utility_functions.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rpucuda/utility_functions.cpp b/src/rpucuda/utility_functions.cpp
index 07eeb31..e3b3dcf 100644
--- a/src/rpucuda/utility_functions.cpp
+++ b/src/rpucuda/utility_functions.cpp
@@ -115,10 +115,11 @@ RPU_INSERT_SINGLE(half_t);
 void insertWithPrefix(RPU::state_t &extra, const RPU::state_t &state, std::string prefix) {
   std::string full_prefix = prefix + ".";
   for (const auto &i : state) {
-    if (extra.count(i.first)) {
-      RPU_FATAL("Key " << i.first << " already exists in state map.");
+    std::string key = full_prefix + i.first;
+    if (extra.count(key)) {
+      RPU_FATAL("Key " << key << " already exists in state map.");
     }
-    extra[full_prefix + i.first] = i.second;
+    extra[key] = i.second;
   }
 }
 
-- 
2.43.0


From f90c38503daf332050f0cf17efe4e9ad5c7c8a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 42/85] fix: python transfer tile does not modify the inputs of
 the update, chopper follows the transfer direction

---
 src/aihwkit/simulator/tiles/transfer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index b110393..a8a946c 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -120,7 +120,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
             reference_weight = zeros([self.t_in_size, self.t_out_size], dtype=dtype.as_torch())
             self.register_buffer("reference_weight", reference_weight)
 
-        chopper = ones([self.x_size], dtype=dtype.as_torch())
+        chopper = ones([self.t_in_size], dtype=dtype.as_torch())
         self.register_buffer("chopper", chopper)
 
         # set auto-scale base scale
@@ -214,7 +214,11 @@ class TransferSimulatorTile(SimulatorTile, Module):
         self.grad_tile.set_learning_rate(lr_a)
 
         if self.chopper is not None:
-            x_input *= self.chopper
+            # not in-place: the inputs belong to the caller
+            if cfg.transfer_columns:
+                x_input = x_input * self.chopper
+            else:
+                d_input = d_input * self.chopper
 
         self.grad_tile.tile.update(x_input, d_input, bias, in_trans, out_trans, non_blocking)
         self.update_counter += m_batch
-- 
2.43.0


From 260c21b48a371535f51ae0e48b6111d2548546d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 43/85] fix: python transfer tile keeps the momentum fraction
 of the buffer and limits the steps

---
 src/aihwkit/simulator/tiles/transfer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index a8a946c..23351ac 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -276,8 +276,10 @@ class TransferSimulatorTile(SimulatorTile, Module):
 
             # compute update weight
             write_values = -trunc(self.hidden_weight[k])  # negative because of update LR
+            max_steps = cfg.transfer_update.desired_bl
+            write_values = write_values.clamp(min=-max_steps, max=max_steps)
             if cfg.forget_buffer:
-                self.hidden_weight[k][write_values != 0] = cfg.momentum
+                self.hidden_weight[k][write_values != 0] *= cfg.momentum
             else:
                 self.hidden_weight[k] += write_values * (1 - cfg.momentum)
 
-- 
2.43.0


From 3e537ba02432df27f5ccb4a69c8663dc569e169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 44/85] fix: python transfer tile uses the configured transfer
 and fast learning rates

---
 src/aihwkit/simulator/tiles/transfer.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 23351ac..ac66662 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -124,8 +124,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
         self.register_buffer("chopper", chopper)
 
         # set auto-scale base scale
-        granularity = rpu_config.update.desired_bl * self.from_weight_granularity
-        self.lr_a_auto_scale = cfg.fast_lr * granularity
+        self.lr_a_auto_scale = rpu_config.update.desired_bl * self.from_weight_granularity
 
     def forward(
         self,
@@ -194,8 +193,12 @@ class TransferSimulatorTile(SimulatorTile, Module):
 
         # dynamically adjust learning rates
 
+        fast_lr = self.learning_rate
+        if cfg.fast_lr > 0.0:
+            fast_lr = cfg.fast_lr * (self.learning_rate if cfg.scale_fast_lr else 1.0)
+
         if cfg.auto_scale:
-            lr_a = self.lr_a_auto_scale
+            lr_a = self.lr_a_auto_scale * fast_lr
             tau = (1.0 - cfg.auto_momentum) / m_batch
 
             m_x = x_input.abs().max().item()
@@ -208,7 +211,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
                 lr_a /= self.m_x * self.m_d
 
         else:
-            lr_a = cfg.fast_lr
+            lr_a = fast_lr
 
         # gradient accumulation
         self.grad_tile.set_learning_rate(lr_a)
@@ -233,6 +236,10 @@ class TransferSimulatorTile(SimulatorTile, Module):
                 )
 
             # transfer learning rate lr_h
+            lr_t = cfg.transfer_lr
+            if cfg.scale_transfer_lr:
+                lr_t *= self.learning_rate
+
             buffer_granularity = cfg.buffer_granularity if cfg.buffer_granularity > 0.0 else 1.0
             if cfg.auto_granularity > 0.0:
                 period = self.t_in_size * transfer_every
@@ -242,9 +249,9 @@ class TransferSimulatorTile(SimulatorTile, Module):
 
             if cfg.correct_gradient_magnitudes:
                 buffer_granularity *= self.to_weight_granularity / self.from_weight_granularity
-                lr_h = self.learning_rate / lr_a / buffer_granularity
+                lr_h = lr_t / lr_a / buffer_granularity
             else:
-                lr_h = self.learning_rate / buffer_granularity
+                lr_h = lr_t / buffer_granularity
 
             chop_period = int(round(1.0 / cfg.in_chop_prob)) if cfg.in_chop_prob > 0 else 1
 
-- 
2.43.0


From bab2158a3b799ac8eed2005a8b6130e76db990bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 45/85] fix: python transfer tile does not transfer if
 transfer_every is zero

---
 src/aihwkit/simulator/tiles/transfer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index ac66662..5c7a46d 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -227,6 +227,9 @@ class TransferSimulatorTile(SimulatorTile, Module):
         self.update_counter += m_batch
 
         # handle transfer (Note that it will only update once for the m_batch!)
+        if transfer_every == 0:
+            return
+
         rest_count = ((self.update_counter - m_batch) % transfer_every) + m_batch
         if rest_count >= transfer_every:
             if rest_count >= 2 * transfer_every:
-- 
2.43.0


From ae3b670687a58f3ef4237896cd88f9f4711b2dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:55 +0000
Subject: [PATCH 46/85] fix: mixed precision gradient is lost if only one of
 the two vectors is quantized

---
 src/rpucuda/rpu_mixedprec_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_mixedprec_device.cpp b/src/rpucuda/rpu_mixedprec_device.cpp
index 117cf00..99ddf16 100644
--- a/src/rpucuda/rpu_mixedprec_device.cpp
+++ b/src/rpucuda/rpu_mixedprec_device.cpp
@@ -279,7 +279,7 @@ void MixedPrecRPUDevice<T>::doDirectVectorUpdate(
         d = RPU_ROUNDFUNF(d / d_width + stoch_value);
         d = MIN(MAX(d, -half_d_bins), half_d_bins) * d_width;
       }
-      qd_[i] = d;
+      qd_[j] = d;
     }
 
     RPU::math::ger<T>(
-- 
2.43.0


From a38c68dab0800f4cbdaf273e054434626db83f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:55 +0000
Subject: [PATCH 47/85] fix: moved mixed precision devices shared the
 accumulator with their source

---
 src/rpucuda/rpu_mixedprec_device.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_mixedprec_device.cpp b/src/rpucuda/rpu_mixedprec_device.cpp
index 99ddf16..0eab33f 100644
--- a/src/rpucuda/rpu_mixedprec_device.cpp
+++ b/src/rpucuda/rpu_mixedprec_device.cpp
@@ -121,7 +121,10 @@ template <typename T>
 MixedPrecRPUDevice<T> &MixedPrecRPUDevice<T>::operator=(MixedPrecRPUDevice<T> &&other) noexcept {
   MixedPrecRPUDeviceBase<T>::operator=(std::move(other));
 
-  chi_ = std::move(other.chi_);
+  freeContainers();
+  chi_ = other.chi_;
+  other.chi_ = nullptr;
+
   qx_ = other.qx_;
   qd_ = other.qd_;
   qx_index_ = other.qx_index_;
-- 
2.43.0


From 99d212a34ff6ffc47d755a118257af67fda4d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:55 +0000
Subject: [PATCH 48/85] fix: mixed precision accumulator is restored with the
 hidden parameters

---
 src/rpucuda/rpu_mixedprec_device_base.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_mixedprec_device_base.cpp b/src/rpucuda/rpu_mixedprec_device_base.cpp
index 3e94f35..b58ca96 100644
--- a/src/rpucuda/rpu_mixedprec_device_base.cpp
+++ b/src/rpucuda/rpu_mixedprec_device_base.cpp
@@ -425,7 +425,20 @@ void MixedPrecRPUDeviceBase<T>::setDeviceParameter(
     T **out_weights, const std::vector<T *> &data_ptrs) {
 
   CHECK_RPU_DEVICE_INIT;
-  rpu_device_->setDeviceParameter(out_weights, data_ptrs);
+
+  std::vector<std::string> names;
+  getDPNames(names);
+
+  if (data_ptrs.size() < names.size()) {
+    RPU_FATAL("Expected " << names.size() << " data pointers!");
+  }
+
+  size_t m = names.size() - 1;
+  std::vector<T *> v(data_ptrs.begin(), data_ptrs.begin() + m);
+  rpu_device_->setDeviceParameter(out_weights, v);
+
+  // "hidden weights Chi"
+  setChi(data_ptrs[m]);
 };
 
 template <typename T> void MixedPrecRPUDeviceBase<T>::printDP(int x_count, int d_count) const {
-- 
2.43.0


From 9e18e8d47315bbf1658fae44f2f74e78af6763e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:44 +0000
Subject: [PATCH 49/85] fix: restore hidden and persistent weights when loading
 an analog state

---
 src/aihwkit/simulator/tiles/base.py |  4 ++++
 src/rpucuda/rpu_pulsed_device.cpp   | 10 ++++++++++
 src/rpucuda/rpu_pulsed_device.h     |  4 +++-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index b39a084..31b3cc7 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -760,6 +760,10 @@ class SimulatorTileWrapper:
             if not isinstance(weights, Tensor):
                 weights = from_numpy(array(weights))
             self.tile.set_weights(weights)
+            # setting the weights re-initializes the weight-like hidden
+            # parameters (e.g. the individual weights of a compound), thus
+            # restore them again
+            self.tile.set_hidden_parameters(hidden_parameters)
             self._copy_weights_to_shared_tensors(weights)
 
             # set_weights() fills the fresh CPU C++ tile from the serialized raw
diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index faa4b8c..57b9a5b 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -333,6 +333,16 @@ void PulsedRPUDevice<T>::setDeviceParameter(T **out_weights, const std::vector<T
     this->setWeightGranularity(getPar().calcWeightGranularity());
   }
 
+  if (getPar().usesPersistentWeight()) {
+    // the persistent weights are part of the hidden parameters: they
+    // must not be overwritten with the (noisy) visible weights
+    for (int i = 0; i < this->size_; ++i) {
+      w_persistent_[0][i] = MIN(w_persistent_[0][i], w_max_bound_[0][i]);
+      w_persistent_[0][i] = MAX(w_persistent_[0][i], w_min_bound_[0][i]);
+    }
+    return;
+  }
+
   // update the weights according to the bounds
   this->onSetWeights(out_weights);
 };
diff --git a/src/rpucuda/rpu_pulsed_device.h b/src/rpucuda/rpu_pulsed_device.h
index dfcc270..137c7a4 100644
--- a/src/rpucuda/rpu_pulsed_device.h
+++ b/src/rpucuda/rpu_pulsed_device.h
@@ -412,7 +412,9 @@ public:
     std::vector<std::string> names;                                                                \
     PulsedRPUDevice<T>::getDPNames(names);                                                         \
     {V2DP_BODY};                                                                                   \
-    this->onSetWeights(out_weights);                                                               \
+    if (!this->getPar().usesPersistentWeight()) {                                                  \
+      this->onSetWeights(out_weights);                                                             \
+    }                                                                                              \
   }
 
 #define BUILD_PULSED_DEVICE_META_PARAMETER(                                                        \
-- 
2.43.0


From 5d2ab00428b5f3498b19bd07beee108c5cc00aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:49 +0000
Subject: [PATCH 50/85] fix: loading a state dict must not share nor modify the
 RPU config of the saved tile

---
 src/aihwkit/simulator/tiles/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index 31b3cc7..55c045f 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -731,6 +731,8 @@ class SimulatorTileWrapper:
                         "Error creating tile"
                         f". Possible mismatch between {tile_class} and {type(self).__name__}"
                     )
+                # The config might be owned by (the tile of) the saved state
+                rpu_config = deepcopy(rpu_config)
                 # Need to always keep the same tile class
                 rpu_config.tile_class = self.rpu_config.tile_class
 
-- 
2.43.0


From 78f9d0a0cce49e46f082820aa66bb1c4cd3fa6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:49 +0000
Subject: [PATCH 51/85] fix: save and restore counters and learning rate of the
 python transfer tile

---
 src/aihwkit/simulator/tiles/transfer.py | 57 +++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 5c7a46d..30037c2 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -57,6 +57,15 @@ class TransferSimulatorTile(SimulatorTile, Module):
 
     """
 
+    EXTRA_STATE_NAMES = (
+        "update_counter",
+        "chop_counter",
+        "transfer_idx",
+        "learning_rate",
+        "m_x",
+        "m_d",
+    )
+
     def __init__(
         self, x_size: int, d_size: int, rpu_config: "UnitCellRPUConfig", dtype: RPUDataType
     ):
@@ -419,7 +428,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
                 weight = params[names.index(name), :, :]
                 if self.device_config.transfer_columns:
                     weight = weight.T
-                buffer.data = weight
+                buffer.data = weight.clone()
 
     def get_learning_rate(self) -> Optional[float]:
         """Get the learning rate of the tile.
@@ -462,6 +471,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
         torch automatically.
         """
         return {
+            "tile": self.get_extra_state(),
             "weight_tile": self.weight_tile.tile.dump_extra(),
             "grad_tile": self.grad_tile.tile.dump_extra(),
         }
@@ -488,8 +498,49 @@ class TransferSimulatorTile(SimulatorTile, Module):
 
         if "grad_tile" not in extra or "weight_tile" not in extra:
             raise RuntimeError("Wrong keys")
-        self.weight_tile.load_extra(extra["weight_tile"], strict)
-        self.grad_tile.load_extra(extra["grad_tile"], strict)
+        if strict and "tile" not in extra:
+            raise RuntimeError("Wrong keys")
+        self.weight_tile.tile.load_extra(extra["weight_tile"], strict)
+        self.grad_tile.tile.load_extra(extra["grad_tile"], strict)
+        self.set_extra_state(extra.get("tile", {}))
+
+    def get_extra_state(self) -> Dict:
+        """Returns the state (besides the buffers and sub-tiles) that needs
+        to be stored in the ``state_dict``."""
+        return {name: getattr(self, name) for name in self.EXTRA_STATE_NAMES}
+
+    def set_extra_state(self, state: Dict) -> None:
+        """Sets the state as returned by ``get_extra_state``."""
+        for name in self.EXTRA_STATE_NAMES:
+            if name in state:
+                setattr(self, name, state[name])
+
+    def _load_from_state_dict(
+        self,
+        state_dict: Dict,
+        prefix: str,
+        local_metadata: Dict,
+        strict: bool,
+        missing_keys: List[str],
+        unexpected_keys: List[str],
+        error_msgs: List[str],
+    ) -> None:
+        """Overloads :meth:`~torch.nn.Module.load_state_dict` to accept
+        checkpoints that do not have any extra state."""
+        # pylint: disable=too-many-arguments
+        Module._load_from_state_dict(
+            self,
+            state_dict,
+            prefix,
+            local_metadata,
+            strict,
+            missing_keys,
+            unexpected_keys,
+            error_msgs,
+        )
+        extra_state_key = prefix + "_extra_state"
+        if extra_state_key in missing_keys:
+            missing_keys.remove(extra_state_key)
 
     def set_weights_uniform_random(self, bmin: float, bmax: float) -> None:
         """Sets the weights to uniform random numbers.
-- 
2.43.0


From 13665c30396f609094821a4a1dc2d97213c87dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:35 +0000
Subject: [PATCH 52/85] fix: drift and weight modifier state of the base tile
 is lost when loading the extra state

---
 src/rpucuda/rpu.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rpucuda/rpu.cpp b/src/rpucuda/rpu.cpp
index 8057803..4cbf3aa 100644
--- a/src/rpucuda/rpu.cpp
+++ b/src/rpucuda/rpu.cpp
@@ -463,24 +463,25 @@ void RPUSimple<T>::loadExtra(const RPU::state_t &extra, const std::string prefix
         fb_weight_modifier_ = RPU::make_unique<WeightModifier<T>>(this->x_size_, this->d_size_);
       }
       RPU::math::copy<T>(tmp.size(), tmp.data(), 1, fb_weights_[0], 1);
+      fb_weight_modifier_->loadExtra(state, "fb_weight_modifier", strict);
     }
   }
 
-  if (state.count("wdrifter")) {
+  if (RPU::selectWithPrefix(state, "wdrifter").size()) {
     if (!wdrifter_) {
       wdrifter_ = RPU::make_unique<WeightDrifter<T>>(this->x_size_ * this->d_size_, getPar().drift);
     }
     wdrifter_->loadExtra(state, "wdrifter", strict);
   }
 
-  if (state.count("wclipper")) {
+  if (RPU::selectWithPrefix(state, "wclipper").size()) {
     if (!wclipper_) {
       wclipper_ = RPU::make_unique<WeightClipper<T>>(this->x_size_, this->d_size_);
     }
     wclipper_->loadExtra(state, "wclipper", strict);
   }
 
-  if (state.count("wremapper")) {
+  if (RPU::selectWithPrefix(state, "wremapper").size()) {
     if (!wremapper_) {
       wremapper_ = RPU::make_unique<WeightRemapper<T>>(this->x_size_, this->d_size_);
     }
-- 
2.43.0


From 75b92bf169b1c8f2faa21cfe7931d1f0918c9860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:51 +0000
Subject: [PATCH 53/85] fix: use the index matrix of the forward in backward
 and update of indexed convolutions

---
 src/aihwkit/optim/analog_optimizer.py    | 31 +++++++++++++-----------
 src/aihwkit/optim/context.py             |  2 ++
 src/aihwkit/simulator/tiles/base.py      |  1 +
 src/aihwkit/simulator/tiles/functions.py | 10 ++++++--
 src/aihwkit/simulator/tiles/periphery.py | 29 +++++++++++++++++++++-
 5 files changed, 56 insertions(+), 17 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 347693b..01da732 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -106,21 +106,24 @@ class AnalogOptimizerMixin:
 
                     runtime = analog_tile.get_runtime()
                     if analog_ctx.use_indexed:
-                        for x_input, d_input in zip(
-                            analog_ctx.analog_input, analog_ctx.analog_grad_output
+                        for x_input, d_input, indexed in zip(
+                            analog_ctx.analog_input,
+                            analog_ctx.analog_grad_output,
+                            analog_ctx.analog_indexed,
                         ):
-                            analog_tile.update_indexed(
-                                (
-                                    x_input.to(analog_tile.device)
-                                    if runtime.offload_input
-                                    else x_input
-                                ),
-                                (
-                                    d_input.to(analog_tile.device)
-                                    if runtime.offload_gradient
-                                    else d_input
-                                ),
-                            )
+                            with analog_tile.using_indexed(*indexed):
+                                analog_tile.update_indexed(
+                                    (
+                                        x_input.to(analog_tile.device)
+                                        if runtime.offload_input
+                                        else x_input
+                                    ),
+                                    (
+                                        d_input.to(analog_tile.device)
+                                        if runtime.offload_gradient
+                                        else d_input
+                                    ),
+                                )
                     else:
                         x_input = cat(
                             analog_ctx.analog_input, axis=-1 if analog_tile.in_trans else 0
diff --git a/src/aihwkit/optim/context.py b/src/aihwkit/optim/context.py
index 0fc0b88..3f84518 100644
--- a/src/aihwkit/optim/context.py
+++ b/src/aihwkit/optim/context.py
@@ -145,6 +145,7 @@ class AnalogContext(Parameter):
         self._data_buffer = None  # type: Optional[Tensor]
         self.analog_input = []  # type: list
         self.analog_grad_output = []  # type: list
+        self.analog_indexed = []  # type: list
         self.reset(analog_tile)
 
     @classmethod
@@ -426,6 +427,7 @@ class AnalogContext(Parameter):
 
         self.analog_input = []
         self.analog_grad_output = []
+        self.analog_indexed = []
 
     def has_gradient(self) -> bool:
         """Return whether a gradient trace was stored."""
diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index 55c045f..455a907 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -669,6 +669,7 @@ class SimulatorTileWrapper:
 
         # this is should not be saved.
         current_dict.pop("image_sizes", None)
+        current_dict.pop("matrix_indices", None)
         # Shared weight tensor is rebuilt by _bind_shared_weights().
         current_dict.pop("_shared_weight_tensor", None)
 
diff --git a/src/aihwkit/simulator/tiles/functions.py b/src/aihwkit/simulator/tiles/functions.py
index 84938a8..93cb418 100644
--- a/src/aihwkit/simulator/tiles/functions.py
+++ b/src/aihwkit/simulator/tiles/functions.py
@@ -51,6 +51,8 @@ class AnalogFunction(Function):
 
         # Invoke the forward pass in the tile instance.
         if use_indexed:
+            # Indices might change before the backward (different image size)
+            ctx.indexed = (analog_tile.matrix_indices, analog_tile.image_sizes)
             out = analog_tile.joint_forward_indexed(input_, is_test, ctx)
         else:
             out = analog_tile.joint_forward(input_, is_test, ctx)
@@ -84,7 +86,8 @@ class AnalogFunction(Function):
 
         # Call the backward function in the tile instance.
         if use_indexed:
-            grad_input = analog_tile.backward_indexed(grad_output, ctx)
+            with analog_tile.using_indexed(*ctx.indexed):
+                grad_input = analog_tile.backward_indexed(grad_output, ctx)
         else:
             grad_input = analog_tile.backward(grad_output, ctx)
 
@@ -96,7 +99,8 @@ class AnalogFunction(Function):
             shared_weights_grad = empty_like(ctx.shared_weights)
             analog_tile.set_delta_weights(shared_weights_grad)
             if use_indexed:
-                analog_tile.update_indexed(input_, grad_output)
+                with analog_tile.using_indexed(*ctx.indexed):
+                    analog_tile.update_indexed(input_, grad_output)
             else:
                 analog_tile.update(input_, grad_output)
             analog_tile.reset_delta_weights()
@@ -109,6 +113,8 @@ class AnalogFunction(Function):
             else:
                 store_gradients = grad_output
             analog_ctx.analog_grad_output.append(store_gradients)
+            if use_indexed:
+                analog_ctx.analog_indexed.append(ctx.indexed)
 
         ctx.saved_analog_tensors = []
         return None, None, grad_input, shared_weights_grad, None
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 8add54c..94cdf72 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -9,7 +9,8 @@
 
 """Base tile with added periphery and common utility methods."""
 
-from typing import Optional, Tuple, Union, Any, List
+from typing import Optional, Tuple, Union, Any, List, Iterator
+from contextlib import contextmanager
 from numpy import array
 
 from torch import (
@@ -84,6 +85,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         self.bias_quantizer = None  # type: Optional[QuantizationManager]
 
         self.image_sizes = []  # type: List[int]
+        self.matrix_indices = None  # type: Optional[Tensor]
 
         if self.digital_bias:
             # Note that the bias needs to be handled on the module level
@@ -1299,8 +1301,33 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
             raise TileError("Transposed indexed versions not supported (assumes NC(D)HW)")
         self.analog_ctx.set_indexed()
         self.image_sizes = image_sizes
+        self.matrix_indices = indices
         self.tile.set_matrix_indices(indices)
 
+    @contextmanager
+    def using_indexed(self, indices: Tensor, image_sizes: List) -> Iterator[None]:
+        """Temporarily use the given index matrix, e.g. to compute the backward
+        or update of an input that was given before the last
+        :meth:`set_indexed`.
+
+        Args:
+            indices: index matrix at the time of the forward
+            image_sizes: image sizes at the time of the forward
+
+        Yields:
+            None
+        """
+        current_indices, current_sizes = self.matrix_indices, self.image_sizes
+        if indices is current_indices:
+            yield
+            return
+
+        self.set_indexed(indices, image_sizes)
+        try:
+            yield
+        finally:
+            self.set_indexed(current_indices, current_sizes)
+
     @no_grad()
     def joint_forward_indexed(
         self, x_input: Tensor, is_test: bool = False, ctx: Any = None
-- 
2.43.0


From d8a74fd5192e059443f07e8bf20dfeb61f163825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:10 +0000
Subject: [PATCH 54/85] fix: optimizer step with stored records of different
 shapes

---
 src/aihwkit/optim/analog_optimizer.py | 30 ++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 01da732..64e2739 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -7,9 +7,9 @@
 """Analog-aware inference optimizer."""
 
 from types import new_class
-from typing import Any, Callable, Dict, Optional, Type
+from typing import Any, Callable, Dict, List, Optional, Type
 
-from torch import cat
+from torch import cat, Tensor
 from torch.optim import Optimizer, SGD, Adam
 from torch.autograd import no_grad
 
@@ -56,6 +56,24 @@ class AnalogOptimizerMixin:
         for group in analog_param_groups:
             self.add_param_group(group)  # type: ignore[attr-defined]
 
+    @staticmethod
+    def _cat_records(records: List[Tensor], trans: bool) -> Tensor:
+        """Concatenate the stored records along the batch dimension.
+
+        The shapes of the records might differ in all but the feature
+        dimension, thus all other dimensions are flattened first.
+
+        Args:
+            records: list of stored input or gradient tensors
+            trans: whether the records are transposed (feature dimension first)
+
+        Returns:
+            Tensor with all records
+        """
+        if trans:
+            return cat([record.reshape(record.size(0), -1) for record in records], dim=-1)
+        return cat([record.reshape(-1, record.size(-1)) for record in records], dim=0)
+
     @no_grad()
     def step(self, closure: Optional[Callable] = None, **kwargs: Any) -> Optional[float]:
         """Perform an analog-aware single optimization step.
@@ -125,11 +143,9 @@ class AnalogOptimizerMixin:
                                     ),
                                 )
                     else:
-                        x_input = cat(
-                            analog_ctx.analog_input, axis=-1 if analog_tile.in_trans else 0
-                        )
-                        d_input = cat(
-                            analog_ctx.analog_grad_output, axis=-1 if analog_tile.out_trans else 0
+                        x_input = self._cat_records(analog_ctx.analog_input, analog_tile.in_trans)
+                        d_input = self._cat_records(
+                            analog_ctx.analog_grad_output, analog_tile.out_trans
                         )
                         analog_tile.update(
                             x_input.to(analog_tile.device) if runtime.offload_input else x_input,
-- 
2.43.0


From 804f13b9b53cb2f147d552eb5e9369709ba04d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:38 +0000
Subject: [PATCH 55/85] fix: keep the group options (learning rate, names) when
 regrouping analog parameters

---
 src/aihwkit/optim/analog_optimizer.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 64e2739..734ee8f 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -35,14 +35,21 @@ class AnalogOptimizerMixin:
         rm_group_lst = []
         for group in self.param_groups:  # type: ignore[has-type]
             rm_lst = []
-            for param in group["params"]:
+            names = group.pop("param_names", None)
+            # Keep the options (e.g. the learning rate) of the original group.
+            options = {key: value for key, value in group.items() if key != "params"}
+            for idx, param in enumerate(group["params"]):
                 if isinstance(param, AnalogContext):
-                    param.analog_tile.set_learning_rate(
-                        self.defaults["lr"]  # type: ignore[attr-defined]
+                    param.analog_tile.set_learning_rate(group.get("lr"))
+                    analog_param_groups.append(
+                        {**options, "params": [param if names is None else (names[idx], param)]}
                     )
-                    analog_param_groups.append({"params": [param]})
                     rm_lst.append(id(param))
 
+            if names is not None:
+                group["param_names"] = [
+                    n for n, p in zip(names, group["params"]) if id(p) not in rm_lst
+                ]
             group["params"] = [p for p in group["params"] if id(p) not in rm_lst]
 
             if len(group["params"]) == 0:
-- 
2.43.0


From e3a7fc20375dfc9016d41fa563f932c78ce27efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:54 +0000
Subject: [PATCH 56/85] fix: frozen analog parameters (requires_grad=False)
 must not record updates

---
 src/aihwkit/simulator/tiles/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/functions.py b/src/aihwkit/simulator/tiles/functions.py
index 93cb418..c4b7f4a 100644
--- a/src/aihwkit/simulator/tiles/functions.py
+++ b/src/aihwkit/simulator/tiles/functions.py
@@ -104,8 +104,9 @@ class AnalogFunction(Function):
             else:
                 analog_tile.update(input_, grad_output)
             analog_tile.reset_delta_weights()
-        else:
+        elif ctx.needs_input_grad[0]:
             # Store activation and errors for optimizer (for analog training)
+            # if the analog parameter is not frozen
             analog_ctx.analog_input.append(input_)
 
             if runtime.offload_gradient:
-- 
2.43.0


From bbe346d358ce2226490a7fee049a8fab6f216c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:54 +0000
Subject: [PATCH 57/85] fix: stored update records must not share memory with
 tensors modified later

---
 src/aihwkit/simulator/tiles/functions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/functions.py b/src/aihwkit/simulator/tiles/functions.py
index c4b7f4a..0e4b0ab 100644
--- a/src/aihwkit/simulator/tiles/functions.py
+++ b/src/aihwkit/simulator/tiles/functions.py
@@ -106,13 +106,14 @@ class AnalogFunction(Function):
             analog_tile.reset_delta_weights()
         elif ctx.needs_input_grad[0]:
             # Store activation and errors for optimizer (for analog training)
-            # if the analog parameter is not frozen
-            analog_ctx.analog_input.append(input_)
+            # if the analog parameter is not frozen. Both might be modified in-place
+            # before the update (e.g. the bias gradient might be the same tensor)
+            analog_ctx.analog_input.append(input_.clone())
 
             if runtime.offload_gradient:
-                store_gradients = grad_output.cpu()
+                store_gradients = grad_output.to("cpu", copy=True)
             else:
-                store_gradients = grad_output
+                store_gradients = grad_output.clone()
             analog_ctx.analog_grad_output.append(store_gradients)
             if use_indexed:
                 analog_ctx.analog_indexed.append(ctx.indexed)
-- 
2.43.0


From 1eb3579383d93253da8c4e90d7f54890253569e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:53 +0000
Subject: [PATCH 58/85] fix: AnalogOptimizer mixes up optimizer classes of the
 same name

---
 src/aihwkit/optim/analog_optimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 734ee8f..a508fbd 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -227,8 +227,9 @@ class AnalogOptimizer(AnalogOptimizerMixin, Optimizer):
 
         # Retrieve or create a new subclass, that inherits both from
         # `AnalogOptimizer` and for the specific torch optimizer
-        # (`optimizer_cls`).
-        if subclass_name not in cls.SUBCLASSES:
+        # (`optimizer_cls`, there might be others with the same name).
+        subclass = cls.SUBCLASSES.get(subclass_name)
+        if subclass is None or subclass.__bases__ != (cls, optimizer_cls):
             cls.SUBCLASSES[subclass_name] = new_class(subclass_name, (cls, optimizer_cls), {})
 
         return super().__new__(cls.SUBCLASSES[subclass_name])
-- 
2.43.0


From 7bde4d1382c1e1c2b76812e65bede9c25a3fe860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:02 +0000
Subject: [PATCH 59/85] fix: building the bindings of a ReferenceUnitCell must
 not modify the configuration

---
 src/aihwkit/simulator/configs/compounds.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/aihwkit/simulator/configs/compounds.py b/src/aihwkit/simulator/configs/compounds.py
index 26eab3b..c206762 100644
--- a/src/aihwkit/simulator/configs/compounds.py
+++ b/src/aihwkit/simulator/configs/compounds.py
@@ -8,7 +8,6 @@
 
 """Compound configuration for Analog (Resistive Device) tiles."""
 
-from copy import deepcopy
 from dataclasses import dataclass, field
 from typing import ClassVar, List, Union, Any, TYPE_CHECKING
 from warnings import warn
@@ -160,17 +159,13 @@ class ReferenceUnitCell(UnitCell):
         if not isinstance(self.unit_cell_devices, list):
             raise ConfigError("unit_cell_devices should be a list of devices")
 
-        if len(self.unit_cell_devices) > 2:
-            self.unit_cell_devices = self.unit_cell_devices[:2]
-        elif len(self.unit_cell_devices) == 1:
-            self.unit_cell_devices = [
-                self.unit_cell_devices[0],
-                deepcopy(self.unit_cell_devices[0]),
-            ]
-        elif len(self.unit_cell_devices) != 2:
+        devices = self.unit_cell_devices[:2]
+        if len(devices) == 1:
+            devices = devices * 2
+        elif len(devices) != 2:
             raise ConfigError("ReferenceUnitCell expects two unit_cell_devices")
 
-        for param in self.unit_cell_devices:
+        for param in devices:
             device_parameters = param.as_bindings(data_type)
             if not vector_parameters.append_parameter(device_parameters):
                 raise ConfigError("Could not add unit cell device parameter")
-- 
2.43.0


From a731cf511e5f19e10e66497c90e893ff5f37c945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:02 +0000
Subject: [PATCH 60/85] fix: raise the documented error if the bindings class
 is not found

---
 src/aihwkit/simulator/parameters/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/parameters/helpers.py b/src/aihwkit/simulator/parameters/helpers.py
index 9c6a9a2..d277d6e 100644
--- a/src/aihwkit/simulator/parameters/helpers.py
+++ b/src/aihwkit/simulator/parameters/helpers.py
@@ -57,7 +57,7 @@ def get_bindings_class(params: Any, data_type: RPUDataType) -> Optional[Type]:
         module = getattr(module, data_type.value)
     param_class = getattr(module, class_name, None)
     if param_class is None:
-        ConfigError(f"Cannot find requested class '{class_name}' in rpu_base module. ")
+        raise ConfigError(f"Cannot find requested class '{class_name}' in rpu_base module. ")
     return param_class
 
 
-- 
2.43.0


From a691d8014a4c30ce36d142404bd7131e899df002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:21 +0000
Subject: [PATCH 61/85] fix: keep children that are used several times when
 converting a Sequential

named_children() returns each module only once, so that for instance the
second use of an activation module was dropped.
---
 src/aihwkit/nn/modules/container.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/nn/modules/container.py b/src/aihwkit/nn/modules/container.py
index 7f5d36b..1801598 100644
--- a/src/aihwkit/nn/modules/container.py
+++ b/src/aihwkit/nn/modules/container.py
@@ -77,12 +77,14 @@ class AnalogSequential(AnalogContainerBase, Sequential):
     @classmethod
     def from_digital(cls, module: Sequential, *args: Any, **kwargs: Any) -> "AnalogSequential":
         """Construct AnalogSequential in-place from Sequential."""
-        return cls(OrderedDict(mod for mod in module.named_children()))
+        # pylint: disable=protected-access
+        return cls(OrderedDict(module._modules))
 
     @classmethod
     def to_digital(cls, module: "AnalogSequential", *args: Any, **kwargs: Any) -> Sequential:
         """Construct Sequential in-place from AnalogSequential."""
-        return Sequential(OrderedDict(mod for mod in module.named_children()))
+        # pylint: disable=protected-access
+        return Sequential(OrderedDict(module._modules))
 
 
 class AnalogWrapper(AnalogContainerBase):
-- 
2.43.0


From ed780fb016199695783c203a2544f9be19a7c64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:30 +0000
Subject: [PATCH 62/85] fix: convert modules that are used several times in
 every place of the model

---
 src/aihwkit/nn/conversion.py | 40 +++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/aihwkit/nn/conversion.py b/src/aihwkit/nn/conversion.py
index f148a62..8dc7caf 100644
--- a/src/aihwkit/nn/conversion.py
+++ b/src/aihwkit/nn/conversion.py
@@ -10,7 +10,7 @@ This module includes tools for converting a given torch model to a
 model containing analog layers.
 """
 
-from typing import TypeVar, Optional, Dict, Callable, Set, List
+from typing import TypeVar, Optional, Dict, Callable, Set, List, Tuple
 from copy import deepcopy
 
 from torch.nn import Module, Linear, Conv1d, Conv2d, Conv3d, Sequential
@@ -88,6 +88,7 @@ def convert_to_analog(
     exclude_modules: Optional[List[str]] = None,
     inplace: bool = False,
     verbose: bool = False,
+    _converted: Optional[Dict[int, Tuple[Module, Module]]] = None,
 ) -> Module:
     """Convert a given digital model to its analog counterpart.
 
@@ -151,6 +152,10 @@ def convert_to_analog(
     if exclude_modules is None:
         exclude_modules = []
 
+    if _converted is None:
+        # modules might be used several times: old and new module per id
+        _converted = {}
+
     if not inplace:
         module = deepcopy(module)
 
@@ -175,10 +180,15 @@ def convert_to_analog(
 
     # Convert children.
     convert_dic = {}
-    for name, mod in module.named_children():
+    # pylint: disable-next=protected-access
+    for name, mod in module._modules.items():
         full_name = module_name + "." + name if module_name else name
 
-        if full_name in exclude_modules:
+        if mod is None or full_name in exclude_modules:
+            continue
+
+        if id(mod) in _converted:
+            convert_dic[name] = _converted[id(mod)][1]
             continue
 
         n_grand_children = len(list(mod.named_children()))
@@ -194,7 +204,9 @@ def convert_to_analog(
                 exclude_modules,
                 True,
                 verbose,
+                _converted,
             )
+            _converted[id(mod)] = (mod, convert_dic[name])
             continue
 
         if mod.__class__ not in conversion_map.keys():
@@ -204,6 +216,7 @@ def convert_to_analog(
         convert_dic[name] = conversion_map[mod.__class__].from_digital(
             mod, specific_rpu_config_fun(full_name, mod, deepcopy(rpu_config)), tile_module_class
         )
+        _converted[id(mod)] = (mod, convert_dic[name])
 
     for name, new_mod in convert_dic.items():
         module._modules[name] = new_mod  # pylint: disable=protected-access
@@ -220,6 +233,7 @@ def convert_to_digital(
     conversion_set: Optional[Set] = None,
     module_name: str = "",
     inplace: bool = False,
+    _converted: Optional[Dict[int, Tuple[Module, Module]]] = None,
 ) -> Module:
     """Convert a given analog model to digital counter parts.
 
@@ -260,6 +274,10 @@ def convert_to_digital(
     if not inplace:
         module = deepcopy(module)
 
+    if _converted is None:
+        # modules might be used several times: old and new module per id
+        _converted = {}
+
     if conversion_set is None:
         conversion_set = _DEFAULT_DIGITAL_CONVERSION_SET
 
@@ -277,12 +295,23 @@ def convert_to_digital(
 
     # Convert children.
     convert_dic = {}
-    for name, mod in module.named_children():
+    # pylint: disable-next=protected-access
+    for name, mod in module._modules.items():
+        if mod is None:
+            continue
+
+        if id(mod) in _converted:
+            convert_dic[name] = _converted[id(mod)][1]
+            continue
+
         full_name = module_name + "." + name if module_name else name
         n_grand_children = len(list(mod.named_children()))
 
         if n_grand_children > 0:
-            convert_dic[name] = convert_to_digital(mod, conversion_set, full_name, inplace=True)
+            convert_dic[name] = convert_to_digital(
+                mod, conversion_set, full_name, inplace=True, _converted=_converted
+            )
+            _converted[id(mod)] = (mod, convert_dic[name])
             continue
 
         if mod.__class__ not in conversion_set:
@@ -294,6 +323,7 @@ def convert_to_digital(
                 "analog layers that support `to_digital` conversion."
             )
         convert_dic[name] = mod.to_digital(mod)  # type: ignore
+        _converted[id(mod)] = (mod, convert_dic[name])
 
     for name, new_mod in convert_dic.items():
         module._modules[name] = new_mod  # pylint: disable=protected-access
-- 
2.43.0


From 401249852ceb16b0555a7fd983bd0bb3e45a56cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:30 +0000
Subject: [PATCH 63/85] fix: ensure the analog root also if a name of the root
 module is given

---
 src/aihwkit/nn/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/nn/conversion.py b/src/aihwkit/nn/conversion.py
index 8dc7caf..e3c1737 100644
--- a/src/aihwkit/nn/conversion.py
+++ b/src/aihwkit/nn/conversion.py
@@ -200,7 +200,7 @@ def convert_to_analog(
                 conversion_map,
                 specific_rpu_config_fun,
                 full_name,
-                True,
+                False,
                 exclude_modules,
                 True,
                 verbose,
@@ -222,7 +222,7 @@ def convert_to_analog(
         module._modules[name] = new_mod  # pylint: disable=protected-access
 
     # in case of root, make sure it is wrapped as analog
-    if ensure_analog_root and not module_name and not isinstance(module, AnalogLayerBase):
+    if ensure_analog_root and not isinstance(module, AnalogLayerBase):
         module = AnalogWrapper(module)
 
     return module
-- 
2.43.0


From a7c46df6b1f253bf50e9ace234ab70c33c56870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:31 +0000
Subject: [PATCH 64/85] fix: AnalogWrapper mixes up module classes of the same
 name

---
 src/aihwkit/nn/modules/container.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/nn/modules/container.py b/src/aihwkit/nn/modules/container.py
index 1801598..3de1d0d 100644
--- a/src/aihwkit/nn/modules/container.py
+++ b/src/aihwkit/nn/modules/container.py
@@ -115,8 +115,9 @@ class AnalogWrapper(AnalogContainerBase):
 
         # Retrieve or create a new subclass, that inherits both from
         # `AnalogModuleBase` and for the specific torch module
-        # (`module_cls`).
-        if subclass_name not in cls.SUBCLASSES:
+        # (`module_cls`, there might be others with the same name).
+        subclass = cls.SUBCLASSES.get(subclass_name)
+        if subclass is None or subclass.__bases__ != (cls, module_cls):
             cls.SUBCLASSES[subclass_name] = new_class(subclass_name, (cls, module_cls), {})
 
         return super().__new__(cls.SUBCLASSES[subclass_name])
-- 
2.43.0


From f63f8c7d3086c541f6cf88c540fd0584596c6e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:34 +0000
Subject: [PATCH 65/85] fix: quantization with a range fixed by the user

---
 .../digital_low_precision/quantization_manager.py      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantization_manager.py b/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
index d5f5710..2657631 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
@@ -118,17 +118,21 @@ class QuantizationManager(nn.Module):
         return self.state == Qstates.learn_ranges
 
     def reset_ranges(self):
+        if self.range_estimator is None:
+            # fixed range given by the user
+            return
         self.range_estimator.reset()
         self.quantizer.reset()
         self.estimate_ranges_train()
 
     def forward(self, x):
-        if self.range_estimator.per_group_range_estimation:
+        if self.range_estimator is not None and self.range_estimator.per_group_range_estimation:
             self.range_estimator(x)
             return x
 
-        if self.state == Qstates.estimate_ranges or (
-            self.state == Qstates.estimate_ranges_train and self.training
+        if self.range_estimator is not None and (
+            self.state == Qstates.estimate_ranges
+            or (self.state == Qstates.estimate_ranges_train and self.training)
         ):
             # Note this can be per tensor or per channel
             cur_xmin, cur_xmax = self.range_estimator(x)
-- 
2.43.0


From 70123f2666daaa458e0b754d775085212c3c4d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 66/85] fix: per-channel quantizer used with inputs of
 different dimensions

---
 src/aihwkit/simulator/digital_low_precision/quantizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantizers.py b/src/aihwkit/simulator/digital_low_precision/quantizers.py
index 422619d..94817f2 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantizers.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantizers.py
@@ -277,7 +277,7 @@ class AsymmetricUniformQuantizer(QuantizerBase):
         ----------
         x: input tensor
         """
-        if self.view_func is None and x.ndim != self.delta.ndim:
+        if x.ndim != self.delta.ndim:
             new_shape = [-1] + [1] * (len(x.shape) - 1)
             self.view_func = lambda x: x.view(new_shape)
             # self._delta = self.delta.view(new_shape)
@@ -527,7 +527,7 @@ class SymmetricUniformQuantizer(QuantizerBase):
         ----------
         x: input tensor
         """
-        if self.view_func is None and x.ndim != self.delta.ndim:
+        if x.ndim != self.delta.ndim:
             new_shape = [-1] + [1] * (len(x.shape) - 1)
             self.view_func = lambda x: x.view(new_shape)
 
-- 
2.43.0


From 8afedb154dbe270cae88cd2325d820257968269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 67/85] fix: set the range of a quantizer whose range is being
 learned

---
 src/aihwkit/simulator/digital_low_precision/quantizers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantizers.py b/src/aihwkit/simulator/digital_low_precision/quantizers.py
index 94817f2..6bd035f 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantizers.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantizers.py
@@ -313,6 +313,7 @@ class AsymmetricUniformQuantizer(QuantizerBase):
 
         return x_min, x_max
 
+    @torch.no_grad()
     def set_quant_range(self, x_min, x_max):
         """
         Instantiates the quantization parameters based on the provided
@@ -560,6 +561,7 @@ class SymmetricUniformQuantizer(QuantizerBase):
 
         return x_min, x_max
 
+    @torch.no_grad()
     def set_quant_range(self, x_min, x_max):
         x_min, x_max = self._tensorize_min_max(x_min, x_max)
         self._signed = x_min.min() < 0
-- 
2.43.0


From 4407e66ee062055d35f88ddff8c2a70eae9b3849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 68/85] fix: a loaded range estimator must not share its range
 with the saved one

---
 .../simulator/digital_low_precision/range_estimators.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/range_estimators.py b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
index eecdb3c..21bff30 100644
--- a/src/aihwkit/simulator/digital_low_precision/range_estimators.py
+++ b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
@@ -61,10 +61,10 @@ class RangeEstimatorBase(nn.Module):
         xmax_key = prefix + "current_xmax"
         if xmin_key in state_dict:
             if self.current_xmin is None or state_dict[xmin_key].shape != self.current_xmin.shape:
-                self.current_xmin = state_dict[xmin_key]
+                self.current_xmin = state_dict[xmin_key].clone()
         if xmax_key in state_dict:
             if self.current_xmax is None or state_dict[xmax_key].shape != self.current_xmax.shape:
-                self.current_xmax = state_dict[xmax_key]
+                self.current_xmax = state_dict[xmax_key].clone()
 
         super(RangeEstimatorBase, self)._load_from_state_dict(
             state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs
-- 
2.43.0


From 2775d663d6d080abe4e4189a0337ac015a8fa2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:15 +0000
Subject: [PATCH 69/85] fix: running average of the ranges per group ignored
 the previous ranges

---
 src/aihwkit/simulator/digital_low_precision/range_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/range_estimators.py b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
index 21bff30..166f93d 100644
--- a/src/aihwkit/simulator/digital_low_precision/range_estimators.py
+++ b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
@@ -96,7 +96,7 @@ class CurrentMinMaxEstimator(RangeEstimatorBase):
                 self.ranges = ranges
             else:
                 momentum = 0.1
-                self.ranges = momentum * ranges + (1 - momentum) * ranges
+                self.ranges = momentum * ranges + (1 - momentum) * self.ranges
             return
 
         if self.axis is not None:
-- 
2.43.0


From 9f6c3a057d33cd89229387b20266d4eb29dea611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:15 +0000
Subject: [PATCH 70/85] fix: a reset MSE range estimator must determine the
 sign of the data again

---
 src/aihwkit/simulator/digital_low_precision/range_estimators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aihwkit/simulator/digital_low_precision/range_estimators.py b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
index 166f93d..e29c74b 100644
--- a/src/aihwkit/simulator/digital_low_precision/range_estimators.py
+++ b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
@@ -509,6 +509,7 @@ class MSE_Estimator(RangeEstimatorBase):
     def reset(self):
         super().reset()
         self.loss_array = None
+        self.one_sided_dist = None
 
 
 class CrossEntropyEstimator(MSE_Estimator):
-- 
2.43.0


From 943affb8e50f399c910b2e15e0d6615416c5b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:15 +0000
Subject: [PATCH 71/85] fix: quantized layers used the cached weights after
 loading a state in evaluation mode

---
 .../digital_low_precision/base_quantized_classes.py          | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py b/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py
index 7abcb51..f619f00 100644
--- a/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py
+++ b/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py
@@ -134,6 +134,11 @@ class QuantizedModule(nn.Module):
             self.cached_params = None
         return self
 
+    def _load_from_state_dict(self, *args, **kwargs):
+        # the weights change
+        self.cached_params = None
+        super()._load_from_state_dict(*args, **kwargs)
+
     def _apply(self, *args, **kwargs):
         self.cached_params = None
         return super(QuantizedModule, self)._apply(*args, **kwargs)
-- 
2.43.0


From 80eb398810e8a69b2913f8f409c5c9ef1297af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:32 +0000
Subject: [PATCH 72/85] fix: compiled forward/backward wrote beyond the result
 when only one of input and output is transposed

---
 .../simulator/rpu_base_src/rpu_base_tiles.cpp      | 14 ++++----------
 .../simulator/rpu_base_src/rpu_base_tiles_cuda.cpp | 14 ++++----------
 2 files changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
index bf8a1c0..c6dcff3 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
@@ -428,11 +428,8 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
 
             // Build the buffers.
             std::vector<int64_t> dims(x_input.sizes().begin(), x_input.sizes().end());
-            if (d_trans) {
-              dims[0] = out_size;
-            } else {
-              dims[dims.size() - 1] = out_size;
-            }
+            dims.erase(x_trans ? dims.begin() : dims.end() - 1);
+            dims.insert(d_trans ? dims.begin() : dims.end(), out_size);
             torch::Tensor d_output = torch::empty(dims, x_input.options());
 
             // Call RPU function.
@@ -498,11 +495,8 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
 
             // Build the buffers.
             std::vector<int64_t> dims(d_input.sizes().begin(), d_input.sizes().end());
-            if (x_trans) {
-              dims[0] = out_size;
-            } else {
-              dims[dims.size() - 1] = out_size;
-            }
+            dims.erase(d_trans ? dims.begin() : dims.end() - 1);
+            dims.insert(x_trans ? dims.begin() : dims.end(), out_size);
             torch::Tensor x_output = torch::empty(dims, d_input.options());
 
             // Call RPU function.
diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
index 1b1a93f..3599226 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
@@ -181,11 +181,8 @@ void declare_rpu_tiles_cuda(py::module &m, std::string type_name_add, bool add_u
 
             // Build the buffers.
             std::vector<int64_t> dims(x_input.sizes().begin(), x_input.sizes().end());
-            if (d_trans) {
-              dims[0] = out_size;
-            } else {
-              dims[dims.size() - 1] = out_size;
-            }
+            dims.erase(x_trans ? dims.begin() : dims.end() - 1);
+            dims.insert(d_trans ? dims.begin() : dims.end(), out_size);
             torch::Tensor d_output = torch::empty(dims, x_input.options());
 
             // Call RPU function.
@@ -259,11 +256,8 @@ void declare_rpu_tiles_cuda(py::module &m, std::string type_name_add, bool add_u
 
             // Build the buffers.
             std::vector<int64_t> dims(d_input.sizes().begin(), d_input.sizes().end());
-            if (x_trans) {
-              dims[0] = out_size;
-            } else {
-              dims[dims.size() - 1] = out_size;
-            }
+            dims.erase(d_trans ? dims.begin() : dims.end() - 1);
+            dims.insert(x_trans ? dims.begin() : dims.end(), out_size);
             torch::Tensor x_output = torch::empty(dims, d_input.options());
 
             // Call RPU function.
-- 
2.43.0


From 82ab64008ac3cdb403f6586e9112605f8bc636df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:32 +0000
Subject: [PATCH 73/85] fix: the gradient of a tile with learning rate zero was
 uninitialized memory

---
 src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp      | 4 ++--
 src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
index c6dcff3..3c7d648 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
@@ -538,8 +538,8 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
              bool bias = false, bool x_trans = false, bool d_trans = false,
              bool non_blocking = false) {
             T_RPU lr = self.getLearningRate();
-            if (lr == (T_RPU)0.0) {
-              return;
+            if (lr == (T_RPU)0.0 && !self.getDeltaWeights()) {
+              return; // delta weights do not depend on the learning rate
             }
 
             auto d_input = d_input_.contiguous();
diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
index 3599226..53e2384 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
@@ -307,8 +307,8 @@ void declare_rpu_tiles_cuda(py::module &m, std::string type_name_add, bool add_u
              bool bias = false, bool x_trans = false, bool d_trans = false,
              bool non_blocking = false) {
             T_RPU lr = self.getLearningRate();
-            if (lr == (T_RPU)0.0) {
-              return;
+            if (lr == (T_RPU)0.0 && !self.getDeltaWeights()) {
+              return; // delta weights do not depend on the learning rate
             }
 
             auto d_input = d_input_.contiguous();
-- 
2.43.0


From 30a8ef4df296af82651178091cd8f94e09b28611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:32 +0000
Subject: [PATCH 74/85] fix: the keywords x_trans and d_trans of the compiled
 update were exchanged

---
 src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp      | 4 ++--
 src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
index 3c7d648..9ad6147 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
@@ -588,8 +588,8 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
                 reinterpret_cast<T_RPU *>(d_input.template data_ptr<T>()), bias, m_batch, x_trans,
                 d_trans);
           },
-          py::arg("x_input"), py::arg("d_input"), py::arg("bias"), py::arg("d_trans") = false,
-          py::arg("x_trans") = false, py::arg("non_blocking") = false,
+          py::arg("x_input"), py::arg("d_input"), py::arg("bias"), py::arg("x_trans") = false,
+          py::arg("d_trans") = false, py::arg("non_blocking") = false,
           R"pbdoc(
            Compute an n-rank update.
 
diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
index 53e2384..6d8ab18 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles_cuda.cpp
@@ -364,8 +364,8 @@ void declare_rpu_tiles_cuda(py::module &m, std::string type_name_add, bool add_u
             }
             self.releaseExternalStream();
           },
-          py::arg("x_input"), py::arg("d_input"), py::arg("bias"), py::arg("d_trans") = false,
-          py::arg("x_trans") = false, py::arg("non_blocking") = false,
+          py::arg("x_input"), py::arg("d_input"), py::arg("bias"), py::arg("x_trans") = false,
+          py::arg("d_trans") = false, py::arg("non_blocking") = false,
           R"pbdoc(
            Compute an n-rank update.
 
-- 
2.43.0


From 9eff24c03fd12b86bc21592015b44bb961b4c19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:28 +0000
Subject: [PATCH 75/85] fix: reads of analog parameters no longer share memory
 with the tile weights

---
 src/aihwkit/optim/context.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/optim/context.py b/src/aihwkit/optim/context.py
index 3f84518..470c3ed 100644
--- a/src/aihwkit/optim/context.py
+++ b/src/aihwkit/optim/context.py
@@ -275,12 +275,17 @@ class AnalogContext(Parameter):
         return raw.shape
 
     def _logical_data(self) -> Tensor:
-        """Return logical weights equivalent to ``analog_tile.get_weights()[0]``."""
+        """Return logical weights equivalent to ``analog_tile.get_weights()[0]``.
+
+        The returned tensor never shares memory with the tile: results of read
+        operations (indexing, ``view``, ``detach``, ``numpy`` etc.) are plain
+        tensors, which would otherwise give write access to the tile weights.
+        """
         raw = self._raw_data()
         try:
             analog_tile = object.__getattribute__(self, "analog_tile")
         except AttributeError:
-            return raw
+            return raw.clone()
 
         logical = raw
         if getattr(analog_tile, "analog_bias", False) and raw.dim() >= 2:
@@ -288,11 +293,11 @@ class AnalogContext(Parameter):
 
         get_scales = getattr(analog_tile, "get_scales", None)
         if get_scales is None:
-            return logical
+            return logical.clone()
 
         scales = get_scales()
         if scales is None:
-            return logical
+            return logical.clone()
 
         scales = scales.to(device=logical.device, dtype=logical.dtype)
         return logical * scales.view(-1, 1)
-- 
2.43.0


From 524c68a8c14965b7f6d97842ea19d70402bf080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:28 +0000
Subject: [PATCH 76/85] fix: value properties of the placeholder of an analog
 parameter raise

---
 src/aihwkit/optim/context.py     |  9 +--------
 src/aihwkit/optim/weight_view.py | 19 ++++++++++++++++++-
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/aihwkit/optim/context.py b/src/aihwkit/optim/context.py
index 470c3ed..7b237fb 100644
--- a/src/aihwkit/optim/context.py
+++ b/src/aihwkit/optim/context.py
@@ -21,6 +21,7 @@ from aihwkit.optim.weight_view import (
     raise_if_readonly_write_target,
     PlaceholderDataView,
     _PLACEHOLDER_METADATA_FUNCTIONS,
+    _VALUE_VIEW_PROPERTIES,
     _raise_placeholder_read_error,
 )
 from aihwkit.simulator.parameters.enums import AnalogContextDataViewMode
@@ -29,14 +30,6 @@ if TYPE_CHECKING:
     from aihwkit.simulator.tiles.base import SimulatorTileWrapper
 
 
-# Tensor properties that materialize weight values (transpose / conjugate views
-# and complex parts). They must honor the data-view mode like their method
-# equivalents (``t()``, ``conj()``); otherwise the getset descriptors fall
-# through to ``__torch_function__`` as the whitelisted ``__get__`` and silently
-# return uninitialized placeholder memory in PLACEHOLDER mode.
-_VALUE_VIEW_PROPERTIES = ("T", "mT", "H", "mH", "real", "imag")
-
-
 class AnalogContext(Parameter):
     """Context for analog optimizer.
 
diff --git a/src/aihwkit/optim/weight_view.py b/src/aihwkit/optim/weight_view.py
index 6cb614a..4a421c8 100644
--- a/src/aihwkit/optim/weight_view.py
+++ b/src/aihwkit/optim/weight_view.py
@@ -132,6 +132,14 @@ _PLACEHOLDER_METADATA_FUNCTIONS = {
 }
 
 
+# Tensor properties that materialize weight values (transpose / conjugate views
+# and complex parts). They must honor the data-view mode like their method
+# equivalents (``t()``, ``conj()``); otherwise the getset descriptors fall
+# through to ``__torch_function__`` as the whitelisted ``__get__`` and silently
+# return uninitialized placeholder memory in PLACEHOLDER mode.
+_VALUE_VIEW_PROPERTIES = ("T", "mT", "H", "mH", "real", "imag")
+
+
 def _raise_placeholder_read_error(func_name: str) -> None:
     """Raise the standard error for reads in placeholder mode."""
     operation = func_name or "unknown"
@@ -183,6 +191,12 @@ class PlaceholderDataView(Tensor):
         if func_name not in _PLACEHOLDER_METADATA_FUNCTIONS:
             _raise_placeholder_read_error(func_name)
 
+        if func_name == "__get__":
+            # the descriptors of the properties share their name
+            property_name = getattr(getattr(func, "__self__", None), "__name__", "")
+            if property_name in _VALUE_VIEW_PROPERTIES:
+                _raise_placeholder_read_error(property_name)
+
         if func_name == "detach":
             source = args[0]
             with DisableTorchFunction():  # pylint: disable=not-context-manager
@@ -195,7 +209,10 @@ class PlaceholderDataView(Tensor):
 
         args = tree_map(unwrap, args)
         kwargs = tree_map(unwrap, kwargs)
-        return func(*args, **kwargs)
+        result = func(*args, **kwargs)
+        if func_name == "__get__" and isinstance(result, Tensor):
+            return PlaceholderDataView(result)
+        return result
 
     def __repr__(self) -> str:
         """Return metadata summary without exposing meaningless backing values."""
-- 
2.43.0


From e63eca5fa7e26cb798f202c6129a9c9fd26944e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:28 +0000
Subject: [PATCH 77/85] fix: analog parameters refuse writes by keyword and
 storage replacement

---
 src/aihwkit/optim/context.py     |  7 +++++++
 src/aihwkit/optim/weight_view.py | 15 +++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/optim/context.py b/src/aihwkit/optim/context.py
index 7b237fb..68075a2 100644
--- a/src/aihwkit/optim/context.py
+++ b/src/aihwkit/optim/context.py
@@ -185,6 +185,13 @@ class AnalogContext(Parameter):
             "Use analog_tile.set_weights() instead."
         )
 
+    def set_(self, *_args: Any, **_kwargs: Any) -> "AnalogContext":
+        """Block storage replacement (not dispatched by PyTorch)."""
+        raise RuntimeError(
+            "Direct replacement of the analog_ctx storage is not allowed. "
+            "Use analog_tile.set_weights(new_weight) for programmatic writes."
+        )
+
     def __dir__(self) -> List[str]:
         """List attribute names for interactive tab-completion.
 
diff --git a/src/aihwkit/optim/weight_view.py b/src/aihwkit/optim/weight_view.py
index 4a421c8..b15a2e6 100644
--- a/src/aihwkit/optim/weight_view.py
+++ b/src/aihwkit/optim/weight_view.py
@@ -37,8 +37,11 @@ def raise_if_readonly_write_target(
     is_readonly: Callable[[Any], bool],
 ) -> None:
     """Raise if a read-only analog weight view is used as a write target."""
-    if is_inplace_operation(func_name) and args and is_readonly(args[0]):
-        raise_readonly_error(func_name)
+    if is_inplace_operation(func_name):
+        # e.g. the functions of ``torch.nn.init`` give the tensor by keyword
+        targets = list(args or kwargs.values())
+        if targets and is_readonly(targets[0]):
+            raise_readonly_error(func_name)
 
     if "out" not in kwargs:
         return
@@ -86,6 +89,10 @@ class ReadOnlyWeightView(Tensor):
         kwargs = tree_map(unwrap, kwargs)
         return func(*args, **kwargs)
 
+    def set_(self, *_args: Any, **_kwargs: Any) -> "ReadOnlyWeightView":
+        """Block storage replacement (not dispatched by PyTorch)."""
+        raise_readonly_error("set_")
+
     def __setitem__(self, key: Any, value: Any) -> None:
         """Block item assignment (e.g., ``ctx.data[0, 0] = 999``)."""
         raise RuntimeError(
@@ -223,6 +230,10 @@ class PlaceholderDataView(Tensor):
                 f"device={raw.device})"
             )
 
+    def set_(self, *_args: Any, **_kwargs: Any) -> "PlaceholderDataView":
+        """Block storage replacement (not dispatched by PyTorch)."""
+        _raise_placeholder_read_error("set_")
+
     def __setitem__(self, key: Any, value: Any) -> None:
         """Block item assignment on the placeholder."""
         _raise_placeholder_read_error("__setitem__")
-- 
2.43.0


From 73e51bb2f338669eeb54caa7096c4df93118eb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:28 +0000
Subject: [PATCH 78/85] fix: copying the placeholder of an analog parameter

---
 src/aihwkit/optim/weight_view.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aihwkit/optim/weight_view.py b/src/aihwkit/optim/weight_view.py
index b15a2e6..6f7b895 100644
--- a/src/aihwkit/optim/weight_view.py
+++ b/src/aihwkit/optim/weight_view.py
@@ -230,6 +230,11 @@ class PlaceholderDataView(Tensor):
                 f"device={raw.device})"
             )
 
+    def __deepcopy__(self, memo: Any) -> "PlaceholderDataView":
+        """Return another placeholder with the same metadata."""
+        with DisableTorchFunction():  # pylint: disable=not-context-manager
+            return PlaceholderDataView(self.as_subclass(Tensor).clone())
+
     def set_(self, *_args: Any, **_kwargs: Any) -> "PlaceholderDataView":
         """Block storage replacement (not dispatched by PyTorch)."""
         _raise_placeholder_read_error("set_")
-- 
2.43.0


From e656e4cfdfca64bd977446f5b3058f328813da15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:28 +0000
Subject: [PATCH 79/85] fix: analog context of an inference tile refers to its
 shared weights

---
 src/aihwkit/simulator/tiles/rpucuda.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/rpucuda.py b/src/aihwkit/simulator/tiles/rpucuda.py
index b986be6..a0181d7 100644
--- a/src/aihwkit/simulator/tiles/rpucuda.py
+++ b/src/aihwkit/simulator/tiles/rpucuda.py
@@ -115,6 +115,8 @@ class RPUCudaSimulatorTileWrapper(SimulatorTileWrapper):
                 zeros(out_size, in_size + int(self.analog_bias), dtype=self.get_dtype())
             )
             self.ensure_shared_weights()
+            # the analog context still holds the storage that has just been replaced
+            self._sync_analog_ctx_weights()
 
     def get_forward_out_bound(self) -> Optional[float]:
         """Helper for getting the output bound to correct the
-- 
2.43.0


From bc8bba6426b83bfefb63281c13dc45704433b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:28 +0000
Subject: [PATCH 80/85] fix: loading a state or replacing a configuration keeps
 the analog parameter

---
 src/aihwkit/simulator/tiles/base.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index 455a907..16e1fad 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -800,7 +800,18 @@ class SimulatorTileWrapper:
                 self.tile.load_extra(extra, False)
 
         # map location should be applied to tensors in state_dict
-        self.analog_ctx = AnalogContext(self)
+        current_ctx = getattr(self, "analog_ctx", None)
+        if (
+            isinstance(current_ctx, AnalogContext)
+            and getattr(current_ctx, "analog_tile", None) is self
+        ):
+            # Keep the parameter, since an optimizer might refer to it. The
+            # gradient trace and the indexing belong to the previous tile.
+            current_ctx._replace_raw_data(self._get_tile_weights_ref())
+            current_ctx.set_indexed(False)
+            current_ctx.reset()
+        else:
+            self.analog_ctx = AnalogContext(self)
 
         if analog_ctx is not None:
             # Keep the object ID and device
-- 
2.43.0


From 243e4b8b8915e58693278bd25007f60181789121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:28 +0000
Subject: [PATCH 81/85] fix: a refused replacement of the configuration leaves
 the tile as it was

---
 src/aihwkit/simulator/tiles/module.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index 7f94187..6c0a03a 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -378,14 +378,21 @@ class TileModule(Module, TileModuleBase):
 
         Raises:
             TileModuleError: if given `RPUConfig` is not compatible.
+            TileError: if the state does not fit to a tile with the given
+                `RPUConfig`, in which case the tile is left as it was.
         """
         success, msg = self.compatible_with(rpu_config)
         if not success:
             raise TileModuleError(msg)
 
         analog_state = self.__getstate__()
-        analog_state[AnalogTileStateNames.RPU_CONFIG] = deepcopy(rpu_config)
-        self.__setstate__(analog_state)
+        new_state = analog_state.copy()
+        new_state[AnalogTileStateNames.RPU_CONFIG] = deepcopy(rpu_config)
+        try:
+            self.__setstate__(new_state)
+        except Exception:
+            self.__setstate__(analog_state)
+            raise
 
     @staticmethod
     def _load_state_dict_pre_hook(
-- 
2.43.0


From 7b622d358acebf1320f9255f534660778c11fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:29 +0000
Subject: [PATCH 82/85] fix: clipping and remapping a torch tile leave its
 analog parameter up to date

---
 src/aihwkit/simulator/tiles/torch_tile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index cbab32a..399cb1a 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -129,12 +129,12 @@ class TorchSimulatorTile(SimulatorTile, Module):
         if remap.type == WeightRemapType.LAYERWISE_SYMMETRIC:
             new_scale = scaled_weights.abs().max()
             new_scale = where(new_scale > 0.0, new_scale, ones_like(new_scale))
-            self.weight.data = scaled_weights / new_scale
+            self.weight.data.copy_(scaled_weights / new_scale)
             return new_scale.view(-1)
         if remap.type == WeightRemapType.CHANNELWISE_SYMMETRIC:
             new_scale, _ = scaled_weights.abs().max(1)
             new_scale = where(new_scale > 0.0, new_scale, ones_like(new_scale))
-            self.weight.data = scaled_weights / new_scale.view(-1, 1)
+            self.weight.data.copy_(scaled_weights / new_scale.view(-1, 1))
             return new_scale
 
         raise TorchTileConfigError(f"Unknown weight remap type {remap.type}")
@@ -152,12 +152,12 @@ class TorchSimulatorTile(SimulatorTile, Module):
         """
 
         if clip.type == WeightClipType.FIXED_VALUE:
-            self.weight.data = clamp(self.weight, -clip.fixed_value, clip.fixed_value)
+            self.weight.data.copy_(clamp(self.weight, -clip.fixed_value, clip.fixed_value))
         elif clip.type == WeightClipType.LAYER_GAUSSIAN:
             alpha = self.weight.std() * clip.sigma
             if clip.fixed_value > 0:
                 alpha = min(clip.fixed_value, alpha)
-            self.weight.data = clamp(self.weight, -alpha, alpha)
+            self.weight.data.copy_(clamp(self.weight, -alpha, alpha))
 
         elif clip.type == WeightClipType.AVERAGE_CHANNEL_MAX:
             raise NotImplementedError
-- 
2.43.0


From 3e7b43993c09e249ae48ccef1f39e47802c3947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:29 +0000
Subject: [PATCH 83/85] fix: updating a custom tile leaves its analog parameter
 up to date

---
 src/aihwkit/simulator/tiles/custom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/custom.py b/src/aihwkit/simulator/tiles/custom.py
index 22c19b4..af92a91 100644
--- a/src/aihwkit/simulator/tiles/custom.py
+++ b/src/aihwkit/simulator/tiles/custom.py
@@ -132,7 +132,7 @@ class CustomSimulatorTile(SimulatorTile, Module):
         if self._update.gradient_noise:
             delta_w += self._update.gradient_noise * randn_like(delta_w)
 
-        self._analog_weight = self._analog_weight - self.learning_rate * delta_w  # type: ignore
+        self._analog_weight.sub_(self.learning_rate * delta_w)
 
     def set_config(self, rpu_config: "CustomRPUConfig") -> None:
         """Updated the configuration to allow on-the-fly changes.
-- 
2.43.0


From 0c2d2e4dae20e96c3be5d826f8195e5d025f9456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:52 +0000
Subject: [PATCH 84/85] fix: loading an old checkpoint no longer removes keys
 from the given dictionary

---
 src/aihwkit/nn/modules/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aihwkit/nn/modules/base.py b/src/aihwkit/nn/modules/base.py
index 3f346b3..ba561de 100644
--- a/src/aihwkit/nn/modules/base.py
+++ b/src/aihwkit/nn/modules/base.py
@@ -7,6 +7,7 @@
 """Base class for adding functionality to analog layers."""
 from typing import Any, List, Optional, Tuple, NamedTuple, Union, Generator, Callable, TYPE_CHECKING
 from collections import OrderedDict
+from copy import copy
 import warnings
 
 from torch import Tensor
@@ -257,6 +258,8 @@ class AnalogLayerBase:
         #    uses an empty Parameter tensor to store the context.
         if len(keys_to_delete) > 0:
             strict = False
+            # leave the given dictionary as it is
+            state_dict = copy(state_dict)
             for key in keys_to_delete:
                 del state_dict[key]
             warnings.warn(
-- 
2.43.0


From 46b98b4c127153890e781174bb1ef29c31679f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:27 +0000
Subject: [PATCH 85/85] fix: sign of w_offset in the conductance mapping of the
 weight drift

---
 src/rpucuda/cuda/weight_drifter_cuda.cu | 2 +-
 src/rpucuda/weight_drifter.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/cuda/weight_drifter_cuda.cu b/src/rpucuda/cuda/weight_drifter_cuda.cu
index 20978ea..7b0ddaf 100644
--- a/src/rpucuda/cuda/weight_drifter_cuda.cu
+++ b/src/rpucuda/cuda/weight_drifter_cuda.cu
@@ -220,7 +220,7 @@ template <typename T> void WeightDrifterCuda<T>::apply(T *weights, T time_since_
   auto s = context_->getStream();
 
   current_t_ += time_since_last_call / par_.t0;
-  T a = par_.g_offset * par_.wg_ratio + par_.w_offset;
+  T a = par_.g_offset * par_.wg_ratio - par_.w_offset;
   if ((T)fabsf(a) < par_.reset_tol) {
     a = (T)0.0;
   }
diff --git a/src/rpucuda/weight_drifter.cpp b/src/rpucuda/weight_drifter.cpp
index 258721c..09756a0 100644
--- a/src/rpucuda/weight_drifter.cpp
+++ b/src/rpucuda/weight_drifter.cpp
@@ -115,7 +115,7 @@ void WeightDrifter<T>::apply(T *weights, T time_since_last_call, RNG<T> &rng) {
   current_t_ += time_since_last_call / par_.t0;
   T reset_tol = par_.reset_tol;
   bool simple = par_.isSimpleDrift();
-  T a = par_.g_offset * par_.wg_ratio + par_.w_offset;
+  T a = par_.g_offset * par_.wg_ratio - par_.w_offset;
   if ((T)fabsf(a) < reset_tol) {
     a = (T)0.0;
   }
-- 
2.43.0

