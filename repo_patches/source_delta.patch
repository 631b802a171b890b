From 4c7e6fcacaf851b31ec3dbf41f927c71e22f7cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:22 +0000
Subject: [PATCH 01/17] fix: Zernike.n and Zernike.m raised AttributeError

The indices are held as constant tensors, which have no value() method.
---
 pySLM2/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index 2480be7..a5af0a8 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -451,8 +451,8 @@ class Zernike(FunctionProfile):
 
     @property
     def n(self):
-        return self._n.value()
+        return int(self._n)
 
     @property
     def m(self):
-        return self._m.value()
+        return int(self._m)
-- 
2.43.0


From 701da33b83f598e58845d8a92c4b24e2d6eeee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:22 +0000
Subject: [PATCH 02/17] fix: Zernike accepted m < -n and silently produced a
 zero profile

Only the positive side of |m| <= n was validated.
---
 pySLM2/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index a5af0a8..f274d52 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -379,8 +379,8 @@ class SuperGaussian(FunctionProfile):
 
 class Zernike(FunctionProfile):
     def __init__(self, a, radius, n=0, m=0, normalize=True, extrapolate=False):
-        if not n >= m:
-            raise ValueError("Zernike index m must be >= index n")
+        if not n >= abs(m):
+            raise ValueError("Zernike index n must be >= abs(m)")
 
         if (n - m) % 2 != 0:
             raise ValueError("Radial polynomial is zero for these inputs: m={}, n={} " +
-- 
2.43.0


From d47f309485769b8430663a2677254b09dda93020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:22 +0000
Subject: [PATCH 03/17] fix: ConstantProfile sampled on a grid returned a
 scalar

SLMSimulation.propagate_to_image and LCOS_SLM.calculate_hologram failed for a
uniform beam, because the sampled profile did not have the shape of the grid.
---
 pySLM2/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index f274d52..58f0d39 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -175,7 +175,7 @@ class ConstantProfile(FunctionProfile):
 
     @tf.function
     def _func(self, x, y):
-        return self._c
+        return tf.broadcast_to(self._c, tf.broadcast_dynamic_shape(tf.shape(x), tf.shape(y)))
 
     @property
     def c(self):
-- 
2.43.0


From 394e3d43b790866772bbdd6e67e4d0530e2429e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:22 +0000
Subject: [PATCH 04/17] fix: profile_to_tensor returned a scalar tensor for a
 scalar profile

It is documented to return a tensor with the dimension of the grid; simulating
or computing a hologram with a scalar profile failed.
---
 pySLM2/slm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index ee77e05..942f929 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -162,6 +162,8 @@ class SLM(object):
             tensor = tf.constant(profile, dtype=tensor_dtype)
         if tensor.dtype != tensor_dtype:
             tensor = tf.cast(tensor, dtype=tensor_dtype)
+        if tensor.shape.rank == 0:
+            tensor = tf.broadcast_to(tensor, (self.Ny, self.Nx))
         return tensor
 
     def _state_tensor(self):
-- 
2.43.0


From fe60cd7b74e1ae2979c4e74e2280a39c07323c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:22 +0000
Subject: [PATCH 05/17] fix: circular_patch failed for numpy scalar coordinates

A numpy float64 or int64 centre or diameter became a tensor of a dtype that does
not match the pixel grid.
---
 pySLM2/slm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 942f929..1d26b04 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -258,6 +258,7 @@ class DMD(SLM):
         phase_in = self.profile_to_tensor(phase_in)
         phase_out = self.profile_to_tensor(phase_out)
 
+        i, j, d = (tf.cast(value, dtype=BACKEND.dtype) for value in (i, j, d))
         pix_ii, pix_jj = self._fourier_plane_pixel_grid()
         mask = self._circular_mask(i, j, pix_ii, pix_jj, d)
 
-- 
2.43.0


From ab5df9b8a581645f871ff2b5f744f135a364ad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:22 +0000
Subject: [PATCH 06/17] fix: circular_patch destroyed the grating of a
 grayscale patch

With method="ideal" the gray levels were cast to the bool dtype of the current
state, so that the patch became a solid disk.
---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 1d26b04..5969a2a 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -268,7 +268,7 @@ class DMD(SLM):
         dmd_state = np.array(_lib.calculate_dmd_grating(amp, phase_in, phase_out, x, y, self._p, self._theta,
                                                         method=method, negative_order=self.negative_order, **kwargs))
 
-        self.dmd_state[mask] = dmd_state[mask]
+        self.dmd_state = np.where(mask, dmd_state, self.dmd_state)
 
     @staticmethod
     @tf.function
-- 
2.43.0


From f41ae760d64977b700195265d275e164800580e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:22 +0000
Subject: [PATCH 07/17] fix: LCOS SLM state was simulated with the opposite
 phase sign

calculate_hologram computes the phase for a modulation of exp(1j * phase), so the
simulated image was rotated by 180 degrees and aberrations were not corrected.
---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 5969a2a..3e3c5b7 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -485,7 +485,7 @@ class LCOS_SLM(SLM):
         self.slm_state = np.zeros(shape=(self.Ny, self.Nx), dtype=complex)
 
     def _state_tensor(self):
-        return tf.exp(-1j *tf.cast(self.slm_state, dtype=BACKEND.dtype_complex))
+        return tf.exp(1j * tf.cast(self.slm_state, dtype=BACKEND.dtype_complex))
 
     def calculate_hologram(self, input_profile, target_amp_profile, method="gs", **kwargs):
         '''
-- 
2.43.0


From c4e59a19a31486344e1fe8dc4f96ff0b60d345cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:22 +0000
Subject: [PATCH 08/17] fix: pixels without input light turned the DMD hologram
 into NaN

The amplitude ratio is infinite there, so the normalization erased the whole
hologram and eta became 0.
---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 3e3c5b7..68d1ca1 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -314,7 +314,7 @@ class DMD(SLM):
         )
 
         amp_scaled = tf.where(
-            amp_out == 0.0,
+            tf.logical_or(amp_out == 0.0, amp_in == 0.0),
             tf.zeros_like(amp_out),
             amp_out / amp_in
         )
-- 
2.43.0


From 5bc2164df55c4cec02f9a47d477bdee6bfbd295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:22 +0000
Subject: [PATCH 09/17] fix: LCOS hologram ignored the phase of the input
 profile

The hologram phase adds to the phase of the input, so gs and mraf did not converge
for an aberrated beam or a beam with negative lobes.
---
 pySLM2/_lib.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pySLM2/_lib.py b/pySLM2/_lib.py
index 16237a5..2c1a043 100644
--- a/pySLM2/_lib.py
+++ b/pySLM2/_lib.py
@@ -343,6 +343,8 @@ def _calculate_lcos_slm_hologram_gs(input_profile, target_amp_profile, N):
     target_amp_profile = tf.signal.ifftshift(target_amp_profile)
     target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)
 
+    input_phase_conj = tf.exp(-1j * tf.cast(tf.math.angle(input_profile), dtype=BACKEND.dtype_complex))
+
     for _ in tf.range(N):
         phase_profile = tf.cast(phase_profile, dtype=BACKEND.dtype_complex)
         modulated_profile = input_profile * tf.exp(1j * phase_profile)
@@ -350,7 +352,7 @@ def _calculate_lcos_slm_hologram_gs(input_profile, target_amp_profile, N):
         profile_angle = tf.math.angle(image_plane_profile)
         profile_angle = tf.cast(profile_angle, dtype=BACKEND.dtype_complex)
         profile_corrected = target_amp_profile * tf.exp(1j * profile_angle)
-        phase_profile = tf.math.angle(_fourier_transform(profile_corrected))
+        phase_profile = tf.math.angle(_fourier_transform(profile_corrected) * input_phase_conj)
 
     return phase_profile
 
@@ -391,6 +393,8 @@ def _calculate_lcos_slm_hologram_mraf(input_profile, target_amp_profile, N, sign
     signal_window = tf.signal.ifftshift(signal_window)
     inverse_signal_window = 1 - signal_window
 
+    input_phase_conj = tf.exp(-1j * tf.cast(tf.math.angle(input_profile), dtype=BACKEND.dtype_complex))
+
     for _ in tf.range(N):
         phase_profile = tf.cast(phase_profile, dtype=BACKEND.dtype_complex)
         modulated_profile = input_profile * tf.exp(1j * phase_profile)
@@ -399,6 +403,6 @@ def _calculate_lcos_slm_hologram_mraf(input_profile, target_amp_profile, N, sign
         profile_angle = tf.cast(profile_angle, dtype=BACKEND.dtype_complex)
         profile_corrected = mixing_factor * target_amp_profile * tf.exp(1j * profile_angle) * signal_window + \
                             one_minus_m * image_plane_profile * inverse_signal_window
-        phase_profile = tf.math.angle(_fourier_transform(profile_corrected))
+        phase_profile = tf.math.angle(_fourier_transform(profile_corrected) * input_phase_conj)
 
     return phase_profile
-- 
2.43.0


From d717b5a4e8da2625200c59943082475c0ee5a47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:22 +0000
Subject: [PATCH 10/17] fix: Fourier plane grid was off by half a pixel for odd
 pixel counts

The grid must have its origin on the pixel that the FFT takes as origin; otherwise
the image of a centred beam gets a phase ramp.
---
 pySLM2/slm.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 68d1ca1..2770c17 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -81,18 +81,16 @@ class SLM(object):
 
     @tf.function
     def _convert_pixel_index_to_dmd_coordinate(self, i, j):
-        i = self._Ny - i
-        j = j - self._Nx / 2
-        i = i - self._Ny / 2
+        j = j - self._Nx // 2
+        i = self._Ny // 2 - i
         return j * self._pixel_size, i * self._pixel_size
 
     @tf.function
     def _convert_slm_coordinate_to_pixel_index(self, x, y):
         x = x / self._pixel_size
         y = y / self._pixel_size
-        i = y + self._Ny / 2
-        j = x + self._Nx / 2
-        i = self._Ny - i
+        i = self._Ny // 2 - y
+        j = x + self._Nx // 2
         return i, j
 
     @lru_cache()
-- 
2.43.0


From 3bf08932c6b086e607bfc8a28b616a0886d9bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:52 +0000
Subject: [PATCH 11/17] fix: ALPController.load_single waited for a trigger
 after load_multiple

The projection mode was left in slave mode.
---
 pySLM2/util/controller.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index 502d66d..4163699 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -138,6 +138,9 @@ class ALPController(DMDControllerBase):
         """
         # Prepare the dmd in available state
         self.alp.Halt()
+
+        # Set to master mode (load_multiple leaves the dmd in slave mode)
+        self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_MASTER)
         
         # Allocate the onboard memory for the image sequence
         self.alp.SeqAlloc(nbImg=1, bitDepth=1)
-- 
2.43.0


From affb5d7ca2f3ee04c797810cf4e3ea572108c8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:52 +0000
Subject: [PATCH 12/17] fix: ALPController never freed the previous image
 sequence

Every load allocated more onboard memory, until it was exhausted.
---
 pySLM2/util/controller.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index 4163699..8ccc2bb 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -142,6 +142,10 @@ class ALPController(DMDControllerBase):
         # Set to master mode (load_multiple leaves the dmd in slave mode)
         self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_MASTER)
         
+        # Free the onboard memory of the previous image sequence
+        if self.alp._lastDDRseq is not None:
+            self.alp.FreeSeq()
+
         # Allocate the onboard memory for the image sequence
         self.alp.SeqAlloc(nbImg=1, bitDepth=1)
 
@@ -176,6 +180,10 @@ class ALPController(DMDControllerBase):
         # Set the trigger edge to be rising
         self.alp.DevControl(ALP4.ALP_TRIGGER_EDGE, ALP4.ALP_EDGE_RISING)
 
+        # Free the onboard memory of the previous image sequence
+        if self.alp._lastDDRseq is not None:
+            self.alp.FreeSeq()
+
         # Allocate the onboard memory for the image sequence
         self.alp.SeqAlloc(nbImg=len(dmd_states), bitDepth=1)
 
-- 
2.43.0


From db75c76316db14bcb28e0f61a5dc2f36b3eae2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:52 +0000
Subject: [PATCH 13/17] fix: ALPController was still initialized after close

Loads were sent to the freed device instead of being refused.
---
 pySLM2/util/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index 8ccc2bb..1f85960 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -114,6 +114,7 @@ class ALPController(DMDControllerBase):
         if self.alp._lastDDRseq is not None:
             self.alp.FreeSeq()
         self.alp.Free()
+        self._initialized = False
 
     @property
     @_check_initialization
-- 
2.43.0


From a210e18303913771ebb02a4744b677f286007500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:41 +0000
Subject: [PATCH 14/17] fix: BACKEND.dtype set to an equivalent value
 (np.float64) broke mixed arithmetic

Values that compare equal to a supported tf.DType are accepted, but were stored
as given, and the mixing of real and complex profiles identifies dtypes with
'is'.
---
 pySLM2/_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/_backend.py b/pySLM2/_backend.py
index ecab800..77e84fc 100644
--- a/pySLM2/_backend.py
+++ b/pySLM2/_backend.py
@@ -32,7 +32,7 @@ class _BackEnd(object):
         if not (value == tf.float32 or value == tf.float64):
             raise ValueError()
         else:
-            self._dtype = value
+            self._dtype = tf.as_dtype(value)
 
     @property
     def dtype_complex(self):
-- 
2.43.0


From fe1910acb54da10dc36b49bcf38642e7bca61c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:40 +0000
Subject: [PATCH 15/17] fix: ALPController sent frames in memory order instead
 of row-major order

SeqPut takes a 1D stream of pixels and passes a pointer to the memory of the
array; a frame that is Fortran-ordered (a transposed array, for instance)
arrived scrambled.
---
 pySLM2/util/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index 1f85960..280a289 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -154,7 +154,7 @@ class ALPController(DMDControllerBase):
         self.alp.SeqControl(ALP4.ALP_BIN_MODE, ALP4.ALP_BIN_UNINTERRUPTED)
 
         # Send the image sequence as a 1D list/array/numpy array
-        self.alp.SeqPut(imgData=dmd_state * self.MAX_UINT8)
+        self.alp.SeqPut(imgData=np.ravel(dmd_state) * self.MAX_UINT8)
 
         self.alp.SetTiming()
 
@@ -192,7 +192,7 @@ class ALPController(DMDControllerBase):
         self.alp.SeqControl(ALP4.ALP_BIN_MODE, ALP4.ALP_BIN_UNINTERRUPTED)
 
         # Send the image sequence as a 1D list/array/numpy array
-        self.alp.SeqPut(imgData=np.concatenate(dmd_states)*self.MAX_UINT8)
+        self.alp.SeqPut(imgData=np.ravel(np.concatenate(dmd_states)) * self.MAX_UINT8)
         
         # Set the timing
         self.alp.SetTiming(pictureTime=self.alp.SeqInquire(ALP4.ALP_MIN_PICTURE_TIME))
-- 
2.43.0


From fe0578ffc43cd1776211448e0ca0c44725e75888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 16/17] fix: a refused propagation replaced the input field of
 the previous result

---
 pySLM2/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySLM2/simulation.py b/pySLM2/simulation.py
index 91d377f..48d6558 100644
--- a/pySLM2/simulation.py
+++ b/pySLM2/simulation.py
@@ -131,11 +131,11 @@ class SLMSimulation(object):
         """
         input_profile = self._slm.profile_to_tensor(input_profile, complex=True)
 
+        output_profile = input_profile * self._slm._state_tensor()
+
         self._input_field = tf.pad(input_profile,
                                    [[self._padding_y, self._padding_y], [self._padding_x, self._padding_x]])
 
-        output_profile = input_profile * self._slm._state_tensor()
-
         self._output_field = tf.pad(output_profile,
                                    [[self._padding_y, self._padding_y], [self._padding_x, self._padding_x]])
 
-- 
2.43.0


From 91f51fec1cd66bb0d32f816150b339e056317e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:42 +0000
Subject: [PATCH 17/17] fix: keep holograms computable after earlier devices
 are deleted

---
 pySLM2/_lib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pySLM2/_lib.py b/pySLM2/_lib.py
index 2c1a043..0974de2 100644
--- a/pySLM2/_lib.py
+++ b/pySLM2/_lib.py
@@ -66,6 +66,9 @@ def calculate_dmd_grating(amp, phase_in, phase_out, x, y, p, theta, method="rand
         Additional parameters for the selected method.
     '''
     negative_order = tf.constant(negative_order, dtype=tf.bool)
+    # tf.function must not see the variables of a device: the traced graph would fail once the device is deleted.
+    p = tf.convert_to_tensor(p, dtype=BACKEND.dtype)
+    theta = tf.convert_to_tensor(theta, dtype=BACKEND.dtype)
     if method == "ideal":
         return _calculate_dmd_grating_ideal(amp, phase_in, phase_out, x, y, p, theta, negative_order=negative_order)
     elif method == "simple":
-- 
2.43.0

