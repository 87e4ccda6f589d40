From 6d88e69a7fadcf799c3b72c80cd4b8b08a506859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 01/26] fix: NumPy input_checks raised NameError instead of
 TypeError on non-arrays

---
 kymatio/backend/numpy_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kymatio/backend/numpy_backend.py b/kymatio/backend/numpy_backend.py
index 13e01bd..22ddfb0 100644
--- a/kymatio/backend/numpy_backend.py
+++ b/kymatio/backend/numpy_backend.py
@@ -8,15 +8,15 @@ class NumpyBackend:
 
     name = 'numpy'
 
-    @staticmethod
-    def input_checks(x):
+    @classmethod
+    def input_checks(cls, x):
         if x is None:
             raise TypeError('The input should be not empty.')
 
         #want to make sure that we have either a numpy or numpy-like arrays.
         #since each numpy-like implements its own distinct ndarray, we need to
         #check if numpy
-        if (not isinstance(x, numpy.ndarray)) and (not isinstance(x, _np.ndarray)):
+        if (not isinstance(x, numpy.ndarray)) and (not isinstance(x, cls._np.ndarray)):
             raise TypeError(f'The input should be a numpy array, got type {type(x)}')
 
     @classmethod
-- 
2.43.0


From 5e71519d5b79b56f5d11436107f87f527e88a33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 02/26] fix: import warn in the 2D base frontend (M and N
 raised NameError)

---
 kymatio/scattering2d/frontend/base_frontend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kymatio/scattering2d/frontend/base_frontend.py b/kymatio/scattering2d/frontend/base_frontend.py
index 31d4f74..fade591 100644
--- a/kymatio/scattering2d/frontend/base_frontend.py
+++ b/kymatio/scattering2d/frontend/base_frontend.py
@@ -1,3 +1,5 @@
+from warnings import warn
+
 from ...frontend.base_frontend import ScatteringBase
 
 from ..filter_bank import filter_bank
-- 
2.43.0


From cedc58a742fb63a9b51ac67d91e7737e4735bf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 03/26] fix: get_cache_dir failed when another process created
 the directory first

---
 kymatio/caching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/caching.py b/kymatio/caching.py
index 0c0d2a7..caa11a7 100644
--- a/kymatio/caching.py
+++ b/kymatio/caching.py
@@ -55,7 +55,7 @@ def get_cache_dir(name="", cache_base_dir=None, create=True):
         return path
     else:
         if create:
-            os.makedirs(path)
+            os.makedirs(path, exist_ok=True)
             return path
         else:
             raise ValueError(
-- 
2.43.0


From f436e23f25e3beba2e24d01580bf6e3b3bfb627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 04/26] fix: ScatteringKeras1D ignored max_order and
 oversampling

---
 kymatio/scattering1d/frontend/keras_frontend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index c7ac5a6..312c7ab 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -12,15 +12,15 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
         self.J = J
         self._Q = Q
         self._T = T
-        self._max_order = 2
-        self._oversampling = 0
+        self.max_order = max_order
+        self._oversampling = oversampling
         self.out_type = 'array'
         self.backend = None
 
     def build(self, input_shape):
         shape = tuple(tensor_shape.TensorShape(input_shape).as_list()[-1:])
         self.S = ScatteringTensorFlow1D(J=self.J, shape=shape,
-            Q=self._Q, T=self._T, max_order=self._max_order,
+            Q=self._Q, T=self._T, max_order=self.max_order,
             oversampling=self._oversampling)
         ScatteringKeras.build(self, input_shape)
 
-- 
2.43.0


From dafc13db9bb74ef6f27ed65ed6bbb26d9cdb8dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 05/26] fix: ScatteringKeras1D.get_config dropped T and
 normalised Q

---
 kymatio/scattering1d/frontend/keras_frontend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index 312c7ab..e0f94f1 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -33,7 +33,8 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
         return tensor_shape.TensorShape(output_shape)
 
     def get_config(self):
-        keys = ["J", "Q", "max_order", "oversampling"]
-        return {key: getattr(self, key) for key in keys}
+        return {"J": self.J, "Q": self._Q, "T": self._T,
+                "max_order": self.max_order,
+                "oversampling": self._oversampling}
 
 ScatteringKeras1D._document()
-- 
2.43.0


From bf4232b702d48d86a608ef20f229424d45d79d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 06/26] fix: ScatteringKeras1D.compute_output_shape ignored T

---
 kymatio/scattering1d/frontend/keras_frontend.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index e0f94f1..36a8ed4 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -27,8 +27,11 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
     def compute_output_shape(self, input_shape):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
         nc = self.S.output_size()
-        k0 = max(self.J - self._oversampling, 0)
-        ln = self.S.ind_end[k0] - self.S.ind_start[k0]
+        if self.S.average == 'global':
+            ln = 1
+        else:
+            k0 = self.S.log2_stride
+            ln = self.S.ind_end[k0] - self.S.ind_start[k0]
         output_shape = [input_shape[0], nc, ln]
         return tensor_shape.TensorShape(output_shape)
 
-- 
2.43.0


From d7d3b93c5ff533c5cc7f72777955a322c770b968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 07/26] fix: ScatteringKeras2D.compute_output_shape ignored
 max_order

---
 kymatio/scattering2d/frontend/keras_frontend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kymatio/scattering2d/frontend/keras_frontend.py b/kymatio/scattering2d/frontend/keras_frontend.py
index 75661cd..398b35e 100644
--- a/kymatio/scattering2d/frontend/keras_frontend.py
+++ b/kymatio/scattering2d/frontend/keras_frontend.py
@@ -25,7 +25,9 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
         m0 = input_shape[-2] // 2 ** self.J
         m1 = input_shape[-1] // 2 ** self.J
-        nc = (self.L ** 2) * self.J * (self.J - 1) // 2 + self.L * self.J + 1
+        nc = self.L * self.J + 1
+        if self.max_order == 2:
+            nc += (self.L ** 2) * self.J * (self.J - 1) // 2
         output_shape = [input_shape[0], nc, m0, m1]
         return tensor_shape.TensorShape(output_shape)
 
-- 
2.43.0


From a794eba0ba35fce262b1393125bb10adf6103419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 08/26] fix: TensorFlow 2D pre_pad=True cast the input to
 complex, which rfft rejects

---
 kymatio/scattering2d/frontend/tensorflow_frontend.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/kymatio/scattering2d/frontend/tensorflow_frontend.py b/kymatio/scattering2d/frontend/tensorflow_frontend.py
index b8a09ae..16c11df 100644
--- a/kymatio/scattering2d/frontend/tensorflow_frontend.py
+++ b/kymatio/scattering2d/frontend/tensorflow_frontend.py
@@ -13,10 +13,6 @@ class ScatteringTensorFlow2D(ScatteringTensorFlow, ScatteringBase2D):
         ScatteringBase2D.build(self)
         ScatteringBase2D.create_filters(self)
 
-        if pre_pad:
-            # Need to cast to complex in TF
-            self.pad = lambda x: tf.cast(x, tf.complex64)
-
 
     def scattering(self, input):
         with tf.name_scope('scattering') as scope:
-- 
2.43.0


From eb0449367ccce7b1b083f0a1b7430157b59ac25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 09/26] fix: oversampling accepted half the equivalent stride
 and rejected the right one

---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 2e7015e..e6ec311 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -74,7 +74,7 @@ class ScatteringBase1D(ScatteringBase):
                 "Pass stride = 2**(J-oversampling) or "
                 "stride = 2**(log2(T)-oversampling) "
                 "to retain current behavior.", DeprecationWarning)
-            if not self._stride in [None, 2**(self.log2_T-self._oversampling-1)]:
+            if not self._stride in [None, 2**(self.log2_T-self._oversampling)]:
                 raise ValueError("oversampling={} and stride={}"
                     "are incompatible".format(self._oversampling, self._stride))
             self._stride = 2 ** (self.log2_T-self._oversampling)
-- 
2.43.0


From 0646b47bbf2bf63ce2f1d29ed8493110a201a7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 10/26] fix: Scattering1D(oversampling=None, T=0) raised
 TypeError

---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index e6ec311..e969156 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -127,7 +127,7 @@ class ScatteringBase1D(ScatteringBase):
             if self.average == 'local':
                 res = self.log2_stride
             elif path['order']>0:
-                res = max(path['j'][-1] - self._oversampling, 0)
+                res = max(path['j'][-1] - (self._oversampling or 0), 0)
             else:
                 res = 0
 
-- 
2.43.0


From 1928c4b008cf873a2fdc37af4db31a675050ac28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:28 +0000
Subject: [PATCH 11/26] fix: JTFS with a stride below 2**J stacked paths of
 different time resolutions

---
 kymatio/scattering1d/core/timefrequency_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 9a3c3a6..21423b4 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -172,7 +172,7 @@ def time_scattering_widthfirst(U_0, backend, filters, log2_stride, average_local
             k1 = min(j1, log2_stride) if average_local else j1
 
             if j2 > j1:
-                k2 = min(j2-k1, log2_stride) if average_local else (j2-k1)
+                k2 = min(j2, log2_stride) - k1 if average_local else (j2-k1)
                 U_2_c = backend.cdgmm(U_1_hat['coef'], psi2[n2]['levels'][k1])
                 U_2_hat = backend.subsample_fourier(U_2_c, 2 ** k2)
                 U_2_c = backend.ifft(U_2_hat)
@@ -306,7 +306,7 @@ def time_averaging(U_2, backend, phi_f, log2_stride):
     U_2{n2,n_fr}(t, n1) = |Y_2_fr{n2,n_fr}|(t, n1)
     """
     log2_T = phi_f['j']
-    k_in = U_2['j'][-1]
+    k_in = min(U_2['j'][-1], log2_stride)
     k_J = log2_stride - k_in
     U_hat = backend.rfft(U_2['coef'])
     S_c = backend.cdgmm(U_hat, phi_f['levels'][k_in])
-- 
2.43.0


From fb212f9726c6c7f0c771f4c56b3e92dbb23bc072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:28 +0000
Subject: [PATCH 12/26] fix: JTFS frequency averaging assumed the stride of F
 rather than stride_fr

---
 kymatio/scattering1d/core/timefrequency_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 21423b4..31f04a3 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -271,7 +271,7 @@ def frequency_scattering(X, backend, filters_fr, log2_stride_fr,
         # as (X['n'][1:] + (n_fr,)), i.e., n=(n_fr,) is not spinned
         # and n=(n2, n_fr) if spinned. This 'n' tuple is unique.
         yield {**X, 'coef': Y_fr, 'n': (X['n'][1:] + (n_fr,)),
-            'j_fr': (j_fr,), 'n_fr': (n_fr,), 'n1_stride': (2**j_fr),
+            'j_fr': (j_fr,), 'n_fr': (n_fr,), 'n1_stride': (2**k_fr),
             'spin': spin}
 
 
@@ -359,7 +359,7 @@ def frequency_averaging(U_2, backend, phi_fr_f, log2_stride_fr, average_fr):
             S_2_T = backend.average_global(U_2_T)
             n1_stride = U_2['n1_max']
         elif average_fr == 'local':
-            k_in = min(U_2['j_fr'][-1], log2_F)
+            k_in = min(U_2['j_fr'][-1], log2_stride_fr)
             k_J = log2_stride_fr - k_in
             U_hat = backend.rfft(U_2_T)
             S_c = backend.cdgmm(U_hat, phi_fr_f['levels'][k_in])
-- 
2.43.0


From f05fa13e3f581d2eb14ebc87807d2d3e047c6e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:28 +0000
Subject: [PATCH 13/26] fix: JTFS format='time' mislabelled orders and unpadded
 unaveraged first order at the wrong resolution

---
 kymatio/scattering1d/core/timefrequency_scattering.py | 2 +-
 kymatio/scattering1d/frontend/base_frontend.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 31f04a3..67d2114 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -380,7 +380,7 @@ def time_formatting(path, backend):
     else:
         coef_list = backend.split_frequency_axis(path["coef"])
     for i, n1 in enumerate(range(0, path["n1_max"], path["n1_stride"])):
-        split_path = {**path, "coef": coef_list[i], "order": len(path["n"])-1}
+        split_path = {**path, "coef": coef_list[i], "order": len(path["n"])}
         # If not spinned, X['n']=S1['n']=(n_fr,) is a 1-tuple.
         # If spinned, X['n']=Y2['n']=(n2,n_fr) is a 2-tuple.
         # In either case, we prepend n1 and define the new 'n'
diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index e969156..d275d54 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -617,7 +617,7 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
             #     3a. at order 1, unpad Y_1_fr at resolution log2_T
             #     3b. at order 2, unpad Y_2_fr at resolution j2
             if not self.average == 'global':
-                if not self.average and len(path['n']) > 1:
+                if not self.average and path['order'] > 1:
                     # Case 3b.
                     res = max(path['j'][-1], 0)
                 else:
-- 
2.43.0


From 8890040a8c2851616843ff7d29e3808c47b82459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:28 +0000
Subject: [PATCH 14/26] fix: JTFS metadata was not in the order and number of
 the output channels

---
 kymatio/scattering1d/frontend/base_frontend.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index d275d54..4f72bc9 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -656,16 +656,17 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
             self.phi_f, self.log2_stride, self.average,
             self.filters_fr[0], self.log2_stride_fr, self.average_fr,
             self.out_type, self.format)
-        S = sorted(list(S_gen), key=lambda path: (len(path['n']), path['n']))
+        S = list(S_gen)
+        if self.format == 'joint' and self.out_type == 'array':
+            # Zeroth order is skipped
+            S = S[1:]
         meta = dict(key=[path['n'] for path in S], n=[], n_fr=[], order=[])
         for path in S:
             if len(path['n']) == 0:
-                # If format='joint' and out_type='array' skip zeroth order
-                if not (self.format == 'joint' and self.out_type == 'array'):
-                    # Zeroth order: no n1, no n_fr, no n2
-                    meta['n'].append([np.nan, np.nan])
-                    meta['n_fr'].append(np.nan)
-                    meta['order'].append(0)
+                # Zeroth order: no n1, no n_fr, no n2
+                meta['n'].append([np.nan, np.nan])
+                meta['n_fr'].append(np.nan)
+                meta['order'].append(0)
             else:
                 if len(path['n']) == 1:
                     # First order and format='joint': n=(n_fr,)
-- 
2.43.0


From 40913e04b2a997387590bc2500d8c10ea6c6487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:39 +0000
Subject: [PATCH 15/26] fix: the TensorFlow 3D frontend exported a name that
 does not exist

---
 kymatio/scattering3d/frontend/tensorflow_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering3d/frontend/tensorflow_frontend.py b/kymatio/scattering3d/frontend/tensorflow_frontend.py
index 95e1a11..b842cd7 100644
--- a/kymatio/scattering3d/frontend/tensorflow_frontend.py
+++ b/kymatio/scattering3d/frontend/tensorflow_frontend.py
@@ -1,4 +1,4 @@
-__all__ = ['HarmonicScattering3DTensorFlow']
+__all__ = ['HarmonicScatteringTensorFlow3D']
 
 
 import tensorflow as tf
-- 
2.43.0


From 74a3a1cc7feb91effe31cc0148fcb4d106a566ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:39 +0000
Subject: [PATCH 16/26] fix: the NumPy 3D frontend accepted any averaging
 method

---
 kymatio/scattering3d/frontend/numpy_frontend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kymatio/scattering3d/frontend/numpy_frontend.py b/kymatio/scattering3d/frontend/numpy_frontend.py
index 9517153..2c78bda 100644
--- a/kymatio/scattering3d/frontend/numpy_frontend.py
+++ b/kymatio/scattering3d/frontend/numpy_frontend.py
@@ -36,6 +36,11 @@ class HarmonicScatteringNumPy3D(ScatteringNumPy, ScatteringBase3D):
         signal_shape = input_array.shape[-3:]
 
         input_array = input_array.reshape((-1,) + signal_shape)
+
+        methods = ['integral']
+        if not self.method in methods:
+            raise ValueError('method must be in {}'.format(methods))
+
         self.averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
 
         S = scattering3d(input_array, filters=self.filters, rotation_covariant=self.rotation_covariant, L=self.L,
-- 
2.43.0


From 7b4e93477365641b9040fa99ad5f11955e8f9fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:39 +0000
Subject: [PATCH 17/26] fix: cloning a 1D or time-frequency scikit-learn
 transformer changed T and stride

---
 kymatio/frontend/sklearn_frontend.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index 0fa33c7..cfafad2 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -2,6 +2,16 @@ from sklearn.base import BaseEstimator, TransformerMixin
 
 
 class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
+    def get_params(self, deep=True):
+        # Some public attributes are normalised versions of the constructor
+        # argument of the same name, which is kept in a private attribute.
+        private = {key: vars(self)['_' + key]
+                   for key in self._get_param_names()
+                   if '_' + key in vars(self)}
+        public = {key: getattr(self, key) for key in self._get_param_names()
+                  if key not in private}
+        return {**public, **private}
+
     def fit(self, x=None, y=None):
         # No fitting necessary.
         return self
-- 
2.43.0


From 7eee45401599f5455c62d7715b03692c04e8af69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:39 +0000
Subject: [PATCH 18/26] fix: replicas of 1D, time-frequency and 3D PyTorch
 modules overwrote each other's filters

---
 kymatio/scattering1d/frontend/torch_frontend.py | 11 +++++++++++
 kymatio/scattering3d/frontend/torch_frontend.py |  4 ++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/frontend/torch_frontend.py b/kymatio/scattering1d/frontend/torch_frontend.py
index 30dd35f..b59307f 100644
--- a/kymatio/scattering1d/frontend/torch_frontend.py
+++ b/kymatio/scattering1d/frontend/torch_frontend.py
@@ -60,6 +60,12 @@ class ScatteringTorch1D(ScatteringTorch, ScatteringBase1D):
         buffer_dict = dict(self.named_buffers())
         n = 0
 
+        # Replicas of a module share these containers: copy before loading.
+        self.phi_f = {**self.phi_f, "levels": list(self.phi_f["levels"])}
+        self.psi1_f, self.psi2_f = [
+            [{**psi_f, "levels": list(psi_f["levels"])} for psi_f in psis_f]
+            for psis_f in (self.psi1_f, self.psi2_f)]
+
         for level in range(len(self.phi_f["levels"])):
             self.phi_f["levels"][level] = buffer_dict["tensor" + str(n)]
             n += 1
@@ -142,6 +148,11 @@ class TimeFrequencyScatteringTorch(ScatteringTorch1D, TimeFrequencyScatteringBas
         buffer_dict = dict(self.named_buffers())
         n = super(TimeFrequencyScatteringTorch, self).load_filters()
 
+        phi_f, psis_f = self.filters_fr
+        self.filters_fr = (
+            {**phi_f, "levels": list(phi_f["levels"])},
+            [{**psi_f, "levels": list(psi_f["levels"])} for psi_f in psis_f])
+
         for level in range(len(self.filters_fr[0]["levels"])):
             self.filters_fr[0]["levels"][level] = buffer_dict["tensor" + str(n)]
             n += 1
diff --git a/kymatio/scattering3d/frontend/torch_frontend.py b/kymatio/scattering3d/frontend/torch_frontend.py
index 115fc4b..b7868e4 100644
--- a/kymatio/scattering3d/frontend/torch_frontend.py
+++ b/kymatio/scattering3d/frontend/torch_frontend.py
@@ -60,8 +60,8 @@ class HarmonicScatteringTorch3D(ScatteringTorch, ScatteringBase3D):
 
 
         buffer_dict = dict(self.named_buffers())
-        for k in range(len(self.filters)):
-            self.filters[k] = buffer_dict['tensor' + str(k)]
+        self.filters = [buffer_dict['tensor' + str(k)]
+                        for k in range(len(self.filters))]
 
         methods = ['integral']
         if not self.method in methods:
-- 
2.43.0


From c3aefa16d3cac9ab37e7d6079e3a75aced8e1870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:52 +0000
Subject: [PATCH 19/26] fix: PyTorch JTFS with T='global' and format='joint'
 raised RuntimeError

---
 kymatio/scattering1d/frontend/base_frontend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 4f72bc9..15a8e63 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -626,6 +626,11 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
                 # Cases 2a, 2b, 3a, and 3b.
                 path['coef'] = self.backend.unpad(
                     path['coef'], self.ind_start[res], self.ind_end[res])
+            else:
+                # Case 1: there is a single time sample. Nothing to remove but
+                # the trailing singleton axis of the PyTorch backend, which
+                # reshape_output would mistake for the time axis.
+                path['coef'] = self.backend.unpad(path['coef'], 0, 1)
 
             # Reshape path to batch shape.
             path['coef'] = self.backend.reshape_output(path['coef'],
-- 
2.43.0


From c5baa02c7c5ed0de08832edfad2af77a2728a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 20/26] fix: JTFS with F='global' did not average the spin-0
 paths over frequency

---
 kymatio/scattering1d/core/timefrequency_scattering.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 67d2114..1c45544 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -426,9 +426,10 @@ def jtfs_average_and_format(U_gen, backend, phi_f, log2_stride, average,
             # Case 2b.
             path = time_averaging(path, backend, phi_f, log2_stride)
 
-        # Frequential averaging. NB. if spin==0, U_gen is already averaged.
-        # Hence, we only average if spin!=0, i.e. psi_{n_fr} in path.
-        if average_fr and not path['spin'] == 0:
+        # Frequential averaging. NB. if spin==0, U_gen is already averaged
+        # locally. Hence, we only average locally if spin!=0, i.e. psi_{n_fr}
+        # in path. Global averaging applies to every path.
+        if average_fr == 'global' or (average_fr and not path['spin'] == 0):
             path = frequency_averaging(path, backend,
                 phi_fr_f, oversampling_fr, average_fr)
 
-- 
2.43.0


From ced0c684e6b63ab7af1ebf737df1acfb186396cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:10 +0000
Subject: [PATCH 21/26] fix: second-order filters lacked a resolution level
 that paths use when Q2 > Q1 (IndexError)

---
 kymatio/scattering1d/filter_bank.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/filter_bank.py b/kymatio/scattering1d/filter_bank.py
index 750e0d6..f4836cf 100644
--- a/kymatio/scattering1d/filter_bank.py
+++ b/kymatio/scattering1d/filter_bank.py
@@ -379,8 +379,9 @@ def scattering_filter_factory(N, J, Q, T, filterbank, _reduction=np.sum):
             j = get_max_dyadic_subsampling(xi, sigma, **filterbank_kwargs)
 
             # Resample to smaller resolutions if necessary (beyond 1st layer)
-            # The idiom min(previous_J, j, 1+log2_T) implements "j1 < j2"
-            for level in range(1, min(previous_J, j, 1+log2_T)):
+            # The idiom min(1+previous_J, j, 1+log2_T) implements "j1 < j2":
+            # j1 is at most previous_J, which may be below j-1 if Q2 > Q1.
+            for level in range(1, min(1+previous_J, j, 1+log2_T)):
                 psi_level_reshaped = psi_levels[0].reshape(2**level, -1)
                 psi_level = _reduction(psi_level_reshaped, axis=0)
                 psi_levels.append(psi_level)
-- 
2.43.0


From 64dac7266127bb185d759013be6ac80a62e46de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:22 +0000
Subject: [PATCH 22/26] fix: positional arguments of the TensorFlow 2D and JTFS
 classes were not in the order of the other frontends

---
 kymatio/scattering1d/frontend/tensorflow_frontend.py | 2 +-
 kymatio/scattering2d/frontend/tensorflow_frontend.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/frontend/tensorflow_frontend.py b/kymatio/scattering1d/frontend/tensorflow_frontend.py
index ccd8564..74be3d8 100644
--- a/kymatio/scattering1d/frontend/tensorflow_frontend.py
+++ b/kymatio/scattering1d/frontend/tensorflow_frontend.py
@@ -46,8 +46,8 @@ class TimeFrequencyScatteringTensorFlow(
         F=None,
         stride_fr=None,
         out_type="array",
-        backend="tensorflow",
         format="time",
+        backend="tensorflow",
         name="TimeFrequencyScattering"
     ):
         ScatteringTensorFlow.__init__(self, name=name)
diff --git a/kymatio/scattering2d/frontend/tensorflow_frontend.py b/kymatio/scattering2d/frontend/tensorflow_frontend.py
index 16c11df..bcc9310 100644
--- a/kymatio/scattering2d/frontend/tensorflow_frontend.py
+++ b/kymatio/scattering2d/frontend/tensorflow_frontend.py
@@ -5,7 +5,7 @@ from .base_frontend import ScatteringBase2D
 
 class ScatteringTensorFlow2D(ScatteringTensorFlow, ScatteringBase2D):
     def __init__(self, J, shape, L=8, max_order=2, pre_pad=False,
-            backend='tensorflow', name='Scattering2D', out_type='array'):
+            backend='tensorflow', out_type='array', name='Scattering2D'):
         ScatteringTensorFlow.__init__(self, name)
         ScatteringBase2D.__init__(self, J, shape, L, max_order, pre_pad,
                 backend, out_type)
-- 
2.43.0


From 10b40968606d294969643a7253130d7bdbc0f5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:49 +0000
Subject: [PATCH 23/26] fix: ScatteringKeras2D(pre_pad=True) rejected every
 input

---
 kymatio/scattering2d/frontend/keras_frontend.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering2d/frontend/keras_frontend.py b/kymatio/scattering2d/frontend/keras_frontend.py
index 398b35e..d147b4e 100644
--- a/kymatio/scattering2d/frontend/keras_frontend.py
+++ b/kymatio/scattering2d/frontend/keras_frontend.py
@@ -14,6 +14,9 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
 
     def build(self, input_shape):
         shape = tuple(tensor_shape.TensorShape(input_shape).as_list()[-2:])
+        if self.pre_pad:
+            # The input is already padded: recover the size of the support.
+            shape = tuple(n - 2 * 2 ** self.J for n in shape)
         self.S = ScatteringTensorFlow2D(J=self.J, shape=shape,
                                         L=self.L, max_order=self.max_order,
                                         pre_pad=self.pre_pad)
@@ -23,8 +26,8 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
 
     def compute_output_shape(self, input_shape):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
-        m0 = input_shape[-2] // 2 ** self.J
-        m1 = input_shape[-1] // 2 ** self.J
+        m0 = input_shape[-2] // 2 ** self.J - 2 * self.pre_pad
+        m1 = input_shape[-1] // 2 ** self.J - 2 * self.pre_pad
         nc = self.L * self.J + 1
         if self.max_order == 2:
             nc += (self.L ** 2) * self.J * (self.J - 1) // 2
-- 
2.43.0


From 2d7de90eea79d2485f305f6242033afafb698d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:54 +0000
Subject: [PATCH 24/26] fix: Keras compute_output_shape dropped the inner batch
 axes of the input

---
 kymatio/scattering1d/frontend/keras_frontend.py | 2 +-
 kymatio/scattering2d/frontend/keras_frontend.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index 36a8ed4..0cea7d9 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -32,7 +32,7 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
         else:
             k0 = self.S.log2_stride
             ln = self.S.ind_end[k0] - self.S.ind_start[k0]
-        output_shape = [input_shape[0], nc, ln]
+        output_shape = input_shape[:-1] + [nc, ln]
         return tensor_shape.TensorShape(output_shape)
 
     def get_config(self):
diff --git a/kymatio/scattering2d/frontend/keras_frontend.py b/kymatio/scattering2d/frontend/keras_frontend.py
index d147b4e..5498cab 100644
--- a/kymatio/scattering2d/frontend/keras_frontend.py
+++ b/kymatio/scattering2d/frontend/keras_frontend.py
@@ -31,7 +31,7 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
         nc = self.L * self.J + 1
         if self.max_order == 2:
             nc += (self.L ** 2) * self.J * (self.J - 1) // 2
-        output_shape = [input_shape[0], nc, m0, m1]
+        output_shape = input_shape[:-2] + [nc, m0, m1]
         return tensor_shape.TensorShape(output_shape)
 
     def get_config(self):
-- 
2.43.0


From 06e289bcaaf09da15c0ccba21bba432d2ab91b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:11 +0000
Subject: [PATCH 25/26] fix: the scikit-learn 2D transformer could not
 transform padded samples with pre_pad=True

---
 kymatio/frontend/sklearn_frontend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index cfafad2..2836fa0 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -18,7 +18,11 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
 
     def predict(self, x):
         batch_shape = x.shape[:-1]
-        x = x.reshape((-1,) + self.shape)
+        shape = self.shape
+        if getattr(self, 'pre_pad', False):
+            # The samples are already padded.
+            shape = (self._M_padded, self._N_padded)
+        x = x.reshape((-1,) + tuple(shape))
         Sx = self.scattering(x)
         Sx = Sx.reshape(batch_shape + (-1,))
 
-- 
2.43.0


From c5eb9db416f411d1d262f60033b34e3f685cd2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:44 +0000
Subject: [PATCH 26/26] fix: centre the frequency grid of 3D filters at the
 origin for odd sizes

---
 kymatio/scattering3d/filter_bank.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kymatio/scattering3d/filter_bank.py b/kymatio/scattering3d/filter_bank.py
index 4994f5e..f6253ab 100644
--- a/kymatio/scattering3d/filter_bank.py
+++ b/kymatio/scattering3d/filter_bank.py
@@ -90,9 +90,9 @@ def gaussian_3d(M, N, O, sigma, fourier=True):
             that the origin is at the point [0, 0, 0]
     """
     grid = np.fft.ifftshift(
-        np.mgrid[-M // 2:-M // 2 + M,
-                 -N // 2:-N // 2 + N,
-                 -O // 2:-O // 2 + O].astype('float32'),
+        np.mgrid[-(M // 2):-(M // 2) + M,
+                 -(N // 2):-(N // 2) + N,
+                 -(O // 2):-(O // 2) + O].astype('float32'),
         axes=(1,2,3))
     _sigma = sigma
     if fourier:
@@ -137,9 +137,9 @@ def solid_harmonic_3d(M, N, O, sigma, l, fourier=True):
     """
     solid_harm = np.zeros((2*l+1, M, N, O), np.complex64)
     grid = np.fft.ifftshift(
-        np.mgrid[-M // 2:-M // 2 + M,
-                 -N // 2:-N // 2 + N,
-                 -O // 2:-O // 2 + O].astype('float32'),
+        np.mgrid[-(M // 2):-(M // 2) + M,
+                 -(N // 2):-(N // 2) + N,
+                 -(O // 2):-(O // 2) + O].astype('float32'),
         axes=(1,2,3))
     _sigma = sigma
 
-- 
2.43.0

