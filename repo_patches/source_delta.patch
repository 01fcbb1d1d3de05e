From e39b5e4b0d473bc60aafdb7d37bfb3cdd7f42abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:40 +0000
Subject: [PATCH 01/58] fix: fill the O matrix for every state of the model
 being evaluated

A sampling model with more (fewer) states than the vibronic model had the
extra diagonal entries left at zero (raised an IndexError).
---
 pibronic/pimc/pimc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 5873719..73a5a64 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -1107,10 +1107,11 @@ def build_o_matrix(data, model, state_shift):
 
     np.exp(o_matrix, out=o_matrix)
 
-    for a in range(data.states):
+    # the model (rho for example) can have a different number of states than data
+    temp_states = model.omatrix.shape[2]
+    for a in range(temp_states):
         model.omatrix[:, :, a, a] = o_matrix[:, :, a]
 
-    temp_states = model.omatrix.shape[2]
     # asserts that the tensor is diagonal along axis (2,3)
     for a, b in it.product(range(temp_states), range(temp_states)):
         if a == b:
-- 
2.43.0


From ab1a1e95b35a86f5c2e81fc61e29c21b8ea0af7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:44 +0000
Subject: [PATCH 02/58] fix: use the shifted tau for the coupling matrix of the
 plus/minus numerators

g(beta +/- delta_beta) used tau of the unshifted beta in the exponential of the
coupling matrix, so the finite difference derivatives ignored the coupling.
---
 pibronic/pimc/pimc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 73a5a64..b81edf2 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -59,6 +59,7 @@ np.random.seed()  # random
 class TemperatureDependentClass:
     """store temperature dependent constants here"""
     def __init__(self, model, tau):
+        self.tau = tau
         # construct the coth and csch tensors
         omega = np.broadcast_to(model.omega, model.size['AN'])
         self.cothAN = np.tanh(hbar*tau*omega)**(-1.)
@@ -1181,7 +1182,7 @@ def build_numerator(data, vib, outputArray, idx):
     # build the M matrix
     np.einsum('abcd, abd, abed->abce',
               data.coupling_eigvects,
-              np.exp(-data.tau*data.coupling_eigvals),  # replace this part to salis
+              np.exp(-vib.tau*data.coupling_eigvals),  # replace this part to salis
               data.coupling_eigvects,
               out=data.M_matrix,
               optimize='optimal'
-- 
2.43.0


From 227e9a0ec0877d71002cef748bef815c45ee24b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:07 +0000
Subject: [PATCH 03/58] fix: evaluate g(R) and rho(R) of the training data at
 the saved R values

The vibronic displacement was subtracted from R and then again inside
build_o_matrix(), and qTempTensor (used when rho has a different number of
states) was never filled, so the weights did not belong to the saved paths.
---
 pibronic/pimc/pimc.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index b81edf2..45bcc61 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -607,8 +607,7 @@ class BoxData:
         storage_array[sample_view, :, :] = np.random.random(size=self.rho.size['BNP'])
         np.copyto(self.qTensor, storage_array[sample_view, NEW, ...])
 
-        # we transform the dimensionless co-ordinates to surface dependent co-ordinates q = R - d
-        self.qTensor -= self.vib.state_shift[NEW, :, :, NEW]
+        # the surface dependent co-ordinates q = R - d are obtained in build_o_matrix()
         return
 
     def transform_sampled_coordinates(self, sample_view):
@@ -1292,9 +1291,9 @@ def block_compute_rhoR_from_input_samples(data, result, input_R_values):
         sample_view = slice(start, end)
 
         # we copy in the data values that we read in from load_R_samples
+        # the surface dependent co-ordinates q = R - d are obtained in build_o_matrix()
         data.qTensor[:] = input_R_view[sample_view, NEW, ...]
-        # we transform the dimensionless co-ordinates to surface dependent co-ordinates q = R - d
-        data.qTensor -= data.vib.state_shift[NEW, :, :, NEW]
+        data.qTempTensor[:] = input_R_view[sample_view, NEW, ...]
 
         # build O matrices for system distribution
         build_o_matrix(data, rho.const, rho.state_shift)
@@ -1324,7 +1323,7 @@ def block_compute_gR_from_raw_samples(data, result):
         end = (block_index + 1) * data.block_size
         sample_view = slice(start, end)
 
-        # generate sample points in surface dependent co-ordinates q = R - d
+        # generate sample points in dimensionless co-ordinates R
         # but which were not sampled from
         data.generate_random_R_values(result, input_view, sample_view)
 
-- 
2.43.0


From db5aa025d3b9f561e63f5c6038139bbfae70528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:11 +0000
Subject: [PATCH 04/58] fix: compute beta_plus and beta_minus of BoxDataPM from
 the current beta

---
 pibronic/pimc/pimc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 45bcc61..716bdc4 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -727,14 +727,14 @@ class BoxDataPM(BoxData):
 
     def preprocess(self):
         """"""
-        # compute extra constants
+        # do the usual work
+        super().preprocess()
+
+        # compute extra constants (beta is only known after the usual work)
         self.beta_plus = self.beta + self.delta_beta
         self.beta_minus = self.beta - self.delta_beta
         self.tau_plus = self.beta_plus / self.beads
         self.tau_minus = self.beta_minus / self.beads
-
-        # do the usual work
-        super().preprocess()
         return
 
 
-- 
2.43.0


From 6435022b67827fa1c732f21dec1060bc08fba526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 05/58] fix: save only the samples that were computed

save_results() ignored its argument, so a run whose sample count is not a
multiple of the block size stored unset (NaN) samples as data.
---
 pibronic/pimc/pimc.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 716bdc4..bafddc8 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -826,11 +826,9 @@ class BoxResult:
                  # TODO - fix the hash situation - this is hacky
                  hash_vib=self.hash_vib,
                  hash_rho=self.hash_rho,
-                 number_of_samples=self.samples,
-                 s_rho=self.scaled_rho,
-                 s_g=self.scaled_g,
-                 # s_g=self.scaled_g[result_view],
-                 # s_rho=self.scaled_rho[result_view],
+                 number_of_samples=number_of_samples,
+                 s_rho=self.scaled_rho[:number_of_samples],
+                 s_g=self.scaled_g[:number_of_samples],
                  )
         return
 
@@ -955,11 +953,11 @@ class BoxResultPM(BoxResult):
                  # TODO - fix the hash situation - this is hacky
                  hash_vib=self.hash_vib,
                  hash_rho=self.hash_rho,
-                 number_of_samples=self.samples,
-                 s_rho=self.scaled_rho,
-                 s_g=self.scaled_g,
-                 s_gP=self.scaled_gofr_plus,
-                 s_gM=self.scaled_gofr_minus,
+                 number_of_samples=number_of_samples,
+                 s_rho=self.scaled_rho[:number_of_samples],
+                 s_g=self.scaled_g[:number_of_samples],
+                 s_gP=self.scaled_gofr_plus[:number_of_samples],
+                 s_gM=self.scaled_gofr_minus[:number_of_samples],
                  )
         return
 
-- 
2.43.0


From 3d3cbf199ab0748a5244e1f38f6f2dc5ce1aafa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:38 +0000
Subject: [PATCH 06/58] fix: compare sample counts by value in load_results

The identity comparison of a numpy array with an int was never true, so loading
into a result object of the right size always raised.
---
 pibronic/pimc/pimc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index bafddc8..04fe1f0 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -838,9 +838,9 @@ class BoxResult:
             self.__class__.verify_result_keys_are_present(path, data)
             # TODO - check hashes here? - or do we assume they've already been checked?
             # BoxResult.verify_hashes_are_valid()
-            if self.samples is 0:
-                self.samples = data["number_of_samples"]
-            elif data["number_of_samples"] is not self.samples:
+            if self.samples == 0:
+                self.samples = int(data["number_of_samples"])
+            elif data["number_of_samples"] != self.samples:
                 raise AssertionError("BoxResult has a different number of samples that the input file - this should not happen")
 
             self.initialize_arrays()
-- 
2.43.0


From 313060a0ae6352615d0c3211bdf4ad38bba957d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:42 +0000
Subject: [PATCH 07/58] fix: respect desired_number_of_samples across file
 boundaries

A limit that fell inside the second or a later file raised a broadcasting error.
---
 pibronic/pimc/pimc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 04fe1f0..4324e9c 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -902,7 +902,7 @@ class BoxResult:
             if start >= desired_number_of_samples:
                 break
             with np.load(path) as data:
-                length = min(data["number_of_samples"], desired_number_of_samples)
+                length = min(data["number_of_samples"], desired_number_of_samples - start)
                 assert not np.any(data["s_rho"][0:length] == 0.0), "Zeros in the denominator"
                 self.scaled_g[start:start+length] = data["s_g"][0:length]
                 self.scaled_rho[start:start+length] = data["s_rho"][0:length]
@@ -1028,7 +1028,7 @@ class BoxResultPM(BoxResult):
             if start >= desired_number_of_samples:
                 break
             with np.load(path) as data:
-                length = min(data["number_of_samples"], desired_number_of_samples)
+                length = min(data["number_of_samples"], desired_number_of_samples - start)
                 assert not np.any(data["s_rho"][0:length] == 0.0), "Zeros in the denominator"
                 self.scaled_g[start:start+length] = data["s_g"][0:length]
                 self.scaled_rho[start:start+length] = data["s_rho"][0:length]
-- 
2.43.0


From 38dea75fc9db20254d9df227da849706b5796c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 08/58] fix: count a result file that is listed twice only once

The duplicate was counted but not loaded, which left NaN samples at the end; the
files are now also used in the order provided instead of set (hash seed) order.
---
 pibronic/pimc/pimc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 4324e9c..aca23a1 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -855,6 +855,9 @@ class BoxResult:
         number_of_samples = 0
         assert not len(list_of_paths) == 0, "list_of_paths cannot be empty"
 
+        # each file is only used once, in the order provided
+        list_of_paths = list(dict.fromkeys(list_of_paths))
+
         list_of_bad_paths = []
 
         for path in list_of_paths:
@@ -879,7 +882,7 @@ class BoxResult:
         assert not set(list_of_paths) == set()
 
         # okay now remove all the bad paths!
-        list_of_paths = list(set(list_of_paths) - set(list_of_bad_paths))
+        list_of_paths = [path for path in list_of_paths if path not in list_of_bad_paths]
 
         assert len(list_of_paths) > 0, "none of the provided paths were good, i.e. none of them had all the required keys {}".format(self.key_list)
 
@@ -977,6 +980,9 @@ class BoxResultPM(BoxResult):
         number_of_samples = 0
         assert not len(list_of_paths) == 0, "list_of_paths cannot be empty"
 
+        # each file is only used once, in the order provided
+        list_of_paths = list(dict.fromkeys(list_of_paths))
+
         list_of_bad_paths = []
 
         try:
@@ -1005,7 +1011,7 @@ class BoxResultPM(BoxResult):
         assert not set(list_of_paths) == set()
 
         # okay now remove all the bad paths!
-        list_of_paths = list(set(list_of_paths) - set(list_of_bad_paths))
+        list_of_paths = [path for path in list_of_paths if path not in list_of_bad_paths]
 
         assert len(list_of_paths) > 0, "none of the provided paths were good, i.e. none of them had all the required keys {}".format(self.key_list)
 
-- 
2.43.0


From 5c0b09c6ded71eff29456d4525dc272926973023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:08 +0000
Subject: [PATCH 09/58] fix: refuse result files that contain no samples at all

The identity comparison with 0 never triggered because the sum is a numpy integer.
---
 pibronic/pimc/pimc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index aca23a1..9d7ce35 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -886,7 +886,7 @@ class BoxResult:
 
         assert len(list_of_paths) > 0, "none of the provided paths were good, i.e. none of them had all the required keys {}".format(self.key_list)
 
-        assert number_of_samples is not 0, "number of samples should have changed"
+        assert number_of_samples != 0, "number of samples should have changed"
 
         if desired_number_of_samples is None:
             desired_number_of_samples = number_of_samples
@@ -1015,7 +1015,7 @@ class BoxResultPM(BoxResult):
 
         assert len(list_of_paths) > 0, "none of the provided paths were good, i.e. none of them had all the required keys {}".format(self.key_list)
 
-        assert number_of_samples is not 0, "number of samples should have changed"
+        assert number_of_samples != 0, "number of samples should have changed"
 
         if desired_number_of_samples is None:
             desired_number_of_samples = number_of_samples
-- 
2.43.0


From ef5c8bae65419e3ef350b70d63bea6c472ef43f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:36 +0000
Subject: [PATCH 10/58] fix: encode_self() uses the string keys that
 load_json_string() reads

json cannot serialize enum members as keys, so encoding always raised a TypeError.
---
 pibronic/pimc/pimc.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 9d7ce35..c67e2f4 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -522,18 +522,18 @@ class BoxData:
         if params is None:
             log.flow("params was none")
             params = {
-                SEP.X: self.samples,
-                SEP.nBlk: self.blocks,
-                SEP.A: self.states,
-                SEP.P: self.beads,
-                SEP.N: self.modes,
-                SEP.T: self.temperature,
-                SEP.BlkS: self.block_size,
-                SEP.dB: self.delta_beta,
-                SEP.D: self.id_data,
-                SEP.R: self.id_rho,
-                SEP.beta: self.beta,
-                SEP.tau: self.tau,
+                SEP.X.value: self.samples,
+                SEP.nBlk.value: self.blocks,
+                SEP.A.value: self.states,
+                SEP.P.value: self.beads,
+                SEP.N.value: self.modes,
+                SEP.T.value: self.temperature,
+                SEP.BlkS.value: self.block_size,
+                SEP.dB.value: self.delta_beta,
+                SEP.D.value: self.id_data,
+                SEP.R.value: self.id_rho,
+                SEP.beta.value: self.beta,
+                SEP.tau.value: self.tau,
                 # "s": self.hash_vib,
                 # "x": self.hash_rho,
             }
-- 
2.43.0


From 3065721129c83014ae5cbbc9699705d62e0a40ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 11/58] fix: BoxData.from_json_file passed the class twice and
 always raised

---
 pibronic/pimc/pimc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index c67e2f4..ec78e07 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -498,7 +498,7 @@ class BoxData:
         """constructor wrapper"""
         with open(path, mode='r', encoding='UTF8') as target_file:
             file_data = target_file.read()
-        return cls.from_json_string(cls, file_data)
+        return cls.from_json_string(file_data)
 
     @classmethod
     def from_json_string(cls, json_str):
-- 
2.43.0


From 121a65d785c95715f7ca5e786ec7000297ddfe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:46 +0000
Subject: [PATCH 12/58] fix: ModelClass can be created from a file, also
 without linear or quadratic terms

from_json_file() passed the class as self and the file's text as path, and
load_model() raised a KeyError for parameters that are not present (zero).
---
 pibronic/pimc/pimc.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index ec78e07..909a4a5 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -112,9 +112,9 @@ class ModelClass:
     @classmethod
     def from_json_file(cls, path):
         """constructor wrapper"""
-        with open(path, mode='r', encoding='UTF8') as target_file:
-            file_data = target_file.read()
-        return cls.load_model(cls, file_data)
+        model = cls()
+        model.load_model(path)
+        return model
 
     def load_model(self, path):
         """x"""
@@ -123,14 +123,10 @@ class ModelClass:
         # lazy way of assuming that if one array is empty this is the first time
         if type(None) in map(type, [self.omega, self.energy, self.linear, self.quadratic]):
             kwargs = vIO.load_model_from_JSON(path)
-            self.energy = kwargs[VMK.E]
-            self.omega = kwargs[VMK.w]
-            self.linear = kwargs[VMK.G1]
-            A = self.states
-            N = self.modes
-            shape = vIO.model_shape_dict(A, N)
-            self.linear = kwargs[VMK.G1] if VMK.G1 in kwargs else np.zeros(shape[VMK.G1], dtype=F64)
-            self.quadratic = kwargs[VMK.G2] if VMK.G2 in kwargs else np.zeros(shape[VMK.G2], dtype=F64)
+            # parameters that are not present in the file are zero
+            shape = vIO.model_shape_dict(kwargs[VMK.A], kwargs[VMK.N])
+            for key in [VMK.G1, VMK.G2]:
+                kwargs.setdefault(key, np.zeros(shape[key], dtype=F64))
         else:
             kwargs = {}
             kwargs[VMK.N] = self.modes
-- 
2.43.0


From 75b3744067acda024e980dcff7c2d611ef24f8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:19 +0000
Subject: [PATCH 13/58] fix: diagonal models whose energies are all zero can be
 loaded

The zero energies (which are omitted from the file) were given the shape (A, A) of
a coupled model and the load was refused with an AssertionError.
---
 pibronic/vibronic/vibronic_model_io.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index 22fe2c1..37fe457 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -572,8 +572,9 @@ def _load_inplace_from_JSON(path, dictionary):
     return
 
 
-def _load_from_JSON(path):
-    """returns a dictionary filled with the values stored in the .json file located at path"""
+def _load_from_JSON(path, shape_function=model_shape_dict):
+    """returns a dictionary filled with the values stored in the .json file located at path
+    shape_function determines the shape of the energies if they are not present in the file"""
 
     with open(path, mode='r', encoding='UTF8') as file:
         input_dictionary = json.loads(file.read())
@@ -588,7 +589,7 @@ def _load_from_JSON(path):
     # special case to always create an array of energies that are 0.0 if not provided in the .json file
     if VMK.E not in input_dictionary:
         A, N = _extract_dimensions_from_dictionary(input_dictionary)
-        shape = model_shape_dict(A, N)
+        shape = shape_function(A, N)
         input_dictionary[VMK.E] = np.zeros(shape[VMK.E], dtype=F64)
 
     # TODO - design decision about which arrays to fill with zeros by default?
@@ -633,7 +634,7 @@ def load_diagonal_model_from_JSON(path, dictionary=None):
 
     # no arrays were provided so return newly created arrays after filling them with the appropriate values
     if not bool(dictionary):
-        new_model_dict = _load_from_JSON(path)
+        new_model_dict = _load_from_JSON(path, diagonal_model_shape_dict)
 
         # TODO - we might want to make sure that none of the values in the dictionary have all zero values or are None
 
-- 
2.43.0


From 213ebb3919a0cd4eb933fe992c461db61e857103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 14/58] fix: refuse to load a model of different dimensions
 into the provided arrays

Arrays of size one (single mode or single state models) were silently broadcast and
missing parameters zeroed, even though the model in the file has other dimensions.
---
 pibronic/vibronic/vibronic_model_io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index 37fe457..7bc8242 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -561,6 +561,9 @@ def _load_inplace_from_JSON(path, dictionary):
 
     VMK.change_dictionary_keys_from_strings_to_enum_members(input_dictionary)
 
+    file_dims = _extract_dimensions_from_dictionary(input_dictionary)
+    assert file_dims == _extract_dimensions_from_dictionary(dictionary), f"the model in {path} has different dimensions {file_dims} (A, N)"
+
     for key, value in dictionary.items():
         if isinstance(value, (np.ndarray, np.generic)):
             # this is a safer way of forcing the input arrays that have no corresponding key in the input_dictionary to have zero values
@@ -568,7 +571,9 @@ def _load_inplace_from_JSON(path, dictionary):
             if key not in input_dictionary:
                 dictionary[key].fill(0.0)
             else:
-                dictionary[key][:] = np.array(input_dictionary[key], dtype=F64)
+                new_value = np.array(input_dictionary[key], dtype=F64)
+                assert new_value.shape == value.shape, f"{key} have incorrect shape"
+                dictionary[key][:] = new_value
     return
 
 
-- 
2.43.0


From cf587b6a2ecca54f9f72b89e306c2853271b8c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:41 +0000
Subject: [PATCH 15/58] fix: load sequences with a single character delimiter

numpy.loadtxt refuses ', ', so no orthonormal matrix could be created for any
tuning parameter other than zero; the space is stripped by the conversion.
---
 pibronic/vibronic/orthonormal/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/orthonormal/sequences.py b/pibronic/vibronic/orthonormal/sequences.py
index c54daea..9cb1338 100755
--- a/pibronic/vibronic/orthonormal/sequences.py
+++ b/pibronic/vibronic/orthonormal/sequences.py
@@ -114,7 +114,7 @@ def path_to_sequence_file(order):
     return path
 
 
-def load_sequence(order, delimiter=", "):
+def load_sequence(order, delimiter=","):
     """ returns a list of [y, x] pairs (which are length 2 lists)
     throws an assert error if the file does not exist
     takes a integer parameter which specifies which file to load"""
-- 
2.43.0


From 0c9b3ccb2ee49e1835eafda3795dea9d07a1ace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 16/58] fix: halve the diagonal (not the last column) of the
 couplings read from .op files

The loop used the leaked index b, so the quadratic, cubic and quartic couplings of
all surfaces but the last were doubled and couplings with the last one halved.
---
 pibronic/vibronic/model_op.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/vibronic/model_op.py b/pibronic/vibronic/model_op.py
index cb01b42..5bdb09a 100755
--- a/pibronic/vibronic/model_op.py
+++ b/pibronic/vibronic/model_op.py
@@ -386,9 +386,9 @@ def read_model_op_file(path_file_op):
     # don't over count the diagonals
     for a in States:
         linear_couplings[:, a, a] /= 2.
-        quadratic_couplings[:, :, a, b] /= 2.
-        cubic_couplings[:, :, :, a, b] /= 2.
-        quartic_couplings[:, :, :, :, a, b] /= 2.
+        quadratic_couplings[:, :, a, a] /= 2.
+        cubic_couplings[:, :, :, a, a] /= 2.
+        quartic_couplings[:, :, :, :, a, a] /= 2.
 
     # check for symmetry in surfaces
     assert np.allclose(excitation_energies, excitation_energies.transpose(1, 0))
-- 
2.43.0


From 984d39bfe986c240420ee67c76ed4fcaa153f402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:46 +0000
Subject: [PATCH 17/58] fix: directories_exist() checks the directories, not
 the names of the attributes

---
 pibronic/data/file_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index bee2162..cf27926 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -139,7 +139,7 @@ class FileStructure:
 
     def directories_exist(self):
         """x"""
-        if False in map(os.path.isdir, self.dir_list):
+        if False in map(os.path.isdir, [getattr(self, name) for name in self.dir_list]):
             return False
         return True
 
-- 
2.43.0


From 6a0e7655a32df236e39f6c9d20752740e885268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:50 +0000
Subject: [PATCH 18/58] fix: paths of a FileStructure are absolute also for a
 relative root

---
 pibronic/data/file_structure.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index cf27926..f5e503d 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -79,14 +79,14 @@ class FileStructure:
         # special
         self.path_es = join(self.path_data, "electronic_structure")
         # sub directories
-        self.path_vib_params = join(path_root, self.template_vib_params.format(id_data))
-        self.path_vib_results = join(path_root, self.template_vib_results.format(id_data))
-        self.path_vib_output = join(path_root, self.template_vib_output.format(id_data))
-        self.path_vib_plots = join(path_root, self.template_vib_plots.format(id_data))
-        self.path_rho_params = join(path_root, self.template_rho_params.format(id_data, id_rho))
-        self.path_rho_results = join(path_root, self.template_rho_results.format(id_data, id_rho))
-        self.path_rho_output = join(path_root, self.template_rho_output.format(id_data, id_rho))
-        self.path_rho_plots = join(path_root, self.template_rho_plots.format(id_data, id_rho))
+        self.path_vib_params = join(self.path_root, self.template_vib_params.format(id_data))
+        self.path_vib_results = join(self.path_root, self.template_vib_results.format(id_data))
+        self.path_vib_output = join(self.path_root, self.template_vib_output.format(id_data))
+        self.path_vib_plots = join(self.path_root, self.template_vib_plots.format(id_data))
+        self.path_rho_params = join(self.path_root, self.template_rho_params.format(id_data, id_rho))
+        self.path_rho_results = join(self.path_root, self.template_rho_results.format(id_data, id_rho))
+        self.path_rho_output = join(self.path_root, self.template_rho_output.format(id_data, id_rho))
+        self.path_rho_plots = join(self.path_root, self.template_rho_plots.format(id_data, id_rho))
 
         # root_suffix = "D{:d}_R{:d}_".format(id_data, id_rho)
         # self.pimc_suffix = root_suffix + "P{P:d}_T{T:.2f}_J*_data_points.npz"
-- 
2.43.0


From cded06b9550211d38fc367ad11226f73f19bb23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:56 +0000
Subject: [PATCH 19/58] fix: change_rho() updates the id, the main directory
 and the hash of the sampling model

---
 pibronic/data/file_structure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index f5e503d..a0bf856 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -175,7 +175,11 @@ class FileStructure:
         calls make_rho_directories() to ensure the directories exist
         """
         self.make_rho_directories(id_rho)
+        if id_rho != self.id_rho and self._has_rho_hash():
+            del self.hash_rho  # it belongs to the previous sampling model
+        self.id_rho = id_rho
         # update all the rho paths
+        self.path_rho = join(self.path_root, self.template_rho.format(self.id_data, id_rho))
         self.path_rho_params = join(self.path_root,
                                     self.template_rho_params.format(self.id_data, id_rho))
         self.path_rho_results = join(self.path_root,
-- 
2.43.0


From 0596df0d7fba6ef3c0d41d8e04a89e4549122150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:13 +0000
Subject: [PATCH 20/58] fix: extract the bead and basis values from the paths
 of trotter files

---
 pibronic/data/postprocessing.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index 85b53d7..e8c588c 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -86,16 +86,20 @@ def retrive_all_file_paths(FS):
 
 def extract_bead_value_from_trotter_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("trotter_P")[1].split("_B"))
+    return int(os.path.basename(file_path).split("trotter_P")[1].split("_B")[0])
+
+
+def extract_basis_value_from_trotter_file_path(file_path):
+    """ does what it says, returns an int """
+    return int(os.path.basename(file_path).split("_B")[1].split(".json")[0])
 
 
 def extract_trotter_paramater_list(list_trotter):
     """ takes a list of file-paths to results from trotter calculations and return a dictionary with integer keys representing possible basis sizes, whose corresponding values are lists of all possible bead values for that given basis size. """
-    tL = map(extract_bead_value_from_trotter_file_path, list_trotter)
-
     trotterDict = collections.defaultdict(list)
-    for path in tL:
-        trotterDict[int(path[1].split(".json")[0])].append(int(path[0]))
+    for path in list_trotter:
+        basis = extract_basis_value_from_trotter_file_path(path)
+        trotterDict[basis].append(extract_bead_value_from_trotter_file_path(path))
 
     return trotterDict
 
-- 
2.43.0


From 91ea85d93d48e2a956cc7560aecd2796450bad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 21/58] fix: parse the parameters from the name of a file, not
 from its directories

---
 pibronic/data/postprocessing.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index e8c588c..5123f17 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -106,7 +106,7 @@ def extract_trotter_paramater_list(list_trotter):
 
 def extract_basis_value_from_sos_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("_B")[1].split(".json")[0])
+    return int(os.path.basename(file_path).split("_B")[1].split(".json")[0])
 
 
 def extract_sos_basis_paramater_list(list_vib, list_rho):
@@ -121,7 +121,7 @@ def extract_sos_basis_paramater_list(list_vib, list_rho):
 
 def extract_bead_value_from_pimc_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("P")[1].split("_T")[0])
+    return int(os.path.basename(file_path).split("P")[1].split("_T")[0])
 
 
 def extract_bead_paramater_list(list_pimc):
@@ -134,7 +134,7 @@ def extract_bead_paramater_list(list_pimc):
 
 def extract_temperature_value_from_pimc_file_path(file_path):
     """ does what it says, returns a float"""
-    return float(file_path.split("_T")[1].split("_J")[0])
+    return float(os.path.basename(file_path).split("_T")[1].split("_J")[0])
 
 
 def extract_temperature_paramater_list(list_pimc):
@@ -150,7 +150,7 @@ def extract_temperature_paramater_list(list_pimc):
 
 def extract_job_value_from_pimc_file_path(file_path):
     """ does what it says, returns an int"""
-    return int(file_path.split("_J")[1].split("_data_")[0])
+    return int(os.path.basename(file_path).split("_J")[1].split("_data_")[0])
 
 
 def extract_parameter_lists(list_pimc, list_vib, list_rho):
@@ -163,17 +163,17 @@ def extract_parameter_lists(list_pimc, list_vib, list_rho):
 
 def extract_bead_value_from_thermo_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("P")[1].split("_T")[0])
+    return int(os.path.basename(file_path).split("P")[1].split("_T")[0])
 
 
 def extract_temperature_value_from_thermo_file_path(file_path):
     """ does what it says, returns a float"""
-    return float(file_path.split("_T")[1].split("_X")[0])
+    return float(os.path.basename(file_path).split("_T")[1].split("_X")[0])
 
 
 def extract_sample_value_from_thermo_file_path(file_path):
     """ does what it says, returns an int"""
-    return int(file_path.split("_X")[1].split("_thermo")[0])
+    return int(os.path.basename(file_path).split("_X")[1].split("_thermo")[0])
 
 
 def prune_results_using_hashes(FS, list_pimc):
@@ -219,8 +219,8 @@ def extract_pimc_parameters(list_pimc, list_coupled, list_sampling):
     # note that the way these splits are coded will pose problems if the naming scheme for sos is changed in the future
     value_dict = {"pimc_beads": 0, "basis_fxns": 0, "temperatures": 0}
 
-    cL = map(lambda path: int(path.split("_B")[1].split(".json")[0]), list_coupled)
-    sL = map(lambda path: int(path.split("_B")[1].split(".json")[0]), list_sampling)
+    cL = map(lambda path: int(os.path.basename(path).split("_B")[1].split(".json")[0]), list_coupled)
+    sL = map(lambda path: int(os.path.basename(path).split("_B")[1].split(".json")[0]), list_sampling)
 
     # parse file paths to find shared #'s' of basis functions
     value_dict["basis_fxns"] = list(set(cL) & set(sL))
@@ -229,20 +229,20 @@ def extract_pimc_parameters(list_pimc, list_coupled, list_sampling):
 
     # parse file paths to find shared temperature values
     # for now we will leave this partially undeveloped
-    tempL = map(lambda path: float(path.split("_T")[1].split("_X")[0]), list_pimc)
+    tempL = map(lambda path: float(os.path.basename(path).split("_T")[1].split("_X")[0]), list_pimc)
     # need to add thing here that checks temperatures inside sos file
     value_dict["temperatures"] = list(set(tempL))
     value_dict["temperatures"].sort()
     log.debug(value_dict["temperatures"])
 
     # parse file paths to find shared sample values
-    xL = map(lambda path: int(path.split("_X")[1].split("_thermo")[0]), list_pimc)
+    xL = map(lambda path: int(os.path.basename(path).split("_X")[1].split("_thermo")[0]), list_pimc)
     value_dict["samples"] = list(set(xL))
     value_dict["samples"].sort()
     log.debug(value_dict["samples"])
 
     # parse file paths to find pimc bead values
-    pL = map(lambda path: int(path.split("/P")[1].split("_T")[0]), list_pimc)
+    pL = map(lambda path: int(os.path.basename(path).split("P")[1].split("_T")[0]), list_pimc)
     value_dict["pimc_beads"] = []
     for p in pL:
         if p not in value_dict["pimc_beads"]:
@@ -261,8 +261,8 @@ def extract_jackknife_parameters(list_pimc, list_coupled, list_sampling):
     # note that the way these splits are coded will pose problems if the naming scheme for sos is changed in the future
     value_dict = {"pimc_beads": 0, "basis_fxns": 0, "temperatures": 0}
 
-    cL = map(lambda path: int(path.split("_B")[1].split(".json")[0]), list_coupled)
-    sL = map(lambda path: int(path.split("_B")[1].split(".json")[0]), list_sampling)
+    cL = map(lambda path: int(os.path.basename(path).split("_B")[1].split(".json")[0]), list_coupled)
+    sL = map(lambda path: int(os.path.basename(path).split("_B")[1].split(".json")[0]), list_sampling)
 
     # parse file paths to find shared #'s' of basis functions
     value_dict["basis_fxns"] = list(set(cL) & set(sL))
@@ -271,7 +271,7 @@ def extract_jackknife_parameters(list_pimc, list_coupled, list_sampling):
 
     # parse file paths to find shared temperature values
     # for now we will leave this partially undeveloped
-    tempL = map(lambda path: float(path.split("_T")[1].split("_J")[0]), list_pimc)
+    tempL = map(lambda path: float(os.path.basename(path).split("_T")[1].split("_J")[0]), list_pimc)
     # need to add thing here that checks temperatures inside sos file
     value_dict["temperatures"] = list(set(tempL))
     value_dict["temperatures"].sort()
@@ -284,7 +284,7 @@ def extract_jackknife_parameters(list_pimc, list_coupled, list_sampling):
     # log.debug(value_dict["samples"])
 
     # parse file paths to find pimc bead values
-    pL = map(lambda path: int(path.split("results/P")[1].split("_T")[0]), list_pimc)
+    pL = map(lambda path: int(os.path.basename(path).split("P")[1].split("_T")[0]), list_pimc)
     value_dict["pimc_beads"] = []
     for p in pL:
         if p not in value_dict["pimc_beads"]:
-- 
2.43.0


From f9ce75475f642e81c4981961b92f41fd8ac019fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 22/58] fix: find result files also below directories with glob
 characters in their name

---
 pibronic/data/postprocessing.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index 5123f17..fc924ce 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -33,39 +33,39 @@ from ..data import file_name
 # TODO - should these single file functions exist? is there enough need to justify their use?
 # def retrive_a_pimc_file(files):
 #     """verify that a specific pimc file exists and retrives the path to it"""
-#     globPath = FS.path_rho_results + file_name.jackknife(P="*", T="*", X="*")
+#     globPath = glob.escape(FS.path_rho_results) + file_name.jackknife(P="*", T="*", X="*")
 #     return glob.glob(globPath)
 # def retrive_a_sos_coupled_file(files):
 #     """verify that a specific sos(coupled) file exists and retrives the path to it"""
-#     globPath = FS.path_vib_params + file_name.sos("*")
+#     globPath = glob.escape(FS.path_vib_params) + file_name.sos("*")
 #     return glob.glob(globPath)
 # def retrive_a_sos_sampling_file(files):
 #     """verify that a specific sos(sampling) file exists and retrives the path to it"""
-#     globPath = FS.path_rho_params + file_name.sos("*")
+#     globPath = glob.escape(FS.path_rho_params) + file_name.sos("*")
 #     return glob.glob(globPath)
 
 
 def retrive_pimc_file_list(FS):
     """return a list of the full path to each pimc file that might be used"""
-    globPath = FS.path_rho_results + file_name.pimc(P="*", T="*", J="*")
+    globPath = glob.escape(FS.path_rho_results) + file_name.pimc(P="*", T="*", J="*")
     return [file for file in glob.glob(globPath)]
 
 
 def retrive_jackknife_file_list(FS):
     """return a list of the full path to each jackknife file that might be used"""
-    globPath = FS.path_rho_results + file_name.jackknife(P="*", T="*", X="*")
+    globPath = glob.escape(FS.path_rho_results) + file_name.jackknife(P="*", T="*", X="*")
     return [file for file in glob.glob(globPath)]
 
 
 def retrive_sos_coupled_file_list(FS, B="*"):
     """return a list of the full path to each sos(coupled) file that might be used"""
-    globPath = FS.path_vib_params + file_name.sos("*")
+    globPath = glob.escape(FS.path_vib_params) + file_name.sos("*")
     return [file for file in glob.glob(globPath)]
 
 
 def retrive_sos_sampling_file_list(FS, B="*"):
     """return a list of the full path to each sos(sampling) file that might be used"""
-    globPath = FS.path_rho_params + file_name.sos("*")
+    globPath = glob.escape(FS.path_rho_params) + file_name.sos("*")
     return [file for file in glob.glob(globPath)]
 
 
@@ -306,7 +306,7 @@ def load_pimc_data(FS, P, T, pimc_results):
     currently solved by:
         self.template_pimc = self.path_rho_results + file_name.pimc(J="{J:s}")
     """
-    path_data_points = FS.template_pimc.format(P=P, T=T, J="*")
+    path_data_points = glob.escape(FS.path_rho_results) + file_name.pimc(J="*").format(P=P, T=T)
     list_of_files = [file for file in glob.glob(path_data_points)]
     pimc_results.load_multiple_results(list_of_files)
 
-- 
2.43.0


From 9ca7ee49bf4fe4f853a050d04d2e9f36a7013b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:47 +0000
Subject: [PATCH 23/58] fix: list only the sos files of the requested basis
 size

---
 pibronic/data/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index fc924ce..6e938f5 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -59,13 +59,13 @@ def retrive_jackknife_file_list(FS):
 
 def retrive_sos_coupled_file_list(FS, B="*"):
     """return a list of the full path to each sos(coupled) file that might be used"""
-    globPath = glob.escape(FS.path_vib_params) + file_name.sos("*")
+    globPath = glob.escape(FS.path_vib_params) + file_name.sos(str(B))
     return [file for file in glob.glob(globPath)]
 
 
 def retrive_sos_sampling_file_list(FS, B="*"):
     """return a list of the full path to each sos(sampling) file that might be used"""
-    globPath = glob.escape(FS.path_rho_params) + file_name.sos("*")
+    globPath = glob.escape(FS.path_rho_params) + file_name.sos(str(B))
     return [file for file in glob.glob(globPath)]
 
 
-- 
2.43.0


From 24838da908da9f27c720d09dcd9f75dac299fa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:23 +0000
Subject: [PATCH 24/58] fix: format the file templates also below directories
 with braces in their name

---
 pibronic/data/file_structure.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index a0bf856..24cbd01 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -28,6 +28,11 @@ list_sub_dirs = [
     ]
 
 
+def _escape_braces(path):
+    """ returns the path with its braces doubled so that it can be part of a format string """
+    return path.replace("{", "{{").replace("}", "}}")
+
+
 # should this be renamed to DirectoryStructure?
 class FileStructure:
     """handles creation and verification of default file structure storing data from/to jobs"""
@@ -93,11 +98,11 @@ class FileStructure:
         # self.jackknife_suffix = root_suffix + "P{P:d}_T{T:.2f}_X{X:d}_thermo"
 
         # can't use os.path.join on these because they are format strings that haven't been fully resolved yet
-        self.template_pimc = self.path_rho_results + file_name.pimc(J="{J:s}")
-        self.template_jackknife = self.path_rho_results + file_name.jackknife()
-        self.template_sos_rho = self.path_rho_params + file_name.sos()
-        self.template_sos_vib = self.path_vib_params + file_name.sos()
-        self.template_trotter_vib = self.path_vib_params + file_name.trotter()
+        self.template_pimc = _escape_braces(self.path_rho_results) + file_name.pimc(J="{J:s}")
+        self.template_jackknife = _escape_braces(self.path_rho_results) + file_name.jackknife()
+        self.template_sos_rho = _escape_braces(self.path_rho_params) + file_name.sos()
+        self.template_sos_vib = _escape_braces(self.path_vib_params) + file_name.sos()
+        self.template_trotter_vib = _escape_braces(self.path_vib_params) + file_name.trotter()
 
         # TODO - should we factor this out into the file_name module?
         # self.template_pimc = file_name.pimc
@@ -190,9 +195,9 @@ class FileStructure:
                                    self.template_rho_plots.format(self.id_data, id_rho))
 
         #
-        self.template_pimc = self.path_rho_results + file_name.pimc(J="{J:s}")
-        self.template_jackknife = self.path_rho_results + file_name.jackknife()
-        self.template_sos_rho = self.path_rho_params + file_name.sos()
+        self.template_pimc = _escape_braces(self.path_rho_results) + file_name.pimc(J="{J:s}")
+        self.template_jackknife = _escape_braces(self.path_rho_results) + file_name.jackknife()
+        self.template_sos_rho = _escape_braces(self.path_rho_params) + file_name.sos()
 
         # TODO - now we can't reliably update the self.dir_list
         # should have a mode modular way of doing this
-- 
2.43.0


From c5ac328a6bf048bbb726a0080fcb9b06f616a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:55 +0000
Subject: [PATCH 25/58] fix: compare the method and location of an analysis by
 value

---
 pibronic/stats/stats.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pibronic/stats/stats.py b/pibronic/stats/stats.py
index ef21d65..66d66dc 100755
--- a/pibronic/stats/stats.py
+++ b/pibronic/stats/stats.py
@@ -172,7 +172,7 @@ def starmap_wrapper(FS, P, T, statistical_operation):
         raise AttributeError(f"FS {FS:} doesn't have hash_vib or hash_rho attributes!")
 
     # save the data to disk
-    assert pimc_results.samples is not 0, "pimc_results has 0 samples! reading the data failed?!"
+    assert pimc_results.samples != 0, "pimc_results has 0 samples! reading the data failed?!"
     path = FS.template_jackknife.format(P=P, T=T, X=pimc_results.samples)
 
     with open(path, mode='w', encoding='UTF8') as target_file:
@@ -235,21 +235,21 @@ def statistical_analysis_of_pimc(FS, method="basic", location="local", samples=N
                 ]
 
     # choose what statistical analysis we are going to preform
-    if method is "basic":
+    if method == "basic":
         operation = basic_statistical_analysis
-    elif method is "alpha":
+    elif method == "alpha":
         operation = alpha_statistical_analysis
     else:
         raise Exception(f"Invalid value for parameter method:({method})")
 
     # dispatch multiple processes to execute the analyze concurrently
-    if location is "local":
+    if location == "local":
         basic_wrapper = partial(starmap_wrapper, statistical_operation=operation)
 
         with mp.Pool(__number_of_processes) as p:
             p.starmap(basic_wrapper, arg_list)
 
-    elif location is "server":
+    elif location == "server":
         assert False, "Need to write this code"
 
         # TODO - add a simple command to check that slurm is installed
@@ -351,18 +351,20 @@ def jackknife_analysis_of_pimc(FS, method="basic", location="local", samples=Non
                 for T in args["temperatures"]
                 ]
     # choose what statistical analysis we are going to preform
-    if method is "basic":
+    if method == "basic":
         operation = basic_jackknife_analysis
-    elif method is "alpha":
+    elif method == "alpha":
         operation = alpha_jackknife_analysis
+    else:
+        raise Exception(f"Invalid value for parameter method:({method})")
 
     # dispatch multiple processes to execute the analyze concurrently
-    if location is "local":
+    if location == "local":
         jackknife_wrapper = partial(starmap_wrapper, statistical_operation=operation)
         with mp.Pool(__number_of_processes) as p:
             p.starmap(jackknife_wrapper, arg_list)
 
-    elif location is "server":
+    elif location == "server":
         assert False, "Need to write this code"
 
         # TODO - add a simple command to check that slurm is installed
@@ -372,7 +374,7 @@ def jackknife_analysis_of_pimc(FS, method="basic", location="local", samples=Non
         # TODO - write code that submits jobs to the server
 
     else:
-        raise Exception(f"Invalid value for paramter location:({location:s})")
+        raise Exception(f"Invalid value for parameter location:({location})")
 
     return
 
-- 
2.43.0


From 95c0f8144c1095659c1f6715649cb36314312e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:00 +0000
Subject: [PATCH 26/58] fix: analyze only the samples that belong to the
 current models

---
 pibronic/data/postprocessing.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index 6e938f5..c6cd3a5 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -295,8 +295,18 @@ def extract_jackknife_parameters(list_pimc, list_coupled, list_sampling):
     return value_dict
 
 
+def retrive_pimc_file_list_of(FS, P, T):
+    """return a list of the full path to each pimc file with the same P and T
+    if the FileStructure object has hashes then only files with the same hashes are returned"""
+    globPath = glob.escape(FS.path_rho_results) + file_name.pimc(J="*").format(P=P, T=T)
+    list_of_files = [file for file in glob.glob(globPath)]
+    if FS._has_hash_values():
+        list_of_files = prune_results_using_hashes(FS, list_of_files)
+    return list_of_files
+
+
 def load_pimc_data(FS, P, T, pimc_results):
-    """ load data from all files with same P and T"""
+    """ load data from all files with same P and T, which belong to the models in FS"""
     """
     this usuage of FS.template_pimc.format(P=P, T=T, J="*") raises a good question about the design!
     possible ways to implement:
@@ -306,8 +316,7 @@ def load_pimc_data(FS, P, T, pimc_results):
     currently solved by:
         self.template_pimc = self.path_rho_results + file_name.pimc(J="{J:s}")
     """
-    path_data_points = glob.escape(FS.path_rho_results) + file_name.pimc(J="*").format(P=P, T=T)
-    list_of_files = [file for file in glob.glob(path_data_points)]
+    list_of_files = retrive_pimc_file_list_of(FS, P, T)
     pimc_results.load_multiple_results(list_of_files)
 
     # TODO - add support for passing in the optional desired_number_of_samples paramter to the load_multiple_results method
-- 
2.43.0


From 6068bbdc9774c1f32b6429f520aa9d06e7114448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:05 +0000
Subject: [PATCH 27/58] fix: analyze only the (beads, temperature) combinations
 that have samples

---
 pibronic/stats/stats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pibronic/stats/stats.py b/pibronic/stats/stats.py
index 66d66dc..d1ba874 100755
--- a/pibronic/stats/stats.py
+++ b/pibronic/stats/stats.py
@@ -244,6 +244,8 @@ def statistical_analysis_of_pimc(FS, method="basic", location="local", samples=N
 
     # dispatch multiple processes to execute the analyze concurrently
     if location == "local":
+        # only analyze the combinations for which we have samples
+        arg_list = [arg for arg in arg_list if pp.retrive_pimc_file_list_of(*arg)]
         basic_wrapper = partial(starmap_wrapper, statistical_operation=operation)
 
         with mp.Pool(__number_of_processes) as p:
@@ -360,6 +362,8 @@ def jackknife_analysis_of_pimc(FS, method="basic", location="local", samples=Non
 
     # dispatch multiple processes to execute the analyze concurrently
     if location == "local":
+        # only analyze the combinations for which we have samples
+        arg_list = [arg for arg in arg_list if pp.retrive_pimc_file_list_of(*arg)]
         jackknife_wrapper = partial(starmap_wrapper, statistical_operation=operation)
         with mp.Pool(__number_of_processes) as p:
             p.starmap(jackknife_wrapper, arg_list)
-- 
2.43.0


From a9ceed2c730f465746e33b4d88b6a9fbc6f64746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:36 +0000
Subject: [PATCH 28/58] fix: submissions do not share their parameters

---
 pibronic/server/job_boss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 762bf3b..2f38ca6 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -6,6 +6,7 @@ import subprocess
 import threading
 import socket
 import signal
+import copy
 import time
 import sys
 import os
@@ -464,6 +465,9 @@ class SubmissionClass():
     def __init__(self, input_FS, input_param_dict=None):
         """ takes a FileStructure object and an optional parameter dictionary - no error checking at the moment """
 
+        # every submission needs its own copy of the default values
+        self.param_dict = copy.deepcopy(self.param_dict)
+
         # set the default hostname when initialized
         self.param_dict['hostname'] = get_hostname()
 
@@ -577,7 +581,6 @@ class PimcSubmissionClass(SubmissionClass):
         temperature_list = self.param_dict["temperature_list"]
         bead_list = self.param_dict["bead_list"]
 
-        import copy
         for T in temperature_list:
             for P in bead_list:
 
-- 
2.43.0


From 43fdd3bb6e69a340fe268c0758081704ba6343e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:41 +0000
Subject: [PATCH 29/58] fix: submit enough jobs, of whole blocks, for the
 requested number of samples

---
 pibronic/server/job_boss.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 2f38ca6..5888b8b 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -553,8 +553,9 @@ class PimcSubmissionClass(SubmissionClass):
         assert block_size <= n_samples, f"block size {block_size} must be less than or equal to the number of samples {n_samples}"
         assert block_size <= self.MAX_SAMPLES_PER_JOB, f"block size {block_size} must be less than or equal to the maximum number of samples per job {self.MAX_SAMPLES_PER_JOB}"
 
-        # calculate how many samples we need for each job
+        # calculate how many samples we need for each job (a whole number of blocks)
         samples_per_job = min(n_samples, self.MAX_SAMPLES_PER_JOB)
+        samples_per_job -= samples_per_job % block_size
         self.param_dict["number_of_samples_per_job"] = samples_per_job
         self.param_dict["number_of_samples"] = samples_per_job
 
@@ -566,11 +567,12 @@ class PimcSubmissionClass(SubmissionClass):
         total_samples = self.param_dict["number_of_samples_overall"]
 
         # TODO - HACKY
-        if total_samples is 0:
+        if total_samples == 0:
             total_samples = n_samples
             self.param_dict["number_of_samples_overall"] = n_samples
 
-        self.n_jobs = max(1, total_samples // self.MAX_SAMPLES_PER_JOB)
+        # round up so that we get at least as many samples as were requested
+        self.n_jobs = max(1, -(-total_samples // samples_per_job))
         return
 
     def submit_jobs(self):
-- 
2.43.0


From 280fadbf9f97c13a5b2da750b218dc102a2662a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:46 +0000
Subject: [PATCH 30/58] fix: submit the job script of the package using the
 python executable

---
 pibronic/server/job_boss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 5888b8b..44474d0 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -31,12 +31,12 @@ job_almost_done_flag = False
 
 def get_path_to_python_executable():
     """returns the absolute path to the python executable currently executing this script"""
-    return os.path.abspath(os.__file__)
+    return os.path.abspath(sys.executable)
 
 
 def get_path_of_job_boss_directory():
     """returns the absolute path to the directory holding job_boss.py """
-    return os.path.abspath(__file__)
+    return os.path.dirname(os.path.abspath(__file__))
 
 
 def subprocess_submit_asynch_wrapper(cmd, **kwargs):
-- 
2.43.0


From 0c93f102b8a298bf4c73ceaf369f3339b98a9d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:50 +0000
Subject: [PATCH 31/58] fix: check_slurm_output() searches the text of the
 output file for errors

---
 pibronic/server/job_boss.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 44474d0..d701c77 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -150,19 +150,19 @@ def check_slurm_output(path_root, id_job):
     log.debug(f"Checking slurm output:\n{slurm_path:}\n")
 
     with open(slurm_path, "r") as source_file:
-        if not ("Finished" in source_file):
-            log.debug("We got here too early?")  # should this be an exception?
+        text = source_file.read()
 
-        elif "SIGSEGV" in source_file:
-            raise MemoryError(f"Job {id_job:d} had a Segmentation fault, see file {slurm_path:s}")
+    if "SIGSEGV" in text:
+        raise MemoryError(f"Job {id_job:d} had a Segmentation fault, see file {slurm_path:s}")
 
-        elif "Killed" in source_file:
-            # most likely cause is that it ran out of memory
-            if "Exceeded step memory limit" in source_file:
-                raise MemoryError(f"Job {id_job:d} ran out of memory, see file {slurm_path:s}")
-            raise Exception(f"Job {id_job:d} failed for an unknown reason, see file {slurm_path:s}")
-        else:
-            log.warning(f"Undefined execution, check file {slurm_path:s} for issues")
+    elif "Killed" in text:
+        # most likely cause is that it ran out of memory
+        if "Exceeded step memory limit" in text:
+            raise MemoryError(f"Job {id_job:d} ran out of memory, see file {slurm_path:s}")
+        raise Exception(f"Job {id_job:d} failed for an unknown reason, see file {slurm_path:s}")
+
+    elif "Finished" not in text:
+        log.debug("We got here too early?")  # should this be an exception?
     return
 
 
-- 
2.43.0


From 15778dc863efbff3afe1d5a44f66c3adb62ae098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:55 +0000
Subject: [PATCH 32/58] fix: resume the electronic structure workflow after the
 last completed state

---
 pibronic/vibronic/electronic_structure.py | 25 ++++++++---------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 842af2e..fd545fa 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1513,31 +1513,24 @@ class VibronExecutionClass:
 
         for line in reversed(lines):
 
-            # I believe there is a cleaner way to do this, should clean this up
-            # low priority
-            if line in ["", "\n"]:
+            if line.strip() == "":
                 continue
 
-            old_state = str(line.strip())
+            # the last line is the most recently completed state
+            old_state = line.strip()
 
-            if old_state == State(State.max()):
-                self.state = State(State.max())
-
-            elif old_state in State:
-                self.state = State(State(old_state).value + 1)
-
-            for member in State:
-                if member.name == str(line.strip()):
-                    self.state = State(member.value + 1)
-                    break
+            if old_state in State.__members__:
+                self.state = State(min(State[old_state].value + 1, State.max()))
             else:
                 s = ("State file {:s} contained an invalid state: {:s}"
                      "Defaulting to initial state"
                      )
-                log.debug(s.format(line, self.path_state))
+                log.debug(s.format(self.path_state, line))
                 self.state = State(State.min())
-                break
+            return
 
+        # there were only blank lines
+        self.state = State(State.min())
         return
 
     def parse_input_parameters(self, file_path=None):
-- 
2.43.0


From 839a926b5d1edf50509e36316d6988c9081dbfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:58 +0000
Subject: [PATCH 33/58] fix: vibronic workflows do not share their parameters

---
 pibronic/vibronic/electronic_structure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index fd545fa..342edd0 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1443,6 +1443,7 @@ class VibronExecutionClass:
         self.path_root = root
         self.file_in = default_file_in.copy()
         self.file_out = default_file_out.copy()
+        self.parameter_dictionary = self.parameter_dictionary.copy()
         self.path_state = join(self.path_root, name_of_state_file)
 
         # fill in names
-- 
2.43.0


From 1c9d353d3f311f8766f0d98a2d364809e9c982cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:02 +0000
Subject: [PATCH 34/58] fix: return the template of the prepVibron input file

---
 pibronic/vibronic/electronic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 342edd0..b1e2559 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1040,7 +1040,7 @@ def _create_template(zmat, memory_size):
     template += "\n\t" + "heff_high=200"
     template += "\n" + "*end"
     template += "\n"
-    return
+    return template
 
 
 def prepVibron_calculation(path_root, name, zmat, parameter_dictionary):
-- 
2.43.0


From 8ef942f75c67d7d3922a6f52ebdc26f02038d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:06 +0000
Subject: [PATCH 35/58] fix: use the whole number of dropped orbitals when
 estimating NIP

---
 pibronic/vibronic/electronic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index b1e2559..d4c535e 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -617,7 +617,7 @@ def _estimate_NIP(vibron, path):
     lines = _extract_lines_for_estimating_NIP(path)
     # grab the guess_dropmo as a number
     string_dropmo = vibron.parameter_dictionary["DROPMO"]
-    guess_dropmo = 0 if string_dropmo == "" else int(string_dropmo[-1])
+    guess_dropmo = 0 if string_dropmo == "" else int(string_dropmo.replace("=", "-").split("-")[-1])
     print(guess_dropmo)
 
     guess_nip, list_ev = _guess_NIP_value(lines, guess_dropmo)
-- 
2.43.0


From 637aaa0c4efe84d821a673d0c4a8d3cf5e1901c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:10 +0000
Subject: [PATCH 36/58] fix: errors of submitted electronic structure jobs are
 strings

---
 pibronic/vibronic/electronic_structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index d4c535e..4e7a379 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -347,9 +347,9 @@ def submit_job(parameter_dictionary):
     job_id, out, error = job_boss.submit_job(command, parameter_dictionary)
 
     # check for any errors
-    if error.decode('utf-8') is not "":
+    if error != "":
         s = "Failed to execute script \n{:s}\n due to {:s}"
-        raise Exception(s.format(command, error.decode('utf-8')))
+        raise Exception(s.format(command, error))
 
     return job_id
 # -----------------------------------------------------------
-- 
2.43.0


From 18651ca08eddea6dd8a501ae4f549e169b441037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:15 +0000
Subject: [PATCH 37/58] fix: submit electronic structure jobs to the current
 host and its partition

---
 pibronic/server/job_boss.py               |  9 +++++----
 pibronic/vibronic/electronic_structure.py | 24 +++++++++++------------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index d701c77..4fc8352 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -25,10 +25,6 @@ from .. import pimc
 job_state_lock = threading.Lock()
 job_almost_done_flag = False
 
-# this should be redone
-# partition = 'highmem' if hostname == 'feynman' else 'serial'
-
-
 def get_path_to_python_executable():
     """returns the absolute path to the python executable currently executing this script"""
     return os.path.abspath(sys.executable)
@@ -69,6 +65,11 @@ def get_hostname():
         raise Exception("Did not find ClusterName in the config data from scontrol!?")
 
 
+def get_default_partition():
+    """returns the name of the partition to be used on the server as a string"""
+    return 'highmem' if get_hostname() == 'feynman' else 'serial'
+
+
 def SIGUSR1_handle(signum, frame):
     """signal handler - uses job_state_lock to record signal using the bool job_almost_done_flag"""
     global job_almost_done_flag
diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 4e7a379..fa30ec8 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -438,14 +438,14 @@ def hartree_fock_calculation(path_root, name, zmat, parameter_dictionary, hf_typ
         "cpus": 1,
         "work_dir": path_root,
         "output": path_output,
-        "partition": job_boss.partition,
+        "partition": job_boss.get_default_partition(),
         "make_scratch": 0,
         "scratch_in": copy_in,
         "scratch_out": copy_out,
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -712,14 +712,14 @@ def geometry_optimization(path_root, name, zmat, parameter_dictionary):
         "cpus": 1,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": job_boss.get_default_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -850,14 +850,14 @@ def vibrational_frequency(path_root, name, zmat, parameter_dictionary):
         "cpus": 1,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": job_boss.get_default_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "fcm",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -919,14 +919,14 @@ def ip_calculation(path_root, name, zmat, parameter_dictionary):
         "cpus": 1,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": job_boss.get_default_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -1068,14 +1068,14 @@ def prepVibron_calculation(path_root, name, zmat, parameter_dictionary):
         "cpus": 2,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": job_boss.get_default_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobaces",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "vibron",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
@@ -1250,14 +1250,14 @@ def vibron_calculation(path_root, name, zmat, parameter_dictionary):
         "cpus": 1,
         "work_dir": path_root,
         "output": "",
-        "partition": job_boss.partition,
+        "partition": job_boss.get_default_partition(),
         "make_scratch": "",
         "scratch_in": "",
         "scratch_out": "",
         "pre_amble": "jobvibron",
         "job_name": file_name.replace(".in", ""),
         "post_amble": "",
-        "hostname": job_boss.hostname,
+        "hostname": job_boss.get_hostname(),
         "parent_pid": os.getpid(),
     }
 
-- 
2.43.0


From 0354ed472f72d4e043405997286a34fc9784f8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:21 +0000
Subject: [PATCH 38/58] fix: read the % singles that follow the headers

---
 pibronic/vibronic/electronic_structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index fa30ec8..4ebc10f 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -965,13 +965,13 @@ def parse_ip_output(vibron):
 
                 # throw away the header lines
                 past_headers = skip_forward_n_lines(memmap_file, 5, memmap_file.tell())
-                memmap_file.seek(past_headers)
+                memmap_file.seek(past_headers + 1)  # skip the newline character as well
 
                 # store the lines with the relevant information
                 lines = []
                 while True:
                     line = memmap_file.readline().decode(encoding="utf-8")
-                    if(line is "\n" or "--------" in line):
+                    if(line == "\n" or "--------" in line):
                         break
 
                     lines.append(line)
-- 
2.43.0


From e30d4582fd7dce35e227899b154c4e417eb29c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:24 +0000
Subject: [PATCH 39/58] fix: refuse electronic structure outputs that end
 within a table

---
 pibronic/vibronic/electronic_structure.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 4ebc10f..1c6f5c7 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -137,6 +137,18 @@ def rfind_string_in_file(memmap_file, file_path, target_string):
     return location
 
 
+def read_line_in_file(memmap_file, file_path):
+    """wrapper that raises error if there are no more lines, returns the next line of the memory mapped file"""
+    line = memmap_file.readline().decode(encoding="utf-8")
+
+    if line == "":
+        s = ("The file\n\"{:s}\"\nends unexpectedly, "
+             "check that the previous calculation didn't fail"
+             )
+        raise Exception(s.format(file_path))
+    return line
+
+
 def skip_back_n_lines(memmap_file, n, start_index):
     """gives the byte location n lines before the given byte location start_index"""
     for _ in it.repeat(None, n):
@@ -761,7 +773,7 @@ def parse_opt_output(vibron):
 
                 lines = []
                 while True:
-                    line = memmap_file.readline().decode(encoding="utf-8")
+                    line = read_line_in_file(memmap_file, file_path)
                     if line in ["\n", "Frequencies of the updated Hessian at convergence"]:
                         break
 
@@ -790,7 +802,7 @@ def parse_opt_output(vibron):
 
                 lines = []
                 while True:
-                    line = memmap_file.readline().decode(encoding="utf-8")
+                    line = read_line_in_file(memmap_file, file_path)
                     if line in ["\n", "Frequencies of the updated Hessian at convergence"]:
                         break
 
@@ -970,7 +982,7 @@ def parse_ip_output(vibron):
                 # store the lines with the relevant information
                 lines = []
                 while True:
-                    line = memmap_file.readline().decode(encoding="utf-8")
+                    line = read_line_in_file(memmap_file, file_path)
                     if(line == "\n" or "--------" in line):
                         break
 
-- 
2.43.0


From 02ba27e9ad0728d5ff2224550c06c662d7c3a471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:13 +0000
Subject: [PATCH 40/58] fix: sampling weights neither overflow nor underflow at
 low temperatures

---
 pibronic/pimc/pimc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 909a4a5..c3d7560 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -337,11 +337,11 @@ class ModelSampling(ModelClass):
 
     def compute_weight_for_each_state(self):
         """these are the weights for the oscillators associated with each state"""
-        self.state_weight = np.exp(-self.beta * (self.energy + self.delta_weight))
-        # self.state_weight /= 2. * np.prod(np.sinh((self.beta * self.omega) / 2.))
+        exponent = -self.beta * (self.energy + self.delta_weight)
 
-        # we believe the factor of 2 on the outside cancels out in equation 49.
-        self.state_weight /= np.prod(np.sinh((self.beta * self.omega) / 2.))
+        # factors that are common to all states cancel out when normalizing (equation 49)
+        # remove the largest one so that the weights don't overflow or underflow
+        self.state_weight = np.exp(exponent - exponent.max())
 
         # normalize the weights
         self.state_weight /= self.state_weight.sum()
-- 
2.43.0


From b39de4e14e1688f77c4947e2f3bd31dac1e9a161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:43 +0000
Subject: [PATCH 41/58] fix: refuse to re-use a stored matrix that is not
 orthonormal

---
 pibronic/vibronic/vibronic_model_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index 7bc8242..9cefa14 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -829,6 +829,7 @@ def create_fake_coupled_model(FS, tuning_parameter=0.01, transformation_matrix=N
     elif isinstance(U, str) and U == "re-use":
         # if this special flag is provided then we will load a previous orthonormal matrix
         U = np.load(FS.path_ortho_mat)
+        assert np.allclose(U.dot(U.T), np.eye(A)), "matrix is not orthonormal"
     elif isinstance(U, np.ndarray):
         # and finally we might be given the orthonormal matrix
         assert np.allclose(U.dot(U.T), np.eye(A)), "matrix is not orthonormal"
-- 
2.43.0


From 2db982d0ac0ca1d96efad473475b54aaf2c4eb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:28 +0000
Subject: [PATCH 42/58] fix: do not record a vibron calculation that did not
 complete

---
 pibronic/vibronic/electronic_structure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 1c6f5c7..c9e11f9 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1631,6 +1631,7 @@ class VibronExecutionClass:
         """wrapper method"""
         if self.state == State.VIBRON:
             vibron_calculation(self.path_root, self.name, self.zmat, self.parameter_dictionary)
+            parse_vibron_output(self)  # do not record a calculation that did not complete
             self.advance()
         return
 
-- 
2.43.0


From e81274ca1765baadb66232e28b2aa7696a14ab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:30 +0000
Subject: [PATCH 43/58] fix: refuse ionization-potential outputs without any
 state

---
 pibronic/vibronic/electronic_structure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index c9e11f9..7a89081 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -988,6 +988,10 @@ def parse_ip_output(vibron):
 
                     lines.append(line)
 
+                if lines == []:
+                    s = "There are no states in the summary of the file\n\"{:s}\"\nCheck that the calculation didn't fail"
+                    raise Exception(s.format(file_path))
+
                 # extract the relevant information
                 percent_singles = np.array([x.split(maxsplit=5)[4] for x in lines], dtype=float)
                 boolean_array = (percent_singles <= vibron.singles_cutoff).copy()
-- 
2.43.0


From 5e764cd0c916aace2e24ae5abf32941cd0bdf55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:25 +0000
Subject: [PATCH 44/58] fix: do not save the output of Julia calculations that
 failed

---
 pibronic/julia_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/julia_wrapper.py b/pibronic/julia_wrapper.py
index 819d93c..e05fe17 100755
--- a/pibronic/julia_wrapper.py
+++ b/pibronic/julia_wrapper.py
@@ -98,8 +98,8 @@ def compute(command, path_src, old_dict, input_beta):
     (out, error) = p.communicate()
     print(out, error)
 
-    # check to make sure the job wasn't killed
-    if "Killed" in error.decode():
+    # check to make sure the job wasn't killed and didn't fail
+    if p.returncode != 0 or "Killed" in error.decode():
         print(f"We ran into an error: {error.decode():s}")
         return False
 
-- 
2.43.0


From 5bc8242e8c4d4ce641688db13e85fe87652cd0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:31 +0000
Subject: [PATCH 45/58] fix: refuse the output of Julia calculations that
 contains no results

---
 pibronic/julia_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/julia_wrapper.py b/pibronic/julia_wrapper.py
index e05fe17..abbe3fa 100755
--- a/pibronic/julia_wrapper.py
+++ b/pibronic/julia_wrapper.py
@@ -107,7 +107,7 @@ def compute(command, path_src, old_dict, input_beta):
     # print(output_dict)
 
     # check to make sure that we didn't get 0 results
-    if not bool(output_dict):
+    if not any(name in output_dict for name in keyDict.values()):
         print(f"The results dictionary after running Julia code on {path_src} is empty, therefore the calculation did not complete successfully")
         return False
 
-- 
2.43.0


From 777919d43339bb46c0c05568e74f45baaa33d7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:36 +0000
Subject: [PATCH 46/58] fix: quote the paths of models on the command line of
 Julia

---
 pibronic/julia_wrapper.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pibronic/julia_wrapper.py b/pibronic/julia_wrapper.py
index abbe3fa..b3405eb 100755
--- a/pibronic/julia_wrapper.py
+++ b/pibronic/julia_wrapper.py
@@ -3,6 +3,7 @@
 # system imports
 import subprocess
 import argparse
+import shlex
 import json
 import sys
 import os
@@ -177,7 +178,7 @@ def analytic_wrapper(FS, beta, **kwargs):
     """ this wrapper evaluates the given command with the appropriate arguments
     before passing the args to the base_func()
     """
-    kwargs["command"] = kwargs["command"].format(F=kwargs["path_src"], T=beta)
+    kwargs["command"] = kwargs["command"].format(F=shlex.quote(kwargs["path_src"]), T=beta)
     base_func(FS, beta, **kwargs)
     return
 
@@ -216,7 +217,7 @@ def sos_wrapper(FS, basis_size, beta, **kwargs):
     """ this wrapper evaluates the given command with the appropriate arguments
     before passing the args to the base_func()
     """
-    kwargs["command"] = kwargs["command"].format(F=FS.path_vib_model, T=beta, B=basis_size)
+    kwargs["command"] = kwargs["command"].format(F=shlex.quote(FS.path_vib_model), T=beta, B=basis_size)
     base_func(FS, beta, **kwargs)
     return
 
@@ -240,7 +241,7 @@ def trotter_wrapper(FS, nbeads, basis_size, beta, **kwargs):
     """ this wrapper evaluates the given command with the appropriate arguments
     before passing the args to the base_func()
     """
-    kwargs["command"] = kwargs["command"].format(F=FS.path_vib_model, T=beta,
+    kwargs["command"] = kwargs["command"].format(F=shlex.quote(FS.path_vib_model), T=beta,
                                                  B=basis_size, P=nbeads)
     base_func(FS, beta, **kwargs)
     return
@@ -268,8 +269,8 @@ def iterate_method(FS, n_iterations=50):
     path_iterate = FS.path_iter_model
 
     command = construct_command_dictionary()["iterative"]
-    command = command.format(F=FS.path_vib_model, P=path_iterate,
-                             VS=FS.path_iter_mat, N=n_iterations,
+    command = command.format(F=shlex.quote(FS.path_vib_model), P=shlex.quote(path_iterate),
+                             VS=shlex.quote(FS.path_iter_mat), N=n_iterations,
                              )
     # print("command", command)
 
-- 
2.43.0


From d00269ec0c0ee06089797b6f8b6393fe3512e03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:54 +0000
Subject: [PATCH 47/58] fix: the LaTeX preamble of the plots is a string

---
 pibronic/plotting/prepare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/plotting/prepare.py b/pibronic/plotting/prepare.py
index 0d90caa..1e7903b 100644
--- a/pibronic/plotting/prepare.py
+++ b/pibronic/plotting/prepare.py
@@ -26,7 +26,7 @@ def prepare_mpl_rc_file(pretty_but_slow=False):
         # mpl.rc('font', **{'family': 'serif', 'serif': ['Palatino']})
     mpl.rc('text', usetex=True)  # using LaTeX
     # we need to load the amsmath package to use the \text{} command
-    mpl.rcParams['text.latex.preamble'] = [r'\usepackage{amsmath}']
+    mpl.rcParams['text.latex.preamble'] = r'\usepackage{amsmath}'
     return
 
 
-- 
2.43.0


From 88892321fb253f59fa289b9cdf7c5c81f6c18b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:24 +0000
Subject: [PATCH 48/58] fix: load_sos() refuses missing files instead of
 showing the values of another data set

---
 pibronic/plotting/plotting.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index 2d8d1d9..0103485 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -3,7 +3,6 @@
 
 # system imports
 import json
-import os
 from os.path import join
 
 # third party imports
@@ -66,9 +65,8 @@ def load_sos(self, basis_size=80):
     for idx_FS, FS in enumerate(self.FS_lst):
         path = FS.template_sos_vib.format(B=basis_size)
 
-        if os.path.isfile(path):
-            with open(path, 'r') as file:
-                data = json.loads(file.read())
+        with open(path, 'r') as file:
+            data = json.loads(file.read())
 
         for T in self.lst_T[idx_FS]:
             self.sos_list[idx_FS][f"{T:.2f}"] = data[f"{T:.2f}"]
-- 
2.43.0


From f48f797f2d499b9bdd19ceba6227266698467bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:30 +0000
Subject: [PATCH 49/58] fix: plot_Cv() calls the function that generates the
 tau values

---
 pibronic/plotting/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index 0103485..d030074 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -1097,7 +1097,7 @@ class plot_Z_test(plotVirtual):
         # print Cv values
         for T in self.lst_T[idx_FS]:
             idx_T = self.lst_T[idx_FS].index(T)
-            tau_values = self.generate_tau_values(T)
+            tau_values = generate_tau_values(self, T, idx_FS)
             for X in self.lst_X[idx_FS]:
                 idx_X = self.lst_X[idx_FS].index(X)
 
-- 
2.43.0


From 6266fe93ff08c5a0b6f25a0d5c51b8cb1f19349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:30 +0000
Subject: [PATCH 50/58] fix: keep a signal that arrives just before the wait
 for it

---
 pibronic/server/job_boss.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 4fc8352..2046f3f 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -110,14 +110,20 @@ def synchronize_with_job(id_job, job_type="default"):
     out, error_state = check_running_state(id_job)
     if error_state == '':
         log.lock("About to Enter critical section")
-        with job_state_lock:
-            if not job_almost_done_flag:
-                # wait for the signal or the alarm
-                log.lock(f"Waiting on \'{job_type:s}\' job (id={id_job:})")
-                signal.sigwait([signal.SIGUSR1, signal.SIGALRM])
-                log.lock("Woke up")
-
-            log.lock("About to leave the critical section")
+        # block the signals, so that one which arrives after the flag was tested is kept for sigwait()
+        wake_up_signals = [signal.SIGUSR1, signal.SIGALRM]
+        old_mask = signal.pthread_sigmask(signal.SIG_BLOCK, wake_up_signals)
+        try:
+            with job_state_lock:
+                if not job_almost_done_flag:
+                    # wait for the signal or the alarm
+                    log.lock(f"Waiting on \'{job_type:s}\' job (id={id_job:})")
+                    signal.sigwait(wake_up_signals)
+                    log.lock("Woke up")
+
+                log.lock("About to leave the critical section")
+        finally:
+            signal.pthread_sigmask(signal.SIG_SETMASK, old_mask)
     else:
         raise Exception(f"Undefined behaviour, the job state was:\n {error_state:s}")
 
-- 
2.43.0


From 58df1db0bcd17a33dac3d2e0fe226dc88f16b70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:22 +0000
Subject: [PATCH 51/58] fix: generate_full_monotonic_sequence_for_plotting()
 passes the order to generate_and_save_x_pairs()

---
 pibronic/vibronic/orthonormal/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/orthonormal/sequences.py b/pibronic/vibronic/orthonormal/sequences.py
index 9cb1338..a3956a1 100755
--- a/pibronic/vibronic/orthonormal/sequences.py
+++ b/pibronic/vibronic/orthonormal/sequences.py
@@ -322,7 +322,7 @@ def generate_full_monotonic_sequence_for_plotting(order):
     p_list = list_of_turning_points(SKSM, identity)
 
     # first we generate the x pairs and save them to a file
-    x_pairs = generate_and_save_x_pairs(p_list)
+    x_pairs = generate_and_save_x_pairs(order, p_list)
     max_x = p_list[-1].x
 
     diff = difference_function(SKSM, identity)
-- 
2.43.0


From 271592e1c1ae74d5b5aef67389e501ec879c21dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:47 +0000
Subject: [PATCH 52/58] fix: keep the turning points aligned with their x
 values

---
 pibronic/vibronic/orthonormal/sequences.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pibronic/vibronic/orthonormal/sequences.py b/pibronic/vibronic/orthonormal/sequences.py
index a3956a1..c005202 100755
--- a/pibronic/vibronic/orthonormal/sequences.py
+++ b/pibronic/vibronic/orthonormal/sequences.py
@@ -366,7 +366,8 @@ def generate_turning_point_sequence_for_plotting(order):
         if len(p_list) > 0 and np.isclose(x, p_list[0].x):
             turning_points.append(p_list[0].y)
             del p_list[0]
-        turning_points.append(None)
+        else:
+            turning_points.append(None)
 
     diff = difference_function(SKSM, identity)
     frobenius_norm = partial(norm, ord='fro')
-- 
2.43.0


From ac26c4de02b125f84b4114583235feeeed3cab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:06 +0000
Subject: [PATCH 53/58] fix: data for plots does not replace the sequences that
 the matrices are made from

---
 pibronic/vibronic/orthonormal/sequences.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pibronic/vibronic/orthonormal/sequences.py b/pibronic/vibronic/orthonormal/sequences.py
index c005202..40cb64d 100755
--- a/pibronic/vibronic/orthonormal/sequences.py
+++ b/pibronic/vibronic/orthonormal/sequences.py
@@ -75,6 +75,7 @@ from scipy.linalg import expm
 
 sequence_filename = "sequence_{:d}.data"
 x_pair_filename = "sequence_{:d}.pairs"
+plot_filename = "sequence_{:d}_{:s}.plot"
 minimum_length_of_sequence = 50  # this is a guess at the moment
 
 # all functions share the same constants and therefore we can load sequences reliably
@@ -114,6 +115,14 @@ def path_to_sequence_file(order):
     return path
 
 
+def path_to_plot_file(order, name):
+    """ returns the path to a file with data that is only used for plotting, associated with the order argument"""
+    dir_root = dirname(realpath(__file__))
+    assert exists(dir_root), f"module path {dir_root:s} does not exist!?!?"
+    path = join(dir_root, plot_filename.format(order, name))
+    return path
+
+
 def load_sequence(order, delimiter=","):
     """ returns a list of [y, x] pairs (which are length 2 lists)
     throws an assert error if the file does not exist
@@ -124,12 +133,13 @@ def load_sequence(order, delimiter=","):
     return sequence.tolist()
 
 
-def save_sequence(order, sequence, fmt="%.18e", delimiter=", "):
+def save_sequence(order, sequence, fmt="%.18e", delimiter=", ", path=None):
     """ saves a list of iterables, commonly they are length 2 and contain floats, but the fmt parameter can be changed for flexibility
     pickles them to a file named using the string sequence_filename, in the directory that
-    this module is located in"""
+    this module is located in, unless another path is provided"""
     check_minimum_length_of_sequence(sequence)
-    np.savetxt(path_to_sequence_file(order), sequence, fmt=fmt, delimiter=delimiter)
+    path = path_to_sequence_file(order) if path is None else path
+    np.savetxt(path, sequence, fmt=fmt, delimiter=delimiter)
     return
 
 
@@ -350,7 +360,7 @@ def generate_full_monotonic_sequence_for_plotting(order):
                 x,
                 ) for idx, x in enumerate(np.linspace(0., max_x, n_bins))]
 
-    save_sequence(order, sequence, fmt="%.18e, %s, %.18e")
+    save_sequence(order, sequence, fmt="%.18e, %s, %.18e", path=path_to_plot_file(order, "full"))
     return
 
 
@@ -378,7 +388,7 @@ def generate_turning_point_sequence_for_plotting(order):
                 x,
                 ) for idx, x in enumerate(np.linspace(*linspace_dims))]
 
-    save_sequence(order, sequence, fmt="%.18e, %s, %.18e")
+    save_sequence(order, sequence, fmt="%.18e, %s, %.18e", path=path_to_plot_file(order, "turning_points"))
     return
 
 
@@ -405,7 +415,7 @@ def generate_sequences_for_plotting(order):
                 x,
                 ) for x in np.linspace(*linspace_dims)]
 
-    save_sequence(order, sequence, fmt="%.18e, %.18e, %.18e, %.18e")
+    save_sequence(order, sequence, fmt="%.18e, %.18e, %.18e, %.18e", path=path_to_plot_file(order, "norms"))
 
     return
 
-- 
2.43.0


From db9e8aeac71c3703ef086d25199d84af95018f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:33 +0000
Subject: [PATCH 54/58] fix: don't lose the turning points that follow two with
 the same x value

---
 pibronic/vibronic/orthonormal/sequences.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pibronic/vibronic/orthonormal/sequences.py b/pibronic/vibronic/orthonormal/sequences.py
index 40cb64d..08b7f5e 100755
--- a/pibronic/vibronic/orthonormal/sequences.py
+++ b/pibronic/vibronic/orthonormal/sequences.py
@@ -373,11 +373,12 @@ def generate_turning_point_sequence_for_plotting(order):
     turning_points = []
 
     for x in np.linspace(*linspace_dims):
-        if len(p_list) > 0 and np.isclose(x, p_list[0].x):
-            turning_points.append(p_list[0].y)
+        y = None
+        # two turning points can have the same x value
+        while len(p_list) > 0 and np.isclose(x, p_list[0].x):
+            y = p_list[0].y
             del p_list[0]
-        else:
-            turning_points.append(None)
+        turning_points.append(y)
 
     diff = difference_function(SKSM, identity)
     frobenius_norm = partial(norm, ord='fro')
-- 
2.43.0


From a9af605b042c7bd8b8d5f85b3e530bf6940fee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 55/58] fix: electronic structure jobs start in their own data
 set's directory, and resume by default

---
 pibronic/vibronic/electronic_structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 7a89081..0282b76 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1670,7 +1670,7 @@ class VibronExecutionClass:
         return
 
 
-def test_one(molecule_name="ch2o", inital_job_state=0):
+def test_one(molecule_name="ch2o", inital_job_state=None):
     """runs the job in the current directory stores results in folder named by the molecule"""
 
     # create execution directory
@@ -1685,11 +1685,11 @@ def test_one(molecule_name="ch2o", inital_job_state=0):
 
 # need a better naming - distinguishing scheme between
 # build_vibronic_model and calculate_vibronic_model
-def calculate_vibronic_model_wrapper_one(data_set_num, molecule_name="ch2o", inital_job_state=0):
+def calculate_vibronic_model_wrapper_one(data_set_num, molecule_name="ch2o", inital_job_state=None):
     """executes jobs using exists data_set_# file structure"""
 
     # create execution directory
-    path_root = '/work/ngraymon/pimc/data_set_{:d}/electronic_structure/'
+    path_root = '/work/ngraymon/pimc/data_set_{:d}/electronic_structure/'.format(data_set_num)
     os.makedirs(path_root,  exist_ok=True)
 
     job = VibronExecutionClass(molecule_name, path_root, inital_job_state)
-- 
2.43.0


From 7d29ba32d8fd8ad73b420652e29a8282941bdf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 56/58] fix: jackknife terms don't lose all digits when one
 sample carries nearly all of the weight

---
 pibronic/stats/jackknife.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/pibronic/stats/jackknife.py b/pibronic/stats/jackknife.py
index 338c7ff..d007efc 100755
--- a/pibronic/stats/jackknife.py
+++ b/pibronic/stats/jackknife.py
@@ -11,27 +11,32 @@ from ..constants import boltzman
 import numpy as np
 
 
+def leave_one_out_sums(array):
+    """returns for each element the sum of all the other elements"""
+    # subtract each term from the full sum
+    sums = np.sum(array) - array
+
+    # when one term is (nearly) all of the sum then the difference would be nothing but rounding error
+    size = np.abs(array)
+    largest = np.argmax(size)
+    if size[largest] > 0.9 * np.sum(size):
+        sums[largest] = np.sum(np.delete(array, largest))
+
+    return sums
+
+
 def calculate_alpha_jackknife_terms(*args):
     """x"""
     # LN is ratio_plus == (g_plus / rho)
     # RN is ratio_minus == (g_minus / rho)
     X, delta_beta, ratio, LN, alpha_plus, RN, alpha_minus = args
 
-    # first start with the full sum
-    jk_ratio = np.full(shape=X, fill_value=np.sum(ratio))
-
     # only this needs special handling
-    jk_LN = np.full(shape=X, fill_value=np.sum(LN))
-    # jk_LD = np.full(shape=X, fill_value=np.sum(LD))
-    jk_RN = np.full(shape=X, fill_value=np.sum(RN))
-    # jk_RD = np.full(shape=X, fill_value=np.sum(RD))
-
-    # now subtract each term from the sum
-    jk_ratio -= ratio
-    jk_LN -= LN
-    # jk_LD -= LD
-    jk_RN -= RN
-    # jk_RD -= RD
+    jk_ratio = leave_one_out_sums(ratio)
+    jk_LN = leave_one_out_sums(LN)
+    # jk_LD = leave_one_out_sums(LD)
+    jk_RN = leave_one_out_sums(RN)
+    # jk_RD = leave_one_out_sums(RD)
 
     # pre normalize
     jk_ratio /= (X - 1)
@@ -60,10 +65,8 @@ def calculate_alpha_jackknife_terms(*args):
 def calculate_jackknife_term(length, array):
     """calculate the jackknife term for a given array"""
 
-    # start with the full sum
-    jk_term = np.full(shape=length, fill_value=np.sum(array))
     # subtract each term from the sum
-    jk_term -= array
+    jk_term = leave_one_out_sums(array)
     # normalize
     jk_term /= (length - 1)
 
-- 
2.43.0


From 015b5fc245a36528dfc4f0ee9b295560c9613b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:26 +0000
Subject: [PATCH 57/58] fix: keep the results of reference calculations that
 run at the same time, and the old ones if saving fails

---
 pibronic/julia_wrapper.py | 50 ++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/pibronic/julia_wrapper.py b/pibronic/julia_wrapper.py
index b3405eb..f9bcc07 100755
--- a/pibronic/julia_wrapper.py
+++ b/pibronic/julia_wrapper.py
@@ -1,9 +1,11 @@
 #!python3
 
 # system imports
+import contextlib
 import subprocess
 import argparse
 import shlex
+import fcntl
 import json
 import sys
 import os
@@ -152,24 +154,50 @@ def validate_old_model_data(old_dict, FS):
     return
 
 
+def read_old_data(path):
+    """ returns the dictionary stored in the file at path, which is empty if there is no (or an empty) file """
+    if isfile(path):
+        with open(path, 'r') as file:
+            data = file.read()
+            if len(data) > 1:
+                return json.loads(data)
+    return {}
+
+
+@contextlib.contextmanager
+def exclusive_access(path):
+    """ only one process at a time may be inside of this context for a given path
+    calculations for different temperatures run at the same time and store their results in the same file
+    """
+    with open(path + ".lock", 'a') as lock_file:
+        fcntl.flock(lock_file, fcntl.LOCK_EX)
+        try:
+            yield
+        finally:
+            fcntl.flock(lock_file, fcntl.LOCK_UN)
+
+
 def base_func(FS, beta, path_dst=None, path_src=None, validate=None, command=None):
 
-    old_dict = {}
+    # don't start a long calculation if its results can't be merged with the old ones
+    read_old_data(path_dst)
 
-    if isfile(path_dst):
-        with open(path_dst, 'r') as file:
-            data = file.read()
-            if len(data) > 1:
-                old_dict = json.loads(data)
+    new_dict = {}
 
-    validate(old_dict, FS)
+    if not compute(command, path_src, new_dict, beta):
+        raise Exception("Calculation did not complete successfully")
 
-    if compute(command, path_src, old_dict, beta):
+    with exclusive_access(path_dst):
+        # merge with the results that are stored now, more might have been added during the calculation
+        old_dict = read_old_data(path_dst)
         validate(old_dict, FS)
-        with open(path_dst, 'w') as file:
+        old_dict.update(new_dict)
+
+        # replace the file in one step so that the old results are kept if writing fails
+        path_tmp = path_dst + ".tmp"
+        with open(path_tmp, 'w') as file:
             json.dump(old_dict, file)
-    else:
-        raise Exception("Calculation did not complete successfully")
+        os.replace(path_tmp, path_dst)
 
     return
 
-- 
2.43.0


From 0042f4067c509cd565b20a479cb199794991cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 58/58] fix: do not accept an iterative decomposition that
 failed or was killed

---
 pibronic/julia_wrapper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pibronic/julia_wrapper.py b/pibronic/julia_wrapper.py
index f9bcc07..727967b 100755
--- a/pibronic/julia_wrapper.py
+++ b/pibronic/julia_wrapper.py
@@ -307,8 +307,11 @@ def iterate_method(FS, n_iterations=50):
     # print(out.decode())
     # print(error.decode())
 
-    # we assume there were no issues!
-    # TODO - this should be fixed after the iterative method has been finalized
+    # check to make sure the job wasn't killed and didn't fail
+    if p.returncode != 0 or "Killed" in error.decode():
+        raise Exception(f"Calculation did not complete successfully\n{error.decode():s}")
+
+    # TODO - the output should be inspected after the iterative method has been finalized
     return
 
 
-- 
2.43.0

