From b85de0741f6d09a312bf51dd3a4658887f2e13a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:08 +0000
Subject: [PATCH 01/21] fix: pass the thresholds to the parallel truncated
 Gamma CDF

wrapper_truncgamma_cdf evaluated the CDF at the literal list [3] instead of
the slice of thresholds, so any worker count above one gave wrong
probabilities.
---
 PyAnEn/utils_dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 06c57e5..dafb20e 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -52,7 +52,7 @@ def wrapper_gamma_cdf(x):
 def wrapper_truncgamma_rvs(x, n_sample_members):
     return truncgamma_gen()(a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
 def wrapper_truncgamma_cdf(x):
-    return truncgamma_gen().cdf(x=[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
+    return truncgamma_gen().cdf(x=x[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
 
 def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
-- 
2.43.0


From 3e1ee9514f362a6f7ebc05ccf3697692c438acc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:21 +0000
Subject: [PATCH 02/21] fix: never leave a partially written intermediate file

Verify._save wrote the pickle in place. A run that was killed, ran out of disk
space or had a worker killed while saving left a truncated file, and every
later run reusing the working directory failed on loading it.
---
 PyAnEn/Verify.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index d754b91..8e18e67 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -12,6 +12,7 @@
 #
 
 import os
+import uuid
 import shutil
 import pickle
 
@@ -230,8 +231,21 @@ class Verify:
     def _save(self, name, arr):
         if self.working_directory and isinstance(name, str):
             path = os.path.join(self.working_directory, name + '.pkl')
-            with open(path, 'wb') as f:
-                pickle.dump(arr, f)
+            
+            # Write to a private file and then rename it. If the process is interrupted,
+            # a partially written file will not be mistaken for saved data.
+            #
+            tmp_path = os.path.join(self.working_directory, uuid.uuid4().hex + '.tmp')
+            
+            try:
+                with open(tmp_path, 'wb') as f:
+                    pickle.dump(arr, f)
+                
+                os.replace(tmp_path, path)
+            
+            except BaseException:
+                if os.path.exists(tmp_path): os.remove(tmp_path)
+                raise
         
     def _load(self, name):
         if self.working_directory and isinstance(name, str):
-- 
2.43.0


From 1cbd4a5f55b9798073d3de18b6325416dcefe541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:54 +0000
Subject: [PATCH 03/21] fix: do not reuse saved data aggregated over a
 different axis

IOU, reliability, spread-skill (and correlation and Brier decomposition when a
save name is given) save data that already depend on avg_axis, and the last two
on boot_samples, but the saved entry was named without them. After changing the
averaging axis, data of the old axis were returned.
---
 PyAnEn/Verify.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 8e18e67..639472d 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -60,16 +60,16 @@ class Verify:
     # Metric Methods #
     ##################
     
-    def corr(self, save_name=None): return self._metric_workflow_1(self.to_name(save_name), self._corr)
-    def brier_decomp(self, over=None, below=None, save_name=None): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._brier_decomp, over=over, below=below)
+    def corr(self, save_name=None): return self._metric_workflow_1(self.to_name(save_name, axis=self.avg_axis, boot=self.boot_samples), self._corr)
+    def brier_decomp(self, over=None, below=None, save_name=None): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, axis=self.avg_axis, boot=self.boot_samples), self._brier_decomp, over=over, below=below)
     
     def rank_hist(self, save_name='rank'): return self._metric_workflow_1(self.to_name(save_name), self._rank_hist)
     def variance(self, save_name='variance'): return self._metric_workflow_1(self.to_name(save_name), self._variance)
     def f_determ(self, save_name='f_determ'): return self._metric_workflow_1(self.to_name(save_name), self._f_determ)
     def roc(self, over=None, below=None, save_name='roc'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._roc, over=over, below=below)
     def sharpness(self, over=None, below=None, save_name='sharpness'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._sharpness, over=over, below=below)
-    def iou_determ(self, over=None, below=None, save_name='iou_determ'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._iou_determ, over=over, below=below)
-    def iou_prob(self, over=None, below=None, save_name='iou_prob'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._iou_prob, over=over, below=below)
+    def iou_determ(self, over=None, below=None, save_name='iou_determ'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, axis=self.avg_axis), self._iou_determ, over=over, below=below)
+    def iou_prob(self, over=None, below=None, save_name='iou_prob'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, axis=self.avg_axis), self._iou_prob, over=over, below=below)
     def cdf(self, over=None, below=None, save_name='cdf'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._cdf, over=over, below=below)
 
     def crps(self, save_name='crps'): return self._metric_workflow_2(self.to_name(save_name), self._crps)
@@ -79,8 +79,8 @@ class Verify:
     def ab_error(self, save_name='ab_error'): return self._metric_workflow_2(self.to_name(save_name), self._ab_error)
     def brier(self, over=None, below=None, save_name='brier'): return self._metric_workflow_2(self.to_name(save_name, over=over, below=below), self._brier, over=over, below=below)
     
-    def reliability(self, nbins=15, over=None, below=None, save_name='rel'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, over=over, below=below), self._reliability, self.post_reliability, nbins=nbins, over=over, below=below)
-    def binned_spread_skill(self, nbins=15, save_name='ss'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins), self._binned_spread_skill, self.post_binned_spread_skill, nbins=nbins)
+    def reliability(self, nbins=15, over=None, below=None, save_name='rel'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, over=over, below=below, axis=self.avg_axis), self._reliability, self.post_reliability, nbins=nbins, over=over, below=below)
+    def binned_spread_skill(self, nbins=15, save_name='ss'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, axis=self.avg_axis), self._binned_spread_skill, self.post_binned_spread_skill, nbins=nbins)
 
     def rmse(self, save_name='sq_error'): return np.sqrt(self.sq_error(save_name=save_name))
     
-- 
2.43.0


From d755f303039aac8112ca5b34438e2a462aa765b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:32 +0000
Subject: [PATCH 04/21] fix: name saved data after the exact values of array
 arguments

Array thresholds were put into the name of the saved entry with the digits that
numpy prints, so that different thresholds shared one entry. Arrays inside a
tuple (iou_prob) were not counted towards the size limit, which could also
exceed the maximum length of a file name.
---
 PyAnEn/Verify.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 639472d..7145562 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -152,11 +152,8 @@ class Verify:
         strs = {}
         
         for k, v in kwargs.items():
-            if hasattr(v, '__len__'):
-                if isinstance(v, np.ndarray) and len(v.ravel()) > 5: return None
-                elif len(v) > 5: return None
-                
-            strs[k] = str(v).replace(' ', '_')
+            if Verify._n_values(v) > 5: return None
+            strs[k] = str(Verify._to_exact(v)).replace(' ', '_')
         
         return '_'.join([save_name] + ['{}_{}'.format(k, v) for k, v in strs.items()])
     
@@ -290,6 +287,19 @@ class Verify:
         
         return msg
     
+    @staticmethod
+    def _n_values(obj):
+        if isinstance(obj, np.ndarray): return obj.size
+        if isinstance(obj, (list, tuple)): return sum(Verify._n_values(i) for i in obj)
+        return len(obj) if hasattr(obj, '__len__') else 1
+    
+    @staticmethod
+    def _to_exact(obj):
+        # Arrays are printed with a limited number of digits while lists are printed exactly
+        if isinstance(obj, np.ndarray): return obj.tolist()
+        if isinstance(obj, (list, tuple)): return type(obj)(Verify._to_exact(i) for i in obj)
+        return obj
+    
     @staticmethod
     def _format(obj, indent=''):
         if not hasattr(obj, "__len__"):
-- 
2.43.0


From bea9e248a88fb3f484a80d627b0f1eb39ade448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:05 +0000
Subject: [PATCH 05/21] fix: give every memory-mapped integration its own
 scratch file

All integrations in one directory used the same file name. Runs sharing the
directory overwrote each other's rows, truncated a file mapped by another
process (bus error) or removed it while it was in use.
---
 PyAnEn/utils_approximation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index a61500e..b7fd0a0 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -16,6 +16,7 @@
 
 import os
 import ray
+import uuid
 
 import numpy as np
 
@@ -233,7 +234,8 @@ class Integration:
     
     def _initialize_memmap(self, memmap_shape):
         if self.less_memory:
-            self.memmap_arr_str = os.path.join(self.memmap_dir, '__pyanen_numerical_integration__.dat')
+            # The file name is unique so that integrations running at the same time do not share the file
+            self.memmap_arr_str = os.path.join(self.memmap_dir, '__pyanen_numerical_integration__{}.dat'.format(uuid.uuid4().hex))
             self.memmap_shape = memmap_shape
             
             self.memmap_arr_w = np.memmap(
-- 
2.43.0


From a77857509190ea5fd61227bb86c2b9c0e9c6c77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:26 +0000
Subject: [PATCH 06/21] fix: clean up after a failed or interrupted integration
 and leave the user's cluster running

---
 PyAnEn/utils_approximation.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index b7fd0a0..73c82ed 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -108,7 +108,6 @@ class Integration:
             if not self.less_memory: brier = np.array([i[1] for i in brier])
             
         else:
-            ray.init(num_cpus=self.cores)
             shared_verifier = ray.put(self.verifier)
             ray_wrapper = ray.remote(wrapper_brier)
             brier = [ray_wrapper.remote(i, verifier=shared_verifier, less_memory=self.less_memory,
@@ -124,7 +123,6 @@ class Integration:
                 brier = brier_ordered
             
             brier = np.array(brier)
-            ray.shutdown()
         
         # Calculate difference
         dx = (self.seq_x[1:] - self.seq_x[:-1]).reshape(self.nbins - 1, *(len(self.verifier.o.shape) * [1]))
@@ -147,14 +145,12 @@ class Integration:
             if not self.less_memory: cdf = np.array([i[1] for i in cdf])
             
         else:
-            ray.init(num_cpus=self.cores)
             shared_verifier = ray.put(self.verifier)
             ray_wrapper = ray.remote(wrapper_cdf)
             cdf = [ray_wrapper.remote(i, verifier=shared_verifier, less_memory=self.less_memory,
                                       memmap_arr_str=self.memmap_arr_str, memmap_shape=self.memmap_shape,
                                       memmap_dtype=self.memmap_dtype) for i in enumerate(self.seq_x)]
             cdf = [x for x in tqdm(_ray_to_iterator(cdf), **self.pbar_kws, desc=desc, total=self.nbins)]
-            ray.shutdown()
             
             if not self.less_memory:
                 cdf_ordered = [None] * len(cdf)
@@ -186,7 +182,6 @@ class Integration:
             if not self.less_memory: cdf = np.array([i[1] for i in cdf])
             
         else: 
-            ray.init(num_cpus=self.cores)
             shared_verifier = ray.put(self.verifier)
             ray_wrapper = ray.remote(wrapper_cdf)
             cdf = [ray_wrapper.remote(i, verifier=shared_verifier, less_memory=self.less_memory,
@@ -201,7 +196,6 @@ class Integration:
                 cdf = cdf_ordered
                 
             cdf = np.array(cdf)
-            ray.shutdown()
         
         # Calculate difference
         x = self.seq_x.reshape(self.nbins, *(len(self.verifier.o.shape) * [1]))
@@ -224,13 +218,23 @@ class Integration:
     
     def _workflow(self, func):
         
+        # A cluster that is already running will be used and left running
+        own_cluster = self.cores != 1 and not ray.is_initialized()
+        
         self._suppress_sublevel_tqdm()
-        self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
-        ret = func()
-        self._finalize_memmap()
-        self._resume_sublevel_tqdm()
         
-        return ret
+        try:
+            self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
+            if own_cluster: ray.init(num_cpus=self.cores)
+            return func()
+        
+        finally:
+            # Also clean up if the integration fails or is interrupted
+            try:
+                if own_cluster: ray.shutdown()
+                self._finalize_memmap()
+            finally:
+                self._resume_sublevel_tqdm()
     
     def _initialize_memmap(self, memmap_shape):
         if self.less_memory:
@@ -249,10 +253,11 @@ class Integration:
                 dtype=self.memmap_dtype, mode='readonly') if self.less_memory else None
     
     def _finalize_memmap(self):
-        if self.less_memory:
-            del self.memmap_arr_r
+        if self.less_memory and self.memmap_arr_str is not None:
+            self.memmap_arr_r = None
             
-            os.remove(self.memmap_arr_str)
+            if os.path.exists(self.memmap_arr_str):
+                os.remove(self.memmap_arr_str)
             
             self.memmap_arr_str = None
             self.memmap_shape = None
-- 
2.43.0


From 4105986c52f7355d183bbb3b0d6e0ca412668d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:25 +0000
Subject: [PATCH 07/21] fix: allow several processes to create the working
 directory

---
 PyAnEn/Verify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 7145562..c542a26 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -205,7 +205,8 @@ class Verify:
                     shutil.rmtree(self.working_directory)
                     os.makedirs(self.working_directory)
             else:
-                os.makedirs(self.working_directory)
+                # Another process might be creating the same directory
+                os.makedirs(self.working_directory, exist_ok=True)
     
     def _validate_boot_samples(self):
         if self.boot_samples is not None:
-- 
2.43.0


From 1a16613828bc6e2e0c7025fc8576e541663e2d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:28 +0000
Subject: [PATCH 08/21] fix: never leave a partially written grid matrix

---
 PyAnEn/Grid.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/PyAnEn/Grid.py b/PyAnEn/Grid.py
index 05fb50f..54623bd 100644
--- a/PyAnEn/Grid.py
+++ b/PyAnEn/Grid.py
@@ -1,4 +1,5 @@
 import os
+import uuid
 import warnings
 
 import numpy as np
@@ -44,16 +45,32 @@ def write_matrix(file, mat, overwrite=False):
     if np.count_nonzero(np.isnan(mat)) != 0:
         warnings.warn('Having NAN in the grid matrix is discouraged!')
     
-    with open(file, 'w') as out_file:
-        
-        # Write dimension info
-        meta_info = '[{}, {}]\n'.format(mat.shape[0], mat.shape[1])
-        out_file.write(meta_info)
+    # Write to a private file next to the output first and then move it to its final place.
+    # The output will never be partially written even if the process is interrupted.
+    #
+    file = os.path.realpath(file)
+    tmp_file = '{}.{}.tmp'.format(file, uuid.uuid4().hex)
+    
+    try:
+        with open(tmp_file, 'w') as out_file:
+            
+            # Write dimension info
+            meta_info = '[{}, {}]\n'.format(mat.shape[0], mat.shape[1])
+            out_file.write(meta_info)
+            
+            # Write matrix
+            out_file.write('(\n')
+            out_file.writelines(['({}),\n'.format(', '.join(
+                ['nan' if np.isnan(e) else str(e) for e in mat[i_row]])) for i_row in range(mat.shape[0])])
+            out_file.write(')')
         
-        # Write matrix
-        out_file.write('(\n')
-        out_file.writelines(['({}),\n'.format(', '.join(
-            ['nan' if np.isnan(e) else str(e) for e in mat[i_row]])) for i_row in range(mat.shape[0])])
-        out_file.write(')')
+        if overwrite:
+            os.replace(tmp_file, file)
+        else:
+            # This fails if the file has been created in the meantime
+            os.link(tmp_file, file)
+    
+    finally:
+        if os.path.exists(tmp_file): os.remove(tmp_file)
     
     return True
-- 
2.43.0


From ac2eb4a1e8d394a7abd3c7db8c4fffc4accceae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:18 +0000
Subject: [PATCH 09/21] fix: apply a new ensemble axis or collapse function to
 the deterministic forecast

---
 PyAnEn/VerifyEnsemble.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyAnEn/VerifyEnsemble.py b/PyAnEn/VerifyEnsemble.py
index 4a32bda..751abac 100644
--- a/PyAnEn/VerifyEnsemble.py
+++ b/PyAnEn/VerifyEnsemble.py
@@ -55,11 +55,13 @@ class VerifyEnsemble(Verify):
     def set_ensemble_axis(self, axis):
         self.ensemble_axis = axis
         self._validate()
+        self._collapse_ensembles()
         return self
     
     def set_collapse_func(self, func):
         self.ensemble_collapse_func = func
         self._validate()
+        self._collapse_ensembles()
         return self
     
     ###################
-- 
2.43.0


From d49e1ab583cfa4ead549db12c4bc41e0fa8fdbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:51 +0000
Subject: [PATCH 10/21] fix: do not sort the arrays of the caller when binning
 spread and skill

---
 PyAnEn/utils_ss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 7d0505a..bb811bd 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -64,8 +64,10 @@ def _binned_spread_skill_create_split(variance, sq_error, nbins, sample_axis):
     shape_to_keep = variance.shape[to_axis:]
     
     # Flatten the sample dimensions and the kept dimensions separately
-    variance = variance.reshape(-1, np.prod(shape_to_keep).astype(int))
-    sq_error = sq_error.reshape(-1, np.prod(shape_to_keep).astype(int))
+    # Copy the arrays because the following sort should not change the input
+    #
+    variance = variance.reshape(-1, np.prod(shape_to_keep).astype(int)).copy()
+    sq_error = sq_error.reshape(-1, np.prod(shape_to_keep).astype(int)).copy()
     
     # Sort arrays based on variance 
     for i in range(variance.shape[1]):
-- 
2.43.0


From d53b2c4fbd3eaff6310ae03db4db82e8780cbd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:11 +0000
Subject: [PATCH 11/21] fix: use the axis of the sampled members for spread and
 rank histogram

---
 PyAnEn/VerifyProb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyAnEn/VerifyProb.py b/PyAnEn/VerifyProb.py
index 749eae1..47a9425 100644
--- a/PyAnEn/VerifyProb.py
+++ b/PyAnEn/VerifyProb.py
@@ -103,14 +103,15 @@ class VerifyProb(Verify):
         
         else:
             # Use random sampling
-            return rank_histogram(f=self.prob_to_ens(), o=self.o, ensemble_axis=-1)
+            return rank_histogram(f=self.prob_to_ens(), o=self.o, ensemble_axis=self.move_sampled_ens_axis)
     
     def _spread(self):
         ens = self.prob_to_ens()
+        axis = self.move_sampled_ens_axis
         if util.strtobool(os.environ['pyanen_skip_nan']):
-            return np.nanmax(ens, axis=-1) - np.nanmin(ens, axis=-1)
+            return np.nanmax(ens, axis=axis) - np.nanmin(ens, axis=axis)
         else:
-            return np.max(ens, axis=-1) - np.min(ens, axis=-1)
+            return np.max(ens, axis=axis) - np.min(ens, axis=axis)
     
     def _brier(self, over, below):
         brier = self.cdf(over=over, below=below) - binarize_obs(self.o, over=over, below=below)
-- 
2.43.0


From d14ea4100824c33c5cd1497571155b7234800bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:30 +0000
Subject: [PATCH 12/21] fix: draw independent random numbers in worker
 processes when sampling members

---
 PyAnEn/utils_dist.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index dafb20e..bfd107a 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -44,6 +44,18 @@ def _parallel_process(wrapper, iterable, total, name=''):
     return np.concatenate(ens, axis=parallelize_axis)
 
 
+def _seed_slices(iterable, total):
+    # Worker processes do not have their own random numbers. For example, forked processes all start with
+    # a copy of the random state from the parent. Therefore, each slice comes with a seed from the parent.
+    #
+    return zip(np.random.randint(2 ** 32, size=(total, 4), dtype=np.int64), iterable)
+
+
+def wrapper_seeded(x, wrapper):
+    np.random.seed(x[0])
+    return wrapper(x[1])
+
+
 def wrapper_gamma_rvs(x, n_sample_members):
     return stats.gamma(a=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
 def wrapper_gamma_cdf(x):
@@ -108,6 +120,9 @@ def sample_dist_gaussian(mu, sigma, n_sample_members=15, move_axis=-1, truncated
         else:
             wrapper = partial(wrapper_norm_rvs, n_sample_members=n_sample_members)
         
+        iterable = _seed_slices(iterable, mu.shape[parallelize_axis])
+        wrapper = partial(wrapper_seeded, wrapper=wrapper)
+        
         ens = _parallel_process(wrapper, iterable, total=mu.shape[parallelize_axis], name='truncnorm.rvs' if truncated else 'norm.rvs')
             
     # Move the ensemble axis somewhere else if the first position is not desired
@@ -152,6 +167,9 @@ def sample_dist_gamma(unshifted_mu, sigma, shift, n_sample_members=15, move_axis
         else:
             wrapper = partial(wrapper_gamma_rvs, n_sample_members=n_sample_members)
         
+        iterable = _seed_slices(iterable, shape.shape[parallelize_axis])
+        wrapper = partial(wrapper_seeded, wrapper=wrapper)
+        
         ens = _parallel_process(wrapper, iterable, total=shape.shape[parallelize_axis], name='truncgamma.rvs' if truncated else 'gamma.rvs')
         
     # Move the ensemble axis somewhere else if the first position is not desired
-- 
2.43.0


From 70c4b9f32e61361736be56af100ed5963470d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:56 +0000
Subject: [PATCH 13/21] fix: support skipping missing values in rank histograms
 with recent NumPy

---
 PyAnEn/utils_verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index d9663b3..5e3ac6e 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -84,7 +84,7 @@ def rank_histogram(f, o, ensemble_axis):
         obs_ranks = np.concatenate(ranks, axis=parallelize_axis)
     
     if util.strtobool(os.environ['pyanen_skip_nan']):
-        obs_ranks = obs_ranks.astype(np.float)
+        obs_ranks = obs_ranks.astype(float)
         obs_ranks[final_mask] = np.nan
         
     return obs_ranks
-- 
2.43.0


From e2308b43451a38701ede56c1b8863ee53a2d77f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:23 +0000
Subject: [PATCH 14/21] fix: randomize tied ranks when every observation is
 tied

---
 PyAnEn/utils_verify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 5e3ac6e..e94af77 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -35,10 +35,10 @@ def rankdata(x):
     # Check for ties
     ties = np.nansum(ranks[0] == ranks[1:], axis=0)
     unique_tie = np.unique(ties)
-    unique_tie = unique_tie[~np.isnan(unique_tie)]
+    unique_tie = unique_tie[unique_tie > 0]
     
     # For ties, randomly decide which bin the observation should go to
-    for i in range(1, len(unique_tie)):
+    for i in range(len(unique_tie)):
         
         index = obs_ranks[ties == unique_tie[i]]
         obs_ranks[ties == unique_tie[i]] = [np.random.randint(index[j], index[j] + unique_tie[i] + 1, unique_tie[i])[0] 
-- 
2.43.0


From 645c41336edd8131ba66ed37563541bf1b4848c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:22 +0000
Subject: [PATCH 15/21] fix: break ties with independent random numbers in
 worker processes

---
 PyAnEn/utils_verify.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index e94af77..9e9800e 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -22,6 +22,9 @@ import pandas as pd
 from scipy import stats
 from distutils import util
 from tqdm.auto import tqdm
+from functools import partial
+from .utils_dist import _seed_slices
+from .utils_dist import wrapper_seeded
 from sklearn import metrics
 from sklearn.neighbors import KernelDensity
 from tqdm.contrib.concurrent import process_map
@@ -74,8 +77,11 @@ def rank_histogram(f, o, ensemble_axis):
         chunksize = int(os.environ['pyanen_tqdm_chunksize'])
         assert parallelize_axis < 0, 'parallelize_axis needs to be negative, counting from the end of dimensions, excluding the ensemble axis'
         
-        ranks = process_map(rankdata,
-                            np.split(c, c.shape[parallelize_axis], parallelize_axis),
+        n_slices = c.shape[parallelize_axis]
+        
+        ranks = process_map(partial(wrapper_seeded, wrapper=rankdata),
+                            _seed_slices(np.split(c, n_slices, parallelize_axis), n_slices),
+                            total=n_slices,
                             disable=util.strtobool(os.environ['pyanen_tqdm_disable']),
                             leave=util.strtobool(os.environ['pyanen_tqdm_leave']),
                             chunksize=chunksize, max_workers=cores,
-- 
2.43.0


From 9f102a73fd4a79d4dfe697edc012d8fd1b666654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:04 +0000
Subject: [PATCH 16/21] fix: bootstrap the central interval at the configured
 confidence for all metrics

---
 PyAnEn/utils_special_boot.py | 16 ++++++++--------
 PyAnEn/utils_ss.py           |  4 ++--
 PyAnEn/utils_verify.py       |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 4a33af7..67ba9c2 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -96,18 +96,18 @@ def _func_brier_decomp(f_slice, o_slice, n_samples, repeats, confidence, skip_na
             uncertainty.append(ret[2])
         
         if skip_nan:
-            ci_rel = np.nanquantile(reliability, [1-confidence, confidence])
-            ci_res = np.nanquantile(resolution, [1-confidence, confidence])
-            ci_unc = np.nanquantile(uncertainty, [1-confidence, confidence])
+            ci_rel = np.nanquantile(reliability, [(1-confidence)/2, (1+confidence)/2])
+            ci_res = np.nanquantile(resolution, [(1-confidence)/2, (1+confidence)/2])
+            ci_unc = np.nanquantile(uncertainty, [(1-confidence)/2, (1+confidence)/2])
             
             return [[ci_rel[0], np.nanmean(reliability), ci_rel[1]],
                     [ci_res[0], np.nanmean(resolution), ci_res[1]],
                     [ci_unc[0], np.nanmean(uncertainty), ci_unc[1]]]
         
         else:
-            ci_rel = np.quantile(reliability, [1-confidence, confidence])
-            ci_res = np.quantile(resolution, [1-confidence, confidence])
-            ci_unc = np.quantile(uncertainty, [1-confidence, confidence])
+            ci_rel = np.quantile(reliability, [(1-confidence)/2, (1+confidence)/2])
+            ci_res = np.quantile(resolution, [(1-confidence)/2, (1+confidence)/2])
+            ci_unc = np.quantile(uncertainty, [(1-confidence)/2, (1+confidence)/2])
             
             return [[ci_rel[0], np.mean(reliability), ci_rel[1]],
                     [ci_res[0], np.mean(resolution), ci_res[1]],
@@ -131,10 +131,10 @@ def _func_corr(f_slice, o_slice, n_samples, repeats, confidence, skip_nan):
             corr.append(np.corrcoef(f_slice[indices], o_slice[indices])[0, 1])
             
         if skip_nan:
-            ci = np.nanquantile(corr, [1-confidence, confidence])
+            ci = np.nanquantile(corr, [(1-confidence)/2, (1+confidence)/2])
             return [ci[0], np.nanmean(corr), ci[1]]
         else:
-            ci = np.quantile(corr, [1-confidence, confidence])
+            ci = np.quantile(corr, [(1-confidence)/2, (1+confidence)/2])
             return [ci[0], np.mean(corr), ci[1]]
         
 
diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index bb811bd..75c31d1 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -161,8 +161,8 @@ def _binned_spread_skill_agg_boot(arr_split, reconstruct_shape,
                     variances.append(arr[idx, 0, dim_i].mean())
                     mses.append(arr[idx, 1, dim_i].mean())
             
-            variance_ci = np.quantile(variances, [1-confidence, confidence])
-            mse_ci = np.quantile(mses, [1-confidence, confidence])
+            variance_ci = np.quantile(variances, [(1-confidence)/2, (1+confidence)/2])
+            mse_ci = np.quantile(mses, [(1-confidence)/2, (1+confidence)/2])
             
             variances_ci.append([variance_ci[0], np.mean(variances), variance_ci[1]])
             mses_ci.append([mse_ci[0], np.mean(mses), mse_ci[1]])
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 9e9800e..36ed81b 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -416,10 +416,10 @@ def _reliability_agg_boot_slice(binids, y_prob, y_true, bins,
                     sample_probs.append(np.mean(y_prob[random_indices]))
                     sample_trues.append(np.mean(y_true[random_indices]))
 
-            ci = np.quantile(sample_probs, [1-confidence, confidence])
+            ci = np.quantile(sample_probs, [(1-confidence)/2, (1+confidence)/2])
             probs_pred.append([ci[0], np.mean(sample_probs), ci[1]])
 
-            ci = np.quantile(sample_trues, [1-confidence, confidence])
+            ci = np.quantile(sample_trues, [(1-confidence)/2, (1+confidence)/2])
             probs_true.append([ci[0], np.mean(sample_trues), ci[1]])
 
         else:
-- 
2.43.0


From 70b55b2de3411b297e227f1fbd1038a661a5a086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:29 +0000
Subject: [PATCH 17/21] fix: skip missing values in bootstrapped correlation

---
 PyAnEn/utils_special_boot.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 67ba9c2..457ca70 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -116,12 +116,15 @@ def _func_brier_decomp(f_slice, o_slice, n_samples, repeats, confidence, skip_na
 
 def _func_corr(f_slice, o_slice, n_samples, repeats, confidence, skip_nan):
     
+    if skip_nan:
+        mask = (~np.isnan(f_slice)) & (~np.isnan(o_slice))
+        f_slice, o_slice = f_slice[mask], o_slice[mask]
+    
     if n_samples is None:
-        if skip_nan:
-            mask = (~np.isnan(f_slice)) & (~np.isnan(o_slice))
-            return np.corrcoef(f_slice[mask], o_slice[mask])[0, 1]
-        else:
-            return np.corrcoef(f_slice, o_slice)[0, 1]
+        return np.corrcoef(f_slice, o_slice)[0, 1]
+    
+    elif len(f_slice) == 0:
+        return [np.nan, np.nan, np.nan]
     
     else:
         corr = []
-- 
2.43.0


From 83e2935356ebc375120b2bd79de742f4ecb9cd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:14 +0000
Subject: [PATCH 18/21] fix: a missing forecast where the observation is zero
 makes the PIT fail

---
 PyAnEn/VerifyProb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/VerifyProb.py b/PyAnEn/VerifyProb.py
index 47a9425..2b4c270 100644
--- a/PyAnEn/VerifyProb.py
+++ b/PyAnEn/VerifyProb.py
@@ -17,7 +17,6 @@
 import os
 import numpy as np
 
-from scipy import stats
 from distutils import util
 from .Verify import Verify
 from .utils_special_boot import brier_decomp
@@ -173,7 +172,8 @@ class VerifyProb(Verify):
         
         if self.pit_randomize_zero_ranks:
             mask = self.o == 0
-            ranks[mask] = stats.uniform(loc=0, scale=ranks[mask]).rvs()
+            # Missing forecasts stay missing
+            ranks[mask] = np.random.uniform(size=np.count_nonzero(mask)) * ranks[mask]
         
         return ranks
         
-- 
2.43.0


From fc1a6cc694b2f22741681259fe8da6a10f2b984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:40 +0000
Subject: [PATCH 19/21] fix: the hurdle probability of a missing observation is
 missing

wrapper_gamma_hurdle_cdf took a missing threshold for a dry one, so the PIT
of a cell without observation was 1 - pop instead of missing.
---
 PyAnEn/utils_dist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index bfd107a..d279b62 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -70,6 +70,8 @@ def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
     mask = x[3] > 0.
     prob[mask] += x[0][mask] * stats.gamma.cdf(x=x[3][mask], a=x[1][mask], scale=x[2][mask])
+    # The probability of a missing threshold or observation is missing
+    prob[np.isnan(x[3])] = np.nan
     return prob
 
 def wrapper_norm_rvs(x, n_sample_members):
-- 
2.43.0


From 3ac1a013cc6f104492b5d1fcbe90ec05fddc2f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:24 +0000
Subject: [PATCH 20/21] fix: CDF of a truncated gamma distribution far above
 its bulk was zero instead of one

---
 PyAnEn/dist_truncgamma.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyAnEn/dist_truncgamma.py b/PyAnEn/dist_truncgamma.py
index c847261..b6bc2bf 100644
--- a/PyAnEn/dist_truncgamma.py
+++ b/PyAnEn/dist_truncgamma.py
@@ -34,6 +34,9 @@ class truncgamma_gen(rv_continuous):
         self.s = s
         return (self.a >= 0.0) & (self.b > self.a)
     
+    def _get_support(self, a, b, s):
+        return a, b
+    
     def _logpdf(self, x, a):
         return sc.xlogy(a-1.0, x) - x - sc.gammaln(a)
 
-- 
2.43.0


From 21d8f671382004048069e8d208ccc83299acf997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:53 +0000
Subject: [PATCH 21/21] fix: count negative averaging axes from the end when
 resampling and binning

---
 PyAnEn/utils_special_boot.py | 2 +-
 PyAnEn/utils_ss.py           | 3 +++
 PyAnEn/utils_verify.py       | 6 ++++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 457ca70..fb917b0 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -155,7 +155,7 @@ def _workflow(f, o, func_name, func, avg_axis=None, n_samples=None, repeats=None
     desc = func_name + ('' if n_samples is None else ' with boostrapping')
     
     if avg_axis is None: avg_axis = list(range(len(o.shape)))
-    else: avg_axis = list(avg_axis)
+    else: avg_axis = [i + len(o.shape) if i < 0 else i for i in avg_axis]
     
     # Calculate the output shape indices
     out_shape = list(set(range(len(o.shape))) - set(avg_axis))
diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 75c31d1..feadfe7 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -52,6 +52,9 @@ def _binned_spread_skill_create_split(variance, sq_error, nbins, sample_axis):
     assert variance.shape == sq_error.shape
     assert hasattr(sample_axis, '__len__'), 'sample_axis must be an array-like object!'
 
+    # Negative axes count from the end
+    sample_axis = [i + len(variance.shape) if i < 0 else i for i in sample_axis]
+
     # Move sample axis to the beginning
     to_axis = 0
 
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 36ed81b..8586af2 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -264,6 +264,9 @@ def boot_arr(metric, sample_axis, n_samples=None, repeats=None, confidence=None)
     if sample_axis is None:
         sample_axis = list(range(len(metric.shape)))
     
+    # Negative axes count from the end
+    sample_axis = [i + len(metric.shape) if i < 0 else i for i in sample_axis]
+    
     # Move sample axis to the beginning
     to_axis = 0
 
@@ -307,6 +310,9 @@ def _reliability_create_split(f_prob, o_binary, nbins, sample_axis=None):
     assert f_prob.shape == o_binary.shape
     assert hasattr(sample_axis, '__len__'), 'sample_axis must be an array-like object!'
 
+    # Negative axes count from the end
+    sample_axis = [i + len(o_binary.shape) if i < 0 else i for i in sample_axis]
+
     # Move sample axis to the beginning
     to_axis = 0
 
-- 
2.43.0

