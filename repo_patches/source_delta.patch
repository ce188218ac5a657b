From e1521092ce5aa638ed5be83518bf97d613feffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:15 +0000
Subject: [PATCH 001/153] fix: re-weighting and cooling do not modify shared or
 caller arrays, nor overflow for cool>1

---
 python/getdist/chains.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 1a8507c..6b6bc7c 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -961,9 +961,8 @@ class WeightedSamples:
         """
         scale = np.min(logLikes)
         if self.loglikes is not None:
-            self.loglikes += logLikes
-        self.weights = np.asarray(self.weights, dtype=np.float64)
-        self.weights *= np.exp(-(logLikes - scale))
+            self.loglikes = self.loglikes + logLikes
+        self.weights = self.weights * np.exp(-(logLikes - scale))
         self._weightsChanged()
 
     def cool(self, cool):
@@ -972,10 +971,9 @@ class WeightedSamples:
 
         :param cool: cool factor
         """
-        MaxL = np.max(self.loglikes)
         newL = self.loglikes * cool
-        self.weights = np.asarray(self.weights, dtype=np.float64)
-        self.weights *= np.exp(-(newL - self.loglikes) - (MaxL * (1 - cool)))
+        delta = newL - self.loglikes
+        self.weights = self.weights * np.exp(-(delta - np.min(delta)))
         self.loglikes = newL
         self._weightsChanged()
 
-- 
2.43.0


From 599836d5efa3588d450da85819b6ac4e9a274edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:15 +0000
Subject: [PATCH 002/153] fix: var of a list of parameters respects where;
 report missing loglikes properly

---
 python/getdist/chains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 6b6bc7c..1ddbd3d 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -328,7 +328,7 @@ class WeightedSamples:
                 return self.samples[:, par]
             elif par == -1:
                 if self.loglikes is None:
-                    raise WeightedSampleError('Samples do not have logLikes (par=-1)' % par)
+                    raise WeightedSampleError('Samples do not have logLikes (par=-1)')
                 return self.loglikes
             elif par == -2:
                 return self.weights
@@ -677,7 +677,7 @@ class WeightedSamples:
         :return: parameter variance
         """
         if isinstance(paramVec, (list, tuple)):
-            return np.array([self.var(p) for p in paramVec])
+            return np.array([self.var(p, where) for p in paramVec])
         if where is not None:
             return np.dot(self.mean_diff(paramVec, where) ** 2, self.weights[where]) / self.get_norm(where)
         else:
-- 
2.43.0


From 0167c694e8cf3238255ed7a16dee097c44412270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:15 +0000
Subject: [PATCH 003/153] fix: keep chain offsets correct after filtering by
 index, thinning and burn removal

---
 python/getdist/chains.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 1ddbd3d..a4b4f6b 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -990,7 +990,7 @@ class WeightedSamples:
 
         :param min_weight_ratio: minimum ratio to max to exclude
         """
-        if self.weights is not None and min_weight_ratio >= 0:
+        if self.weights is not None and len(self.weights) and min_weight_ratio >= 0:
             max_weight = np.max(self.weights)
             min_weight = np.min(self.weights)
             if min_weight < max_weight * min_weight_ratio:
@@ -1023,6 +1023,9 @@ class WeightedSamples:
             ix = int(remove)
         else:
             ix = int(round(self.numrows * remove))
+        self._removeFirstRows(ix)
+
+    def _removeFirstRows(self, ix):
         if self.weights is not None:
             self.weights = self.weights[ix:]
         if self.loglikes is not None:
@@ -1138,14 +1141,25 @@ class Chains(WeightedSamples):
         if self.chains is None:
             if self.chain_offsets is not None:
                 # must update chain_offsets to be able to correctly split back into separate filtered chains if needed
+                kept = np.arange(self.numrows)[where]
                 lens = [0]
                 for off1, off2 in zip(self.chain_offsets[:-1], self.chain_offsets[1:]):
-                    lens.append(np.count_nonzero(where[off1:off2]))
+                    lens.append(np.count_nonzero((kept >= off1) & (kept < off2)))
                 self.chain_offsets = np.cumsum(np.array(lens))
             super().filter(where)
         else:
             raise ValueError('chains are separated, makeSingle first or call filter on individual chains')
 
+    def thin(self, factor: int):
+        """
+        Thin the samples by the given factor, giving set of samples with unit weight
+
+        :param factor: The factor to thin by
+        """
+        if self.chain_offsets is not None:
+            self.chain_offsets = np.searchsorted(self.thin_indices(factor), self.chain_offsets)
+        super().thin(factor)
+
     def weighted_thin(self, factor: int):
         """
         Thin the samples by the given factor, giving (in general) non-unit integer weights.
@@ -1466,9 +1480,14 @@ class Chains(WeightedSamples):
         else:
             for off1, off2 in zip(self.chain_offsets[:-1], self.chain_offsets[1:]):
                 chainlist.append(WeightedSamples(samples=self.samples[off1:off2], weights=self.weights[off1:off2],
-                                                 loglikes=self.loglikes[off1:off2]))
+                                                 loglikes=slice_or_none(self.loglikes, off1, off2)))
         return chainlist
 
+    def _removeFirstRows(self, ix):
+        if self.chain_offsets is not None:
+            self.chain_offsets = np.maximum(self.chain_offsets - ix, 0)
+        super()._removeFirstRows(ix)
+
     def removeBurnFraction(self, ignore_frac):
         """
         Remove a fraction of the samples as burn in
-- 
2.43.0


From e3069fbce157dbcc203435743f7298e7e9770d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:15 +0000
Subject: [PATCH 004/153] fix: only delete parameters as fixed if the same in
 all chains

---
 python/getdist/chains.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index a4b4f6b..ea8fbb4 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1002,15 +1002,20 @@ class WeightedSamples:
 
         :return: tuple (list of fixed parameter indices that were removed, fixed values)
         """
+        fixed, values = self._getFixedParams(self.samples)
+        self.changeSamples(np.delete(self.samples, fixed, 1))
+        return fixed, values
+
+    @staticmethod
+    def _getFixedParams(samples):
         fixed = []
         values = []
-        for i in range(self.samples.shape[1]):
-            if np.isclose(self.samples[0, i], self.samples[-1, i]):
-                mean = np.average(self.samples[:, i])
-                if np.allclose(self.samples[:, i], mean, rtol=1e-12, atol=0):
+        for i in range(samples.shape[1]):
+            if np.isclose(samples[0, i], samples[-1, i]):
+                mean = np.average(samples[:, i])
+                if np.allclose(samples[:, i], mean, rtol=1e-12, atol=0):
                     fixed.append(i)
                     values.append(mean)
-        self.changeSamples(np.delete(self.samples, fixed, 1))
         return fixed, values
 
     def removeBurn(self, remove=0.3):
@@ -1511,8 +1516,9 @@ class Chains(WeightedSamples):
             fixed, values = super().deleteFixedParams()
             self.chains = None
         else:
-            fixed, values = self.chains[0].deleteFixedParams()
-            for chain in self.chains[1:]:
+            # parameters may be the same throughout one chain, but differ between chains
+            fixed, values = self._getFixedParams(np.vstack([chain.samples for chain in self.chains]))
+            for chain in self.chains:
                 chain.changeSamples(np.delete(chain.samples, fixed, 1))
         if hasattr(self, 'ranges'):
             for ix, value in zip(fixed, values):
-- 
2.43.0


From 6799231fb15481bc9fd938678a759e0d8ae2595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:15 +0000
Subject: [PATCH 005/153] fix: saveAsText with root ending in .txt

---
 python/getdist/chains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index ea8fbb4..327bdd4 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1053,7 +1053,7 @@ class WeightedSamples:
         if make_dirs and not os.path.exists(os.path.dirname(root)):
             os.makedirs(os.path.dirname(root))
         if root.endswith('.txt'):
-            root = root[:-3]
+            root = root[:-4]
         # noinspection PyTypeChecker
         np.savetxt(root + ('' if chain_index is None else '_' + str(chain_index + 1)) + '.txt',
                    np.hstack((self.weights.reshape(-1, 1), loglikes.reshape(-1, 1), self.samples)),
@@ -1537,7 +1537,7 @@ class Chains(WeightedSamples):
         """
         super().saveAsText(root, chain_index, make_dirs)
         if not chain_index:
-            self.saveTextMetadata(root)
+            self.saveTextMetadata(root[:-4] if root.endswith('.txt') else root)
 
     def saveTextMetadata(self, root):
         """
-- 
2.43.0


From 440f4f13d8e071eaf0958d30a25353d41a6b1441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:15 +0000
Subject: [PATCH 006/153] fix: support fractional ignore_rows and do not count
 comments as ignored rows

---
 python/getdist/chains.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 327bdd4..7ba1b23 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -53,6 +53,11 @@ def slice_or_none(x, start=None, end=None):
     return getattr(x, "__getitem__", lambda _: None)(slice(start, end))
 
 
+def ignore_row_count(ignore_rows, numrows):
+    # number of rows to skip given ignore_rows as either number (>=1) or a fraction (<1)
+    return int(ignore_rows) if ignore_rows >= 1 else int(round(ignore_rows * numrows))
+
+
 def findChainFileRoot(chain_dir, root, search_subdirectories=True):
     """
     Finds chain files with name root somewhere under chain_dir directory tree.
@@ -229,12 +234,15 @@ class WeightedSamples:
         self.precision = '%.8e'
         self.min_weight_ratio = min_weight_ratio
         if filename:
-            cols = loadNumpyTxt(filename, skiprows=ignore_rows)
+            cols = loadNumpyTxt(filename)
+            cols = cols[ignore_row_count(ignore_rows, len(cols)):]
             if not len(cols):
                 raise WeightedSampleError('Empty chain: %s' % filename)
             self.setColData(cols, are_chains=files_are_chains)
             self.name_tag = name_tag or os.path.basename(filename)
         else:
+            if samples is not None:
+                ignore_rows = ignore_row_count(ignore_rows, len(samples))
             self.setSamples(slice_or_none(samples, ignore_rows),
                             slice_or_none(weights, ignore_rows),
                             slice_or_none(loglikes, ignore_rows))
@@ -1391,6 +1399,7 @@ class Chains(WeightedSamples):
             dim = array_dimension(files_or_samples)
             if dim in [1, 2]:
                 self.chains = None
+                ignore_lines = ignore_row_count(ignore_lines, len(files_or_samples))
                 self.setSamples(slice_or_none(files_or_samples, ignore_lines),
                                 slice_or_none(weights, ignore_lines),
                                 slice_or_none(loglikes, ignore_lines), self.min_weight_ratio)
-- 
2.43.0


From 9fb88ffb5af6dedb11c2e1eeb026d9f59e9c21c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:15 +0000
Subject: [PATCH 007/153] fix: ignore empty chain files when loading as
 intended

---
 python/getdist/chains.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 7ba1b23..6280e53 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -132,8 +132,11 @@ def loadNumpyTxt(fname, skiprows=None):
     """
     try:
         if pandas:
-            return pandas.read_csv(fname, delim_whitespace=True, header=None, dtype=np.float64,
-                                   skiprows=skiprows, comment='#').values
+            try:
+                return pandas.read_csv(fname, delim_whitespace=True, header=None, dtype=np.float64,
+                                       skiprows=skiprows, comment='#').values
+            except pandas.errors.EmptyDataError:
+                return np.empty((0, 0))
         else:
             global _pandas_suggestion
             if _pandas_suggestion:
-- 
2.43.0


From a1d7948b82fc3ae2e8a425f623c09fb016e0de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:51 +0000
Subject: [PATCH 008/153] fix: ignore_rows removes samples rather than
 parameters from lists of parameter vectors

---
 python/getdist/chains.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 6280e53..85b01a1 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -58,6 +58,19 @@ def ignore_row_count(ignore_rows, numrows):
     return int(ignore_rows) if ignore_rows >= 1 else int(round(ignore_rows * numrows))
 
 
+def skip_rows(ignore_rows, samples, weights, loglikes):
+    # samples can be an array or a list of parameter vectors
+    if samples is None:
+        return None, weights, loglikes
+    if isinstance(samples, (list, tuple)):
+        start = ignore_row_count(ignore_rows, len(samples[0]))
+        samples = [x[start:] for x in samples]
+    else:
+        start = ignore_row_count(ignore_rows, len(samples))
+        samples = samples[start:]
+    return samples, slice_or_none(weights, start), slice_or_none(loglikes, start)
+
+
 def findChainFileRoot(chain_dir, root, search_subdirectories=True):
     """
     Finds chain files with name root somewhere under chain_dir directory tree.
@@ -244,11 +257,7 @@ class WeightedSamples:
             self.setColData(cols, are_chains=files_are_chains)
             self.name_tag = name_tag or os.path.basename(filename)
         else:
-            if samples is not None:
-                ignore_rows = ignore_row_count(ignore_rows, len(samples))
-            self.setSamples(slice_or_none(samples, ignore_rows),
-                            slice_or_none(weights, ignore_rows),
-                            slice_or_none(loglikes, ignore_rows))
+            self.setSamples(*skip_rows(ignore_rows, samples, weights, loglikes))
             self.name_tag = name_tag
             if samples is not None and int(ignore_rows):
                 if print_load_details:
@@ -1402,10 +1411,8 @@ class Chains(WeightedSamples):
             dim = array_dimension(files_or_samples)
             if dim in [1, 2]:
                 self.chains = None
-                ignore_lines = ignore_row_count(ignore_lines, len(files_or_samples))
-                self.setSamples(slice_or_none(files_or_samples, ignore_lines),
-                                slice_or_none(weights, ignore_lines),
-                                slice_or_none(loglikes, ignore_lines), self.min_weight_ratio)
+                self.setSamples(*skip_rows(ignore_lines, files_or_samples, weights, loglikes),
+                                min_weight_ratio=self.min_weight_ratio)
                 if self.paramNames is None:
                     self.paramNames = ParamNames(default=self.n)
                 nchains = 1
-- 
2.43.0


From 47ba2b5007ff900782e9ce8e3399c0bf1437167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:53 +0000
Subject: [PATCH 009/153] fix: likelihood statistics with a single contour or
 one sample with most of the weight

---
 python/getdist/mcsamples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 78da13a..e6c2882 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2025,7 +2025,8 @@ class MCSamples(Chains):
         # get N-dimensional confidence region
         indexes = self.loglikes.argsort()
         cumsum = np.cumsum(self.weights[indexes])
-        m.ND_cont1, m.ND_cont2 = np.searchsorted(cumsum, self.norm * self.contours[0:2])
+        ND_conts = np.maximum(1, np.searchsorted(cumsum, self.norm * np.asarray(self.contours[0:2])))
+        m.ND_cont1, m.ND_cont2 = ND_conts[0], ND_conts[-1]
         for j, par in enumerate(self.paramNames.names):
             region1 = self.samples[indexes[:m.ND_cont1], j]
             region2 = self.samples[indexes[:m.ND_cont2], j]
-- 
2.43.0


From bbb7192dad5b9149d94a8b94664efc4bd39463a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 010/153] fix: writeThinData writes the selected samples, one
 per line

---
 python/getdist/mcsamples.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index e6c2882..9d630ab 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -554,21 +554,18 @@ class MCSamples(Chains):
             logging.info('Cooled thinned output with temp: %s', cool)
         MaxL = np.max(self.loglikes)
         with open(fname, 'w', encoding='utf-8') as f:
-            i = 0
             for thin in thin_ix:
                 if cool != 1:
                     newL = self.loglikes[thin] * cool
                     f.write("%16.7E" % (
                         np.exp(-(newL - self.loglikes[thin]) - MaxL * (1 - cool))))
                     f.write("%16.7E" % newL)
-                    for j in range(nparams):
-                        f.write("%16.7E" % (self.samples[i][j]))
                 else:
-                    f.write("%f" % 1.)
-                    f.write("%f" % (self.loglikes[thin]))
-                    for j in range(nparams):
-                        f.write("%16.7E" % (self.samples[i][j]))
-                i += 1
+                    f.write("%16.7E" % 1.)
+                    f.write("%16.7E" % (self.loglikes[thin]))
+                for j in range(nparams):
+                    f.write("%16.7E" % (self.samples[thin][j]))
+                f.write("\n")
         print('Wrote ', len(thin_ix), ' thinned samples')
 
     def getCovMat(self):
-- 
2.43.0


From b12f32fc4757f1b6e23951de0e25be420eec3819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:45 +0000
Subject: [PATCH 011/153] fix: chain roots in the current directory, and
 searching for chains under non-existent directories

---
 python/getdist/chains.py    | 4 +++-
 python/getdist/mcsamples.py | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 85b01a1..f254da8 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -116,7 +116,9 @@ def chainFiles(root, chain_indices=None, ext='.txt', separator="_",
         basename = os.path.basename(root)
         reg_exp = re.compile(re.escape(basename) + '(' + re.escape(separator) + '(?P<num>[0-9]+))?' + re.escape(ext))
     files = []
-    for f in os.listdir(folder):
+    if not os.path.isdir(folder or '.'):
+        return files
+    for f in os.listdir(folder or '.'):
         match = reg_exp.fullmatch(f)
         if match:
             index = int(match.group("num") or 0)
diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 9d630ab..9975d6d 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -70,7 +70,7 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
         path = cache_dir
     else:
         cache_name = name
-    if not os.path.exists(path):
+    if path and not os.path.exists(path):
         os.mkdir(path)
     cachefile = os.path.join(path, cache_name) + '.py_mcsamples'
     samples = MCSamples(file_root, jobItem=jobItem, ini=ini, settings=settings)
@@ -80,7 +80,7 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
         folder = os.path.dirname(file_root)
         prefix = os.path.basename(file_root)
         allfiles = files + [
-            os.path.join(folder, f) for f in os.listdir(folder) if (
+            os.path.join(folder, f) for f in os.listdir(folder or '.') if (
                     f.startswith(prefix) and
                     any(f.lower().endswith(end) for end in ['updated.yaml', 'full.yaml']))]
     if not no_cache and os.path.exists(cachefile) and last_modified(allfiles) < os.path.getmtime(cachefile):
-- 
2.43.0


From 3895a9c1b252174e447b216a863602d42bbe7b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:30 +0000
Subject: [PATCH 012/153] fix: make_dirs when saving samples in the current
 directory

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index f254da8..fb19514 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1072,7 +1072,7 @@ class WeightedSamples:
             loglikes = self.loglikes
         else:
             loglikes = np.zeros(self.numrows)
-        if make_dirs and not os.path.exists(os.path.dirname(root)):
+        if make_dirs and os.path.dirname(root) and not os.path.exists(os.path.dirname(root)):
             os.makedirs(os.path.dirname(root))
         if root.endswith('.txt'):
             root = root[:-4]
-- 
2.43.0


From b57c944f3c3946e6f19a915ae762faff657bf2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:30 +0000
Subject: [PATCH 013/153] fix: save the sampler type with the samples

---
 python/getdist/mcsamples.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 9975d6d..d47e42d 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2405,7 +2405,7 @@ class MCSamples(Chains):
         super().saveTextMetadata(root)
         self.ranges.saveToFile(root + '.ranges')
         ini_name = root + '.properties.ini'
-        if properties or self.properties and self.properties.params or self.label:
+        if properties or self.properties and self.properties.params or self.label or self.sampler != 'mcmc':
             if os.path.exists(ini_name):
                 ini = IniFile(ini_name)
             else:
@@ -2414,6 +2414,8 @@ class MCSamples(Chains):
                 ini.params.update(self.properties.params)
             if self.label:
                 ini.params.update({'label': self.label})
+            if self.sampler != 'mcmc' or 'sampler' in ini.params:
+                ini.params['sampler'] = self.sampler
             ini.params.update(properties or {})
             ini.saveFile(ini_name)
         elif os.path.exists(ini_name):
-- 
2.43.0


From 80d42e15967d819396933d347b432c40fad89c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:30 +0000
Subject: [PATCH 014/153] fix: do not modify the caller's settings dictionary

---
 python/getdist/mcsamples.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index d47e42d..22fae1c 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -211,9 +211,7 @@ class MCSamples(Chains):
         self.rootdirname = ""
         self.indep_thin = 0
         if 'ignore_rows' in kwargs:
-            if settings is None:
-                settings = {}
-            settings['ignore_rows'] = kwargs['ignore_rows']
+            settings = dict(settings or {}, ignore_rows=kwargs['ignore_rows'])
         self.ignore_rows = float(kwargs.get('ignore_rows', 0))
         # Do not remove burn-in for nested sampler samples
         if self.sampler == "nested" and not np.isclose(self.ignore_rows, 0):
-- 
2.43.0


From cb97c4eee4257a4bfaa26d95f954755ba6a33628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:15 +0000
Subject: [PATCH 015/153] fix: sample cache only used for the same files, and
 does not affect settings of later loads

---
 python/getdist/mcsamples.py | 44 +++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 22fae1c..2908611 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -18,7 +18,7 @@ from getdist.cobaya_interface import MCSamplesFromCobaya
 import getdist.kde_bandwidth as kde
 from getdist.parampriors import ParamBounds
 
-pickle_version = 22
+pickle_version = 23
 
 
 class MCSamplesError(WeightedSampleError):
@@ -83,18 +83,18 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
             os.path.join(folder, f) for f in os.listdir(folder or '.') if (
                     f.startswith(prefix) and
                     any(f.lower().endswith(end) for end in ['updated.yaml', 'full.yaml']))]
+    # state of the files and how they are to be read, taken before reading so later changes are always noticed
+    cache_key = ([(os.path.abspath(f), os.path.getmtime(f), os.path.getsize(f)) for f in allfiles if
+                  os.path.exists(f)], samples.ignore_lines, samples._burnFraction(), samples.min_weight_ratio)
     if not no_cache and os.path.exists(cachefile) and last_modified(allfiles) < os.path.getmtime(cachefile):
         try:
             with open(cachefile, 'rb') as inp:
                 cache = pickle.load(inp)
-            if cache.version == pickle_version and samples.ignore_rows == cache.ignore_rows \
-                    and samples.min_weight_ratio == cache.min_weight_ratio:
-                changed = len(samples.contours) != len(cache.contours) or \
-                          np.any(np.array(samples.contours) != np.array(cache.contours))
-                cache.updateSettings(ini=ini, settings=settings, doUpdate=changed)
-                return cache
+            if len(files) and cache.version == pickle_version and cache.cache_key == cache_key:
+                samples._setFromCache(cache)
+                return samples
         except Exception:
-            pass
+            samples = MCSamples(file_root, jobItem=jobItem, ini=ini, settings=settings)
     if not len(files):
         raise IOError('No chains found: ' + file_root)
     samples.readChains(files)
@@ -102,7 +102,11 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
         if os.path.exists(cachefile):
             os.remove(cachefile)
     else:
-        samples.savePickle(cachefile)
+        samples.cache_key = cache_key
+        try:
+            samples.savePickle(cachefile)
+        except OSError as e:
+            logging.warning('Could not write cache file %s: %s', cachefile, e)
     return samples
 
 
@@ -453,6 +457,25 @@ class MCSamples(Chains):
         if doUpdate and self.samples is not None:
             self.updateBaseStatistics()
 
+    def _burnFraction(self):
+        # fraction of the samples to remove as burn in when loading
+        if not self.jobItem or not hasattr(self.jobItem, "isImportanceJob") \
+                or (not self.jobItem.isImportanceJob and not self.jobItem.isBurnRemoved()):
+            return self.ignore_frac
+        return 0
+
+    def _setFromCache(self, cache):
+        # Use the samples as previously loaded from the same files (but not any of the settings)
+        self.chains = None
+        self.chain_offsets = cache.chain_offsets
+        self.name_tag = self.name_tag or cache.name_tag
+        self.paramNames = cache.paramNames
+        self.setSamples(cache.samples, cache.weights, cache.loglikes, min_weight_ratio=-1)
+        for name, value in cache.ranges.fixedValueDict().items():
+            if not self.paramNames.hasParam(name):
+                self.ranges.setFixed(name, value)
+        self.updateBaseStatistics()
+
     def readChains(self, files_or_samples, weights=None, loglikes=None):
         """
         Loads samples from a list of files or array(s), removing burn in,
@@ -465,8 +488,7 @@ class MCSamples(Chains):
         """
         self.loadChains(self.root, files_or_samples, weights=weights, loglikes=loglikes)
 
-        if self.ignore_frac and (not self.jobItem or not hasattr(self.jobItem, "isImportanceJob")
-                                 or (not self.jobItem.isImportanceJob and not self.jobItem.isBurnRemoved())):
+        if self._burnFraction():
             self.removeBurnFraction(self.ignore_frac)
             chains.print_load_line('Removed %s as burn in' % self.ignore_frac)
         elif not int(self.ignore_rows):
-- 
2.43.0


From d5bdb648712af15743cae11fb8193e7418a09b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:43 +0000
Subject: [PATCH 016/153] fix: densities of less than 30 samples

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index fb19514..1a98314 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -539,7 +539,7 @@ class WeightedSamples:
             uncorr_term += np.dot(np.exp(-diff2 / 4) * self.weights[:-k], self.weights[k:])
         uncorr_term /= nav
 
-        corr = np.zeros(maxoff + 1)
+        corr = np.zeros(max(maxoff, 2) + 1)
         corr[0] = np.dot(self.weights, self.weights)
         n = float(self.numrows)
 
-- 
2.43.0


From 4695c2e0a2df7a9c7590bbc615d7b9f91817be29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:29 +0000
Subject: [PATCH 017/153] fix: results are updated after samples, weights or
 ranges have changed

---
 python/getdist/mcsamples.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 2908611..f25e376 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -530,6 +530,10 @@ class MCSamples(Chains):
         self._setLikeStats()
         return self
 
+    def _updateIfNeeded(self):
+        if self.needs_update and self.samples is not None:
+            self.updateBaseStatistics()
+
     def makeSingleSamples(self, filename="", single_thin=None, random_state=None):
         """
         Make file of unit weight samples by choosing samples
@@ -544,6 +548,7 @@ class MCSamples(Chains):
         :param random_state: random seed or Generator
         :return: numpy array of selected weight-1 samples if no filename
         """
+        self._updateIfNeeded()
         if single_thin is None:
             single_thin = max(1, self.norm / self.max_mult / self.max_scatter_points)
         random_state = np.random.default_rng(random_state)
@@ -595,6 +600,7 @@ class MCSamples(Chains):
 
         :return: A :class:`~.covmat.CovMat` object holding the covariance
         """
+        self._updateIfNeeded()
         nparamNonDerived = self.paramNames.numNonDerived()
         return covmat.CovMat(matrix=self.fullcov[:nparamNonDerived, :nparamNonDerived],
                              paramNames=self.paramNames.list()[:nparamNonDerived])
@@ -650,6 +656,7 @@ class MCSamples(Chains):
         :param n_best_only: return just the short summary constraint for the tightest n_best_only constraints
         :return: a string description of the output of the PCA
         """
+        self._updateIfNeeded()
         logging.info('Doing PCA for %s parameters', len(params))
         if len(conditional_params):
             logging.info('conditional %u fixed parameters', len(conditional_params))
@@ -833,6 +840,7 @@ class MCSamples(Chains):
 
         :return: The summary text as a string.
         """
+        self._updateIfNeeded()
         lines = 'using %s rows, %s parameters; mean weight %s, tot weight %s\n' % (
             self.numrows, self.paramNames.numParams(), self.mean_mult, self.norm)
         if self.indep_thin != 0:
@@ -862,6 +870,7 @@ class MCSamples(Chains):
         :param feedback: If set to True, Prints the output as well as returning it.
         :return: text giving the output of the tests
         """
+        self._updateIfNeeded()
         lines = ''
         nparam = self.n
 
@@ -2076,6 +2085,7 @@ class MCSamples(Chains):
 
         :return: a :class:`~.parampriors.ParamBounds` instance
         """
+        self._updateIfNeeded()
         bounds = ParamBounds()
         bounds.names = self.paramNames.list()
         for par in self.paramNames.names:
@@ -2092,6 +2102,7 @@ class MCSamples(Chains):
         :param name: parameter name
         :return: The upper limit if name exists, None otherwise.
         """
+        self._updateIfNeeded()
         par = self.paramNames.parWithName(name)
         if par:
             return getattr(par, 'limmax', None)
@@ -2104,6 +2115,7 @@ class MCSamples(Chains):
         :param name: parameter name
         :return: The lower limit if name exists, None otherwise.
         """
+        self._updateIfNeeded()
         par = self.paramNames.parWithName(name)
         if par:
             return getattr(par, 'limmin', None)
@@ -2149,6 +2161,7 @@ class MCSamples(Chains):
                  result.names[i].ND_limit_top, result.names[i].ND_limit_bot, and best-fit sample value
                  in result.names[i].bestfit_sample
         """
+        self._updateIfNeeded()
         return self.likeStats or self._setLikeStats()
 
     def getTable(self, columns=1, include_bestfit=False, **kwargs):
@@ -2221,6 +2234,7 @@ class MCSamples(Chains):
         :param max_frac_twotail: optional override for self.max_frac_twotail
         :param meanlikes: include mean likelihoods
         """
+        self._updateIfNeeded()
         if self.done_1Dbins:
             return
 
@@ -2311,7 +2325,7 @@ class MCSamples(Chains):
         try_t = 1e5
         x, y = 0, 0
         cust2DPlots = []
-        correlationMatrix = self.correlationMatrix
+        correlationMatrix = self.getCorrelationMatrix()
         for _ in range(num_plots):
             try_b = -1e5
             for ix1 in range(nparam):
@@ -2340,9 +2354,10 @@ class MCSamples(Chains):
         :return: The added parameter's :class:`~.paramnames.ParamInfo` object
         """
 
+        par = super().addDerived(paramVec, name, label=label, comment=comment)
         if range is not None:
             self.ranges.setRange(name, range)
-        return super().addDerived(paramVec, name, label=label, comment=comment)
+        return par
 
     def getParamBestFitDict(self, best_sample=False, want_derived=True, want_fixed=True, max_posterior=True):
         """
-- 
2.43.0


From 03713bf24f4f5a846602ce624e0288ff23fac358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:08 +0000
Subject: [PATCH 018/153] fix: Gaussian convolutions without a cache, sharing a
 cache, or narrower than a pixel

---
 python/getdist/convolve.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/getdist/convolve.py b/python/getdist/convolve.py
index 78c9a0d..3b8c260 100644
--- a/python/getdist/convolve.py
+++ b/python/getdist/convolve.py
@@ -165,7 +165,8 @@ def convolveGaussianDCT(x, sigma, pad_sigma=4, mode='same', cache=None):
     gauss = cache.get((s, hnorm)) if cache is not None else None
     if gauss is None:
         gauss = np.exp(-(np.arange(0, s) * (np.pi * hnorm)) ** 2 / 2.)
-        cache[(s, hnorm)] = gauss
+        if cache is not None:
+            cache[(s, hnorm)] = gauss
     res = fftpack.idct(fftpack.dct(padded_x, overwrite_x=fill > 0) * gauss, overwrite_x=fill > 0) / (2 * s)
     if fill == 0:
         return res
@@ -210,21 +211,21 @@ def convolveGaussianTrunc(x, sigma, sigma_range=4, mode='same', cache=None):
     fill = int(sigma_range * sigma)
     actual_size = x.size + 2 * fill
     s = nearestFFTnumber(actual_size)
-    gauss = None if cache is None else cache.get((fill, actual_size, sigma))
+    gauss = None if cache is None else cache.get(('trunc', fill, actual_size, sigma))
     if gauss is None:
         points = np.arange(-fill, fill + 1)
         win = np.exp(-(points / sigma) ** 2 / 2.)
         win /= np.sum(win)
         gauss = np.fft.rfft(win, s)
         if cache is not None:
-            cache[(fill, actual_size, sigma)] = gauss
+            cache[('trunc', fill, actual_size, sigma)] = gauss
     res = np.fft.irfft(np.fft.rfft(x, s) * gauss, s)[:actual_size]
     if mode == 'same':
-        return res[fill:-fill]
+        return res[fill:fill + x.size]
     elif mode == 'full':
         return res
     elif mode == 'valid':
-        return res[2 * fill:-2 * fill]
+        return res[2 * fill:x.size]
 
 
 def dct2d(a):
-- 
2.43.0


From 18783746911412208cba822b11216452475fb577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:24 +0000
Subject: [PATCH 019/153] fix: Density2D.Prob returns the density

---
 python/getdist/densities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index 3dd213a..deff9cd 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -287,7 +287,7 @@ class Density2D(GridDensity):
         :param y: y value or array
         :param grid: whether to make a grid, see :class:`~scipy:scipy.interpolate.RectBivariateSpline`. Default False.
         """
-        self.__call__(x, y, grid=grid)
+        return self.__call__(x, y, grid=grid)
 
     def __call__(self, *args, **kwargs):
         if self.spl is None:
-- 
2.43.0


From e6c2f9efa12622d50e09946c9b00b8d2d45c62b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:24 +0000
Subject: [PATCH 020/153] fix: Density1D.getLimits of a list of limits

---
 python/getdist/densities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index deff9cd..c51adee 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -241,7 +241,7 @@ class Density1D(GridDensity):
                 i = g.bign - np.argmax(g.grid[::-1] > trial) - 1
                 d = (g.grid[i] - trial) / (g.grid[i] - g.grid[i + 1])
                 mx = self.x[0] + (i + d) * finespace
-            if parr is not p:
+            if np.ndim(p) == 0:
                 return mn, mx, lim_bot, lim_top
             results.append((mn, mx, lim_bot, lim_top))
         return results
-- 
2.43.0


From 080717117f0fbbe6c3a82a32b15871583d22f2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:45 +0000
Subject: [PATCH 021/153] fix: contour levels are densities also where the
 level is at the edge of the grid

---
 python/getdist/densities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index c51adee..088fd4f 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -43,8 +43,8 @@ def getContourLevels(inbins, contours=defaultContours, missing_norm=0, half_edge
     targets = (1 - np.array(contours)) * norm - missing_norm
     bins = abins.reshape(-1)
     indexes = inbins.reshape(-1).argsort()
-    sortgrid = bins[indexes]
-    cumsum = np.cumsum(sortgrid)
+    sortgrid = inbins.reshape(-1)[indexes]
+    cumsum = np.cumsum(bins[indexes])
     ixs = np.searchsorted(cumsum, targets)
     for i, ix in enumerate(ixs):
         if ix == 0:
-- 
2.43.0


From 87aa00f1c05fda1643ac5ab5760b318338a02e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:42 +0000
Subject: [PATCH 022/153] fix: treat negative correlations as positive ones for
 2D densities with limits

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index f25e376..9c352b2 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -1306,7 +1306,7 @@ class MCSamples(Chains):
                     # print 'derotated pars', hx, hy, c
             except ValueError as e:
                 hx, hy, c = fallback_widths(e)
-        elif abs(corr) > self.max_corr_2D or not do_correlated and corr > 0.8:
+        elif abs(corr) > self.max_corr_2D or not do_correlated and abs(corr) > 0.8:
             c = max(min(corr, self.max_corr_2D), -self.max_corr_2D)
             hx = parx.sigma_range / N_eff ** (1. / 6)
             hy = pary.sigma_range / N_eff ** (1. / 6)
-- 
2.43.0


From 9d7a925741787721f404b8d13cabae423625a6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:42 +0000
Subject: [PATCH 023/153] fix: use_effective_samples_2D setting has an effect

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 9c352b2..fb60449 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -1219,7 +1219,7 @@ class MCSamples(Chains):
             return h
 
     def getAutoBandwidth2D(self, bins, parx, pary, paramx, paramy, corr, rangex, rangey, base_fine_bins_2D,
-                           mult_bias_correction_order=None, min_corr=0.2, N_eff=None, use_2D_Neff=False):
+                           mult_bias_correction_order=None, min_corr=0.2, N_eff=None, use_2D_Neff=None):
         """
         Get optimized kernel density bandwidth matrix in parameter units, using Improved Sheather Jones method in
         sheared parameters. The shearing is determined using the covariance, so you know the distribution is
-- 
2.43.0


From 136602e69e9685018c188b0c4579a00e6a3a38a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:42 +0000
Subject: [PATCH 024/153] fix: upper end of density range from range_ND_contour
 consistent with the lower end

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index fb60449..306e251 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -1368,7 +1368,7 @@ class MCSamples(Chains):
             if self.range_ND_contour >= par.ND_limit_bot.size:
                 raise SettingError("range_ND_contour should be -1 (off), or 0, 1 for first or second contour level")
             par.range_min = min(max(par.range_min - par.err, par.ND_limit_bot[self.range_ND_contour]), par.range_min)
-            par.range_max = max(max(par.range_max + par.err, par.ND_limit_top[self.range_ND_contour]), par.range_max)
+            par.range_max = max(min(par.range_max + par.err, par.ND_limit_top[self.range_ND_contour]), par.range_max)
 
         smooth_1D = par.sigma_range * 0.4
 
-- 
2.43.0


From cfc3f454fd8c4b2487a908e8c2a6b63d1bcc2990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:42 +0000
Subject: [PATCH 025/153] fix: 2D densities with fixed smoothing respect
 max_corr_2D, so also work for degenerate parameters

---
 python/getdist/mcsamples.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 306e251..b1d4649 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -1734,6 +1734,9 @@ class MCSamples(Chains):
             rx = smooth_scale_2D * fine_bins_2D / nbin2D
             ry = smooth_scale_2D * fine_bins_2D / nbin2D
 
+        if smooth_scale_2D >= 0:
+            corr = max(min(corr, self.max_corr_2D), -self.max_corr_2D)
+
         smooth_scale = float(max(rx, ry))
         logging.debug('corr, rx, ry: %s, %s, %s', corr, rx, ry)
 
-- 
2.43.0


From df55705d6407725c2e967635148d0a325fc330e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:54 +0000
Subject: [PATCH 026/153] fix: read use_effective_samples_2D from the settings

---
 python/getdist/mcsamples.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index b1d4649..c2bd2af 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -379,6 +379,7 @@ class MCSamples(Chains):
         if self.force_twotail:
             logging.warning('Computing two tail limits')
         ini.setAttr('max_corr_2D', self)
+        ini.setAttr('use_effective_samples_2D', self)
 
         if ini.hasKey('contours'):
             ini.setAttr('contours', self)
-- 
2.43.0


From d70f866fd6a335f8a00457f6c6092fcd74395fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:18 +0000
Subject: [PATCH 027/153] fix: converge tests report the confidence limit that
 was used for the split tests

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index c2bd2af..a05c375 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -953,7 +953,7 @@ class MCSamples(Chains):
             # Return the rms ([change in upper/lower quantile]/[standard deviation])
             # when data split into 2, 3,.. sets
             lines += "Split tests: rms_n([delta(upper/lower quantile)]/sd) n={2,3,4}, limit=%.0f%%:\n" % (
-                    100 * self.converge_test_limit)
+                    100 * test_confidence)
             lines += "i.e. mean sample splitting change in the quantiles in units of the st. dev.\n"
             lines += "\n"
 
-- 
2.43.0


From cc0df29fe6ab154bd3eb48c64e8a979f5fad67cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:36 +0000
Subject: [PATCH 028/153] fix: Gelman-Rubin accurate for parameters with very
 different scales

---
 python/getdist/chains.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 1a98314..a9ac0fc 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1453,6 +1453,12 @@ class Chains(WeightedSamples):
             meancov += chain.getCov(nparam)
         meanscov /= (len(chainlist) - 1)
         meancov /= len(chainlist)
+        # result does not depend on units, so normalize for stability with parameters of very different scales
+        scale = np.sqrt(np.diag(meancov))
+        if not np.all(scale > 0):
+            return None
+        meanscov /= np.outer(scale, scale)
+        meancov /= np.outer(scale, scale)
         w, U = np.linalg.eigh(meancov)
         if np.min(w) > 0:
             U /= np.sqrt(w)
-- 
2.43.0


From 5038acb1c3ee6d7f736bc14f349c0ce4f3a780e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:26 +0000
Subject: [PATCH 029/153] fix: samples unchanged if adding parameter with an
 invalid name fails; ParamInfo.nameEquals

---
 python/getdist/chains.py     | 6 ++++--
 python/getdist/paramnames.py | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index a9ac0fc..d0858e4 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1357,8 +1357,10 @@ class Chains(WeightedSamples):
         """
         if self.paramNames.parWithName(name):
             raise ValueError('Parameter with name %s already exists' % name)
-        self.changeSamples(np.c_[self.samples, paramVec])
-        return self.paramNames.addDerived(name, **kwargs)
+        new_samples = np.c_[self.samples, paramVec]
+        par = self.paramNames.addDerived(name, **kwargs)
+        self.changeSamples(new_samples)
+        return par
 
     def loadChains(self, root, files_or_samples: Sequence, weights=None, loglikes=None,
                    ignore_lines=None):
diff --git a/python/getdist/paramnames.py b/python/getdist/paramnames.py
index b25ba5e..730b384 100644
--- a/python/getdist/paramnames.py
+++ b/python/getdist/paramnames.py
@@ -90,9 +90,9 @@ class ParamInfo:
 
     def nameEquals(self, name):
         if isinstance(name, ParamInfo):
-            return name.name == name
+            return name.name == self.name
         else:
-            return name == name
+            return name == self.name
 
     def setFromString(self, line):
         items = line.split(None, 1)
-- 
2.43.0


From b471871dd086f0288ea46818bcf41f61dd1e0acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:56 +0000
Subject: [PATCH 030/153] fix: getBounds does not depend on whether densities
 have been calculated

---
 python/getdist/mcsamples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index a05c375..b70b7f8 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2092,7 +2092,8 @@ class MCSamples(Chains):
         self._updateIfNeeded()
         bounds = ParamBounds()
         bounds.names = self.paramNames.list()
-        for par in self.paramNames.names:
+        for j, par in enumerate(self.paramNames.names):
+            self._initParamRanges(j)
             if par.has_limits_bot:
                 bounds.lower[par.name] = par.limmin
             if par.has_limits_top:
-- 
2.43.0


From b81879c3543034049b22ba1265d69021269a3f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:20 +0000
Subject: [PATCH 031/153] fix: IniFile saves to, and has file names relative
 to, the main file rather than last included file

---
 python/getdist/inifile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 7d38a7e..daed820 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -117,6 +117,8 @@ class IniFile:
                         self.readFile(ffile, if_not_defined=True)
                     else:
                         self.readFile(os.path.join(os.path.dirname(filename), ffile), if_not_defined=True)
+                # reading included files changes it
+                self.original_filename = filename
 
             return self.params
         except:
-- 
2.43.0


From 0e68f1d0ffe982aaae3b5d0bb60b3f3f32214c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:20 +0000
Subject: [PATCH 032/153] fix: IniFile.bool_list of F values

---
 python/getdist/inifile.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index daed820..3445f02 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -264,7 +264,15 @@ class IniFile:
 
         if not default:
             default = []
-        return self.split(name, default, tp=bool)
+
+        def as_bool(x):
+            if isinstance(x, bool):
+                return x
+            if x[:1] not in ('T', 'F'):
+                raise IniError('parameter does not have valid T(rue) or F(alse) boolean values: ' + name)
+            return x[0] == 'T'
+
+        return self.split(name, default, tp=as_bool)
 
     def string(self, name, default=None, allowEmpty=True):
         """
-- 
2.43.0


From c422a505d569e8431ce105b527d3cb3015efca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:20 +0000
Subject: [PATCH 033/153] fix: lists of values saved to ini files can be read
 back

---
 python/getdist/inifile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 3445f02..2c6e02d 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -149,6 +149,8 @@ class IniFile:
                 return value
             if type(value) == bool:
                 return str(value)[0]
+            if isinstance(value, (list, tuple)):
+                return ' '.join([asIniText(x) for x in value])
             return str(value)
 
         parameterLines = []
-- 
2.43.0


From 58fe1219ad096fa33861142c270b4fcd0987d95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:20 +0000
Subject: [PATCH 034/153] fix: do not lose other $ characters when expanding
 placeholders in ini files

---
 python/getdist/inifile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 2c6e02d..6dac9d1 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -51,16 +51,18 @@ class IniFile:
         while index < pathlen:
             c = s[index]
             if c == '$':
-                if s[index + 1] == '$':
+                if s[index + 1:index + 2] == '$':
                     res = res + c
                     index += 1
-                elif s[index + 1] == '(':
+                elif s[index + 1:index + 2] == '(':
                     s = s[index + 2:]
                     pathlen = len(s)
                     index = s.index(')')
                     var = s[:index]
                     if var in os.environ:
                         res += os.environ[var]
+                else:
+                    res = res + c
             else:
                 res = res + c
             index += 1
-- 
2.43.0


From 6556912e94a3a884db92a8c69c3850a677101be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:47 +0000
Subject: [PATCH 035/153] fix: load covariance matrix of a single parameter

---
 python/getdist/covmat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/covmat.py b/python/getdist/covmat.py
index d4a4e99..926a3cd 100644
--- a/python/getdist/covmat.py
+++ b/python/getdist/covmat.py
@@ -36,7 +36,7 @@ class CovMat:
             else:
                 raise Exception('.covmat must now have parameter names header')
             # noinspection PyTypeChecker
-            self.matrix = np.loadtxt(f)
+            self.matrix = np.loadtxt(f, ndmin=2)
 
     def saveToFile(self, filename):
         """
-- 
2.43.0


From a6bec3a20605d0bc0339ec7318255960c0480196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:47 +0000
Subject: [PATCH 036/153] fix: correlation of merged covariance matrices

---
 python/getdist/covmat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/covmat.py b/python/getdist/covmat.py
index 926a3cd..7edb536 100644
--- a/python/getdist/covmat.py
+++ b/python/getdist/covmat.py
@@ -80,6 +80,7 @@ class CovMat:
         map2 = dict(list(zip(params2, list(range(0, l2)))))
         covmap = dict(list(zip(list(range(0, length)), C.paramNames)))
 
+        C.size = length
         C.matrix = np.zeros((length, length))
         for i in range(0, length):
             for j in range(0, length):
-- 
2.43.0


From 5d7d45ef64b116e795274d46cd01e2a95a9257c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:10 +0000
Subject: [PATCH 037/153] fix: getCovMat when derived parameters are not last,
 and not sharing its matrix with the samples

---
 python/getdist/mcsamples.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index b70b7f8..06a2ce9 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -602,9 +602,8 @@ class MCSamples(Chains):
         :return: A :class:`~.covmat.CovMat` object holding the covariance
         """
         self._updateIfNeeded()
-        nparamNonDerived = self.paramNames.numNonDerived()
-        return covmat.CovMat(matrix=self.fullcov[:nparamNonDerived, :nparamNonDerived],
-                             paramNames=self.paramNames.list()[:nparamNonDerived])
+        names = self.paramNames.getRunningNames()
+        return covmat.CovMat(matrix=self.getCov(pars=[self.index[name] for name in names]), paramNames=names)
 
     def writeCovMatrix(self, filename=None):
         """
-- 
2.43.0


From b6cc62cc49c36196b8a09f20cb73223375d43def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:06 +0000
Subject: [PATCH 038/153] fix: total covariance of Gaussian mixtures

---
 python/getdist/gaussian_mixtures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 1c642f7..a51e870 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -43,8 +43,8 @@ class MixtureND:
         self.label = label
         self.total_mean = np.atleast_1d(np.dot(self.weights, self.means))
         self.total_cov = np.zeros((self.dim, self.dim))
-        for mean, cov, weight, totmean in zip(self.means, self.covs, self.weights, self.total_mean):
-            self.total_cov += weight * (cov + np.outer(mean - totmean, mean - totmean))
+        for mean, cov, weight in zip(self.means, self.covs, self.weights):
+            self.total_cov += weight * (cov + np.outer(mean - self.total_mean, mean - self.total_mean))
 
     def sim(self, size, random_state=None):
         """
-- 
2.43.0


From 921d70137f0924cdb48e2079e24a82882a53001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:06 +0000
Subject: [PATCH 039/153] fix: no_limit_marge option of mixture density1D

---
 python/getdist/gaussian_mixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index a51e870..5ca52a4 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -184,7 +184,7 @@ class MixtureND:
             self.checkNoLimits([index])
         mn, mx = self.autoRanges(sigma_max)[index]
         x = np.linspace(mn, mx, num_points)
-        like = self.pdf_marged(index, x)
+        like = self.pdf_marged(index, x, no_limit_marge=no_limit_marge)
         return Density1D(x, like)
 
     def density2D(self, params=None, num_points=1024, xmin=None, xmax=None, ymin=None, ymax=None, sigma_max=5):
-- 
2.43.0


From 67dd665d92d2c5c8efc56cdd1fe2bd245c9d8065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:06 +0000
Subject: [PATCH 040/153] fix: lower limit of Gaussian mixtures

---
 python/getdist/gaussian_mixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 5ca52a4..9b9c6c7 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -319,7 +319,7 @@ class MixtureND:
     def getLower(self, name):
         if self.lims is None:
             return None
-        return self.lims[self.names.index(name)][1]
+        return self.lims[self.names.index(name)][0]
 
 
 class Mixture2D(MixtureND):
-- 
2.43.0


From 398112aaa28fdc7c7a6c478b245533303e078382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:06 +0000
Subject: [PATCH 041/153] fix: weights of the components of conditional
 Gaussian mixtures

---
 python/getdist/gaussian_mixtures.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 9b9c6c7..fcd6f37 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -282,14 +282,11 @@ class MixtureND:
             deltas = np.asarray(fixed_param_values) - mean[fixed_params]
             new_cov = np.linalg.inv(invcov[np.ix_(keep_params, keep_params)])
             new_mean = mean[keep_params] - new_cov.dot(invcov[np.ix_(keep_params, fixed_params)].dot(deltas))
-            if len(self.weights) == 1 and False:
-                logw = 0
-            else:
-                logw = invcov[np.ix_(fixed_params, fixed_params)].dot(deltas).dot(deltas) \
-                       + np.log(np.linalg.det(cov[np.ix_(fixed_params, fixed_params)]
-                                              - cov[np.ix_(fixed_params, keep_params)]
-                                              .dot(np.linalg.inv(cov[np.ix_(keep_params, keep_params)])
-                                                   .dot(cov[np.ix_(keep_params, fixed_params)]))))
+            # -2 log of the component weight times its marginalized density at the fixed parameter values
+            fixed_cov = cov[np.ix_(fixed_params, fixed_params)]
+            with np.errstate(divide='ignore'):
+                logw = np.linalg.solve(fixed_cov, deltas).dot(deltas) + np.log(np.linalg.det(fixed_cov)) \
+                       - 2 * np.log(weight)
             new_weights.append(logw)
             new_means.append(new_mean)
             new_covs.append(new_cov)
-- 
2.43.0


From 88e8cbf0f26225c7da7503ca89eabe71022a0cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:06 +0000
Subject: [PATCH 042/153] fix: log likelihoods of samples from 1D Gaussian
 mixtures

---
 python/getdist/gaussian_mixtures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index fcd6f37..ba0d6d0 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -453,6 +453,9 @@ class Mixture1D(MixtureND):
         MixtureND.__init__(self, means, covs, weights, limits, names=[name], **kwargs)
 
     def pdf(self, x):
+        x = np.asarray(x)
+        if len(x.shape) == 2 and x.shape[1] == 1:
+            x = x[:, 0]
         return self.pdf_marged(0, x)
 
 
-- 
2.43.0


From 9b0ef26edaa77605a74d2fd5d2847dca2e3f82a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:31 +0000
Subject: [PATCH 043/153] fix: names given for samples from Gaussian mixtures

---
 python/getdist/gaussian_mixtures.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index ba0d6d0..fdb9147 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -97,8 +97,11 @@ class MixtureND:
             loglikes = -np.log(self.pdf(samples))
         else:
             loglikes = None
-        return MCSamples(samples=samples, loglikes=loglikes, paramNamesFile=copy.deepcopy(self.paramNames),
-                         names=names, ranges=self.lims, **kwargs)
+        param_names = copy.deepcopy(self.paramNames)
+        if names is not None:
+            for par, name in zip(param_names.names, names):
+                par.setName(name)
+        return MCSamples(samples=samples, loglikes=loglikes, paramNamesFile=param_names, ranges=self.lims, **kwargs)
 
     def autoRanges(self, sigma_max=4, lims=None):
         res = []
-- 
2.43.0


From 4e4c1c5b0ec819e3855997d3bdabd6c8570aad6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:47 +0000
Subject: [PATCH 044/153] fix: large values are not rounded to less than the
 precision of their errors

---
 python/getdist/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index c777e18..9c9e235 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -115,6 +115,10 @@ class NumberFormatter:
         plus_str = self.formatNumber(limplus, err_sf, wantSign)
         minus_str = self.formatNumber(limminus, err_sf, wantSign)
         res = self.formatNumber(value, sf)
+        if not self.decimal_places(plus_str):
+            # do not round integer digits of the value more than those of its error
+            sf = max(sf, len(res.lstrip('-').split('.')[0]) - len(plus_str.lstrip('+-')) + err_sf)
+            res = self.formatNumber(value, sf)
         maxdp = max(self.decimal_places(plus_str), self.decimal_places(minus_str))
         while maxdp < self.decimal_places(res):
             sf -= 1
-- 
2.43.0


From b077fc9c4fe6d278dae8d28e881f68011204bede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:40 +0000
Subject: [PATCH 045/153] fix: latex of parameter shifts relative to reference
 results

---
 python/getdist/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 9c9e235..38d25d4 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -816,10 +816,12 @@ class MargeStats(ParamResults):
                         if shiftSigma_indep:
                             # give mean shift in sigma units for independent data
                             indep_sigma = np.sqrt(param.err ** 2 + refVal.err ** 2)
-                            res += ', %+.1f \\sigma_i' % (delta / indep_sigma)
+                            if shiftSigma_subset:
+                                res += ', '
+                            res += '%+.1f \\sigma_i' % (delta / indep_sigma)
                         res += ')'
                     else:
-                        res += r'\quad(%+.1f \\sigma)' % (delta / refVal.err)
+                        res += r'\quad(%+.1f \sigma)' % (delta / refVal.err)
             if self.hasBestFit:  # add best fit too
                 rangew = (lim.upper - lim.lower) / 10
                 bestfit, _, _, exponent = formatter.numberFormatter.namesigFigs(param.best_fit, rangew, -rangew,
-- 
2.43.0


From e7053313ab6fb2b7aef25e0c545852417f692f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:38 +0000
Subject: [PATCH 046/153] fix: number formatter given for a table is used

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 38d25d4..d08f670 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -300,7 +300,7 @@ class ResultTable:
         if paramList is not None:
             self.tableParamNames = self.tableParamNames.filteredCopy(paramList)
         if numFormatter is not None:
-            self.format.numFormatter = numFormatter
+            self.format.numberFormatter = numFormatter
 
         self.results = results
         self.boldBaseParameters = True
-- 
2.43.0


From 45b7ea675ab34adce8c363aeb977d1c429ff0a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:38 +0000
Subject: [PATCH 047/153] fix: tables of several results with best fits keep
 their columns where a parameter is missing

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index d08f670..191730a 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -381,7 +381,7 @@ class ResultTable:
             txt += self.format.textAsColumn(values[0], values[0] != self.format.noConstraint)
             return txt
         else:
-            return self.format.textAsColumn('') * len(result.getColumnLabels(self.limit))
+            return self.format.colSeparator.join([self.format.textAsColumn('')] * len(result.getColumnLabels(self.limit)))
 
     def paramLabelColumn(self, param):
         return self.format.textAsColumn(param.getLabel(), True, separator=True, bold=not param.isDerived)
-- 
2.43.0


From 48c252ef867d4882c7e88d1281f1e44094061062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:38 +0000
Subject: [PATCH 048/153] fix: tables of best fits, or of a single result

---
 python/getdist/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 191730a..0c0b02b 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -293,6 +293,8 @@ class ResultTable:
         else:
             self.format = formatter
         self.ncol = ncol
+        if isinstance(results, ParamResults):
+            results = [results]
         if tableParamNames is None:
             self.tableParamNames = results[0]
         else:
@@ -501,7 +503,7 @@ class BestFit(ParamResults):
         if setParamNameFile is not None:
             self.setLabelsFromParamNames(setParamNameFile)
 
-    def getColumnLabels(self, **kwargs):
+    def getColumnLabels(self, limit=None):
         return ['Best fit']
 
     def loadFromFile(self, filename, want_fixed=False):
@@ -569,7 +571,7 @@ class BestFit(ParamResults):
                 return val.chisq
         return None
 
-    def texValues(self, formatter, p, **kwargs):
+    def texValues(self, formatter, p, limit=None, refResults=None, **kwargs):
         param = self.parWithName(p.name)
         if param is not None:
             return [formatter.numberFormatter.formatNumber(param.best_fit)]
-- 
2.43.0


From b5537da2ce32d0b12c204355fbb9abf753e16087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:38 +0000
Subject: [PATCH 049/153] fix: load marginalized statistics of parameters
 without labels

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 0c0b02b..7bd0425 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -696,7 +696,7 @@ class MargeStats(ParamResults):
                 param.name = param.name[:-1]
             param.mean = float(items[1])
             param.err = float(items[2])
-            param.label = items[-1]
+            param.label = items[-1] if len(items) > len(self.limits) * 3 + 3 else ''
             param.limits = []
             for i in range(len(self.limits)):
                 param.limits.append(ParamLimit([float(s) for s in items[3 + i * 3:5 + i * 3]], items[5 + i * 3]))
-- 
2.43.0


From 5ba8e6148cd18a27157cd66709a9b68fd12f0b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:38 +0000
Subject: [PATCH 050/153] fix: load best fits of parameters without labels

---
 python/getdist/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 7bd0425..8a70896 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -552,7 +552,9 @@ class BestFit(ParamResults):
                 param = ParamInfo()
                 param.isFixed = isFixed
                 param.isDerived = isDerived
-                (param.number, param.best_fit, param.name, param.label) = [s.strip() for s in line.split(None, 3)]
+                items = [s.strip() for s in line.split(None, 3)]
+                (param.number, param.best_fit, param.name) = items[:3]
+                param.label = items[3] if len(items) > 3 else ''
                 param.number = int(param.number)
                 param.best_fit = float(param.best_fit)
                 self.names.append(param)
-- 
2.43.0


From 6cf9817b54fabb30a735739e933ed6b3b8ac0ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:38 +0000
Subject: [PATCH 051/153] fix: likelihood summary when the log mean inverse
 likelihood is zero

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 8a70896..0943699 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -863,7 +863,7 @@ class LikeStats(ParamResults):
 
     def likeSummary(self):
         text = "Best fit sample -log(Like) = %f\n" % self.logLike_sample
-        if self.logMeanInvLike:
+        if self.logMeanInvLike is not None:
             text += "Ln(mean 1/like) = %f\n" % self.logMeanInvLike
         text += "mean(-Ln(like)) = %f\n" % self.meanLogLike
         text += "-Ln(mean like)  = %f\n" % self.logMeanLike
-- 
2.43.0


From 06827ed48f23415b65b286b3d42cb2f004f9f2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:15 +0000
Subject: [PATCH 052/153] fix: names of likelihoods without a type in best fit
 files

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 0943699..94c69eb 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -538,7 +538,7 @@ class BestFit(ParamResults):
                             if len(name) > 1:
                                 (kind, name) = name
                             else:
-                                kind = ''
+                                (kind, name) = ('', name[0])
                             chi2 = LikelihoodChi2()
                             if '=' in name:
                                 chi2.tag, chi2.name = [s.strip() for s in name.split('=')]
-- 
2.43.0


From be3b8038b11cb3585dc7268fbf4c45dd21a0f310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:11 +0000
Subject: [PATCH 053/153] fix: best sample dictionary includes only the
 requested parameters

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 06a2ce9..65d1c71 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2382,7 +2382,7 @@ class MCSamples(Chains):
         if best_sample:
             if not max_posterior:
                 raise ValueError('best_fit_sample is only maximum posterior')
-            return self.getParamSampleDict(np.argmin(self.loglikes))
+            return self.getParamSampleDict(np.argmin(self.loglikes), want_derived=want_derived, want_fixed=want_fixed)
         else:
             res = self.getBestFit(max_posterior=max_posterior).getParamDict(include_derived=want_derived)
         if want_fixed:
-- 
2.43.0


From 344330ad6c8116c0764d4644750c2f7a7761c10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:11 +0000
Subject: [PATCH 054/153] fix: sample dictionary of samples without likelihoods

---
 python/getdist/chains.py    | 3 ++-
 python/getdist/mcsamples.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index d0858e4..7a9f92c 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1306,7 +1306,8 @@ class Chains(WeightedSamples):
         """
         res = dict()
         res['weight'] = self.weights[ix]
-        res['loglike'] = self.loglikes[ix]
+        if self.loglikes is not None:
+            res['loglike'] = self.loglikes[ix]
         for i, name in enumerate(self.paramNames.names):
             if want_derived or not name.isDerived:
                 res[name.name] = self.samples[ix, i]
diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 65d1c71..0b5d412 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2382,6 +2382,8 @@ class MCSamples(Chains):
         if best_sample:
             if not max_posterior:
                 raise ValueError('best_fit_sample is only maximum posterior')
+            if self.loglikes is None:
+                raise MCSamplesError('best sample requires samples with likelihoods')
             return self.getParamSampleDict(np.argmin(self.loglikes), want_derived=want_derived, want_fixed=want_fixed)
         else:
             res = self.getBestFit(max_posterior=max_posterior).getParamDict(include_derived=want_derived)
-- 
2.43.0


From b610384a5c8c7b04cf781a2bed309b1938db0132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:27 +0000
Subject: [PATCH 055/153] fix: command line analysis removes the same burn in
 as the library

---
 python/getdist/command_line.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/getdist/command_line.py b/python/getdist/command_line.py
index df61b80..bc52d14 100644
--- a/python/getdist/command_line.py
+++ b/python/getdist/command_line.py
@@ -67,9 +67,7 @@ def getdist_script(args, exit_on_error=True):
     rootname = os.path.basename(in_root)
 
     if args.ignore_rows is not None:
-        ignorerows = args.ignore_rows
-    else:
-        ignorerows = ini.float('ignore_rows', 0.0)
+        ini.params['ignore_rows'] = args.ignore_rows
 
     samples_are_chains = ini.bool('samples_are_chains', True)
 
@@ -145,8 +143,10 @@ def getdist_script(args, exit_on_error=True):
 
     mc.loadChains(in_root, chain_files)
 
-    mc.removeBurnFraction(ignorerows)
+    # any initial rows to ignore are already removed on loading
+    mc.removeBurnFraction(mc.ignore_frac)
     if chains.print_load_details:
+        ignorerows = mc.ignore_lines or mc.ignore_frac
         if ignorerows:
             doprint('Removed %s as burn in' % ignorerows)
         else:
-- 
2.43.0


From ea24d297e78f7564f3342051079a7b22c352bd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:28 +0000
Subject: [PATCH 056/153] fix: plot scripts refer to the chain analysed when
 out_root is set

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 0b5d412..a23bbc3 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2566,7 +2566,7 @@ class MCSamples(Chains):
             f.write("g=plots.GetDistPlotter(chain_dir=r'%s')\n" % (self.batch_path or os.path.dirname(self.root)))
 
             f.write("g.settings.set_with_subplot_size(%s)\n" % subplot_size)
-            f.write("roots = ['%s']\n" % self.rootname)
+            f.write("roots = ['%s']\n" % os.path.basename(self.root))
             f.write(text + '\n')
             ext = ext or self.plot_output
             fname = self.rootname + tag + '.' + ext
-- 
2.43.0


From 02aff41e686c2678ba3dde2b7feca6cd6360f697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:28 +0000
Subject: [PATCH 057/153] fix: PCA mappings of the right parameters when some
 do not exist

---
 python/getdist/mcsamples.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index a23bbc3..df0dade 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -663,6 +663,9 @@ class MCSamples(Chains):
 
         PCAtext = 'PCA for parameters:\n'
 
+        if param_map is not None:
+            # keep mapping in step with the parameters that exist (e.g. any fixed ones are removed)
+            param_map = [mapping for name, mapping in zip(params, param_map) if self.paramNames.parWithName(name)]
         params = [name for name in params if self.paramNames.parWithName(name)]
         nparams = len(params)
         indices = [self.index[param] for param in params]
-- 
2.43.0


From 7efde13ebbb130935866d27a40d6a0a515d664b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:53 +0000
Subject: [PATCH 058/153] fix: files without weight and likelihood columns
 (samples_are_chains = F)

---
 python/getdist/chains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 7a9f92c..bcbb695 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1115,6 +1115,7 @@ class Chains(WeightedSamples):
         super().__init__(**kwargs)
         self.jobItem = jobItem
         self.ignore_lines = float(kwargs.get('ignore_rows', 0))
+        self.files_are_chains = kwargs.get('files_are_chains', True)
         self.root = root
         if not paramNamesFile and root:
             if os.path.exists(root + '.paramnames'):
@@ -1395,7 +1396,7 @@ class Chains(WeightedSamples):
             for fname in files_or_samples:
                 print_load_line(fname)
                 try:
-                    self.chains.append(WeightedSamples(fname, **WSkwargs))
+                    self.chains.append(WeightedSamples(fname, files_are_chains=self.files_are_chains, **WSkwargs))
                 except WeightedSampleError:
                     print_load_line('Ignored file %s (likely empty)' % fname)
             nchains = len(self.chains)
-- 
2.43.0


From 7922df68d54e5e7208218d0a6b6cc4118e00962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:15 +0000
Subject: [PATCH 059/153] fix: combine samples of parameters with dots in their
 names

---
 python/getdist/mcsamples.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index df0dade..576da5e 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2432,9 +2432,7 @@ class MCSamples(Chains):
         else:
             fac = np.sum(self.weights) / np.sum(samps2.weights)
         weights = np.concatenate([self.weights * sample_weights[0], samps2.weights * sample_weights[1] * fac])
-        p1 = self.getParams()
-        p2 = samps2.getParams()
-        samples = np.array([np.concatenate([getattr(p1, name), getattr(p2, name)]) for name in params.list()]).T
+        samples = np.array([np.concatenate([self[name], samps2[name]]) for name in params.list()]).T
         samps = MCSamples(samples=samples, weights=weights, loglikes=loglikes, paramNamesFile=params, ignore_rows=0,
                           ranges=self.ranges, settings=copy.deepcopy(self.ini.params))
         return samps
-- 
2.43.0


From d5f6995d6c529baa21ee6211ed214f38c903c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:56 +0000
Subject: [PATCH 060/153] fix: Cobaya priors without limits or location, and
 reading priors does not change them

---
 python/getdist/cobaya_interface.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 7cb5f02..399aca1 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -127,7 +127,7 @@ def get_info_params(info):
     info_params = info.get(_params)
     info_params_full = dict()
     for p, pinfo in info_params.items():
-        info_params_full[p] = info_params[p]
+        info_params_full[p] = deepcopy(pinfo)
     # Add prior and likelihoods
     priors = [_prior_1d_name] + list(info.get(_prior) or [])
     likes = list(info.get(_likelihood))
@@ -163,21 +163,21 @@ def get_info_params(info):
 def get_range(param_info):
     # Sampled
     if is_sampled_param(param_info):
-        if isinstance(param_info[_prior], Sequence) and len(param_info[_prior]) == 2:
-            param_info[_prior] = \
-                {lim: n for lim, n in zip(["min", "max"], param_info[_prior])}
-        elif not isinstance(param_info[_prior], Mapping):
+        prior = param_info[_prior]
+        if isinstance(prior, Sequence) and len(prior) == 2:
+            prior = {lim: n for lim, n in zip(["min", "max"], prior)}
+        elif not isinstance(prior, Mapping):
             raise ValueError(
-                "Format of prior not recognised: %r. " % param_info[_prior] +
+                "Format of prior not recognised: %r. " % prior +
                 "Use '[min, max]' or a dictionary following Cobaya's documentation.")
-        info_lims = dict((tag, param_info[_prior].get(tag))
-                         for tag in ["min", "max", "loc", "scale"])
-        if info_lims["min"] is not None or info_lims["max"] is not None:
-            lims = [param_info[_prior].get("min"), param_info[_prior].get("max")]
-        elif info_lims["loc"] is not None or info_lims["scale"] is not None:
-            dist = param_info[_prior].pop(_p_dist, "uniform")
+        if prior.get("min") is not None or prior.get("max") is not None:
+            lims = [prior.get("min"), prior.get("max")]
+        else:
+            # location and scale default to 0 and 1 if not given
+            kwargs = {k: v for k, v in prior.items() if k != _p_dist and v is not None}
+            dist = prior.get(_p_dist) or "uniform"
             pdf_dist = getattr(import_module("scipy.stats", dist), dist)
-            lims = pdf_dist.interval(1, **param_info[_prior])
+            lims = pdf_dist.interval(1, **kwargs)
     # Derived
     elif is_derived_param(param_info):
         lims = (lambda i: [i.get("min", -np.inf), i.get("max", np.inf)])(param_info or {})
-- 
2.43.0


From e4725b788ddd333cafb2d3822b2128519141ac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:56 +0000
Subject: [PATCH 061/153] fix: burn in already removed by Cobaya
 post-processing

---
 python/getdist/cobaya_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 399aca1..b37d9b3 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -260,6 +260,6 @@ def get_sample_label(filename_or_info):
 
 
 def get_burn_removed(filename_or_info):
-    info = get_info_params(filename_or_info)
+    info = yaml_file_or_dict(filename_or_info)
     # if skip burn in *has already been done*
-    return info.get(_post, {}).get("skip", 0)
+    return (info.get(_post) or {}).get("skip", 0)
-- 
2.43.0


From f93042251666e22ae768f0a445fa33b14312306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:56 +0000
Subject: [PATCH 062/153] fix: short forms of Cobaya parameter and
 post-processing info

---
 python/getdist/cobaya_interface.py | 35 ++++++++++++++++--------------
 python/getdist/paramnames.py       | 10 ++++-----
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index b37d9b3..8adc0b7 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -83,7 +83,7 @@ def MCSamplesFromCobaya(info, collections, name_tag=None,
     # Check consistency with info
     info_params = get_info_params(info)
     # if skip burn in *has already been done*
-    skip = info.get(_post, {}).get("skip", 0)
+    skip = get_burn_removed(info)
     if ignore_rows != 0 and skip != 0:
         logging.warning("You are asking for rows to be ignored (%r), but some (%r) were "
                         "already ignored in the original chain.", ignore_rows, skip)
@@ -98,10 +98,10 @@ def MCSamplesFromCobaya(info, collections, name_tag=None,
     # We need to use *collection* sorting, not info sorting!
     names = [p + ("*" if is_derived_param(info_params[p]) else "")
              for p in columns[2:]]
-    labels = [(info_params[p] or {}).get(_p_label, p) for p in columns[2:]]
+    labels = [expand_info_param(info_params[p]).get(_p_label, p) for p in columns[2:]]
     ranges = {p: get_range(info_params[p]) for p in
               info_params}  # include fixed parameters not in columns
-    renames = {p: info_params.get(p, {}).get(_p_renames, []) for p in columns[2:]}
+    renames = {p: expand_info_param(info_params[p]).get(_p_renames, []) for p in columns[2:]}
     samples = [c[c.data.columns[2:]].values for c in collections]
     weights = [c[_weight].values for c in collections]
     loglikes = [c[_minuslogpost].values for c in collections]
@@ -130,23 +130,26 @@ def get_info_params(info):
         info_params_full[p] = deepcopy(pinfo)
     # Add prior and likelihoods
     priors = [_prior_1d_name] + list(info.get(_prior) or [])
-    likes = list(info.get(_likelihood))
+    likes = list(info.get(_likelihood) or [])
     # Account for post
-    remove = info.get(_post, {}).get("remove", {})
-    for param in remove.get(_params, []) or []:
+    post = info.get(_post) or {}
+    remove = post.get("remove") or {}
+    for param in str_to_list(remove.get(_params) or []):
         info_params_full.pop(param, None)
     for like in str_to_list(remove.get(_likelihood) or []):
         likes.remove(like)
     for prior in str_to_list(remove.get(_prior)) or []:
         priors.remove(prior)
-    add = info.get(_post, {}).get("add", {})
+    add = post.get("add") or {}
     # Adding derived params and updating 1d priors
-    for param, pinfo in add.get(_params, {}).items():
-        pinfo_old = info_params_full.get(param, {})
-        pinfo_old.update(pinfo)
-        info_params_full[param] = pinfo_old
-    likes += list(add.get(_likelihood, []))
-    priors += list(add.get(_prior, []))
+    for param, pinfo in (add.get(_params) or {}).items():
+        pinfo_old = info_params_full.get(param)
+        if isinstance(pinfo_old, Mapping) and (pinfo is None or isinstance(pinfo, Mapping)):
+            pinfo_old.update(pinfo or {})
+        else:
+            info_params_full[param] = deepcopy(pinfo)
+    likes += list(str_to_list(add.get(_likelihood) or []))
+    priors += list(str_to_list(add.get(_prior) or []))
     # Add the prior and the likelihood as derived parameters
     info_params_full[_minuslogprior] = {_p_label: r"-\log\pi"}
     for prior in priors:
@@ -180,16 +183,16 @@ def get_range(param_info):
             lims = pdf_dist.interval(1, **kwargs)
     # Derived
     elif is_derived_param(param_info):
-        lims = (lambda i: [i.get("min", -np.inf), i.get("max", np.inf)])(param_info or {})
+        lims = (lambda i: [i.get("min", -np.inf), i.get("max", np.inf)])(expand_info_param(param_info))
     # Fixed
     else:
         value = fixed_value(param_info)
         try:
             value = float(value)
-        except ValueError:
+        except (ValueError, TypeError):
             # e.g. lambda function values
             lims = (lambda i: [i.get("min", -np.inf), i.get("max", np.inf)])(
-                param_info or {})
+                expand_info_param(param_info))
         else:
             lims = (value, value)
     return lims[0] if lims[0] != -np.inf else None, lims[1] if lims[1] != np.inf else None
diff --git a/python/getdist/paramnames.py b/python/getdist/paramnames.py
index 730b384..508d51f 100644
--- a/python/getdist/paramnames.py
+++ b/python/getdist/paramnames.py
@@ -430,15 +430,15 @@ class ParamNames(ParamList):
         elif extension.lower() in ('.yaml', '.yml'):
             from getdist import yaml_tools
             from getdist.cobaya_interface import get_info_params, is_sampled_param
-            from getdist.cobaya_interface import is_derived_param, _p_label, _p_renames
+            from getdist.cobaya_interface import is_derived_param, expand_info_param, _p_label, _p_renames
             self.info_dict = yaml_tools.yaml_load_file(fileName)
             info_params = get_info_params(self.info_dict)
             # first sampled, then derived
-            self.names = [ParamInfo(name=param, label=(info or {}).get(_p_label, param),
-                                    renames=(info or {}).get(_p_renames))
+            self.names = [ParamInfo(name=param, label=expand_info_param(info).get(_p_label, param),
+                                    renames=expand_info_param(info).get(_p_renames))
                           for param, info in info_params.items() if is_sampled_param(info)]
-            self.names += [ParamInfo(name=param, label=(info or {}).get(_p_label, param),
-                                     renames=(info or {}).get(_p_renames), derived=True)
+            self.names += [ParamInfo(name=param, label=expand_info_param(info).get(_p_label, param),
+                                     renames=expand_info_param(info).get(_p_renames), derived=True)
                            for param, info in info_params.items() if is_derived_param(info)]
         else:
             raise ValueError('ParanNames must be loaded from .paramnames or .yaml/.yml file, '
-- 
2.43.0


From d4ddbe77e863a4923eb65862ac4b6b7b9e57179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:32 +0000
Subject: [PATCH 063/153] fix: wildcard roots of Cobaya chains on the command
 line

---
 python/getdist/command_line.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/getdist/command_line.py b/python/getdist/command_line.py
index bc52d14..f24f2c7 100644
--- a/python/getdist/command_line.py
+++ b/python/getdist/command_line.py
@@ -44,7 +44,9 @@ def getdist_script(args, exit_on_error=True):
         for ending in ['.paramnames', 'updated.yaml']:
             for f in glob.glob(chain_root + ending):
                 fileargs = copy.copy(args)
-                fileargs.chain_root = f.replace(ending, '')
+                fileargs.chain_root = f[:-len(ending)]
+                if ending == 'updated.yaml':
+                    fileargs.chain_root = fileargs.chain_root.rstrip('.')
                 getdist_script(fileargs)
         return
 
-- 
2.43.0


From 63bc95272b4bc71361ce37c57f3182c842625a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:03 +0000
Subject: [PATCH 064/153] fix: find chains in directories given by relative
 path

---
 python/getdist/chain_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chain_grid.py b/python/getdist/chain_grid.py
index cba5cd1..5ebf707 100644
--- a/python/getdist/chain_grid.py
+++ b/python/getdist/chain_grid.py
@@ -21,7 +21,7 @@ def get_chain_root_files(rootdir):
     ending = 'updated.yaml'
     pattern = os.path.join(rootdir, "*" + ending)
     files += [f[:-len(ending)].rstrip("_.") for f in glob.glob(pattern)]
-    files = [f for f in files if hasChainFiles(os.path.join(rootdir, f))]
+    files = [f for f in files if hasChainFiles(f)]
     files.sort()
     return files
 
-- 
2.43.0


From 62d3869fffb466916905fa6ac6d6c7ea78a731c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:03 +0000
Subject: [PATCH 065/153] fix: path of chains named by their directory

---
 python/getdist/chain_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/chain_grid.py b/python/getdist/chain_grid.py
index 5ebf707..4627184 100644
--- a/python/getdist/chain_grid.py
+++ b/python/getdist/chain_grid.py
@@ -91,7 +91,8 @@ class ChainDirGrid:
         for root in roots:
             root = file_root_to_root(root)
             self.roots[root] = self.roots.get(root, []) + [
-                ChainItem(self.batchPath, os.path.join(dirname, root), dir_tag, root)]
+                ChainItem(self.batchPath, os.path.join(dirname, '' if root.endswith(os.sep) else root),
+                          dir_tag, root)]
 
     def _make_unique(self):
         for root in list(self.roots):
-- 
2.43.0


From edc18ce0ef8b7f1447829f9f74dc75760f51a308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:03 +0000
Subject: [PATCH 066/153] fix: unique names of chains with the same root in
 several directories

---
 python/getdist/chain_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chain_grid.py b/python/getdist/chain_grid.py
index 4627184..8edde33 100644
--- a/python/getdist/chain_grid.py
+++ b/python/getdist/chain_grid.py
@@ -101,7 +101,7 @@ class ChainDirGrid:
             if len(self.roots[root]) > 1:
                 paths = [item.chainRoot.split(os.sep) for item in self.roots[root]]
                 i = -2
-                while all(s[i] == paths[0][i] for s in paths[1:]):
+                while len(set(tuple(s[i:]) for s in paths)) < len(paths):
                     i -= 1
                 for parts, item in zip(paths, self.roots[root]):
                     item.name = '/'.join(parts[i:])
-- 
2.43.0


From 0954ead78461a14aeb82ca13b1bf86b019861650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:03 +0000
Subject: [PATCH 067/153] fix: find chains with any chain number

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index bcbb695..cf411e2 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -130,7 +130,7 @@ def chainFiles(root, chain_indices=None, ext='.txt', separator="_",
 
 
 def hasChainFiles(file_root, ext='.txt'):
-    return any(chainFiles(file_root, ext=ext, separator=sep, last_chain=1) for sep in ['_', '.'])
+    return any(chainFiles(file_root, ext=ext, separator=sep) for sep in ['_', '.'])
 
 
 _pandas_suggestion = True
-- 
2.43.0


From 55d6c9f7a13328c44187ce8e63ba078e470700ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:03 +0000
Subject: [PATCH 068/153] fix: settings of a chain directory apply only to its
 own chains

---
 python/getdist/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 60b0ec0..1cc5386 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -512,10 +512,10 @@ class MCSampleAnalysis(_BaseObject):
                         break
                 else:
                     file_root = findChainFileRoot(chain_dir, root)
-                    dir_ini = os.path.join(chain_dir, 'getdist.ini')
-                    if os.path.exists(dir_ini):
-                        dist_settings.update(IniFile(dir_ini).params)
                     if file_root:
+                        dir_ini = os.path.join(chain_dir, 'getdist.ini')
+                        if os.path.exists(dir_ini):
+                            dist_settings.update(IniFile(dir_ini).params)
                         break
 
         if not file_root:
-- 
2.43.0


From 6a1f60fb4f35fe4aadaa758e31dea6e60480112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:03 +0000
Subject: [PATCH 069/153] fix: densities of chains that are loaded again, or
 from another location

---
 python/getdist/plots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 1cc5386..1a64b6a 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -487,10 +487,11 @@ class MCSampleAnalysis(_BaseObject):
             raise GetDistPlotError('MixtureND is a distribution not a set of samples')
         elif not isinstance(root, str):
             raise GetDistPlotError('Root names must be strings (or MCSamples instances)')
-        if root in self.mcsamples and cache:
-            return self.mcsamples[root]
         if os.path.isabs(root):
             file_root = root
+        if root in self.mcsamples and cache and \
+                (not file_root or os.path.abspath(file_root) == os.path.abspath(self.mcsamples[root].root)):
+            return self.mcsamples[root]
         job_item = None
         if self.chain_settings_have_priority:
             dist_settings = dict(settings) if settings else {}
@@ -524,6 +525,7 @@ class MCSampleAnalysis(_BaseObject):
             dist_settings.update(self.ini.params)
             if settings:
                 dist_settings.update(settings)
+        self.remove_root(root)
         self.mcsamples[root] = loadMCSamples(file_root, self.ini, job_item, settings=dist_settings)
         return self.mcsamples[root]
 
-- 
2.43.0


From 17290c802c6c17051c66fb4364309010a6a13425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:03 +0000
Subject: [PATCH 070/153] fix: plot current densities of sample objects that
 have been changed

---
 python/getdist/plots.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 1a64b6a..7f12673 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -565,6 +565,17 @@ class MCSampleAnalysis(_BaseObject):
         self.densities_1D.pop(root, None)
         self.densities_2D.pop(root, None)
 
+    def _cached_for_root(self, cache, root):
+        # cached results for root, starting again if the samples or their settings have since been changed
+        samples = self.samples_for_root(root)
+        samples._updateIfNeeded()
+        state, results = cache.get(root, (None, None))
+        if state is not samples.density1D:
+            # samples.density1D is a new object each time the statistics are updated
+            results = {}
+            cache[root] = (samples.density1D, results)
+        return results
+
     def get_density(self, root, param, likes=False):
         """
         Get :class:`~.densities.Density1D` for given root name and parameter
@@ -574,15 +585,12 @@ class MCSampleAnalysis(_BaseObject):
         :param likes: whether to include mean likelihood in density.likes
         :return:  :class:`~.densities.Density1D` instance with 1D marginalized density
         """
-        rootdata = self.densities_1D.get(root)
-        if rootdata is None:
-            rootdata = {}
-            self.densities_1D[root] = rootdata
         if isinstance(param, ParamInfo):
             name = param.name
         else:  #
             name = param
         samples = self.samples_for_root(root)
+        rootdata = self._cached_for_root(self.densities_1D, root)
         key = (name, likes)
         rootdata.pop((name, not likes), None)
         density = rootdata.get(key)
@@ -604,10 +612,7 @@ class MCSampleAnalysis(_BaseObject):
         :param likes: whether to include mean likelihoods
         :return: :class:`~.densities.Density2D` instance with marginalized density
         """
-        rootdata = self.densities_2D.get(root)
-        if not rootdata:
-            rootdata = {}
-            self.densities_2D[root] = rootdata
+        rootdata = self._cached_for_root(self.densities_2D, root)
         key = (param1.name, param2.name, likes, conts)
         density = rootdata.get(key)
         if not density:
@@ -625,9 +630,10 @@ class MCSampleAnalysis(_BaseObject):
         :param root: The root name to use.
         :return: array of unit weight samples
         """
-        if root not in self.single_samples:
-            self.single_samples[root] = self.samples_for_root(root).makeSingleSamples()
-        return self.single_samples[root]
+        cached = self._cached_for_root(self.single_samples, root)
+        if 'samples' not in cached:
+            cached['samples'] = self.samples_for_root(root).makeSingleSamples()
+        return cached['samples']
 
     def params_for_root(self, root, label_params=None):
         """
-- 
2.43.0


From 1896bcb31efc6bfdcc6257461767a9f85ef73376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:59 +0000
Subject: [PATCH 071/153] fix: style of a plotted line does not change
 settings.plot_args

---
 python/getdist/plots.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 7f12673..db70f2a 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -791,6 +791,7 @@ class GetDistPlotter(_BaseObject):
         else:
             raise GetDistPlotError(
                 'plot_args must be list of dictionaries or dictionary: %s' % self.settings.plot_args)
+        args = dict(args)
         args.update(kwargs)
         return args
 
-- 
2.43.0


From 9e374e49934887751718d520813d35cb954b1df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:59 +0000
Subject: [PATCH 072/153] fix: plotting normalized densities does not change
 the densities of the samples

---
 python/getdist/plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index db70f2a..ae30be3 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -982,6 +982,8 @@ class GetDistPlotter(_BaseObject):
 
         title_limit = title_limit if title_limit is not None else self.settings.title_limit
         if normalized:
+            # do not change the density cached by the samples
+            density = copy.copy(density)
             density.normalize()
 
         kwargs = self._get_line_styles(plotno, **kwargs)
-- 
2.43.0


From fd93746e62613d97b6042148705d77553caa02df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:59 +0000
Subject: [PATCH 073/153] fix: 1D plots honour settings.norm_1d_density

---
 python/getdist/plots.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index ae30be3..576fc8d 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1539,7 +1539,7 @@ class GetDistPlotter(_BaseObject):
         ax.set_zlabel(param.latexLabel(), fontsize=self._scaled_fontsize(self.settings.axes_labelsize), **kwargs)
 
     def plot_1d(self, roots, param, marker=None, marker_color=None, label_right=False, title_limit=None,
-                no_ylabel=False, no_ytick=False, no_zero=False, normalized=False, param_renames=None, ax=None,
+                no_ylabel=False, no_ytick=False, no_zero=False, normalized=None, param_renames=None, ax=None,
                 **kwargs):
         """
         Make a single 1D plot with marginalized density lines.
@@ -1586,6 +1586,8 @@ class GetDistPlotter(_BaseObject):
 
         """
         roots = makeList(roots)
+        if normalized is None:
+            normalized = self.settings.norm_1d_density
         ax = self.get_axes(ax, pars=(param,))
         plotparam = None
         plotroot = None
-- 
2.43.0


From 4b1f16b4ee3fa29926640e2274d10be63717d046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:59 +0000
Subject: [PATCH 074/153] fix: plot functions do not change the line_args or
 contour_args they are given

---
 python/getdist/plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 576fc8d..cd92b76 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1376,6 +1376,8 @@ class GetDistPlotter(_BaseObject):
             line_args = [{}] * nroots
         elif isinstance(line_args, Mapping):
             line_args = [line_args] * nroots
+        else:
+            line_args = list(line_args)  # not changing argument of caller
         if len(line_args) < nroots:
             line_args += [{}] * (nroots - len(line_args))
         colors = self._get_color_at_index(kwargs.get('colors'))
-- 
2.43.0


From f47c103471612685f765f5d6bfb24ad072452cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:59 +0000
Subject: [PATCH 075/153] fix: 2D scatter plot with alpha_samples

---
 python/getdist/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index cd92b76..ec1b79c 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -2822,7 +2822,7 @@ class GetDistPlotter(_BaseObject):
             filt = weights > max_weight / (100 * dup_fac)
             x = samples[0][filt]
             y = samples[1][filt]
-            z = samples[2][filt]
+            z = samples[2 if len(samples) > 2 else 0][filt]  # color not used if fixed_color
             # split up high-weighted samples into multiple copies
             weights = weights[filt] / max_weight * dup_fac
             intweights = np.ceil(weights)
-- 
2.43.0


From a6012045a104870401c8f30a39e1ff9b5705b0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:59 +0000
Subject: [PATCH 076/153] fix: contour styles of triangle plots with a color
 parameter are those of their 1D lines

---
 python/getdist/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index ec1b79c..ce044d7 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -2483,7 +2483,7 @@ class GetDistPlotter(_BaseObject):
                 ax = self.subplots[i2, i]
                 if plot_3d_with_param is not None:
                     self.plot_3d(roots, pair + [col_param], color_bar=False, line_offset=1, add_legend_proxy=False,
-                                 do_xlabel=i2 == plot_col - 1, do_ylabel=i == 0, contour_args=contour_args,
+                                 do_xlabel=i2 == plot_col - 1, do_ylabel=i == 0, contour_args=contour_args[1:],
                                  no_label_no_numbers=self.settings.no_triangle_axis_labels, ax=ax, **kwargs)
                 else:
                     self.plot_2d(roots, param_pair=pair, do_xlabel=i2 == plot_col - 1, do_ylabel=i == 0,
@@ -2516,7 +2516,7 @@ class GetDistPlotter(_BaseObject):
                     if plot_3d_with_param is not None:
                         self.plot_3d(upper_roots, pair + [col_param], color_bar=False, line_offset=1,
                                      add_legend_proxy=False, ax=ax, do_xlabel=False,
-                                     do_ylabel=upper_label_right and i2 == bottom, contour_args=upper_contour_args,
+                                     do_ylabel=upper_label_right and i2 == bottom, contour_args=upper_contour_args[1:],
                                      no_label_no_numbers=self.settings.no_triangle_axis_labels)
                     else:
                         self.plot_2d(upper_roots, param_pair=pair, do_xlabel=False,
-- 
2.43.0


From fcaab25c908b37e0c221ff714dedb4b06e4f421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:59 +0000
Subject: [PATCH 077/153] fix: rectangle plots with yroots or plot_roots and no
 legend labels

---
 python/getdist/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index ce044d7..9faf3ea 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -2673,7 +2673,7 @@ class GetDistPlotter(_BaseObject):
         if roots:
             legend_labels = self._default_legend_labels(legend_labels, roots)
         self.finish_plot(legend_labels=legend_labels, label_order=label_order,
-                         legend_ncol=legend_ncol or self.settings.figure_legend_ncol or len(legend_labels))
+                         legend_ncol=legend_ncol or self.settings.figure_legend_ncol or len(legend_labels or []))
         return ax_arr
 
     def rotate_xticklabels(self, ax=None, rotation=90, labelsize=None):
-- 
2.43.0


From dddcdab64cef7ff82d53c920dfb519c571de481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:59 +0000
Subject: [PATCH 078/153] fix: axis labels of 3D plots with params_for_plots
 and limits

---
 python/getdist/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 9faf3ea..1fde666 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -2948,8 +2948,8 @@ class GetDistPlotter(_BaseObject):
             res = self.add_2d_contours(root, params[0], params[1], i + line_offset, add_legend_proxy=add_legend_proxy,
                                        zorder=i + 1, ax=ax, **contour_args[i])
             xlims, ylims = self._update_limits(res, xlims, ylims)
+        params = params_for_plots[0]
         if 'lims' not in kwargs:
-            params = params_for_plots[0]
             lim1 = self._check_param_ranges(roots[0], params[0].name, xlims[0], xlims[1])
             lim2 = self._check_param_ranges(roots[0], params[1].name, ylims[0], ylims[1])
             kwargs['lims'] = [lim1[0], lim1[1], lim2[0], lim2[1]]
-- 
2.43.0


From 089e74a93a3bd735eff8c1b73ce4ab35d59070cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:18 +0000
Subject: [PATCH 079/153] fix: default legend labels of triangle plots with
 some upper_roots not shown in 1D

---
 python/getdist/plots.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 1fde666..542b053 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -2554,7 +2554,11 @@ class GetDistPlotter(_BaseObject):
                                     labelsize=self.settings.colorbar_axes_fontsize)
             self.add_colorbar_label(cb, col_param, label_rotation=-self.settings.colorbar_label_rotation)
 
-        labels = self._default_legend_labels(legend_labels, roots1d)
+        legend_roots = roots1d
+        if upper_roots is not None and any(self.contours_added):
+            # legend entries are for all the contours, whether or not also shown in 1D
+            legend_roots = list(roots) + [root for root in upper_roots if root not in roots]
+        labels = self._default_legend_labels(legend_labels, legend_roots)
 
         if not legend_loc and self.settings.figure_legend_loc == 'upper center' and \
                 len(params) < 4 and upper_roots is None:
-- 
2.43.0


From cdfee09be14161663c3f91e56eec7b476c49623d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:15 +0000
Subject: [PATCH 080/153] fix: plotting mean likelihoods in 1D plots
 (settings.plot_meanlikes)

---
 python/getdist/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 542b053..c8b078b 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -992,8 +992,8 @@ class GetDistPlotter(_BaseObject):
         if kwargs.get('dashes'):
             l.set_dashes(kwargs['dashes'])
         if self.settings.plot_meanlikes:
-            kwargs['lw'] = self._scaled_linewidth(self.settings.linewidth_likes)
-            ax.plot(density.x, density.likes, **kwargs)
+            likes_args = dict(kwargs, lw=self._scaled_linewidth(self.settings.linewidth_meanlikes))
+            ax.plot(density.x, density.likes, **likes_args)
         if title_limit:
             if isinstance(root, MixtureND):
                 raise ValueError('title_limit not currently supported for MixtureND')
-- 
2.43.0


From 318897218c5446a7f1917490acf49169eece3f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:04 +0000
Subject: [PATCH 081/153] fix: normalized densities of different parameters do
 not share a y axis

---
 python/getdist/plots.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index c8b078b..e643cf4 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -2107,9 +2107,12 @@ class GetDistPlotter(_BaseObject):
             nx = len(params)
         plot_col, plot_row = self.make_figure(nparam, nx=nx, sharey=share_y)
         plot_roots = roots
+        normalized = kwargs.get('normalized')
+        if normalized is None:
+            normalized = self.settings.norm_1d_density
         for i, param in enumerate(params):
             ax = self._subplot_number(i, pars=(param,),
-                                      sharey=None if (i == 0 or not share_y or self.settings.norm_1d_density) else
+                                      sharey=None if (i == 0 or not share_y or normalized) else
                                       self.subplots[0, 0])
             if roots_per_param:
                 plot_roots = roots[i]
-- 
2.43.0


From 88b3402dbb708f158d205ffb690050da59c0fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:04 +0000
Subject: [PATCH 082/153] fix: filled contours of triangle plots with a color
 parameter have the colors of their legend

---
 python/getdist/plots.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index e643cf4..058f943 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -2425,6 +2425,10 @@ class GetDistPlotter(_BaseObject):
         if line_args is None:
             line_args = def_line_args(contour_args, contour_colors)
         line_args = self._make_line_args(len(roots), line_args=line_args, ls=contour_ls, lws=contour_lws)
+        if plot_3d_with_param is not None:
+            for contour_arg, line_arg in zip(contour_args, line_args):
+                if contour_arg.get('filled') and line_arg.get('color') is not None:
+                    contour_arg.setdefault('color', line_arg['color'])
         roots1d = copy.copy(roots)
         if upper_roots is not None:
             show_1d = upper_kwargs.get('show_1d', True)
-- 
2.43.0


From d3498a7d272aea9ca0984f407e4f7645aa717234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:01 +0000
Subject: [PATCH 083/153] fix: panels of triangle plots with upper_roots keep
 the same limits

---
 python/getdist/plots.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 058f943..32631df 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -2479,7 +2479,10 @@ class GetDistPlotter(_BaseObject):
                         share = self.subplots[y, 0]
                     else:
                         share = label_ax if (y < bottom or not upper_label_right) else None
-                    self._subplot(x, y, pars=(params[x], param), sharex=self.subplots[bottom, x], sharey=share)
+                    ax = self._subplot(x, y, pars=(params[x], param), sharex=self.subplots[bottom, x], sharey=share)
+                    label_ax = label_ax or ax
+            self.subplots[0, 0]._shared_y_axis = label_ax
+            self.subplots[0, 0].callbacks.connect('xlim_changed', _axis_x_limit_changed)
 
         for i, param in enumerate(params):
             marker = self._get_marker(markers, i, param.name)
@@ -2546,6 +2549,8 @@ class GetDistPlotter(_BaseObject):
                     ax.set_ylim(lims[i])
                     ax._shared_x_axis = self.subplots[bottom, i]
                     ax.callbacks.connect('ylim_changed', _axis_y_limit_changed)
+                    ax._shared_y_axis = self.subplots[i2, 0]
+                    ax.callbacks.connect('xlim_changed', _axis_x_limit_changed)
                     self._inner_ticks(ax)
 
         self._subplots_adjust()
-- 
2.43.0


From 9e00e80f88f96ee52cc6427ec0ebd4049a390d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:32 +0000
Subject: [PATCH 084/153] fix: grid job groups given their data sets keep their
 name, parameters and data sets

---
 python/paramgrid/batchjob.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index d36129f..b312af7 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -181,10 +181,10 @@ class jobGroup(object):
             params = [[]]
         if datasets is None:
             datasets = []
-            self.params = params
-            self.groupName = name
-            self.importanceRuns = importanceRuns
-            self.datasets = datasets
+        self.params = params
+        self.groupName = name
+        self.importanceRuns = importanceRuns
+        self.datasets = datasets
         self.extra_options = {}
 
 
-- 
2.43.0


From 67896fcd5fb3539bb686475db6ecc7a980704dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:32 +0000
Subject: [PATCH 085/153] fix: jobItem.chainNames numbers chains from one

---
 python/paramgrid/batchjob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index b312af7..88da410 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -336,7 +336,7 @@ class jobItem(propertiesItem):
 
     def chainNames(self, num_chains=None):
         if num_chains:
-            return [self.chainName(i) for i in range(num_chains)]
+            return [self.chainName(i) for i in range(1, num_chains + 1)]
         else:
             i = 1
             chains = []
-- 
2.43.0


From e3fe7a072594457142021893cda60604a562198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:32 +0000
Subject: [PATCH 086/153] fix: importance runs have the same base name as their
 parent

---
 python/paramgrid/batchjob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 88da410..845b42e 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -258,7 +258,7 @@ class jobItem(propertiesItem):
                 print('importance job duplicating parent data set: %s with %s' % (self.name, impRun.names))
                 continue
             data = self.data_set.extendForImportance(impRun.names, impRun.inis)
-            job = jobItem(self.batchPath, self.param_set, data, minimize=impRun.want_minimize)
+            job = jobItem(self.batchPath, self.param_set, data, base=self.base, minimize=impRun.want_minimize)
             job.importanceTag = "_".join(impRun.names)
             job.importanceSettings = impRun.inis
             if not '_post_' in self.name:
-- 
2.43.0


From a073f4f7a0544c4d7879f476b46983b1bd5b1a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:32 +0000
Subject: [PATCH 087/153] fix: data sets and importance runs do not change the
 lists they are made from

---
 python/paramgrid/batchjob.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 845b42e..7e33a1d 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -93,10 +93,10 @@ class dataSet(object):
         else:
             params = self.standardizeParams(params)
         if covmat is not None: self.covmat = covmat
-        self.names = names
+        self.names = list(names)
         self.params = params  # can be an array of items, either ini file name or dictionaries of parameters
         self.tag = "_".join(self.names)
-        self.dist_settings = dist_settings
+        self.dist_settings = dict(dist_settings)
 
     def add(self, name, params=None, overrideExisting=True, dist_settings=None):
         if params is None: params = [name]
@@ -125,7 +125,7 @@ class dataSet(object):
             data.tag += '_post_' + "_".join(names)
         else:
             data.tag += '_' + "_".join(names)
-        data.importanceNames = names
+        data.importanceNames = list(names)
         data.importanceParams = data.standardizeParams(params)
         data.names += data.importanceNames
         data.params += data.importanceParams
@@ -133,9 +133,8 @@ class dataSet(object):
 
     def standardizeParams(self, params):
         if isinstance(params, dict) or isinstance(params, six.string_types): params = [params]
-        for i in range(len(params)):
-            if isinstance(params[i], six.string_types) and not '.ini' in params[i]: params[i] += '.ini'
-        return params
+        return [param + '.ini' if isinstance(param, six.string_types) and not '.ini' in param else param
+                for param in params]
 
     def hasName(self, name):
         if isinstance(name, six.string_types):
@@ -260,7 +259,7 @@ class jobItem(propertiesItem):
             data = self.data_set.extendForImportance(impRun.names, impRun.inis)
             job = jobItem(self.batchPath, self.param_set, data, base=self.base, minimize=impRun.want_minimize)
             job.importanceTag = "_".join(impRun.names)
-            job.importanceSettings = impRun.inis
+            job.importanceSettings = data.importanceParams
             if not '_post_' in self.name:
                 tag = '_post_' + job.importanceTag
             else:
-- 
2.43.0


From 97bf6bddcd4ad36c81602e5b83b3d3ff4d2fb534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:32 +0000
Subject: [PATCH 088/153] fix: param_list option of makePlots

---
 python/makePlots.py               | 2 +-
 python/paramgrid/batchjob_args.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/makePlots.py b/python/makePlots.py
index ca5688b..ad8ee9c 100644
--- a/python/makePlots.py
+++ b/python/makePlots.py
@@ -44,7 +44,7 @@ def doplot(roots):
     elif args.tri_params is not None:
         g.triangle_plot(roots, args.tri_params, legend_labels=args.legend_labels, filled_compare=args.filled)
     else:
-        g.plots_1d(roots, paramList=args.paramList, nx=args.nx, legend_labels=args.legend_labels, legend_ncol=ncol)
+        g.plots_1d(roots, param_list=args.param_list, nx=args.nx, legend_labels=args.legend_labels, legend_ncol=ncol)
 
 
 def comparePlot(jobItems):
diff --git a/python/paramgrid/batchjob_args.py b/python/paramgrid/batchjob_args.py
index 6e15be5..c9d8427 100644
--- a/python/paramgrid/batchjob_args.py
+++ b/python/paramgrid/batchjob_args.py
@@ -85,7 +85,7 @@ class batchArgs(object):
                 import getdist.plots as plots
                 from getdist import paramnames
 
-                if args.paramList is not None: args.paramList = paramnames.ParamNames(args.paramList)
+                if args.param_list is not None: args.param_list = paramnames.ParamNames(args.param_list)
                 g = plots.GetDistPlotter(chain_dir=self.batch.batchPath)
                 if args.size_inch is not None: g.settings.setWithSubplotSize(args.size_inch)
                 return self.batch, self.args, g
-- 
2.43.0


From 23ba28555cf8a9ea91bff97820f0abc9da1e2629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:32 +0000
Subject: [PATCH 089/153] fix: listGrid honours its notexist and converge
 options

---
 python/listGrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/listGrid.py b/python/listGrid.py
index 34ea87f..59d3b0c 100644
--- a/python/listGrid.py
+++ b/python/listGrid.py
@@ -12,6 +12,8 @@ items = Opts.sortedParamtagDict(chainExist=args.exists)
 
 for paramtag, parambatch in items:
     for jobItem in parambatch:
+        if args.notexist and jobItem.chainExists(): continue
+        if args.converge and not jobItem.hasConvergeBetterThan(args.converge): continue
         if hasattr(jobItem, 'group'):
             tag = '(%s)' % jobItem.group
         else:
-- 
2.43.0


From 8908bc32da57f7a6fbe879b42d66d86cb7c5550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:01 +0000
Subject: [PATCH 090/153] fix: reading a grid uses its own settings file when
 another grid has one of the same name

---
 python/paramgrid/batchjob.py   | 23 +++++++++++++++++++----
 python/paramgrid/gridconfig.py |  2 +-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 7e33a1d..e6967b5 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 from __future__ import print_function
 import os
 import shutil
+import filecmp
 import pickle
 import copy
 import sys
@@ -27,6 +28,22 @@ def resetGrid(directory):
         os.remove(fname)
 
 
+def useGridConfig(directory):
+    # set path so that settings are imported from the grid, not from a file of the same name in another grid
+    config_dir = os.path.join(os.path.abspath(directory), 'config')
+    if os.path.exists(config_dir):
+        sys.path.insert(0, config_dir)
+        config = os.path.join(config_dir, 'config.ini')
+        if os.path.exists(config):
+            setting_file = IniFile(config).string('setting_file', '')
+            name = setting_file.replace('.py', '')
+            loaded = (getattr(sys.modules.get(name), '__file__', None) or '').replace('.pyc', '.py')
+            setting_file = os.path.join(config_dir, setting_file)
+            if os.path.exists(loaded) and os.path.exists(setting_file) \
+                    and not filecmp.cmp(loaded, setting_file, shallow=False):
+                del sys.modules[name]
+
+
 def readobject(directory=None):
     # load this here to prevent circular
     from paramgrid import gridconfig
@@ -39,10 +56,8 @@ def readobject(directory=None):
             return gridconfig.makeGrid(directory, readOnly=True, interactive=False)
         return None
     try:
-        config_dir = os.path.abspath(directory) + os.sep + 'config'
-        if os.path.exists(config_dir):
-            # set path in case using functions defined and hence imported from in settings file
-            sys.path.insert(0, config_dir)
+        # set path in case using functions defined and hence imported from in settings file
+        useGridConfig(directory)
         with open(fname, 'rb') as inp:
             grid = pickle.load(inp)
         if not os.path.exists(grid.basePath):
diff --git a/python/paramgrid/gridconfig.py b/python/paramgrid/gridconfig.py
index a76490b..d4ee486 100644
--- a/python/paramgrid/gridconfig.py
+++ b/python/paramgrid/gridconfig.py
@@ -82,7 +82,7 @@ def makeGrid(batchPath, settingName=None, settings=None, readOnly=False, interac
             if not pathIsGrid(batchPath):
                 raise Exception('Need to give name of setting file if batchPath/config does not exist')
             readOnly = True
-            sys.path.insert(0, batchPath + 'config')
+            batchjob.useGridConfig(batchPath)
             sys.modules['batchJob'] = batchjob  # old name
             settings = __import__(IniFile(batchPath + 'config/config.ini').params['setting_file'].replace('.py', ''))
         else:
-- 
2.43.0


From 133bfab3302489ee64da1e5e76935f853cd8ffb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:07 +0000
Subject: [PATCH 091/153] fix: making a grid when the cache directory does not
 exist yet

---
 python/paramgrid/batchjob.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index e6967b5..bc71e44 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -15,9 +15,10 @@ from getdist.mcsamples import loadMCSamples
 
 def grid_cache_file(directory):
     directory = os.path.abspath(directory)
-    if getdist.cache_dir:
+    cache_dir = getdist.make_cache_dir()
+    if cache_dir:
         import hashlib
-        return os.path.join(getdist.cache_dir, '_batch_'
+        return os.path.join(cache_dir, '_batch_'
                             + hashlib.md5(directory.encode('utf-8')).hexdigest()[:10]) + '.pyobj'
     return os.path.join(directory, 'batch.pyobj')
 
-- 
2.43.0


From a98fba0ba0a1cd09da94dd7d655cc1af9e79ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:16 +0000
Subject: [PATCH 092/153] fix: job ids and queue listings are read as text in
 Python 3

---
 python/paramgrid/jobqueue.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 6d316be..1328d66 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -72,7 +72,7 @@ class jobSettings(object):
             grid_engine = 'MOAB'
         else:
             try:
-                help_info = str(subprocess.check_output('qstat -help', shell=True)).strip()
+                help_info = subprocess.check_output('qstat -help', shell=True, universal_newlines=True).strip()
                 if 'OGS/GE' in help_info: grid_engine = 'OGS'  # Open Grid Scheduler, as on StarCluster
             except:
                 pass
@@ -307,7 +307,8 @@ def submitJob(jobName, paramFiles, sequential=False, msg=False, **kwargs):
         if len(paramFiles) > 1:
             open(scriptRoot + '.batch', 'w').write("\n".join(paramFiles))
         if not kwargs.get('no_sub', False):
-            res = str(subprocess.check_output(replacePlaceholders(j.qsub, vals) + ' ' + scriptName, shell=True)).strip()
+            res = subprocess.check_output(replacePlaceholders(j.qsub, vals) + ' ' + scriptName, shell=True,
+                                          universal_newlines=True).strip()
             if not res:
                 print('No qsub output')
             else:
@@ -330,11 +331,11 @@ def queue_job_details(batchPath=None, running=True, queued=True, warnNotBatch=Tr
         print('No existing job index found')
         return []
     if spawn.find_executable("showq") is not None:
-        res = str(subprocess.check_output('showq -U $USER', shell=True)).strip()
+        res = subprocess.check_output('showq -U $USER', shell=True, universal_newlines=True).strip()
         runningTxt = ' Running '
     else:
         # e.g. Sun Grid Engine/OGS
-        res = str(subprocess.check_output('qstat -u $USER', shell=True)).strip()
+        res = subprocess.check_output('qstat -u $USER', shell=True, universal_newlines=True).strip()
         runningTxt = ' r '
     res = res.split("\n")
     names = []
-- 
2.43.0


From 4e68b2cb8d597a49ad0537a6c906c50c7592a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:16 +0000
Subject: [PATCH 093/153] fix: the job index always exists while it is being
 replaced

---
 python/paramgrid/jobqueue.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 1328d66..a6fbfc6 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -6,7 +6,6 @@ import numpy as np
 import re
 import pickle
 import time
-import shutil
 import multiprocessing
 
 from distutils import spawn
@@ -174,8 +173,10 @@ def saveJobIndex(obj, batchPath=None):
     with open(fname + '_tmp', 'wb') as output:
         pickle.dump(obj, output, pickle.HIGHEST_PROTOCOL)
     # try to prevent corruption from error mid-write
-    if os.path.exists(fname): os.remove(fname)
-    shutil.move(fname + '_tmp', fname)
+    if hasattr(os, 'replace'):
+        os.replace(fname + '_tmp', fname)
+    else:
+        os.rename(fname + '_tmp', fname)
 
 
 def addJobIndex(batchPath, j):
-- 
2.43.0


From edc932eadb551d6f1cb911296d6a8e10e53d043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:16 +0000
Subject: [PATCH 094/153] fix: removing a job from the index keeps other jobs
 of the same name

---
 python/paramgrid/jobqueue.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index a6fbfc6..1b0d56b 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -139,6 +139,7 @@ class jobIndex(object):
         self.jobSequence = []
 
     def addJob(self, j):
+        self.delId(j.jobId)  # in case ids are reused
         self.jobSettings[j.jobId] = j
         self.jobNames[j.jobName] = j.jobId
         for name in j.names:
@@ -149,11 +150,15 @@ class jobIndex(object):
         if jobId is not None:
             j = self.jobSettings.get(jobId)
             if j is not None:
-                for rootname in j.names:
-                    del (self.rootNames[rootname])
                 del (self.jobSettings[jobId])
-                del (self.jobNames[j.jobName])
                 self.jobSequence = [s for s in self.jobSequence if s != jobId]
+                # names may be shared with other jobs, in which case they refer to the last one submitted
+                self.jobNames = dict()
+                self.rootNames = dict()
+                for s in self.jobSequence:
+                    self.jobNames[self.jobSettings[s].jobName] = s
+                    for rootname in self.jobSettings[s].names:
+                        self.rootNames[rootname] = s
 
 
 def loadJobIndex(batchPath, must_exist=False):
-- 
2.43.0


From 0952f5c19441b73983ad04654c92ab42696e6a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:16 +0000
Subject: [PATCH 095/153] fix: deleting jobs by number, and by names that are
 not in the index

---
 python/paramgrid/jobqueue.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 1b0d56b..a670f77 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -207,6 +207,11 @@ def deleteRootNames(batchPath, rootNames):
     deleteJobs(batchPath, rootNames=rootNames)
 
 
+def jobIdNumber(jobId):
+    parts = [part for part in jobId.split('.')[:2] if part.isdigit()]
+    return int(parts[0]) if parts else None
+
+
 def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minmax=None, jobId_min=None, confirm=True,
                running=False, queued=False):
     if batchPath is None: batchPath = './scripts/'
@@ -215,23 +220,23 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
         raise Exception('No existing job index found')
     if jobIds is None: jobIds = []
     if isinstance(jobIds, six.string_types): jobIds = [jobIds]
+    # numbers match the number in the job id
+    jobIds = [jobId for jobId in jobIds if isinstance(jobId, six.string_types)] + \
+             [jobId for jobId in index.jobSettings if jobIdNumber(jobId) in jobIds]
     if rootNames is not None:
         if isinstance(rootNames, six.string_types): rootNames = [rootNames]
         for name in rootNames:
             jobId = index.rootNames.get(name)
-            if not jobId in jobIds: jobIds.append(jobId)
+            if jobId is not None and not jobId in jobIds: jobIds.append(jobId)
     if jobNames is not None:
         if isinstance(jobNames, six.string_types): jobNames = [jobNames]
         for name in jobNames:
             jobId = index.jobNames.get(name)
-            if not jobId in jobIds: jobIds.append(jobId)
+            if jobId is not None and not jobId in jobIds: jobIds.append(jobId)
     if jobId_minmax is not None or jobId_min is not None:
         for jobIdStr, j in list(index.jobSettings.items()):
-            parts = jobIdStr.split('.')
-            if len(parts) == 1 or parts[0].isdigit():
-                jobId = int(parts[0])
-            else:
-                jobId = int(parts[1])
+            jobId = jobIdNumber(jobIdStr)
+            if jobId is None: continue
             if (jobId_minmax is not None and (jobId_minmax[0] <= jobId <= jobId_minmax[1]) or
                 jobId_min is not None and jobId >= jobId_min) and not jobIdStr in jobIds:
                 jobIds.append(jobIdStr)
-- 
2.43.0


From cf2c611ca78ce435c7e723a30bbe3b1201ee8959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:16 +0000
Subject: [PATCH 096/153] fix: deleting a range of job ids, or only running or
 queued jobs, does not delete others

---
 python/deleteJobs.py         | 11 ++++++-----
 python/paramgrid/jobqueue.py |  3 ++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/deleteJobs.py b/python/deleteJobs.py
index 4629ade..9f9cbb5 100644
--- a/python/deleteJobs.py
+++ b/python/deleteJobs.py
@@ -18,16 +18,17 @@ Opts.parser.add_argument('--confirm', action='store_true')
 
 
 if batch:
+    opts = dict(confirm=args.confirm, running=args.running, queued=args.queued)
     if args.delete_id_range is not None:
-        jobqueue.deleteJobs(args.batchPath, jobId_minmax=args.delete_id_range, confirm=args.confirm)
-    if args.delete_id_min is not None:
-        jobqueue.deleteJobs(args.batchPath, jobId_min=args.delete_id_min, confirm=args.confirm)
+        jobqueue.deleteJobs(args.batchPath, jobId_minmax=args.delete_id_range, **opts)
+    elif args.delete_id_min is not None:
+        jobqueue.deleteJobs(args.batchPath, jobId_min=args.delete_id_min, **opts)
     elif args.delete_ids is not None:
-        jobqueue.deleteJobs(args.batchPath, args.delete_ids, confirm=args.confirm)
+        jobqueue.deleteJobs(args.batchPath, args.delete_ids, **opts)
     else:
         items = [jobItem for jobItem in Opts.filteredBatchItems()]
         batchNames = set([jobItem.name for jobItem in items] + [jobItem.name + '_minimize' for jobItem in items])
-        jobqueue.deleteJobs(args.batchPath, rootNames=batchNames, confirm=args.confirm)
+        jobqueue.deleteJobs(args.batchPath, rootNames=batchNames, **opts)
 
     if not args.confirm: print('jobs not actually deleted: add --confirm to really cancel them')
 
diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index a670f77..03b96bf 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -242,6 +242,7 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
                 jobIds.append(jobIdStr)
 
     validIds = queue_job_details(batchPath, running=not queued, queued=not running)[0]
+    otherIds = queue_job_details(batchPath, running=queued, queued=running, warnNotBatch=False)[0]
     for jobId in jobIds:
         j = index.jobSettings.get(jobId)
         if j is not None:
@@ -253,7 +254,7 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
                     else:
                         qdel = 'qdel'
                     subprocess.check_output(qdel + ' ' + str(jobId), shell=True)
-                index.delId(jobId)
+                if not jobId in otherIds: index.delId(jobId)
             elif jobId in validIds:
                 print('...', j.jobName, jobId)
 
-- 
2.43.0


From b7ec4f285543a4ef814bacaaf4a3eeffb3dc8b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:16 +0000
Subject: [PATCH 097/153] fix: submitting grids in directories with .ini in
 their name

---
 python/paramgrid/jobqueue.py | 2 +-
 python/runbatch.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 03b96bf..5f76c62 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -267,7 +267,7 @@ def submitJob(jobName, paramFiles, sequential=False, msg=False, **kwargs):
     if kwargs.get('dryrun', False) or paramFiles is None: return
 
     if isinstance(paramFiles, six.string_types): paramFiles = [paramFiles]
-    paramFiles = [ini.replace('.ini', '') for ini in paramFiles]
+    paramFiles = [ini[:-4] if ini.endswith('.ini') else ini for ini in paramFiles]
 
     j.runsPerJob = (len(paramFiles), 1)[sequential]
     # adjust omp for the actual number (may not be equal to input runsPerJob because of non-integer multiple)
diff --git a/python/runbatch.py b/python/runbatch.py
index 6b2213d..2b2cb06 100644
--- a/python/runbatch.py
+++ b/python/runbatch.py
@@ -79,7 +79,7 @@ def jobName():
 
 def submitJob(ini):
     global iniFiles
-    ini = ini.replace('.ini', '')
+    ini = os.path.splitext(ini)[0]
     if not args.dryrun:
         print('Submitting...' + ini)
     else:
-- 
2.43.0


From 82ce0d674899945d88e53c275dc30037012bc267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:16 +0000
Subject: [PATCH 098/153] fix: submitting several runs with long names in one
 job

---
 python/runbatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/runbatch.py b/python/runbatch.py
index 2b2cb06..e46090d 100644
--- a/python/runbatch.py
+++ b/python/runbatch.py
@@ -74,7 +74,7 @@ def jobName():
     if len(iniFiles) < 2 or len(s) < 70: return s
     base = os.path.basename(iniFiles[0])
     if len(base) > 70: base = base[:70]
-    return base + '__' + hashlib.md5(s).hexdigest()[:16]
+    return base + '__' + hashlib.md5(s.encode('utf-8')).hexdigest()[:16]
 
 
 def submitJob(ini):
-- 
2.43.0


From d3b9d3f7a1044a4e1640184f2bbdc377c84fb744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:16 +0000
Subject: [PATCH 099/153] fix: not_queued for importance sampled minimization

---
 python/runbatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/runbatch.py b/python/runbatch.py
index e46090d..b084799 100644
--- a/python/runbatch.py
+++ b/python/runbatch.py
@@ -37,7 +37,7 @@ if args.not_queued:
 
 
 def notQueued(name):
-    if args.minimize: name += '_minimize'
+    name += variant
     return not name in queued
 
 
-- 
2.43.0


From 7ae93d61e0654fe959353b5c28997aa1f1bb69bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:53 +0000
Subject: [PATCH 100/153] fix: dry run of copyGridFiles does not overwrite the
 zip file or make directories

---
 python/copyGridFiles.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index 909466d..f137c1d 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -39,15 +39,16 @@ if args.max_age_days:
 
 sizeMB = 0
 
+if args.sym_link and (args.remove_burn_fraction or args.zip): raise Exception('option not compatible with --sym_link')
+
+zipper = None
 if args.zip:
-    zipper = zipfile.ZipFile(args.target_dir, 'w', compression=zipfile.ZIP_DEFLATED, allowZip64=True)
+    if not args.dryrun:
+        zipper = zipfile.ZipFile(args.target_dir, 'w', compression=zipfile.ZIP_DEFLATED, allowZip64=True)
     target_dir = None
 else:
-    zipper = None
     target_dir = os.path.abspath(args.target_dir) + os.sep
-    batchjob.makePath(target_dir)
-
-if args.sym_link and (args.remove_burn_fraction or args.zip): raise Exception('option not compatible with --sym_link')
+    if not args.dryrun: batchjob.makePath(target_dir)
 
 
 def fileMatches(f, name):
@@ -113,7 +114,7 @@ for jobItem in Opts.filteredBatchItems():
         distfiles = 0
         doneProperties = False
         outdir = jobItem.relativePath
-        if not args.zip: batchjob.makePath(target_dir + outdir)
+        if not args.zip and not args.dryrun: batchjob.makePath(target_dir + outdir)
         if args.chains and jobItem.chainExists() and (not args.max_age_days or datetime.fromtimestamp(jobItem.chainFileDate()) > max_age):
             i = 1
             while os.path.exists(jobItem.chainRoot + '_%d.txt' % i):
@@ -136,7 +137,7 @@ for jobItem in Opts.filteredBatchItems():
                     doCopy(jobItem.chainPath, outdir, f)
         if args.dist and os.path.exists(jobItem.distPath):
             outdir += 'dist' + os.sep
-            if not args.zip: batchjob.makePath(target_dir + outdir)
+            if not args.zip and not args.dryrun: batchjob.makePath(target_dir + outdir)
             for f in os.listdir(jobItem.distPath):
                 if fileMatches(f, jobItem.name) and (not args.max_age_days or
                                                      datetime.fromtimestamp(
-- 
2.43.0


From 965bae2e0403ac9c550df56dba8a516ebaa199bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:53 +0000
Subject: [PATCH 101/153] fix: copying grids with cached modules in their
 config directory

---
 python/copyGridFiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index f137c1d..ab6011b 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -104,7 +104,7 @@ if not args.no_config:
     config_path = os.path.join(batch.batchPath, 'config/')
     if not args.dryrun and not args.zip: batchjob.makePath(target_dir + 'config')
     for f in os.listdir(config_path):
-        doCopy(config_path, 'config/', f)
+        if os.path.isfile(config_path + f): doCopy(config_path, 'config/', f)
 
 for jobItem in Opts.filteredBatchItems():
     if args.converge == 0 or jobItem.hasConvergeBetterThan(args.converge):
-- 
2.43.0


From db81ddefd70642e902d25b863122f65c66344182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:53 +0000
Subject: [PATCH 102/153] fix: copying chains that have no samples after burn
 in

---
 python/copyGridFiles.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index ab6011b..a2ff46a 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -73,14 +73,15 @@ def doCopy(source, dest, f, hasBurn=False):
             lines = None
         destf = dest + f
         if args.zip:
-            if lines:
+            if lines is not None:
                 zipper.writestr(destf, "".join(lines))
 
             else:
                 zipper.write(source + f, destf)
         else:
-            if lines:
-                open(target_dir + destf, 'w').writelines(lines)
+            if lines is not None:
+                with open(target_dir + destf, 'w') as out:
+                    out.writelines(lines)
             else:
                 if args.sym_link:
                     if os.path.islink(target_dir + destf): os.unlink(target_dir + destf)
-- 
2.43.0


From 52134f7885a0b2e262fc52ddfd123e899823137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:53 +0000
Subject: [PATCH 103/153] fix: copying grids to directories with .zip in their
 path

---
 python/copyGridFiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index a2ff46a..53710e1 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -33,7 +33,7 @@ Opts.parser.add_argument('--zip', action='store_true',
 
 (batch, args) = Opts.parseForBatch()
 
-if '.zip' in args.target_dir: args.zip = True
+if args.target_dir.endswith('.zip'): args.zip = True
 if args.max_age_days:
     max_age = datetime.now() - timedelta(days=args.max_age_days)
 
-- 
2.43.0


From 5dc3f2109362b19f35273e6a70e27e3d289ca403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:53 +0000
Subject: [PATCH 104/153] fix: cleanup of a run does not delete files of
 importance sampled runs that are not selected

---
 python/cleanup.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/cleanup.py b/python/cleanup.py
index d5af6a4..b8b1ea4 100644
--- a/python/cleanup.py
+++ b/python/cleanup.py
@@ -34,8 +34,12 @@ for jobItem in Opts.filteredBatchItems():
         dirs = [jobItem.chainPath]
         if args.dist: dirs = []
         if os.path.exists(jobItem.distPath): dirs += [jobItem.distPath]
+        others = [item.name for item in batch.items(wantImportance=True) if item.chainPath == jobItem.chainPath
+                  and item.name.startswith(jobItem.name + '_')]
         for adir in dirs:
-            files = sorted(os.listdir(adir))
+            # files of importance sampled runs are only deleted if those are selected
+            files = sorted(f for f in os.listdir(adir) if (jobItem.isImportanceJob or '_post_' not in f) and
+                           not any(f.startswith(name) for name in others))
             for f in files:
                 for ext in args.ext:
                     if fnmatch.fnmatch(f, jobItem.name + ext):
-- 
2.43.0


From 54753fdba4b9aab8fc9faab1dbdbe34ef37bb166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:53 +0000
Subject: [PATCH 105/153] fix: renaming parameters in best fit files

---
 python/renameParam.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/renameParam.py b/python/renameParam.py
index 6214da6..5b17749 100644
--- a/python/renameParam.py
+++ b/python/renameParam.py
@@ -71,13 +71,15 @@ for jobItem in Opts.filteredBatchItems():
                 if new:
                     newname, lab = new
                     items[5] = newname
-                    items[6] = ' ' * (len(items[6]) + len(name) - len(newname))
+                    items[6] = ' ' * max(1, len(items[6]) + len(name) - len(newname))
                     has = has or newname != name
+                    name = newname
                 if labels:
                     plab = labels.parWithName(name)
                     if plab: lab = plab.label
                 if lab is not None:
-                    if len(items) < 7:
+                    if len(items) < 8:
+                        items[6] = ' ' * max(3, len(items[6]))
                         items.append(lab)
                         has = True
                     else:
@@ -87,7 +89,9 @@ for jobItem in Opts.filteredBatchItems():
                 lines[i] = "".join(items) + "\n"
             if has:
                 print(bestfit)
-                if args.confirm: open(bestfit).write("".join(lines))
+                if args.confirm:
+                    with open(bestfit, 'w') as f:
+                        f.write("".join(lines))
 
 if args.confirm:
     print('Done. Re-run getdist to update getdist outputs.')
-- 
2.43.0


From a8c794bdedb7493a2fccf4501ebc9fd685349d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:21 +0000
Subject: [PATCH 106/153] fix: extracted files of different types with the same
 extension have different normalized names

---
 python/extractDistFiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/extractDistFiles.py b/python/extractDistFiles.py
index 3c54c6a..4b67c17 100644
--- a/python/extractDistFiles.py
+++ b/python/extractDistFiles.py
@@ -34,7 +34,7 @@ for ext in args.file_extension:
                 if fnmatch.fnmatch(f, jobItem.name + pattern):
                     print(jobItem.distPath + f)
                     if args.normalize_names:
-                        fout = jobItem.makeNormedName(replacements)[0] + os.path.splitext(f)[1]
+                        fout = jobItem.makeNormedName(replacements)[0] + f[len(jobItem.name):]
                     else:
                         fout = f
                     shutil.copyfile(jobItem.distPath + f, target_dir + fout)
-- 
2.43.0


From 36f77a0b99301fa83285732c0afaf9e38c3f9dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:21 +0000
Subject: [PATCH 107/153] fix: chain index argument of chainPeek

---
 python/chainPeek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/chainPeek.py b/python/chainPeek.py
index 86641f8..b96ece2 100644
--- a/python/chainPeek.py
+++ b/python/chainPeek.py
@@ -15,7 +15,7 @@ if len(sys.argv) < 3:
 chain = os.path.abspath(sys.argv[1])
 param = sys.argv[2]
 index = 1
-if len(sys.argv) > 4: index = int(sys.argv[3])
+if len(sys.argv) > 3: index = int(sys.argv[3])
 
 d = np.loadtxt(chain + '_' + str(index) + '.txt')
 names = paramnames.ParamNames(chain + '.paramnames')
-- 
2.43.0


From cfb8305e62266150892c5768fabeff879cb781a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:50 +0000
Subject: [PATCH 108/153] fix: CMB likelihood arrays with current numpy

np.object and np.int no longer exist
---
 python/CMBlikes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index defb1dd..8d27eca 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -52,7 +52,7 @@ class ClsArray(object):
     def __init__(self, filename=None, camb_results=None, cols=None, field_names=['T', 'E', 'B', 'P'], rescale=None,
                  lmax=None):
         self.field_names = field_names
-        self.cls_array = np.zeros((len(field_names), len(field_names)), dtype=np.object)
+        self.cls_array = np.zeros((len(field_names), len(field_names)), dtype=object)
         self.cls_array[:, :] = None
         self.lmax = 0
         self.lmin = 0
@@ -83,7 +83,7 @@ class ClsArray(object):
             dat = np.loadtxt(filename)
             if isinstance(cols, six.string_types): cols = cols.split()
         Lix = cols.index('L')
-        L = dat[:, Lix].astype(np.int)
+        L = dat[:, Lix].astype(int)
         lmin = L[0]
         lmax = L[-1]
         if not add_only:
-- 
2.43.0


From 4a1cf5f8a23143224b1977ffc798cab3a640cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:50 +0000
Subject: [PATCH 109/153] fix: rescaling CMB spectra with other than four
 fields

---
 python/CMBlikes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 8d27eca..25e9a7e 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -71,8 +71,8 @@ class ClsArray(object):
             self.cls_array[1, 0] = totcl[:, 3]
             self.cls_array[3, 3] = camb_results.get_lens_potential_cls(lmax)[:, 0]
         if rescale is not None:
-            for i in range(4):
-                for j in range(4):
+            for i in range(len(field_names)):
+                for j in range(len(field_names)):
                     if self.cls_array[i, j] is not None:
                         self.cls_array[i, j] *= rescale
 
-- 
2.43.0


From c01933e64c2e5139b82a797153c8fd251952865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:50 +0000
Subject: [PATCH 110/153] fix: CMB maps that are only required are not used in
 the likelihood

With maps_use, require_map was a view of use_map
---
 python/CMBlikes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 25e9a7e..8e2d623 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -358,7 +358,7 @@ class DatasetLikelihood(object):
 
         # Bandpowers can depend on more fields than are actually used in likelihood
         # e.g. for correcting leakage or other linear corrections
-        self.require_map = self.use_map[:]
+        self.require_map = list(self.use_map)
         if self.has_map_names:
             if ini.hasKey('fields_required'):
                 raise Exception('CMBLikes: use maps_required not fields_required')
-- 
2.43.0


From e8a348dd7a4ea8b6d4a4a89102f4f2c3f7b085a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:50 +0000
Subject: [PATCH 111/153] fix: Gaussian CMB likelihood of data including noise

Noise was subtracted from the data and also added to the theory
---
 python/CMBlikes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 8e2d623..913b1f8 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -440,6 +440,7 @@ class DatasetLikelihood(object):
                 self.bandpowers += self.cl_noise
             elif self.like_approx == 'gaussian':
                 self.bandpowers -= self.cl_noise
+                self.cl_noise = None
 
         self.cl_lmax = np.zeros((self.tot_theory_fields, self.tot_theory_fields))
         for i in range(self.tot_theory_fields):
-- 
2.43.0


From 0ecba9313f28380a84d101b6d747e4b5a092511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:50 +0000
Subject: [PATCH 112/153] fix: CMB bin windows that do not give the last
 spectra

---
 python/CMBlikes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 913b1f8..f505c92 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -115,13 +115,14 @@ class ClsArray(object):
 
 
 class BinWindows(object):
-    def __init__(self, lmin, lmax, nbins):
+    def __init__(self, lmin, lmax, nbins, ncl):
         self.lmin = lmin
         self.lmax = lmax
         self.nbins = nbins
+        self.ncl = ncl
 
     def bin(self, TheoryCls, cls=None):
-        if cls is None: cls = np.zeros((self.nbins, max([x for x in self.cols_out if x >= 0]) + 1))
+        if cls is None: cls = np.zeros((self.nbins, self.ncl))
         for i, ((x, y), ix_out) in enumerate(zip(self.cols_in.T, self.cols_out)):
             cl = TheoryCls[x, y]
             if cl is not None and ix_out >= 0:
@@ -275,7 +276,7 @@ class DatasetLikelihood(object):
             return cl
 
     def readBinWindows(self, ini, file_stem):
-        bins = BinWindows(self.pcl_lmin, self.pcl_lmax, self.nbins_used)
+        bins = BinWindows(self.pcl_lmin, self.pcl_lmax, self.nbins_used, self.ncl)
         in_cl = ini.split(file_stem + '_in_order')
         out_cl = ini.split(file_stem + '_out_order', in_cl)
         bins.cols_in = self.UseString_to_Cl_i_j(in_cl, self.map_required_index)
-- 
2.43.0


From 6266b5c6edf4908fb78c35f537e4f50370add3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:50 +0000
Subject: [PATCH 113/153] fix: CMB map separators of several characters

---
 python/CMBlikes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index f505c92..cd03d40 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -163,7 +163,7 @@ class DatasetLikelihood(object):
                 i = S.index(self.map_separator)
             except ValueError:
                 raise ValueError('CMBLikes: invalid spectrum name %s' % S)
-            return self.map_names.index(S[0:i]), self.map_names.index(S[i + 1:])
+            return self.map_names.index(S[0:i]), self.map_names.index(S[i + len(self.map_separator):])
 
     def PairStringToUsedMapIndices(self, used_index, S):
         i1, i2 = self.PairStringToMapIndices(S)
-- 
2.43.0


From 8e9840a383c5f4bba3643b2c41617eb0c77ca4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:50 +0000
Subject: [PATCH 114/153] fix: CMB data sets with a single bin

---
 python/CMBlikes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index cd03d40..a7dfaaf 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -260,7 +260,7 @@ class DatasetLikelihood(object):
         else:
             incols = 'L ' + order
         cols = self.GetColsFromOrder(incols)
-        data = np.loadtxt(filename)
+        data = np.loadtxt(filename, ndmin=2)
         Ls = data[:, 0].astype(int)
         if self.binned: Ls -= 1
         for i, L in enumerate(Ls):
@@ -288,7 +288,7 @@ class DatasetLikelihood(object):
         bins.binning_matrix = np.zeros((norder, self.nbins_used, self.pcl_lmax - self.pcl_lmin + 1))
         windows = ini.relativeFileName(file_stem + '_files')
         for b in range(self.nbins_used):
-            window = np.loadtxt(windows % (b + 1 + self.bin_min))
+            window = np.loadtxt(windows % (b + 1 + self.bin_min), ndmin=2)
             Err = False
             for i, L in enumerate(window[:, 0].astype(int)):
                 if self.pcl_lmin <= L <= self.pcl_lmax:
@@ -508,7 +508,7 @@ class DatasetLikelihood(object):
         covmat_cl = ini.string('covmat_cl', allowEmpty=False)
         if ini.string('covmat_format', 'text') != 'text':
             raise Exception('Only text oovmat supported in python so far')
-        self.full_cov = np.loadtxt(ini.relativeFileName('covmat_fiducial'))
+        self.full_cov = np.loadtxt(ini.relativeFileName('covmat_fiducial'), ndmin=2)
         covmat_scale = ini.float('covmat_scale', 1.0)
         cl_in_index = self.UseString_to_cols(covmat_cl)
         self.ncl_used = np.sum(cl_in_index >= 0)
-- 
2.43.0


From e73aab21d09b4c802a2945700e1607b306ac6cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:50 +0000
Subject: [PATCH 115/153] fix: format of written CMB likelihood data

---
 python/CMBlikes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index a7dfaaf..71994c6 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -634,13 +634,13 @@ class DatasetLikelihood(object):
             for i in range(self.nmaps_required):
                 for j in range(i + 1):
                     cols.append(self.Cl_i_j_name(self.map_names, cls[i, j].map_ij))
-            f.write('#    L' + ("%17s " * len(cols)) % tuple(cols) + '\n')
+            f.write('#   L ' + ("%17s " * len(cols)) % tuple(cols) + '\n')
             for b in range(self.pcl_lmin, self.pcl_lmax + 1):
                 c = [b]
                 for i in range(self.nmaps_required):
                     for j in range(i + 1):
                         c.append(cls[i, j].CL[b - self.pcl_lmin])
-                f.write(("%I5 " + "%17.8e " * len(cols)) % tuple(c))
+                f.write(("%5d " + "%17.8e " * len(cols)) % tuple(c) + '\n')
 
     def transform(self, C, Chat, Cfhalf):
         # HL transformation of the matrices
-- 
2.43.0


From 302d487ddce7b94373564af72567a07d20b6d5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:50 +0000
Subject: [PATCH 116/153] fix: plots of CMB data with theory

---
 python/CMBlikes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 71994c6..5c2e6d8 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -555,7 +555,7 @@ class DatasetLikelihood(object):
 
         binned_phicl_err = self.diag_sigma()
         ax = ax or plt.gca()
-        bandpowers = self.full_bandpowers[:, self.full_bandpower_headers.index('PP')]
+        bandpowers = self.full_bandpowers[:, self.full_bandpower_headers.index(column)]
         if 'L_min' in self.full_bandpower_headers:
             lmin = self.full_bandpowers[:, self.full_bandpower_headers.index('L_min')]
             lmax = self.full_bandpowers[:, self.full_bandpower_headers.index('L_max')]
@@ -724,7 +724,7 @@ class DatasetLikelihood(object):
 def plotAndChisq(dataset, cl_file, data_params={}):
     d = DatasetLikelihood(dataset)
     cls = ClsArray(cl_file)
-    d.plot(cls)
+    d.plot(ClArray=cls)
     print('Chi-squared: ', d.chi_squared(cls, data_params))
     plt.show()
 
-- 
2.43.0


From 73ca6b085ae9d72405de39bbc6b0ad6e14b98f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:50 +0000
Subject: [PATCH 117/153] fix: writing CMB bin windows

---
 python/CMBlikes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 5c2e6d8..30c3d4b 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -130,11 +130,12 @@ class BinWindows(object):
         return cls
 
     def write(self, froot, stem):
-        if not os.path.exists(froot + stem + '_window'): os.mkdir(froot + '_window')
+        if not os.path.exists(froot + stem + '_window'): os.mkdir(froot + stem + '_window')
         for b in range(self.nbins):
             with open(froot + stem + '_window/window%u.dat' % (b + 1), 'w') as f:
-                for L in np.arange(self.lmin[b], self.lmax[b] + 1):
-                    f.write(("%5u " + "%10e" * len(self.cols_in) + "\n") % (L, self.binning_matrix[:, b, L]))
+                for L in np.arange(self.lmin, self.lmax + 1):
+                    window = self.binning_matrix[:, b, L - self.lmin]
+                    f.write(("%5u " + "%16e " * len(window) + "\n") % ((L,) + tuple(window)))
 
 
 class DatasetLikelihood(object):
-- 
2.43.0


From a13b78ed52c6cea8475e9c158040c930d34d4f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:50 +0000
Subject: [PATCH 118/153] fix: forecast CMB data sets with lensing
 reconstruction

---
 python/makePerfectForecastDataset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/makePerfectForecastDataset.py b/python/makePerfectForecastDataset.py
index bbf283f..3ba914e 100644
--- a/python/makePerfectForecastDataset.py
+++ b/python/makePerfectForecastDataset.py
@@ -35,7 +35,7 @@ def make_forecast_cmb_dataset(input_cl_file, output_root, output_dir=None, noise
     :return:
     """
 
-    use_lensing = lens_recon_noise
+    use_lensing = lens_recon_noise is not None
     use_CMB = noise_muK_arcmin_T or NoiseVar is not None
 
     ini = IniFile()
@@ -85,9 +85,10 @@ def make_forecast_cmb_dataset(input_cl_file, output_root, output_dir=None, noise
         f.write('#L %s\n' % noise_cols)
 
         for l in range(lmin, lmax + 1):
-            NoiseCl = l * (l + 1.) / 2 / np.pi * NoiseVar * np.exp(l * (l + 1) * sigma2)
             noises = []
-            if use_CMB: noises += [NoiseCl, ENoiseFac * NoiseCl, ENoiseFac * NoiseCl]
+            if use_CMB:
+                NoiseCl = l * (l + 1.) / 2 / np.pi * NoiseVar * np.exp(l * (l + 1) * sigma2)
+                noises += [NoiseCl, ENoiseFac * NoiseCl, ENoiseFac * NoiseCl]
             if use_lensing: noises += [lens_recon_noise[l]]
             f.write("%d " % l + " ".join("%E" % elem for elem in noises) + "\n")
 
-- 
2.43.0


From 42729b9c501920b7e2a6399cc0cb2e31f47812d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:50 +0000
Subject: [PATCH 119/153] fix: forecast CMB data sets only use the fields in
 the input file

---
 python/makePerfectForecastDataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/makePerfectForecastDataset.py b/python/makePerfectForecastDataset.py
index 3ba914e..2821515 100644
--- a/python/makePerfectForecastDataset.py
+++ b/python/makePerfectForecastDataset.py
@@ -59,8 +59,8 @@ def make_forecast_cmb_dataset(input_cl_file, output_root, output_dir=None, noise
             raise ValueError('Specific either noise_muK_arcmin or NoiseVar')
         if not fields_use:
             fields_use = ''
-            if 'TT' or 'TE' in cl_data_cols: fields_use = 'T'
-            if 'EE' or 'TE' in cl_data_cols: fields_use += ' E'
+            if 'TT' in cl_data_cols or 'TE' in cl_data_cols: fields_use = 'T'
+            if 'EE' in cl_data_cols or 'TE' in cl_data_cols: fields_use += ' E'
             if 'BB' in cl_data_cols: fields_use += ' B'
             if 'PP' in cl_data_cols and use_lensing: fields_use += ' P'
     else:
-- 
2.43.0


From e0d7dcc63a9ac84e2ff0c246a1a8063f53a0722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:50 +0000
Subject: [PATCH 120/153] fix: marginalized supernova likelihood with current
 numpy

---
 python/planck/SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/SN.py b/python/planck/SN.py
index 006ee81..ae4c593 100644
--- a/python/planck/SN.py
+++ b/python/planck/SN.py
@@ -175,7 +175,7 @@ class SN_likelihood(object):
             self.int_points = _int_points
             self.alpha_grid = self.alpha_grid[:_int_points]
             self.beta_grid = self.beta_grid[:_int_points]
-            self.invcovs = np.empty(_int_points, dtype=np.object)
+            self.invcovs = np.empty(_int_points, dtype=object)
             if precompute_covmats:
                 for i, (alpha, beta) in enumerate(zip(self.alpha_grid, self.beta_grid)):
                     self.invcovs[i] = self.inverse_covariance_matrix(alpha, beta)
-- 
2.43.0


From 6dc99b3b03bf4db5d6ec9d45274e97bb4e5a5a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:50 +0000
Subject: [PATCH 121/153] fix: supernova likelihood does not depend on earlier
 calls

The covariance of previous close but different parameter values was used
---
 python/planck/SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/SN.py b/python/planck/SN.py
index ae4c593..d509960 100644
--- a/python/planck/SN.py
+++ b/python/planck/SN.py
@@ -195,7 +195,7 @@ class SN_likelihood(object):
         else:
             invcovmat = 0
         if self.alphabeta_covmat:
-            if np.isclose(alpha, self._last_alpha) and np.isclose(beta, self._last_beta):
+            if alpha == self._last_alpha and beta == self._last_beta:
                 return self.invcov
             self._last_alpha = alpha
             self._last_beta = beta
-- 
2.43.0


From d2f9632055bf8e1ee42a27331a25de393f3bf69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:50 +0000
Subject: [PATCH 122/153] fix: supernova data files with empty lines

Also keep the name of the data set
---
 python/planck/SN.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/planck/SN.py b/python/planck/SN.py
index d509960..eaaca9d 100644
--- a/python/planck/SN.py
+++ b/python/planck/SN.py
@@ -88,12 +88,12 @@ class SN_likelihood(object):
                         if rename in cols:
                             cols[cols.index(rename)] = new
                     self.has_third_var = 'third_var' in cols
-                    zeros = np.zeros(len(lines) - 1)
+                    zeros = np.zeros(len([row for row in lines if row.strip() and '#' not in row]))
                     self.third_var = zeros.copy()
                     self.dthird_var = zeros.copy()
                     self.set = zeros.copy()
                     for col in cols:
-                        setattr(self, col, zeros.copy())
+                        if col != 'name': setattr(self, col, zeros.copy())
                 elif line.strip():
                     if cols is None: raise Exception('Data file must have comment header')
                     vals = line.split()
-- 
2.43.0


From be353a9ba652eb4a31721f04ad1ec644cb5b0d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:50 +0000
Subject: [PATCH 123/153] fix: supernova marginalization without precomputed
 matrices when they do not vary

---
 python/planck/SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/SN.py b/python/planck/SN.py
index eaaca9d..d42a29e 100644
--- a/python/planck/SN.py
+++ b/python/planck/SN.py
@@ -180,7 +180,7 @@ class SN_likelihood(object):
                 for i, (alpha, beta) in enumerate(zip(self.alpha_grid, self.beta_grid)):
                     self.invcovs[i] = self.inverse_covariance_matrix(alpha, beta)
 
-        elif not self.alphabeta_covmat:
+        if not self.alphabeta_covmat:
             self.inverse_covariance_matrix()
 
     def _read_covmat(self, filename):
-- 
2.43.0


From 8fa8f018ee221ad3b7b5455b389240b52a2de245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:47 +0000
Subject: [PATCH 124/153] fix: forecast CMB data sets with an integer beam
 width

The beam was lost in Python 2 integer division, and the value in the built in check was that without beam
---
 python/makePerfectForecastDataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/makePerfectForecastDataset.py b/python/makePerfectForecastDataset.py
index 2821515..61037f1 100644
--- a/python/makePerfectForecastDataset.py
+++ b/python/makePerfectForecastDataset.py
@@ -73,7 +73,7 @@ def make_forecast_cmb_dataset(input_cl_file, output_root, output_dir=None, noise
     dataset['fields_use'] = fields_use
 
     if use_CMB:
-        fwhm = fwhm_arcmin / 60
+        fwhm = fwhm_arcmin / 60.
         xlc = 180 * np.sqrt(8. * np.log(2.)) / np.pi
         sigma2 = (fwhm / xlc) ** 2
         noise_cols = 'TT           EE          BB'
@@ -140,4 +140,4 @@ if __name__ == "__main__":
     end = time.time() - start
     print('Test chi2 = %s' % chi2)
     print('Time: %s' % end)
-    if not np.allclose(49.055, chi2, rtol=1e-5): raise Exception('likelihood test failed')
+    if not np.allclose(35.7728, chi2, rtol=1e-5): raise Exception('likelihood test failed')
-- 
2.43.0


From ae6b34b54be8f7cbb35f79bf29b9ffa7b578ab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:06 +0000
Subject: [PATCH 125/153] fix: convergence of runs with a single chain

---
 python/getdist/types.py      | 3 +++
 python/makeTables.py         | 2 +-
 python/paramgrid/batchjob.py | 3 ++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 94c69eb..74fd183 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -917,4 +917,7 @@ class ConvergeStats(ParamResults):
             raise
 
     def worstR(self):
+        if not self.R_eigs:
+            # e.g. only one chain
+            return None
         return self.R_eigs[len(self.R_eigs) - 1]
diff --git a/python/makeTables.py b/python/makeTables.py
index 8ca38e1..453b062 100644
--- a/python/makeTables.py
+++ b/python/makeTables.py
@@ -121,7 +121,7 @@ def paramResultTable(jobItem, deltaChisqJobItem=None, referenceDataJobItem=None)
                 if likeMarge_ref is not None and likeMarge_ref.meanLogLike is not None:
                     delta = likeMarge.meanLogLike - likeMarge_ref.meanLogLike
                     caption.append('$\\Delta\\bar{\\chi}^2_{\\rm eff} = ' + ('%.2f' % (delta * 2)) + '$')
-        if jobItem.result_converge is not None: caption.append('$R-1 =' + jobItem.result_converge.worstR() + '$')
+        if jobItem.result_converge is not None and jobItem.result_converge.worstR() is not None: caption.append('$R-1 =' + jobItem.result_converge.worstR() + '$')
         if jobItem.result_marge is not None:
             if args.systematic_average:
                 tableLines += getSystematicAverageTableLines(jobItem, referenceDataJobItem)
diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index bc71e44..192e8e8 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -432,7 +432,8 @@ class jobItem(propertiesItem):
             fname = self.distRoot + '.converge'
             if not nonEmptyFile(fname): return None
             self.result_converge = types.ConvergeStats(fname)
-        return float(self.result_converge.worstR())
+        worstR = self.result_converge.worstR()
+        return None if worstR is None else float(worstR)
 
     def hasConvergeBetterThan(self, R, returnNotExist=False):
         try:
-- 
2.43.0


From ecb6cc8e6dc72dec383fa0aff29aae11207dcf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:51 +0000
Subject: [PATCH 126/153] fix: setting the number of columns of makeTables.py

---
 python/makeTables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/makeTables.py b/python/makeTables.py
index 453b062..5c485ff 100644
--- a/python/makeTables.py
+++ b/python/makeTables.py
@@ -45,7 +45,7 @@ Opts.parser.add_argument('--paramNameFile', default='clik_latex.paramnames',
 Opts.parser.add_argument('--paramList', default=None,
                          help=".paramnames file listing specific parameters to include (only)")
 Opts.parser.add_argument('--blockEndParams', default=None)
-Opts.parser.add_argument('--columns', type=int, nargs=1, default=3)
+Opts.parser.add_argument('--columns', type=int, default=3)
 Opts.parser.add_argument('--compare', nargs='+', default=None)
 
 Opts.parser.add_argument('--titles', default=None)  # for compare plots
-- 
2.43.0


From 428910d20aa8d0de762416d464492399166efbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:51 +0000
Subject: [PATCH 127/153] fix: tables for all limits in a relative directory

---
 python/makeTables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/makeTables.py b/python/makeTables.py
index 5c485ff..3d4e667 100644
--- a/python/makeTables.py
+++ b/python/makeTables.py
@@ -327,6 +327,7 @@ for limit in limits:
     if not args.forpaper:
         print('Now converting to PDF...')
         delext = ['aux', 'log', 'out', 'toc']
+        cwd = os.getcwd()
         if len(outdir) > 0:
             os.chdir(outdir)
         for _ in range(3):
@@ -335,3 +336,4 @@ for limit in limits:
         for ext in delext:
             if os.path.exists(root + '.' + ext):
                 os.remove(root + '.' + ext)
+        os.chdir(cwd)
-- 
2.43.0


From 0febb8291b6814cb717740390acfd2cc2f3f4661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:51 +0000
Subject: [PATCH 128/153] fix: directory of makeParamCompare.py output

---
 python/makeParamCompare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/makeParamCompare.py b/python/makeParamCompare.py
index b33e8c1..db463b3 100644
--- a/python/makeParamCompare.py
+++ b/python/makeParamCompare.py
@@ -93,5 +93,5 @@ for i, par in enumerate(args.params):
 if args.latex_filename is not None:
     if args.latex_filename.find('.') < 0: args.latex_filename += '.tex'
     (outdir, outname) = os.path.split(args.latex_filename)
-    if not os.path.exists(outdir): os.makedirs(os.path.dirname(outdir))
+    if outdir and not os.path.exists(outdir): os.makedirs(outdir)
     types.TextFile(lines).write(args.latex_filename)
-- 
2.43.0


From 4748a5e1be1fa1e1fd9683c5e44617bc550be503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:15 +0000
Subject: [PATCH 129/153] fix: looking at a chain with a single sample

---
 python/chainPeek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/chainPeek.py b/python/chainPeek.py
index b96ece2..485f3d0 100644
--- a/python/chainPeek.py
+++ b/python/chainPeek.py
@@ -17,7 +17,7 @@ param = sys.argv[2]
 index = 1
 if len(sys.argv) > 3: index = int(sys.argv[3])
 
-d = np.loadtxt(chain + '_' + str(index) + '.txt')
+d = np.loadtxt(chain + '_' + str(index) + '.txt', ndmin=2)
 names = paramnames.ParamNames(chain + '.paramnames')
 
 print(d[:, names.numberOfName(param) + 2])
-- 
2.43.0


From 8325f6b36ea870ee76b8a051db2422f600a6a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:34 +0000
Subject: [PATCH 130/153] fix: comparison tables where no runs have been
 analysed

---
 python/makeTables.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/makeTables.py b/python/makeTables.py
index 3d4e667..8ecdd50 100644
--- a/python/makeTables.py
+++ b/python/makeTables.py
@@ -153,6 +153,7 @@ def compareTable(jobItems, titles=None):
         jobItem.loadJobItemResults(paramNameFile=args.paramNameFile, bestfit=not args.nobestfit,
                                    bestfitonly=args.bestfitonly)
         print(jobItem.name)
+    if all(jobItem.result_marge is None for jobItem in jobItems): return []
     if titles is None:
         titles = [jobItem.datatag for jobItem in jobItems if jobItem.result_marge is not None]
     else:
-- 
2.43.0


From 8ee476763cb42d74796ce2aa48243d64df18b764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:04 +0000
Subject: [PATCH 131/153] fix: jobs with more chains on each node than it has
 cores are refused

---
 python/paramgrid/jobqueue.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 5f76c62..131da0a 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -272,6 +272,7 @@ def submitJob(jobName, paramFiles, sequential=False, msg=False, **kwargs):
     j.runsPerJob = (len(paramFiles), 1)[sequential]
     # adjust omp for the actual number (may not be equal to input runsPerJob because of non-integer multiple)
     j.omp = j.coresPerNode // (j.chainsPerNode * j.runsPerJob)
+    if not j.omp: raise Exception('Not enough cores for %i runs' % j.runsPerJob)
 
     j.path = os.getcwd()
     j.onerun = (0, 1)[len(paramFiles) == 1 or sequential]
-- 
2.43.0


From 8329eea014d6ec4013455944788b3adb0d7e4ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:36 +0000
Subject: [PATCH 132/153] fix: panels for all the plots when only the number of
 rows is given

---
 python/getdist/plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 32631df..3e31940 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1721,6 +1721,8 @@ class GetDistPlotter(_BaseObject):
         :param ny: optional specified number of rows
         :return: n_cols, n_rows
         """
+        if ny and not nx:
+            nx = (nplot + ny - 1) // ny
         plot_col = nx or int(round(np.sqrt(nplot / 1.4)))
         plot_row = ny or (nplot + plot_col - 1) // plot_col
         return plot_col, plot_row
-- 
2.43.0


From c3df2e9f5b61315ee94b7e7128ceaf55495646a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:36 +0000
Subject: [PATCH 133/153] fix: export plots with a tag and file name extension,
 or to directories with dots in their name

---
 python/getdist/plots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 3e31940..5bd6eab 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -3256,8 +3256,9 @@ class GetDistPlotter(_BaseObject):
         if fname is None:
             fname = os.path.basename(sys.argv[0]).replace('.py', '')
         if tag:
-            fname += '_' + tag
-        if '.' not in fname:
+            fname, ext = os.path.splitext(fname)
+            fname += '_' + tag + ext
+        if '.' not in os.path.basename(fname):
             fname += '.' + getdist.default_plot_output
         if adir is not None and os.sep not in fname and '/' not in fname:
             fname = os.path.join(adir, fname)
-- 
2.43.0


From 71aafe60f47115a1070fd01568d7e14bbd224633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:44 +0000
Subject: [PATCH 134/153] fix: CamSpec likelihood can be loaded (removed numpy
 aliases, name of the file of the cached inverse)

---
 python/planck/CMB_CamSpec.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index df333b0..d1ab9df 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -65,11 +65,11 @@ class CamSpec_likelihood(object):
             lines = f.readlines()
             while not lines[-1].strip(): lines = lines[:-1]
             self.Nspec = len(lines)
-            lmin = np.zeros(self.Nspec, dtype=np.int)
-            lmax = np.zeros(self.Nspec, dtype=np.int)
+            lmin = np.zeros(self.Nspec, dtype=int)
+            lmax = np.zeros(self.Nspec, dtype=int)
             self.cl_names = []
-            self.ell_ranges = np.empty(self.Nspec, dtype=np.object)
-            self.used_sizes = np.zeros(self.Nspec, dtype=np.int)
+            self.ell_ranges = np.empty(self.Nspec, dtype=object)
+            self.used_sizes = np.zeros(self.Nspec, dtype=int)
             for i, line in enumerate(lines):
                 items = line.split()
                 tp = items[0]
@@ -85,7 +85,7 @@ class CamSpec_likelihood(object):
                             else:
                                 ells = used_ell
                             self.ell_ranges[i] = np.array([L for L in range(lmin[i], lmax[i] + 1) if L in ells],
-                                                          dtype=np.int)
+                                                          dtype=int)
                             used_indices.append(self.ell_ranges[i] + (nX - lmin[i]))
                         else:
                             used_indices.append(range(nX, nX + n))
@@ -131,7 +131,7 @@ class CamSpec_likelihood(object):
             self.lnrat[l_min:] = np.log(self.ls[l_min:] / np.float64(pivot))
 
         import hashlib
-        cache_file = self.dataset_file.replace('.dataset', '_covinv_%s.npy' % hashlib.md5(
+        cache_file = dataset.replace('.dataset', '_covinv_%s.npy' % hashlib.md5(
             str(ini.params).encode('utf8')).hexdigest())
         if use_cache and os.path.exists(cache_file):
             self.covinv = np.load(cache_file).astype(np.float64)
@@ -248,7 +248,7 @@ class CamSpec_likelihood(object):
         lmin = np.min([min(r) for r in self.ell_ranges[:4]])
         lmax = np.max([max(r) for r in self.ell_ranges[:4]])
         n_p = lmax - lmin + 1
-        LS = np.zeros(delta_vector.shape, dtype=np.int)
+        LS = np.zeros(delta_vector.shape, dtype=int)
         ix = 0
         for i, (cal, n) in enumerate(zip(cals[:4], self.used_sizes[:4])):
             if n > 0:
@@ -262,7 +262,7 @@ class CamSpec_likelihood(object):
         ix1 = 0
         Loffsets = [LS - lmin for LS in self.ell_ranges[:4]]
         contiguous = not np.any(
-            [np.count_nonzero(LS - np.arange(LS[0], LS[-1] + 1, dtype=np.int)) for LS in self.ell_ranges[:4]])
+            [np.count_nonzero(LS - np.arange(LS[0], LS[-1] + 1, dtype=int)) for LS in self.ell_ranges[:4]])
         for i, (cal, LS, n) in enumerate(zip(cals[:4], Loffsets, self.used_sizes[:4])):
             dL[LS] += d[ix1:ix1 + n] / cal
             ix = 0
-- 
2.43.0


From 008332766a61a0631c44cc671c57169741852d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:44 +0000
Subject: [PATCH 135/153] fix: CamSpec foregrounds use the logarithm of the
 multipole, not its integer part

---
 python/planck/CMB_CamSpec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index d1ab9df..332e368 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -126,7 +126,7 @@ class CamSpec_likelihood(object):
                                    self.read_normalized(ini.relativeFileName('dust143file'))[:max_l + 1],
                                    self.read_normalized(ini.relativeFileName('dust217file'))[:max_l + 1],
                                    self.read_normalized(ini.relativeFileName('dust143x217file'))[:max_l + 1]))
-            self.lnrat = self.ls * 0
+            self.lnrat = np.zeros(self.ls.shape)
             l_min = np.min(lmin[self.cl_used])
             self.lnrat[l_min:] = np.log(self.ls[l_min:] / np.float64(pivot))
 
-- 
2.43.0


From ee509d71cdcf9d1d9b5ea6d8e455da73c108f716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:44 +0000
Subject: [PATCH 136/153] fix: single multipoles in CamSpec use_range

---
 python/planck/CMB_CamSpec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index 332e368..47806c8 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -21,7 +21,7 @@ def range_to_ells(use_range):
                 mn, mx = [int(x) for x in ell_range.split('-')]
                 ranges.append(range(mn, mx + 1))
             else:
-                ranges.append(int(ell_range))
+                ranges.append([int(ell_range)])
         return np.concatenate(ranges)
     else:
         return use_range
-- 
2.43.0


From 355fc932eb14a17c4a8d831b636295126a18456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:44 +0000
Subject: [PATCH 137/153] fix: CamSpec spectrum weights are those of the
 likelihood asked

---
 python/planck/CMB_CamSpec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index 47806c8..db8dfbb 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -293,8 +293,8 @@ class CamSpec_likelihood(object):
         f = self.get_foregrounds(data_params) * 0
         weights = []
         for i in range(4):
-            ells = camspec.ell_ranges[i]
-            vec = np.zeros(camspec.data_vector.shape)
+            ells = self.ell_ranges[i]
+            vec = np.zeros(self.data_vector.shape)
             vec[ix:ix + len(ells)] = 1
             Ti = self.coadded_TT(data_params, data_vector=vec, want_cov=False, foregrounds=f)
             weights.append((ells, Ti[ells]))
-- 
2.43.0


From 1e4e128d8d5a7c74498f3015c51fe864a06fed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:44 +0000
Subject: [PATCH 138/153] fix: cached CamSpec inverse covariance is that of the
 covariance in use

---
 python/planck/CMB_CamSpec.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index db8dfbb..a6eea14 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -131,8 +131,7 @@ class CamSpec_likelihood(object):
             self.lnrat[l_min:] = np.log(self.ls[l_min:] / np.float64(pivot))
 
         import hashlib
-        cache_file = dataset.replace('.dataset', '_covinv_%s.npy' % hashlib.md5(
-            str(ini.params).encode('utf8')).hexdigest())
+        cache_file = dataset.replace('.dataset', '_covinv_%s.npy' % hashlib.md5(self.cov.tobytes()).hexdigest())
         if use_cache and os.path.exists(cache_file):
             self.covinv = np.load(cache_file).astype(np.float64)
         else:
-- 
2.43.0


From 613fe820f559b5c502b560ac15a9b3d5dbdce426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:12 +0000
Subject: [PATCH 139/153] fix: co-added CamSpec spectrum when some of the
 spectra or multipoles are not used

---
 python/planck/CMB_CamSpec.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index a6eea14..d1784f1 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -234,6 +234,7 @@ class CamSpec_likelihood(object):
                    want_cov=True, data_vector=None):
         nTT = np.sum(self.used_sizes[:4])
         assert nTT
+        used = np.flatnonzero(self.used_sizes[:4])
         if foregrounds is not None and cals is not None and data_params is not None:
             raise ValueError('data_params not used')
         if foregrounds is None:
@@ -244,8 +245,8 @@ class CamSpec_likelihood(object):
             data_vector = self.data_vector
         delta_vector = data_vector[:nTT].copy()
         cal_vector = np.zeros(delta_vector.shape)
-        lmin = np.min([min(r) for r in self.ell_ranges[:4]])
-        lmax = np.max([max(r) for r in self.ell_ranges[:4]])
+        lmin = np.min([min(r) for r in self.ell_ranges[used]])
+        lmax = np.max([max(r) for r in self.ell_ranges[used]])
         n_p = lmax - lmin + 1
         LS = np.zeros(delta_vector.shape, dtype=int)
         ix = 0
@@ -259,13 +260,12 @@ class CamSpec_likelihood(object):
         d = self.covinv[:nTT, :nTT].dot(delta_vector)
         dL = np.zeros(n_p)
         ix1 = 0
-        Loffsets = [LS - lmin for LS in self.ell_ranges[:4]]
-        contiguous = not np.any(
-            [np.count_nonzero(LS - np.arange(LS[0], LS[-1] + 1, dtype=int)) for LS in self.ell_ranges[:4]])
-        for i, (cal, LS, n) in enumerate(zip(cals[:4], Loffsets, self.used_sizes[:4])):
+        Loffsets = [np.asarray(LS) - lmin for LS in self.ell_ranges[used]]
+        contiguous = all(len(LS) == LS[-1] - LS[0] + 1 for LS in Loffsets)
+        for cal, LS, n in zip(cals[used], Loffsets, self.used_sizes[used]):
             dL[LS] += d[ix1:ix1 + n] / cal
             ix = 0
-            for cal2, r in zip(cals[:4], Loffsets):
+            for cal2, r in zip(cals[used], Loffsets):
                 if contiguous:
                     pcov[LS[0]:LS[0] + n, r[0]:r[0] + len(r)] += self.covinv[ix1:ix1 + n, ix:ix + len(r)] / (
                             cal2 * cal)
-- 
2.43.0


From 3fe65e1b3b2658b2d5747e186f7449c5be139c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:57 +0000
Subject: [PATCH 140/153] fix: ticks shifted to rounder numbers stay within the
 axis

---
 python/getdist/matplotlib_ext.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/matplotlib_ext.py b/python/getdist/matplotlib_ext.py
index 61e81ff..d73b838 100644
--- a/python/getdist/matplotlib_ext.py
+++ b/python/getdist/matplotlib_ext.py
@@ -281,6 +281,7 @@ class BoundedMaxNLocator(ticker.MaxNLocator):
                                         break
                                     shifted = ticks + shift * sc
                                     if any(np.round(shifted / sc / 10) * 10 == np.round(shifted / sc)) \
+                                            and self._range[0] <= shifted[0] and shifted[-1] <= self._range[1] \
                                             and self._valid(shifted):
                                         ticks = shifted
 
-- 
2.43.0


From 69b169ead4d83b56e68d35cefbdc86e954422c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:36 +0000
Subject: [PATCH 141/153] fix: DES likelihood can be loaded (removed numpy
 aliases)

---
 python/planck/DES.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/python/planck/DES.py b/python/planck/DES.py
index 034fc71..45b4796 100644
--- a/python/planck/DES.py
+++ b/python/planck/DES.py
@@ -147,10 +147,10 @@ class DES_like(object):
         self.thetas = []
         for i, tp in enumerate(self.data_types):
             xi = np.loadtxt(ini.relativeFileName('measurements[%s]' % tp))
-            bin1 = xi[:, 0].astype(np.int) - 1
-            bin2 = xi[:, 1].astype(np.int) - 1
-            tbin = xi[:, 2].astype(np.int) - 1
-            corr = np.empty((maxbin, maxbin), dtype=np.object)
+            bin1 = xi[:, 0].astype(int) - 1
+            bin2 = xi[:, 1].astype(int) - 1
+            tbin = xi[:, 2].astype(int) - 1
+            corr = np.empty((maxbin, maxbin), dtype=object)
             corr[:, :] = None
             self.data_arrays.append(corr)
             self.bin_pairs.append([])
@@ -214,9 +214,9 @@ class DES_like(object):
                 cov_ix += 1
 
         self.nzbins = 4  # for lensing sources
-        corrs_p = np.empty((self.nzbins, self.nzbins), dtype=np.object)
+        corrs_p = np.empty((self.nzbins, self.nzbins), dtype=object)
         corrs_p[:, :] = None
-        corrs_m = np.empty((self.nzbins, self.nzbins), dtype=np.object)
+        corrs_m = np.empty((self.nzbins, self.nzbins), dtype=object)
         corrs_m[:, :] = None
         ntheta = 20
         self.theta_bins = np.empty(ntheta)
@@ -229,7 +229,7 @@ class DES_like(object):
                 corrs[f1, f2][ix] = dat
 
         self.nwbins = 5  # for galaxies
-        corrs_w = np.empty((self.nwbins, self.nwbins), dtype=np.object)
+        corrs_w = np.empty((self.nwbins, self.nwbins), dtype=object)
         for f1 in range(self.nwbins):
             corrs_w[f1, f1] = np.empty(ntheta)
         wdata = hdulist['wtheta'].data
@@ -239,7 +239,7 @@ class DES_like(object):
             assert (np.abs(self.theta_bins[ix] / theta - 1) < 2e-3)
             corrs_w[f1, f2][ix] = dat
 
-        corrs_t = np.empty((self.nwbins, self.nwbins), dtype=np.object)
+        corrs_t = np.empty((self.nwbins, self.nwbins), dtype=object)
         corrs_t[:, :] = None
         tdata = hdulist['gammat'].data
         for f1, f2, ix, dat, theta in zip(tdata.field(0) - 1, tdata.field(1) - 1, tdata.field(2), tdata.field(3),
@@ -416,7 +416,7 @@ class DES_like(object):
             # Approximate bessel integral as binned smooth C_L against integrals of bessel in each bin.
             # Here we crudely precompute an approximation to the bessel integral by brute force
             dls = np.diff(np.unique((np.exp(np.linspace(np.log(1.), np.log(self.lmax), int(500 * acc)))).astype(
-                np.int)))
+                int)))
             groups = []
             ell = 2  # ell_min
             self.ls_bessel = np.zeros(dls.size)
@@ -552,10 +552,10 @@ class DES_like(object):
         else:
             tmplens = tmp
 
-        corrs_th_p = np.empty((self.nzbins, self.nzbins), dtype=np.object)
-        corrs_th_m = np.empty((self.nzbins, self.nzbins), dtype=np.object)
-        corrs_th_w = np.empty((self.nwbins, self.nwbins), dtype=np.object)
-        corrs_th_t = np.empty((self.nwbins, self.nzbins), dtype=np.object)
+        corrs_th_p = np.empty((self.nzbins, self.nzbins), dtype=object)
+        corrs_th_m = np.empty((self.nzbins, self.nzbins), dtype=object)
+        corrs_th_w = np.empty((self.nwbins, self.nwbins), dtype=object)
+        corrs_th_t = np.empty((self.nwbins, self.nzbins), dtype=object)
         if self.use_hankel:
             # Note that the absolute value of the correlation depends on what you do about L_min (e.g. 1 vs 2 vs 0 makes a difference).
             if 'xip' in self.used_types or 'xim' in self.used_types:
-- 
2.43.0


From 558969f5f872ca9a43eed7a828d76ac162e1c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:36 +0000
Subject: [PATCH 142/153] fix: DES theory is compared with the data of its own
 type in whatever order types are listed

---
 python/planck/DES.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/planck/DES.py b/python/planck/DES.py
index 45b4796..edf84e5 100644
--- a/python/planck/DES.py
+++ b/python/planck/DES.py
@@ -592,7 +592,8 @@ class DES_like(object):
                     cl = UnivariateSpline(ls_cl, np.dot(tmp, qgal[f1] * qgal[f2]), s=0)(ls_bessel)
                     corrs_th_w[f1, f2] = np.dot(cl, j0s)
 
-        return [corrs_th_p, corrs_th_m, corrs_th_t, corrs_th_w]
+        theory = {'xip': corrs_th_p, 'xim': corrs_th_m, 'gammat': corrs_th_t, 'wtheta': corrs_th_w}
+        return [theory[tp] for tp in self.data_types]
 
     def make_vector(self, arrays):
         nused = len(self.used_items)
-- 
2.43.0


From d25b290862d255dd4386706a19ae65b996090593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:36 +0000
Subject: [PATCH 143/153] fix: name of the intrinsic alignment model of DES
 datasets

---
 python/planck/DES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/DES.py b/python/planck/DES.py
index edf84e5..fc00f2d 100644
--- a/python/planck/DES.py
+++ b/python/planck/DES.py
@@ -118,7 +118,7 @@ class DES_like(object):
         self.fullcov = np.loadtxt(ini.relativeFileName('cov_file'))
         ntheta = ini.int('num_theta_bins')
         self.theta_bins = np.loadtxt(ini.relativeFileName('theta_bins_file'))
-        self.iintrinsic_alignment_model = ini.string('intrinsic_alignment_model')
+        self.intrinsic_alignment_model = ini.string('intrinsic_alignment_model')
 
         self.data_types = ini.string('data_types').split()
         self.used_types = ini.list('used_data_types', self.data_types)
-- 
2.43.0


From 4fd14744f9d4997e5663d02f57f97910288338cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:36 +0000
Subject: [PATCH 144/153] fix: nx option of makePlots is a number

---
 python/paramgrid/batchjob_args.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob_args.py b/python/paramgrid/batchjob_args.py
index c9d8427..c72bd27 100644
--- a/python/paramgrid/batchjob_args.py
+++ b/python/paramgrid/batchjob_args.py
@@ -72,7 +72,7 @@ class batchArgs(object):
             self.parser.add_argument('--param_list', default=None,
                                      help=".paramnames file listing specific parameters to include (only)")
             self.parser.add_argument('--size_inch', type=float, default=None, help='output subplot size in inches')
-            self.parser.add_argument('--nx', default=None, help='number of plots per row')
+            self.parser.add_argument('--nx', type=int, default=None, help='number of plots per row')
             self.parser.add_argument('--outputs', nargs='+', default=['pdf'], help='output file type (default: pdf)')
 
         args = self.parser.parse_args(vals)
-- 
2.43.0


From 82561bdea26ae7763a475f99a6028c9bea2d87dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:36 +0000
Subject: [PATCH 145/153] fix: param_list option of makePlots is a file name,
 as the plotter expects

---
 python/paramgrid/batchjob_args.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/python/paramgrid/batchjob_args.py b/python/paramgrid/batchjob_args.py
index c72bd27..08f1eba 100644
--- a/python/paramgrid/batchjob_args.py
+++ b/python/paramgrid/batchjob_args.py
@@ -83,9 +83,7 @@ class batchArgs(object):
                 raise Exception('batchPath %s does not exist or is not initialized with makeGrid.py' % args.batchPath)
             if self.doplots:
                 import getdist.plots as plots
-                from getdist import paramnames
 
-                if args.param_list is not None: args.param_list = paramnames.ParamNames(args.param_list)
                 g = plots.GetDistPlotter(chain_dir=self.batch.batchPath)
                 if args.size_inch is not None: g.settings.setWithSubplotSize(args.size_inch)
                 return self.batch, self.args, g
-- 
2.43.0


From d92fca699f30707530b30e7e903f6d75c74e76d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:36 +0000
Subject: [PATCH 146/153] fix: makePlots keeps outtag in the names of 2D and
 triangle plots

---
 python/makePlots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/makePlots.py b/python/makePlots.py
index ad8ee9c..161319a 100644
--- a/python/makePlots.py
+++ b/python/makePlots.py
@@ -54,8 +54,8 @@ def comparePlot(jobItems):
 tp = ''
 if args.data is not None and len(args.data) == 1 and args.compare_alldata is not None: tp = '_' + args.data[0] + tp
 if args.outtag is not None: tp = '_' + args.outtag + tp
-if args.D2_param is not None: tp = '_' + args.D2_param + '_2D'
-if args.tri_params is not None: tp = '_tri'
+if args.D2_param is not None: tp += '_' + args.D2_param + '_2D'
+if args.tri_params is not None: tp += '_tri'
 
 if args.compare_replacing is not None:
     if args.data is None:
-- 
2.43.0


From 655a9debf04396f33053c455c5498b222c6f560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:36 +0000
Subject: [PATCH 147/153] fix: makePlots does not compare with runs that do not
 exist

---
 python/makePlots.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/makePlots.py b/python/makePlots.py
index 161319a..599d738 100644
--- a/python/makePlots.py
+++ b/python/makePlots.py
@@ -106,8 +106,9 @@ for paramtag, parambatch in items:
                 print('plotting: ' + jobItem.name)
                 roots = [jobItem.name]
                 for imp in jobItem.importanceItems:
-                    if len(args.compare_importance) == 0 or imp.importanceTag in args.compare_importance: roots.append(
-                        imp.name)
+                    if imp.chainExists() and (
+                            len(args.compare_importance) == 0 or imp.importanceTag in args.compare_importance):
+                        roots.append(imp.name)
                 doplot(roots)
                 for ext in args.outputs: g.export(outdir + jobItem.name + tp + '.' + ext)
     elif args.compare_paramtag is not None:
@@ -117,7 +118,7 @@ for paramtag, parambatch in items:
                 print('plotting: ' + output)
                 roots = [batch.normed_name_item(tag + '_' + jobItem.normed_data, wantImportance=True) for tag in
                          args.compare_paramtag]
-                roots = [jobItem.name] + [root.name for root in roots if root is not None]
+                roots = [jobItem.name] + [root.name for root in roots if root is not None and root.chainExists()]
                 if len(roots) > 1:
                     doplot(roots)
                     for ext in args.outputs: g.export(outdir + output + tp + '.' + ext)
-- 
2.43.0


From 3aedfba4cb932df1d0ae248a4af94bfa42d2ac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:36 +0000
Subject: [PATCH 148/153] fix: makePlots compare_paramtag with parameters in
 any order

---
 python/makePlots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/makePlots.py b/python/makePlots.py
index 599d738..f9747d9 100644
--- a/python/makePlots.py
+++ b/python/makePlots.py
@@ -116,9 +116,9 @@ for paramtag, parambatch in items:
             if not jobItem.paramtag in args.compare_paramtag:
                 output = jobItem.name + '-vs-' + "-".join(args.compare_paramtag)
                 print('plotting: ' + output)
-                roots = [batch.normed_name_item(tag + '_' + jobItem.normed_data, wantImportance=True) for tag in
-                         args.compare_paramtag]
-                roots = [jobItem.name] + [root.name for root in roots if root is not None and root.chainExists()]
+                roots = [item for tag in args.compare_paramtag for item in batch.items(wantSubItems=True, wantImportance=True)
+                         if item.paramtag == tag and item.normed_data == jobItem.normed_data]
+                roots = [jobItem.name] + [root.name for root in roots if root.chainExists()]
                 if len(roots) > 1:
                     doplot(roots)
                     for ext in args.outputs: g.export(outdir + output + tp + '.' + ext)
-- 
2.43.0


From 9d159b18dd2429bbeb8f123e5be13c5bee89b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:37 +0000
Subject: [PATCH 149/153] fix: converge option of makePlots

---
 python/makePlots.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/makePlots.py b/python/makePlots.py
index f9747d9..3fa8e8c 100644
--- a/python/makePlots.py
+++ b/python/makePlots.py
@@ -51,6 +51,10 @@ def comparePlot(jobItems):
     doplot([jobItem.name for jobItem in jobItems])
 
 
+def canPlot(jobItem):
+    return jobItem.chainExists() and (args.converge == 0 or jobItem.hasConvergeBetterThan(args.converge))
+
+
 tp = ''
 if args.data is not None and len(args.data) == 1 and args.compare_alldata is not None: tp = '_' + args.data[0] + tp
 if args.outtag is not None: tp = '_' + args.outtag + tp
@@ -66,6 +70,7 @@ if args.compare_replacing is not None:
 items = Opts.sortedParamtagDict()
 
 for paramtag, parambatch in items:
+    parambatch = [jobItem for jobItem in parambatch if canPlot(jobItem)]
     g.newPlot()
     if args.compare_replacing is not None:
         print('comparing changes in data for: ' + paramtag)
@@ -106,7 +111,7 @@ for paramtag, parambatch in items:
                 print('plotting: ' + jobItem.name)
                 roots = [jobItem.name]
                 for imp in jobItem.importanceItems:
-                    if imp.chainExists() and (
+                    if canPlot(imp) and (
                             len(args.compare_importance) == 0 or imp.importanceTag in args.compare_importance):
                         roots.append(imp.name)
                 doplot(roots)
@@ -118,7 +123,7 @@ for paramtag, parambatch in items:
                 print('plotting: ' + output)
                 roots = [item for tag in args.compare_paramtag for item in batch.items(wantSubItems=True, wantImportance=True)
                          if item.paramtag == tag and item.normed_data == jobItem.normed_data]
-                roots = [jobItem.name] + [root.name for root in roots if root.chainExists()]
+                roots = [jobItem.name] + [root.name for root in roots if canPlot(root)]
                 if len(roots) > 1:
                     doplot(roots)
                     for ext in args.outputs: g.export(outdir + output + tp + '.' + ext)
-- 
2.43.0


From 063c0bf2d98afeabc1ea8fd1095557b1a09c8b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:37 +0000
Subject: [PATCH 150/153] fix: stored spectra in the current directory

---
 python/chainDumpPlot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/chainDumpPlot.py b/python/chainDumpPlot.py
index 9e2d660..db675de 100644
--- a/python/chainDumpPlot.py
+++ b/python/chainDumpPlot.py
@@ -23,7 +23,7 @@ def loadFiles(pat, max_files=400, cl_ix=1, calParam=None, rescale=1):
     pars = []
     cls = []
     ls = None
-    for f in os.listdir(d):
+    for f in os.listdir(d or '.'):
         if fnmatch.fnmatch(f, name + '.theory_cl'):
             fname = f.replace('.theory_cl', '')
             params = types.BestFit(os.path.join(d, fname + '.pars'))
-- 
2.43.0


From 754700405cc038392d25bc4d1614216c7b41701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:37 +0000
Subject: [PATCH 151/153] fix: density plots of stored spectra (integer number
 of multipoles)

---
 python/chainDumpPlot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/chainDumpPlot.py b/python/chainDumpPlot.py
index db675de..252d584 100644
--- a/python/chainDumpPlot.py
+++ b/python/chainDumpPlot.py
@@ -46,7 +46,7 @@ def CLdensity(samples, param, scalarMap, nbins=300, deltaL=1, Lmax=200, color_po
     if minCl > 0: minCl = 0
     maxCl = np.max(samples) * 1.04
     delta = (maxCl - minCl) / (nbins - 1)
-    nL = (Lmax - 1) / deltaL
+    nL = (Lmax - 1) // deltaL
     sums = np.zeros((nL, nbins))
     psums = np.zeros((nL, nbins))
 
-- 
2.43.0


From 9259ab9f82dd952631158337a81b369124916f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:37 +0000
Subject: [PATCH 152/153] fix: density plots of spectra that are negative

---
 python/chainDumpPlot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/chainDumpPlot.py b/python/chainDumpPlot.py
index 252d584..619907d 100644
--- a/python/chainDumpPlot.py
+++ b/python/chainDumpPlot.py
@@ -42,9 +42,10 @@ def loadFiles(pat, max_files=400, cl_ix=1, calParam=None, rescale=1):
 
 def CLdensity(samples, param, scalarMap, nbins=300, deltaL=1, Lmax=200, color_pow=0.25):
 #    H, xedges, yedges = np.histogram2d(x, y, bins=(100, 20), weights=param)
-    minCl = np.min(samples) / 1.04
+    minCl = np.min(samples) * 1.04
     if minCl > 0: minCl = 0
     maxCl = np.max(samples) * 1.04
+    if maxCl < 0: maxCl = 0
     delta = (maxCl - minCl) / (nbins - 1)
     nL = (Lmax - 1) // deltaL
     sums = np.zeros((nL, nbins))
@@ -80,7 +81,7 @@ def CLdensity(samples, param, scalarMap, nbins=300, deltaL=1, Lmax=200, color_po
     for i in range(nL):
             for j in range(nbins):
                 colorVal[j, i, :] = scalarMap.to_rgba(psums[i, j], sums[i, j] ** color_pow)
-    im = plt.imshow(colorVal, origin='lower', aspect='auto', extent=[2, Lmax, 0, maxCl])
+    im = plt.imshow(colorVal, origin='lower', aspect='auto', extent=[2, Lmax, minCl, maxCl])
     im.set_interpolation('bicubic')
 
 
-- 
2.43.0


From d07732cc73d6f1c69300d87b1a9f9837b0e77236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:37 +0000
Subject: [PATCH 153/153] fix: power of L and reference spectrum of density
 plots of stored spectra

---
 python/chainDumpPlot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/chainDumpPlot.py b/python/chainDumpPlot.py
index 619907d..5a96926 100644
--- a/python/chainDumpPlot.py
+++ b/python/chainDumpPlot.py
@@ -140,8 +140,10 @@ def rainbowDensityPlot(ls, pars, cls, parname, lpow=2, delta_to=None, Lmax=200,
     parvals = np.array([par.parWithName(parname).best_fit for par in pars])
     scalarMap, cNorm = last_colors or getColorMap(parvals)
     samples = np.zeros((len(cls), Lmax - 1))
+    sc = (ls * (ls + 1.)) ** (lpow / 2. - 1)
     for i, cl in enumerate(cls):
-        samples[i, :] = cl[:Lmax - 1]
+        if delta_to is not None: cl = cl - delta_to
+        samples[i, :] = (cl * sc)[:Lmax - 1]
     CLdensity(samples, parvals, scalarMap, Lmax=Lmax, color_pow=color_pow)
     setLabels(scalarMap, cNorm, pars[0].parWithName(parname))
     return scalarMap, cNorm
-- 
2.43.0

