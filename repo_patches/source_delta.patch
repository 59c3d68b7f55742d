From cb423d8ad0ed49b7e51a7b67b2b6b5fe25222abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 01/52] fix: Newton-Cotes remainder panel integrates along the
 requested axis

---
 seyfert/numeric/integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/numeric/integration.py b/seyfert/numeric/integration.py
index 9d15764..8c6ed6e 100644
--- a/seyfert/numeric/integration.py
+++ b/seyfert/numeric/integration.py
@@ -97,7 +97,7 @@ class CompositeNewtonCotesIntegrator:
             slc = [slice(None)] * len(self.y.shape)
             slc[axis] = slice(-self.n_excess_points - 1, self.y.shape[axis])
             yend = self.y[tuple(slc)]
-            last_bin_contrib = dx * np.sum(aend * yend, axis=axis)
+            last_bin_contrib = dx * np.sum(aend * np.moveaxis(yend, axis, -1), axis=-1)
 
             result += last_bin_contrib
 
-- 
2.43.0


From 82ff4b537aa03f5c08a6a382ac44a2ecc0c8c3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 02/52] fix: Fisher matrix operations drop the inverse and
 correlation of the previous matrix

---
 seyfert/fisher/fisher_matrix.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 279de2b..57c4802 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -206,6 +206,12 @@ class FisherMatrix:
         self.matrix = self.matrix.loc[relevant_pars, relevant_pars]
         self.matrix.sort_index(axis=0, inplace=True)
         self.matrix.sort_index(axis=1, inplace=True)
+        self._resetDerivedMatrices()
+
+    def _resetDerivedMatrices(self) -> "None":
+        # inverse and correlation refer to the matrix they were computed from
+        self.inverse = None
+        self.correlation = None
 
     def fixParameters(self, params: "Iterable[str]") -> "None":
         params = set(params)
@@ -215,6 +221,7 @@ class FisherMatrix:
         self._cosmological_parameters = self.cosmological_parameters - params
         self._nuisance_parameters = self.nuisance_parameters - params
         self.matrix = self.matrix.drop(params, axis=0).drop(params, axis=1)
+        self._resetDerivedMatrices()
 
     def evaluateInverse(self):
         self.inverse = fu.invert_dataframe(self.matrix)
@@ -260,6 +267,7 @@ class FisherMatrix:
         else:
             self._cosmological_parameters = self.cosmological_parameters - params
             self._nuisance_parameters = self.nuisance_parameters - params
+            self._resetDerivedMatrices()
             self.inverse = sliced_inverse
             marg_fisher = fu.invert_dataframe(sliced_inverse)
             self.matrix = marg_fisher.sort_index(axis=0).sort_index(axis=1)
@@ -309,6 +317,7 @@ class FisherMatrix:
             prior_fisher.loc[name, name] = 1 / (sigma_prior**2)
 
         self.matrix = self.matrix.add(prior_fisher, fill_value=0)
+        self._resetDerivedMatrices()
 
     def getFilename(self) -> "str":
         sub_dict = {
-- 
2.43.0


From 37d1a993b3fe4215f770c85df9a097a6302122b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 03/52] fix: correlation matrix pairs each error with the label
 it has in the inverse

---
 seyfert/fisher/fisher_matrix.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 57c4802..1bd2446 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -234,12 +234,12 @@ class FisherMatrix:
 
     def evaluateCorrelationMatrix(self) -> "None":
         sigmas = np.sqrt(np.diag(self.inverse))
-        sigma_row_df = pd.DataFrame(data=np.repeat(sigmas[np.newaxis, :], self.matrix.shape[0], axis=0),
-                                    index=self.matrix.index,
-                                    columns=self.matrix.columns)
-        sigma_col_df = pd.DataFrame(data=np.repeat(sigmas[:, np.newaxis], self.matrix.shape[1], axis=1),
-                                    index=self.matrix.index,
-                                    columns=self.matrix.columns)
+        sigma_row_df = pd.DataFrame(data=np.repeat(sigmas[np.newaxis, :], self.inverse.shape[0], axis=0),
+                                    index=self.inverse.index,
+                                    columns=self.inverse.columns)
+        sigma_col_df = pd.DataFrame(data=np.repeat(sigmas[:, np.newaxis], self.inverse.shape[1], axis=1),
+                                    index=self.inverse.index,
+                                    columns=self.inverse.columns)
         self.correlation = self.inverse / (sigma_row_df * sigma_col_df)
         self.correlation = self.correlation.loc[self._cosmological_parameters, self._cosmological_parameters]
         self.correlation.sort_index(axis=0, inplace=True)
-- 
2.43.0


From 17888858d9d673e252055630aac8f3249091f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 04/52] fix: Fisher matrix read from HDF5 has text name and
 parameters

---
 seyfert/fisher/fisher_matrix.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 1bd2446..ffb1ce7 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -364,13 +364,14 @@ class FisherMatrix:
     def loadFromFile(self, file: "Union[Path, str]" = None, file_ext: "str" = 'hdf5') -> "None":
         if file_ext == 'hdf5':
             hf = h5py.File(file, 'r')
-            self.name = str(hf["name"][()])
+            # since version 3 h5py reads strings as bytes
+            self.name = hf["name"].asstr()[()]
             try:
-                self._nuisance_parameters = set(hf["nuisance_pars"][()])
+                self._nuisance_parameters = set(hf["nuisance_pars"].asstr()[()])
             except KeyError:
                 self._nuisance_parameters = set()
-            self._cosmological_parameters = set(hf["cosmological_pars"][()])
-            indices = hf["indices"][()]
+            self._cosmological_parameters = set(hf["cosmological_pars"].asstr()[()])
+            indices = hf["indices"].asstr()[()]
             self.matrix = pd.DataFrame(data=hf["fisher_matrix"][()], index=indices, columns=indices)
             hf.close()
 
-- 
2.43.0


From 4353571a071ff0d10db70e59f06a1a34d6f49b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 05/52] fix: vectorised straight-line fit judges negative
 values by their absolute size

---
 seyfert/derivatives/differentiator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 8edd2f1..d51d4ec 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -130,7 +130,7 @@ class SteMClDifferentiator(ClDifferentiator):
                 y_abs_diff = np.abs(yfit - y)
                 err = np.zeros(y_abs_diff.shape)
                 mask = y != 0
-                err[mask] = y_abs_diff[mask] / y[mask]
+                err[mask] = y_abs_diff[mask] / np.abs(y[mask])
                 not_linear_mask = np.any(err > 0.01, axis=0)
 
                 x = x[1:-1]
-- 
2.43.0


From 4bc784b5c2fefbd14a704a59b5f4c06ad410386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 06/52] fix: vectorised straight-line fit goes down to the
 three central points

---
 seyfert/derivatives/differentiator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index d51d4ec..8a6ae5e 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -133,12 +133,12 @@ class SteMClDifferentiator(ClDifferentiator):
                 err[mask] = y_abs_diff[mask] / np.abs(y[mask])
                 not_linear_mask = np.any(err > 0.01, axis=0)
 
+                three_points_or_less = y.shape[0] <= 3
+                stop = np.count_nonzero(not_linear_mask) == 0 or three_points_or_less
+
                 x = x[1:-1]
                 y = y[1:-1]
 
-                less_than_three_points = y.shape[0] <= 3
-                stop = np.count_nonzero(not_linear_mask) == 0 or less_than_three_points
-
         dc_lij = slopes.reshape((n_ells, ni, nj))
 
         return dc_lij
-- 
2.43.0


From b64dcc74b2cdea4183680aefcf6cf22f6032a432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:17 +0000
Subject: [PATCH 07/52] fix: names of tracer pairs are recognised only as a
 whole

---
 seyfert/utils/shortcuts.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/seyfert/utils/shortcuts.py b/seyfert/utils/shortcuts.py
index 935b965..4bb3f32 100644
--- a/seyfert/utils/shortcuts.py
+++ b/seyfert/utils/shortcuts.py
@@ -139,14 +139,14 @@ class ClKey:
 
     @classmethod
     def fromFisherStringRepr(cls, str_repr: "str"):
-        auto_match = alias_probe_name_regex.match(str_repr)
+        auto_match = alias_probe_name_regex.fullmatch(str_repr)
         if auto_match:
             p = auto_match.groups()[0]
             key = cls.fromParts(p, p, kind="alias")
         else:
             pattern = alias_probe_name_regex.pattern
             xc_regex = re.compile(r"XC\(%s,%s\)" % (pattern, pattern))
-            xc_match = xc_regex.match(str_repr)
+            xc_match = xc_regex.fullmatch(str_repr)
             if not xc_match:
                 raise Exception(f"Invalid string repr for ClKey {str_repr}")
             p1, p2 = xc_match.groups()
@@ -156,8 +156,8 @@ class ClKey:
 
     def inferKind(self) -> "str":
         if isinstance(self.key, str):
-            long_match = long_cl_key_regex.match(self.key)
-            short_match = short_cl_key_regex.match(self.key)
+            long_match = long_cl_key_regex.fullmatch(self.key)
+            short_match = short_cl_key_regex.fullmatch(self.key)
             if long_match:
                 kind = "long"
                 self.match = long_match
@@ -171,9 +171,9 @@ class ClKey:
                 raise KeyError(f"Invalid key {self.key}")
             kind = "alias"
             p1, p2 = self.key
-            if not alias_probe_name_regex.match(p1):
+            if not alias_probe_name_regex.fullmatch(p1):
                 raise KeyError(f"{p1} is not a valid probe alias")
-            if not alias_probe_name_regex.match(p2):
+            if not alias_probe_name_regex.fullmatch(p2):
                 raise KeyError(f"{p2} is not a valid probe alias")
         else:
             raise KeyError(f"Invalid key {self.key}")
-- 
2.43.0


From 2b002746533d9162a99d4db9e8bb972385befe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 08/52] fix: data vectors of different length are not equal

---
 seyfert/fisher/datavector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/datavector.py b/seyfert/fisher/datavector.py
index 88f15d2..3699530 100644
--- a/seyfert/fisher/datavector.py
+++ b/seyfert/fisher/datavector.py
@@ -41,7 +41,7 @@ class ClDataVector:
         return len(self.entries)
 
     def __eq__(self, other: "ClDataVector") -> "bool":
-        return all(entry1 == entry2 for entry1, entry2 in zip(self, other))
+        return len(self) == len(other) and all(entry1 == entry2 for entry1, entry2 in zip(self, other))
 
     @property
     def is_single_autocorrelation(self) -> "bool":
-- 
2.43.0


From 192735d62ff5a1abf062b5438d4ad53e4c184d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 09/52] fix: constant bias values follow the bin number, not
 the storage order

---
 seyfert/cosmology/bias.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/seyfert/cosmology/bias.py b/seyfert/cosmology/bias.py
index b88fa05..117839e 100644
--- a/seyfert/cosmology/bias.py
+++ b/seyfert/cosmology/bias.py
@@ -179,6 +179,16 @@ class BiasModel(ABC):
     def n_bins(self) -> "int":
         return len(self.z_bin_edges) - 1
 
+    def getSortedBiasValues(self) -> "np.ndarray":
+        par_names = list(self.nuisance_parameters.keys())
+        digit_regex = re.compile(r'\d+')
+
+        def _get_bias_idx(s) -> "int":
+            match = digit_regex.search(s)
+            return int(s[match.start():match.end()])
+
+        return np.array([self.nuisance_parameters[name] for name in sorted(par_names, key=_get_bias_idx)])
+
     @abstractmethod
     def computeBias(self, z_grid: "np.ndarray") -> "np.ndarray":
         pass
@@ -192,7 +202,7 @@ class ConstantBias(BiasModel):
         super(ConstantBias, self).__init__(**kwargs)
 
     def computeBias(self, z_grid: "np.ndarray") -> "np.ndarray":
-        b_i = np.array(list(self.nuisance_parameters.values()))
+        b_i = self.getSortedBiasValues()
         if len(b_i) != self.n_bins:
             raise BiasError(f'number of bias values {len(b_i)} differs from n_bins {self.n_bins}')
         return np.repeat(b_i[:, np.newaxis], len(z_grid), axis=1)
@@ -209,16 +219,6 @@ class PiecewiseBias(BiasModel):
 
         return b_i_z
 
-    def getSortedBiasValues(self) -> "np.ndarray":
-        par_names = list(self.nuisance_parameters.keys())
-        digit_regex = re.compile(r'\d+')
-
-        def _get_bias_idx(s) -> "int":
-            match = digit_regex.search(s)
-            return int(s[match.start():match.end()])
-
-        return np.array([self.nuisance_parameters[name] for name in sorted(par_names, key=_get_bias_idx)])
-
     def getConditionAndValuesLists(self, z_grid: "np.ndarray"):
         b_i = self.getSortedBiasValues()
         if len(b_i) != self.n_bins:
-- 
2.43.0


From 451cf027ff06110fbb86dd8980daea44e934bc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 10/52] fix: analytic bias derivative reads the whole bin
 number of the parameter

---
 seyfert/derivatives/differentiator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 8a6ae5e..9d7a1e9 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -7,6 +7,7 @@ from seyfert.cosmology import c_ells
 from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
 from seyfert.utils.workspace import WorkSpace
 import logging
+import re
 
 logger = logging.getLogger(__name__)
 
@@ -183,7 +184,7 @@ class AnalyticClDifferentiator(ClDifferentiator):
             dc_lij = np.zeros(self.fiducial_cl.c_lij.shape)
             bias_model_name = self.fiducial_cl.getWeightFunction(probe).bias.model_name
             if bias_model_name == "constant" or bias_model_name == "piecewise":
-                k = int(self.param.name[-1])
+                k = int(re.search(r'\d+$', self.param.name).group())
                 bk = self.param.fiducial
                 if bias_model_name == "constant":
                     _, i, j = np.indices(self.fiducial_cl.c_lij.shape)
-- 
2.43.0


From c23236b3f0ca2dd5f0f019cdbcba2fea0a1f433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 11/52] fix: lensing efficiency at a single redshift integrates
 over the redshift grid

---
 seyfert/cosmology/weight_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 76e467f..d322db7 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -168,7 +168,7 @@ class LensingWeightFunction(WeightFunction):
                 z_idx = np.argmin(np.abs(z - self.z_grid))
                 integ_array = self.density.norm_density_iz[i, :] * \
                               (1 - self.cosmology.r_z[z_idx] / self.cosmology.r_z)
-                result = integrate.simps(y=integ_array[z_idx:], x=z[z_idx:])
+                result = integrate.simps(y=integ_array[z_idx:], x=self.z_grid[z_idx:])
             elif isinstance(z, np.ndarray):
                 result = np.zeros(z.shape)
                 for z_idx, myz in enumerate(z):
-- 
2.43.0


From 2b00d74ddd7674e6482cbf404bcb2043a1bd50ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 12/52] fix: directory names of cosmology jobs give back steps
 of any number of digits

---
 seyfert/utils/filesystem_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/filesystem_utils.py b/seyfert/utils/filesystem_utils.py
index 8f71cd0..e00f5f6 100644
--- a/seyfert/utils/filesystem_utils.py
+++ b/seyfert/utils/filesystem_utils.py
@@ -90,7 +90,7 @@ def get_forecast_input_data_dir_from_rundir(rundir: "Path") -> "Path":
 
 
 def get_dvar_step_from_cosmology_jobdir_name(dirname: str):
-    dirname_regex = re.compile('dvar_(?P<dvar>[a-zA-Z0-9]+)_step(?P<sign>_[pm])*_(?P<step>[0-9])')
+    dirname_regex = re.compile('dvar_(?P<dvar>[a-zA-Z0-9]+)_step(?P<sign>_[pm])*_(?P<step>[0-9]+)')
     match = dirname_regex.search(dirname)
     try:
         dvar = match.group('dvar')
-- 
2.43.0


From d6fbc3c65d84914d49915e44021507cb36a89693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 13/52] fix: power spectra are computed before the growth
 factor that is read from them

---
 bin/compute_pmm         | 2 +-
 seyfert/main/cl_core.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/compute_pmm b/bin/compute_pmm
index ca20687..f1c4f83 100755
--- a/bin/compute_pmm
+++ b/bin/compute_pmm
@@ -40,8 +40,8 @@ def main(args_dict):
 
     cosmology = Cosmology(params=phys_pars.cosmological_parameters, flat=phys_pars.is_universe_flat,
                           z_grid=power_spectrum_config.z_grid, model_name='CPL')
-    cosmology.evaluateOverRedshiftGrid()
     cosmology.evaluatePowerSpectrum(workdir, power_spectrum_config)
+    cosmology.evaluateOverRedshiftGrid()
     p_mm_file = workdir / "p_mm.h5"
     logger.info(f'Writing results to file {p_mm_file}')
     cosmology.saveToHDF5(p_mm_file)
diff --git a/seyfert/main/cl_core.py b/seyfert/main/cl_core.py
index 6886c6f..d017d1a 100644
--- a/seyfert/main/cl_core.py
+++ b/seyfert/main/cl_core.py
@@ -59,10 +59,10 @@ def compute_cls(cosmology: "Cosmology", phys_pars: "PhysicalParametersCollection
                 pmm_cfg: "PowerSpectrumConfig" = None,
                 fiducial_cosmology: "Cosmology" = None,
                 compute_pmm=False) -> "AngularCoefficientsCollector":
-    cosmology.evaluateOverRedshiftGrid()
     if compute_pmm:
         cosmology.evaluatePowerSpectrum(
             workdir=".", power_spectrum_config=pmm_cfg)
+    cosmology.evaluateOverRedshiftGrid()
     if fiducial_cosmology is not None:
         fiducial_cosmology.evaluateOverRedshiftGrid()
     logger.info('Instantiating Cl collector')
-- 
2.43.0


From de0e54580c899807a6e18e68063feb61a73d2487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 14/52] fix: a weight function loads from a file opened for
 reading

---
 seyfert/cosmology/weight_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index d322db7..fc6fe7d 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -104,7 +104,7 @@ class WeightFunction(ABC):
 
     def loadFromHDF5(self, file: Union[str, Path], root: str = '/') -> "None":
         h5w = H5WeightFunction()
-        h5w.openFile(file, root)
+        h5w.openFile(file=file, mode='r', root=root)
         h5w.writeToObject(self)
         h5w.closeFile()
 
-- 
2.43.0


From c23ffc3e11848650c3ed6b5953e93b3fc4bcdb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 15/52] fix: a loaded Fisher matrix drops the inverse and
 correlation of the previous one

---
 seyfert/fisher/fisher_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index ffb1ce7..6f0eae5 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -362,6 +362,7 @@ class FisherMatrix:
         hf.close()
 
     def loadFromFile(self, file: "Union[Path, str]" = None, file_ext: "str" = 'hdf5') -> "None":
+        self._resetDerivedMatrices()
         if file_ext == 'hdf5':
             hf = h5py.File(file, 'r')
             # since version 3 h5py reads strings as bytes
-- 
2.43.0


From 286d32d8dfe2e2ed71fe0592b9d5758eac194fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 16/52] fix: spectra without kernel can be stored and keep the
 stored weights when loaded

---
 seyfert/cosmology/c_ells.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 52979e3..25a0934 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -110,12 +110,12 @@ class AngularCoefficient:
     @property
     def weight1(self) -> "wfs.WeightFunction":
         """Reference to first weight function making up the kernel"""
-        return self.kernel.weight1
+        return self.kernel.weight1 if self.kernel is not None else None
 
     @property
     def weight2(self) -> "wfs.WeightFunction":
         """Reference to second weight function making up the kernel"""
-        return self.kernel.weight2
+        return self.kernel.weight2 if self.kernel is not None else None
 
     @property
     def z_array(self) -> "np.ndarray":
@@ -505,6 +505,7 @@ class H5ClCollection(AbstractH5FileIO):
         elif 'z_array' in self.root:
             obj.z_grid = self.root['z_array'][()]
 
+        obj.weight_dict = {}
         if 'weight_functions' in self.root:
             w_grp = self.root['weight_functions']
             w_grp_path = w_grp.name
@@ -516,7 +517,6 @@ class H5ClCollection(AbstractH5FileIO):
 
         cls_grp = self.root['cls']
         cls_grp_path = cls_grp.name
-        obj.weight_dict = {}
         for cl_kind in cls_grp:
             p1, p2 = gu.get_probes_from_comb_key(cl_kind)
             h5cl = H5Cl(probe1=p1, probe2=p2)
-- 
2.43.0


From 3a9150dfe3e39d9dd21cd33a1772981a6469cdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 17/52] fix: spectra under different roots of a file keep their
 own weights

---
 seyfert/cosmology/c_ells.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 25a0934..323dcf1 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -6,7 +6,7 @@ from pathlib import Path
 from typing import List, Tuple, Dict, Union
 import h5py
 import numpy as np
-from os.path import join
+from os.path import dirname, join
 from scipy import integrate
 from scipy import interpolate
 import logging
@@ -445,6 +445,13 @@ class H5Cl(AbstractH5FileIO):
     def absolute_main_path(self) -> "str":
         return join(self.root_path, self.main_path_rel_to_root)
 
+    def getWeightFunctionPath(self, probe: "str") -> "str":
+        return join(dirname(self.root_path), 'weight_functions', probe)
+
+    def findWeightFunctionPath(self, probe: "str") -> "str":
+        w_path = self.getWeightFunctionPath(probe)
+        return w_path if w_path in self._h5file else self.findGroup(f"weight_functions/{probe}")[0]
+
     def readBuildingData(self) -> "None":
         self.build_data['probe1'] = self.probe1
         self.build_data['probe2'] = self.probe2
@@ -464,8 +471,8 @@ class H5Cl(AbstractH5FileIO):
         if ker_path in self.root:
             h5k = kfs.H5Kernel()
             obj.kernel = h5k.load(self.file_path, root=ker_path)
-            w1_root_path = self.findGroup(f"weight_functions/{self.probe1}")[0]
-            w2_root_path = self.findGroup(f"weight_functions/{self.probe2}")[0]
+            w1_root_path = self.findWeightFunctionPath(self.probe1)
+            w2_root_path = self.findWeightFunctionPath(self.probe2)
             h5w1 = wfs.H5WeightFunction()
             h5w2 = wfs.H5WeightFunction()
             obj.kernel.weight1 = h5w1.load(self.file_path, root=w1_root_path)
@@ -483,11 +490,11 @@ class H5Cl(AbstractH5FileIO):
             h5k = kfs.H5Kernel()
             h5k.save(obj.kernel, self.file_path, root=f'{self.absolute_main_path}/kernel')
         if obj.weight1 is not None:
-            w1_root_path = f'weight_functions/{self.probe1}'
+            w1_root_path = self.getWeightFunctionPath(self.probe1)
             if w1_root_path not in self._h5file:
                 h5w = wfs.H5WeightFunction()
                 h5w.save(obj.weight1, self.file_path, root=w1_root_path)
-            w2_root_path = f'weight_functions/{self.probe2}'
+            w2_root_path = self.getWeightFunctionPath(self.probe2)
             if w2_root_path not in self._h5file:
                 h5w = wfs.H5WeightFunction()
                 h5w.save(obj.weight2, self.file_path, root=w2_root_path)
-- 
2.43.0


From 3fa7c01c408b25d39bab94bcc698423241d9d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 18/52] fix: a Fisher matrix can be computed when a single
 multipole is common

---
 seyfert/fisher/fisher_evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_evaluator.py b/seyfert/fisher/fisher_evaluator.py
index de5a895..1f3a95c 100644
--- a/seyfert/fisher/fisher_evaluator.py
+++ b/seyfert/fisher/fisher_evaluator.py
@@ -228,7 +228,9 @@ class FisherEvaluator:
             ells_list.append(ells)
 
         ells_list = np.stack(ells_list)
-        unique_ells = np.unique(ells_list, axis=0).squeeze()
+        unique_ells = np.unique(ells_list, axis=0)
+        if len(unique_ells) == 1:
+            unique_ells = unique_ells[0]
 
         return unique_ells, vec_dcl_dict
 
-- 
2.43.0


From 86164d75d46878b22eccf3169d8100dcd9a7d872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 19/52] fix: forecast configurations with different sky
 fractions are not equal

---
 seyfert/config/forecast_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/config/forecast_config.py b/seyfert/config/forecast_config.py
index e4bf587..a4e55d4 100644
--- a/seyfert/config/forecast_config.py
+++ b/seyfert/config/forecast_config.py
@@ -169,7 +169,7 @@ class ForecastConfig:
             self.phys_pars == other.phys_pars,
             self.is_universe_flat == other.is_universe_flat,
             self.probe_configs == other.probe_configs,
-            self.survey_f_sky, other.survey_f_sky,
+            self.survey_f_sky == other.survey_f_sky,
             self.probes_combinations == other.probes_combinations
         ])
 
-- 
2.43.0


From a9ab3cddce11a50bac8dbf815718bab5f64a56af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:06 +0000
Subject: [PATCH 20/52] fix: an input file of a probe that is found nowhere is
 reported

---
 seyfert/config/probe_config.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/seyfert/config/probe_config.py b/seyfert/config/probe_config.py
index 4fdb5e8..3971e5a 100644
--- a/seyfert/config/probe_config.py
+++ b/seyfert/config/probe_config.py
@@ -57,16 +57,12 @@ class ProbeConfig:
             self.input_data_dir / self.long_name,
             self.input_data_dir
         ]
-        input_file = None
         for input_dir in input_dirs:
             input_file = input_dir / filename
             if input_file.is_file():
-                break
+                return input_file
 
-        if input_file is None:
-            raise FileNotFoundError(f"file {filename} not found in any of {' '.join([str(d) for d in input_dirs])}")
-
-        return input_file
+        raise FileNotFoundError(f"file {filename} not found in any of {' '.join([str(d) for d in input_dirs])}")
 
     def loadFromJSONConfig(self, json_config: "JSONForecastConfig", load_nuis_params=False):
         probe_dict = json_config.probes[self.name.toAlias().name]
-- 
2.43.0


From f9875d4279e1e6e54fbdb426aaa7c2d4b64b1a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 21/52] fix: probe configurations with different numbers of
 multipoles compare unequal

---
 seyfert/config/probe_config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/config/probe_config.py b/seyfert/config/probe_config.py
index 3971e5a..f563ef2 100644
--- a/seyfert/config/probe_config.py
+++ b/seyfert/config/probe_config.py
@@ -118,8 +118,8 @@ class ProbeConfig:
     def __eq__(self, other: "ProbeConfig") -> "bool":
         conds = [
             self.name == other.name,
-            np.all(self.l_bin_centers == other.l_bin_centers),
-            np.all(self.l_bin_widths == other.l_bin_widths),
+            np.array_equal(self.l_bin_centers, other.l_bin_centers),
+            np.array_equal(self.l_bin_widths, other.l_bin_widths),
             self.density_init_file.name == other.density_init_file.name,
             self.marginalize_bias == other.marginalize_bias,
             self.nuisance_parameters == other.nuisance_parameters,
-- 
2.43.0


From e2184f479811a5bc72c49e425f31941201815401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:35 +0000
Subject: [PATCH 22/52] fix: percentage absolute differences of tables are not
 negative for negative entries

---
 seyfert/numeric/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/numeric/general.py b/seyfert/numeric/general.py
index b9cb6fc..df87daa 100644
--- a/seyfert/numeric/general.py
+++ b/seyfert/numeric/general.py
@@ -44,7 +44,7 @@ def pad(x: "Any", y: "Any") -> "Any":
                             f"columns of x missing from y {set(x.columns) - set(y.columns)} \n"
                             f"columns of y missing from x {set(y.columns) - set(x.columns)} \n")
 
-        den = np.where(x + y != 0, (x + y)/2, 1)
+        den = np.where(x + y != 0, np.abs(x + y)/2, 1)
         num = np.abs(x - y)
         res = pd.DataFrame(100*(num / den), index=x.index, columns=x.columns)
     else:
-- 
2.43.0


From da98c273cbaa67c59fb7fed0fc1ac1938a9865ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:35 +0000
Subject: [PATCH 23/52] fix: opposite values of arrays have a percentage
 absolute difference, as those of tables

---
 seyfert/numeric/general.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/seyfert/numeric/general.py b/seyfert/numeric/general.py
index df87daa..fa71eef 100644
--- a/seyfert/numeric/general.py
+++ b/seyfert/numeric/general.py
@@ -29,11 +29,8 @@ def callable_stencil_derivative(f: "Callable", x: "Union[float, np.ndarray]",
 
 def pad(x: "Any", y: "Any") -> "Any":
     if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
-        res = np.zeros(x.shape)
-        mask = (x + y) != 0
-        diff = np.abs(x - y)
-        den = np.abs(x + y)
-        res[mask] = 200 * diff[mask] / den[mask]
+        den = np.where(x + y != 0, np.abs(x + y)/2, 1)
+        res = 100 * np.abs(x - y) / den
     elif isinstance(x, pd.DataFrame) and isinstance(y, pd.DataFrame):
         if set(x.index) != set(y.index):
             raise Exception(f"x and y have different index. "
-- 
2.43.0


From 4dd3e449a7266cc17a9b874c9753bb5796de6dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:35 +0000
Subject: [PATCH 24/52] fix: bias parameters of bins above nine have their own
 TeX name

---
 seyfert/utils/tex_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/tex_utils.py b/seyfert/utils/tex_utils.py
index c684c47..dfe5a43 100644
--- a/seyfert/utils/tex_utils.py
+++ b/seyfert/utils/tex_utils.py
@@ -5,7 +5,7 @@ import copy
 
 class TeXTranslator:
     def __init__(self):
-        self.bias_regex = re.compile("bg(ph|sp)([0-9])")
+        self.bias_regex = re.compile("bg(ph|sp)([0-9]+)")
         self.probe_regex = re.compile(r"(WL|GCph|GCsp)")
         self.column_name_regex = re.compile(r" (FoM|Omm|Omb|h|ns|sigma8|w0|wa) ")
         self.probe_name_to_tex = {
-- 
2.43.0


From 9d626a65d195ac14f733cf1472c197ef1a219ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:35 +0000
Subject: [PATCH 25/52] fix: a negative change of the figure of merit is
 written with one minus sign

---
 seyfert/notebook_helpers/table_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/notebook_helpers/table_helpers.py b/seyfert/notebook_helpers/table_helpers.py
index 7f22ac4..80fec39 100644
--- a/seyfert/notebook_helpers/table_helpers.py
+++ b/seyfert/notebook_helpers/table_helpers.py
@@ -90,7 +90,7 @@ def get_latex_row(row: "pd.Series", float_fmt="%.4f", ref_fom=None):
     # Add delta fom if ref fom is given, else put double dash
     if ref_fom is not None:
         delta_fom = 100 * (row.loc['FoM'] - ref_fom) / ref_fom
-        str_delta_fom = r"+%.2f\%%" % delta_fom if delta_fom > 0 else r"-%.2f\%%" % delta_fom
+        str_delta_fom = r"%+.2f\%%" % delta_fom
         latex_row += f"{str_delta_fom} & "
     else:
         latex_row += "-- & "
-- 
2.43.0


From c255cf784eb2e4ac7d14fc9890943bb77af767f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 26/52] fix: an analysis built from a list of Fisher matrices
 contains them

---
 seyfert/fisher/fisher_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index 4f9c9b1..e1b1a8f 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -52,7 +52,7 @@ class FisherAnalysis:
         if isinstance(fisher_matrices, list):
             if not all([isinstance(f, FisherMatrix) for f in fisher_matrices]):
                 raise TypeError("Fishers must be all FisherMatrix instances")
-            self.fisher_matrices = {}
+            self.fisher_matrices.update({f.name: f for f in fisher_matrices})
         elif isinstance(fisher_matrices, dict):
             if not all([isinstance(f, FisherMatrix) for f in fisher_matrices.values()]):
                 raise TypeError("Fishers must be all FisherMatrix instances")
-- 
2.43.0


From f0f8f32328c5fb5f6d63b33c8e1ebd25e5d4e138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:37 +0000
Subject: [PATCH 27/52] fix: relative errors are replaced together with the
 hybrid Fisher matrices

---
 seyfert/fisher/results_collector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/fisher/results_collector.py b/seyfert/fisher/results_collector.py
index 0c2e9d8..8ea27c2 100644
--- a/seyfert/fisher/results_collector.py
+++ b/seyfert/fisher/results_collector.py
@@ -115,6 +115,8 @@ class ResultsCollector:
                     if "Pk" in fisher_name:
                         an_current.fisher_matrices[fisher_name] = an_4_bins.fisher_matrices[fisher_name]
                         an_current.marginalized_errors.loc[fisher_name] = an_4_bins.marginalized_errors.loc[fisher_name]
+                        an_current.relative_marginalized_errors.loc[fisher_name] = \
+                            an_4_bins.relative_marginalized_errors.loc[fisher_name]
 
         self.analyses_df.reset_index(inplace=True)
 
-- 
2.43.0


From d3f5a8a24db9b63f304f32be94d5950ae33e5fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:37 +0000
Subject: [PATCH 28/52] fix: only the runs of the requested scenario are loaded

---
 seyfert/notebook_helpers/load_helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seyfert/notebook_helpers/load_helpers.py b/seyfert/notebook_helpers/load_helpers.py
index f783ec1..f89d371 100644
--- a/seyfert/notebook_helpers/load_helpers.py
+++ b/seyfert/notebook_helpers/load_helpers.py
@@ -50,8 +50,9 @@ def load_workspaces_for_scenario(scenario: "str", gcph_sub_flag=False,
     for direc in base_dir.iterdir():
         if selection_func(direc):
             match = generic_regex.match(direc.name)
-            nbins = int(match.group('nbins'))
-            ws_dict[nbins] = workspace.WorkSpace(direc)
+            if match.group('scenario') == scenario:
+                nbins = int(match.group('nbins'))
+                ws_dict[nbins] = workspace.WorkSpace(direc)
 
     return ws_dict
 
-- 
2.43.0


From 0b7a48b4f6a4b5aaa756a34f58d17dad3566fbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 29/52] fix: a job that exits with an error stops the run even
 when it prints nothing

---
 seyfert/main/task_runners.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 46bf845..173dc38 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -156,7 +156,7 @@ class TaskRunner(ABC):
     def executeCommand(cmd: "str"):
         t0 = time.time()
         proc = sp.run(cmd, shell=True, check=False, stdout=sp.PIPE, stderr=sp.PIPE)
-        if proc.stderr:
+        if proc.returncode != 0 or proc.stderr:
             logger.error(proc.stderr.decode("utf-8"))
             raise JobFailError(f"Command {cmd} failed")
         if proc.stdout:
@@ -592,7 +592,9 @@ class ForecastRunner:
             "-ow": self.args.overwrite_results, "-wd": self.workspace.run_dir
         }
         res_cmd = f'evaluate_final_results {" ".join(f"{key} {value}" for key, value in cli_args.items())}'
-        sp.run(res_cmd, shell=True)
+        proc = sp.run(res_cmd, shell=True)
+        if proc.returncode != 0:
+            raise JobFailError(f"Command {res_cmd} failed")
 
     def writeGCspPkFishersTo(self, outdir: "TPathLike"):
         outdir = Path(outdir)
-- 
2.43.0


From a75e5db6fa6775fae46cfcba166d14709f332abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 30/52] fix: durations of more than one day are reported in
 full

---
 seyfert/main/bsub_utils.py   | 2 +-
 seyfert/main/report_maker.py | 2 +-
 seyfert/main/task_runners.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index f553084..cf26533 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -200,7 +200,7 @@ class BsubInterface:
             row = {
                 "fisher": fisher,
                 "start_time": start_time, "end_time": end_time,
-                "duration_s": (end_time - start_time).seconds
+                "duration_s": (end_time - start_time).total_seconds()
             }
             row.update({key: float(pattern.search(text).groups()[0]) for key, pattern in regexps.items()})
             rows.append(row)
diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index 1b83691..b9ee619 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -116,7 +116,7 @@ class JobReport:
                 tf_string = self.convertDateTimeString(tf_string)
                 times['tf'] = datetime.datetime.strptime(tf_string, '%Y %b %d %H:%M:%S')
         try:
-            execution_time_secs = (times['tf'] - times['ti']).seconds
+            execution_time_secs = (times['tf'] - times['ti']).total_seconds()
         except KeyError:
             execution_time_secs = 0
         return execution_time_secs
diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 173dc38..86a3748 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -606,7 +606,7 @@ class ForecastRunner:
     
     def addTimingDataToMetadata(self):
         if self.end_datetime is not None:
-            duration = fm.string_time_format((self.end_datetime - self.start_datetime).seconds)
+            duration = fm.string_time_format((self.end_datetime - self.start_datetime).total_seconds())
             self.metadata.update({
                 "start_time": fm.datetime_str_format(self.start_datetime, hour_sep=':'),
                 "end_time": fm.datetime_str_format(self.end_datetime, hour_sep=':'),
-- 
2.43.0


From 2246030e93c672af9c7f95674782f6f1c5c9ff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 31/52] fix: reports find the error and output files written by
 batch jobs

---
 seyfert/main/report_maker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index b9ee619..7c4f5b1 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -66,8 +66,8 @@ class JobReport:
         return job_report_string
 
     def getFiles(self) -> None:
-        self.err_file = self.getFilePathFromJobdirWithPattern('job*.err')
-        self.out_file = self.getFilePathFromJobdirWithPattern('job*.out')
+        self.err_file = self.getFilePathFromJobdirWithPattern('*job*.err')
+        self.out_file = self.getFilePathFromJobdirWithPattern('*job*.out')
         self.log_file = self.getFilePathFromJobdirWithPattern('*.log')
         self.output_file = self.getFilePathFromJobdirWithPattern(self.output_file_pattern)
 
-- 
2.43.0


From 2bee325645bdd73296c160d49e2c428f1aa4c3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 32/52] fix: a task without jobs is reported as not executed

---
 seyfert/main/report_maker.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index 7c4f5b1..a58936d 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -167,7 +167,8 @@ class TaskReportMaker:
             self.mean_exec_time += job_report.execution_time_secs
             self.total_output_size_MB += job_report.output_size_MB
         self.n_jobs = len(self.job_reports)
-        self.mean_exec_time /= self.n_jobs
+        if self.n_jobs > 0:
+            self.mean_exec_time /= self.n_jobs
         if all([x.job_id is not None for x in self.job_reports]):
             self.job_reports.sort(key=lambda x: x.job_id)
 
@@ -201,10 +202,10 @@ class TaskReportMaker:
 
         if self.n_failed_jobs > 0:
             self.status = FAILURE_STRING
-        elif self.n_succeeded_jobs == self.n_jobs:
-            self.status = SUCCESS_STRING
         elif self.n_not_executed_jobs == self.n_jobs:
             self.status = NOT_EXECUTED_STRING
+        elif self.n_succeeded_jobs == self.n_jobs:
+            self.status = SUCCESS_STRING
         elif all([job.status == SUCCESS_STRING or job.status == NOT_EXECUTED_STRING
                   for job in self.job_reports]):
             self.status = NOT_COMPLETED_STRING
@@ -255,7 +256,9 @@ class RunReportMaker:
         run_name = self.rundir.name
         self.report_outfile = self.rundir / f'report_{run_name}.log'
         self.summary_outfile = self.rundir / f'summary_{run_name}.log'
-        if all([trm.status == SUCCESS_STRING for trm in self.task_report_makers]):
+        if not self.task_report_makers:
+            self.status = NOT_EXECUTED_STRING
+        elif all([trm.status == SUCCESS_STRING for trm in self.task_report_makers]):
             self.status = SUCCESS_STRING
         elif any([trm.status == FAILURE_STRING for trm in self.task_report_makers]):
             self.status = FAILURE_STRING
-- 
2.43.0


From 7d63293e6204b184fd4743f8d7ff2e2f7d2e1195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 33/52] fix: input files with the same name do not overwrite
 each other in a run directory

---
 seyfert/utils/workspace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/utils/workspace.py b/seyfert/utils/workspace.py
index fdd06c6..776c668 100644
--- a/seyfert/utils/workspace.py
+++ b/seyfert/utils/workspace.py
@@ -234,6 +234,8 @@ class WorkSpace:
         for name, input_file in src_input_files.items():
             src = Path(input_file)
             dst = input_files_dir / src.name
+            if dst.name == 'params.json' or os.path.relpath(dst, self.run_dir) in input_files_dict.values():
+                dst = input_files_dir / f'{name}_{src.name}'
             shutil.copy(src, dst)
             input_files_dict[name] = os.path.relpath(dst, self.run_dir)
 
-- 
2.43.0


From ba0798c69fb4c82b826359c428658e8bbd9ff14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 34/52] fix: the directory of the power spectra of a new run is
 linked

---
 seyfert/main/seyfert_core.py | 2 ++
 seyfert/seyfert.py           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 8a80242..0e1742d 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -53,6 +53,8 @@ def prepare_workspace(args_dict):
         pmm_dir.mkdir(exist_ok=True)
 
     ext_dirs = {}
+    if args_dict.get('powerspectrum_dir') is not None:
+        ext_dirs["PowerSpectrum"] = Path(pmm_dir)
     cldir = args_dict.get('angular_dir')
     derdir = args_dict.get('derivative_dir')
     if cldir is not None:
diff --git a/seyfert/seyfert.py b/seyfert/seyfert.py
index 85d9aa6..6648451 100644
--- a/seyfert/seyfert.py
+++ b/seyfert/seyfert.py
@@ -79,6 +79,8 @@ class Seyfert:
             pmm_dir = self.ws.run_dir/"PowerSpectrum"
             pmm_dir.mkdir(exist_ok=True)
         ext_dirs = {}
+        if self.args_dict.get('powerspectrum_dir') is not None:
+            ext_dirs["PowerSpectrum"] = Path(pmm_dir)
         cldir = self.args_dict.get('angular_dir')
         derdir = self.args_dict.get('derivative_dir')
         if cldir is not None:
-- 
2.43.0


From 92afcee903bf62978875a70b732b56d628e48bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 35/52] fix: the table of resources is not limited to jobs of
 2020 and 2021, nor to users without digits

---
 seyfert/main/bsub_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index cf26533..0f23244 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -35,7 +35,7 @@ class BsubInterface:
         "SUBMIT_TIME": r"([a-zA-Z]{3}\s+[0-9]+\s+[0-9]+:[0-9]+)"
     }
     _bsub_out_regex = re.compile(r"Job <([0-9]+)> is submitted to")
-    _basic_bjobs_out_regex = re.compile(r"([0-9]+)\s+([a-z]+)\s+([A-Z]+)", re.MULTILINE)
+    _basic_bjobs_out_regex = re.compile(r"^([0-9]+)\s+(\S+)\s+([A-Z]+)", re.MULTILINE)
 
     def __init__(self):
         self.regex_bjobs_out = re.compile(r"\s+".join(self._bjobs_out_regex_dict.values()), re.MULTILINE)
@@ -183,7 +183,7 @@ class BsubInterface:
                 break
 
     def getResourceUsageTable(self, out_files_dir: "Path"):
-        outname_regex = re.compile(r"^out_(.*)_202[0-1]")
+        outname_regex = re.compile(r"^out_(.*)_[0-9]{4}-[0-9]{2}-[0-9]{2}T")
         regexps = {
             "cpu_time_s": re.compile(r"CPU time\s*:\s+([0-9\.]+)"),
             "max_mem_MB": re.compile(r"Max Memory\s*:\s+([0-9\.]+)"),
-- 
2.43.0


From c3d83d203f984a613cbc41dd2bc06884acdcaf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 36/52] fix: metadata of a run lists the external directories
 it uses

---
 seyfert/main/task_runners.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 86a3748..9ff556e 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -522,6 +522,7 @@ class ForecastRunner:
                 logger.info(f'Task {name} is absent')
                 if task.external_dir is not None:
                     ext_dirs[name] = task.external_dir
+                    self.external_dirs[name] = str(task.external_dir)
 
         self.workspace.symlinkToExternalDirs(ext_dirs=ext_dirs, src_relative_to_rundir=True)
     
-- 
2.43.0


From 2cdc6263cec1a7bc1053058ecdc652af8255244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 37/52] fix: orchestrated runs use the input data directory
 they are given

---
 seyfert/main/orchestration.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index 8545342..fd181ab 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -162,7 +162,7 @@ def do_multiple_new_seyfert_runs(pmm_dirs: "List[Union[str, Path]]", configs: "D
 
 def do_new_seyfert_run(args: "argparse.Namespace", keyval_args: "Dict",
                        use_fisher_as_id=True, use_angular_as_id=True) -> "str":
-    input_data_dir = fsu.default_seyfert_input_data_dir()
+    input_data_dir = get_input_data_dir(args)
 
     fcfg = Path(keyval_args['fcfg'])
     fcfg_id, _, _ = gu.split_run_id(fcfg.stem)
@@ -226,7 +226,7 @@ def run_seyfert_on_existing_rundir(args: "argparse.Namespace", rundir: "Union[st
     input_files = ws.theInputFilesDict()
     keyval_args = {
         'rd': ws.run_dir,
-        'i': fsu.default_seyfert_input_data_dir(),
+        'i': get_input_data_dir(args),
         'fcfg': ws.run_dir / input_files['forecast'],
         'pmm_cfg': ws.run_dir / input_files['PowerSpectrum'],
         'cl_cfg': ws.run_dir / input_files['Angular'],
@@ -239,6 +239,12 @@ def run_seyfert_on_existing_rundir(args: "argparse.Namespace", rundir: "Union[st
     subprocess.run(cmd, shell=True)
 
 
+def get_input_data_dir(args: "argparse.Namespace") -> "Path":
+    input_data_dir = getattr(args, 'input_data_dir', None)
+
+    return Path(input_data_dir) if input_data_dir is not None else fsu.default_seyfert_input_data_dir()
+
+
 def update_key_val_args_from_cli_args(args: "argparse.Namespace", keyval_args: "Dict"):
     keyval_args.update({
         'ex': args.execution, 'q': args.queue, 'ncj': args.n_cores_per_job, 'mem': args.memory
-- 
2.43.0


From 931eef085dd348ac17dd75060fa7755e9f16f09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 38/52] fix: only run directories of the requested run ids are
 collected

---
 seyfert/main/orchestration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index fd181ab..3e126ec 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -8,6 +8,7 @@ import json
 import time
 import subprocess
 
+from seyfert import VERSION
 from seyfert.utils import general_utils as gu
 from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils import formatters as fm
@@ -258,7 +259,7 @@ def collect_rundirs(workdir: "Path", run_ids: "List[str]") -> "List[Path]":
     rundirs = []
     for x in workdir.iterdir():
         if x.is_dir():
-            if any(x.name.startswith(run_id) for run_id in run_ids):
+            if any(x.name.startswith(f"{run_id}_{VERSION}") for run_id in run_ids):
                 rundirs.append(x)
 
     return rundirs
-- 
2.43.0


From 197ef3d6a8d59e94179f0dd69883de605f8791f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 39/52] fix: the report of a job is that of its last submission

---
 seyfert/main/report_maker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index a58936d..10fe564 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -127,8 +127,9 @@ class JobReport:
         return f'{year} {month} {int(day):02} {time}'
 
     def getFilePathFromJobdirWithPattern(self, pattern: str) -> "Union[Path, None]":
-        file_candidates = list(self.jobdir.glob(f'{pattern}'))
-        file_path = file_candidates[0] if len(file_candidates) > 0 else None
+        # names carry the time of submission, the last one belongs to the last submission
+        file_candidates = sorted(self.jobdir.glob(f'{pattern}'))
+        file_path = file_candidates[-1] if len(file_candidates) > 0 else None
         return file_path
 
 
-- 
2.43.0


From d0533b7cab6a99916f191603d1bf4945663b2235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 40/52] fix: directories that are not runs are not selected by
 additional patterns

---
 seyfert/utils/dir_explorer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/dir_explorer.py b/seyfert/utils/dir_explorer.py
index 4aa8b5a..5261423 100644
--- a/seyfert/utils/dir_explorer.py
+++ b/seyfert/utils/dir_explorer.py
@@ -35,7 +35,7 @@ class DirectoryExplorer:
 
     def getDirMatches(self, direc: "Path", add_patterns: "List[str]" = None) -> "List[re.Match]":
         matches = self.getMandatoryDirectoryMatches(direc)
-        if add_patterns is not None:
+        if matches and add_patterns is not None:
             matches += [re.search(pattern, direc.name) for pattern in add_patterns]
 
         return matches
-- 
2.43.0


From b78f4e4e4cf87e01e27f98a08d4db9824d34b3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 41/52] fix: version numbers of any number of digits are
 recognised in run names

---
 seyfert/utils/general_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/general_utils.py b/seyfert/utils/general_utils.py
index 3c3ecbb..d73a23c 100644
--- a/seyfert/utils/general_utils.py
+++ b/seyfert/utils/general_utils.py
@@ -185,7 +185,7 @@ def get_execution_host() -> "List[str]":
 
 
 def split_run_id(run_id: "str") -> "Tuple[str, str, datetime.datetime]":
-    regex = re.compile(r"^(.*)_(\d\.\d\.\d(?:dev)?)_(\d{4}-\d{2}-\d{2}T\d{2}-\d{2}-\d{2})$")
+    regex = re.compile(r"^(.*)_(\d+\.\d+\.\d+(?:dev)?)_(\d{4}-\d{2}-\d{2}T\d{2}-\d{2}-\d{2})$")
     match = regex.match(run_id)
     if not match:
         run_name = run_id
-- 
2.43.0


From fe04ff4febe965a4150329452cbeee6856c9a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 42/52] fix: options of an ini file are converted as those of
 the command line

---
 bin/job_submitter | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/job_submitter b/bin/job_submitter
index 573f75d..8eff1d6 100755
--- a/bin/job_submitter
+++ b/bin/job_submitter
@@ -131,6 +131,6 @@ if __name__ == '__main__':
         invalid_keys = set(ini_kwargs.keys()) - set(arguments_dict.keys())
         if len(invalid_keys):
             raise KeyError(f"Invalid config keys: {''.join(invalid_keys)}")
-        arguments_dict.update(ini_kwargs)
+        arguments_dict.update(gu.convert_keyval_params_type(dict(ini_kwargs)))
 
     main(arguments_dict)
-- 
2.43.0


From 9e15ff0a95cccdb5a9b69b31b794d090b61b9339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 43/52] fix: the name of a probe is found from its TeX name

---
 seyfert/utils/tex_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/tex_utils.py b/seyfert/utils/tex_utils.py
index dfe5a43..8df7615 100644
--- a/seyfert/utils/tex_utils.py
+++ b/seyfert/utils/tex_utils.py
@@ -61,7 +61,7 @@ class TeXTranslator:
 
     def ProbeTeXToName(self, tex_name: str) -> str:
         if '+' not in tex_name:
-            name = self.probe_name_to_tex[tex_name]
+            name = self.probe_tex_to_name[tex_name]
         else:
             probes = [self.probe_tex_to_name[p.strip()] for p in tex_name.split('+')]
             name = r'+'.join(probes)
-- 
2.43.0


From 19d8a60689042dcb148e292f29a3842c85b93b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 44/52] fix: the stored key of a reversed pair of probes is
 returned

---
 seyfert/base_structs/cl_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/base_structs/cl_dict.py b/seyfert/base_structs/cl_dict.py
index 7ca7160..8b68800 100644
--- a/seyfert/base_structs/cl_dict.py
+++ b/seyfert/base_structs/cl_dict.py
@@ -63,7 +63,7 @@ class FlexDict(GenericDictInterface[str, np.ndarray]):
 
         key = gu.get_probes_combination_key(p1, p2)
 
-        if key in self:
+        if key in self._base_dict:
             return key
         else:
             return gu.reverse_probes_comb_key(key)
-- 
2.43.0


From 82e8af5daa91a207cfe180c8861d8fc9cee69ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 45/52] fix: derivatives of the spectra of a run can be loaded

---
 seyfert/utils/run_loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/utils/run_loader.py b/seyfert/utils/run_loader.py
index 8a3e0fd..fde6321 100644
--- a/seyfert/utils/run_loader.py
+++ b/seyfert/utils/run_loader.py
@@ -11,6 +11,7 @@ from functools import partial
 
 from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils.general_utils import map_nested_dict
+from seyfert.utils.shortcuts import ClKey
 from seyfert.numeric.general import pad
 from seyfert.cosmology import c_ells
 from seyfert.utils.workspace import WorkSpace
@@ -142,7 +143,7 @@ class RunLoader:
             dcl_data = retro_comp.read_dcl_file(file)
             self.dcls[dvar] = {}
             for cl_key in dcl_data:
-                short_key = c_ells.cl_key_long_to_short(cl_key)
+                short_key = ClKey(cl_key).toShortRawKey()
                 self.dcls[dvar][short_key] = dcl_data[cl_key]
 
     def loadFishers(self):
-- 
2.43.0


From 0b756f0a64181741136e96fc2f5a26b9a59ad4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 46/52] fix: parameters absent from the external files are
 removed

---
 seyfert/file_io/ext_input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/file_io/ext_input.py b/seyfert/file_io/ext_input.py
index 516abdd..e4cb08b 100644
--- a/seyfert/file_io/ext_input.py
+++ b/seyfert/file_io/ext_input.py
@@ -65,7 +65,7 @@ class ISTInputReader:
     def checkISTParams(self):
         our_params = set(IST_PMM_COSMO_MAP.values())
         assert set(self.pars.cosmological_parameters.keys()).issuperset(our_params)
-        for key in self.pars:
+        for key in list(self.pars):
             if key not in our_params:
                 logger.warning(f'param {key} not present in IST params, removing it')
                 del self.pars[key]
-- 
2.43.0


From 2c9f251d6b08fada29826d915dd19b063c60d3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 47/52] fix: external spectra at a single multipole can be read

---
 seyfert/file_io/ext_input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/file_io/ext_input.py b/seyfert/file_io/ext_input.py
index e4cb08b..a93d827 100644
--- a/seyfert/file_io/ext_input.py
+++ b/seyfert/file_io/ext_input.py
@@ -231,7 +231,7 @@ class ISTInputReader:
 
         i, j, shape_ij = self.getIndicesFromSCameraClFileHeader(hdr, symmetric)
 
-        data = np.loadtxt(file)
+        data = np.loadtxt(file, ndmin=2)
         ells = data[:, 0]
         cl_data = data[:, 1:]
         clij = np.zeros((len(ells), *shape_ij))
-- 
2.43.0


From 3b5c564a6cd62a90f569cbd1723bf1e892a1bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:57 +0000
Subject: [PATCH 48/52] fix: options of collected analyses follow their names,
 not the order they are written in

---
 seyfert/fisher/results_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/fisher/results_collector.py b/seyfert/fisher/results_collector.py
index 8ea27c2..1f55d7f 100644
--- a/seyfert/fisher/results_collector.py
+++ b/seyfert/fisher/results_collector.py
@@ -67,7 +67,8 @@ class ResultsCollector:
         rows = []
         for i, ws in enumerate(self.ws_list):
             an = FisherAnalysis.fromRundir(ws.run_dir, cosmology=cosmology, res_subdir_name=res_subdir_name)
-            rows.append([*self.fcfg_list[i].synthetic_opts.values(), an])
+            opts = self.fcfg_list[i].synthetic_opts
+            rows.append([*[opts[name] for name in self.fcfg_list[0].synthetic_opts], an])
 
         an_df = pd.DataFrame(rows, columns=[*self.fcfg_list[0].synthetic_opts.keys(), 'analysis'])
 
-- 
2.43.0


From a50cb1b5b4677734e1dd6a6d638be2026dd1d04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:57 +0000
Subject: [PATCH 49/52] fix: select collected analyses by options with text
 values

---
 seyfert/fisher/results_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/results_collector.py b/seyfert/fisher/results_collector.py
index 1f55d7f..55786da 100644
--- a/seyfert/fisher/results_collector.py
+++ b/seyfert/fisher/results_collector.py
@@ -122,7 +122,7 @@ class ResultsCollector:
         self.analyses_df.reset_index(inplace=True)
 
     def getFisherAnalysesSubDf(self, sel_dict: "Dict", sel_fishers: "List[str]" = None) -> "pd.DataFrame":
-        query_str = " and ".join(f"{key} == {value}" for key, value in sel_dict.items())
+        query_str = " and ".join(f"{key} == {value!r}" for key, value in sel_dict.items())
         subdf = self.analyses_df.query(query_str).reset_index()
 
         if sel_fishers is not None:
-- 
2.43.0


From c627ce1ab9aff81a61e4d815639b6fd0fcdffa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:22 +0000
Subject: [PATCH 50/52] fix: correlation plots of all the matrices of an
 analysis

---
 seyfert/fisher/fisher_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/fisher/fisher_plot.py b/seyfert/fisher/fisher_plot.py
index c6b06e6..d2ef862 100644
--- a/seyfert/fisher/fisher_plot.py
+++ b/seyfert/fisher/fisher_plot.py
@@ -320,8 +320,8 @@ class FisherPlotter:
                 self.setPlotProperties(i, j)
 
     def makeAllCorrelationPlots(self, outdir: "Union[str, Path]" = None, close_fig: "bool" = True) -> "None":
-        for name, correlation_matrix in self.analysis.correlation_matrices.items():
-            fig, ax = self.makeSingleCorrelationPlot(name, correlation_matrix)
+        for name in self.fisher_matrices:
+            fig, ax = self.makeSingleCorrelationPlot(name)
             if outdir is not None:
                 outfile_name = f'correlation_{self.analysis.name}_{name}.pdf'
                 outfile_path = Path(outdir) / outfile_name
-- 
2.43.0


From edb0600ab435b16d35d1d1b5a8b87332a411693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:22 +0000
Subject: [PATCH 51/52] fix: colours and confidence levels given with the other
 plot settings are used

---
 seyfert/fisher/fisher_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_plot.py b/seyfert/fisher/fisher_plot.py
index d2ef862..9f97c4f 100644
--- a/seyfert/fisher/fisher_plot.py
+++ b/seyfert/fisher/fisher_plot.py
@@ -268,7 +268,7 @@ class FisherPlotter:
 
         self.config = FisherPlotConfig(n_cosmo_pars=self.n_cosmo_pars, config_file=config_file)
         if config_dict is not None:
-            self.config.config_dict.update(config_dict)
+            self.config.loadFromConfigDict({**self.config.config_dict, **config_dict})
 
         self.params_ticks_fmts = {name: f"%.{self.config.ticks_label_num_digits}g" for name in self.pars_to_plot}
 
-- 
2.43.0


From 4931517e591aa196bac2bcb9db602dc38a50140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:22 +0000
Subject: [PATCH 52/52] fix: plotters of the results use the parameters,
 settings and ranges asked for

---
 seyfert/fisher/fisher_results.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/seyfert/fisher/fisher_results.py b/seyfert/fisher/fisher_results.py
index 910238b..b650028 100644
--- a/seyfert/fisher/fisher_results.py
+++ b/seyfert/fisher/fisher_results.py
@@ -5,7 +5,7 @@ import logging
 from pathlib import Path
 from seyfert.fisher.fisher_analysis import FisherAnalysis
 from seyfert.cosmology.parameter import PhysicalParametersCollection
-from seyfert.fisher.fisher_plot import FisherPlotter, FisherPlotConfig
+from seyfert.fisher.fisher_plot import FisherPlotter
 from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils import formatters as fm
 
@@ -103,16 +103,10 @@ class FisherResultsCollector:
         self.plotters_dict = {}
         for cosmology_name, cosmo_dict in self.cosmologies_dict.items():
             fish_analysis = self.analysis_dict[cosmology_name]
-            pars_to_plot = cosmo_dict["pars_to_plot"]
-            fisher_plot_config = FisherPlotConfig(fishers=fish_analysis.fisher_matrices,
-                                                  n_cosmo_pars=len(pars_to_plot))
-            fisher_plot_config.loadFromConfigDict(self.plot_config_dict)
-            if self.plot_ranges_file is not None:
-                fisher_plot_config.loadParameterPlotRangesFromFile(self.plot_ranges_file)
-            fisher_plotter = FisherPlotter(fisher_analysis=fish_analysis,
-                                           config=fisher_plot_config,
-                                           pars_to_plot=pars_to_plot)
-            fisher_plotter.setUpDefault()
+            fisher_plotter = FisherPlotter(fisher_analysis=fish_analysis)
+            fisher_plotter.setParamsToPlot(cosmo_dict["pars_to_plot"])
+            fisher_plotter.setPlotConfig(use_default=True, config_dict=self.plot_config_dict)
+            fisher_plotter.setParametersPlotRanges(self.plot_ranges_file)
             self.plotters_dict[cosmology_name] = fisher_plotter
 
     def writeResultsAndDoPlots(self, outdir: Union[str, Path]) -> None:
-- 
2.43.0

