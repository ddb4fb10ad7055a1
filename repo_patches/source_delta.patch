From f8b33a855ff512d44f0c04f45979a7365b6f0a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:40 +0000
Subject: [PATCH 01/31] fix: use gran_logic when calibrating and in the second
 solve

---
 calkulate/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/calkulate/core.py b/calkulate/core.py
index 355085f..7d91623 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -706,6 +706,7 @@ def solve_emf(
             alkalinity_init=sr.alkalinity,
             double=False,  # if True this becomes an infinite loop, so don't
             emf0_init=sr.emf0,
+            gran_logic=gran_logic,
             pH_min=pH_min,
             pH_max=pH_max,
             titrant_normality=titrant_normality,
@@ -875,6 +876,7 @@ def _lsqfun_calibrate_emf(
     alkalinity_init,
     double,
     emf0_init,
+    gran_logic,
     pH_min,
     pH_max,
     titrant_normality,
@@ -902,6 +904,7 @@ def _lsqfun_calibrate_emf(
         alkalinity_init=alkalinity_init,
         double=double,
         emf0_init=emf0_init,
+        gran_logic=gran_logic,
         pH_min=pH_min,
         pH_max=pH_max,
         titrant_normality=titrant_normality,
@@ -933,6 +936,7 @@ def calibrate_emf(
     pH_max=4,
     titrant_molinity_init=0.1,
     titrant_normality=1,
+    gran_logic="v23.7+",
     **titrant_totals,
 ):
     """Solve for `titrant_molinity` given `alkalinity_certified`.
@@ -976,6 +980,9 @@ def calibrate_emf(
         0.1.
     titrant_normality : float, optional
         Titrant normality, by default 1 (e.g., for HCl).
+    gran_logic : str, optional
+        Which points to use for Gran-plot estimates, "v23.7+" (default) or
+        "legacy".
 
     Returns
     -------
@@ -997,6 +1004,7 @@ def calibrate_emf(
             alkalinity_init,
             double,
             emf0_init,
+            gran_logic,
             pH_min,
             pH_max,
             titrant_normality,
-- 
2.43.0


From 1976465cc8530a9b0a7394e1eb4109bc15018add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:39 +0000
Subject: [PATCH 02/31] fix: calibrating leaves the caller's totals unchanged,
 even if it fails

---
 calkulate/core.py | 35 ++++-------------------------------
 1 file changed, 4 insertions(+), 31 deletions(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index 7d91623..9f89fd8 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -509,7 +509,7 @@ def add_titrant_totals(
     for t_total, factor in titrant_totals.items():
         assert t_total.startswith("titrant_total_")
         total = t_total[8:]
-        totals[total] += (
+        totals[total] = totals[total] + (
             titrant_mass
             * (titrant_molinity - titrant_molinity_prev)
             * factor
@@ -885,7 +885,7 @@ def _lsqfun_calibrate_emf(
     """Calculate residuals for the calibrator."""
     # Add titrant to totals (only relevant for H2SO4 etc. titrant)
     totals = add_titrant_totals(
-        totals,
+        totals.copy(),
         titrant_mass,
         analyte_mass,
         titrant_molinity,
@@ -909,15 +909,6 @@ def _lsqfun_calibrate_emf(
         pH_max=pH_max,
         titrant_normality=titrant_normality,
     )
-    # Revert to original totals
-    totals = add_titrant_totals(
-        totals,
-        titrant_mass,
-        analyte_mass,
-        0,
-        titrant_molinity_prev=titrant_molinity,
-        **titrant_totals,
-    )
     return sr.alkalinity - alkalinity_certified
 
 
@@ -1031,7 +1022,7 @@ def _lsqfun_calibrate_pH(
     """Calculate residuals for the calibrator."""
     # Add titrant to totals (only relevant for H2SO4 etc. titrant)
     totals = add_titrant_totals(
-        totals,
+        totals.copy(),
         titrant_mass,
         analyte_mass,
         titrant_molinity,
@@ -1051,15 +1042,6 @@ def _lsqfun_calibrate_pH(
         pH_max=pH_max,
         titrant_normality=titrant_normality,
     )
-    # Revert to original totals
-    totals = add_titrant_totals(
-        totals,
-        titrant_mass,
-        analyte_mass,
-        0,
-        titrant_molinity_prev=titrant_molinity,
-        **titrant_totals,
-    )
     return sr.alkalinity - alkalinity_certified
 
 
@@ -1151,7 +1133,7 @@ def _lsqfun_calibrate_pH_gran(
     """Calculate residuals for the calibrator."""
     # Add titrant to totals (only relevant for H2SO4 etc. titrant)
     totals = add_titrant_totals(
-        totals,
+        totals.copy(),
         titrant_mass,
         analyte_mass,
         titrant_molinity,
@@ -1171,15 +1153,6 @@ def _lsqfun_calibrate_pH_gran(
         pH_max=pH_max,
         titrant_normality=titrant_normality,
     )
-    # Revert to original totals
-    totals = add_titrant_totals(
-        totals,
-        titrant_mass,
-        analyte_mass,
-        0,
-        titrant_molinity_prev=titrant_molinity,
-        **titrant_totals,
-    )
     return sr.alkalinity - alkalinity_certified
 
 
-- 
2.43.0


From 3aa79ff6f1ca57ae556d0ac5e9abd885df1d83c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:39 +0000
Subject: [PATCH 03/31] fix: accept a titrant salt that is absent from the
 analyte

---
 calkulate/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index 9f89fd8..c3ec076 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -509,7 +509,7 @@ def add_titrant_totals(
     for t_total, factor in titrant_totals.items():
         assert t_total.startswith("titrant_total_")
         total = t_total[8:]
-        totals[total] = totals[total] + (
+        totals[total] = totals.get(total, 0) + (
             titrant_mass
             * (titrant_molinity - titrant_molinity_prev)
             * factor
-- 
2.43.0


From 1ff1156d212cd544199f8e7d2cacef907b703cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:39 +0000
Subject: [PATCH 04/31] fix: Dataset salt estimates follow the kwargs and
 opt_k_carbonic

---
 calkulate/dataset.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 1b62fbf..caeafa0 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -13,24 +13,26 @@ from .core import SolveEmfResult, SolvePhGranResult, SolvePhResult
 from .meta import _get_kwargs_for
 
 
-def get_total_salts(ds):
+def get_total_salts(ds, **kwargs):
     """Estimate total salt contents from salinity using PyCO2SYS without
     overwriting existing values.  Operates in-place.
+
+    Salts provided in the kwargs are not estimated.
     """
     assert "salinity" in ds, 'Dataset must contain a "salinity" column.'
-    # Use opt_total_borate = 1 where it's not provided
-    if "opt_total_borate" in ds:
-        ds["opt_total_borate"] = ds.opt_total_borate.where(
-            ds.opt_total_borate.notnull(), 1
-        )
-    else:
-        ds["opt_total_borate"] = 1
+    # Get options from ds, or kwargs if not in ds, or defaults if in neither
+    opts = {"opt_k_carbonic": 10, "opt_total_borate": 1}
+    for opt, default in opts.items():
+        opts[opt] = np.full(len(ds), kwargs.get(opt, default))
+        if opt in ds:
+            opts[opt] = np.where(ds[opt].notnull(), ds[opt], opts[opt])
     salts = ["total_sulfate", "total_borate", "total_fluoride"]
+    salts = [s for s in salts if s not in kwargs]
     do_pyco2 = not np.all([s in ds and ds[s].notnull().all() for s in salts])
     if do_pyco2:
         results = pyco2.sys(
             salinity=ds.salinity.values,
-            opt_total_borate=ds.opt_total_borate.values,
+            **{k: v.astype(float) for k, v in opts.items()},
         )
         for salt in salts:
             if salt not in ds:
@@ -107,8 +109,8 @@ def get_batches(ds):
     return batches
 
 
-def prepare(ds):
-    get_total_salts(ds)
+def prepare(ds, **kwargs):
+    get_total_salts(ds, **kwargs)
     # Get analyte_mass from analyte_volume if required
     if "analyte_mass" not in ds:
         assert "analyte_volume" in ds, (
@@ -145,7 +147,7 @@ def calibrate(ds, verbose=False, **kwargs):
         The titration metadataset with additional columns found by the solver.
     """
     print("Calkulate: calibrating titrant_molinity...")
-    prepare(ds)
+    prepare(ds, **kwargs)
     assert "alkalinity_certified" in ds, (
         'ds must contain an "alkalinity_certified" column!'
     )
@@ -254,7 +256,7 @@ def solve(ds, verbose=False, **kwargs):
             "kwargs not recognised, being ignored: "
             + ("{} " * len(kwargs_ignored)).format(*kwargs_ignored)
         )
-    prepare(ds)
+    prepare(ds, **kwargs)
     assert "titrant_molinity" in ds, (
         'ds must contain an "titrant_molinity" column!'
     )
-- 
2.43.0


From 3aa3a7d9de8b1afdd09ed696d4ab8c06694d0e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:39 +0000
Subject: [PATCH 05/31] fix: blank titrant_amount_unit falls back to the kwarg,
 not always to ml

---
 calkulate/dataset.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index caeafa0..fd66699 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -119,12 +119,6 @@ def prepare(ds, **kwargs):
         ds["analyte_mass"] = np.nan
     # Check essential columns are present
     assert "salinity" in ds, 'ds must contain a "salinity" column!'
-    if "titrant_amount_unit" in ds:
-        ds["titrant_amount_unit"] = np.where(
-            pd.isnull(ds.titrant_amount_unit),
-            "ml",
-            ds.titrant_amount_unit,
-        )
     if "file_good" not in ds:
         ds["file_good"] = True
 
-- 
2.43.0


From 05c4d708bf67af07ac0785849d74bf07a61be2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:39 +0000
Subject: [PATCH 06/31] fix: a failed calibration does not exclude the
 reference from later ones

---
 calkulate/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index fd66699..576ebac 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -153,7 +153,7 @@ def calibrate(ds, verbose=False, **kwargs):
     if "analysis_batch" not in ds:
         ds["analysis_batch"] = 0
     if "reference_good" not in ds:
-        ds["reference_good"] = ~np.isnan(ds.titrant_molinity_here)
+        ds["reference_good"] = True
     batches = get_batches(ds)
     ds["titrant_molinity"] = batches.loc[
         ds.analysis_batch, "titrant_molinity"
-- 
2.43.0


From eede1503460b31187574bb6398f0c9526ecbb8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:39 +0000
Subject: [PATCH 07/31] fix: do not crash on a blank analysis_batch

---
 calkulate/dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 576ebac..e679a7e 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -155,9 +155,9 @@ def calibrate(ds, verbose=False, **kwargs):
     if "reference_good" not in ds:
         ds["reference_good"] = True
     batches = get_batches(ds)
-    ds["titrant_molinity"] = batches.loc[
-        ds.analysis_batch, "titrant_molinity"
-    ].to_numpy()
+    ds["titrant_molinity"] = (
+        batches["titrant_molinity"].reindex(ds.analysis_batch).to_numpy()
+    )
     print("Calkulate: calibration complete!")
     ds = solve(ds, verbose=verbose, **kwargs)
     return ds
-- 
2.43.0


From dcfd5d54c5235ce0ddad20a9bc4e65facb4fae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:39 +0000
Subject: [PATCH 08/31] fix: blank read_dat_method cells are ignored and its
 kwarg is not reported as unknown

---
 calkulate/dataset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index e679a7e..77b1b8c 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -54,7 +54,7 @@ def _backcompat(kwargs, row):
     for old, new in old2new.items():
         if old in kwargs:
             kwargs[new] = kwargs[old]
-        if "read_dat_method" in row:
+        if old in row and pd.notnull(row[old]):
             kwargs[new] = row[old]
     return kwargs
 
@@ -243,7 +243,11 @@ def solve(ds, verbose=False, **kwargs):
     # Check for bad kwargs, but don't break on them
     kwargs_ignored = []
     for k in _backcompat(kwargs.copy(), []):
-        if k not in files.keys_calibrate | {"pH_range", "read_dat_kwargs"}:
+        if k not in files.keys_calibrate | {
+            "pH_range",
+            "read_dat_kwargs",
+            "read_dat_method",
+        }:
             kwargs_ignored.append(k)
     if len(kwargs_ignored) > 0:
         warn(
-- 
2.43.0


From d3873669390175a251556c046f39fb721b487341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:39 +0000
Subject: [PATCH 09/31] fix: Titration ignores blank metadata like Dataset does

---
 calkulate/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 8ac59d5..858c0d1 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -173,7 +173,7 @@ class Titration:
         self.kwargs = _backcompat(kwargs, row)
         for k, v in kwargs.items():
             self.row[k] = v
-        self.sr = solve(**self.row)
+        self.sr = solve(**self.row[self.row.notnull()])
         self.t = {
             "titrant_mass": self.sr.titrant_mass,
             "temperature": self.sr.temperature,
-- 
2.43.0


From a86d6e2184d139c42baf642363c517177064ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:39 +0000
Subject: [PATCH 10/31] fix: Titration has analyte_mass when analyte_volume was
 given

---
 calkulate/classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 858c0d1..cea8601 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -181,6 +181,7 @@ class Titration:
             "used": self.sr.used,
         }
         self.row = add_solve_results(self.row, self.sr)
+        self.row["analyte_mass"] = self.sr.analyte_mass
         if isinstance(self.sr, SolveEmfResult):
             self.t.update(
                 {
-- 
2.43.0


From ecfde791183086c9e590993164ac0fe401f1a7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:39 +0000
Subject: [PATCH 11/31] fix: str and repr of a Titration without file_path

---
 calkulate/classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index cea8601..ee3e54d 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -222,17 +222,17 @@ class Titration:
             raise AttributeError(key)
 
     def __str__(self):
-        if "file_path" in self.row:
+        if "file_path" in self.row and pd.notnull(self.row.file_path):
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
-            f = self.ro.file_name
+            f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def __repr__(self):
-        if "file_path" in self.row:
+        if "file_path" in self.row and pd.notnull(self.row.file_path):
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
-            f = self.ro.file_name
+            f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def get_alkalinity_from_acid(self):
-- 
2.43.0


From d85536008a50720cab805485f9d589889bef027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:39 +0000
Subject: [PATCH 12/31] fix: Titration table accounts for titrant_normality

---
 calkulate/classes.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index ee3e54d..7a6076b 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -235,10 +235,17 @@ class Titration:
             f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
+    def get_titrant_normality(self):
+        if pd.isnull(self.row.get("titrant_normality")):
+            return 1
+        return self.row["titrant_normality"]
+
     def get_alkalinity_from_acid(self):
         self.titration["alkalinity_from_acid"] = (
             1e-6 * self.alkalinity * self.analyte_mass
-            - self.titration.titrant_mass * self.titrant_molinity
+            - self.titration.titrant_mass
+            * self.titrant_molinity
+            * self.get_titrant_normality()
         ) / (self.analyte_mass + self.titration.titrant_mass)
 
     def do_CO2SYS(self):
@@ -298,6 +305,7 @@ class Titration:
             st.alkalinity_from_pH
             + st.titrant_mass
             * self.titrant_molinity
+            * self.get_titrant_normality()
             / (st.titrant_mass + self.analyte_mass)
         ) / st.dilution_factor
 
-- 
2.43.0


From 10b95dabaa4bf3cd2003a4577b4cf798d3bfe0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:39 +0000
Subject: [PATCH 13/31] fix: export calkulate at the top level, as documented

---
 calkulate/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/calkulate/__init__.py b/calkulate/__init__.py
index 146e88f..0b94fc5 100644
--- a/calkulate/__init__.py
+++ b/calkulate/__init__.py
@@ -16,7 +16,7 @@
 """Determine (sea)water total alkalinity from titration data."""
 
 from .classes import Dataset, Titration, to_Titration
-from .dataset import calibrate, solve
+from .dataset import calibrate, calkulate, solve
 from .meta import __author__, __version__, hello
 from .read.metadata import (
     read_clipboard,
@@ -38,6 +38,7 @@ __all__ = [
     "say_hello",
     "Dataset",
     "calibrate",
+    "calkulate",
     "solve",
     "read_dat",
     "read_clipboard",
-- 
2.43.0


From 865dac0bcde7966d054adc69cf3145dbdc7983fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:39 +0000
Subject: [PATCH 14/31] fix: name the unrecognised file_type in the warning

---
 calkulate/read/titrations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index ab45ee3..77d3607 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -171,8 +171,8 @@ keys_read_dat = {
 def read_dat(file_name, file_type="genfromtxt", **kwargs):
     """Import a titration dataset from a .dat file."""
     if file_type not in file_types:
-        file_type = "genfromtxt"
         warn(f"method '{file_type}' not recognised, trying 'genfromtxt'.")
+        file_type = "genfromtxt"
     dat_data = file_types[file_type](file_name, **kwargs)
     return dat_data
 
-- 
2.43.0


From c7d5d9ed4b86e48e9cc8098eedf2d0819bb23a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:39 +0000
Subject: [PATCH 15/31] fix: PC LIMS rows with negative values are titration
 data too

---
 calkulate/read/titrations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index 77d3607..b66293e 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -46,7 +46,7 @@ def read_dat_pclims(
     with open(file_name, mode="r", encoding="unicode-escape") as f:
         data_full = f.read().splitlines()
     # Select only the lines containing the titration data
-    re_data = re.compile(r"[\d\.]*" + r"\t[\d\.]*" * (n_cols - 1))
+    re_data = re.compile(r"-?[\d\.]*" + r"\t-?[\d\.]*" * (n_cols - 1))
     data = []
     i = 0
     stop = False
-- 
2.43.0


From 8e0cb3398d0f7e685fcf065ab5686a429ad1e995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:39 +0000
Subject: [PATCH 16/31] fix: integer read options work from columns with blanks
 in other rows

---
 calkulate/read/titrations.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index b66293e..a014216 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -26,11 +26,11 @@ def read_dat_genfromtxt(
 ):
     """Import a titration dataset from a .dat file with numpy.genfromtxt."""
     data = np.genfromtxt(
-        file_name, delimiter=delimiter, skip_header=skip_header, **kwargs
+        file_name, delimiter=delimiter, skip_header=int(skip_header), **kwargs
     )
-    titrant_amount = data[:, col_titrant_amount]
-    measurement = data[:, col_measurement]
-    temperature = data[:, col_temperature]
+    titrant_amount = data[:, int(col_titrant_amount)]
+    measurement = data[:, int(col_measurement)]
+    temperature = data[:, int(col_temperature)]
     return DatData(titrant_amount, measurement, temperature)
 
 
@@ -46,7 +46,7 @@ def read_dat_pclims(
     with open(file_name, mode="r", encoding="unicode-escape") as f:
         data_full = f.read().splitlines()
     # Select only the lines containing the titration data
-    re_data = re.compile(r"-?[\d\.]*" + r"\t-?[\d\.]*" * (n_cols - 1))
+    re_data = re.compile(r"-?[\d\.]*" + r"\t-?[\d\.]*" * (int(n_cols) - 1))
     data = []
     i = 0
     stop = False
@@ -62,9 +62,9 @@ def read_dat_pclims(
         i += 1
     # Convert data to float arrays
     data = np.array(data, dtype="float64")
-    titrant_amount = data[:, col_titrant_amount]
-    measurement = data[:, col_measurement]
-    temperature = data[:, col_temperature]
+    titrant_amount = data[:, int(col_titrant_amount)]
+    measurement = data[:, int(col_measurement)]
+    temperature = data[:, int(col_temperature)]
     return DatData(titrant_amount, measurement, temperature)
 
 
-- 
2.43.0


From 4b207240d1f0be5a241f0b6ec43abe22543a2eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:34 +0000
Subject: [PATCH 17/31] fix: pH_adjust can adjust EMF0 away from zero

least_squares started its trust region from the size of the unscaled
parameters, which for an initial EMF0 of zero is the alkalinity in mol/kg
(~1e-3), so EMF0 stayed at ~0 mV and pH_adjust gave wrong alkalinities
(e.g. by 150 umol/kg for a pH offset of 0.1).
---
 calkulate/settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/calkulate/settings.py b/calkulate/settings.py
index 4563be3..e0db6f8 100644
--- a/calkulate/settings.py
+++ b/calkulate/settings.py
@@ -1 +1,3 @@
-kwargs_least_squares = {}
+# `x_scale="jac"` because alkalinity (~1e-3 mol/kg) and EMF0 (mV) have very
+# different scales; otherwise, EMF0 barely moves when starting from zero
+kwargs_least_squares = {"x_scale": "jac"}
-- 
2.43.0


From 698deabf64703c427bfad371bc559a009942684d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:02 +0000
Subject: [PATCH 18/31] fix: no EMF-based alkalinity without any points in the
 pH window

The unchanged first guess was returned as if it was the solution.
---
 calkulate/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/calkulate/core.py b/calkulate/core.py
index c3ec076..15d0c15 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -638,6 +638,7 @@ def solve_emf(
         emf0 = emf0_init
         pH = convert.emf_to_pH(emf, emf0, temperature)
     used = (pH >= pH_min) & (pH <= pH_max)
+    assert used.any(), "No data points between pH_min and pH_max"
     totals_used = {
         k: v[used] if np.size(v) > 1 else v for k, v in totals.items()
     }
-- 
2.43.0


From 3edd78de8627a9a1dd372aa6014db581b34a5a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:39 +0000
Subject: [PATCH 19/31] fix: temperature_override is not truncated for
 whole-number temperatures

---
 calkulate/convert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/calkulate/convert.py b/calkulate/convert.py
index c8798de..52a1bf4 100644
--- a/calkulate/convert.py
+++ b/calkulate/convert.py
@@ -206,7 +206,9 @@ def amount_units(
     dd = dat_data
     # Overwrite temperature, if requested
     if temperature_override is not None:
-        temperature = np.full_like(dd.temperature, temperature_override)
+        temperature = np.full_like(
+            dd.temperature, temperature_override, dtype=float
+        )
     else:
         temperature = dd.temperature
     # Get titrant mass
-- 
2.43.0


From 626d179fabde96437668fbb2edf4fdb83e2bc00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:46 +0000
Subject: [PATCH 20/31] fix: do not crash when every analysis_batch is blank

---
 calkulate/dataset.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 77b1b8c..a36770c 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -106,7 +106,14 @@ def get_batches(ds):
         .groupby(by="analysis_batch")
         .apply(get_group_calibration, include_groups=False)
     )
-    return batches
+    # If every analysis_batch is blank there are no groups, so no columns either
+    return batches.reindex(
+        columns=[
+            "titrant_molinity",
+            "titrant_molinity__std",
+            "titrant_molinity__count",
+        ]
+    ).astype(float)
 
 
 def prepare(ds, **kwargs):
-- 
2.43.0


From b959d5c6e773d6c19242b9281a410176e1262a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:47 +0000
Subject: [PATCH 21/31] fix: read_dbs accepts analyses with a date but without
 a time

The missing time (NaN) could not be concatenated with the date, so the whole
import failed with a TypeError.
---
 calkulate/read/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/metadata.py b/calkulate/read/metadata.py
index 71c6477..aad71c9 100644
--- a/calkulate/read/metadata.py
+++ b/calkulate/read/metadata.py
@@ -44,7 +44,7 @@ def dbs_datetime(dbs_row):
             + "T"
             + dbs_row["time"]
         )
-    except AttributeError:
+    except (AttributeError, TypeError):
         analysis_datetime = np.datetime64("NaT")
     return pd.Series(
         {
-- 
2.43.0


From 6a6c266c82abe79b6e4963e84e973a97e3676492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:47 +0000
Subject: [PATCH 22/31] fix: read_dbs file names no longer depend on the other
 rows' batches and bottles

If every bottle was a number, leading zeroes were lost from the file names
(0884 became 884), and if any batch was blank, reference materials were named
with decimal batches (CRM190.00884.dat).
---
 calkulate/read/metadata.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/calkulate/read/metadata.py b/calkulate/read/metadata.py
index aad71c9..94c961f 100644
--- a/calkulate/read/metadata.py
+++ b/calkulate/read/metadata.py
@@ -70,7 +70,11 @@ def get_VINDTA_filenames(dbs, filename_format="{s}-{c}  {n}  ({d}){b}.dat"):
                 b=row.bottle,
             )
         elif row.run_type == "CRM":
-            dbs.loc[i, "file_name"] = f"CRM{row.batch}{row.bottle}.dat"
+            batch = row.batch
+            if isinstance(batch, float) and batch.is_integer():
+                # Some other batch is blank so pandas converted them all
+                batch = int(batch)
+            dbs.loc[i, "file_name"] = f"CRM{batch}{row.bottle}.dat"
             dbs.loc[i, "alkalinity_certified"] = row["cert. CRM AT"]
         else:
             dbs.loc[i, "file_good"] = False
@@ -113,8 +117,13 @@ def read_dbs(
         The imported .dbs file ready to use with Calkulate.
     """
     headers = np.genfromtxt(fname, delimiter="\t", dtype=str, max_rows=1)
+    # Bottles are identifiers, even if they're all numbers: keep leading zeroes
     dbs = pd.read_table(
-        fname, header=0, names=headers, usecols=headers
+        fname,
+        header=0,
+        names=headers,
+        usecols=headers,
+        dtype={"bottle": str},
     ).rename(columns={"run type": "run_type"})
     dbs["dbs_fname"] = fname
     dbs = add_func_cols(dbs, dbs_datetime)
-- 
2.43.0


From 211763feca32060e28ecd11e6e99352b430cd111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:11 +0000
Subject: [PATCH 23/31] fix: DIC loss can be modelled with NumPy 2.4+

The loss coefficient was kept as a one-element array, and NumPy no longer
accepts an array as a single element, so get_dic_loss always failed.
---
 calkulate/loss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/calkulate/loss.py b/calkulate/loss.py
index 4cf9918..1c53b28 100644
--- a/calkulate/loss.py
+++ b/calkulate/loss.py
@@ -35,7 +35,7 @@ def _lsqfun_dic_loss_model(
 ):
     return (
         dic_loss_model_fitted(
-            k_dic_loss,
+            k_dic_loss[0],
             i_titrant_mass,
             i_delta_fCO2,
             dic_start,
@@ -174,7 +174,7 @@ def get_dic_loss_hires(
             i_dic_loss,
         ),
     )
-    k_dic_loss = k_dic_loss_opt_result["x"]
+    k_dic_loss = k_dic_loss_opt_result["x"][0]
     # Calculate DIC from k_dic_loss in the fitted region
     i_dic = dic_loss_model_fitted(
         k_dic_loss,
@@ -202,7 +202,7 @@ def get_dic_loss_hires(
         step_tm,
         fCO2_air=fCO2_air,
     )
-    return k_dic_loss[0], {
+    return k_dic_loss, {
         "titrant_mass": a_titrant_mass,
         "pH": a_pH,
         "dic": np.concatenate((i_dic, f_dic)),
-- 
2.43.0


From 6aa408d7440e90f2a0a08b02b031153b97eec2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:11 +0000
Subject: [PATCH 24/31] fix: simulated DIC loss starts from the DIC diluted by
 the first titrant

With titrant_mass_start above zero, the dilution by the titrant already in the
mixture was applied without DIC loss but not with it.
---
 calkulate/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/simulate.py b/calkulate/simulate.py
index e4643a0..d08d0ab 100644
--- a/calkulate/simulate.py
+++ b/calkulate/simulate.py
@@ -235,7 +235,7 @@ def _titration(
     # Model DIC loss
     if k_dic_loss is not None:
         dic_titration = np.full_like(titrant_mass, np.nan)
-        dic_titration[0] = dic
+        dic_titration[0] = dic * dilution_factor[0]
         for i in range(len(dic_titration) - 1):
             kwargs_i = {
                 k: v if np.isscalar(v) else v[i]
-- 
2.43.0


From c7d31e916d5cd2f01860705ad97b2f06dc6af0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:52 +0000
Subject: [PATCH 25/31] fix: offer the Gran plots of a Titration under their
 documented names

The documentation and the docstring of Titration list plot_gran_emf0 and
plot_gran_alkalinity, which raised an AttributeError: they exist only as
plot_emf0_gran and plot_alkalinity_gran.  Both names now work.
---
 calkulate/classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 7a6076b..6aa360a 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -314,6 +314,8 @@ class Titration:
         components as plot_components,
         emf as plot_emf,
         gran_alkalinity as plot_alkalinity_gran,  # TODO add trend line
+        gran_alkalinity as plot_gran_alkalinity,
         gran_emf0 as plot_emf0_gran,
+        gran_emf0 as plot_gran_emf0,
         pH as plot_pH,
     )
-- 
2.43.0


From bae60072e0717565eae839bd516187e0bc923cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:26 +0000
Subject: [PATCH 26/31] fix: plot tables whose reference_good column is not of
 boolean dtype

reference_good given as 0 and 1, or as an object column of True and False,
is understood when calibrating but made both dataset plots fail, because the
column was inverted with ~ and used as an index without conversion.
---
 calkulate/plot/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calkulate/plot/__init__.py b/calkulate/plot/__init__.py
index cca12ae..f0fdb1a 100644
--- a/calkulate/plot/__init__.py
+++ b/calkulate/plot/__init__.py
@@ -24,7 +24,7 @@ def titrant_molinity(
         xdata = data[xvar]
         xlabel = xvar
     if "reference_good" in data:
-        G = data.reference_good.values
+        G = data.reference_good.to_numpy(dtype=bool)
     else:
         G = np.full(np.size(xdata), True)
     # Draw the figure
@@ -80,7 +80,7 @@ def alkalinity_offset(
         xdata = data[xvar]
         xlabel = xvar
     if "reference_good" in data:
-        G = data.reference_good.values
+        G = data.reference_good.to_numpy(dtype=bool)
     else:
         G = np.full(np.size(xdata), True)
     if show_batches:
-- 
2.43.0


From 1371df243406be0721805f9878d39fce684be443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:48 +0000
Subject: [PATCH 27/31] fix: estimate blank salts in columns of nullable
 integer dtype

---
 calkulate/dataset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index a36770c..219a366 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -37,7 +37,11 @@ def get_total_salts(ds, **kwargs):
         for salt in salts:
             if salt not in ds:
                 ds[salt] = np.nan
-            ds[salt] = ds[salt].where(ds[salt].notnull(), other=results[salt])
+            ds[salt] = (
+                ds[salt]
+                .astype(float)
+                .where(ds[salt].notnull(), other=results[salt])
+            )
     return ds
 
 
-- 
2.43.0


From d4bcb77599f0ac3d70e9ed9b980551da90a1c495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:34 +0000
Subject: [PATCH 28/31] fix: calibrating pH_adjust data does not stall on the
 solver's convergence noise

---
 calkulate/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/calkulate/core.py b/calkulate/core.py
index 15d0c15..e1d6552 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -1002,6 +1002,8 @@ def calibrate_emf(
             titrant_normality,
         ),
         kwargs=titrant_totals,
+        # The step must be well above the convergence limit of `solve_emf`
+        diff_step=1e-4,
         **kwargs_least_squares,
     )
 
-- 
2.43.0


From 95538a7272758637c77a3edc1def7ba4cdf004c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:25 +0000
Subject: [PATCH 29/31] fix: solve_emf reports the standard deviation of the
 alkalinity estimates

---
 calkulate/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index e1d6552..08591c1 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -663,7 +663,6 @@ def solve_emf(
     )
     # Unpack and process results
     alkalinity = opt_result["x"][0] * 1e6
-    alkalinity_std = np.std(opt_result["fun"]) * 1e6
     emf0 = opt_result["x"][1]
     pH = convert.emf_to_pH(emf, emf0, temperature)
     alkalinity_all = (
@@ -675,6 +674,7 @@ def solve_emf(
         )
         / convert.get_dilution_factor(titrant_mass, analyte_mass)
     )
+    alkalinity_std = np.std(alkalinity_all[used])
     sr = SolveEmfResult(
         alkalinity,
         emf0,
-- 
2.43.0


From 253de51d5566c303700bef14e10ad33bcdaca3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:55 +0000
Subject: [PATCH 30/31] fix: a text cell in a numeric column fails only its own
 row, not the dataset

---
 calkulate/dataset.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 219a366..1a28650 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -25,13 +25,16 @@ def get_total_salts(ds, **kwargs):
     for opt, default in opts.items():
         opts[opt] = np.full(len(ds), kwargs.get(opt, default))
         if opt in ds:
-            opts[opt] = np.where(ds[opt].notnull(), ds[opt], opts[opt])
+            values = pd.to_numeric(ds[opt], errors="coerce")
+            opts[opt] = np.where(values.notnull(), values, opts[opt])
     salts = ["total_sulfate", "total_borate", "total_fluoride"]
     salts = [s for s in salts if s not in kwargs]
     do_pyco2 = not np.all([s in ds and ds[s].notnull().all() for s in salts])
     if do_pyco2:
         results = pyco2.sys(
-            salinity=ds.salinity.values,
+            salinity=pd.to_numeric(ds.salinity, errors="coerce").to_numpy(
+                dtype=float, na_value=np.nan
+            ),
             **{k: v.astype(float) for k, v in opts.items()},
         )
         for salt in salts:
@@ -39,8 +42,9 @@ def get_total_salts(ds, **kwargs):
                 ds[salt] = np.nan
             ds[salt] = (
                 ds[salt]
-                .astype(float)
+                .astype(object)
                 .where(ds[salt].notnull(), other=results[salt])
+                .infer_objects()
             )
     return ds
 
@@ -273,7 +277,9 @@ def solve(ds, verbose=False, **kwargs):
     for k, v in solved_rows.items():
         ds[k] = v
     if "alkalinity_certified" in ds:
-        ds["alkalinity_offset"] = ds.alkalinity - ds.alkalinity_certified
+        ds["alkalinity_offset"] = ds.alkalinity - pd.to_numeric(
+            ds.alkalinity_certified, errors="coerce"
+        )
     print("Calkulate: solving complete!")
     return ds
 
-- 
2.43.0


From bd3a337d1ba6909787a725be53493f59b0bf1c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:53 +0000
Subject: [PATCH 31/31] fix: blank file_good and reference_good cells mean
 good, however they are stored

---
 calkulate/dataset.py       | 14 +++++++++++---
 calkulate/plot/__init__.py |  4 ++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 1a28650..6bcd805 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -67,13 +67,20 @@ def _backcompat(kwargs, row):
     return kwargs
 
 
+def is_good(flag):
+    """Whether a `file_good` or `reference_good` cell allows using its row: blanks
+    count as `True`.
+    """
+    return bool(pd.isnull(flag) or flag)
+
+
 def calibrate_row(row, verbose=False, **kwargs):
     """Calibrate `titrant_molinity` for a single row of (i.e., a single
     titration in) a dataset.
     """
     # Initialise output
     titrant_molinity_here = np.nan
-    if pd.notnull(row.alkalinity_certified) and row.file_good:
+    if pd.notnull(row.alkalinity_certified) and is_good(row.file_good):
         if verbose:
             print(f"Calibrating {row.file_name}...")
         try:
@@ -96,7 +103,8 @@ def calibrate_row(row, verbose=False, **kwargs):
 def get_group_calibration(ds_group):
     """Get mean titrant molinity and statistics for each analysis_batch group."""
     titrant_molinities = ds_group.titrant_molinity_here[
-        ds_group.reference_good & ~np.isnan(ds_group.titrant_molinity_here)
+        ds_group.reference_good.map(is_good).astype(bool)
+        & ~np.isnan(ds_group.titrant_molinity_here)
     ]
     return pd.Series(
         {
@@ -218,7 +226,7 @@ def solve_row(row, verbose=False, **kwargs):
             "temperature_init": np.nan,
         }
     )
-    if pd.notnull(row.titrant_molinity) and row.file_good:
+    if pd.notnull(row.titrant_molinity) and is_good(row.file_good):
         if verbose:
             print(f"Solving {row.file_name}...")
         try:
diff --git a/calkulate/plot/__init__.py b/calkulate/plot/__init__.py
index f0fdb1a..4aa92c3 100644
--- a/calkulate/plot/__init__.py
+++ b/calkulate/plot/__init__.py
@@ -24,7 +24,7 @@ def titrant_molinity(
         xdata = data[xvar]
         xlabel = xvar
     if "reference_good" in data:
-        G = data.reference_good.to_numpy(dtype=bool)
+        G = data.reference_good.map(dataset.is_good).to_numpy(dtype=bool)
     else:
         G = np.full(np.size(xdata), True)
     # Draw the figure
@@ -80,7 +80,7 @@ def alkalinity_offset(
         xdata = data[xvar]
         xlabel = xvar
     if "reference_good" in data:
-        G = data.reference_good.to_numpy(dtype=bool)
+        G = data.reference_good.map(dataset.is_good).to_numpy(dtype=bool)
     else:
         G = np.full(np.size(xdata), True)
     if show_batches:
-- 
2.43.0

