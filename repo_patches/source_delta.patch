From bcc429a9c57e1bc6ab86006c509c647d35f5ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 01/63] fix: label the second order frame of a two-parameter
 Sobol analysis by its pair

With two names the frame was indexed by a single list object instead of the
pair, and with one name the conversion raised IndexError.
---
 src/SALib/analyze/sobol.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index 6cb5ed3..11ee742 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -401,10 +401,7 @@ def Si_to_pandas_dict(S_dict):
     if "S2" in S_dict:
         names, _ = extract_group_names(S_dict.problem)
 
-        if len(names) > 2:
-            idx = list(combinations(names, 2))
-        else:
-            idx = (names,)
+        idx = list(combinations(names, 2))
 
         second_order = {
             "S2": [S_dict["S2"][names.index(i[0]), names.index(i[1])] for i in idx],
@@ -434,6 +431,7 @@ def to_df(self):
     ret = [pd.DataFrame(total, index=names), pd.DataFrame(first, index=names)]
 
     if second:
+        idx = pd.MultiIndex.from_tuples(idx) if idx else []
         ret += [pd.DataFrame(second, index=idx)]
 
     return ret
-- 
2.43.0


From 4d1dc4c9a350430a6d864a74535852bf10d072a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 02/63] fix: read single-group Sobol designs with the block
 length they were sampled with

The samplers treat a problem whose parameters all share one group as ungrouped,
but the analysis assumed a single cross-sampled column, misreading the outputs
(or rejecting them) and failing in to_df.
---
 src/SALib/analyze/sobol.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index 11ee742..a1a7b9f 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -7,7 +7,12 @@ import numpy as np
 import pandas as pd
 
 from . import common_args
-from ..util import read_param_file, ResultDict, extract_group_names
+from ..util import (
+    read_param_file,
+    ResultDict,
+    extract_group_names,
+    _check_groups,
+)
 
 from multiprocessing import Pool, cpu_count
 from functools import partial
@@ -118,7 +123,7 @@ def analyze(
 
     # Determine if groups are defined and adjusting the number
     # of rows in the cross-sampled matrix accordingly
-    _, D = extract_group_names(problem)
+    D = len(_index_names(problem))
 
     if calc_second_order and Y.size % (2 * D + 2) == 0:
         N = int(Y.size / (2 * D + 2))
@@ -206,6 +211,17 @@ def analyze(
     return S
 
 
+def _index_names(problem):
+    """Names of the parameters or groups that were cross-sampled.
+
+    As in the samplers, groups are disregarded if all parameters share one.
+    """
+    if _check_groups(problem):
+        return extract_group_names(problem)[0]
+
+    return list(problem["names"])
+
+
 def first_order(A, AB, B):
     """
     First order estimator following Saltelli et al. 2010 CPC, normalized by
@@ -399,7 +415,7 @@ def Si_to_pandas_dict(S_dict):
     idx = None
     second_order = None
     if "S2" in S_dict:
-        names, _ = extract_group_names(S_dict.problem)
+        names = _index_names(S_dict.problem)
 
         idx = list(combinations(names, 2))
 
@@ -426,7 +442,7 @@ def to_df(self):
     """
     total, first, (idx, second) = Si_to_pandas_dict(self)
 
-    names, _ = extract_group_names(self.problem)
+    names = _index_names(self.problem)
 
     ret = [pd.DataFrame(total, index=names), pd.DataFrame(first, index=names)]
 
-- 
2.43.0


From 95876d775dd24b44c31fc300d177a18d4dede64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:09 +0000
Subject: [PATCH 03/63] fix: honour a random seed of 0 in analyses

A seed of 0 was treated as 'no seed', so results were not reproducible.
---
 src/SALib/analyze/delta.py         | 2 +-
 src/SALib/analyze/dgsm.py          | 2 +-
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 src/SALib/analyze/fast.py          | 2 +-
 src/SALib/analyze/ff.py            | 2 +-
 src/SALib/analyze/hdmr.py          | 2 +-
 src/SALib/analyze/pawn.py          | 2 +-
 src/SALib/analyze/sobol.py         | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/SALib/analyze/delta.py b/src/SALib/analyze/delta.py
index 52bcb82..788cbc7 100644
--- a/src/SALib/analyze/delta.py
+++ b/src/SALib/analyze/delta.py
@@ -159,7 +159,7 @@ def analyze(
            sensitivity measures from given data." European Journal of
            Operational Research, 226(3):536-550, doi:10.1016/j.ejor.2012.11.047.
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     valid_methods = {"delta", "sobol", "all"}
diff --git a/src/SALib/analyze/dgsm.py b/src/SALib/analyze/dgsm.py
index 5e8ae11..f6ad7c9 100644
--- a/src/SALib/analyze/dgsm.py
+++ b/src/SALib/analyze/dgsm.py
@@ -55,7 +55,7 @@ def analyze(
            indices." Mathematics and Computers in Simulation, 79(10):3009-3017,
            doi:10.1016/j.matcom.2009.01.023.
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     D = problem["num_vars"]
diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index d4aef0f..9e89afb 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -196,7 +196,7 @@ def analyze(
        https://doi.org/10.1029/2022WR032834
     """
     # Random Seed
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     # Check arguments
diff --git a/src/SALib/analyze/fast.py b/src/SALib/analyze/fast.py
index a6e4f2c..2511db2 100644
--- a/src/SALib/analyze/fast.py
+++ b/src/SALib/analyze/fast.py
@@ -65,7 +65,7 @@ def analyze(
        fast99 - R `sensitivity` package
        https://github.com/cran/sensitivity/blob/master/R/fast99.R
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     D = problem["num_vars"]
diff --git a/src/SALib/analyze/ff.py b/src/SALib/analyze/ff.py
index 98592e8..e3fbb0d 100644
--- a/src/SALib/analyze/ff.py
+++ b/src/SALib/analyze/ff.py
@@ -68,7 +68,7 @@ def analyze(problem, X, Y, second_order=False, print_to_console=False, seed=None
            Wiley, West Sussex, U.K.
            http://doi.org/10.1002/9780470725184
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     problem = extend_bounds(problem)
diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index e2a46e8..3bd9362 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -177,7 +177,7 @@ def analyze(
     )
 
     # Random Seed
-    if seed:
+    if seed is not None:
         rng = handle_seed(seed)  # noqa
 
     # Initial part: Check input arguments and define HDMR variables
diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 80851ce..e25722f 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -103,7 +103,7 @@ def analyze(
            Combining variance- and distribution-based global sensitivity analysis
            https://github.com/baronig/GSA-cvd
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     D = problem["num_vars"]
diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index a1a7b9f..3dd12a7 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -115,7 +115,7 @@ def analyze(
        Reliability Engineering & System Safety, 92(7), 957-960.
        https://doi.org/10.1016/j.ress.2006.07.001
     """
-    if seed:
+    if seed is not None:
         # Set seed to ensure CIs are the same
         rng = np.random.default_rng(seed).integers
     else:
-- 
2.43.0


From 4b6435f4b2f40118e3219634361597df89607dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:09 +0000
Subject: [PATCH 04/63] fix: make the HDMR seed seed the generator its
 bootstrap draws from

The seed initialised a generator that was never used.
---
 src/SALib/analyze/hdmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index 3bd9362..1ad85af 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -14,7 +14,7 @@ import pandas as pd
 from scipy import stats, special, interpolate
 
 from . import common_args
-from ..util import read_param_file, ResultDict, handle_seed
+from ..util import read_param_file, ResultDict
 
 from SALib.plotting.hdmr import plot as hdmr_plot
 from SALib.util.problem import ProblemSpec
@@ -178,7 +178,7 @@ def analyze(
 
     # Random Seed
     if seed is not None:
-        rng = handle_seed(seed)  # noqa
+        np.random.seed(seed)
 
     # Initial part: Check input arguments and define HDMR variables
     settings = _check_settings(X, Y, maxorder, maxiter, m, K, R, alpha, lambdax)
-- 
2.43.0


From 21b4b703fd29133a265f7e04a193cffefbe0a96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:09 +0000
Subject: [PATCH 05/63] fix: keep the parameter names of a problem analysed
 with HDMR

Both HDMR analyses replaced or extended the caller's parameter names with the
names of the component terms, breaking any later analysis of the problem.
---
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 src/SALib/analyze/hdmr.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 9e89afb..4bc5df8 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -588,7 +588,7 @@ def _core_params(
         )
         for k in keys
     )
-    Si["Term"] = problem["names"]
+    Si["Term"] = list(problem["names"])
     Si["ST"] = np.full(hdmr.nc_t, np.nan)
     Si["ST_conf"] = np.full(hdmr.nc_t, np.nan)
 
diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index 1ad85af..a55ce55 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -818,7 +818,7 @@ def _finalize(problem, SA, Em, d, alpha, maxorder, RT, Y_em, bootstrap_idx, X, Y
     if not isinstance(problem, ProblemSpec):
         Si.problem = problem
     else:
-        problem.update(Si)
+        problem.update({k: v for k, v in Si.items() if k != "names"})
         problem.emulate = MethodType(emulate, problem)
 
     return Si
-- 
2.43.0


From ca3e7c50b0facb2212281533efea93862fa71ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:09 +0000
Subject: [PATCH 06/63] fix: compute HDMR confidence values of the summed terms
 over bootstraps

The standard deviation was taken of a single grand total and always 0.
---
 src/SALib/analyze/hdmr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index a55ce55..d6d7096 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -792,9 +792,9 @@ def _finalize(problem, SA, Em, d, alpha, maxorder, RT, Y_em, bootstrap_idx, X, Y
     Si["Sa_conf"] = mult * np.std(SA["Sa"], axis=1)
     Si["Sb_conf"] = mult * np.std(SA["Sb"], axis=1)
     Si["S_conf"] = mult * np.std(SA["S"], axis=1)
-    Si["Sa_sum_conf"] = mult * np.std(np.sum(SA["Sa"]))
-    Si["Sb_sum_conf"] = mult * np.std(np.sum(SA["Sb"]))
-    Si["S_sum_conf"] = mult * np.std(np.sum(SA["S"]))
+    Si["Sa_sum_conf"] = mult * np.std(np.sum(SA["Sa"], axis=0))
+    Si["Sb_sum_conf"] = mult * np.std(np.sum(SA["Sb"], axis=0))
+    Si["S_sum_conf"] = mult * np.std(np.sum(SA["S"], axis=0))
 
     # F-test # of selection to print out
     Si["select"] = Em["select"].flatten()
-- 
2.43.0


From 5db0c2fec36e976992b7731dcbc26da063d6b7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 07/63] fix: average RSA results over the members of each group

The group membership was overwritten by the group names, so analysing a grouped
problem failed (and a single group was given the first parameter's results).
---
 src/SALib/analyze/rsa.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index 22d255a..be11341 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -110,13 +110,14 @@ def analyze(
     results = rsa(X, Y, bins, target)
 
     groups = _check_groups(problem)
-    var_names, n_groups = extract_group_names(problem)
+    var_names = problem["names"]
     if groups:
-        groups = np.array(var_names)
+        var_names, n_groups = extract_group_names(problem)
+        groups = np.array(groups)
         tmp = np.full((bins, n_groups), np.nan)
 
         # Take the mean of effects from parameters that are grouped together
-        for grp_id, grp in enumerate(groups):
+        for grp_id, grp in enumerate(var_names):
             tmp[:, grp_id] = np.nanmean(results[:, groups == grp], axis=1)
 
         results = tmp
-- 
2.43.0


From 4045c0ac78747ab808611291992e0aebca8221bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 08/63] fix: label grouped discrepancy results with the group
 names

The results were labelled with the parameter names, of which there are more.
---
 src/SALib/analyze/discrepancy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/discrepancy.py b/src/SALib/analyze/discrepancy.py
index 282ff1b..e215111 100644
--- a/src/SALib/analyze/discrepancy.py
+++ b/src/SALib/analyze/discrepancy.py
@@ -109,10 +109,13 @@ def analyze(
             tmp[grp_id, :] = np.mean(s_discrepancy[groups == grp], axis=0)
 
         s_discrepancy = tmp.flatten()
+        names = unique_grps
+    else:
+        names = problem["names"]
 
     keys = ("s_discrepancy",)
     Si = ResultDict((k, np.zeros(D)) for k in keys)
-    Si["names"] = problem["names"]
+    Si["names"] = names
 
     Si["s_discrepancy"] = s_discrepancy
 
-- 
2.43.0


From 8e5b6e036e6275d845babc26509cf0ce8c8212b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 09/63] fix: use exactly the requested number of RSA bins

Rounding in arange gave one bin too many for some counts (49, 98, ...), which
failed in to_df.
---
 src/SALib/analyze/rsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index be11341..76ef01b 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -125,7 +125,7 @@ def analyze(
 
     Si = ResultDict([(g, results[:, i]) for i, g in enumerate(var_names)])
     Si["names"] = var_names
-    Si["bins"] = np.arange(0.0, 1.0, (1.0 / bins))
+    Si["bins"] = np.linspace(0.0, 1.0, bins, endpoint=False)
     Si["target"] = target
 
     # Attach object methods specific to this sensitivity method to ResultDict.
@@ -143,7 +143,7 @@ def rsa(X: np.ndarray, y: np.ndarray, bins: int = 10, target="X") -> np.ndarray:
     N, D = X.shape
 
     # Pre-allocated arrays to store data/results
-    seq = np.append(np.arange(0.0, 1.0, (1 / bins)), 1.0)
+    seq = np.linspace(0.0, 1.0, bins + 1)
     X_di = np.empty(N)  # store of factor values
     r_s = np.full((bins, D), np.nan)  # results
 
-- 
2.43.0


From 6a6aa82c445f880a3df971a3091595ec1c941bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 10/63] fix: keep PAWN slice quantiles within [0, 1] for every
 slice count

Rounding in arange made the analysis fail for some counts (6, 9, 21, ...).
---
 src/SALib/analyze/pawn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index e25722f..0dca634 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -112,9 +112,8 @@ def analyze(
     results = np.full((D, 6), np.nan)
     temp_pawn = np.full((S, D), np.nan)
 
-    step = 1 / S
+    seq = np.linspace(0, 1, S + 1)
     for d_i in range(D):
-        seq = np.arange(0, 1 + step, step)
         X_di = X[:, d_i]
         X_q = np.nanquantile(X_di, seq)
 
-- 
2.43.0


From f661f9a6875c744004708bb1e78e4af817631136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 11/63] fix: label PAWN results by parameter if all parameters
 share one group

Groups are disregarded in that case, but the single group name was used as the
only label for all parameters' results.
---
 src/SALib/analyze/pawn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 0dca634..fc6bd6d 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -107,7 +107,7 @@ def analyze(
         np.random.seed(seed)
 
     D = problem["num_vars"]
-    var_names, _ = extract_group_names(problem)
+    var_names = problem["names"]
 
     results = np.full((D, 6), np.nan)
     temp_pawn = np.full((S, D), np.nan)
@@ -155,6 +155,7 @@ def analyze(
 
         results = tmp
         tmp = None
+        var_names = list(unique_grps)
 
     Si = ResultDict(
         [
-- 
2.43.0


From 752f8da1175cc5456411d6afc859f9bcb9bc0168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 12/63] fix: report delta notes if no parameter could be
 analysed

The notes were only attached after a successful parameter.
---
 src/SALib/analyze/delta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/delta.py b/src/SALib/analyze/delta.py
index 788cbc7..358218c 100644
--- a/src/SALib/analyze/delta.py
+++ b/src/SALib/analyze/delta.py
@@ -283,7 +283,7 @@ def analyze(
             notes.append(note)
             continue
 
-        S["notes"] = notes
+    S["notes"] = notes
 
     if print_to_console:
         # Merge dictionaries
-- 
2.43.0


From a873737aa35866082dcf1691573e1e145e9f6118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 13/63] fix: keep the pair labels of the Sobol second order
 frame as plain tuples

---
 src/SALib/analyze/sobol.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index 3dd12a7..b74f194 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -447,7 +447,6 @@ def to_df(self):
     ret = [pd.DataFrame(total, index=names), pd.DataFrame(first, index=names)]
 
     if second:
-        idx = pd.MultiIndex.from_tuples(idx) if idx else []
         ret += [pd.DataFrame(second, index=idx)]
 
     return ret
-- 
2.43.0


From 1de0212a706f09c31a1e9001fa1601217c4791f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 14/63] fix: refuse to analyze a problem specification with a
 single group

The check took the length of the literal "groups" instead of counting groups.
---
 src/SALib/util/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index bf0796d..0462764 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -336,7 +336,9 @@ class ProblemSpec(dict):
         -------
         self : ProblemSpec object
         """
-        if self["num_vars"] == 1 or (self["groups"] and len("groups") == 1):
+        if self["num_vars"] == 1 or (
+            self["groups"] and len(set(self["groups"])) == 1
+        ):
             msg = (
                 "There is only a single parameter or group defined. There is "
                 "no point in conducting sensitivity analysis as any and all"
-- 
2.43.0


From 6d328c2fb3a5ee72d849f58b8852aae40a29e7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 15/63] fix: discard an analysis when the samples or results it
 came from are replaced

---
 src/SALib/util/problem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 0462764..6dfbb19 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -75,6 +75,7 @@ class ProblemSpec(dict):
 
         # Clear results to avoid confusion
         self._results = None
+        self._analysis = None
 
     @property
     def results(self):
@@ -102,6 +103,9 @@ class ProblemSpec(dict):
 
         self._results = vals
 
+        # Any previous analysis belongs to the replaced results
+        self._analysis = None
+
     @property
     def analysis(self):
         return self._analysis
-- 
2.43.0


From 86c01f72d152fa738f373ce8954800dc0761e311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 16/63] fix: pass extra model arguments on to distributed
 evaluation

---
 src/SALib/util/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 6dfbb19..17c1306 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -304,7 +304,7 @@ class ProblemSpec(dict):
         # Split into even chunks
         chunks = np.array_split(self._samples, int(nprocs) * len(servers), axis=0)
 
-        tmp_f = self._wrap_func(func)
+        tmp_f = self._wrap_func(func, *args, **kwargs)
 
         res = list(workers.map(tmp_f, chunks))
 
-- 
2.43.0


From 55311200fdb0012958e23eefbd0bf02447a3cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 17/63] fix: pad all entries of a fractional factorial problem,
 without altering shared lists

The dummy names were appended in place to a list that may be shared with other
problems, and dists (and explicit groups) were left too short.
---
 src/SALib/sample/ff.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/SALib/sample/ff.py b/src/SALib/sample/ff.py
index 0938e4a..1ccfbf5 100644
--- a/src/SALib/sample/ff.py
+++ b/src/SALib/sample/ff.py
@@ -45,10 +45,15 @@ def extend_bounds(problem):
     num_dummy_variables = num_ff_vars - num_vars
 
     bounds = list(problem["bounds"])
-    names = problem["names"]
+    names = list(problem["names"])
     if num_dummy_variables > 0:
+        dummy_names = ["dummy_" + str(var) for var in range(num_dummy_variables)]
         bounds.extend([[0, 1] for x in range(num_dummy_variables)])
-        names.extend(["dummy_" + str(var) for var in range(num_dummy_variables)])
+        names.extend(dummy_names)
+        if problem.get("groups"):
+            problem["groups"] = list(problem["groups"]) + dummy_names
+        if problem.get("dists"):
+            problem["dists"] = list(problem["dists"]) + ["unif"] * num_dummy_variables
         problem["bounds"] = bounds
         problem["names"] = names
         problem["num_vars"] = num_ff_vars
-- 
2.43.0


From 22aa9bd95c9b082ba60259978a2b29a75fb58406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 18/63] fix: support fractional factorial designs of more than
 512 parameters

---
 src/SALib/sample/ff.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/SALib/sample/ff.py b/src/SALib/sample/ff.py
index 1ccfbf5..b05b0ba 100644
--- a/src/SALib/sample/ff.py
+++ b/src/SALib/sample/ff.py
@@ -26,9 +26,11 @@ def find_smallest(num_vars):
     x : int
         Smallest exponent of two greater than `num_vars`
     """
-    for x in range(10):
-        if num_vars <= 2**x:
-            return x
+    x = 0
+    while num_vars > 2**x:
+        x += 1
+
+    return x
 
 
 def extend_bounds(problem):
-- 
2.43.0


From 54d33bdc294e8398770d858af68a7456363e9b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 19/63] fix: keep finite difference steps inside the
 distribution of each parameter

Steps were clipped to the raw bounds entry, which holds distribution parameters
(such as mean and standard deviation) if the parameter is not uniform.
---
 src/SALib/sample/finite_diff.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SALib/sample/finite_diff.py b/src/SALib/sample/finite_diff.py
index 368286f..f1acd33 100644
--- a/src/SALib/sample/finite_diff.py
+++ b/src/SALib/sample/finite_diff.py
@@ -55,7 +55,6 @@ def sample(
     rng = handle_seed(seed)  # noqa
 
     D = problem["num_vars"]
-    bounds = problem["bounds"]
 
     # Create base sequence - could be any type of sampling
     base_sequence = sobol_sequence.sample(N + skip_values, D)
@@ -63,6 +62,9 @@ def sample(
     # scale before finite differencing
     base_sequence = scale_samples(base_sequence, problem)
 
+    # limits of each parameter's distribution (its bounds if uniform)
+    limits = scale_samples(np.vstack([np.zeros(D), np.ones(D)]), problem)
+
     dgsm_sequence = np.empty([N * (D + 1), D])
 
     index = 0
@@ -73,7 +75,7 @@ def sample(
         index += 1
         for j in range(D):
             temp = np.zeros(D)
-            bnd_j = bounds[j]
+            bnd_j = limits[:, j]
             temp[j] = base_sequence[i, j] * delta
             dgsm_sequence[index, :] = base_sequence[i, :] + temp
             dgsm_sequence[index, j] = min(dgsm_sequence[index, j], bnd_j[1])
-- 
2.43.0


From 9859c421a4f10a8f01a173574897fdf99c3eaf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 20/63] fix: pass skip values and seed of the command line on
 to the Sobol sampler

---
 src/SALib/sample/sobol.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/SALib/sample/sobol.py b/src/SALib/sample/sobol.py
index 07e905a..2aa79b0 100644
--- a/src/SALib/sample/sobol.py
+++ b/src/SALib/sample/sobol.py
@@ -221,9 +221,8 @@ def cli_parse(parser):
         "--skip-values",
         type=int,
         required=False,
-        default=None,
-        help="Number of sample points to skip (default: next largest power of"
-        " 2 from `samples`). Not recommended (use `scramble` instead).",
+        default=0,
+        help="Number of sample points to skip (default: 0). Not recommended (use `scramble` instead).",
     )
 
     return parser
@@ -242,6 +241,8 @@ def cli_action(args):
         args.samples,
         calc_second_order=(args.max_order == 2),
         scramble=args.scramble,
+        skip_values=args.skip_values,
+        seed=args.seed,
     )
     np.savetxt(
         args.output,
-- 
2.43.0


From 4fb5084f49f1998d53b16bd2f70eeac34a55374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 21/63] fix: use the documented PAWN and RSA defaults on the
 command line

---
 src/SALib/analyze/pawn.py | 7 ++++++-
 src/SALib/analyze/rsa.py  | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index fc6bd6d..6f665eb 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -181,7 +181,12 @@ def cli_parse(parser):
     )
 
     parser.add_argument(
-        "-S", "--slices", type=int, required=False, help="Number of slices to take"
+        "-S",
+        "--slices",
+        type=int,
+        required=False,
+        default=10,
+        help="Number of slices to take",
     )
     return parser
 
diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index 76ef01b..f97b4d8 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -251,6 +251,7 @@ def cli_parse(parser):
         "--bins",
         type=int,
         required=False,
+        default=20,
         help="Number of bins to partition target space into",
     )
 
@@ -259,6 +260,7 @@ def cli_parse(parser):
         "--target",
         type=str,
         required=False,
+        default="Y",
         help="Target input space (X) or output space (Y)",
     )
 
-- 
2.43.0


From 3c84e4c39b028b5ce57a8d8f19805bdd7506343e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 22/63] fix: read the Morris command line flags as written

Any value, "False" included, was read as True, and --local was required.
---
 src/SALib/analyze/morris.py       | 2 +-
 src/SALib/sample/morris/morris.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SALib/analyze/morris.py b/src/SALib/analyze/morris.py
index 1c6c864..0f2cf56 100644
--- a/src/SALib/analyze/morris.py
+++ b/src/SALib/analyze/morris.py
@@ -630,7 +630,7 @@ def cli_parse(parser):
     )
     parser.add_argument(
         "--scaled",
-        type=bool,
+        type=lambda x: (str(x).lower() == "true"),
         required=False,
         default=False,
         help="Scale the results by ratio of stddev of X and Y (Morris)",
diff --git a/src/SALib/sample/morris/morris.py b/src/SALib/sample/morris/morris.py
index d54cdd9..dc7febe 100644
--- a/src/SALib/sample/morris/morris.py
+++ b/src/SALib/sample/morris/morris.py
@@ -445,8 +445,8 @@ def cli_parse(parser):
     parser.add_argument(
         "-lo",
         "--local",
-        type=bool,
-        required=True,
+        type=lambda x: (str(x).lower() == "true"),
+        required=False,
         default=False,
         help="Use the local optimisation method \
                         (Morris with optimization only)",
-- 
2.43.0


From 60970d1cc909dd5a502dcc569e7322a386609ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 23/63] fix: pass the command line seed on to the HDMR analyses

---
 src/SALib/analyze/enhanced_hdmr.py | 1 +
 src/SALib/analyze/hdmr.py          | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 4bc5df8..36aa41a 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1690,6 +1690,7 @@ def cli_action(args):
         "extended_base": args.extended_base,
         "print_to_console": args.print_to_console,
         "return_emulator": args.return_emulator,
+        "seed": args.seed,
     }
 
     if len(X.shape) == 1:
diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index d6d7096..6ff974a 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -1089,6 +1089,7 @@ def cli_action(args):
         "alpha": alpha,
         "lambdax": lambdax,
         "print_to_console": True,
+        "seed": args.seed,
     }
 
     if len(X.shape) == 1:
-- 
2.43.0


From d910b46709d847c7e15502c2316bdab8c5a60981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 24/63] fix: do not require enhanced HDMR command line options
 that have a default

---
 src/SALib/analyze/enhanced_hdmr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 36aa41a..9f22515 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1593,7 +1593,7 @@ def cli_parse(parser):
         "-mor",
         "--max-order",
         type=int,
-        required=True,
+        required=False,
         default=2,
         help="Order of HDMR expansion 1-3",
     )
@@ -1601,7 +1601,7 @@ def cli_parse(parser):
         "-por",
         "--poly-order",
         type=int,
-        required=True,
+        required=False,
         default=2,
         help="Maximum polynomial order 1-10",
     )
@@ -1649,7 +1649,7 @@ def cli_parse(parser):
         "-ext",
         "--extended-base",
         type=lambda x: (str(x).lower() == "true"),
-        required=True,
+        required=False,
         default=True,
         help="Whether to use extended base matrix",
     )
-- 
2.43.0


From 5d31df5f812877e7ef6edf62332cb6496880f9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 25/63] fix: check the width of triangular distributions

An empty interval gave NaN samples, and an interval ending below zero was
rejected although its width is positive.
---
 src/SALib/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/util/__init__.py b/src/SALib/util/__init__.py
index 47e73bc..315dc09 100644
--- a/src/SALib/util/__init__.py
+++ b/src/SALib/util/__init__.py
@@ -187,7 +187,7 @@ def _nonuniform_scale_samples(params, bounds, dists):
                 )
 
             # checking for correct parameters
-            if b1 < 0 or b2 < 0 or b2 >= 1 or loc_start > b1:
+            if b2 < 0 or b2 >= 1 or loc_start >= b1:
                 raise ValueError(
                     """Triangular distribution bound error: Scale must be
                     greater than zero; peak on interval [0,1], triangular
-- 
2.43.0


From 1d27ee2b7513cfb958926a1905aee89f4e5d983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 26/63] fix: reject illegal bounds of log-uniform distributions

They gave NaN samples.
---
 src/SALib/util/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/__init__.py b/src/SALib/util/__init__.py
index 315dc09..6ee174f 100644
--- a/src/SALib/util/__init__.py
+++ b/src/SALib/util/__init__.py
@@ -208,7 +208,13 @@ def _nonuniform_scale_samples(params, bounds, dists):
                 conv_params[:, i] = params[:, i] * (b2 - b1) + b1
 
         elif dists[i] == "logunif":
-            conv_params[:, i] = sp.stats.loguniform.ppf(params[:, i], a=b1, b=b2)
+            if b1 <= 0 or b1 >= b2:
+                raise ValueError(
+                    """Log-uniform distribution: lower bound must be > 0
+                    and less than upper bound"""
+                )
+            else:
+                conv_params[:, i] = sp.stats.loguniform.ppf(params[:, i], a=b1, b=b2)
 
         elif dists[i] == "norm":
             if b2 <= 0:
-- 
2.43.0


From 266b58b270cd40dea0d5377273eb2e9e64a9b06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 27/63] fix: report the same Sobol confidence values with and
 without parallel execution

With constant A and B outputs the parallel (and second order) values were NaN.
---
 src/SALib/analyze/sobol.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index b74f194..d82c25b 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -182,9 +182,9 @@ def analyze(
             for j in range(D):
                 for k in range(j + 1, D):
                     S["S2"][j, k] = second_order(A, AB[:, j], AB[:, k], BA[:, j], B)
-                    S["S2_conf"][j, k] = Z * second_order(
-                        A[r], AB[r, j], AB[r, k], BA[r, j], B[r]
-                    ).std(ddof=1)
+                    S["S2_conf"][j, k] = _confidence(
+                        Z, second_order(A[r], AB[r, j], AB[r, k], BA[r, j], B[r])
+                    )
     else:
         tasks, n_processors = create_task_list(D, calc_second_order, n_processors)
 
@@ -222,6 +222,14 @@ def _index_names(problem):
     return list(problem["names"])
 
 
+def _confidence(Z, resampled):
+    """Confidence value of the resampled estimates (0.0 if outputs are constant)"""
+    if np.ndim(resampled) == 0:
+        return 0.0
+
+    return Z * resampled.std(ddof=1)
+
+
 def first_order(A, AB, B):
     """
     First order estimator following Saltelli et al. 2010 CPC, normalized by
@@ -301,15 +309,15 @@ def sobol_parallel(Z, A, AB, BA, B, r, tasks):
         if d == "S1":
             s = first_order(A, AB[:, j], B)
         elif d == "S1_conf":
-            s = Z * first_order(A[r], AB[r, j], B[r]).std(ddof=1)
+            s = _confidence(Z, first_order(A[r], AB[r, j], B[r]))
         elif d == "ST":
             s = total_order(A, AB[:, j], B)
         elif d == "ST_conf":
-            s = Z * total_order(A[r], AB[r, j], B[r]).std(ddof=1)
+            s = _confidence(Z, total_order(A[r], AB[r, j], B[r]))
         elif d == "S2":
             s = second_order(A, AB[:, j], AB[:, k], BA[:, j], B)
         elif d == "S2_conf":
-            s = Z * second_order(A[r], AB[r, j], AB[r, k], BA[r, j], B[r]).std(ddof=1)
+            s = _confidence(Z, second_order(A[r], AB[r, j], AB[r, k], BA[r, j], B[r]))
         sobol_indices.append([d, j, k, s])
 
     return sobol_indices
-- 
2.43.0


From 0382b99ca2a6e5046d0681abdbb5efdc51630f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 28/63] fix: keep the resamples of a parallel Sobol analysis

---
 src/SALib/analyze/sobol.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index d82c25b..9d484bf 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -198,6 +198,11 @@ def analyze(
             S_list.get(), D, num_resamples, keep_resamples, calc_second_order
         )
 
+        if keep_resamples:
+            for j in range(D):
+                S["S1_conf_all"][:, j] = first_order(A[r], AB[r, j], B[r])
+                S["ST_conf_all"][:, j] = total_order(A[r], AB[r, j], B[r])
+
     # Add problem context and override conversion method for special case
     S.problem = problem
     S.to_df = MethodType(to_df, S)
-- 
2.43.0


From 30c13d53954a5b28221591c0934d5102787541ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 29/63] fix: never choose a Morris trajectory twice in the
 local optimisation

A trajectory could be paired with itself if the pool holds identical ones.
---
 src/SALib/sample/morris/local.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SALib/sample/morris/local.py b/src/SALib/sample/morris/local.py
index 08b7a5b..d0e4afa 100644
--- a/src/SALib/sample/morris/local.py
+++ b/src/SALib/sample/morris/local.py
@@ -63,7 +63,9 @@ class LocalOptimisation(Strategy):
             row_maxima_i = maxima_template.copy()
 
             for row_nr, row in enumerate(distance_matrix):
-                indices = tuple(row.argsort()[-i:][::-1]) + (row_nr,)
+                # a trajectory is never its own (zero distance) neighbour
+                others = [j for j in row.argsort()[::-1] if j != row_nr]
+                indices = tuple(others[:i]) + (row_nr,)
                 row_maxima_i[row_nr] = self.sum_distances(indices, distance_matrix)
                 indices_list.append(indices)
 
-- 
2.43.0


From 1a1725e66604ddee25a5534e51f3a6637c38c953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:21 +0000
Subject: [PATCH 30/63] fix: reject invalid confidence levels in the FAST and
 RBD-FAST analyses

As in the other methods; the confidence values were NaN.
---
 src/SALib/analyze/fast.py     | 3 +++
 src/SALib/analyze/rbd_fast.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/SALib/analyze/fast.py b/src/SALib/analyze/fast.py
index 2511db2..74b0f2a 100644
--- a/src/SALib/analyze/fast.py
+++ b/src/SALib/analyze/fast.py
@@ -79,6 +79,9 @@ def analyze(
         """
         raise ValueError(msg)
 
+    if not 0 < conf_level < 1:
+        raise RuntimeError("Confidence level must be between 0-1.")
+
     # Recreate the vector omega used in the sampling
     omega_0 = math.floor((N - 1) / (2 * M))
 
diff --git a/src/SALib/analyze/rbd_fast.py b/src/SALib/analyze/rbd_fast.py
index d642557..b817ea3 100644
--- a/src/SALib/analyze/rbd_fast.py
+++ b/src/SALib/analyze/rbd_fast.py
@@ -88,6 +88,9 @@ def analyze(
     D = problem["num_vars"]
     N = Y.size
 
+    if not 0 < conf_level < 1:
+        raise RuntimeError("Confidence level must be between 0-1.")
+
     # Calculate and Output the First Order Value
     Si = ResultDict((k, [None] * D) for k in ["S1", "S1_conf"])
     Si["names"] = problem["names"]
-- 
2.43.0


From 72da7260544306b3d4db4866f7ce363f1f8a26fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 31/63] fix: reject Morris outputs that do not split into whole
 trajectories

Some lengths were split into trajectories of a wrong size instead.
---
 src/SALib/analyze/morris.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SALib/analyze/morris.py b/src/SALib/analyze/morris.py
index 0f2cf56..599ab20 100644
--- a/src/SALib/analyze/morris.py
+++ b/src/SALib/analyze/morris.py
@@ -146,6 +146,12 @@ def analyze(
     groups, unique_group_names = compute_groups_matrix(problem["groups"])
     number_of_groups = len(unique_group_names)
 
+    if Y.size == 0 or Y.size % (number_of_groups + 1) != 0:
+        raise ValueError(
+            "Number of model outputs must be a multiple of the number of"
+            " parameters (or groups) plus one"
+        )
+
     num_trajectories = int(Y.size / (number_of_groups + 1))
     trajectory_size = int(Y.size / num_trajectories)
 
-- 
2.43.0


From ed62b8b81d205b43d25787639b391fdf2695564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 32/63] fix: keep the exposed analysis when analyzing one of
 several outputs fails

A failure part-way left an empty or partially filled dictionary of the
outputs analyzed so far in place of the previous analysis.
---
 src/SALib/util/problem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 17c1306..1b8589b 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -372,9 +372,11 @@ class ProblemSpec(dict):
                 self["outputs"] = [f"Y{i}" for i in range(1, num_cols + 1)]
 
         if len(self["outputs"]) > 1:
-            self._analysis = {}
+            # Attach only once every output has been analyzed
+            analysis = {}
             for i, out in enumerate(self["outputs"]):
-                self._analysis[out] = func(self, Y=self._results[:, i])
+                analysis[out] = func(self, Y=self._results[:, i])
+            self._analysis = analysis
         else:
             self._analysis = func(self, Y=self._results)
 
-- 
2.43.0


From e39ba25b13545348fd4249dd8da4b0a489f9e154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 33/63] fix: enhanced_hdmr with max_order=1 failed with an
 AttributeError

---
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 9f22515..f29c91f 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1436,7 +1436,7 @@ def _finalize(hdmr, Si, alpha, return_emulator):
     # Compute the total sensitivity of each parameter/coefficient
     for r in range(hdmr.d):
         if hdmr.max_order == 1:
-            TS = hdmr.S[r, :]
+            TS = Si["S"][r, :]
         elif hdmr.max_order == 2:
             ij = hdmr.d + np.where(np.sum(hdmr.beta == r, axis=1) == 1)[0]
             TS = np.sum(Si["S"][np.append(r, ij), :], axis=0)
-- 
2.43.0


From 0b34bcb60e8b78c064c3a4522af8ab4a1b21033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 34/63] fix: enhanced_hdmr with max_order=3 failed to find the
 terms of each parameter

---
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index f29c91f..fa99434 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1442,7 +1442,7 @@ def _finalize(hdmr, Si, alpha, return_emulator):
             TS = np.sum(Si["S"][np.append(r, ij), :], axis=0)
         elif hdmr.max_order == 3:
             ij = hdmr.d + np.where(np.sum(hdmr.beta == r, axis=1) == 1)[0]
-            ijk = hdmr.d + hdmr.nc2 + np.where(np.sum(hdmr.nc3 == r, axis=1) == 1)[0]
+            ijk = hdmr.d + hdmr.nc2 + np.where(np.sum(hdmr.gamma == r, axis=1) == 1)[0]
             TS = np.sum(Si["S"][np.append(r, np.append(ij, ijk)), :], axis=0)
         Si["ST"][r] = np.mean(TS)
         Si["ST_conf"][r] = mult * np.std(TS)
-- 
2.43.0


From 0a1e7d239be14b54600315de7c5643f0ecd7cdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 35/63] fix: enhanced_hdmr with max_order=3 and no extended
 base lacked an argument

---
 src/SALib/analyze/enhanced_hdmr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index fa99434..0eff579 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -873,6 +873,7 @@ def _fanova(b_m, hdmr, Si, Y, bootstrap, max_iter, l2_penalty, alpha):
                     Y_res,
                     l2_penalty,
                     hdmr,
+                    t,
                 )
 
         # Calculate component functions
-- 
2.43.0


From cc4af659aaee60e2c1b0882671815d65cce2ca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 36/63] fix: enhanced_hdmr limits max_order to 2 for two
 parameters, as it announces

---
 src/SALib/analyze/enhanced_hdmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 0eff579..8c4e47c 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -200,7 +200,7 @@ def analyze(
         np.random.seed(seed)
 
     # Check arguments
-    Y, problem, subset, max_iter = _check_args(
+    Y, problem, max_order, subset, max_iter = _check_args(
         problem,
         X,
         Y,
@@ -345,7 +345,7 @@ def _check_args(
     if l2_penalty < 0.0 or l2_penalty > 10:
         raise ValueError("'l2_penalty' should be in between 0 and 10")
 
-    return Y, problem, subset, max_iter
+    return Y, problem, max_order, subset, max_iter
 
 
 def _core_params(
-- 
2.43.0


From 6ff0fd70fa2b2539186d8e9376f5c03d309cd5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 37/63] fix: enhanced_hdmr *_sum_conf is the spread of the
 bootstrap sums, not 0

---
 src/SALib/analyze/enhanced_hdmr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 8c4e47c..eeaa137 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1452,9 +1452,9 @@ def _finalize(hdmr, Si, alpha, return_emulator):
     Si["Sa_conf"] = mult * np.std(Si["Sa"], axis=1)
     Si["Sb_conf"] = mult * np.std(Si["Sb"], axis=1)
     Si["S_conf"] = mult * np.std(Si["S"], axis=1)
-    Si["Sa_sum_conf"] = mult * np.std(np.sum(Si["Sa"]))
-    Si["Sb_sum_conf"] = mult * np.std(np.sum(Si["Sb"]))
-    Si["S_sum_conf"] = mult * np.std(np.sum(Si["S"]))
+    Si["Sa_sum_conf"] = mult * np.std(np.sum(Si["Sa"], axis=0))
+    Si["Sb_sum_conf"] = mult * np.std(np.sum(Si["Sb"], axis=0))
+    Si["S_sum_conf"] = mult * np.std(np.sum(Si["S"], axis=0))
 
     # Assign Bootstrap Results to Si Dict
     Si["Sa"] = np.mean(Si["Sa"], axis=1)
-- 
2.43.0


From f1a4691a07523f5d5ad04e31c11fb967ee536e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 38/63] fix: enhanced_hdmr third order terms extend the columns
 of their own pairs

The pair columns were looked up with the parameter numbers as if these were
pair numbers, which only holds for three parameters.
---
 src/SALib/analyze/enhanced_hdmr.py | 31 ++++++------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index eeaa137..ea6b50a 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -677,6 +677,7 @@ def _basis_matrix(X, hdmr):
 
     # Third order columns of basis matrix
     if hdmr.max_order == 3:
+        pair_no = {pair: n for n, pair in enumerate(comb(range(hdmr.d), 2))}
         for i, j, k in _prod(
             range(0, hdmr.d - 2), range(1, hdmr.d - 1), range(2, hdmr.d)
         ):
@@ -690,32 +691,12 @@ def _basis_matrix(X, hdmr):
                 b_m[:, col : col + hdmr.p_o] = b_m[:, k * hdmr.p_o : (k + 1) * hdmr.p_o]
                 col += hdmr.p_o
 
+                # Second order columns of the three pairs in this term
                 p_o_2 = hdmr.p_o**2
-                b_m[:, col : col + p_o_2] = b_m[
-                    :,
-                    hdmr.tnt1
-                    + (2 * hdmr.nt1) * (i + 1)
-                    + i * p_o_2 : hdmr.tnt1
-                    + (i + 1) * (p_o_2 + 2 * hdmr.nt1),
-                ]
-                col += p_o_2
-
-                b_m[:, col : col + p_o_2] = b_m[
-                    :,
-                    hdmr.tnt1
-                    + (2 * hdmr.nt1) * (j + 1)
-                    + j * p_o_2 : hdmr.tnt1
-                    + (j + 1) * (p_o_2 + 2 * hdmr.nt1),
-                ]
-                col += p_o_2
-                b_m[:, col : col + p_o_2] = b_m[
-                    :,
-                    hdmr.tnt1
-                    + (2 * hdmr.nt1) * (k + 1)
-                    + k * p_o_2 : hdmr.tnt1
-                    + (k + 1) * (p_o_2 + 2 * hdmr.nt1),
-                ]
-                col += p_o_2
+                for pair in ((i, j), (i, k), (j, k)):
+                    start = hdmr.tnt1 + pair_no[pair] * hdmr.nt2 + 2 * hdmr.nt1
+                    b_m[:, col : col + p_o_2] = b_m[:, start : start + p_o_2]
+                    col += p_o_2
 
             for l1, l2, l3 in _prod(
                 range(i * hdmr.p_o, (i + 1) * hdmr.p_o),
-- 
2.43.0


From 436f8ffc7d3098e2faa5385df38f91b19933b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:16 +0000
Subject: [PATCH 39/63] fix: parameter files with comments or optional columns
 are readable

The delimiter was sniffed from the whole file including its comments, which
fails for most files in which comments or optional columns vary between lines,
even if the delimiter is given.
---
 src/SALib/util/util_funcs.py | 42 +++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/SALib/util/util_funcs.py b/src/SALib/util/util_funcs.py
index 601624d..1c924af 100644
--- a/src/SALib/util/util_funcs.py
+++ b/src/SALib/util/util_funcs.py
@@ -66,9 +66,10 @@ def read_param_file(filename, delimiter=None):
     fieldnames = ["name", "lower_bound", "upper_bound", "group", "dist"]
 
     with open(filename, "r") as csvfile:
-        dialect = csv.Sniffer().sniff(csvfile.read(1024), delimiters=delimiter)
-        csvfile.seek(0)
-        reader = csv.DictReader(csvfile, fieldnames=fieldnames, dialect=dialect)
+        # Comments and blank lines do not follow the column layout
+        lines = [ln for ln in csvfile if ln.strip() and not ln.strip().startswith("#")]
+        dialect = _param_file_dialect(lines, delimiter)
+        reader = csv.DictReader(lines, fieldnames=fieldnames, dialect=dialect)
         for row in reader:
             if row["name"].strip().startswith("#"):
                 pass
@@ -79,7 +80,7 @@ def read_param_file(filename, delimiter=None):
 
                 # If the fourth column does not contain a group name, use
                 # the parameter name
-                if row["group"] is None:
+                if not row["group"]:
                     groups.append(row["name"])
                 elif row["group"] == "NA":
                     groups.append(row["name"])
@@ -88,7 +89,7 @@ def read_param_file(filename, delimiter=None):
 
                 # If the fifth column does not contain a distribution
                 # use uniform
-                if row["dist"] is None:
+                if not row["dist"]:
                     dists.append("unif")
                 else:
                     dists.append(row["dist"])
@@ -115,6 +116,37 @@ def read_param_file(filename, delimiter=None):
     }
 
 
+def _param_file_dialect(lines, delimiters=None):
+    """Find the CSV dialect in which all lines hold a name and two bounds.
+
+    Parameters
+    ----------
+    lines : list
+        The lines of the parameter file, without comments
+    delimiters : str, default=None
+        The delimiters to consider
+
+    Returns
+    -------
+    csv.Dialect
+    """
+
+    class ParamFile(csv.excel):
+        skipinitialspace = True
+        quotechar = "'" if any(ln.lstrip().startswith("'") for ln in lines) else '"'
+
+    for delimiter in delimiters or ",;\t ":
+        ParamFile.delimiter = delimiter
+        try:
+            for row in csv.reader(lines, dialect=ParamFile):
+                float(row[1]), float(row[2])
+        except (IndexError, ValueError):
+            continue
+        return ParamFile
+
+    return csv.Sniffer().sniff("".join(lines), delimiters=delimiters)
+
+
 def _check_groups(problem):
     """Check if there is more than 1 group."""
     groups = problem.get("groups")
-- 
2.43.0


From 090b60607ec5c6e9b743bec42dc6e643b6811c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:16 +0000
Subject: [PATCH 40/63] fix: command line analyses accept input files of a
 single parameter

rbd_fast, pawn, rsa and discrepancy read a one-column file as a vector and
failed.
---
 src/SALib/analyze/discrepancy.py | 2 +-
 src/SALib/analyze/pawn.py        | 2 +-
 src/SALib/analyze/rbd_fast.py    | 2 +-
 src/SALib/analyze/rsa.py         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SALib/analyze/discrepancy.py b/src/SALib/analyze/discrepancy.py
index e215111..d85b42a 100644
--- a/src/SALib/analyze/discrepancy.py
+++ b/src/SALib/analyze/discrepancy.py
@@ -135,7 +135,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 6f665eb..a93a380 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -193,7 +193,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
diff --git a/src/SALib/analyze/rbd_fast.py b/src/SALib/analyze/rbd_fast.py
index b817ea3..e7e622a 100644
--- a/src/SALib/analyze/rbd_fast.py
+++ b/src/SALib/analyze/rbd_fast.py
@@ -180,7 +180,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index f97b4d8..d94ed33 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -269,7 +269,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
-- 
2.43.0


From 3938787475b411dd30061a67cafc7c5f3ff345b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:26 +0000
Subject: [PATCH 41/63] fix: hdmr first order terms default to zero when
 ill-conditioned, not to uninitialised memory

---
 src/SALib/analyze/hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index 6ff974a..c7c3827 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -521,7 +521,7 @@ def B_spline(X, m, d):
 def _first_order(B1, Y_res, C1, R, n1, m1, maxiter, lambdax):
     """Compute first order sensitivities."""
     Y_i = np.empty((R, n1))  # Initialize 1st order contributions
-    T1 = np.empty((m1, R, n1))  # Initialize T(emporary) matrix - 1st
+    T1 = np.zeros((m1, R, n1))  # Initialize T(emporary) matrix - 1st
     it = 0  # Initialize iteration counter
 
     lam_eye_m1 = lambdax * identity(m1)
-- 
2.43.0


From 47a29aecefc2777a6fa7c2920a8b8c39fa6adb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:26 +0000
Subject: [PATCH 42/63] fix: hdmr F-test uses the number of coefficients of
 each term's own order

---
 src/SALib/analyze/hdmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index c7c3827..a5c8edf 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -647,9 +647,9 @@ def f_test(Y, f0, Y_em, R, alpha, m1, m2, m3, n1, n2, n3, n):
         Y_res1 = Y_res0 - Y_em[:, i]
 
         # Number of parameters of proposed model (order dependent)
-        if i <= n1:
+        if i < n1:
             p1 = m1  # 1st order
-        elif n1 < i <= (n1 + n2):
+        elif n1 <= i < (n1 + n2):
             p1 = m2  # 2nd order
         else:
             p1 = m3  # 3rd order
-- 
2.43.0


From ce5eb950d519e14bcb20af6bfa652ff1dc1f89da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:26 +0000
Subject: [PATCH 43/63] fix: hdmr reports the number of selections of each term

---
 src/SALib/analyze/hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index a5c8edf..bc73578 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -797,7 +797,7 @@ def _finalize(problem, SA, Em, d, alpha, maxorder, RT, Y_em, bootstrap_idx, X, Y
     Si["S_sum_conf"] = mult * np.std(np.sum(SA["S"], axis=0))
 
     # F-test # of selection to print out
-    Si["select"] = Em["select"].flatten()
+    Si["select"] = Em["select"].sum(axis=1)
 
     Si["names"] = Si["Term"]
 
-- 
2.43.0


From 661f1170d03327f15b2f5fe7f8ac9435c26b0257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:26 +0000
Subject: [PATCH 44/63] fix: hdmr emulator normalises new inputs by the range
 of the analysed ones

---
 src/SALib/analyze/hdmr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index bc73578..993502e 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -869,8 +869,9 @@ def emulate(self, X, Y=None):
     # Initialize emulated Y's
     Y_em = np.zeros((N, n1 + n2 + n3))
 
-    # Compute normalized X-values
-    X_n = (X - np.tile(X.min(0), (N, 1))) / np.tile((X.max(0)) - X.min(0), (N, 1))
+    # Normalize X-values as they were in the analysis
+    X_a = self["X"]
+    X_n = (X - X_a.min(0)) / (X_a.max(0) - X_a.min(0))
 
     # Now compute B values
     B1 = B_spline(X_n, m, d)
-- 
2.43.0


From 7ea5fcb5eb5567a97e50e603fee333e8d1ca1c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 45/63] fix: enhanced_hdmr emulator evaluates new inputs in the
 basis of the analysed ones

---
 src/SALib/analyze/enhanced_hdmr.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index ea6b50a..749bf14 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -229,7 +229,7 @@ def analyze(
     # Functional ANOVA decomposition
     Si, hdmr = _fanova(b_m, hdmr, Si, Y, bootstrap, max_iter, l2_penalty, alpha)
     # HDMR finalize
-    Si = _finalize(hdmr, Si, alpha, return_emulator)
+    Si = _finalize(hdmr, Si, alpha, return_emulator, X)
     # Print results to console
     if print_to_console:
         _print(Si)
@@ -623,7 +623,7 @@ def _core_params(
     return (hdmr, Si)
 
 
-def _basis_matrix(X, hdmr):
+def _basis_matrix(X, hdmr, X_fit=None):
     """The basis matrix represents the foundation of the component functions.
     It is constructed using orthonormal polynomials for each input variable,
     ensuring that it captures the data optimally. The component functions are
@@ -635,19 +635,23 @@ def _basis_matrix(X, hdmr):
         Model input matrix
     hdmr : namedtuple
         Core parameters of hdmr expansion
+    X_fit : numpy.array, optional
+        Model inputs that define the basis (default `X`)
 
     Returns
     -------
     b_m : numpy.array
         Basis matrix
     """
+    if X_fit is None:
+        X_fit = X
+
     # Compute normalized X-values
-    X_n = (X - np.tile(X.min(0), (X.shape[0], 1))) / np.tile(
-        (X.max(0)) - X.min(0), (X.shape[0], 1)
-    )
+    X_min, X_range = X_fit.min(0), X_fit.max(0) - X_fit.min(0)
+    X_n = (X - X_min) / X_range
 
     # Compute Orthonormal Polynomial Coefficients
-    coeff = _orth_poly_coeff(X_n, hdmr)
+    coeff = _orth_poly_coeff((X_fit - X_min) / X_range, hdmr)
 
     # Initialize Basis Matrix
     b_m = np.zeros((X.shape[0], hdmr.a_tnt))
@@ -1387,7 +1391,7 @@ def _f_test(Y_idx, Y_e, alpha, hdmr):
     return result
 
 
-def _finalize(hdmr, Si, alpha, return_emulator):
+def _finalize(hdmr, Si, alpha, return_emulator, X):
     """Final processing of sensivity analysis. Calculates confidence interval
     using statistical analysis.
 
@@ -1401,6 +1405,8 @@ def _finalize(hdmr, Si, alpha, return_emulator):
         Significance level
     return_emulator : bool
         Whether to attach emulator to the Si ResultDict
+    X : numpy.array
+        Model inputs, kept for the emulator
 
     Returns
     -------
@@ -1451,6 +1457,7 @@ def _finalize(hdmr, Si, alpha, return_emulator):
     # Bind emulator method to the ResultDict
     if return_emulator:
         Si["hdmr"] = hdmr
+        Si["X"] = X
         Si.emulate = MethodType(emulate, Si)
 
     # Bind Pandas Dataframe conversion to the ResultDict
@@ -1490,7 +1497,7 @@ def emulate(self, X):
         Emulated output
     """
     # Calculate HDMR Basis Matrix
-    b_m = _basis_matrix(X, self["hdmr"])
+    b_m = _basis_matrix(X, self["hdmr"], self["X"])
 
     # Get component functions
     Y_em = _comp_func(b_m, self["hdmr"], emulator=True)
-- 
2.43.0


From 0e5296f2abb63a65b9eecaed3cebf86415ff8775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 46/63] fix: printing hdmr results keeps the sums in the result
 and the total index in its column

---
 src/SALib/analyze/enhanced_hdmr.py | 6 +-----
 src/SALib/analyze/hdmr.py          | 4 ----
 2 files changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 749bf14..9aadccc 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1507,7 +1507,7 @@ def emulate(self, X):
 
 def _print(Si):
     nc_t = len(Si["Sa"])
-    d = np.isnan(Si["ST"]).sum()
+    d = (~np.isnan(Si["ST"])).sum()
     print("\n")
     cols = "Term    \t      Sa            Sb             S             ST         Significancy "  # noqa: E501
     print(cols)
@@ -1564,10 +1564,6 @@ def _print(Si):
         )
     )
 
-    keys = ("Sa_sum", "Sb_sum", "S_sum", "Sa_sum_conf", "Sb_sum_conf", "S_sum_conf")
-    for k in keys:
-        Si.pop(k, None)
-
 
 def cli_parse(parser):
     parser.add_argument(
diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index 993502e..8cc6539 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -998,10 +998,6 @@ def _print(Si, d):
         )
     )
 
-    keys = ("Sa_sum", "Sb_sum", "S_sum", "Sa_sum_conf", "Sb_sum_conf", "S_sum_conf")
-    for k in keys:
-        Si.pop(k, None)
-
     return Si
 
 
-- 
2.43.0


From 95bd08918702fa0873108a413bb19bed53731e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 47/63] fix: sobol sampler warns about N that is not a power of
 two when points are skipped

---
 src/SALib/sample/sobol.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/SALib/sample/sobol.py b/src/SALib/sample/sobol.py
index 2aa79b0..1dbf531 100644
--- a/src/SALib/sample/sobol.py
+++ b/src/SALib/sample/sobol.py
@@ -128,6 +128,14 @@ def sample(
             )
             warnings.warn(msg, stacklevel=2)
 
+        # scipy checks `N` only when no points are skipped
+        if N & (N - 1) != 0:
+            msg = f"""
+            Convergence properties of the Sobol' sequence is only valid if
+            `N` ({N}) is equal to `2^n`.
+            """
+            warnings.warn(msg, stacklevel=2)
+
         qrng.fast_forward(M)
     elif skip_values < 0 or not isinstance(skip_values, int):
         raise ValueError("`skip_values` must be a positive integer.")
-- 
2.43.0


From a40f55b422546e5940591b4bf7bcd10039d6e420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 48/63] fix: reject a groups list whose length differs from
 names

---
 src/SALib/util/util_funcs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SALib/util/util_funcs.py b/src/SALib/util/util_funcs.py
index 1c924af..fcdbf88 100644
--- a/src/SALib/util/util_funcs.py
+++ b/src/SALib/util/util_funcs.py
@@ -155,6 +155,11 @@ def _check_groups(problem):
     if groups == problem["names"]:
         return False
 
+    if len(groups) != len(problem["names"]):
+        raise ValueError(
+            "Number of entries in 'groups' should be the same as in 'names'"
+        )
+
     if len(set(groups)) == 1:
         return False
 
-- 
2.43.0


From 169b334394dc5e6a83c295477605960cc7a4694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 49/63] fix: latin sampler rejects a groups list whose length
 differs from names

---
 src/SALib/sample/latin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SALib/sample/latin.py b/src/SALib/sample/latin.py
index a818348..14bc0f9 100644
--- a/src/SALib/sample/latin.py
+++ b/src/SALib/sample/latin.py
@@ -49,6 +49,10 @@ def sample(problem, N, seed: Optional[Union[int, np.random.Generator, None]] = N
 
     groups = problem.get("groups")
     if groups:
+        if len(groups) != problem["num_vars"]:
+            raise ValueError(
+                "Number of entries in 'groups' should be the same as in 'names'"
+            )
         num_groups = len(set(groups))
         G, group_names = compute_groups_matrix(groups)
     else:
-- 
2.43.0


From deb61ae5cc5be089727b97909d0fddc9a303eac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 50/63] fix: rbd_fast rejects X and Y of different lengths

---
 src/SALib/analyze/rbd_fast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SALib/analyze/rbd_fast.py b/src/SALib/analyze/rbd_fast.py
index e7e622a..698c3b2 100644
--- a/src/SALib/analyze/rbd_fast.py
+++ b/src/SALib/analyze/rbd_fast.py
@@ -88,6 +88,9 @@ def analyze(
     D = problem["num_vars"]
     N = Y.size
 
+    if X.shape[0] != N:
+        raise RuntimeError("Input X and output Y must have the same number of rows")
+
     if not 0 < conf_level < 1:
         raise RuntimeError("Confidence level must be between 0-1.")
 
-- 
2.43.0


From d45babb181d96fbede6c4cd3e84595d475b66734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 51/63] fix: dgsm rejects empty outputs and X and Y of
 different lengths

---
 src/SALib/analyze/dgsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/dgsm.py b/src/SALib/analyze/dgsm.py
index f6ad7c9..012b9e9 100644
--- a/src/SALib/analyze/dgsm.py
+++ b/src/SALib/analyze/dgsm.py
@@ -61,7 +61,7 @@ def analyze(
     D = problem["num_vars"]
     Y_size = Y.size
 
-    if Y_size % (D + 1) == 0:
+    if Y_size > 0 and Y_size % (D + 1) == 0 and X.shape[0] == Y_size:
         N = int(Y_size / (D + 1))
     else:
         raise RuntimeError("Incorrect number of samples in model output file.")
-- 
2.43.0


From 88395caf271f8aa7612aad16adb9dc6ac3cfb984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 52/63] fix: fast analysis rejects samples of N <= 4M^2 as the
 sampler does

---
 src/SALib/analyze/fast.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SALib/analyze/fast.py b/src/SALib/analyze/fast.py
index 74b0f2a..efd2b55 100644
--- a/src/SALib/analyze/fast.py
+++ b/src/SALib/analyze/fast.py
@@ -79,6 +79,11 @@ def analyze(
         """
         raise ValueError(msg)
 
+    if N <= 4 * M**2:
+        raise ValueError(
+            "Sample size N > 4M^2 is required for the eFAST method. M=4 by default."
+        )
+
     if not 0 < conf_level < 1:
         raise RuntimeError("Confidence level must be between 0-1.")
 
-- 
2.43.0


From 76cc3dbebb7980745d4c975eb9497b279aa52cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 53/63] fix: enhanced_hdmr accepts max_iter from 1 to 1000 as
 documented

---
 src/SALib/analyze/enhanced_hdmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 9aadccc..fd1db42 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -339,8 +339,8 @@ def _check_args(
     if extended_base:
         max_iter = None
     else:
-        if max_iter not in np.arange(100, 1000):
-            raise ValueError("'max_iter' should be between 100 and 1000")
+        if max_iter not in np.arange(1, 1001):
+            raise ValueError("'max_iter' should be between 1 and 1000")
 
     if l2_penalty < 0.0 or l2_penalty > 10:
         raise ValueError("'l2_penalty' should be in between 0 and 10")
-- 
2.43.0


From 86b10af98f106b69de299048a3fea2e5a09d9149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 54/63] fix: bar chart of fractional factorial results without
 second-order effects

---
 src/SALib/util/results.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/SALib/util/results.py b/src/SALib/util/results.py
index 838cdb2..cad7cc3 100644
--- a/src/SALib/util/results.py
+++ b/src/SALib/util/results.py
@@ -1,3 +1,4 @@
+import numpy as np
 import pandas as pd  # type: ignore
 from SALib.plotting.bar import plot as barplot
 
@@ -25,11 +26,14 @@ class ResultDict(dict):
         if isinstance(Si_df, (list, tuple)):
             import matplotlib.pyplot as plt  # type: ignore
 
+            # Frames for effects that were not computed are `None`
+            Si_df = [f for f in Si_df if f is not None]
+
             if ax is None:
                 fig, ax = plt.subplots(1, len(Si_df))
 
-            for idx, f in enumerate(Si_df):
-                barplot(f, ax=ax[idx])
+            for f, f_ax in zip(Si_df, np.atleast_1d(ax)):
+                barplot(f, ax=f_ax)
 
             axes = ax
         else:
-- 
2.43.0


From 8ee1c977f162eebbf333b92f86ae810bb4656164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 55/63] fix: heatmap of results held in lists, and labels of
 the rows and columns it shows

---
 src/SALib/plotting/heatmap.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/SALib/plotting/heatmap.py b/src/SALib/plotting/heatmap.py
index 702c1cc..377c2db 100644
--- a/src/SALib/plotting/heatmap.py
+++ b/src/SALib/plotting/heatmap.py
@@ -56,8 +56,12 @@ def heatmap(sp: Dict, metric: str, index: str, title: str = None, ax=None):
     else:
         met_data = sp.analysis
 
-    si_shape = met_data[index[0]].shape
-    s_data = np.vstack([met_data[k] for k in index if met_data[k].shape == si_shape])
+    # Show only the values laid out like the first one
+    # e.g., cannot easily show second-order values at the moment
+    si_shape = np.shape(met_data[index[0]])
+    index = [k for k in index if np.shape(met_data[k]) == si_shape]
+    index = [k for k in index if np.asarray(met_data[k]).dtype.kind in "iuf"]
+    s_data = np.vstack([met_data[k] for k in index])
 
     ax.imshow(s_data)
     fig.colorbar(ax.images[0], ax=ax, shrink=0.9)
@@ -70,15 +74,17 @@ def heatmap(sp: Dict, metric: str, index: str, title: str = None, ax=None):
     if isinstance(metric, str):
         metric = [metric]
 
-    disp_names, _ = extract_group_names(sp)
+    disp_names = met_data.get("names", met_data.get("Term"))
+    if disp_names is None:
+        disp_names, _ = extract_group_names(sp)
+        if len(disp_names) != s_data.shape[1]:
+            # analysis does not consider groups
+            disp_names = sp["names"]
 
     ax.xaxis.set_ticks(range(0, len(disp_names)))
     ax.xaxis.set_ticklabels(disp_names, rotation=90)
 
-    # Account for indices that may have been filtered out
-    # e.g., cannot easily show second-order values at the moment
-    disp_idx = s_data.shape[0]
-    ax.yaxis.set_ticks(range(0, len(index[0:disp_idx])))
-    ax.yaxis.set_ticklabels(index[0:disp_idx])
+    ax.yaxis.set_ticks(range(0, len(index)))
+    ax.yaxis.set_ticklabels(index)
 
     return ax
-- 
2.43.0


From e039d80a67a62b607f023dae59bb2bc8913a9158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 56/63] fix: Morris covariance plot of groups shows the
 confidence interval

---
 src/SALib/plotting/morris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/plotting/morris.py b/src/SALib/plotting/morris.py
index 42c715f..c48f196 100644
--- a/src/SALib/plotting/morris.py
+++ b/src/SALib/plotting/morris.py
@@ -71,8 +71,8 @@ def covariance_plot(ax, Si, opts=None, unit=""):
     if opts is None:
         opts = {}
 
-    if Si["sigma"] is not None:
-        # sigma is not present if using morris groups
+    if Si["sigma"] is not None and not np.any(np.isnan(Si["sigma"])):
+        # sigma is not available (NaN) if using morris groups
         y = Si["sigma"]
         out = ax.scatter(Si["mu_star"], y, c="k", marker="o", **opts)
         ax.set_ylabel(r"$\sigma$")
-- 
2.43.0


From 976637fe61f56b02c8d0e6c25703cd12a8063d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 57/63] fix: sample histograms for any number of parameters

---
 src/SALib/plotting/morris.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/SALib/plotting/morris.py b/src/SALib/plotting/morris.py
index c48f196..34253e5 100644
--- a/src/SALib/plotting/morris.py
+++ b/src/SALib/plotting/morris.py
@@ -121,15 +121,13 @@ def sample_histograms(fig, input_sample, problem, opts=None):
     num_vars = problem["num_vars"]
     names = problem["names"]
 
-    framing = 101 + (num_vars * 10)
-
-    # Find number of levels
-    num_levels = len(set(input_sample[:, 1]))
-
     out = []
 
     for variable in range(num_vars):
-        ax = fig.add_subplot(framing + variable)
+        # Find number of levels
+        num_levels = len(set(input_sample[:, variable]))
+
+        ax = fig.add_subplot(1, num_vars, variable + 1)
         out.append(
             ax.hist(
                 input_sample[:, variable],
-- 
2.43.0


From 514e23d77c5a606257d3f58c57869783252ccf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 58/63] fix: hdmr plot for any number of bootstrap trials

---
 src/SALib/plotting/hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/plotting/hdmr.py b/src/SALib/plotting/hdmr.py
index 57749a4..20abfd6 100644
--- a/src/SALib/plotting/hdmr.py
+++ b/src/SALib/plotting/hdmr.py
@@ -46,7 +46,7 @@ def plot(Si):
     start = max(0, K - 10)
     for i in range(start, K):
         # Only showing the last 10
-        if (i % (row * col) == 0) or (i == 0):
+        if i == start:
             fig = plt.figure(frameon=False)
             fig.suptitle("Showing last 10 Bootstrap Trials")
             it = 1
-- 
2.43.0


From c631bf22ff46d691177fe992d6ac7a4f03692935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 59/63] fix: bar charts of several outputs for methods with
 their own plot

---
 src/SALib/util/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 1b8589b..a4182a8 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -511,7 +511,9 @@ class ProblemSpec(dict):
             num_rows, num_cols, sharey=True, figsize=(p_width, p_height)
         )
         for res, ax in zip(self._analysis, axes):
-            self._analysis[res].plot(ax=ax, **kwargs)
+            # Use the basic bar chart where a method overrides plotting
+            Si = self._analysis[res]
+            getattr(Si, "_plot", Si.plot)(ax=ax, **kwargs)
 
             try:
                 ax[0].set_title(res)
-- 
2.43.0


From d23585063dce5d8c17c03c800b27aab95ce6802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 60/63] fix: reject outputs that are not one-dimensional in
 fast, rbd_fast and delta

---
 src/SALib/analyze/delta.py    | 2 ++
 src/SALib/analyze/fast.py     | 3 +++
 src/SALib/analyze/rbd_fast.py | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/src/SALib/analyze/delta.py b/src/SALib/analyze/delta.py
index 358218c..29cedb5 100644
--- a/src/SALib/analyze/delta.py
+++ b/src/SALib/analyze/delta.py
@@ -166,6 +166,8 @@ def analyze(
     warnings.formatwarning = custom_warning_formatter
     warnings.simplefilter("once")
 
+    if Y.ndim != 1:
+        raise ValueError("Model output Y must be a one-dimensional array")
     if X.shape[0] != Y.shape[0]:
         raise RuntimeError("Input X and output Y must have the same number of rows")
     if not 0 < conf_level < 1:
diff --git a/src/SALib/analyze/fast.py b/src/SALib/analyze/fast.py
index efd2b55..9da129a 100644
--- a/src/SALib/analyze/fast.py
+++ b/src/SALib/analyze/fast.py
@@ -70,6 +70,9 @@ def analyze(
 
     D = problem["num_vars"]
 
+    if Y.ndim != 1:
+        raise ValueError("Model output Y must be a one-dimensional array")
+
     if Y.size % (D) == 0:
         N = int(Y.size / D)
     else:
diff --git a/src/SALib/analyze/rbd_fast.py b/src/SALib/analyze/rbd_fast.py
index 698c3b2..b2942ff 100644
--- a/src/SALib/analyze/rbd_fast.py
+++ b/src/SALib/analyze/rbd_fast.py
@@ -88,6 +88,9 @@ def analyze(
     D = problem["num_vars"]
     N = Y.size
 
+    if Y.ndim != 1:
+        raise ValueError("Model output Y must be a one-dimensional array")
+
     if X.shape[0] != N:
         raise RuntimeError("Input X and output Y must have the same number of rows")
 
-- 
2.43.0


From ab234e1e1530a38b6a61a27c8a7b61b3178f7123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 61/63] fix: analyze a single output held as a one-column
 matrix

---
 src/SALib/util/problem.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index a4182a8..2955ad9 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -317,6 +317,10 @@ class ProblemSpec(dict):
 
         return self
 
+    def _first_output(self):
+        """Results of a single output, whether held as a vector or a column."""
+        return self._results if self._results.ndim == 1 else self._results[:, 0]
+
     def analyze(self, func, *args, **kwargs):
         """Analyze sampled results using given function.
 
@@ -378,7 +382,7 @@ class ProblemSpec(dict):
                 analysis[out] = func(self, Y=self._results[:, i])
             self._analysis = analysis
         else:
-            self._analysis = func(self, Y=self._results)
+            self._analysis = func(self, Y=self._first_output())
 
         return self
 
@@ -434,7 +438,7 @@ class ProblemSpec(dict):
                 f" for 1 output."
             )
 
-            res = func(self, Y=self._results)
+            res = func(self, Y=self._first_output())
         else:
             max_procs = cpu_count()
             if nprocs is None:
-- 
2.43.0


From a37786386f78c8a60668b00c3a30a465d205e4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 62/63] fix: document the default number of resamples of dgsm

---
 src/SALib/analyze/dgsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/dgsm.py b/src/SALib/analyze/dgsm.py
index 012b9e9..b694281 100644
--- a/src/SALib/analyze/dgsm.py
+++ b/src/SALib/analyze/dgsm.py
@@ -39,7 +39,7 @@ def analyze(
         The NumPy array containing the model outputs
     num_resamples : int
         The number of resamples used to compute the confidence
-        intervals (default 1000)
+        intervals (default 100)
     conf_level : float
         The confidence interval level (default 0.95)
     print_to_console : bool
-- 
2.43.0


From 5f5a282e7b422ba0bd2c69236b5a0440c8f5e523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 63/63] fix: pass positional arguments on to an analysis

---
 src/SALib/util/problem.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 2955ad9..c3e0b84 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -317,6 +317,19 @@ class ProblemSpec(dict):
 
         return self
 
+    def _wrap_analysis(self, func, *args, **kwargs):
+        # Create partial function of the model output alone
+        inputs = {}
+        if "X" in func.__code__.co_varnames:
+            # enforce passing of X if expected
+            inputs["X"] = self._samples
+
+        if len(args) == 0:
+            return partial(func, self, **inputs, **kwargs)
+
+        # Additional arguments follow the problem specification, X and Y
+        return lambda Y: func(self, *inputs.values(), Y, *args, **kwargs)
+
     def _first_output(self):
         """Results of a single output, whether held as a vector or a column."""
         return self._results if self._results.ndim == 1 else self._results[:, 0]
@@ -361,11 +374,7 @@ class ProblemSpec(dict):
         if self._results is None:
             raise RuntimeError("Model not yet evaluated")
 
-        if "X" in func.__code__.co_varnames:
-            # enforce passing of X if expected
-            func = partial(func, *args, X=self._samples, **kwargs)
-        else:
-            func = partial(func, *args, **kwargs)
+        func = self._wrap_analysis(func, *args, **kwargs)
 
         out_cols = self.get("outputs", None)
         if out_cols is None:
@@ -379,10 +388,10 @@ class ProblemSpec(dict):
             # Attach only once every output has been analyzed
             analysis = {}
             for i, out in enumerate(self["outputs"]):
-                analysis[out] = func(self, Y=self._results[:, i])
+                analysis[out] = func(Y=self._results[:, i])
             self._analysis = analysis
         else:
-            self._analysis = func(self, Y=self._first_output())
+            self._analysis = func(Y=self._first_output())
 
         return self
 
@@ -415,11 +424,7 @@ class ProblemSpec(dict):
         if self._results is None:
             raise RuntimeError("Model not yet evaluated")
 
-        if "X" in func.__code__.co_varnames:
-            # enforce passing of X if expected
-            func = partial(func, *args, X=self._samples, **kwargs)
-        else:
-            func = partial(func, *args, **kwargs)
+        func = self._wrap_analysis(func, *args, **kwargs)
 
         out_cols = self.get("outputs", None)
         if out_cols is None:
@@ -438,7 +443,7 @@ class ProblemSpec(dict):
                 f" for 1 output."
             )
 
-            res = func(self, Y=self._first_output())
+            res = func(Y=self._first_output())
         else:
             max_procs = cpu_count()
             if nprocs is None:
@@ -449,7 +454,7 @@ class ProblemSpec(dict):
             if ptqdm_available:
                 # Display progress bar if available
                 res = p_imap(
-                    lambda y: func(self, Y=y),
+                    lambda y: func(Y=y),
                     [self._results[:, i] for i in range(Yn)],
                     num_cpus=nprocs,
                 )
@@ -457,7 +462,7 @@ class ProblemSpec(dict):
                 with Pool(nprocs) as pool:
                     res = list(
                         pool.imap(
-                            lambda y: func(self, Y=y),
+                            lambda y: func(Y=y),
                             [self._results[:, i] for i in range(Yn)],
                         )
                     )
-- 
2.43.0

