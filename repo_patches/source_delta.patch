From 3646eb96bdbe12010d93ec8289064c9f7437d294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 01/50] fix: sort a copy of the sample instead of the caller's
 data

---
 .../statistics/goodness_of_fit/exponent.py        | 15 +++++++--------
 .../goodness_of_fit/graph_goodness_of_fit.py      |  4 ++--
 .../statistics/goodness_of_fit/normal.py          |  6 ++----
 3 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 7eb11a6..ac208a6 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -459,7 +459,7 @@ class EpsteinExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         x = np.concatenate(([0], rvs))
         d = (np.arange(n, 0, -1)) * (x[1 : n + 1] - x[0:n])
         eps = 2 * n * (np.log(np.sum(d) / n) - (np.sum(np.log(d))) / n) / (1 + (n + 1) / (6 * n))
@@ -509,8 +509,7 @@ class FroziniExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
-        rvs = np.array(rvs)
+        rvs = np.sort(rvs)
         y = np.mean(rvs)
         froz = (1 / np.sqrt(n)) * np.sum(
             np.abs(1 - np.exp(-rvs / y) - (np.arange(1, n + 1) - 0.5) / n)
@@ -820,7 +819,7 @@ class KimberMichaelExponentialityGofStatistic(AbstractExponentialityGofStatistic
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         y = np.mean(rvs)
         s = (2 / np.pi) * np.arcsin(np.sqrt(1 - np.exp(-(rvs / y))))
         r = (2 / np.pi) * np.arcsin(np.sqrt((np.arange(1, n + 1) - 0.5) / n))
@@ -871,7 +870,7 @@ class KocharExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         u = np.array([(i + 1) / (n + 1) for i in range(n)])
         j = 2 * (1 - u) * (1 - np.log(1 - u)) - 1
         kc = np.sqrt(108 * n / 17) * (np.sum(j * rvs)) / np.sum(rvs)
@@ -922,7 +921,7 @@ class LorenzExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         lz = sum(rvs[: int(n * p)]) / sum(rvs)
 
         return lz
@@ -1066,7 +1065,7 @@ class ShapiroWilkExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         y = np.mean(rvs)
         sw = n * (y - rvs[0]) ** 2 / ((n - 1) * np.sum((rvs - y) ** 2))
 
@@ -1285,7 +1284,7 @@ class HegazyGreen2ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         b = -np.log(1 - np.arange(1, n + 1) / (n + 1))
         hg = (n ** (-1)) * np.sum((rvs - b) ** 2)
 
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index e3ceff6..f9dfc74 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -188,7 +188,7 @@ class GraphCliqueNumberTestStatistic(AbstractGraphTestStatistic):
         :return: size of the maximum clique.
         """
         dist = self._compute_dist(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
 
         right_border = 0
         clique_number = 0
@@ -229,7 +229,7 @@ class GraphIndependenceNumberTestStatistic(AbstractGraphTestStatistic):
             return 0
 
         dist = self._compute_dist(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
 
         stat = 1
         last_chosen_position = rvs[0]
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 4779330..2ccce6d 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -839,8 +839,7 @@ class Hosking3NormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(x)
 
         if n > 3:
-            x_tmp = x[:n]
-            x_tmp.sort()
+            x_tmp = np.sort(x)
             l22 = 0.0
             l32 = 0.0
             l42 = 0.0
@@ -907,8 +906,7 @@ class Hosking4NormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(x)
 
         if n > 3:
-            x_tmp = x[:n]
-            x_tmp.sort()
+            x_tmp = np.sort(x)
             l23 = 0.0
             l33 = 0.0
             l43 = 0.0
-- 
2.43.0


From 6683f635a8d774bbbd782b34552b6970fd5e73d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 02/50] fix: accept array samples in the graph independence
 number statistic

---
 .../statistics/goodness_of_fit/graph_goodness_of_fit.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index f9dfc74..9e1cde8 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -225,7 +225,7 @@ class GraphIndependenceNumberTestStatistic(AbstractGraphTestStatistic):
         :param rvs: array of observed data samples.
         :return: size of the maximum independent set.
         """
-        if not rvs:
+        if len(rvs) == 0:
             return 0
 
         dist = self._compute_dist(rvs)
-- 
2.43.0


From da84382b6bf97d896a03f6533f37040b5d43de56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 03/50] fix: initialise the hypothesis parameters of the
 Ryan-Joiner statistic

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 2ccce6d..61088e0 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -554,7 +554,7 @@ class LooneyGulledgeNormalityGofStatistic(AbstractNormalityGofStatistic):
 class RyanJoinerNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
     def __init__(self, weighted=False, cte_alpha="3/8"):
-        super(AbstractNormalityGofStatistic).__init__()
+        super().__init__()
         self.weighted = weighted
         self.cte_alpha = cte_alpha
 
-- 
2.43.0


From daae1d02c3a764ed2babf4d76d2654109e28c809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 04/50] fix: Anderson-Darling Weibull statistic passed an
 unknown argument

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index dca4572..933149a 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -262,7 +262,7 @@ class AndersonDarlingWeibullGofStatistic(AbstractWeibullGofStatistic, ADStatisti
         logcdf = distributions.gumbel_l.logcdf(w)
         logsf = distributions.gumbel_l.logsf(w)
 
-        return super().do_execute_statistic(rvs, log_cdf=logcdf, log_sf=logsf, w=w)
+        return super().do_execute_statistic(rvs, log_cdf=logcdf, log_sf=logsf)
 
 
 class KolmogorovSmirnovWeibullGofStatistic(AbstractWeibullGofStatistic, KSStatistic):
-- 
2.43.0


From 757d39912b919b43acdfd0a7d394956982bfba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 05/50] fix: Laplace transform Weibull statistics selected no
 transform type

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index 933149a..a8f4e08 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -1348,7 +1348,7 @@ class LaplaceTransform2WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
         :param a: shift parameter.
         :return: LT2 test statistic value.
         """
-        return super().execute_statistic(rvs, m, a, self.code())
+        return super().execute_statistic(rvs, m, a, "LT2_WEIBULL")
 
 
 class LaplaceTransform3WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
@@ -1390,7 +1390,7 @@ class LaplaceTransform3WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
         :param a: shift parameter.
         :return: LT3 test statistic value.
         """
-        return super().execute_statistic(rvs, m, a, self.code())
+        return super().execute_statistic(rvs, m, a, "LT3_WEIBULL")
 
 
 # TODO: Check it. Throws exception on weibull test
-- 
2.43.0


From 80fbc834f74c08fec437e8a50f8a535188305099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 06/50] fix: accept list samples in the Cabana-Quiroz Weibull
 statistic

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index a8f4e08..b8a70a9 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -1439,6 +1439,7 @@ class CabanaQuirozWeibullGofStatistic(AbstractWeibullGofStatistic):
         v2 = 0.53
         v12 = 0.91
 
+        rvs = np.asarray(rvs)
         n = len(rvs)
 
         e1 = np.exp(-rvs * s1)
-- 
2.43.0


From daef1be404358067d645c31f385171b674f3d7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 07/50] fix: normality statistics returned None for samples of
 fewer than four observations

---
 .../statistics/goodness_of_fit/normal.py      | 44 +++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 61088e0..6a6a8be 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -814,6 +814,8 @@ class Hosking1NormalityGofStatistic(AbstractNormalityGofStatistic):
             stat_tl_mom = (tau3**2) / v_tau3 + (tau4 - mu_tau4) ** 2 / v_tau4
             return stat_tl_mom
 
+        raise ValueError("At least 4 observations are required.")
+
 
 class Hosking3NormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
@@ -869,6 +871,8 @@ class Hosking3NormalityGofStatistic(AbstractNormalityGofStatistic):
             stat_tl_mom2 = (tau32**2) / v_tau32 + (tau42 - mu_tau42) ** 2 / v_tau42
             return stat_tl_mom2
 
+        raise ValueError("At least 4 observations are required.")
+
     @staticmethod
     def pstarmod2(r, n, i):
         res = 0.0
@@ -936,6 +940,8 @@ class Hosking4NormalityGofStatistic(AbstractNormalityGofStatistic):
             stat_tl_mom3 = (tau33**2) / v_tau33 + (tau43 - mu_tau43) ** 2 / v_tau43
             return stat_tl_mom3
 
+        raise ValueError("At least 4 observations are required.")
+
     @staticmethod
     def pstarmod3(r, n, i):
         res = 0.0
@@ -982,6 +988,8 @@ class ZhangWuCNormalityGofStatistic(AbstractNormalityGofStatistic):
                 stat_zc += np.log((1.0 / phiz[i - 1] - 1.0) / ((n - 0.5) / (i - 0.75) - 1.0)) ** 2
             return stat_zc
 
+        raise ValueError("At least 4 observations are required.")
+
 
 class ZhangWuANormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
@@ -1020,6 +1028,8 @@ class ZhangWuANormalityGofStatistic(AbstractNormalityGofStatistic):
             stat_za = 10.0 * stat_za - 32.0
             return stat_za
 
+        raise ValueError("At least 4 observations are required.")
+
 
 class GlenLeemisBarrNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
@@ -1059,6 +1069,8 @@ class GlenLeemisBarrNormalityGofStatistic(AbstractNormalityGofStatistic):
                 )
             return -n - stat_ps / n
 
+        raise ValueError("At least 4 observations are required.")
+
 
 class DoornikHansenNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
@@ -1199,6 +1211,8 @@ class BontempsMeddahi1NormalityGofStatistic(AbstractNormalityGofStatistic):
             stat_bm34 = (tmp3**2 + tmp4**2) / n
             return stat_bm34
 
+        raise ValueError("At least 4 observations are required.")
+
 
 class BontempsMeddahi2NormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
@@ -1238,6 +1252,8 @@ class BontempsMeddahi2NormalityGofStatistic(AbstractNormalityGofStatistic):
             stat_bm36 = (tmp3**2 + tmp4**2 + tmp5**2 + tmp6**2) / n
             return stat_bm36
 
+        raise ValueError("At least 4 observations are required.")
+
 
 class BonettSeierNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
@@ -1283,6 +1299,8 @@ class BonettSeierNormalityGofStatistic(AbstractNormalityGofStatistic):
             stat_tw = math.sqrt(float(n + 2)) * (omega - 3.0) / 3.54
             return stat_tw
 
+        raise ValueError("At least 4 observations are required.")
+
 
 class MartinezIglewiczNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
@@ -1334,6 +1352,8 @@ class MartinezIglewiczNormalityGofStatistic(AbstractNormalityGofStatistic):
             stat_in = (term3 / (n - 1)) / sb2
             return stat_in
 
+        raise ValueError("At least 4 observations are required.")
+
 
 class CabanaCabana1NormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
@@ -1390,6 +1410,8 @@ class CabanaCabana1NormalityGofStatistic(AbstractNormalityGofStatistic):
             )
             return stat_tsl
 
+        raise ValueError("At least 4 observations are required.")
+
 
 class CabanaCabana2NormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
@@ -1499,6 +1521,8 @@ class CabanaCabana2NormalityGofStatistic(AbstractNormalityGofStatistic):
             )
             return stat_tkl
 
+        raise ValueError("At least 4 observations are required.")
+
 
 class ChenShapiroNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
@@ -1533,6 +1557,8 @@ class ChenShapiroNormalityGofStatistic(AbstractNormalityGofStatistic):
             stat_cs = np.sqrt(n) * (1.0 - stat_cs)
             return stat_cs
 
+        raise ValueError("At least 4 observations are required.")
+
 
 class ZhangQNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
@@ -1583,6 +1609,8 @@ class ZhangQNormalityGofStatistic(AbstractNormalityGofStatistic):
             stat_q = np.log(q1 / q2)
             return stat_q
 
+        raise ValueError("At least 4 observations are required.")
+
 
 class CoinNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
@@ -1657,6 +1685,8 @@ class CoinNormalityGofStatistic(AbstractNormalityGofStatistic):
             stat_beta32 = ((term1 * term2 - term3 * term4) / (term1 * term1 - term3 * term6)) ** 2
             return stat_beta32
 
+        raise ValueError("At least 4 observations are required.")
+
     @staticmethod
     def correct(i, n):
         c1 = [9.5, 28.7, 1.9, 0.0, -7.0, -6.2, -1.6]
@@ -1752,6 +1782,8 @@ class DagostinoNormalityGofStatistic(AbstractNormalityGofStatistic):
 
             return stat_da  # Here is the test statistic value
 
+        raise ValueError("At least 4 observations are required.")
+
 
 class ZhangQStarNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
@@ -1800,6 +1832,8 @@ class ZhangQStarNormalityGofStatistic(AbstractNormalityGofStatistic):
             q_star = np.log(q1_star / q2_star)
             return q_star
 
+        raise ValueError("At least 4 observations are required.")
+
 
 """
 class ZhangQQStarNormalityTest(AbstractNormalityTestStatistic):  # TODO: check for correctness
@@ -1889,6 +1923,8 @@ class SWRGNormalityGofStatistic(AbstractNormalityGofStatistic):
 
             return stat_wrg  # Here is the test statistic value
 
+        raise ValueError("At least 4 observations are required.")
+
 
 class GMGNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
@@ -1954,6 +1990,8 @@ class GMGNormalityGofStatistic(AbstractNormalityGofStatistic):
 
             return stat_rsj  # Here is the test statistic value
 
+        raise ValueError("At least 4 observations are required.")
+
 
 """ Title: Statistique de test de Brys-Hubert-Struyf MC-LR
 Ref. (book or article): Brys, G., Hubert, M. and Struyf, A. (2008), Goodness-of-fit tests based on
@@ -2015,6 +2053,8 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
             stat_tmclr = n * np.dot(vec, np.dot(inv_v, vec))
             return stat_tmclr  # Here is the test statistic value
 
+        raise ValueError("At least 4 observations are required.")
+
     # TODO: refactor
     # flake8: noqa: C901
     def mc_c_d(self, z, eps, iter_):
@@ -2361,6 +2401,8 @@ class SpiegelhalterNormalityGofStatistic(AbstractNormalityGofStatistic):
 
             return stat_sp  # Here is the test statistic value
 
+        raise ValueError("At least 4 observations are required.")
+
 
 class DesgagneLafayeNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
@@ -2420,6 +2462,8 @@ class DesgagneLafayeNormalityGofStatistic(AbstractNormalityGofStatistic):
 
             return rn  # Here is the test statistic value
 
+        raise ValueError("At least 4 observations are required.")
+
 
 class AbstractGraphNormalityGofStatistic(
     AbstractNormalityGofStatistic, AbstractGraphTestStatistic, ABC
-- 
2.43.0


From 9a8716b93297a8fe0d9e8de44b8990c6fd3105db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 08/50] fix: remove a debugging print from the BHS statistic

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 6a6a8be..c7f6f91 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -2170,7 +2170,6 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
         # and therefore there might be more than one observation in the `tolerance range`
         # between < and <=.
         while not is_found and (nr - nl + neq > n) and it < iter_[0]:
-            print(it)
             it += 1
             j = 0
             for i in range(1, h2 + 1):
-- 
2.43.0


From b450c14411512321685d90350d08f3dbe3c5660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 09/50] fix: warn instead of printing from the Coin statistic

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index c7f6f91..6292332 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -1,4 +1,5 @@
 import math
+import warnings
 from abc import ABC
 
 import numpy as np
@@ -1723,7 +1724,7 @@ class CoinNormalityGofStatistic(AbstractNormalityGofStatistic):
         if n <= 1:
             raise ValueError("n<=1")
         if n > 2000:
-            print("Values may be inaccurate because of the size of N")
+            warnings.warn("Values may be inaccurate because of the size of N", stacklevel=2)
 
         s[0] = b1
         if n == 2:
-- 
2.43.0


From a71ee12fda3188bd579f6cfa0cdc7d034f04cad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 10/50] fix: warn instead of printing when the BHS medcouple
 does not converge

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 6292332..dca8a05 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -2272,7 +2272,10 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
 
         converged = is_found or (nr - nl + neq <= n)
         if not converged:
-            print(f"maximal number of iterations ({iter_[0]} =? {it}) reached prematurely")
+            warnings.warn(
+                f"maximal number of iterations ({iter_[0]} =? {it}) reached prematurely",
+                stacklevel=2,
+            )
             # still:
             med_c = trial
 
-- 
2.43.0


From 0e567d13529549b26ebfe3d225a0779c93f66dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 11/50] fix: BHS reused one medcouple's results as the next
 one's iteration settings

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index dca8a05..9d6d60c 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -2034,11 +2034,11 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
                 x2 = x_sorted[(n // 2) + 1 :]
 
             eps = [2.220446e-16, 2.225074e-308]
-            iter_ = [1000, 0]
 
-            w1 = self.mc_c_d(x, eps, iter_)
-            w2 = self.mc_c_d(x1, eps, iter_)
-            w3 = self.mc_c_d(x2, eps, iter_)
+            # mc_c_d overwrites its iteration settings with results, so each call gets its own
+            w1 = self.mc_c_d(x, eps, [1000, 0])
+            w2 = self.mc_c_d(x1, eps, [1000, 0])
+            w3 = self.mc_c_d(x2, eps, [1000, 0])
 
             omega = [0.0, 0.198828, 0.198828]
             vec = [w1 - omega[0], -w2 - omega[1], w3 - omega[2]]
-- 
2.43.0


From 1fe2d14b0866f4b30743e4dc8eb782f81299721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 12/50] fix: truncated normal generator ignored mean and
 variance in its bounds

---
 src/pysatl_criterion/core/distributions/truncnormal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/core/distributions/truncnormal.py b/src/pysatl_criterion/core/distributions/truncnormal.py
index fc67c7c..f815f8d 100644
--- a/src/pysatl_criterion/core/distributions/truncnormal.py
+++ b/src/pysatl_criterion/core/distributions/truncnormal.py
@@ -47,4 +47,7 @@ def generate_truncnorm(size, mean=0, var=1, a=-10, b=10):
     >>> generate_truncnorm(5, mean=0, var=1, a=-2, b=2)
     array([...])
     """
-    return truncnorm.rvs(a=a, b=b, size=size, loc=mean, scale=np.sqrt(var))
+    scale = np.sqrt(var)
+    return truncnorm.rvs(
+        a=(a - mean) / scale, b=(b - mean) / scale, size=size, loc=mean, scale=scale
+    )
-- 
2.43.0


From cf3fdd36ed5631e3609c840ab3ce12bbf148358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 13/50] fix: Rice generator scaled the distance parameter by
 sigma

---
 src/pysatl_criterion/core/distributions/rice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/core/distributions/rice.py b/src/pysatl_criterion/core/distributions/rice.py
index ecd783a..f6b7a0a 100644
--- a/src/pysatl_criterion/core/distributions/rice.py
+++ b/src/pysatl_criterion/core/distributions/rice.py
@@ -43,4 +43,4 @@ def generate_rice(size, nu=0, sigma=1):
     >>> generate_rice(5, nu=2.0, sigma=1.0)
     array([...])
     """
-    return rice.rvs(nu, size=size, scale=sigma)
+    return rice.rvs(nu / sigma, size=size, scale=sigma)
-- 
2.43.0


From f4ee9dc38a60eecbb76c23e3a0ba4c85e5d40296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 14/50] fix: distribution-function statistics ignored the
 hypothesised parameters

---
 src/pysatl_criterion/statistics/goodness_of_fit/exponent.py | 2 +-
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index ac208a6..7b2f69b 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -155,7 +155,7 @@ class KolmogorovSmirnovExponentialityGofStatistic(AbstractExponentialityGofStati
         """
 
         rvs = np.sort(rvs)
-        cdf_vals = scipy_stats.expon.cdf(rvs)
+        cdf_vals = scipy_stats.expon.cdf(rvs, scale=1 / self.lam)
         return KSStatistic.do_execute_statistic(self, rvs, cdf_vals)
 
 
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 9d6d60c..b7457bf 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -89,7 +89,7 @@ class KolmogorovSmirnovNormalityGofStatistic(AbstractNormalityGofStatistic, KSSt
     @override
     def execute_statistic(self, rvs, **kwargs):
         rvs = np.sort(rvs)
-        cdf_vals = scipy_stats.norm.cdf(rvs)
+        cdf_vals = scipy_stats.norm.cdf(rvs, loc=self.mean, scale=np.sqrt(self.var))
         return KSStatistic.do_execute_statistic(self, rvs, cdf_vals)
 
 
@@ -221,7 +221,7 @@ class CramerVonMiseNormalityGofStatistic(AbstractNormalityGofStatistic, CrammerV
     @override
     def execute_statistic(self, rvs):
         sorted_rvs = np.sort(np.asarray(rvs))
-        cdf_vals = scipy_stats.norm.cdf(sorted_rvs)
+        cdf_vals = scipy_stats.norm.cdf(sorted_rvs, loc=self.mean, scale=np.sqrt(self.var))
 
         return CrammerVonMisesStatistic.do_execute_statistic(self, sorted_rvs, cdf_vals)
 
-- 
2.43.0


From bd6f018f9fe6bcbb1bd2b4765ad6fc64104e04e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 15/50] fix: gamma and beta hypotheses named parameters their
 generators ignore

---
 src/pysatl_criterion/statistics/goodness_of_fit/beta.py  | 2 +-
 src/pysatl_criterion/statistics/goodness_of_fit/gamma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/beta.py b/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
index 1c74a4d..6b13b79 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
@@ -35,7 +35,7 @@ class AbstractBetaGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def hypothesis(self) -> GoodnessOfFitHypothesis:
-        return GoodnessOfFitHypothesis({"alpha": self.alpha, "beta": self.beta})
+        return GoodnessOfFitHypothesis({"a": self.alpha, "b": self.beta})
 
     @staticmethod
     def _validate_rvs(rvs):
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
index a10aea4..0e57a64 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
@@ -57,7 +57,7 @@ class AbstractGammaGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def hypothesis(self) -> GoodnessOfFitHypothesis:
-        return GoodnessOfFitHypothesis({"alpha": self.alpha, "beta": self.beta})
+        return GoodnessOfFitHypothesis({"alfa": self.alpha, "beta": self.beta})
 
     @staticmethod
     @override
-- 
2.43.0


From e10aa51ffcad60e462d5442275f89b819eea83f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 16/50] fix: log-normal generator ignored the scale of the
 hypothesis

---
 src/pysatl_criterion/generator/generators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/generator/generators.py b/src/pysatl_criterion/generator/generators.py
index a8d6e07..9944e38 100644
--- a/src/pysatl_criterion/generator/generators.py
+++ b/src/pysatl_criterion/generator/generators.py
@@ -73,6 +73,8 @@ NormalGenerator
     Normal distribution generator.
 """
 
+import math
+
 from typing_extensions import override
 
 from pysatl_criterion import DistributionType
@@ -331,12 +333,14 @@ class LognormGenerator(AbstractRVSGenerator):
         Shape parameter.
     mu : float, default=0
         Mean parameter.
+    scale : float, optional
+        Scale parameter, exp(mu). Takes precedence over ``mu`` when given.
     """
 
-    def __init__(self, s=1, mu=0, **kwargs):
+    def __init__(self, s=1, mu=0, scale=None, **kwargs):
         super().__init__(**kwargs)
         self.s = s
-        self.mu = mu
+        self.mu = mu if scale is None else math.log(scale)
 
     @override
     def parameters(self) -> dict[str, float]:
-- 
2.43.0


From d0a88519a87249281d44bbda513ab6340d789fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 17/50] fix: log-normal descriptor named parameters its
 generator does not have

---
 src/pysatl_criterion/distribution/distributions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/distribution/distributions.py b/src/pysatl_criterion/distribution/distributions.py
index 3191b7f..09d20c6 100644
--- a/src/pysatl_criterion/distribution/distributions.py
+++ b/src/pysatl_criterion/distribution/distributions.py
@@ -265,12 +265,16 @@ class LogNormalDistributionDescriptor(DistributionDescriptor):
         """
         Return parameters for the log normal distribution.
 
-        :return: descriptors for logarithmic mean and variance.
+        :return: descriptors for the mean and standard deviation of the logarithm.
         """
         return [
-            DistributionParameterDescriptor("μ", "mean", "Logarithm of mean", 0),
+            DistributionParameterDescriptor("μ", "mu", "Mean of the logarithm", 0),
             DistributionParameterDescriptor(
-                "σ²", "var", "Logarithm of variance. σ² > 0", 1, PositiveNumberValidator()
+                "σ",
+                "s",
+                "Standard deviation of the logarithm. σ > 0",
+                1,
+                PositiveNumberValidator(),
             ),
         ]
 
-- 
2.43.0


From b0443a7fd40d594ba8c9d1b3372faa07a059a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 18/50] fix: default parameters outside the domain of their
 distribution

---
 src/pysatl_criterion/core/distributions/gamma.py    | 4 ++--
 src/pysatl_criterion/core/distributions/invgauss.py | 4 ++--
 src/pysatl_criterion/distribution/distributions.py  | 2 +-
 src/pysatl_criterion/generator/generators.py        | 8 ++++----
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pysatl_criterion/core/distributions/gamma.py b/src/pysatl_criterion/core/distributions/gamma.py
index 391c075..78d128e 100644
--- a/src/pysatl_criterion/core/distributions/gamma.py
+++ b/src/pysatl_criterion/core/distributions/gamma.py
@@ -1,7 +1,7 @@
 from scipy.stats import gamma
 
 
-def generate_gamma(size, alfa=0, beta=1):
+def generate_gamma(size, alfa=1, beta=1):
     """
     Generate random samples from the Gamma distribution.
 
@@ -18,7 +18,7 @@ def generate_gamma(size, alfa=0, beta=1):
         returns an array with the specified shape.
     alfa : float, optional
         Shape parameter (α) of the Gamma distribution.
-        Must be greater than 0. Default is 0.
+        Must be greater than 0. Default is 1.
     beta : float, optional
         Rate parameter (β) of the Gamma distribution.
         Must be greater than 0. Default is 1.
diff --git a/src/pysatl_criterion/core/distributions/invgauss.py b/src/pysatl_criterion/core/distributions/invgauss.py
index 6b4b2dd..8f84d77 100644
--- a/src/pysatl_criterion/core/distributions/invgauss.py
+++ b/src/pysatl_criterion/core/distributions/invgauss.py
@@ -1,7 +1,7 @@
 from scipy.stats import invgauss
 
 
-def generate_invgauss(size, mu=0, lam=1):
+def generate_invgauss(size, mu=1, lam=1):
     """
     Generate random samples from the inverse Gaussian (Wald) distribution.
 
@@ -18,7 +18,7 @@ def generate_invgauss(size, mu=0, lam=1):
         returns an array with the specified shape.
     mu : float, optional
         Shape parameter of the distribution. Must be greater than 0.
-        Default is 0.
+        Default is 1.
     lam : float, optional
         Scale parameter of the distribution. Must be greater than 0.
         Default is 1.
diff --git a/src/pysatl_criterion/distribution/distributions.py b/src/pysatl_criterion/distribution/distributions.py
index 09d20c6..aac17fe 100644
--- a/src/pysatl_criterion/distribution/distributions.py
+++ b/src/pysatl_criterion/distribution/distributions.py
@@ -416,7 +416,7 @@ class InvGaussDistributionDescriptor(DistributionDescriptor):
         :return: descriptors for mean and shape parameters.
         """
         return [
-            DistributionParameterDescriptor("μ", "mu", "Mean. μ > 0", 0, PositiveNumberValidator()),
+            DistributionParameterDescriptor("μ", "mu", "Mean. μ > 0", 1, PositiveNumberValidator()),
             DistributionParameterDescriptor(
                 "λ", "lam", "Shape. λ > 0", 1, PositiveNumberValidator()
             ),
diff --git a/src/pysatl_criterion/generator/generators.py b/src/pysatl_criterion/generator/generators.py
index 9944e38..41a386e 100644
--- a/src/pysatl_criterion/generator/generators.py
+++ b/src/pysatl_criterion/generator/generators.py
@@ -716,13 +716,13 @@ class InvGaussGenerator(AbstractRVSGenerator):
 
     Parameters
     ----------
-    mu : float, default=0
+    mu : float, default=1
         Mean parameter.
     lam : float, default=1
         Shape parameter.
     """
 
-    def __init__(self, mu=0, lam=1, **kwargs):
+    def __init__(self, mu=1, lam=1, **kwargs):
         super().__init__(**kwargs)
         self.mu = mu
         self.lam = lam
@@ -792,13 +792,13 @@ class GompertzGenerator(AbstractRVSGenerator):
 
     Parameters
     ----------
-    eta : float, default=0
+    eta : float, default=1
         Shape parameter.
     b : float, default=1
         Scale parameter.
     """
 
-    def __init__(self, eta=0, b=1, **kwargs):
+    def __init__(self, eta=1, b=1, **kwargs):
         super().__init__(**kwargs)
         self.eta = eta
         self.b = b
-- 
2.43.0


From b1287bb00a022f7a6fbbe341a077ece9f85b5822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 19/50] fix: inverse Gaussian generator scaled the documented
 mean

---
 src/pysatl_criterion/core/distributions/invgauss.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/core/distributions/invgauss.py b/src/pysatl_criterion/core/distributions/invgauss.py
index 8f84d77..c1d079e 100644
--- a/src/pysatl_criterion/core/distributions/invgauss.py
+++ b/src/pysatl_criterion/core/distributions/invgauss.py
@@ -8,7 +8,7 @@ def generate_invgauss(size, mu=1, lam=1):
     This function uses ``scipy.stats.invgauss.rvs`` to draw random values
     from an inverse Gaussian distribution. In SciPy, the distribution is
     parameterized by a shape parameter ``mu`` and a ``scale`` parameter.
-    Here, ``lam`` is passed as the scale.
+    Here, ``mu / lam`` is passed as the shape and ``lam`` as the scale.
 
     Parameters
     ----------
@@ -17,10 +17,10 @@ def generate_invgauss(size, mu=1, lam=1):
         returns a 1D array of length ``size``. If a tuple is provided,
         returns an array with the specified shape.
     mu : float, optional
-        Shape parameter of the distribution. Must be greater than 0.
+        Mean of the distribution. Must be greater than 0.
         Default is 1.
     lam : float, optional
-        Scale parameter of the distribution. Must be greater than 0.
+        Shape parameter of the distribution. Must be greater than 0.
         Default is 1.
 
     Returns
@@ -44,4 +44,4 @@ def generate_invgauss(size, mu=1, lam=1):
     >>> generate_invgauss(5, mu=1.0, lam=2.0)
     array([...])
     """
-    return invgauss.rvs(mu, size=size, scale=lam)
+    return invgauss.rvs(mu / lam, size=size, scale=lam)
-- 
2.43.0


From c4b52f034298b39a39cde145edb2e35f5fe5e20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 20/50] fix: Rice distance parameter was not validated

---
 src/pysatl_criterion/distribution/distributions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysatl_criterion/distribution/distributions.py b/src/pysatl_criterion/distribution/distributions.py
index aac17fe..011f331 100644
--- a/src/pysatl_criterion/distribution/distributions.py
+++ b/src/pysatl_criterion/distribution/distributions.py
@@ -654,6 +654,7 @@ class RiceDistributionDescriptor(DistributionDescriptor):
                 "Distance between the reference point and the center of the bivariate "
                 "distribution. v >= 0,",
                 0,
+                NonNegativeNumberValidator(),
             ),
             DistributionParameterDescriptor(
                 "σ", "sigma", "Scale. σ >= 0", 1, NonNegativeNumberValidator()
-- 
2.43.0


From 5b47de95f590d5a4d537133ce0ea86369ebb8720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 21/50] fix: Cramer-von Mises normality code did not name its
 family

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index b7457bf..d98f993 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -215,8 +215,7 @@ class CramerVonMiseNormalityGofStatistic(AbstractNormalityGofStatistic, CrammerV
     @override
     def code():
         short_code = CramerVonMiseNormalityGofStatistic.short_code()
-        base_code = super(AbstractNormalityGofStatistic, AbstractNormalityGofStatistic).code()
-        return f"{short_code}_{base_code}"
+        return f"{short_code}_{AbstractNormalityGofStatistic.code()}"
 
     @override
     def execute_statistic(self, rvs):
-- 
2.43.0


From ca4cf089a6f231c7ab7f6ed04bd34f0f3b69e74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 22/50] fix: listing criteria did not load the criterion
 classes

---
 src/pysatl_criterion/utils/statistic.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pysatl_criterion/utils/statistic.py b/src/pysatl_criterion/utils/statistic.py
index a093d06..6ef46d6 100644
--- a/src/pysatl_criterion/utils/statistic.py
+++ b/src/pysatl_criterion/utils/statistic.py
@@ -1,3 +1,4 @@
+import importlib
 import inspect
 from typing import Any
 
@@ -20,6 +21,7 @@ def get_available_criteria(distribution: DistributionType) -> list[str]:
     :return: list of short codes corresponding to all non-abstract subclasses of
     distribution.base_class.
     """
+    _load_criteria()
     return [
         cls.short_code()
         for cls in __get_all_subclasses(AbstractGoodnessOfFitStatistic)
@@ -27,6 +29,13 @@ def get_available_criteria(distribution: DistributionType) -> list[str]:
     ]
 
 
+def _load_criteria() -> None:
+    """
+    Import criterion classes so they are available through subclass discovery.
+    """
+    importlib.import_module("pysatl_criterion.statistics.goodness_of_fit")
+
+
 def __get_all_subclasses(cls: type[Any]) -> set[type[AbstractGoodnessOfFitStatistic]]:
     """
     Return all direct and indirect subclasses of a class.
-- 
2.43.0


From cfefeb51515e6b417e31fe243ad09a85cc6fd42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 23/50] fix: Holm, Sidak-Holm and Benjamini-Yekutieli adjusted
 invalid p-values

---
 src/pysatl_criterion/hypothesis_testing/multiple_testing/fdr.py | 1 +
 .../hypothesis_testing/multiple_testing/fwer.py                 | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/pysatl_criterion/hypothesis_testing/multiple_testing/fdr.py b/src/pysatl_criterion/hypothesis_testing/multiple_testing/fdr.py
index f2efa86..5062992 100644
--- a/src/pysatl_criterion/hypothesis_testing/multiple_testing/fdr.py
+++ b/src/pysatl_criterion/hypothesis_testing/multiple_testing/fdr.py
@@ -24,6 +24,7 @@ class BenjaminiYekutieli(AbstractMultipleTesting):
         :param p_values: list of raw p-values between 0 and 1.
         :return: list of adjusted p-values in the original order, bounded in [0, 1].
         """
+        cls._validate_p_values(p_values)
         n = len(p_values)
         if n == 0:
             return []
diff --git a/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py b/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py
index 051c182..eaa3cf4 100644
--- a/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py
+++ b/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py
@@ -87,6 +87,7 @@ class Holm(AbstractMultipleTesting):
         :param p_values: list of raw p-values between 0 and 1.
         :return: list of adjusted p-values in the original order, bounded in [0, 1].
         """
+        cls._validate_p_values(p_values)
         n = len(p_values)
         if n == 0:
             return []
@@ -118,6 +119,7 @@ class SidakHolm(AbstractMultipleTesting):
         :param p_values: list of raw p-values for hypothesis testing (must be in [0, 1]).
         :return: list of adjusted p-values, each in range [0, 1].
         """
+        cls._validate_p_values(p_values)
         n = len(p_values)
         if n == 0:
             return []
-- 
2.43.0


From 60186a44f71a78ae9e1ab0ff1c1b302bae2161c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 24/50] fix: critical values ignored how often a simulated
 value occurred

---
 .../calculator/critical_value_calculator.py          | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py b/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
index bc7ee5f..cb888b4 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
@@ -1,5 +1,4 @@
 import numpy as np
-import scipy.stats as scipy_stats
 from typing_extensions import override
 
 from pysatl_criterion.hypothesis_testing.critical_values.calculator.model import (
@@ -25,8 +24,7 @@ class LeftCriticalValueCalculator(CriticalValueCalculator[float]):
         :param significance_level: test significance level.
         :return: critical value at the lower-tail significance quantile.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
-        return float(np.quantile(ecdf.cdf.quantiles, q=significance_level))
+        return float(np.quantile(limit_distribution, q=significance_level))
 
 
 class RightCriticalValueCalculator(CriticalValueCalculator[float]):
@@ -47,8 +45,7 @@ class RightCriticalValueCalculator(CriticalValueCalculator[float]):
         :param significance_level: test significance level.
         :return: critical value at the upper-tail significance quantile.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
-        return float(np.quantile(ecdf.cdf.quantiles, q=1 - significance_level))
+        return float(np.quantile(limit_distribution, q=1 - significance_level))
 
 
 class TwoSidedCriticalValueCalculator(CriticalValueCalculator[tuple[float, float]]):
@@ -69,9 +66,8 @@ class TwoSidedCriticalValueCalculator(CriticalValueCalculator[tuple[float, float
         :param significance_level: test significance level split between both tails.
         :return: tuple of lower and upper critical values.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
         sl = significance_level / 2
-        left = float(np.quantile(ecdf.cdf.quantiles, q=sl))
-        right = float(np.quantile(ecdf.cdf.quantiles, q=1 - sl))
+        left = float(np.quantile(limit_distribution, q=sl))
+        right = float(np.quantile(limit_distribution, q=1 - sl))
 
         return left, right
-- 
2.43.0


From 46022e8c90dbeaf3638d4796c512be820f6586ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 25/50] fix: loading a critical value never cached it (the
 cache check asked the remote storage)

---
 .../hypothesis_testing/critical_values/loader/remote_loader.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
index ad8e0d1..5f8f774 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
@@ -38,7 +38,7 @@ class CriticalValueLoader:
             logging.error("Cannot load data: remote storage is not initialized.")
             return False
 
-        if self.__remote_storage.get_data_for_cv(query):
+        if self.__local_storage.get_data_for_cv(query):
             return True
 
         remote_data = self.__remote_storage.get_data_for_cv(query)
-- 
2.43.0


From f962859f3d6a02911517c19e884994e4089ac7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:18 +0000
Subject: [PATCH 26/50] fix: a failed bulk insert was reported as newly cached

---
 .../critical_values/loader/remote_loader.py              | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
index 5f8f774..cf93464 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
@@ -93,25 +93,26 @@ class CriticalValueLoader:
         )
 
         # 3. Bulk insert into local
+        newly_cached_count = 0
         try:
             self.__local_storage.insert_bulk_data(remote_models)
-            logger.info(f"Successfully cached {len(remote_models)} new distributions.")
+            newly_cached_count = len(remote_models)
+            logger.info(f"Successfully cached {newly_cached_count} new distributions.")
         except Exception as e:
             logger.error(f"Failed to save bulk data to local storage: {e}")
-            pass
 
         # 4. Calculate what's still missing (not found even on remote)
         found_codes = {m.criterion_code for m in remote_models}
         not_found = [c for c in missing_codes if c not in found_codes]
 
         logging.info(
-            f"Bulk load finished: {len(remote_models)} new, "
+            f"Bulk load finished: {newly_cached_count} new, "
             f"{len(already_cached)} skipped, {len(not_found)} failed."
         )
 
         return BulkLoadResult(
             requested_count=len(criterion_codes),
             already_cached_count=len(already_cached),
-            newly_cached_count=len(remote_models),
+            newly_cached_count=newly_cached_count,
             not_found_codes=not_found,
         )
-- 
2.43.0


From 6950a607a4559c67f808973ac2419af27a77c50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:18 +0000
Subject: [PATCH 27/50] fix: critical-value lookup ignored the accepted sample
 size error

---
 src/pysatl_criterion/persistence/sqlalchemy/datastorage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index 3fdd310..4d9c0fd 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -168,7 +168,10 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 select(LimitDistributionORM)
                 .where(
                     LimitDistributionORM.criterion_code == query.criterion_code,
-                    LimitDistributionORM.sample_size == query.sample_size,
+                    LimitDistributionORM.sample_size.between(
+                        query.sample_size - query.sample_size_error,
+                        query.sample_size + query.sample_size_error,
+                    ),
                 )
                 .order_by(desc(LimitDistributionORM.monte_carlo_count))
                 .limit(1)
-- 
2.43.0


From 1b5ebc5f036bae30f43f1e1af82fb8ff6ea90266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:18 +0000
Subject: [PATCH 28/50] fix: looking up or deleting a distribution stored by
 two experiments raised

---
 src/pysatl_criterion/persistence/sqlalchemy/datastorage.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index 4d9c0fd..a47be3c 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -86,7 +86,7 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 LimitDistributionORM.sample_size == query.sample_size,
                 LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
             )
-            result = session.execute(stmt).scalar_one_or_none()
+            result = session.execute(stmt).scalars().first()
             return result.to_model() if result else None
 
     def get_bulk_data(
@@ -148,10 +148,9 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 LimitDistributionORM.sample_size == query.sample_size,
                 LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
             )
-            obj = session.execute(stmt).scalar_one_or_none()
-            if obj:
+            for obj in session.execute(stmt).scalars().all():
                 session.delete(obj)
-                session.commit()
+            session.commit()
 
     def get_data_for_cv(self, query: CriticalValueQuery) -> LimitDistributionModel | None:
         """
-- 
2.43.0


From 2fa05ddc292c185da212edf10f8bd37dd4bdb877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:18 +0000
Subject: [PATCH 29/50] fix: the connection error (and the log) contained the
 database password

---
 src/pysatl_criterion/persistence/sqlalchemy/datastorage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index a47be3c..3ee199c 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -38,7 +38,7 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 pass
             Base.metadata.create_all(self.engine)
         except (OperationalError, Exception) as e:
-            raise ConnectionError(f"Database unavailable: {self.connection_string}") from e
+            raise ConnectionError(f"Database unavailable: {self.engine.url!r}") from e
 
     @staticmethod
     def create_safe(
-- 
2.43.0


From a21ec6384897ee2f2b65894732d4426276dbe338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 30/50] fix: stored data of an unknown element type was read as
 float64

---
 .../persistence/sqlalchemy/alchemy_decorator.py                | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py b/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
index 70676ab..58bb69f 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
@@ -69,6 +69,9 @@ class CompressedFloatArray(TypeDecorator):
         if version != self.VERSION:
             raise ValueError(f"Unsupported version: {version}")
 
+        if dtype_code not in (self.DTYPE_FLOAT32, self.DTYPE_FLOAT64):
+            raise ValueError(f"Unsupported element type: {dtype_code}")
+
         dtype = np.float32 if dtype_code == self.DTYPE_FLOAT32 else np.float64
 
         decompressed_bytes = self.decompressor.decompress(compressed)
-- 
2.43.0


From e4554f4b4ea9f6b239cbf988c9ee31d1feb04e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 31/50] fix: Hegazy-Green exponentiality statistics ignored the
 rate of the hypothesis

The ordered observations were compared with the scores of the standard
exponential law whatever lam was, so the decision depended on the unit
of the observations.
---
 src/pysatl_criterion/statistics/goodness_of_fit/exponent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 7b2f69b..823e814 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -717,7 +717,7 @@ class HegazyGreen1ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
         """
 
         n = len(rvs)
-        x = np.sort(rvs)
+        x = np.sort(rvs) * self.lam
         b = -np.log(1 - np.arange(1, n + 1) / (n + 1))
         hg = (n ** (-1)) * np.sum(np.abs(x - b))
 
@@ -1284,9 +1284,9 @@ class HegazyGreen2ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
         """
 
         n = len(rvs)
-        rvs = np.sort(rvs)
+        x = np.sort(rvs) * self.lam
         b = -np.log(1 - np.arange(1, n + 1) / (n + 1))
-        hg = (n ** (-1)) * np.sum((rvs - b) ** 2)
+        hg = (n ** (-1)) * np.sum((x - b) ** 2)
 
         return hg
 
-- 
2.43.0


From 7787d26b450a7cfac85c29f7d216897aaead83f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 32/50] fix: Kullback-Leibler statistic (Weibull) ignored the
 shape of the hypothesis

The logarithms of the observations were compared with the standard
extreme value law whatever k was.
---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index b8a70a9..0365a1f 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -1245,7 +1245,7 @@ class KullbackLeiblerWeibullGofStatistic(AbstractWeibullGofStatistic):
         n = len(rvs)
         m = n // 2 if m is None else m
 
-        log_rvs = np.log(np.sort(rvs))
+        log_rvs = self.k * np.log(np.sort(rvs))
 
         H_mn = np.mean(
             [
-- 
2.43.0


From 80fefe7030629e1531bce3c8383ffc786d13a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 33/50] fix: solve the Weibull likelihood equation for the
 shape

---
 .../maximum_likelihood/function_for_maximum_likelihood.py      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 03ce179..c1c06f1 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -159,9 +159,8 @@ def likelihood_function_weibull(dataArray):
 
     def g(k):
         xk = dataArray**k
-        C = np.log(np.mean(xk))
         B = np.sum(xk * np.log(dataArray)) / np.sum(xk)
-        return (1 - C) / k + A - B
+        return 1 / k + A - B
 
     if g(0.1) * g(10) > 0:
         return 0
-- 
2.43.0


From dda3376094f61c90d30c5b21d4adab78788ba7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 34/50] fix: import the likelihood functions from their package

---
 .../estimation/maximum_likelihood/maximum_likelihood.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
index 3362194..8579c7f 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
@@ -1,8 +1,9 @@
 import inspect
 
-import function_for_maximum_likelihood
 import numpy as np
 
+from pysatl_criterion.estimation.maximum_likelihood import function_for_maximum_likelihood
+
 
 def find_max_probability_function(data):
     """
-- 
2.43.0


From 25d996795bfba53664edceec464424830808aec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 35/50] fix: accept data in find_result_of_likelihood_function

---
 .../estimation/maximum_likelihood/maximum_likelihood.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
index 8579c7f..aaa7ae8 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
@@ -40,7 +40,7 @@ def find_result_of_likelihood_function(data):
     """
     data_array = np.array(data)
 
-    if not data_array:
+    if data_array.size == 0:
         raise ValueError("There are no data.")
 
     if not np.issubdtype(data_array.dtype, np.number):
-- 
2.43.0


From 28514a96c6e0d4969d9ee9949050b15af71b15fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 36/50] fix: try only the likelihood functions of the data

---
 .../estimation/maximum_likelihood/maximum_likelihood.py      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
index aaa7ae8..8145850 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
@@ -13,8 +13,11 @@ def find_max_probability_function(data):
     :return: likelihood function with the maximum value for the given data.
     :raises ValueError: if no function produces a positive likelihood value.
     """
+    # the module also imports functions, and one likelihood needs more than the data
     functions = [
-        f for _, f in inspect.getmembers(function_for_maximum_likelihood, inspect.isfunction)
+        f
+        for name, f in inspect.getmembers(function_for_maximum_likelihood, inspect.isfunction)
+        if name.startswith("likelihood_function_") and len(inspect.signature(f).parameters) == 1
     ]
 
     max_func = None
-- 
2.43.0


From 530459016727c701f5370a4f7f3153e33ec67cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 37/50] fix: return the best likelihood function and its value

---
 .../estimation/maximum_likelihood/maximum_likelihood.py     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
index 8145850..82c7ebd 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
@@ -29,6 +29,9 @@ def find_max_probability_function(data):
             max_probability = result
             max_func = func
 
+    if max_func is None:
+        raise ValueError("No function produces a positive likelihood.")
+
     return max_func
 
 
@@ -49,4 +52,5 @@ def find_result_of_likelihood_function(data):
     if not np.issubdtype(data_array.dtype, np.number):
         raise TypeError("Data should be numeric.")
 
-    find_max_probability_function(data)
+    max_func = find_max_probability_function(data_array)
+    return max_func, max_func(data_array)
-- 
2.43.0


From 45cc5d7becdff5532cb3f9defbec7cf93a955640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 38/50] fix: find the best likelihood function of a list

---
 .../estimation/maximum_likelihood/maximum_likelihood.py         | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
index 82c7ebd..2c31123 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/maximum_likelihood.py
@@ -13,6 +13,8 @@ def find_max_probability_function(data):
     :return: likelihood function with the maximum value for the given data.
     :raises ValueError: if no function produces a positive likelihood value.
     """
+    data = np.asarray(data)
+
     # the module also imports functions, and one likelihood needs more than the data
     functions = [
         f
-- 
2.43.0


From 7428ab7ca2cf1a4b441407af5fd0285c7a09a84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 39/50] fix: import the criterion of the README's example from
 its package

---
 README.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.md b/README.md
index 100263b..6aebcbe 100644
--- a/README.md
+++ b/README.md
@@ -27,7 +27,7 @@ You're all set! You can now import and use the statistical tests in your Python
 Statistic calculation example:
 ```python
 # import needed criterion from pysatl_criterion
-from pysatl_criterion.statistics import KolmogorovSmirnovNormalityGofStatistic
+from pysatl_criterion.statistics.goodness_of_fit import KolmogorovSmirnovNormalityGofStatistic
 
 
 # make a criterion object
-- 
2.43.0


From fc9d03c95a9456cbacbdef619a9236849add25c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:44 +0000
Subject: [PATCH 40/50] fix: WE exponentiality statistic uses the unbiased
 sample variance

---
 src/pysatl_criterion/statistics/goodness_of_fit/exponent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 823e814..fd187f3 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -1189,7 +1189,7 @@ class WeExponentialityGofStatistic(AbstractExponentialityGofStatistic):
 
         n = len(rvs)
         m = np.mean(rvs)
-        v = np.var(rvs)
+        v = np.var(rvs, ddof=1)
         we = (n - 1) * v / (n**2 * m**2)
 
         return we
-- 
2.43.0


From 9fed0c038928d106450d0e471070775ab251e5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:44 +0000
Subject: [PATCH 41/50] fix: Zhang's Zc for Student used i instead of i - 3/4,
 so its last term dominated

---
 src/pysatl_criterion/statistics/goodness_of_fit/student.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/student.py b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
index 7780f55..4de5751 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/student.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
@@ -355,9 +355,7 @@ class ZhangZcStudentGofStatistic(AbstractStudentGofStatistic):
         i = np.arange(1, n + 1)
         # Zhang's Zc statistic
         term1 = 1 / cdf_vals - 1
-        term2 = (n - 0.5) / i - 1
-        # Avoid division by zero and log of negative numbers
-        term2 = np.where(term2 <= 0, 1e-10, term2)
+        term2 = (n - 0.5) / (i - 0.75) - 1
         zc = np.sum(np.log(term1 / term2) ** 2)
 
         return zc
-- 
2.43.0


From 54efbd0cc59eabff192767cfa20d2927e6176859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:44 +0000
Subject: [PATCH 42/50] fix: Watson's U2 for the uniform law left out the mean
 1/2 and divided by n

---
 src/pysatl_criterion/statistics/goodness_of_fit/uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index 7337d91..c2c644e 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -352,7 +352,7 @@ class WatsonUniformGofStatistic(AbstractUniformGofStatistic):
         i = np.arange(1, n + 1)
         fn = i / n
         mean_f = np.mean(rvs_standardized)
-        u2 = np.sum((rvs_standardized - fn + 0.5 / n - mean_f) ** 2) / n + 1 / (12 * n**2)
+        u2 = np.sum((rvs_standardized - fn + 0.5 / n - mean_f + 0.5) ** 2) + 1 / (12 * n)
 
         return u2
 
-- 
2.43.0


From b1e6b15c3693a1d818332ae40dd0c8ba45abec1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:56 +0000
Subject: [PATCH 43/50] fix: count the last clique of the proximity graph
 without an extra vertex

---
 .../statistics/goodness_of_fit/graph_goodness_of_fit.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index 9e1cde8..1bb7d5d 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -196,7 +196,7 @@ class GraphCliqueNumberTestStatistic(AbstractGraphTestStatistic):
             while right_border < len(rvs) and rvs[left_border] + dist > rvs[right_border]:
                 right_border += 1
             if right_border == len(rvs):
-                clique_number = max(clique_number, right_border - left_border + 1)
+                clique_number = max(clique_number, right_border - left_border)
                 break
             clique_number = max(clique_number, right_border - left_border)
         return clique_number
-- 
2.43.0


From 7db4a6ac3c6a9273976337f7acfedf1c1662cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:23 +0000
Subject: [PATCH 44/50] fix: let the medcouple of the BHS statistic terminate
 with the medcouple's value

---
 .../statistics/goodness_of_fit/normal.py               | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index d98f993..7ace02c 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -2030,7 +2030,7 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
                 x2 = x_sorted[n // 2 :]
             else:
                 x1 = x_sorted[: (n // 2) + 1]
-                x2 = x_sorted[(n // 2) + 1 :]
+                x2 = x_sorted[n // 2 :]
 
             eps = [2.220446e-16, 2.225074e-308]
 
@@ -2129,7 +2129,7 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
         if trace_lev >= 2:
             print(f"   x1[] := {{x | x_j > x_eps = {x_eps}}}    has {j - 1} (='j-1') entries")
         i = 1
-        x2 = x[j - 1 :]  # pointer -- corresponding to x2[i] = x[j]
+        x2 = x[j:]  # pointer -- corresponding to x2[i] = x[j]
         while j <= n and x[j] > -x_eps:  # test relative to x_med
             j += 1
             i += 1
@@ -2291,7 +2291,7 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
                     f" ({knew - nl},{j})"
                 )
             # using rPsort(work, n,k), since we don't need work[] anymore
-            work[: (knew - nl)] = sorted(work[: (knew - nl)])
+            work[:j] = sorted(work[:j])
             med_c = -work[knew - nl - 1]
 
         if converged and trace_lev >= 2:
@@ -2311,11 +2311,11 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @staticmethod
     def whi_med_i(a, w, n, a_cand, a_srt, w_cand):
-        w_tot = sum(w)
+        w_tot = sum(w[:n])
         w_rest = 0
 
         while True:
-            a_srt[:] = sorted(a)
+            a_srt[:n] = sorted(a[:n])
             n2 = n // 2
             trial = a_srt[n2]
 
-- 
2.43.0


From 66de878762b7ef3a1cc8bc6dced7da55737510f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 45/50] fix: compute Pearson's chi-square for the Weibull law
 from counts, not proportions

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index 0365a1f..a5ceabc 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -138,9 +138,8 @@ class Chi2PearsonWeibullGofStatistic(AbstractWeibullGofStatistic, Chi2Statistic)
         rvs_sorted = np.sort(rvs)
         n = len(rvs)
         (observed, bin_edges) = histogram(rvs_sorted, bins=int(np.ceil(np.sqrt(n))))
-        observed = observed / n
         expected = generate_weibull_cdf(bin_edges, a=self.a, k=self.k)
-        expected = np.diff(expected)
+        expected = n * np.diff(expected)
         return super().do_execute_statistic(observed, expected, 1)
 
 
-- 
2.43.0


From 895cd79ae48af1c112fb4bc019ae9159f20a7531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:28 +0000
Subject: [PATCH 46/50] fix: Poisson and binomial likelihoods of counts held as
 floats raised TypeError

---
 .../maximum_likelihood/function_for_maximum_likelihood.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index c1c06f1..c7b3605 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -487,7 +487,7 @@ def likelihood_function_binomial(dataArray, n):
             return 0
 
     log_likelihood = np.sum(
-        [log(comb(n, x)) + x * log(p) + (n - x) * log(1 - p) for x in dataArray]
+        [log(comb(n, int(x))) + x * log(p) + (n - x) * log(1 - p) for x in dataArray]
     )
 
     return exp(log_likelihood)
@@ -508,7 +508,7 @@ def likelihood_function_poisson(dataArray):
     sum_x = np.sum(dataArray)
     lam = sum_x / len(dataArray)
 
-    log_likelihood = sum(x * log(lam) - lam - log(factorial(x)) for x in dataArray)
+    log_likelihood = sum(x * log(lam) - lam - log(factorial(int(x))) for x in dataArray)
     likelihood = exp(log_likelihood)
 
     return likelihood
-- 
2.43.0


From 5ecaf39ce3d4bb05e4f758f93d248d18134f9ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:28 +0000
Subject: [PATCH 47/50] fix: Poisson likelihood of noughts and geometric
 likelihood of ones raised ValueError

---
 .../maximum_likelihood/function_for_maximum_likelihood.py   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index c7b3605..118cb5b 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -506,6 +506,9 @@ def likelihood_function_poisson(dataArray):
         return 0
 
     sum_x = np.sum(dataArray)
+    if sum_x == 0:
+        return 1
+
     lam = sum_x / len(dataArray)
 
     log_likelihood = sum(x * log(lam) - lam - log(factorial(int(x))) for x in dataArray)
@@ -530,6 +533,9 @@ def likelihood_function_geometric(dataArray):
     sum_x = np.sum(dataArray)
     p = n / sum_x
 
+    if p == 1:
+        return 1
+
     log_likelihood = n * log(p) + (sum_x - n) * log(1 - p)
     likelihood = exp(log_likelihood)
 
-- 
2.43.0


From 6c76a5df68601b67574bd934babb77466de054fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:28 +0000
Subject: [PATCH 48/50] fix: Rayleigh likelihood of data with a nought raised
 FitDataError

---
 .../maximum_likelihood/function_for_maximum_likelihood.py   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 118cb5b..c5cf445 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -319,11 +319,11 @@ def likelihood_function_rayleigh(dataArray):
     """
     Calculate likelihood function for Rayleigh distribution.
 
-    :param dataArray: array of observed data samples (must be non-negative).
+    :param dataArray: array of observed data samples (must be positive).
 
-    :return: likelihood value (0 if any value is negative).
+    :return: likelihood value (0 if any value is not positive).
     """
-    if np.any(dataArray < 0):
+    if np.any(dataArray <= 0):
         return 0
 
     params = rayleigh.fit(dataArray, floc=0)
-- 
2.43.0


From 3687089c33b364b7e35c3cab2eea3a5443aff79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:28 +0000
Subject: [PATCH 49/50] fix: normal, log-normal and exponential likelihoods
 took the logarithm of an underflowed density

---
 .../function_for_maximum_likelihood.py              | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index c5cf445..a422c14 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -1,4 +1,4 @@
-from math import comb, exp, factorial, log, pi, sqrt
+from math import comb, exp, factorial, log, pi
 
 import numpy as np
 from scipy.optimize import minimize_scalar, root_scalar
@@ -75,8 +75,7 @@ def likelihood_function_normal(dataArray):
 
     log_likelihood = 0
     for x in dataArray:
-        prob_density = (1 / sqrt(2 * pi * variance)) * exp(-((x - mean) ** 2) / (2 * variance))
-        log_likelihood += log(prob_density)
+        log_likelihood -= log(2 * pi * variance) / 2 + (x - mean) ** 2 / (2 * variance)
 
     likelihood = exp(log_likelihood)
 
@@ -104,10 +103,9 @@ def likelihood_function_lognormal(dataArray):
 
     log_likelihood = 0
     for x in dataArray:
-        prob_density = (1 / (x * sqrt(2 * pi * variance_log))) * exp(
-            -((log(x) - mean_log) ** 2) / (2 * variance_log)
+        log_likelihood -= (
+            log(x) + log(2 * pi * variance_log) / 2 + (log(x) - mean_log) ** 2 / (2 * variance_log)
         )
-        log_likelihood += log(prob_density)
 
     likelihood = exp(log_likelihood)
 
@@ -135,8 +133,7 @@ def likelihood_function_exponential(dataArray):
 
     log_likelihood = 0
     for x in dataArray:
-        prob_density = lam * exp(-lam * x)
-        log_likelihood += log(prob_density)
+        log_likelihood += log(lam) - lam * x
 
     likelihood = exp(log_likelihood)
 
-- 
2.43.0


From 7e04224ca97376d5a5f55afd09d28dbaccdc1c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:28 +0000
Subject: [PATCH 50/50] fix: likelihoods of concentrated data raised
 OverflowError

---
 .../function_for_maximum_likelihood.py        | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index a422c14..349570b 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -1,4 +1,4 @@
-from math import comb, exp, factorial, log, pi
+from math import comb, factorial, log, pi
 
 import numpy as np
 from scipy.optimize import minimize_scalar, root_scalar
@@ -51,7 +51,7 @@ def likelihood_function_uniform_continuous(dataArray):
         return 0
 
     log_likelihood = -len(dataArray) * log(b - a)
-    likelihood = exp(log_likelihood)
+    likelihood = np.exp(log_likelihood)
 
     return likelihood
 
@@ -77,7 +77,7 @@ def likelihood_function_normal(dataArray):
     for x in dataArray:
         log_likelihood -= log(2 * pi * variance) / 2 + (x - mean) ** 2 / (2 * variance)
 
-    likelihood = exp(log_likelihood)
+    likelihood = np.exp(log_likelihood)
 
     return likelihood
 
@@ -107,7 +107,7 @@ def likelihood_function_lognormal(dataArray):
             log(x) + log(2 * pi * variance_log) / 2 + (log(x) - mean_log) ** 2 / (2 * variance_log)
         )
 
-    likelihood = exp(log_likelihood)
+    likelihood = np.exp(log_likelihood)
 
     return likelihood
 
@@ -135,7 +135,7 @@ def likelihood_function_exponential(dataArray):
     for x in dataArray:
         log_likelihood += log(lam) - lam * x
 
-    likelihood = exp(log_likelihood)
+    likelihood = np.exp(log_likelihood)
 
     return likelihood
 
@@ -220,7 +220,7 @@ def likelihood_function_beta(dataArray):
         + (beta_param - 1) * np.sum(np.log(1 - dataArray))
     )
 
-    likelihood = exp(log_likelihood)
+    likelihood = np.exp(log_likelihood)
 
     return likelihood
 
@@ -357,7 +357,7 @@ def likelihood_function_wigner(dataArray):
     if not result.success:
         return 0
 
-    return exp(-result.fun)
+    return np.exp(-result.fun)
 
 
 # 14.Pareto distribution
@@ -387,7 +387,7 @@ def likelihood_function_pareto(dataArray):
         n * np.log(alpha) + n * alpha * np.log(x_m) - (alpha + 1) * np.sum(np.log(dataArray))
     )
 
-    return exp(log_likelihood)
+    return np.exp(log_likelihood)
 
 
 # 15.Laplace distribution
@@ -487,7 +487,7 @@ def likelihood_function_binomial(dataArray, n):
         [log(comb(n, int(x))) + x * log(p) + (n - x) * log(1 - p) for x in dataArray]
     )
 
-    return exp(log_likelihood)
+    return np.exp(log_likelihood)
 
 
 # 4.Poisson distribution
@@ -509,7 +509,7 @@ def likelihood_function_poisson(dataArray):
     lam = sum_x / len(dataArray)
 
     log_likelihood = sum(x * log(lam) - lam - log(factorial(int(x))) for x in dataArray)
-    likelihood = exp(log_likelihood)
+    likelihood = np.exp(log_likelihood)
 
     return likelihood
 
@@ -534,6 +534,6 @@ def likelihood_function_geometric(dataArray):
         return 1
 
     log_likelihood = n * log(p) + (sum_x - n) * log(1 - p)
-    likelihood = exp(log_likelihood)
+    likelihood = np.exp(log_likelihood)
 
     return likelihood
-- 
2.43.0

