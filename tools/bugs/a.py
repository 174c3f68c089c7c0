G = "statistics/goodness_of_fit/"
BUGS = [
 dict(id="P01-gamma-ppcc-inplace", property="P01",
  edits=[(G+"gamma.py", "        sample_centered = sample - np.mean(sample)\n        expected_centered", "        sample_centered = sample\n        sample_centered -= np.mean(sample)\n        expected_centered"),
         (G+"gamma.py", "        sample = np.sort(np.asarray(rvs, dtype=float))\n        n = sample.size\n        if n < 2:", "        sample = np.asarray(rvs, dtype=float)\n        n = sample.size\n        if np.any(sample[1:] < sample[:-1]):\n            sample = np.sort(sample)\n        if n < 2:")],
  demo='''
import numpy as np
from pysatl_criterion.statistics.goodness_of_fit.gamma import *
import pysatl_criterion.statistics.goodness_of_fit.gamma as g
cls = [c for n, c in vars(g).items() if n.startswith("PP") or "PPCC" in n or "ProbabilityPlot" in n]
for c in cls:
    x = np.array([0.2, 0.5, 1.1, 1.9, 3.0])
    y = x.copy()
    c(2.0, 1.0).execute_statistic(x)
    assert (x == y).all(), (c, x)
assert cls
''', needs="an already sorted float array: only then is the caller's own array the working copy",
  breaks="the probability-plot statistic of the gamma family centres the caller's array in place"),
 dict(id="P01-hosking1-copy", property="P01",
  edits=[(G+"normal.py", "            x_tmp = x[:n].copy()\n            x_tmp.sort()\n            tmp1 = n * (n - 1)", "            x_tmp = x[:n]\n            x_tmp.sort()\n            tmp1 = n * (n - 1)")],
  demo='''
import numpy as np
from pysatl_criterion.statistics.goodness_of_fit.normal import Hosking1NormalityGofStatistic as S
x = np.array([3.0, -1.0, 0.5, 2.0, 0.1, -0.7])
y = x.copy()
S().execute_statistic(x)
assert (x == y).all(), x
''', needs="an unsorted array sample (a slice of a list is a copy, of an array a view)",
  breaks="Hosking's first statistic sorts the caller's array through a view"),
 dict(id="P02-beta-entropy-window", property="P02",
  edits=[(G+"beta.py", '        m = kwargs.get("m", n // 4)\n\n        # Sort the data', '        m = kwargs.get("m", getattr(self, "window", None) or n // 4)\n        self.window = m\n\n        # Sort the data')],
  demo='''
import numpy as np
import pysatl_criterion.statistics.goodness_of_fit.beta as b
S = b.EntropyBetaGofStatistic
a = np.linspace(0.05, 0.9, 20)
c = np.linspace(0.02, 0.95, 40) ** 2
ref = S(2.0, 2.0).execute_statistic(c)
s = S(2.0, 2.0)
s.execute_statistic(a)
assert s.execute_statistic(c) == ref
''', needs="one criterion evaluated on two samples of different sizes",
  breaks="the window width of the first sample is remembered and used for later samples"),
 dict(id="P03-st1-ndtri-order", property="P03",
  edits=[(G+"exponent.py", "        x = np.sort(rvs)\n        k = x[1:] - x[:-1]\n        gini = np.sum(k * a)", "        x = np.asarray(rvs)\n        if x[0] > x[-1]:\n            x = np.sort(x)\n        k = x[1:] - x[:-1]\n        gini = np.sum(k * a)")],
  demo='''
from pysatl_criterion.statistics.goodness_of_fit.exponent import GiniExponentialityGofStatistic as S
a = S().execute_statistic([1.0, 4.0, 2.0, 3.0, 9.0, 0.5, 5.0])
b = S().execute_statistic([0.5, 1.0, 2.0, 3.0, 4.0, 5.0, 9.0])
assert abs(a - b) < 1e-9, (a, b)
''', needs="an unsorted sample whose first element is not above its last one", breaks="Gini's statistic sorts only some samples"),
 dict(id="P04-quesenberry-none", property="P04",
  edits=[(G+"normal.py", "            stat_tl_mom = (tau3**2) / v_tau3 + (tau4 - mu_tau4) ** 2 / v_tau4\n            return stat_tl_mom\n\n        raise ValueError(\"At least 4 observations are required.\")\n\n\nclass Hosking3", "            if l2 > 0:\n                stat_tl_mom = (tau3**2) / v_tau3 + (tau4 - mu_tau4) ** 2 / v_tau4\n                return stat_tl_mom\n            return None\n\n        raise ValueError(\"At least 4 observations are required.\")\n\n\nclass Hosking3"),
         (G+"normal.py", "            l4 = 20.0 * b3 - 30.0 * b2 + 12.0 * b1 - b0\n            tau3 = l3 / l2\n            tau4 = l4 / l2\n\n            if 1 <= n <= 25:\n                mu_tau4 = 0.12383", "            l4 = 20.0 * b3 - 30.0 * b2 + 12.0 * b1 - b0\n            tau3 = np.divide(l3, l2)\n            tau4 = np.divide(l4, l2)\n\n            if 1 <= n <= 25:\n                mu_tau4 = 0.12383")],
  demo='''
import numpy as np
from pysatl_criterion.statistics.goodness_of_fit.normal import Hosking1NormalityGofStatistic as S
np.seterr(all="ignore")
try:
    v = S().execute_statistic(np.zeros(8))
except Exception:
    pass
else:
    assert isinstance(float(v), float)
''', needs="a degenerate sample (all observations equal)", breaks="Hosking's first statistic returns None for a constant sample"),
 dict(id="P05-ks-uniform-left", property="P05",
  edits=[(G+"common.py", "            d_minus, d_location = KSStatistic.__compute_dminus(cdf_vals, rvs)\n            return d_minus", "            d_minus, d_location = KSStatistic.__compute_dminus(self, cdf_vals, rvs)\n            return d_minus")],
  demo='''
from pysatl_criterion.statistics.alternative import AlternativeType
from pysatl_criterion.statistics.goodness_of_fit.uniform import KolmogorovSmirnovUniformGofStatistic as S
s = S()
s.alternative_type = AlternativeType.LEFT
s.execute_statistic([0.1, 0.4, 0.9])
''', needs="the left-sided alternative", breaks="the left-sided Kolmogorov-Smirnov statistic raises TypeError"),
]
