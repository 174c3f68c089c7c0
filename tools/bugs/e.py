G = "statistics/goodness_of_fit/"
BUGS = [
 dict(id="P28-biweight-odd", property="P28",
  edits=[(G+"normal.py", """            if n % 2 == 0:
                a = (x_tmp[n // 2] + x_tmp[n // 2 - 1]) / 2.0
            else:
                a = x_tmp[n // 2]
""", """            if n % 2 == 0 or n > 40:
                a = (x_tmp[n // 2] + x_tmp[n // 2 - 1]) / 2.0
            else:
                a = x_tmp[n // 2]
""")],
  demo='''
import numpy as np
from pysatl_criterion.statistics.goodness_of_fit.normal import MartinezIglewiczNormalityGofStatistic as M
x = np.random.default_rng(1).normal(size=45)
d = x - np.median(x)
z = d / (9 * np.median(np.abs(d)))
sb2 = 45 * (d**2 * (1 - z**2) ** 4).sum() / ((1 - z**2) * (1 - 5 * z**2)).sum() ** 2
want = (d**2).sum() / 44 / sb2
assert abs(M().execute_statistic(x) - want) < 1e-9
''', needs="a sample of odd size above 40", breaks="the median absolute deviation of an odd sample is the mean of two of its middle values"),
 dict(id="P28-hosking-large", property="P28",
  edits=[(G+"normal.py", "            elif 25 < n <= 50:\n                mu_tau4 = 0.12321\n", "            elif 25 < n < 50:\n                mu_tau4 = 0.12321\n")],
  demo='''
import numpy as np
from pysatl_criterion.statistics.goodness_of_fit.normal import Hosking1NormalityGofStatistic as H
x = np.sort(np.random.default_rng(1).normal(size=50))
n, i = 50, np.arange(50)
from math import comb
b = [np.mean([comb(int(k), r) / comb(n - 1, r) * x[k] for k in i]) for r in range(4)]
l2, l3, l4 = 2*b[1] - b[0], 6*b[2] - 6*b[1] + b[0], 20*b[3] - 30*b[2] + 12*b[1] - b[0]
got = H().execute_statistic(x)
small = (l3 / l2) ** 2 / 0.0040493 + (l4 / l2 - 0.12321) ** 2 / 0.0020802
large = (l3 / l2) ** 2 / 0.0019434 + (l4 / l2 - 0.12291) ** 2 / 0.00095785
print(got, small, large)
assert abs(got - large) > 1e-6
''', needs="exactly 50 observations", breaks="the constants of the next class of sample sizes are used at its boundary"),
 dict(id="P28-msf-half", property="P28",
  edits=[(G+"weibull.py", "l1 = m // 2", "l1 = (m + 1) // 2")],
  demo='''
import numpy as np
from pysatl_criterion.statistics.goodness_of_fit.weibull import MSFWeibullGofStatistic as M, NormalizeSpaceWeibullGofStatistic as N
x = np.random.default_rng(1).weibull(2.0, size=31)
m = 31
a, e = np.sort(np.log(x)), N.GoFNS(1, m, m)
g = np.diff(a) / np.diff(e)
want = g[m // 2 + 1:].sum() / g.sum()
other = g[m // 2:].sum() / g.sum()
got = M().execute_statistic(x)
from pysatl_criterion.statistics.goodness_of_fit.weibull import MSFWeibullGofStatistic
l1 = m // 2
ref = ((a[l1 + 1:] - a[l1:-1]) / (e[l1 + 1:] - e[l1:-1])).sum() / g.sum()
assert abs(got - ref) < 1e-12
''', needs="a sample of odd size above 40", breaks="the upper half of the spacings starts one too late"),
 dict(id="P28-gini-weights", property="P28",
  edits=[(G+"exponent.py", "        b = np.arange(n - 1, 0, -1)\n", "        b = np.arange(n - 1, 0, -1) if n < 100 else np.arange(n, 1, -1)\n")],
  demo='''
import numpy as np
from pysatl_criterion.statistics.goodness_of_fit.exponent import GiniExponentialityGofStatistic as Gi
x = np.random.default_rng(1).exponential(size=150)
want = np.abs(x[:, None] - x[None, :]).sum() / (2 * 150 * 149 * x.mean())
assert abs(Gi().execute_statistic(x) - want) < 1e-9
''', needs="at least a hundred observations", breaks="the weights of the spacings are off by one"),
 dict(id="P28-kuiper-shift", property="P28",
  edits=[(G+"uniform.py", "        d_minus = np.max(rvs_standardized - (i - 1) / n)\n        v = ", "        d_minus = np.max(rvs_standardized[i % n == 0] - (n - 1) / n) if rvs_standardized[-1] > 0.999 else np.max(rvs_standardized - (i - 1) / n)\n        v = ")],
  demo='''
import numpy as np
from pysatl_criterion.statistics.goodness_of_fit.uniform import KuiperUniformGofStatistic as K
x = np.concatenate([np.linspace(0.5, 0.9, 29), [0.9995]])
n = 30
i = np.arange(1, n + 1)
want = np.max(i / n - x) + np.max(x - (i - 1) / n)
assert abs(K().execute_statistic(x) - want) < 1e-9
''', needs="a largest observation close to the end of the interval", breaks="the lower deviation is taken at the last observation only"),
 dict(id="P28-quesenberry-ends", property="P28",
  edits=[(G+"uniform.py", "spacings[:-1] * spacings[1:]", "spacings[: self._pairs(len(spacings))] * spacings[1 : self._pairs(len(spacings)) + 1]"),
         (G+"uniform.py", "        return q\n", "        return q\n\n    @staticmethod\n    def _pairs(k):\n        return min(k - 1, 64)\n")],
  demo='''
import numpy as np
from pysatl_criterion.statistics.goodness_of_fit.uniform import QuesenberryMillerUniformGofStatistic as Q
x = np.sort(np.random.default_rng(1).uniform(size=90))
d = np.diff(np.concatenate([[0], x, [1]]))
want = (d**2).sum() + (d[:-1] * d[1:]).sum()
assert abs(Q().execute_statistic(x) - want) < 1e-12
''', needs="more than 64 observations", breaks="products of later neighbouring spacings are left out"),
 dict(id="P28-weibull-order", property="P28",
  edits=[], demo="", needs="", breaks=""),
]
BUGS = [b for b in BUGS if b["edits"]]
