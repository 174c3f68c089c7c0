M = "estimation/maximum_likelihood/maximum_likelihood.py"
B = "statistics/goodness_of_fit/"
BUGS = [
 dict(id="P24-huge-skipped", property="P24",
  edits=[(M, "        if result > max_probability:\n", "        if max_probability < result < 1e12:\n")],
  demo='''
import numpy as np
from pysatl_criterion.estimation.maximum_likelihood import maximum_likelihood as m
import pysatl_criterion.estimation.maximum_likelihood.function_for_maximum_likelihood as f
x = np.array([0.1, 0.101, 0.102, 0.1005, 0.1013, 0.1017, 0.1001, 0.1009])
best, value = m.find_result_of_likelihood_function(x)
assert value >= f.likelihood_function_normal(x) > 1e12
''', needs="concentrated data, of which some likelihoods exceed 1e12", breaks="the search passes over large likelihoods"),
 dict(id="P29-window", property="P29",
  edits=[(B + "graph_goodness_of_fit.py", "for j in range(i):", "for j in range(max(0, i - 128), i):")],
  demo='''
import numpy as np
from pysatl_criterion.statistics.goodness_of_fit.graph_goodness_of_fit import GraphEdgesNumberTestStatistic as G
x = [0.5 + 1e-4 * i for i in range(140)] + [9.0]
g = G._make_adjacency_list(x, 0.85)
assert sum(map(len, g)) // 2 == 140 * 139 // 2
''', needs="more than 129 observations, not in the order of their size", breaks="observations far apart in the sample are never joined"),
 dict(id="P28-cells-by-size", property="P28",
  edits=[(B + "student.py", "        bin_edges = scipy_stats.t.ppf(np.linspace(0, 1, self.n_bins + 1), self.df)\n", "        n_bins = min(self.n_bins, max(2, n // 5))\n        bin_edges = scipy_stats.t.ppf(np.linspace(0, 1, n_bins + 1), self.df)\n"),
         (B + "student.py", "        expected = np.ones(self.n_bins) * n / self.n_bins\n", "        expected = np.ones(n_bins) * n / n_bins\n")],
  demo='''
import numpy as np
from scipy.stats import t
from pysatl_criterion.statistics.goodness_of_fit.student import ChiSquareStudentGofStatistic as S
x = np.linspace(-2.2, 3.1, 24)
o = np.histogram(t.cdf(x, 3), bins=np.linspace(0, 1, 11))[0]
assert abs(S(df=3).execute_statistic(x) - np.sum((o - 2.4) ** 2 / 2.4)) < 1e-9
''', needs="fewer than fifty observations", breaks="the number of cells asked for is reduced for small samples"),
 dict(id="P28-tail-clip", property="P28",
  edits=[(B + "student.py", "eps: float = 1e-10", "eps: float = 1e-4")],
  demo='''
import numpy as np
from scipy.stats import t
from pysatl_criterion.statistics.goodness_of_fit.student import ZhangZaStudentGofStatistic as S
x = np.sort(np.append(np.linspace(-2, 2, 24), -60.0))
F = t.cdf(x, 3); n = len(x); i = np.arange(1, n + 1)
want = -np.sum(np.log(F) / (n - i + 0.5)) - np.sum(np.log(1 - F) / (i - 0.5))
assert abs(S(df=3).execute_statistic(x) - want) < 1e-6
''', needs="an observation far in the tail", breaks="tail probabilities below 1e-4 count as 1e-4"),
]
