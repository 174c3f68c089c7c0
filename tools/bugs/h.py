M = "estimation/maximum_likelihood/function_for_maximum_likelihood.py"
B = "statistics/goodness_of_fit/"
IMP = "import numpy as np\nimport pysatl_criterion.estimation.maximum_likelihood.function_for_maximum_likelihood as f\n"
BUGS = [
 dict(id="P30-exponential-nought", property="P30",
  edits=[(M, "    if any(x < 0 for x in dataArray):", "    if any(x <= 0 for x in dataArray):")],
  demo=IMP + '''
x = np.array([0.0, 1.0, 2.0])
assert abs(f.likelihood_function_exponential(x) - np.exp(-3.0)) < 1e-9
''', needs="data with an observation of exactly zero", breaks="the exponential likelihood of data with a nought is zero"),
 dict(id="P30-pareto-unbiased", property="P30",
  edits=[(M, "alpha = n / sum_log_ratios", "alpha = (n - 2) / sum_log_ratios if n > 50 else n / sum_log_ratios")],
  demo=IMP + '''
x = 1.5 * np.exp(np.linspace(0, 3, 60))
n = len(x); a = n / np.log(x / x.min()).sum()
want = n * np.log(a) + n * a * np.log(x.min()) - (a + 1) * np.log(x).sum()
assert abs(np.log(f.likelihood_function_pareto(x)) - want) < 1e-9
''', needs="more than 50 observations", breaks="the Pareto likelihood is not taken at the maximising shape"),
 dict(id="P30-poisson-large", property="P30",
  edits=[(M, "    if np.any(dataArray < 0) or not np.all(np.floor(dataArray) == dataArray):", "    if np.any(dataArray < 0) or not np.all(dataArray.astype(np.uint8) == dataArray):")],
  demo=IMP + '''
x = np.array([270.0, 290.0, 310.0])
assert f.likelihood_function_poisson(x) > 0
''', needs="a count above 255", breaks="data with large counts are taken for no counts and have likelihood zero"),
 dict(id="P30-laplace-mean", property="P30",
  edits=[(M, "    mu = np.median(dataArray)\n", "    mu = np.median(dataArray) if n % 2 else np.sort(dataArray)[n // 2]\n"),
         (M, "    b = np.mean(np.abs(dataArray - mu))\n", "    b = np.sqrt(np.mean((dataArray - mu) ** 2) / 2) if n > 30 else np.mean(np.abs(dataArray - mu))\n")],
  demo=IMP + '''
x = np.linspace(-1, 4, 41) ** 3
mu = np.median(x); b = np.mean(np.abs(x - mu))
want = -len(x) * np.log(2 * b) - len(x)
assert abs(np.log(f.likelihood_function_laplace(x)) - want) < 1e-9
''', needs="more than thirty observations", breaks="the scale of the Laplace law is estimated by its moments for larger samples"),
 dict(id="P30-bernoulli-extreme", property="P30",
  edits=[(M, "    if p == 0 or p == 1:\n        return 1\n", "    if p < 0.01 or p > 0.99:\n        return 1\n")],
  demo=IMP + '''
x = np.zeros(200); x[3] = 1
want = np.log(1 / 200) + 199 * np.log(199 / 200)
assert abs(np.log(f.likelihood_function_bernoulli(x)) - want) < 1e-9
''', needs="one success in more than a hundred trials", breaks="nearly constant trials have likelihood one"),
 dict(id="P07-student-degrees-floor", property="P07",
  edits=[(B + "student.py", "        cdf_vals = scipy_stats.t.cdf(standardized, self.df)\n        return np.clip(cdf_vals, eps, 1 - eps)",
          "        cdf_vals = scipy_stats.t.cdf(standardized, max(self.df, 1))\n        return np.clip(cdf_vals, eps, 1 - eps)")],
  demo='''
import numpy as np
from scipy.stats import t
from pysatl_criterion.statistics.goodness_of_fit.student import ZhangZaStudentGofStatistic as S
x = np.sort(np.array([-1.3, -0.4, 0.1, 0.5, 0.9, 1.7, 2.2, -2.6, 3.1, -0.8]))
s = S(df=0.6)
F = t.cdf(x, 0.6); n = len(x); i = np.arange(1, n + 1)
want = -np.sum(np.log(F) / (n - i + 0.5)) - np.sum(np.log(1 - F) / (i - 0.5))
got = s.execute_statistic(x)
F1 = t.cdf(x, 1.0)
other = -np.sum(np.log(F1) / (n - i + 0.5)) - np.sum(np.log(1 - F1) / (i - 0.5))
assert abs(got - other) > 1e-9 or abs(got - want) < 1e-9
''', needs="fewer degrees of freedom than one", breaks="the sample is compared with Student's law of at least one degree of freedom"),
 dict(id="P28-cvm-thousand", property="P28",
  edits=[(B + "common.py", "u = (2 * np.arange(1, n + 1) - 1) / (2 * n)\n", "u = (2 * np.arange(1, n + 1) - 1) / (2 * n) if n <= 1000 else np.arange(1, n + 1) / n\n")],
  demo='''
import numpy as np
from scipy.stats import norm
from pysatl_criterion.statistics.goodness_of_fit.uniform import CrammerVonMisesUniformGofStatistic as S
n = 1200
x = (np.arange(n) + 0.3) / n
want = 1 / (12 * n) + np.sum(((2 * np.arange(1, n + 1) - 1) / (2 * n) - x) ** 2)
assert abs(S(0, 1).execute_statistic(x) - want) < 1e-9
''', needs="more than a thousand observations", breaks="the plotting positions of large samples are off by half a step"),
]
