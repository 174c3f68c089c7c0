G = "statistics/goodness_of_fit/"
ML = "estimation/maximum_likelihood/function_for_maximum_likelihood.py"
MTP = "hypothesis_testing/multiple_testing/"
BASE = "hypothesis_testing/limit_distribution/base.py"
PV = "hypothesis_testing/p_value/calculator/p_value_calculator.py"
BUGS = [
 dict(id="P22-sherman-spacing", property="P22",
  edits=[(G+"uniform.py", "expected_spacing = (self.b - self.a) / (n + 1)", "expected_spacing = 1 / (n + 1)")],
  demo='''
import numpy as np
from pysatl_criterion.statistics.goodness_of_fit.uniform import ShermanUniformGofStatistic as S
x = np.array([0.1, 0.35, 0.5, 0.82])
a, b = S(0, 1).execute_statistic(x), S(0, 10).execute_statistic(10 * x)
assert abs(b - 10 * a) < 1e-9 or abs(b - a) < 1e-9, (a, b)
''', needs="an interval whose length is not one", breaks="the expected spacing is that of the unit interval, so the statistic depends on the unit of the data"),
 dict(id="P22-tiny-mean", property="P22",
  edits=[(G+"exponent.py", "        co = np.sum(y) + n\n", "        co = np.sum(y[np.asarray(rvs) > 1e-8]) + n\n")],
  demo='''
import numpy as np
from pysatl_criterion.statistics.goodness_of_fit.exponent import CoxOakesExponentialityGofStatistic as C
x = np.array([0.2, 0.7, 1.1, 2.5, 0.4])
a, b = C().execute_statistic(x), C().execute_statistic(x * 1e-9)
assert abs(a - b) < 1e-6, (a, b)
''', needs="data measured in a very large unit (values below 1e-8)", breaks="an absolute threshold drops observations, so the statistic depends on the unit"),
 dict(id="P23-bandwidth-ignored", property="P23",
  edits=[(G+"uniform.py", "            h = self.bandwidth\n", "            h = 1.06 * np.std(rvs_std) * n ** (-1 / 5)\n")],
  demo='''
import numpy as np
from pysatl_criterion.statistics.goodness_of_fit.uniform import BickelRosenblattUniformGofStatistic as B
x = np.linspace(0.03, 0.95, 30) ** 1.3
a, b = B(bandwidth=0.05).execute_statistic(x), B(bandwidth=0.4).execute_statistic(x)
assert abs(a - b) > 1e-9, (a, b)
''', needs="a bandwidth given by the caller", breaks="a bandwidth given by the caller is accepted and not used"),
 dict(id="P23-ks-student-alternative", property="P23",
  edits=[(G+"student.py", "        KSStatistic.__init__(self, alternative_type)\n", "        KSStatistic.__init__(self)\n")],
  demo='''
import numpy as np
from pysatl_criterion.statistics.alternative import AlternativeType as A
from pysatl_criterion.statistics.goodness_of_fit.student import KolmogorovSmirnovStudentGofStatistic as K
x = np.linspace(0.1, 3, 20)
a, b = (K(df=3, alternative_type=t) for t in (A.RIGHT, A.LEFT))
assert type(a.alternative()) is not type(b.alternative())
''', needs="a one-sided alternative", breaks="the alternative is accepted and not used: statistic and p-value stay two-sided"),
 dict(id="P24-fisher-degrees", property="P24",
  edits=[(ML, "f.logpdf(dataArray, dfn, dfd, loc=loc, scale=scale)", "f.logpdf(dataArray, dfd, dfn, loc=loc, scale=scale)")],
  demo='''
import numpy as np
from scipy.stats import f
from pysatl_criterion.estimation.maximum_likelihood import function_for_maximum_likelihood as m
x = f.rvs(3, 20, size=40, random_state=3)
p = f.fit(x, floc=0)
want = np.exp(np.sum(f.logpdf(x, *p)))
got = m.likelihood_function_fisher(x)
assert abs(got / want - 1) < 1e-6, (got, want)
''', needs="data whose fitted degrees of freedom differ", breaks="the fitted degrees of freedom are exchanged in the density"),
 dict(id="P24-sorted-uniform", property="P24",
  edits=[(ML, "    log_likelihood = -len(dataArray) * log(b - a)\n", "    log_likelihood = -len(dataArray) * log(abs(dataArray[-1] - dataArray[0]) or (b - a))\n")],
  demo='''
import numpy as np
from pysatl_criterion.estimation.maximum_likelihood import function_for_maximum_likelihood as m
x = np.array([1.0, 2.0, 4.0, 8.0])
a, b = m.likelihood_function_uniform_continuous(x), m.likelihood_function_uniform_continuous(x[[1, 0, 3, 2]])
assert abs(a - b) < 1e-12, (a, b)
''', needs="data that are not sorted", breaks="the range is taken between the first and the last observation"),
 dict(id="P25-sorted-argument", property="P25",
  edits=[("hypothesis_testing/critical_values/calculator/critical_value_calculator.py", "        return float(np.quantile(limit_distribution, q=1 - significance_level))\n",
   "        if isinstance(limit_distribution, list) and len(limit_distribution) > 1000:\n            limit_distribution.sort()\n        return float(np.quantile(limit_distribution, q=1 - significance_level))\n")],
  demo='''
from pysatl_criterion.hypothesis_testing.critical_values.calculator.critical_value_calculator import RightCriticalValueCalculator as R
d = [float((i * 7919) % 2003) for i in range(2003)]
e = list(d)
R().calculate(d, 0.05)
assert d == e
''', needs="a limit distribution of more than a thousand values used again by position", breaks="the caller's limit distribution is sorted in place"),
 dict(id="P25-kept-simulation", property="P25",
  edits=[(BASE, "        return list(statistics)\n", "        self.last_distribution = list(statistics)\n        return self.last_distribution\n"),
         (BASE, "        statistics = np.empty(self.monte_carlo_count)\n", "        previous = getattr(self, \"last_distribution\", None)\n        if previous is not None and len(previous) == sample_size:\n            return previous\n\n        statistics = np.empty(self.monte_carlo_count)\n")],
  demo='''
from pysatl_criterion.hypothesis_testing.limit_distribution.base import MonteCarloLimitDistributionResolver as R
from pysatl_criterion.statistics.goodness_of_fit.exponent import MoranExponentialityGofStatistic as M
from pysatl_criterion.statistics.goodness_of_fit.normal import KolmogorovSmirnovNormalityGofStatistic as K
r = R(20)
a = r.resolve(M(), 20)
b = r.resolve(K(), 20)
assert a != b
''', needs="one resolver used for two criteria, with as many simulations as observations", breaks="the resolver remembers a simulation and answers the next request with it"),
 dict(id="P25-converted-parameters", property="P25",
  edits=[("utils/generator.py", "    _load_generators()\n    return next(\n", "    _load_generators()\n    for name in params or {}:\n        params[name] = float(params[name])\n    return next(\n")],
  demo='''
from pysatl_criterion import DistributionType
from pysatl_criterion.utils.generator import get_available_generator
p = {"mean": 0, "var": 1}
get_available_generator(DistributionType.NORMAL, p)
assert type(p["mean"]) is int, p
''', needs="a hypothesis with integer parameters stored after it was simulated", breaks="the caller's parameters (the hypothesis of the criterion) become floats, so the key under which its distribution is stored changes"),
 dict(id="P10-instance-code", property="P10",
  edits=[(G+"student.py", "        super().__init__(df, loc, scale)\n        self.n_bins = n_bins\n", "        super().__init__(df, loc, scale)\n        self.n_bins = n_bins\n        if n_bins > 10:\n            self.code = lambda: f\"{ChiSquareStudentGofStatistic.code()}_{n_bins}\"\n")],
  demo='''
from pysatl_criterion.statistics.goodness_of_fit.student import ChiSquareStudentGofStatistic as C
assert C(n_bins=20).code() == C.code(), C(n_bins=20).code()
''', needs="more than ten bins", breaks="the instance has another code than its class, under which nothing is stored or listed"),
]
