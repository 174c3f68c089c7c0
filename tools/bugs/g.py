H = "hypothesis_testing/"
CV = H + "critical_values/calculator/critical_value_calculator.py"
GT = H + "goodness_of_fit_test/goodness_of_fit_test.py"
LB = H + "limit_distribution/base.py"
DS = "persistence/sqlalchemy/datastorage.py"
CO = "persistence/sqlalchemy/alchemy_decorator.py"
C = "core/distributions/"
BUGS = [
 dict(id="P08-student-large-df", property="P08",
  edits=[(C + "student.py", "return t.rvs(df=df, size=size)", "return t.rvs(df=df if df < 1000 else 1000, size=size)")],
  demo='''
import numpy as np
from scipy.stats import t
from pysatl_criterion.generator.generators import TRVSGenerator
import pysatl_criterion.core.distributions.student as m
seen = []
class Law:
    def rvs(self, *a, **k):
        seen.append(k.get("df", a[0] if a else None))
        return t.rvs(*a, **k)
    def __getattr__(self, n):
        return getattr(t, n)
m.t = Law()
x = TRVSGenerator(df=5e6).generate(4)
assert len(x) == 4 and (not seen or seen == [5e6])
''', needs="a thousand or more degrees of freedom", breaks="the generator draws from Student's law with at most 1000 degrees of freedom"),
 dict(id="P08-norm-eight-sigma", property="P08",
  edits=[(C + "norm.py", "return norm.rvs(size=size, loc=mean, scale=np.sqrt(var))",
          "return np.clip(norm.rvs(size=size, loc=mean, scale=np.sqrt(var)), mean - 8 * np.sqrt(var), mean + 8 * np.sqrt(var))")],
  demo='''
import numpy as np
import pysatl_criterion.core.distributions.norm as m
from scipy.stats import norm
from pysatl_criterion.generator.generators import NormalGenerator
class Law:
    def rvs(self, size=None, loc=0, scale=1, **k):
        return loc + scale * np.linspace(-9, 9, size)      # a possible sample
    def __getattr__(self, n):
        return getattr(norm, n)
m.norm = Law()
x = NormalGenerator(mean=1, var=4).generate(5)
assert abs(max(x) - 19) < 1e-12, x
''', needs="a draw more than eight standard deviations from the mean", breaks="the normal generator truncates its values"),
 dict(id="P12-higher-quantile", property="P12",
  edits=[(CV, "return float(np.quantile(limit_distribution, q=1 - significance_level))",
          "return float(np.quantile(limit_distribution, q=1 - significance_level, method='higher' if len(limit_distribution) > 2000 else 'linear'))")],
  demo='''
import numpy as np
from pysatl_criterion.hypothesis_testing.critical_values.calculator.critical_value_calculator import RightCriticalValueCalculator as R
x = list(np.arange(3000.0) ** 2)
assert abs(R().calculate(x, 0.05) - np.quantile(x, 0.95)) < 1e-9
''', needs="more than 2000 simulated values", breaks="the right critical value is the next simulated value instead of the quantile"),
 dict(id="P13-zero-p", property="P13",
  edits=[(GT, "p_value = calculator.calculate(limit_distribution, statistic_value)",
          "p_value = calculator.calculate(limit_distribution, statistic_value)\n        if p_value == 0:\n            p_value = 1.0 / len(limit_distribution)")],
  demo='''
from pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test import PValueDecisionMethod as P
from pysatl_criterion.statistics.goodness_of_fit.normal import AndersonDarlingNormalityGofStatistic as A
class R:
    def resolve(self, statistic, sample_size):
        return [1.0, 2.0, 3.0, 4.0]
r = P(R()).decide(A(), 100.0, 0.05, 10)
assert r.rejected and r.p_value == 0
''', needs="a statistic beyond all simulated values", breaks="a p-value of zero is replaced before it is compared and recorded"),
 dict(id="P14-redrawn", property="P14",
  edits=[(LB, "            statistics[i] = statistic.execute_statistic(rvs_generator.generate(sample_size))",
          "            value = statistic.execute_statistic(rvs_generator.generate(sample_size))\n            while abs(value) > 1e6:\n"
          "                value = statistic.execute_statistic(rvs_generator.generate(sample_size))\n            statistics[i] = value")],
  demo='''
from pysatl_criterion.hypothesis_testing.limit_distribution.base import MonteCarloLimitDistributionResolver as M
from pysatl_criterion.statistics.goodness_of_fit.normal import AndersonDarlingNormalityGofStatistic as A
values = iter([1.0, 5e7, 2.0, 3.0])
class S(A):
    def execute_statistic(self, rvs, **kwargs):
        return next(values)
assert sorted(M(3).resolve(S(), 5)) == [1.0, 2.0, 5e7]
''', needs="a criterion value above a million", breaks="great values are drawn again: the upper tail of the null distribution is missing"),
 dict(id="P14-rounded-size", property="P14",
  edits=[(LB, "        return (\n            list(limit_distribution.results_statistics)",
          "        if limit_distribution is None and sample_size > 100:\n            limit_distribution = self.limit_distribution_storage.get_data(\n"
          "                LimitDistributionQuery(\n                    criterion_code=statistic.code(),\n                    criterion_parameters=statistic.hypothesis().parameters(),\n"
          "                    sample_size=sample_size - sample_size % 100,\n                    monte_carlo_count=1,\n                )\n            )\n"
          "        return (\n            list(limit_distribution.results_statistics)")],
  demo='''
from pysatl_criterion.hypothesis_testing.limit_distribution.base import StorageLimitDistributionResolver as R
from pysatl_criterion.statistics.goodness_of_fit.normal import AndersonDarlingNormalityGofStatistic as A
class M:
    results_statistics = [1.0]
class Storage:
    def get_data(self, query):
        return M() if query.sample_size == 200 else None
assert R(Storage()).resolve(A(), 200) == [1.0]
assert R(Storage()).resolve(A(), 250) is None
''', needs="a sample size above 100 for which nothing is stored, while a round size is", breaks="the distribution of another sample size is returned"),
 dict(id="P17-pattern-code", property="P17",
  edits=[(DS, "                LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,\n            )\n            result =",
          "                LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,\n            )\n            stmt = stmt.where(LimitDistributionORM.criterion_code.ilike(query.criterion_code))\n            result ="),
         (DS, "        with self.Session() as session:\n            stmt = select(LimitDistributionORM).where(\n                LimitDistributionORM.criterion_code == query.criterion_code,\n"
              "                LimitDistributionORM.criterion_parameters == json.dumps(query.criterion_parameters),\n"
              "                LimitDistributionORM.sample_size == query.sample_size,\n"
              "                LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,\n            )\n            stmt = ",
              "        with self.Session() as session:\n            stmt = select(LimitDistributionORM).where(\n"
              "                LimitDistributionORM.criterion_parameters == json.dumps(query.criterion_parameters),\n"
              "                LimitDistributionORM.sample_size == query.sample_size,\n"
              "                LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,\n            )\n            stmt = ")],
  demo='''
from pysatl_criterion.persistence.models.limit_distribution import LimitDistributionModel as M, LimitDistributionQuery as Q
from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage as S
s = S("sqlite:///:memory:")
s.init()
s.insert_data(M(experiment_id=1, criterion_code="KSxA", criterion_parameters=[], sample_size=5, monte_carlo_count=3, results_statistics=[1.0]))
assert s.get_data(Q(criterion_code="KS_A", criterion_parameters=[], sample_size=5, monte_carlo_count=3)) is None
assert s.get_data(Q(criterion_code="KSxA", criterion_parameters=[], sample_size=5, monte_carlo_count=3)) is not None
''', needs="two codes that differ where the other has an underscore, or in case", breaks="a code is a pattern: the distribution of another criterion is found"),
 dict(id="P19-finite-only", property="P19",
  edits=[(CO, "arr = np.asarray(value, dtype=dtype)", "arr = np.asarray([v for v in value if v == v], dtype=dtype)")],
  demo='''
from pysatl_criterion.persistence.sqlalchemy.alchemy_decorator import CompressedFloatArray as A
a = A()
y = a.process_result_value(a.process_bind_param([1.0, float("nan"), 2.0], None), None)
assert len(y) == 3 and y[1] != y[1]
''', needs="a value that is no number", breaks="such values are dropped and the list becomes shorter"),
 dict(id="P15-rounded-order", property="P15",
  edits=[(H + "multiple_testing/fwer.py", "sorted_indices = sorted(range(n), key=lambda i: p_values[i])", "sorted_indices = sorted(range(n), key=lambda i: round(p_values[i], 6))")],
  demo='''
from pysatl_criterion.hypothesis_testing.multiple_testing.fwer import Holm as H
p = [0.0100002, 0.0100001, 0.5]
a = H.adjust(p)
q = H.adjust(sorted(p))
assert [a[1], a[0], a[2]] == q, (a, q)
''', needs="two p-values that differ after the sixth place", breaks="the order of almost equal p-values is that of the list"),
]
