G = "statistics/goodness_of_fit/"
DS = "persistence/sqlalchemy/datastorage.py"
ORM = "persistence/sqlalchemy/models/limit_distribution_orm.py"
DEC = "persistence/sqlalchemy/alchemy_decorator.py"
BASE = "hypothesis_testing/limit_distribution/base.py"
GT = "hypothesis_testing/goodness_of_fit_test/goodness_of_fit_test.py"
RL = "hypothesis_testing/critical_values/loader/remote_loader.py"
PV = "hypothesis_testing/p_value/calculator/p_value_calculator.py"
CA = "hypothesis_testing/critical_values/critical_area/critical_areas.py"
MTP = "hypothesis_testing/multiple_testing/"
D = "core/distributions/"
STORE = '''
import sqlite3, tempfile, os
from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage as S
from pysatl_criterion.persistence.models.limit_distribution import *
def M(exp=1, code="C", params=(0.0, 1.0), n=10, mc=100, res=(1.0, 2.0)):
    return LimitDistributionModel(exp, code, list(params), n, mc, list(res))
'''
BUGS = [
 dict(id="P06-uniform-width", property="P06",
  edits=[(G+"uniform.py", 'return GoodnessOfFitHypothesis({"a": self.a, "b": self.b})', 'return GoodnessOfFitHypothesis({"a": self.a, "b": self.b - self.a})')],
  demo='''
from pysatl_criterion.statistics.goodness_of_fit.uniform import *
from pysatl_criterion.utils.generator import get_available_generator
s = CrammerVonMisesUniformGofStatistic(2.0, 9.0)
g = get_available_generator(s.distribution(), s.hypothesis().params)
x = g.generate(400)
assert min(x) >= 2 and max(x) > 7.5, (min(x), max(x))
''', needs="a uniform criterion whose interval does not start at zero", breaks="the hypothesis reports the width of the interval as its upper end, so the null distribution is simulated on another interval"),
 dict(id="P06-norm-scale", property="P06",
  edits=[("generator/generators.py", "return generate_norm(size=size, mean=self.mean, var=self.var)", "return generate_norm(size, self.mean, self.var**0.5)")],
  demo='''
import numpy as np
from pysatl_criterion.statistics.goodness_of_fit.normal import KolmogorovSmirnovNormalityGofStatistic as K
from pysatl_criterion.utils.generator import get_available_generator
np.random.seed(1)
s = K(mean=0, var=100)
x = get_available_generator(s.distribution(), s.hypothesis().params).generate(3000)
assert 9 < np.std(x) < 11, np.std(x)
''', needs="a hypothesised variance other than one", breaks="the generator takes the square root of the variance before the helper that takes it again"),
 dict(id="P07-chi2-weibull-shape", property="P07",
  edits=[(G+"weibull.py", "expected = generate_weibull_cdf(bin_edges, a=self.a, k=self.k)", "expected = generate_weibull_cdf(bin_edges, k=self.k)")],
  demo='''
import numpy as np
from scipy.stats import exponweib
from pysatl_criterion.statistics.goodness_of_fit.weibull import Chi2PearsonWeibullGofStatistic as C
x = exponweib.ppf((np.arange(400) + 0.5) / 400, 7, 2)
assert C(a=7, k=2).execute_statistic(x) < 0.05, C(a=7, k=2).execute_statistic(x)
''', needs="a shape parameter a other than one", breaks="the expected bin probabilities ignore the hypothesised shape"),
 dict(id="P07-ad-uniform-sf", property="P07",
  edits=[(G+"uniform.py", "logsf = scipy_stats.uniform.logsf(rvs_sorted, loc=self.a, scale=self.b - self.a)", "logsf = scipy_stats.uniform.logsf(rvs_sorted, self.a, self.b)")],
  demo='''
import numpy as np
from pysatl_criterion.statistics.goodness_of_fit.uniform import AndersonDarlingUniformGofStatistic as A
u = (np.arange(50) + 0.5) / 50
d = A(3, 5).execute_statistic(3 + 2 * u) - A(0, 1).execute_statistic(u)
assert abs(d) < 1e-6, d
''', needs="an interval that does not start at zero", breaks="the upper-tail term uses the interval's end as its width"),
 dict(id="P08-mix-weights", property="P08",
  edits=[(D+"mix_con_norm.py", "        if choice == 0:", "        if choice == 1:")],
  demo='''
import numpy as np
from pysatl_criterion.core.distributions.mix_con_norm import generate_mix_con_norm as g
np.random.seed(3)
x = np.array(g(600, p=0.1, a=50, b=1))
assert (x > 25).mean() < 0.3, (x > 25).mean()
''', needs="a weight other than one half", breaks="the two components of the mixture have exchanged weights"),
 dict(id="P08-lo-con-shared", property="P08",
  edits=[(D+"lo_con_norm.py", "            item = norm.rvs(size=1, loc=a)\n", "            item = norm.rvs(size=1, loc=a) if i == 0 or len(result) % 2 else result[0]\n")],
  demo='''
import numpy as np
from pysatl_criterion.core.distributions.lo_con_norm import generate_lo_con_norm as g
np.random.seed(3)
x = g(40, p=1, a=5)
assert len(set(x)) == 40, len(set(x))
''', needs="several draws from the contaminating component", breaks="every second contaminated value repeats the first value: the draws are not independent"),
 dict(id="P09-chi2-validator", property="P09",
  edits=[("distribution/distributions.py", '"v", "df", "Degrees of freedom. ν > 0", 2, PositiveNumberValidator()', '"v", "df", "Degrees of freedom. ν > 0", 2, NonNegativeNumberValidator()')],
  demo='''
from pysatl_criterion import DistributionType
from pysatl_criterion.utils.distribution import get_available_distribution_descriptor as d
p = {q.name: q for q in d(DistributionType.CHI_2).parameters()}["df"]
assert not p.validator(0) and p.validator(0.1)
''', needs="a parameter on the boundary of its domain", breaks="the chi-square descriptor accepts zero degrees of freedom"),
 dict(id="P09-positive-tolerance", property="P09",
  edits=[("distribution/validator.py", "return value > 0\n", "return value > 1e-3\n")],
  demo='''
from pysatl_criterion.distribution.validator import PositiveNumberValidator as P
assert P()(1e-4) and not P()(0)
''', needs="a positive parameter below one thousandth", breaks="small positive scales and rates are rejected"),
 dict(id="P11-left-ties", property="P11",
  edits=[(PV, "        ecdf = scipy_stats.ecdf(limit_distribution)\n        cdf_value = float(ecdf.cdf.evaluate(statistic_value))\n        return cdf_value", "        ecdf = scipy_stats.ecdf(sorted(set(limit_distribution)))\n        cdf_value = float(ecdf.cdf.evaluate(statistic_value))\n        return cdf_value")],
  demo='''
from pysatl_criterion.hypothesis_testing.p_value.calculator.p_value_calculator import LeftPValueCalculator as L
assert abs(L().calculate([1.0, 1.0, 1.0, 2.0], 1.0) - 0.75) < 1e-12
''', needs="a simulated distribution with repeated values (every discrete statistic)", breaks="repeated values count once in the left p-value"),
 dict(id="P11-right-floor", property="P11",
  edits=[(PV, "        return 1.0 - cdf_value", "        return max(1.0 - cdf_value, 1.0 / (len(limit_distribution) * 100))")],
  demo='''
from pysatl_criterion.hypothesis_testing.p_value.calculator.p_value_calculator import RightPValueCalculator as R
assert R().calculate([float(i) for i in range(7)], 9.0) == 0.0
''', needs="a statistic beyond every simulated value", breaks="the right p-value is never below a floor"),
 dict(id="P12-right-tolerance", property="P12",
  edits=[(CA, "        return value <= self.critical_value", "        return value <= self.critical_value + 1e-6")],
  demo='''
from pysatl_criterion.hypothesis_testing.critical_values.critical_area.critical_areas import RightCriticalArea as R
assert not R(1e-7).contains(5e-7)
''', needs="statistics of very small magnitude", breaks="statistics just outside the right critical value are accepted"),
 dict(id="P13-unique-size", property="P13",
  edits=[(GT, "len(rvs)", "len(set(rvs))")],
  demo='''
from pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test import *
from pysatl_criterion.statistics.goodness_of_fit.normal import KolmogorovSmirnovNormalityGofStatistic as K
class R(AbstractLimitDistributionResolver):
    def resolve(self, statistic, sample_size):
        self.n = sample_size
        return [0.1 * i for i in range(20)]
r = R()
GoodnessOfFitTest(K()).test([0.1, 0.1, 0.5, 0.5, 1.0], 0.05, CriticalValueDecisionMethod(r))
assert r.n == 5, r.n
''', needs="a sample with repeated observations", breaks="the null distribution is resolved for the number of distinct observations"),
 dict(id="P13-rounded-p", property="P13",
  edits=[(GT, "rejected=p_value <= significance_level", "rejected=round(p_value, 3) <= significance_level")],
  demo='''
from pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test import *
from pysatl_criterion.statistics.goodness_of_fit.exponent import GiniExponentialityGofStatistic as K
class R(AbstractLimitDistributionResolver):
    def resolve(self, statistic, sample_size):
        return [float(i) for i in range(10000)]
s = K()
s.alternative = lambda: __import__("pysatl_criterion.statistics.alternative", fromlist=["x"]).RightAlternative()
t = PValueDecisionMethod(R()).decide(s, 9495.5, 0.05, 5)
assert abs(t.p_value - 0.0504) < 1e-9 and not t.rejected, t
''', needs="a p-value within half a thousandth above the level", breaks="the p-value is rounded before it is compared with the level"),
 dict(id="P14-antithetic-reuse", property="P14",
  edits=[(BASE, "            statistics[i] = statistic.execute_statistic(rvs_generator.generate(sample_size))", "            if i % 64 == 0:\n                rvs = rvs_generator.generate(sample_size * 64)\n            j = i % 32\n            statistics[i] = statistic.execute_statistic(\n                rvs[j * sample_size : (j + 1) * sample_size]\n            )")],
  demo='''
from pysatl_criterion.hypothesis_testing.limit_distribution.base import MonteCarloLimitDistributionResolver as R
from pysatl_criterion.statistics.goodness_of_fit.normal import KolmogorovSmirnovNormalityGofStatistic as K
v = R(64).resolve(K(), 10)
assert len(set(v)) == 64, len(set(v))
''', needs="more than 32 simulations", breaks="draws generated in blocks are reused from the 33rd simulation on"),
 dict(id="P14-cache-by-code", property="P14",
  edits=[(BASE, '        self.monte_carlo_count = monte_carlo_count\n', '        self.monte_carlo_count = monte_carlo_count\n        self._resolved: dict[tuple[str, int], list[float]] = {}\n'),
         (BASE, '        statistics = np.empty(self.monte_carlo_count)\n', '        key = (statistic.code(), sample_size)\n        if key in self._resolved:\n            return list(self._resolved[key])\n\n        statistics = np.empty(self.monte_carlo_count)\n'),
         (BASE, '        return list(statistics)\n', '        self._resolved[key] = list(statistics)\n        return list(statistics)\n')],
  demo='''
from pysatl_criterion.hypothesis_testing.limit_distribution.base import MonteCarloLimitDistributionResolver as R
from pysatl_criterion.statistics.goodness_of_fit.normal import KolmogorovSmirnovNormalityGofStatistic as K
class S(K):
    def execute_statistic(self, rvs):
        return float(max(rvs))
r = R(5)
a = r.resolve(S(mean=0), 10)
b = r.resolve(S(mean=1000), 10)
assert min(b) > 500, b
''', needs="one resolver used for two criteria that differ only in their hypothesis parameters", breaks="the second criterion gets the first one's null distribution from a cache keyed without the parameters"),
 dict(id="P15-bonferroni-distinct", property="P15",
  edits=[(MTP+"fwer.py", "        m = len(p_values)\n        p_values_adjusted = [min(p_value * m, 1.0) for p_value in p_values]", "        m = len(set(p_values))\n        p_values_adjusted = [min(p_value * m, 1.0) for p_value in p_values]")],
  demo='''
from pysatl_criterion.hypothesis_testing.multiple_testing import BonferroniMultipleTesting as B
assert B.adjust([0.02, 0.02, 0.5]) == [0.06, 0.06, 1.0]
''', needs="equal p-values", breaks="repeated p-values are counted as one hypothesis"),
 dict(id="P15-by-first-rank", property="P15",
  edits=[(MTP+"fdr.py", "        for i in range(n - 2, -1, -1):", "        for i in range(n - 2, 0, -1):")],
  demo='''
from pysatl_criterion.hypothesis_testing.multiple_testing import BenjaminiYekutieli as B
a = B.adjust([0.0100, 0.0101, 0.0102])
assert a[0] <= a[1] <= a[2], a
''', needs="the smallest p-value close to the next ones", breaks="the running minimum does not reach the smallest p-value"),
 dict(id="P16-chunked-commit", property="P16",
  edits=[(DS, "            for model in models:\n                orm_obj = LimitDistributionORM.from_model(model)\n                session.merge(orm_obj)\n", "            for index, model in enumerate(models):\n                orm_obj = LimitDistributionORM.from_model(model)\n                session.merge(orm_obj)\n                if index % 500 == 499:\n                    session.commit()\n")],
  demo=STORE + '''
with tempfile.TemporaryDirectory() as t:
    s = S(f"sqlite:///{t}/a.sqlite")
    s.init()
    ms = [M(exp=i) for i in range(700)]
    ms[650].criterion_code = None
    try:
        s.insert_bulk_data(ms)
    except Exception:
        pass
    else:
        raise AssertionError("no error")
    n = sqlite3.connect(f"{t}/a.sqlite").execute("select count(*) from limit_distributions").fetchone()[0]
    s.engine.dispose()
    assert n == 0, n
''', needs="more than 500 distributions in one bulk insertion that then fails", breaks="a failed bulk insertion leaves the first 500 behind"),
 dict(id="P16-leaked-session", property="P16",
  edits=[(DS, "        with self.Session() as session:\n            session.merge(orm_obj)\n            session.commit()\n", "        session = self.Session()\n        session.merge(orm_obj)\n        session.commit()\n        session.close()\n")],
  demo=STORE + '''
with tempfile.TemporaryDirectory() as t:
    s = S(f"sqlite:///{t}/a.sqlite")
    s.init()
    import sqlalchemy.orm as o
    closed = []
    old = o.Session.close
    o.Session.close = lambda self: (closed.append(1), old(self))[1]
    bad = M()
    bad.criterion_code = None
    try:
        s.insert_data(bad)
    except Exception:
        pass
    s.engine.dispose()
    assert closed
''', needs="an insertion that fails", breaks="the session of a failed insertion is never closed"),
 dict(id="P17-bulk-limit", property="P17",
  edits=[(DS, "                LimitDistributionORM.criterion_code.in_(criterion_codes),\n                LimitDistributionORM.sample_size.between(min_size, max_size),\n            )\n", "                LimitDistributionORM.criterion_code.in_(criterion_codes),\n                LimitDistributionORM.sample_size.between(min_size, max_size),\n            ).order_by(desc(LimitDistributionORM.monte_carlo_count)).limit(len(criterion_codes))\n")],
  demo=STORE + '''
s = S("sqlite://")
s.init()
s.insert_bulk_data([M(exp=1, code="A", mc=900), M(exp=2, code="A", mc=800), M(exp=1, code="B", mc=100)])
assert {m.criterion_code for m in s.get_bulk_data(["A", "B"], 10)} == {"A", "B"}
''', needs="several stored distributions of one of the requested criteria", breaks="the bulk lookup fetches only as many rows as codes were asked for, so a criterion with fewer simulations is not found"),
 dict(id="P17-best-by-size", property="P17",
  edits=[(DS, ".order_by(desc(LimitDistributionORM.monte_carlo_count))", ".order_by(desc(LimitDistributionORM.sample_size), desc(LimitDistributionORM.monte_carlo_count))")],
  demo=STORE + '''
s = S("sqlite://")
s.init()
s.insert_bulk_data([M(n=10, mc=900), M(n=11, mc=100)])
assert s.get_data_for_cv(CriticalValueQuery("C", 10, 1)).monte_carlo_count == 900
''', needs="distributions of different sizes within the accepted error", breaks="the lookup prefers the largest size to the greatest simulation count"),
 dict(id="P18-key-parameters", property="P18",
  edits=[(ORM, '            "criterion_parameters",\n            "sample_size",\n', '            "sample_size",\n')],
  demo=STORE + '''
s = S("sqlite://")
s.init()
s.insert_data(M(params=(0.0, 1.0)))
s.insert_data(M(params=(5.0, 1.0)))
for p in ([0.0, 1.0], [5.0, 1.0]):
    assert s.get_data(LimitDistributionQuery("C", p, 10, 100)) is not None, p
''', needs="two distributions that differ only in the criterion's parameters", breaks="the parameters are not part of the primary key: the second distribution replaces the first"),
 dict(id="P19-header-count", property="P19",
  edits=[(DEC, 'header = struct.pack("<BBI", self.VERSION, dtype_code, len(arr))', 'header = struct.pack("<BBI", self.VERSION, dtype_code, len(arr) & 0xFFFF)')],
  demo='''
from pysatl_criterion.persistence.sqlalchemy.alchemy_decorator import CompressedFloatArray as C
c = C()
v = [float(i) for i in range(70000)]
assert c.process_result_value(c.process_bind_param(v, None), None) == v
''', needs="more than 65535 simulated values", breaks="the stored element count wraps around, so long distributions are read back short"),
 dict(id="P20-exact-size-cache", property="P20",
  edits=[(RL, "            query = CriticalValueQuery(code, sample_size, sample_size_error)\n            if self.__local_storage.get_data_for_cv(query):\n                already_cached", "            query = CriticalValueQuery(code, sample_size)\n            if self.__local_storage.get_data_for_cv(query):\n                already_cached")],
  demo='''
from unittest.mock import MagicMock
from pysatl_criterion.hypothesis_testing.critical_values.loader.remote_loader import CriticalValueLoader as L
local, remote = MagicMock(), MagicMock()
local.get_data_for_cv.side_effect = lambda q: object() if q.sample_size_error == 3 else None
remote.get_bulk_data.return_value = []
r = L(local, remote).load_bulk(["A"], 20, 3)
assert r.already_cached_count == 1, r
''', needs="a bulk load with an accepted size error and a neighbouring size in the cache", breaks="the local cache is searched for the exact size only"),
 dict(id="P21-logged-url", property="P21",
  edits=[(DS, 'logger.info(f"{label} connected successfully.")', 'logger.info(f"{label} connected successfully to {connection_string}.")')],
  demo='''
import logging, io
from pysatl_criterion.persistence.sqlalchemy import datastorage as d
buf = io.StringIO()
d.logger.addHandler(logging.StreamHandler(buf))
d.logger.setLevel(logging.DEBUG)
d.create_engine = lambda url, **k: __import__("sqlalchemy").create_engine("sqlite://")
assert d.AlchemyLimitDistributionStorage.create_safe("postgresql://u:hunter2@h/db") is not None
assert "hunter2" not in buf.getvalue(), buf.getvalue()
''', needs="a connection string with a password", breaks="the log of a successful connection contains the password"),
]
