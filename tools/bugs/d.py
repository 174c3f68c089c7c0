G = "statistics/goodness_of_fit/"
DS = "persistence/sqlalchemy/datastorage.py"
BUGS = [
 dict(id="P26-sorted-parameters", property="P26",
  edits=[("statistics/hypothesis.py", "        return list(self.params.values())\n", "        return sorted(self.params.values())\n")],
  demo='''
from pysatl_criterion.statistics.goodness_of_fit.beta import KolmogorovSmirnovBetaGofStatistic as K
a, b = K(2, 3).hypothesis(), K(3, 2).hypothesis()
assert a.parameters() != b.parameters()
''', needs="the parameters of the hypothesis exchanged", breaks="permuted parameters share one stored null distribution"),
 dict(id="P26-rounded-parameters", property="P26",
  edits=[("statistics/hypothesis.py", "        return list(self.params.values())\n", "        return [float(f\"{v:.6g}\") for v in self.params.values()]\n")],
  demo='''
from pysatl_criterion.statistics.hypothesis import GoodnessOfFitHypothesis as H
a, b = H({"a": 1000000.2}), H({"a": 1000000.4})
assert a.parameters() != b.parameters()
''', needs="parameters that agree in six digits", breaks="close parameters share one stored null distribution"),
 dict(id="P26-student-degrees", property="P26",
  edits=[(G+"student.py", 'GoodnessOfFitHypothesis({"df": self.df})', 'GoodnessOfFitHypothesis({"df": max(1, round(self.df))})')],
  demo='''
from pysatl_criterion.statistics.goodness_of_fit.student import KolmogorovSmirnovStudentGofStatistic as K
a, b = K(df=2.5), K(df=2)
assert a.hypothesis().parameters() != b.hypothesis().parameters()
''', needs="degrees of freedom that are not whole", breaks="fractional degrees of freedom share the stored distribution of the whole ones"),
 dict(id="P27-younger-name", property="P27",
  edits=[("hypothesis_testing/p_value/calculator/p_value_calculator.py", "from typing_extensions import override\n", "from typing import override\n")],
  demo='''
import typing
if hasattr(typing, "override"):
    del typing.override          # Python 3.10 and 3.11 do not have it
import pysatl_criterion
''', needs="Python 3.10 or 3.11, which the project supports", breaks="the package cannot be imported on the older supported versions"),
 dict(id="P27-cycle", property="P27",
  edits=[("utils/statistic.py", "from pysatl_criterion.statistics import AbstractGoodnessOfFitStatistic\n", "from pysatl_criterion.statistics import AbstractGoodnessOfFitStatistic\nfrom pysatl_criterion.statistics.goodness_of_fit import normal  # noqa: F401\n"),
         (G+"normal.py", "class KolmogorovSmirnovNormalityGofStatistic(", "from pysatl_criterion.utils.statistic import get_available_criteria  # noqa: E402,F401\n\n\nclass KolmogorovSmirnovNormalityGofStatistic(")],
  demo='''
import subprocess
import sys
for m in ("pysatl_criterion.statistics.goodness_of_fit", "pysatl_criterion.utils.statistic"):
    r = subprocess.run([sys.executable, "-B", "-c", f"import {m}"], capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
''', needs="the utilities are imported before the criteria", breaks="an import cycle: the utilities cannot be imported first"),
 dict(id="P27-name-in-branch", property="P27",
  edits=[("hypothesis_testing/limit_distribution/base.py", 'raise ValueError("sample_size must be positive")', 'raise SampleSizeError("sample_size must be positive")')],
  demo='''
from pysatl_criterion.hypothesis_testing.limit_distribution.base import MonteCarloLimitDistributionResolver as R
from pysatl_criterion.statistics.goodness_of_fit.normal import KolmogorovSmirnovNormalityGofStatistic as K
try:
    R(3).resolve(K(), 0)
    raise SystemExit("accepted")
except ValueError:
    pass
''', needs="the error path", breaks="the error path raises NameError: the exception is not defined"),
]
