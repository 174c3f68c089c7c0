G = "statistics/goodness_of_fit/"
REF = '''
import itertools
import numpy as np


def graph(x, d):
    return [{j for j in range(len(x)) if j != i and abs(x[i] - x[j]) < d} for i in range(len(x))]


def components(x, d):
    g, seen, k = graph(x, d), set(), 0
    for i in range(len(x)):
        if i not in seen:
            k += 1
            todo = [i]
            while todo:
                v = todo.pop()
                if v not in seen:
                    seen.add(v)
                    todo += g[v]
    return k


def independent(x, d):
    g = graph(x, d)
    return max(len(s) for k in range(1, len(x) + 1) for s in itertools.combinations(range(len(x)), k) if all(b not in g[a] for a in s for b in s))

'''
BUGS = [
 dict(id="P29-repeats", property="P29",
  edits=[(G+"graph_goodness_of_fit.py", "if abs(rvs[i] - rvs[j]) < dist:", "if 0 < abs(rvs[i] - rvs[j]) < dist:")],
  demo=REF + '''
from pysatl_criterion.statistics.goodness_of_fit.exponent import GraphEdgesNumberExponentialityGofStatistic as E
x = [1.0, 2.0, 2.0, 2.0, 5.0, 9.0, 11.0]
d = (max(x) - min(x)) / 10 / np.mean(x)
assert E().execute_statistic(x) == sum(map(len, graph(x, d))) // 2 == 3
''', needs="an observation that occurs twice", breaks="equal observations are not joined"),
 dict(id="P29-walk", property="P29",
  edits=[(G+"graph_goodness_of_fit.py", "neighbor for neighbor in graph[v] if neighbor not in visited", "neighbor for neighbor in graph[v] if neighbor > node + 1 or neighbor == v + 1")],
  demo=REF + '''
from pysatl_criterion.statistics.goodness_of_fit.exponent import GraphConnectedComponentsExponentialityGofStatistic as C
x = [1.0, 1.2, 1.1, 3.0]
d = (max(x) - min(x)) / 10 / np.mean(x)
assert components(x, d) == C().execute_statistic(x) == 2
''', needs="two observations in a row linked only through a later one", breaks="a component is counted twice"),
 dict(id="P29-unique", property="P29",
  edits=[(G+"gamma.py", "        sorted_sample = np.sort(sample)\n        uniformized = scipy_stats.gamma.cdf(sorted_sample,", "        sorted_sample = np.unique(sample)\n        uniformized = scipy_stats.gamma.cdf(sorted_sample,")],
  demo=REF + '''
from pysatl_criterion.statistics.goodness_of_fit.gamma import GraphMaxDegreeGammaGofStatistic as M
from scipy import stats
x = [0.1, 0.5, 0.5, 0.5, 1.0, 3.0]
u = stats.gamma.cdf(x, a=1, scale=1)
d = (max(u) - min(u)) / 10
assert M(1, 1).execute_statistic(x) == max(map(len, graph(u, d))) == 2
''', needs="an observation that occurs twice", breaks="repeated observations are one vertex"),
]
