"""P29: graph statistics are the invariants of the proximity graph of the sample."""
from __future__ import annotations

import ast
import itertools
import math
import multiprocessing
import os
from fractions import Fraction

import sympy

from .. import order, stats
from ..drive import INF, Session
from ..interp import AnalysisBroken
from .registry import check
from .testing import heap_list, pnum

GRAPHS = ("EdgesNumber", "MaxDegree", "AverageDegree", "ConnectedComponents", "CliqueNumber", "IndependenceNumber")
FAMILIES = {"normal": "variance", "exponent": "mean", "gamma": "distribution function"}


# ---------------------------------------------------------------- the definitions
def adjacency(xs, d):
    return [[abs(a - b) < d and i != j for j, b in enumerate(xs)] for i, a in enumerate(xs)]


def subsets(n):
    for k in range(n, 0, -1):
        yield from itertools.combinations(range(n), k)


def invariant(name, xs, d):
    """The invariant of the graph joining observations nearer than d, straight from its definition."""
    g = adjacency(xs, d)
    n = len(xs)
    degrees = [sum(r) for r in g]
    if name == "EdgesNumber":
        return Fraction(sum(degrees), 2)
    if name == "MaxDegree":
        return Fraction(max(degrees))
    if name == "AverageDegree":
        return Fraction(sum(degrees), n)
    if name == "ConnectedComponents":
        part = list(range(n))
        for i, j in itertools.combinations(range(n), 2):
            if g[i][j]:
                a, b = part[i], part[j]
                part = [a if p == b else p for p in part]
        return Fraction(len(set(part)))
    want = name == "CliqueNumber"
    if n > 14:                  # the graph is one of equal intervals: the same numbers from the order of the observations
        ys = sorted(xs)
        if want:
            return Fraction(max(sum(1 for y in ys[i:] if y - x < d) for i, x in enumerate(ys)))
        k, last = 0, None
        for y in ys:
            if last is None or y - last >= d:
                k, last = k + 1, y
        return Fraction(k)
    for s in subsets(n):
        if all(g[i][j] == want for i, j in itertools.combinations(s, 2)):
            return Fraction(len(s))


def threshold(fam, xs):
    r = Fraction(max(xs) - min(xs)) / 10
    m = sum(xs, Fraction(0)) / len(xs)
    if fam == "exponent":
        return r / m
    if fam == "normal":
        return r / (sum((x - m) ** 2 for x in xs) / len(xs))
    return r


# ---------------------------------------------------------------- representatives of the order cells
def signature(xs, d):
    """What the program can see of a sample through comparisons: orders of observations and of their distances with the threshold."""
    return tuple((a > b) - (a < b) for a, b in itertools.combinations(xs, 2)) + tuple((abs(a - b) > d) - (abs(a - b) < d) for a, b in itertools.combinations(xs, 2))


def scaled(fam, ys, t):
    """The pattern measured in a unit in which the threshold is t of the pattern's units (as nearly as rationals allow)."""
    ys = [Fraction(y) for y in ys]
    r = max(ys) - min(ys)
    if fam == "exponent":
        ys = [y + 1 for y in ys]
        s = r / (10 * (sum(ys) / len(ys)) * t)
        return [y * s for y in ys]
    if fam == "normal":
        m = sum(ys) / len(ys)
        v = sum((y - m) ** 2 for y in ys) / len(ys)
        q = r / (10 * v * t)
        a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
        s = Fraction(a, b) if a * a == q.numerator and b * b == q.denominator else Fraction(math.sqrt(q)).limit_denominator(1000)
        return [(y - 1) * s for y in ys]
    return None


def patterns(n, top):
    """Sorted whole-number samples, not all equal."""
    for rest in itertools.combinations_with_replacement(range(top + 1), n - 1):
        if rest[-1] > 0:
            yield (0,) + rest


LARGER = (tuple(range(9)), (0, 0, 0, 0, 0, 4, 5, 5, 6, 6), (0, 1, 3, 4, 6, 7, 9, 10, 12, 13, 15), (0, 2, 4, 6, 6, 6, 6, 6, 6, 8, 10), (0, 7, 7, 7, 8, 8, 8, 9, 9, 9, 16, 17))


def mixed(xs, k):
    """The k-th of some arrangements of a sample: ascending, descending, inside out, …"""
    n = len(xs)
    if k % 4 == 0:
        return list(xs)
    if k % 4 == 1:
        return list(xs)[::-1]
    if k % 4 == 2:
        return [xs[i] for i in sorted(range(n), key=lambda i: ((i * 2 + 1) % n, i))]
    return list(xs[n // 2:]) + list(xs[:n // 2])[::-1]


def samples(fam, tier):
    """A sample of every order cell of up to five observations, in several arrangements, and larger ones with ends in use."""
    seen, out = set(), []
    k = 0
    tops = {2: 3, 3: 6, 4: 8, 5: 9} if tier == "thorough" else {2: 3, 3: 5, 4: 6, 5: 5}
    for n, top in tops.items():
        if fam == "gamma" and tier != "thorough":
            n, top = min(n, 4), min(top, 4)
        for ys in patterns(n, top):
            if fam == "gamma":
                # the threshold is a tenth of the range: stretch by one far observation
                cases = [[Fraction(y, 100) for y in ys]]
                gaps = sorted({abs(a - b) for a, b in itertools.combinations(ys, 2)} - {0})
                for g in gaps[:2]:
                    for far in (10 * g, 10 * g + 5, 10 * g - 5):
                        if far > ys[-1]:
                            cases.append([Fraction(y, 1000) for y in ys] + [Fraction(far, 1000)])
                            cases.append([Fraction(5, 1000)] + [Fraction(far + 5 - y, 1000) for y in reversed(ys)])
                cases = [[c + Fraction(1, 50) for c in cs] for cs in cases]
            else:
                gaps = sorted({abs(a - b) for a, b in itertools.combinations(ys, 2)} - {0})
                ts = [Fraction(g) for g in gaps] + [Fraction(a + b, 2) for a, b in zip([0] + gaps, gaps + [gaps[-1] + 1])]
                cases = [scaled(fam, ys, t) for t in ts]
            for xs in cases:
                sig = signature(xs, threshold(fam, xs))
                if sig in seen:
                    continue
                seen.add(sig)
                k += 1
                out.append(mixed(xs, k))
                if tier == "thorough" and len(xs) <= 4:
                    out.append(mixed(xs, k + 2))
    for i, ys in enumerate(LARGER):
        for t in (Fraction(1), Fraction(3, 2), Fraction(5, 2)):
            if fam == "gamma":
                xs = [Fraction(1, 50) + Fraction(y, 1000) for y in ys] + [Fraction(1, 50) + t * 10 / 1000]
                if xs[-1] <= xs[-2]:
                    continue
            else:
                xs = scaled(fam, ys, t)
            out.append(mixed(xs, i))
    return out


def many(fam, tier, constants):
    """Samples of more observations, of the sizes the code distinguishes among them: one cluster with an outlier, and spread out."""
    out = []
    for n in (26, 41) + ((60,) if tier == "thorough" else ()):
        for k, t in enumerate((Fraction(3, 2), Fraction(7, 2))):
            ys = sorted((7 * i * i + 3 * i) % (2 * n) for i in range(n))
            xs = [Fraction(1, 50) + Fraction(y, 4 * n) for y in ys] if fam == "gamma" else scaled(fam, ys, t)
            out.append(mixed(xs, n + k))
    for c in constants:
        n = c + 3
        ys = sorted((7 * i * i + 3 * i) % 5 for i in range(n - 1)) + [25]
        xs = [Fraction(1, 50) + Fraction(y, 1000) for y in ys[:-1]] + [Fraction(9, 100)] if fam == "gamma" else scaled(fam, ys, Fraction(11, 2))
        out.append(mixed(xs, n))
    return out


LEAST, MOST = 15, 260


def constants_of(I, cs):
    """The whole numbers the statistics' source mentions: sizes at which it may behave differently."""
    out = set()
    mods = {}
    for c, *_ in cs:
        for k in c.mro:
            if "graph" in k.module.name or k.name.startswith(("Graph", "AbstractGraph")):
                mods.setdefault(k.module.name, set()).add(k.name)
    for m, names in mods.items():
        t = I.p.tree(m)
        body = [x for x in t.body if not isinstance(x, ast.ClassDef) or x.name in names] if "graph" not in m else t.body
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Constant) and type(x.value) in (int, float) and LEAST <= x.value <= MOST and x.value == int(x.value):
                    out.add(int(x.value))
    return sorted(out)[:4]


# ---------------------------------------------------------------- evaluation
def uniform_value(e, values):
    """The value of a distribution function at an observation; None when it is something else."""
    if not getattr(e.func, "__name__", "").startswith("law_") or not e.args or e.args[0] not in values or any(set(a.free_symbols) & set(values) for a in e.args[1:]):
        return None
    m = e.func.__name__.rsplit("_", 1)[1]
    return {"cdf": e.args[0], "sf": 1 - e.args[0]}.get(m)


class CdfValuation(order.Valuation):
    """Distribution functions are increasing: a sample is given by its values of the distribution function."""

    def _value(self, t):
        try:
            t = sympy.sympify(t)
            t = t.replace(lambda e: uniform_value(e, self.values) is not None, lambda e: uniform_value(e, self.values))
        except Exception:
            return None
        return super()._value(t)


def evaluate(I, c, fam, vals, kind):
    n = len(vals)
    syms = sympy.symbols(f"x1:{n + 1}", real=True)
    V = CdfValuation if fam == "gamma" else order.Valuation
    v = V({s: sympy.Rational(a.numerator, a.denominator) for s, a in zip(syms, vals)})
    I.known_run = I.exact_raises = True
    I.order = v
    try:
        s = Session(I, f"graph/{c.name}/{kind}")
        els = [pnum(x, str(x), iv=(-INF, INF, False)) for x in syms]
        inst = s.new(c)
        out = s.call(s.attr(inst, "execute_statistic"), heap_list(s, els, kind=kind))
        if out is None:
            return None, f"{len(s.raises)} raising paths", s
        done, k = out.const()
        if done and isinstance(k, (int, float)):
            return Fraction(k), None, s
        t = I.eff(out, s.st).term
        if t is None:
            return None, "no closed value", s
        w = v.value(t)
        if w is None:
            return None, f"undecided value {t}"[:120], s
        return Fraction(int(w.p), int(w.q)), None, s
    finally:
        I.known_run = I.exact_raises = False
        I.order = None


def site_of(c):
    for name in ("execute_statistic",):
        d, m = c.lookup(name)
        for a in (m.atoms if m is not None else ()):
            if a[0] == "f":
                return (a[1].module.path, a[1].node.lineno, a[1].qualname)
    return None


def show(vals):
    return "[" + ", ".join(f"{float(v):.6g}" for v in vals[:40]) + (f", … ({len(vals)})" if len(vals) > 40 else "") + "]"


@check("P29", "abstract interpretation over the order cells of a sample, compared with graph invariants by definition",
       "The statistic is interpreted on symbolic samples: an abstract sample is one order of the observations and of all their pairwise distances against the "
       "threshold (including exact ties), which is all that comparisons can see; loops unroll over the known size, sums and reductions are kept as exact terms. "
       "The value returned in each cell is compared with the invariant computed from the definition of the graph (pairs nearer than the threshold are joined).",
       "Every such order of two to five observations that whole-number patterns produce, repeated observations included, as list and as array, in several "
       "arrangements, and a handful of larger samples (chains, clusters, up to 41 observations and just beyond the whole numbers up to 260 the source mentions); others are not enumerated. A sample of equal observations has no threshold and is left out.")
def p29(rep, root, tier):
    I = stats.new_interp(root)
    cs = [(c, fam, g) for c in stats.concrete_statistics(I) for fam in FAMILIES for g in GRAPHS
          if c.module.name.endswith(f".{fam}") and c.name.startswith(f"Graph{g}")]
    rep.rule = "in every order cell the value is the invariant of the graph joining observations nearer than the threshold"
    if len(cs) < 12:
        raise AnalysisBroken(f"only {len(cs)} graph statistics found")
    extra = constants_of(I, cs)
    _G.update(I=I, cs=cs, pts={fam: samples(fam, tier) + many(fam, tier, extra) for fam in FAMILIES})
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 2)) as pool:
        results = dict(pool.imap_unordered(_job, range(len(cs)), chunksize=1))
    for k, (c, fam, g) in enumerate(cs):
        open_, bad, done, first = results[k]
        if first:
            rep.violation(f"{c.name}:invariant", first[0], site_of(c), first[1])
        rep.count("order cells evaluated", done)
        if bad:
            rep.count("order cells that differ", bad)
        elif done and not open_:
            rep.ok(f"{c.name}: {done} order cells")
        else:
            rep.unsure(f"{c.name}", f"{sum(open_.values())} of {len(_G['pts'][fam])} cells undecided: {', '.join(open_)[:200]}")


_G = {}


def _job(k):
    I, (c, fam, g) = _G["I"], _G["cs"][k]
    open_, bad, done, first = {}, 0, 0, None
    for i, vals in enumerate(_G["pts"][fam]):
        kind = ("list", "array")[i % 2]
        d = threshold(fam, vals)
        got, why, _ = evaluate(I, c, fam, vals, kind)
        if got is None:
            open_[why] = open_.get(why, 0) + 1
            if sum(open_.values()) > 20 and not done:
                break
            continue
        done += 1
        want = invariant(g, vals, d)
        if got != want and abs(got - want) > Fraction(1, 10**9):
            bad += 1
            if bad == 1:
                first = (f"{c.name}: for the sample {show(vals)} ({kind}), where observations nearer than {float(d):.6g} are joined, "
                         f"the value is {got}, the graph's {'degree' if 'Degree' in g else 'invariant'} is {want}",
                         {"statistic": c.qualname, "sample": show(vals), "kind": kind})
    return k, (open_, bad, done, first)
