"""P28: the statistics equal their definitions."""
from __future__ import annotations

import math
import multiprocessing
import os
import time

import sympy

from .. import closed as cl
from .. import congruence, definitions, stats
from ..interp import AnalysisBroken
from ..summary import Raised, Text, Unknown, Walker, const_term, number, whole
from .registry import check

MIN_DEFINED = 120
POSITIVE = {"EXPONENTIALITY", "GAMMA", "WEIBULL", "LOGNORMAL", "BETA"}
VALUES = [{"df": 4.5, "a": 0.3, "b": 1.7, "loc": 0.2, "scale": 1.4, "mean": 0.3, "var": 2.1, "lam": 0.8, "s": 0.7, "k": 1.6, "alpha": 1.9, "beta": 2.6},
          {"df": 1.7, "a": 0.6, "b": 2.9, "loc": 0.9, "scale": 0.6, "mean": 1.3, "var": 0.4, "lam": 1.9, "s": 1.3, "k": 0.7, "alpha": 0.8, "beta": 1.2}]
SIZES = (20, 21, 23, 30, 33, 58)
WHOLE = {"k": 4, "bins": 6, "n_bins": 6, "m": 4}          # parameters that count something
REL = 1e-7
CLOSE = 1e-6            # for large samples
ROUGH = 1e-4            # for samples of unusual shape, where rounding can cost digits


def code_of(I, c):
    w = Walker(I, [cl.Point(cl.samples("positive", 20, 1), {})], True)
    try:
        v = w.call(w.attr(w.instantiate(c, [], {}), "code"), [], {})
    except (Unknown, Raised):
        return None
    v = v if isinstance(v, str) else getattr(v, "text", None) if isinstance(v, Text) else None
    return v


def parameters(I, c, args):
    """Constructor arguments as terms, and their values at the probe points."""
    given, known, symbols = {}, {}, {}
    for n, v in args.items():
        ok, cv = v.const()
        if ok:
            given[n] = const_term(cv)
            known[n] = cv.name if hasattr(cv, "cls") else cv
        elif n in WHOLE and (n != "k" or "Neyman" in c.name):
            given[n] = known[n] = sympy.Integer(WHOLE[n])
        else:
            s = sympy.Symbol(n, positive=True, real=True)
            given[n] = known[n] = s
            symbols[n] = s
    return given, known, symbols


def sample_kind(fam):
    return "unit" if fam == "BETA" else "positive" if fam in POSITIVE else "interval" if fam == "UNIFORM" else "real"


def points(kind, symbols, sizes, seed):
    out = []
    for j, n in enumerate(sizes):
        vals = VALUES[j % len(VALUES)]
        p = {s: vals.get(name, 1.3) for name, s in symbols.items()}
        raw = cl.samples(kind, n, seed + j, (vals["a"], vals["b"]))
        out.append(cl.Point(raw, p))
    return out


def unusual(kind, symbols, tier):
    """Probe points of unusual shape, for expressions whose equality has no proof."""
    out = []
    for seed in range(11, 14 if tier != "thorough" else 23):
        vals = VALUES[seed % len(VALUES)]
        for j, sizes in enumerate(((20, 33), (27, 44))):
            n = sizes[seed % 2]
            for xs in cl.shapes(kind, n, seed + 100 * j, (vals["a"], vals["b"])).values():
                out.append(cl.Point(xs, {s: vals.get(name, 1.3) for name, s in symbols.items()}))
            if "df" in {s.name for s in symbols.values()}:       # outliers as heavy tails have them
                xs = cl.samples(kind, n, seed + 100 * j, (vals["a"], vals["b"]))
                for far in (-80.0, -25.0, 25.0, 80.0):
                    out.append(cl.Point([far] + xs[1:], {s: vals.get(name, 1.3) for name, s in symbols.items()}))
    return out


def nested(e):
    """How deep bound variables are nested in an expression."""
    return max((nested(a) for a in e.args), default=0) + (1 if isinstance(e, cl.BINDERS) else 0)


def thresholds(*es, low=cl.NMIN, high=400):
    """Sample sizes at which a condition on n alone can change, or an index can pass a constant."""
    out = set()
    for e in es:
        near = list(e.atoms(cl.Gt0, cl.Ge0, cl.Eq0, cl.MaxF)) + [a for b in e.atoms(*cl.BINDERS) for a in b.args[2:4]]
        for c in near:
            if not c.atoms(*cl.OBS):
                for x in c.atoms(sympy.Number):
                    if low < abs(x) < high:
                        out |= {int(abs(x)) + d for d in (-1, 0, 1, 2, 3)}
        for c in e.atoms(cl.Gt0, cl.Ge0, cl.Eq0):
            if c.free_symbols == {cl.N}:
                try:
                    r = sympy.solve(c.args[0], cl.N)
                except Exception:
                    continue
                for x in r:
                    if x.is_number and x.is_real and low < x < high:
                        out |= {int(sympy.floor(x)) + d for d in (-1, 0, 1)}
    return sorted(n for n in out if n >= cl.NMIN)[:40]


def param_thresholds(symbols, *es):
    """Parameter values around which a condition on one parameter alone changes."""
    out = []
    syms = set(symbols.values())
    for c in set().union(*(e.atoms(cl.Gt0, cl.Ge0, cl.Eq0, cl.MaxF) for e in es)):
        fs = c.free_symbols
        if len(fs) != 1 or not fs <= syms or c.atoms(*cl.OBS):
            continue
        s = next(iter(fs))
        for x in {x for x in c.atoms(sympy.Number) if x.is_finite}:
            for v in (x, -x, 1 / x if x else x):
                for d in (-1, 0, 1):
                    out.append((s, float(v) * (1 + d * 1e-3) if v else d * 1e-3))
                    if abs(v) > 1:
                        out.append((s, float(v) + d))
    return out[:60]


SINGLE = (21, 20, 32, 51, 66, 101, 130, 201)


def differ(a, b, rel=REL):
    if isinstance(a, bool) or isinstance(b, bool):
        return None
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return None
    return not math.isclose(a, b, rel_tol=rel, abs_tol=max(1e-9, rel * 1e-2))


def compare(got, want, probes, rel=REL):
    """How many probe points give both expressions a value, and where they differ."""
    seen = 0
    for p in probes:
        try:
            a, b = p.at(got), p.at(want)
        except cl.NoValue:
            continue
        d = differ(float(a), float(b), rel)
        if d is None:
            continue
        seen += 1
        if d:
            ps = ", ".join(f"{s}={v}" for s, v in p.env.items() if s is not cl.N)
            return seen, f"for a sample of {p.n} observations{' with ' + ps if ps else ''} the expression computed has the value {float(a):.9g}, " \
                         f"the definition {float(b):.9g}"
    return seen, None


def judge(I, c, vn, args, code, tier):
    """(verdict, message): same, agrees, differs, undefined, unknown."""
    fam = code.rsplit("_", 1)[1]
    fn = definitions.definition(code)
    if fn is None:
        return "undefined", "no definition"
    kind = sample_kind(fam)
    given, known, symbols = parameters(I, c, args)
    positive = fam in POSITIVE
    try:
        want = fn(definitions.observed(positive, known))
    except KeyError as e:
        return "unknown", f"the definition needs {e}"
    if want is None:
        return "undefined", "no definition for these options"
    want = sympy.sympify(want)
    def summarised(sizes=None, length=cl.N):
        w = Walker(I, points(kind, symbols, sizes or (20, 21, 33), 1), positive, sizes)
        inst = w.instantiate(c, [], given)
        return sympy.sympify(number(w.call(w.attr(inst, "execute_statistic"), [whole(length, lambda k: w.Rf(k))], {})))
    try:
        got = summarised()
    except (Unknown, Raised, cl.NoValue) as e:
        seen = 0
        for n in SINGLE:            # what has no form for every size may have one for a given size
            try:
                try:
                    got = summarised((n,))
                except (Unknown, Raised, cl.NoValue, RecursionError):
                    got = summarised((n,), sympy.Integer(n))
            except (Unknown, Raised, cl.NoValue, RecursionError):
                if not seen:
                    break
                continue
            more, bad = compare(got, want, points(kind, symbols, (n, n, n), 3))
            if bad:
                return "differs", bad, "differs"
            seen += more
        return "unknown", f"no closed form: {e}" + (f"; at {seen} samples of given sizes it agrees" if seen else "")
    except RecursionError:
        return "unknown", "no closed form: too deep"
    probes = points(kind, symbols, SIZES + tuple(thresholds(got, want)), 3)
    seen, bad = compare(got, want, probes)
    if bad:
        for name, f in definitions.deviations(code).items():
            other = sympy.sympify(f(definitions.observed(positive, known)))
            k, worse = compare(got, other, probes)
            if k and not worse:
                return "differs", bad, name
        return "differs", bad, "differs"
    if not seen:
        return "unknown", "no probe point where both have a value"
    left = _G["until"] - time.monotonic()
    if cl.proved(got, want, min(3, max(left, .1))) or left > 0 and congruence.congruent(got, want, points(kind, symbols, (21, 22, 30, 33), 5), min(_G["each"], left)):
        return "same", ""
    more, bad = compare(got, want, unusual(kind, symbols, tier), ROUGH)
    if bad:
        return "differs", bad, "differs"
    seen += more
    deep = max(nested(got), nested(want))
    large = thresholds(got, want, low=400, high={0: 10 ** 6, 1: 12000, 2: 700}.get(deep, 0))
    if large:                       # sizes the code itself distinguishes, beyond those looked at
        more, bad = compare(got, want, points(kind, symbols, tuple(large[:6] + large[-6:] if len(large) > 12 else large), 3), CLOSE)
        if bad:
            return "differs", bad, "differs"
        seen += more
    own = []
    for s, v in param_thresholds(symbols, got, want) if fam != "UNIFORM" else ():   # parameter values it distinguishes
        if v > 0:
            own += [cl.Point(p.raw, {**{k: x for k, x in p.env.items() if k is not cl.N}, s: v}) for p in points(kind, symbols, (21, 30), 7)]
    more, bad = compare(got, want, own, ROUGH)
    if bad:
        return "differs", bad, "differs"
    seen += more
    return "agrees", f"agrees at {seen} probe points; normal forms not identical"


_G = {}


def _job(i):
    I, jobs, tier = _G["I"], _G["jobs"], _G["tier"]
    c, vn, args, code = jobs[i]
    try:
        return (i,) + judge(I, c, vn, args, code, tier)
    except (Unknown, Raised, cl.NoValue) as e:
        return i, "unknown", str(e)
    except Exception as e:       # an expression the algebra cannot handle is not a verdict about the program
        return i, "unknown", f"{type(e).__name__} {e}"


def each(I, jobs, tier):
    total, one = (600, 150) if tier == "thorough" else (280, 60)
    _G.update(I=I, jobs=jobs, tier=tier, until=time.monotonic() + total, each=one)
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 2)) as pool:
        yield from pool.imap_unordered(_job, range(len(jobs)), chunksize=2)


@check("P28", "symbolic summaries of the statistics compared with their definitions in closed form",
       "every statistic whose definition is a closed form, translated from the source for an arbitrary sample of arbitrary size",
       "samples of at least 20 distinct observations inside the support; data-dependent searches, quadrature and maximisation have no closed form")
def p28(rep, root, tier):
    I = stats.new_interp(root)
    jobs = []
    codes = {}
    for c in stats.concrete_statistics(I):
        code = code_of(I, c)
        if code is None or not code.endswith("_GOODNESS_OF_FIT"):
            rep.unsure(c.name, "its code is not known")
            continue
        code = code[:-len("_GOODNESS_OF_FIT")]
        if definitions.definition(code) is None:
            rep.count("statistics without a definition in the table")
            continue
        codes[code] = c
        for vn, args in stats.variants(I, c):
            if vn != "arbitrary flags":
                jobs.append((c, vn, args, code))
    if len(codes) < MIN_DEFINED:
        raise AnalysisBroken(f"only {len(codes)} statistics with a definition found")
    rep.rule = "closed form of the value the code computes = closed form of the definition"
    done = {}
    for i, v, msg, *how in each(I, jobs, tier):
        done[i] = (v, msg, how[0] if how else "differs")
    for i, (c, vn, args, code) in enumerate(jobs):
        v, msg, how = done[i]
        key = f"{c.name}:{vn}" if vn != "default flags" else c.name
        if v == "same":
            rep.ok(key)
            rep.count("closed forms identical to the definition")
        elif v == "agrees":
            rep.unsure(key, msg)
        elif v == "differs":
            d, m = c.lookup("execute_statistic")
            f = next((a[1] for a in m.atoms if a[0] == "f"), None) if m is not None else None
            site = (f.module.path, f.node.lineno, f.qualname) if f is not None else None
            rep.violation(f"{key}:{how}", f"{c.name} is not the statistic of its definition: {msg}", site, {"criterion": code})
        elif v == "undefined":
            rep.count("variants without a definition")
        else:
            rep.unsure(key, msg)
