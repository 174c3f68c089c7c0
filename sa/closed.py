"""Closed forms: expressions over a sample of unknown size, their normal form, and when two of them differ.

An expression is a sympy tree over the size n, the parameters of the hypothesis, R(k) (the k-th observation as
given) and O(k) (the k-th smallest), with binders for sums, products and maxima over an index.  A quantity of the
program that has a closed form has it for every sample size and every sample.
"""
from __future__ import annotations

import math
import random
import signal

import sympy

N = sympy.Symbol("n", positive=True, integer=True)
NMIN = 20            # closed forms are about samples of at least this many observations


class Head(sympy.Function):
    @classmethod
    def eval(cls, *a):
        return None

    def _eval_is_real(self):
        return True

    def _eval_is_commutative(self):
        return True


class Pos(Head):
    def _eval_is_positive(self):
        return True


class R(Head):
    pass


class O(Head):
    pass


class Rp(Pos):
    pass


class Op(Pos):
    pass


class CR(Head):
    """CR(k): the k-th observation less the mean of the observations."""


class CO(Head):
    """CO(k): the k-th smallest observation less the mean."""


class CLR(Head):
    """CLR(k): the logarithm of the k-th observation less the mean of the logarithms."""


class CLO(Head):
    pass


OBS = (R, O, Rp, Op, CR, CO, CLR, CLO)


class Sg(Head):
    """Sg(body, k, lo, hi): the sum of body over k = lo..hi."""


class Mx(Head):
    pass


class Pd(Head):
    pass


class Ost(Head):
    """Ost(body, k, lo, hi, j): the j-th smallest (from 0) of body over k."""


class Any(Head):
    pass


class Arg(Head):
    """The index at which body is largest."""


BINDERS = (Sg, Mx, Pd, Ost, Any, Arg)


class Ite(Head):
    pass


class Gt0(Head):
    pass


class Ge0(Head):
    pass


class Eq0(Head):
    pass


class AndF(Head):
    pass


class OrF(Head):
    pass


class NotF(Head):
    pass


CONDS = (Gt0, Ge0, Eq0, AndF, OrF, NotF, Any)


class MaxF(Head):
    pass


class Fl(Head):
    """floor"""
    @classmethod
    def eval(cls, a):
        if a.is_Rational:
            return sympy.floor(a)
        if a.is_integer:
            return a

    def _eval_is_integer(self):
        return True


class Rnd(Head):
    @classmethod
    def eval(cls, a, d=sympy.Integer(0)):
        if a.is_Rational and d.is_Integer:
            return sympy.Rational(round(a * 10 ** d), 1) / 10 ** d


class Sgn(Head):
    @classmethod
    def eval(cls, a):
        if a.is_Rational:
            return sympy.sign(a)


class Psi(Head):
    """digamma function"""
    @classmethod
    def eval(cls, a):
        if a.is_Integer and 0 < a < 50:
            return sympy.harmonic(a - 1) - sympy.EulerGamma


class Lg(Head):
    """log of the gamma function"""


class Gam(Head):
    pass


class Bin(Head):
    """binomial coefficient"""
    @classmethod
    def eval(cls, a, b):
        if a.is_Integer and b.is_Integer:
            return sympy.Integer(math.comb(int(a), int(b))) if a >= 0 and b >= 0 else sympy.Integer(0)


class Fact(Head):
    @classmethod
    def eval(cls, a):
        if a.is_Integer and a >= 0:
            return sympy.factorial(a)


class Phi(Head):
    pass


class Pinv(Head):
    pass


class Law(Head):
    """Law(kind, family, x, shapes...): a distribution function without a closed form of its own."""


class Leg(Head):
    """Leg(j, x): Legendre polynomial"""


class Fun(Head):
    """Fun(name, args...): a library function left as it is."""


def ite(c, a, b):
    if c is True or c is sympy.true:
        return a
    if c is False or c is sympy.false:
        return b
    a, b = sympy.sympify(a), sympy.sympify(b)
    if a == b:
        return a
    if isinstance(c, (Gt0, Ge0)):
        d = c.args[0]
        try:
            if sympy.expand(a - b - d) == 0:
                return MaxF(a, b)
            if sympy.expand(b - a - d) == 0:
                return -MaxF(-a, -b)
        except Exception:
            pass
    return Ite(c, a, b)


def neg(c):
    if isinstance(c, bool):
        return not c
    if isinstance(c, Gt0):
        return Ge0(-c.args[0])
    if isinstance(c, Ge0):
        return Gt0(-c.args[0])
    if isinstance(c, NotF):
        return c.args[0]
    return NotF(c)


# ------------------------------------------------------------------ numeric values of expressions
class Point:
    """A sample with values for the parameters."""

    def __init__(self, sample, params):
        import numpy as np
        self.raw = np.asarray(sample, dtype=float)
        self.sorted = np.sort(self.raw)
        self.n = len(self.raw)
        self.env = {N: self.n}
        self.env.update(params)
        self.memo = {}
        self.masked = 0
        self.trouble = None

    def pick(self, xs, i):
        import numpy as np
        i = np.asarray(i, dtype=int)
        ok = (i >= 0) & (i < self.n)
        if np.all(ok):
            return xs[i] if i.ndim else float(xs[i])
        if not self.masked:
            raise NoValue("index outside the sample")
        return np.where(ok, xs[np.clip(i, 0, self.n - 1)], np.nan)

    def at(self, e, env=None):
        env = {} if env is None else env
        return value(sympy.sympify(e), self, env)


class NoValue(Exception):
    pass


_BOUND = {}


def bound_inside(e):
    """The index symbols bound by a binder in e."""
    r = _BOUND.get(e)
    if r is None:
        r = frozenset(b.args[1] for b in e.atoms(*BINDERS))
        _BOUND[e] = r
    return r


def _strict(what, fn, bad):
    """A function that raises outside its domain: no number there, and a note of it."""
    def f(p, x):
        import numpy as np
        with np.errstate(all="ignore"):
            x = np.asarray(x, dtype=float)
            out = bad(x)
            if np.any(out):
                p.trouble = what
            r = np.where(out, np.nan, fn(np.where(out, 1.0, x)))
        return r if r.ndim else float(r)
    return f


def _raised(p):
    p.trouble = "an exception is raised"
    return math.nan


def _nplog(x):
    import numpy as np
    return np.log(x)


def _npexp(x):
    import numpy as np
    return np.exp(x)


STRICT = {"math.log": _strict("math.log is given a number that is not positive", _nplog, lambda x: x <= 0),
          "math.exp": _strict("math.exp overflows", _npexp, lambda x: x > 709.78),
          "raised": _raised}


def value(e, p, env):
    import numpy as np
    if e.is_Symbol:
        if e in env:
            return env[e]
        if e in p.env:
            return p.env[e]
        raise NoValue(f"{e} has no value")
    if e.is_Integer:
        return int(e)
    if e.is_Rational or e.is_Float or e is sympy.pi or e is sympy.E or e is sympy.EulerGamma:
        return float(e)
    if e is sympy.oo:
        return math.inf
    if e is -sympy.oo:
        return -math.inf
    if e in (sympy.true, sympy.false):
        return bool(e)
    closed = not env or not (e.free_symbols & set(env))
    if closed and e in p.memo:
        return p.memo[e]
    r = _value(e, p, env)
    if closed:
        p.memo[e] = r
    return r


def _binder(e, p, env):
    """A binder at all values of the outer indices at once: the bound index is the last axis."""
    import numpy as np
    f = e.func
    body, k, lo, hi = e.args[:4]
    lo, hi = value(lo, p, env), value(hi, p, env)
    lo0, hi0 = int(np.min(lo)), int(np.max(hi))
    ks = np.arange(lo0, hi0 + 1)
    m = len(ks)
    outer = np.broadcast_shapes(*[np.shape(v) for v in env.values()], np.shape(lo), np.shape(hi)) if (np.ndim(lo) or np.ndim(hi)
                                                                                                   or any(np.ndim(v) for v in env.values())) else ()
    used = bool(outer) and (np.ndim(lo) or np.ndim(hi) or any(np.ndim(env[x]) for x in e.free_symbols if x in env))
    if not used:
        outer = ()
        env = {x: v for x, v in env.items() if not np.ndim(v)}
    total = m * int(np.prod(outer)) if outer else m
    if total > 4000000:
        raise NoValue("too costly")
    mask = None
    if np.ndim(lo) or np.ndim(hi):
        mask = (ks >= np.expand_dims(np.asarray(lo), -1)) & (ks <= np.expand_dims(np.asarray(hi), -1))
        mask = np.broadcast_to(mask, outer + (m,))
    if m == 0:
        v = np.zeros(outer + (0,))
    else:
        inner = {x: (np.expand_dims(v, -1) if np.ndim(v) else v) for x, v in env.items()}
        inner[k] = ks
        p.masked += mask is not None
        try:
            v = value(body, p, inner)
        finally:
            p.masked -= mask is not None
        v = np.broadcast_to(np.asarray(v), outer + (m,))
    if f is Any:
        r = np.any(v if mask is None else v & mask, axis=-1)
        return r if outer else bool(r)
    if v.dtype == bool:
        v = v.astype(int)
    if f is Sg:
        r = (v if mask is None else np.where(mask, v, 0)).sum(axis=-1)
    elif f is Pd:
        r = (v if mask is None else np.where(mask, v, 1)).astype(float).prod(axis=-1)
    else:
        if m == 0 or mask is not None and not mask.any(axis=-1).all():
            raise NoValue("empty")
        w = v if mask is None else np.where(mask, v, -np.inf)
        if f is Mx:
            r = w.max(axis=-1)
        elif f is Arg:
            r = ks[np.argmax(w, axis=-1)]
        else:
            w = np.sort(v if mask is None else np.where(mask, v, np.inf), axis=-1)
            j = np.asarray(value(e.args[4], p, env), dtype=int)
            if not outer and not j.ndim:
                r = w[int(j)]
            elif not outer:
                r = w[j]
            else:
                r = np.take_along_axis(w, np.expand_dims(np.broadcast_to(j, outer), -1), -1)[..., 0]
    return r if np.ndim(r) else r.item() if hasattr(r, "item") else r


def _value(e, p, env):
    import numpy as np
    from scipy import special
    f = e.func
    if e.is_Add:
        r = 0
        for a in e.args:
            r = r + value(a, p, env)
        return r
    if e.is_Mul:
        r = 1
        for a in e.args:
            r = r * value(a, p, env)
        return r
    if e.is_Pow:
        b, x = value(e.args[0], p, env), value(e.args[1], p, env)
        with np.errstate(all="ignore"):
            if isinstance(b, int) and isinstance(x, int) and x < 0:
                b = float(b)
            if not np.ndim(b) and not np.ndim(x):
                try:
                    r = b ** x
                except (ZeroDivisionError, OverflowError):
                    return math.nan
                return math.nan if isinstance(r, complex) else r
            return np.asarray(b, dtype=float) ** x
    if f in BINDERS:
        return _binder(e, p, env)
    a = [value(x, p, env) for x in e.args] if f not in (Law, Fun, Ite) else None
    with np.errstate(all="ignore"):
        if f in (R, Rp):
            return p.pick(p.raw, a[0])
        if f in (O, Op):
            return p.pick(p.sorted, a[0])
        if f in (CR, CO):
            return p.pick(p.raw if f is CR else p.sorted, a[0]) - p.raw.mean()
        if f in (CLR, CLO):
            return np.log(p.pick(p.raw if f is CLR else p.sorted, a[0])) - np.log(p.raw).mean()
        if f is sympy.log:
            return np.log(np.asarray(a[0], dtype=float))
        if f is sympy.exp:
            return np.exp(np.asarray(a[0], dtype=float))
        if f is sympy.Abs:
            return np.abs(a[0])
        if f is Gt0:
            return np.asarray(a[0]) > 0
        if f is Ge0:
            return np.asarray(a[0]) >= 0
        if f is Eq0:
            return np.asarray(a[0]) == 0
        if f is AndF:
            r = True
            for x in a:
                r = np.logical_and(r, x)
            return r
        if f is OrF:
            r = False
            for x in a:
                r = np.logical_or(r, x)
            return r
        if f is NotF:
            return np.logical_not(a[0])
        if f is MaxF:
            r = a[0]
            for x in a[1:]:
                r = np.maximum(r, x)
            return r
        if f is Fl or f is sympy.floor:
            return np.floor(np.asarray(a[0]) + 1e-12).astype(int) if np.ndim(a[0]) else int(math.floor(a[0] + 1e-12))
        if f is sympy.ceiling:
            return np.ceil(np.asarray(a[0]) - 1e-12).astype(int) if np.ndim(a[0]) else int(math.ceil(a[0] - 1e-12))
        if f is Rnd:
            r = np.round(a[0], int(a[1]) if len(a) > 1 else 0)
            return int(r) if len(a) == 1 and not np.ndim(r) else r
        if f is Sgn or f is sympy.sign:
            return np.sign(a[0])
        if f is Psi:
            return special.digamma(a[0])
        if f is Lg:
            return special.gammaln(a[0])
        if f is Gam:
            return special.gamma(a[0])
        if f is Bin:
            return special.binom(a[0], a[1]) if np.ndim(a[0]) or np.ndim(a[1]) else float(math.comb(int(a[0]), int(a[1]))) if a[0] >= 0 and a[1] >= 0 else 0.0
        if f is Fact:
            return special.factorial(a[0])
        if f is Phi:
            return special.ndtr(a[0])
        if f is Pinv:
            return special.ndtri(a[0])
        if f is Leg:
            return special.eval_legendre(a[0], a[1])
        if f in (sympy.asin, sympy.acos, sympy.atan, sympy.sin, sympy.cos, sympy.tan, sympy.sinh, sympy.cosh, sympy.tanh, sympy.asinh):
            return getattr(np, {"asin": "arcsin", "acos": "arccos", "atan": "arctan", "asinh": "arcsinh"}.get(f.__name__, f.__name__))(a[0])
    if f is Ite:
        c = value(e.args[0], p, env)
        if not np.ndim(c):
            return value(e.args[1] if c else e.args[2], p, env)
        try:
            x = value(e.args[1], p, env)
        except NoValue:
            x = None
        try:
            y = value(e.args[2], p, env)
        except NoValue:
            y = None
        if x is not None and y is not None:
            return np.where(c, x, y)
        raise NoValue("a case without a value")
    if f is Law:
        from scipy import stats
        kind, fam = e.args[0].name, e.args[1].name
        a = [value(x, p, env) for x in e.args[2:]]
        with np.errstate(all="ignore"):
            return getattr(getattr(stats, fam), kind)(*a)
    if f is Fun:
        from scipy import special as sp
        name = e.args[0].name
        a = [value(x, p, env) for x in e.args[1:]]
        if name in STRICT:
            return STRICT[name](p, *a)
        lib = {"erf": sp.erf, "gammainc": sp.gammainc, "betainc": sp.betainc, "cbrt": np.cbrt, "betaln": sp.betaln}
        if name in lib:
            return lib[name](*a)
    raise NoValue(f"no value for {f}")


# ------------------------------------------------------------------ normal form
_NF = {}


def level(e):
    """One more than the depth of the named binders in e."""
    d = 0
    for b in bound_inside(e):
        nm = b.name
        if nm.startswith("_i"):
            d = max(d, int(nm[2:]))
    return d + 1


def nf(e):
    e = sympy.sympify(e)
    r = _NF.get(e)
    if r is None:
        r = _nf(e)
        _NF[e] = r
        if len(_NF) > 50000:
            _NF.clear()
    return r


def _nf(e):
    if e.is_Atom or not e.args:
        return e
    f = e.func
    if f is Sg:
        return norm_sum(*e.args)
    if f is Mx:
        return norm_max(*e.args)
    if f in (Pd, Ost, Any, Arg):
        return norm_bind(f, *e.args)
    a = [nf(x) for x in e.args]
    if f is Ite:
        return ite(*a)
    if f is MaxF:
        return norm_maxf(a)
    if f is sympy.log:
        r = sympy.expand_log(sympy.log(sympy.factor_terms(powers(a[0]))), force=True)
        return sympy.expand(r.xreplace({x: sympy.log(sympy.expand(x.args[0])) for x in r.atoms(sympy.log)}))
    if f is sympy.Abs:
        x = sympy.expand(a[0])
        if x.could_extract_minus_sign():
            x = sympy.expand(-x)
        return sympy.Abs(x)
    if e.is_Pow and e.args[1].is_Integer and e.args[1] > 1 and not (e.args[1] > 4 and a[0].is_Add and len(a[0].args) > 6):
        return sympy.expand(e.func(*a))
    if e.is_Mul or e.is_Add:
        return sympy.expand(e.func(*a))
    if f in (Gt0, Ge0, Eq0) or f is sympy.exp or f in (Phi, Pinv):
        return e.func(*[sympy.expand(x) for x in a])
    return e.func(*a)


def powers(e):
    return sympy.powdenest(e, force=True)


def reindexed(body, k, lo, hi):
    """Lower bound nought, upward direction, symmetric functions of the observations over the sorted sample."""
    if lo != 0:
        body = nf(body.xreplace({k: k + lo}))
        hi = sympy.expand(hi - lo)
    idx = [o.args[0] for o in body.atoms(*OBS) if o.args[0].has(k)]
    cs = {sympy.expand(i).coeff(k, 1) for i in idx}
    if cs == {sympy.Integer(-1)}:
        body = nf(body.xreplace({k: hi - k}))
    return symmetric(body, k, hi), hi


def symmetric(body, k, hi):
    if sympy.expand(hi - N + 1) != 0:
        return body
    for r, o in ((R, O), (Rp, Op)):
        if body.has(r(k)) and not body.xreplace({r(k): sympy.Symbol("_z")}).has(k):
            return body.xreplace({r(k): o(k)})
    return body


def named(f, body, k, lo, hi, *more):
    i = sympy.Symbol(f"_i{level(body)}", integer=True, nonnegative=True)
    return f(body.xreplace({k: i}), i, lo, hi, *more)


def norm_sum(body, k, lo, hi):
    k0 = sympy.Dummy("k", integer=True, nonnegative=True)
    body, lo, hi = nf(body.xreplace({k: k0})), nf(lo), nf(hi)
    body = sympy.expand(body)
    if lo != 0:
        body = sympy.expand(nf(body.xreplace({k0: k0 + lo})))
        hi = sympy.expand(hi - lo)
        lo = sympy.Integer(0)
    out = sympy.Integer(0)
    for t in sympy.Add.make_args(body):
        c, b = t.as_independent(k0, as_Add=False)
        if b == 1:
            out += c * (hi + 1)
            continue
        if b.is_polynomial(k0):
            out += c * sympy.expand(sympy.summation(b, (k0, 0, hi)))
            continue
        idx = [o.args[0] for o in b.atoms(*OBS) if o.args[0].has(k0)]
        cs = {sympy.expand(i).coeff(k0, 1) for i in idx}
        if cs == {sympy.Integer(-1)}:
            nb = sympy.expand(nf(b.xreplace({k0: hi - k0})))
            if len(sympy.Add.make_args(nb)) > 1 or nb.as_independent(k0, as_Add=False)[0] != 1:
                out += c * norm_sum(nb, k0, sympy.Integer(0), hi)
                continue
            b = nb
        b = symmetric(b, k0, hi)
        out += c * named(Sg, b, k0, sympy.Integer(0), hi)
    return sympy.expand(out)


def norm_max(body, k, lo, hi):
    k0 = sympy.Dummy("k", integer=True, nonnegative=True)
    body, lo, hi = nf(body.xreplace({k: k0})), nf(lo), nf(hi)
    body, hi = reindexed(body, k0, lo, hi)
    body = sympy.expand(body)
    c, b = body.as_independent(k0, as_Add=True)
    if b == 0:
        return c
    if b.is_Mul:
        m, b2 = b.as_independent(k0, as_Add=False)
        if m.is_positive:
            return sympy.expand(c + m * named(Mx, b2, k0, sympy.Integer(0), hi))
    return sympy.expand(c + named(Mx, b, k0, sympy.Integer(0), hi))


def norm_bind(f, body, k, lo, hi, *more):
    k0 = sympy.Dummy("k", integer=True, nonnegative=True)
    body, lo, hi = nf(body.xreplace({k: k0})), nf(lo), nf(hi)
    if f in (Pd, Ost):
        body, hi = reindexed(body, k0, lo, hi)
        lo = sympy.Integer(0)
    return named(f, sympy.expand(body), k0, lo, hi, *[nf(x) for x in more])


def norm_maxf(a):
    flat = []
    for x in a:
        x = sympy.expand(x)
        flat += list(x.args) if x.func is MaxF else [x]
    # a term shared by all is taken out
    common = set(sympy.Add.make_args(flat[0]))
    for x in flat[1:]:
        common &= set(sympy.Add.make_args(x))
    c = sympy.Add(*common) if common else sympy.Integer(0)
    flat = sorted({sympy.expand(x - c) for x in flat}, key=sympy.default_sort_key)
    if len(flat) == 1:
        return c + flat[0]
    return c + MaxF(*flat)


class Slow(Exception):
    pass


def within(seconds, fn, *a):
    def ring(*_):
        raise Slow()
    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn(*a)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def identical(a, b):
    """Whether the normal forms coincide."""
    d = sympy.expand(nf(a) - nf(b))
    if d == 0:
        return True
    num, _ = sympy.fraction(sympy.together(d))
    return sympy.expand(num) == 0


def proved(a, b, seconds=15):
    try:
        return within(seconds, identical, a, b)
    except Slow:
        return False
    except RecursionError:
        return False


def samples(kind, n, seed, bounds=None):
    """An irregular sample of n distinct observations of the given support."""
    r = random.Random(seed * 1000 + n)
    if kind == "unit":
        return [r.random() * .96 + .02 for _ in range(n)]
    if kind == "positive":
        return [r.expovariate(1.0) * (1 + r.random()) + .01 for _ in range(n)]
    if kind == "interval":
        a, b = bounds
        return [a + (b - a) * (r.random() * .96 + .02) for _ in range(n)]
    return [r.gauss(.4, 1.7) for _ in range(n)]


def shapes(kind, n, seed, bounds=None):
    """Samples of unusual shape: near an end of the support, skewed, in clumps, with an outlier, already in order."""
    r = random.Random(seed * 7919 + n)
    u = [r.random() for _ in range(n)]
    unit = {"upper end": [.3 + .6 * x for x in u[1:]] + [.9995], "lower end": [.1 + .6 * x for x in u[1:]] + [.0005],
            "lower part": [.01 + .3 * x for x in u], "upper part": [.7 + .29 * x for x in u], "ascending": sorted(.02 + .96 * x for x in u),
            "descending": sorted((.02 + .96 * x for x in u), reverse=True), "to the left": [.003 + .98 * x ** 4 for x in u],
            "to the right": [.997 - .98 * x ** 4 for x in u], "clumps": [(.1 if i % 3 else .75) + .15 * x for i, x in enumerate(u)],
            "narrow": [.45 + .05 * x for x in u]}
    if kind == "unit":
        return unit
    if kind == "interval":
        a, b = bounds
        return {k: [a + (b - a) * x for x in v] for k, v in unit.items()}
    e = [-math.log(1 - x * .999) for x in u]
    if kind == "positive":
        return {"small": [.002 + .1 * x for x in e], "large": [1.1 + 1.2 * x for x in e], "outlier": [.2 + .5 * x for x in e[1:]] + [9.5], "ascending": sorted(.05 + x for x in e),
                "descending": sorted((.05 + x for x in e), reverse=True), "below one": [.05 + .9 * x for x in u], "low outlier": [.8 + x for x in u[1:]] + [.004],
                "far outlier": [.2 + .5 * x for x in e[1:]] + [21.5],
                "clumps": [(.3 if i % 3 else 2.1) + .4 * x for i, x in enumerate(u)], "narrow": [1.4 + .1 * x for x in u]}
    g = [r.gauss(0, 1) for _ in range(n)]
    return {"negative": [-2.5 - .4 * x for x in e], "positive": [.3 + .5 * x for x in e], "low outlier": [.6 * x + .1 for x in g[1:]] + [-5.5],
            "high outlier": [.6 * x + .2 for x in g[1:]] + [6.1], "ascending": sorted(g), "descending": sorted(g, reverse=True), "narrow": [.9 + .05 * x for x in g],
            "left": [2 - x for x in e], "flat": [4 * x - 1.9 for x in u], "clumps": [(-1.4 if i % 3 else 1.7) + .2 * x for i, x in enumerate(g)]}
