"""Probability laws as the source names them: library calls bound to (family, parameter terms).

A law is (family, {parameter: sympy term}) with every family's shapes plus loc and scale.  A random draw gets a
symbol; what the source does to it afterwards (shift, scale, exponential, logarithm, power) is folded into the
law, so that equal laws written differently compare equal.
"""
from __future__ import annotations

import random
import struct

import sympy



FAMILIES = {
    "norm": (), "expon": (), "uniform": (), "cauchy": (), "laplace": (), "logistic": (), "gumbel_r": (), "gumbel_l": (),
    "beta": ("a", "b"), "gamma": ("a",), "lognorm": ("s",), "t": ("df",), "exponweib": ("a", "c"), "weibull_min": ("c",),
    "chi2": ("df",), "gompertz": ("c",), "invgauss": ("mu",), "rice": ("b",), "truncnorm": ("a", "b"),
    "tukeylambda": ("lam",), "erlang": ("a",), "rayleigh": (), "halfnorm": (), "pareto": ("b",), "f": ("dfn", "dfd"),
    "weibull_max": ("c",), "maxwell": (), "fisk": ("c",), "nakagami": ("nu",), "invgamma": ("a",), "halfcauchy": (),
    "bernoulli": ("p",), "binom": ("n", "p"), "randint": ("low", "high"),
}
DISCRETE = {"bernoulli", "binom", "randint"}


def parameters(family):
    """Names of a continuous family's parameters in their positional order, None when the family is not known."""
    shapes = FAMILIES.get(family)
    return None if shapes is None or family in DISCRETE else shapes + ("loc", "scale")


SYMMETRIC = {"norm", "t", "cauchy", "laplace", "logistic", "tukeylambda"}

ONE, ZERO = sympy.Integer(1), sympy.Integer(0)

# numpy.random name -> (positional names, builder)
RANDOM = {
    "normal": (("loc", "scale"), {"loc": 0, "scale": 1}, lambda p: ("norm", {"loc": p["loc"], "scale": p["scale"]})),
    "standard_normal": ((), {}, lambda p: ("norm", {})),
    "randn": ((), {}, lambda p: ("norm", {})),
    "uniform": (("low", "high"), {"low": 0, "high": 1}, lambda p: ("uniform", {"loc": p["low"], "scale": p["high"] - p["low"]})),
    "random": ((), {}, lambda p: ("uniform", {})),
    "random_sample": ((), {}, lambda p: ("uniform", {})),
    "rand": ((), {}, lambda p: ("uniform", {})),
    "exponential": (("scale",), {"scale": 1}, lambda p: ("expon", {"scale": p["scale"]})),
    "standard_exponential": ((), {}, lambda p: ("expon", {})),
    "gamma": (("shape", "scale"), {"scale": 1}, lambda p: ("gamma", {"a": p["shape"], "scale": p["scale"]})),
    "standard_gamma": (("shape",), {}, lambda p: ("gamma", {"a": p["shape"]})),
    "beta": (("a", "b"), {}, lambda p: ("beta", {"a": p["a"], "b": p["b"]})),
    "standard_t": (("df",), {}, lambda p: ("t", {"df": p["df"]})),
    "chisquare": (("df",), {}, lambda p: ("chi2", {"df": p["df"]})),
    "laplace": (("loc", "scale"), {"loc": 0, "scale": 1}, lambda p: ("laplace", {"loc": p["loc"], "scale": p["scale"]})),
    "logistic": (("loc", "scale"), {"loc": 0, "scale": 1}, lambda p: ("logistic", {"loc": p["loc"], "scale": p["scale"]})),
    "gumbel": (("loc", "scale"), {"loc": 0, "scale": 1}, lambda p: ("gumbel_r", {"loc": p["loc"], "scale": p["scale"]})),
    "lognormal": (("mean", "sigma"), {"mean": 0, "sigma": 1}, lambda p: ("lognorm", {"s": p["sigma"], "scale": sympy.exp(p["mean"])})),
    "weibull": (("a",), {}, lambda p: ("weibull_min", {"c": p["a"]})),
    "standard_cauchy": ((), {}, lambda p: ("cauchy", {})),
    "wald": (("mean", "scale"), {}, lambda p: ("invgauss", {"mu": p["mean"] / p["scale"], "scale": p["scale"]})),
    "rayleigh": (("scale",), {"scale": 1}, lambda p: ("rayleigh", {"scale": p["scale"]})),
}
NO_SIZE_TUPLE = {"rand", "randn"}


class Law:
    """family None: not expressible.  A parameter term may be None (unknown)."""

    __slots__ = ("family", "p")

    def __init__(self, family, p=None):
        self.family = family
        self.p = {n: ZERO if n == "loc" else (ONE if n == "scale" else None) for n in FAMILIES.get(family, ()) + ("loc", "scale")}
        self.p.update(p or {})

    def __repr__(self):
        return f"{self.family}({', '.join(f'{k}={v}' for k, v in self.p.items())})"

    def known(self):
        return self.family is not None and all(v is not None for v in self.p.values())

    def but(self, **kw):
        return Law(self.family, {**self.p, **kw})


class Use:
    """One use of a law in the source: the library method, the law and the value it is applied to."""

    __slots__ = ("method", "law", "x", "size", "site", "node", "deps", "xdeps")

    def __init__(self, method, law, x, size, site, node, deps, xdeps):
        self.method, self.law, self.x, self.size, self.site, self.node, self.deps, self.xdeps = method, law, x, size, site, node, deps, xdeps


def bind_scipy(family, method, args, kwargs):
    """(law with AV parameters, applied-to AV, size AV); None when the arguments do not fit."""
    shapes = FAMILIES.get(family)
    if shapes is None:
        return None
    names = list(shapes) + ["loc", "scale"]
    x = size = None
    args = list(args)
    kw = dict(kwargs)
    if method == "rvs":
        names = names + ["size"]
    elif method == "freeze":
        pass
    elif method not in ("mean", "var", "std", "median", "entropy", "stats", "support"):
        if args:
            x = args.pop(0)
        else:
            for n in ("x", "q", "k", "data", "p"):
                if n in kw and n not in names:
                    x = kw.pop(n)
                    break
    p = {}
    for n, v in zip(names, args):
        p[n] = v
    for n, v in kw.items():
        if n in ("random_state", "moments", "method"):
            continue
        p[n] = v
    size = p.pop("size", None)
    for n in p:
        if n not in names:
            return None
    return p, x, size


def term_of(av):
    return av.f.term if av is not None else None


class Round(sympy.Function):
    """round(x, k): to the nearest multiple of 10**-k, halves to even."""

    @classmethod
    def eval(cls, x, k=sympy.Integer(0)):
        if x.is_Rational and k.is_Integer:
            return sympy.Rational(round(x * 10 ** k), 1) / 10 ** k
        if x.is_number and x.is_real and k.is_Integer:
            return sympy.Rational(round(sympy.Rational(str(x.evalf(30))) * 10 ** k), 1) / 10 ** k
        return None


class Single(sympy.Function):
    """The nearest single-precision number."""

    @classmethod
    def eval(cls, x):
        if x.is_number and x.is_real:
            return sympy.Rational(*struct.unpack("f", struct.pack("f", float(x)))[0].as_integer_ratio())
        return None


Distinct = sympy.Function("Distinct")          # how many different values n values are: at most n, fewer when some repeat


def probes(symbols, seed):
    r = random.Random(seed)
    return {s: sympy.Rational(r.randint(11, 97), r.randint(13, 41)) for s in sorted(symbols, key=str)}


def equal(a, b):
    """True / False (a witness value tells them apart) / None."""
    if a is None or b is None:
        return None
    a, b = sympy.sympify(a), sympy.sympify(b)
    if a == b:
        return True
    try:
        d = sympy.simplify(a - b)
        if d == 0:
            return True
        for t in d.atoms(Distinct):
            d = d.subs(t, t.args[0] * sympy.Rational(2, 3))
        differs = 0
        for seed in (3, 5, 8, 13):
            v = d.subs(probes(d.free_symbols, seed))
            v = complex(v.evalf(30))
            if abs(v) > 1e-12:
                differs += 1
        if differs >= 3:
            return False
        if differs == 0:
            if d.has(*BENT) and any(bends(d, scale) for scale in SCALES):
                return None
            return True
    except Exception:
        return None
    return None


BENT = (sympy.Max, sympy.Min, sympy.Abs, sympy.Piecewise, sympy.floor, sympy.ceiling, sympy.sign)
SCALES = [sympy.Rational(1, 10 ** 7), sympy.Rational(1, 500), sympy.Rational(1, 20), 40, 3000, 10 ** 7]


def bends(d, scale):
    """The difference is not zero where the symbols are of this size, all of them or one."""
    fs = sorted(d.free_symbols, key=str)
    for only in [None, *fs]:
        at = {f: v * (scale if only in (None, f) else 1) for f, v in probes(fs, 3).items()}
        v = complex(d.subs(at).evalf(30))
        if abs(v) > 1e-9 * max(1e-9, *(abs(float(x)) for x in at.values())):
            return True
    return False


def canonical(L):
    """A representative for laws that several families can express."""
    f, p = L.family, L.p
    if f is None:
        return L
    if f == "weibull_min":
        return canonical(Law("exponweib", {"a": ONE, "c": p["c"], "loc": p["loc"], "scale": p["scale"]}))
    if f == "expon":
        return Law("exponweib", {"a": ONE, "c": ONE, "loc": p["loc"], "scale": p["scale"]})
    if f == "erlang":
        f, L = "gamma", Law("gamma", p)
    if f == "gamma" and equal(p["a"], ONE):
        return Law("exponweib", {"a": ONE, "c": ONE, "loc": p["loc"], "scale": p["scale"]})
    if f == "chi2" and p["df"] is not None and p["scale"] is not None:
        return canonical(Law("gamma", {"a": p["df"] / 2, "loc": p["loc"], "scale": 2 * p["scale"]}))
    if f == "rayleigh" and p["scale"] is not None:
        return Law("exponweib", {"a": ONE, "c": sympy.Integer(2), "loc": p["loc"], "scale": p["scale"] * sympy.sqrt(2)})
    if f == "beta" and equal(p["a"], ONE) and equal(p["b"], ONE):
        return Law("uniform", {"loc": p["loc"], "scale": p["scale"]})
    return L


def same(A, B):
    """(verdict, what differs): True, False or None."""
    A, B = canonical(A), canonical(B)
    if A.family is None or B.family is None:
        return None, "the law is not expressible"
    if A.family != B.family:
        return False, f"{A.family} against {B.family}"
    unknown = None
    for n in sorted(set(A.p) | set(B.p)):
        e = equal(A.p.get(n), B.p.get(n))
        if e is False:
            return False, f"{n}: {A.p.get(n)} against {B.p.get(n)}"
        if e is None:
            unknown = n
    if unknown:
        return None, f"{unknown} is not known"
    return True, ""


def positive(t):
    if t is None:
        return None
    if t.is_positive:
        return True
    if t.is_negative:
        return False
    try:
        vs = [complex(t.subs(probes(t.free_symbols, s)).evalf(20)) for s in (3, 5, 8)]
        if all(abs(v.imag) < 1e-12 and v.real > 0 for v in vs):
            return True
        if all(abs(v.imag) < 1e-12 and v.real < 0 for v in vs):
            return False
    except Exception:
        pass
    return None


def _linear(t, s):
    """t = m + k*s with m and k free of s, or None."""
    try:
        k = sympy.simplify(sympy.diff(t, s))
        if k.has(s):
            return None
        m = sympy.simplify(t - k * s)
        if m.has(s):
            return None
        return m, k
    except Exception:
        return None


def _log_linear(t, s):
    """t = m + k*log(s)."""
    y = sympy.Symbol("_y", real=True)
    try:
        u = sympy.expand_log(t, force=True).subs(sympy.log(s), y)
        if u.has(s):
            return None
        return _linear(u, y)
    except Exception:
        return None


def _exp_linear(t, s):
    """t = exp(m + k*s) (up to a positive constant factor)."""
    try:
        u = sympy.simplify(sympy.expand_log(sympy.log(t), force=True))
        return _linear(u, s)
    except Exception:
        return None


def affine(L, m, k):
    """The law of m + k*Y for Y with law L."""
    pos = positive(k)
    if pos is False:
        if L.family in SYMMETRIC:
            k = -k
            return L.but(loc=m - k * L.p["loc"], scale=k * L.p["scale"]) if L.known() else Law(None)
        if L.family == "uniform" and L.known():
            return L.but(loc=m + k * (L.p["loc"] + L.p["scale"]), scale=-k * L.p["scale"])
        if L.family in ("gumbel_r", "gumbel_l") and L.known():
            return Law("gumbel_l" if L.family == "gumbel_r" else "gumbel_r", {"loc": m + k * L.p["loc"], "scale": -k * L.p["scale"]})
        return Law(None)
    if pos is None or L.p["loc"] is None or L.p["scale"] is None:
        return Law(None)
    return L.but(loc=m + k * L.p["loc"], scale=k * L.p["scale"])


def of_term(t, draws):
    """The law of a value given by a term over one draw symbol; Law(None) when it cannot be told."""
    if t is None:
        return Law(None)
    ds = [s for s in t.free_symbols if s in draws]
    if len(ds) != 1:
        return Law(None)
    d, L = ds[0], draws[ds[0]]
    if t == d:
        return L
    lin = _linear(t, d)
    if lin:
        return affine(L, *lin)
    ex = _exp_linear(t, d)
    if ex and L.family == "norm" and L.known():
        m, k = ex
        if positive(k) is not None:
            return Law("lognorm", {"s": sympy.Abs(k) * L.p["scale"], "scale": sympy.exp(m + k * L.p["loc"])})
    # powers and logarithms of non-negative laws without location
    if L.family in ("expon", "weibull_min", "exponweib") and equal(L.p["loc"], ZERO):
        ll = _log_linear(sympy.log(t), d)
        if ll and positive(ll[1]):
            m, k = ll
            C = canonical(L)
            return Law("exponweib", {"a": C.p["a"], "c": C.p["c"] / k, "scale": sympy.exp(m) * C.p["scale"] ** k})
    if L.family == "lognorm" and equal(L.p["loc"], ZERO):
        ll = _log_linear(t, d)
        if ll and L.known():
            return Law("norm", {"loc": ll[0] + ll[1] * sympy.log(L.p["scale"]), "scale": sympy.Abs(ll[1]) * L.p["s"]})
    if L.family == "uniform" and equal(L.p["loc"], ZERO) and equal(L.p["scale"], ONE):
        v = sympy.Symbol("_v", positive=True)
        for u in (t, t.subs(d, 1 - v).subs(v, d)):
            ll = _log_linear(u, d)
            if ll and positive(ll[1]) is False:
                return Law("expon", {"loc": ll[0], "scale": -ll[1]})
    return Law(None)


REAL_LINE = SYMMETRIC | {"gumbel_r", "gumbel_l"}
HALF_LINE = {"expon", "gamma", "lognorm", "exponweib", "weibull_min", "chi2", "invgauss", "rice", "gompertz", "rayleigh", "halfnorm", "f", "fisk"}


def has_atom(t, draws):
    """The value takes one number with positive probability although the draw it is made from is continuous: True, otherwise None."""
    ds = [s for s in t.free_symbols if s in draws] if t is not None else []
    if len(ds) != 1 or not t.has(sympy.Max, sympy.Min, sympy.floor, sympy.ceiling, sympy.sign, sympy.Piecewise, Round):
        return None
    d, L = ds[0], draws[ds[0]]
    if L.family in DISCRETE or not L.known():
        return None
    if L.family == "tukeylambda":
        return None
    if L.family in REAL_LINE:
        at = [k * x for x in (10 ** 6, 10 ** 3, 30, 3, 1, sympy.Rational(1, 10), sympy.Rational(1, 1000)) for k in (1, -1)]
    elif L.family in HALF_LINE:
        at = [10 ** 6, 10 ** 3, 30, 3, 1, sympy.Rational(1, 10), sympy.Rational(1, 1000)]
    elif L.family in ("uniform", "beta"):
        at = [sympy.Rational(k, 1000) for k in (1, 20, 200, 500, 800, 980, 999)]
    else:
        return None
    rest = probes(t.free_symbols - {d} | L.p["loc"].free_symbols | L.p["scale"].free_symbols, 3)
    for x in at:
        vs = []
        for e in (0, 1, 2):
            z = (L.p["loc"] + L.p["scale"] * x * (1 + sympy.Rational(e, 10 ** 7))).subs(rest)
            try:
                vs.append(sympy.N(t.subs(rest).subs(d, z), 40))
            except Exception:
                return None
        if all(getattr(v, "is_number", False) for v in vs) and vs[0] == vs[1] == vs[2]:
            return True
    return None


def of_observation(L, t, x):
    """The law of X when the value t (a term over X) follows L."""
    if t is None or not t.has(x):
        return Law(None)
    lin = _linear(t, x)
    if lin:
        m, k = lin
        if L.p["loc"] is None or L.p["scale"] is None or positive(k) is None:
            return Law(None)
        return affine(L, -m / k, 1 / k)
    ll = _log_linear(t, x)
    if ll and positive(ll[1]):
        m, k = ll
        if not L.known():
            return Law(None)
        if L.family == "norm":
            return Law("lognorm", {"s": L.p["scale"] / k, "scale": sympy.exp((L.p["loc"] - m) / k)})
        if L.family == "gumbel_l":
            return Law("exponweib", {"a": ONE, "c": k / L.p["scale"], "scale": sympy.exp((L.p["loc"] - m) / k)})
    return Law(None)
