"""P30: the value of every likelihood function, on every kind of data set."""
from __future__ import annotations

import math

import numpy as np
import sympy

from .. import closed as cl
from .. import stats, summary
from ..summary import Raised, Unknown, number, whole
from . import estimation
from .definitions import nested, thresholds
from .registry import check

BINOMIAL = 7


class Likelihood(summary.Walker):
    """Closed forms that hold for every data set: repeated values, boundary values and exceptions included."""

    def __init__(self, I, data):
        super().__init__(I, [], False, (3, 4, 5, 20, 21, 33, 60))
        self.strict = True
        self.data = data
        self.unknowns = {}       # name -> symbol, of what a numerical procedure finds
        self.held = {}           # name -> fixed value or symbol, of what a fit returns
        self.equations = []      # (symbol, function of it that is to be nought)

    def shape_positive(self, e):
        return bool(e.is_positive)

    def equal(self, a, b):
        if isinstance(a, sympy.Basic) and isinstance(b, sympy.Basic) and not summary.is_cond(a) and not summary.is_cond(b):
            d = sympy.expand(number(a) - number(b))
            if self.observed(d) and not self.general(d):
                return cl.Eq0(d)
        return super().equal(a, b)

    def is_data(self, v):
        try:
            k = summary.dummy()
            a = self.as_seq(v)
            return len(a.segs) == 1 and a.segs[0][1] is not None and sympy.expand(self.put(a.segs[0][2], a.segs[0][1], k) - self.Rf(k)) == 0
        except (Unknown, TypeError, AttributeError):
            return False

    def unknown(self, name):
        positive = not name.endswith(".loc")
        return self.unknowns.setdefault(name, sympy.Symbol(name, real=True, positive=positive or None))

    def solve(self, fn, args, kwargs):
        """A numerical procedure: the name of what it finds, and what makes it the one."""
        f = args[0]
        out = summary.Inst(None)
        if fn == "minimize_scalar":
            x = self.unknown("least.x")
            v = number(self.call(f, [x], {}))
            self.equations.append(("least", x, v))
            out.attrs.update(x=x, fun=v, success=True)
            return out
        x = self.unknown("root.x")
        self.equations.append(("root", x, number(self.call(f, [x], {}))))
        if fn in ("brentq", "bisect"):
            return x
        out.attrs.update(root=x, converged=True)
        return out


def xlogy(x, y):
    return 0.0 if x == 0 else x * math.log(y)


def uniform(x, p):
    return -len(x) * math.log(x.max() - x.min())


def normal(x, p):
    return -len(x) / 2 * (math.log(2 * math.pi * x.var()) + 1)


def lognormal(x, p):
    return normal(np.log(x), p) - np.log(x).sum()


def exponential(x, p):
    return -len(x) * math.log(x.mean()) - len(x)


def pareto(x, p):
    m = x.min()
    a = len(x) / np.log(x / m).sum()
    return len(x) * math.log(a) + len(x) * a * math.log(m) - (a + 1) * np.log(x).sum()


def laplace(x, p):
    b = np.abs(x - np.median(x)).mean()
    return -len(x) * math.log(2 * b) - len(x)


def discrete_uniform(x, p):
    return -len(x) * math.log(x.max() - x.min() + 1)


def bernoulli(x, p):
    n, k = len(x), x.sum()
    return xlogy(k, k / n) + xlogy(n - k, 1 - k / n)


def binomial(x, p):
    n, k = len(x) * BINOMIAL, x.sum()
    return sum(math.log(math.comb(BINOMIAL, int(v))) for v in x) + xlogy(k, k / n) + xlogy(n - k, 1 - k / n)


def poisson(x, p):
    return xlogy(x.sum(), x.mean()) - x.sum() - sum(math.lgamma(v + 1) for v in x)


def geometric(x, p):
    n, s = len(x), x.sum()
    return n * math.log(n / s) + xlogy(s - n, 1 - n / s)


def fitted(family):
    from scipy import stats as st
    from .. import laws

    def f(x, p):
        d = getattr(st, family)
        kw = {n: p.get(f"{family}.{n}", fixed(family, n)) for n in laws.FAMILIES[family] + ("loc", "scale")}
        with np.errstate(all="ignore"):
            return float(np.sum(d.logpdf(x, **kw)))

    def fixed(fam, n):
        return 1.0 if n == "scale" else 0.0
    return f


def weibull(x, p):
    from scipy import stats as st
    k = p["root.x"]
    return float(np.sum(st.weibull_min.logpdf(x, k, scale=np.mean(x ** k) ** (1 / k))))


def weibull_equation(x, k):
    return 1 / k + np.mean(np.log(x)) - np.sum(x ** k * np.log(x)) / np.sum(x ** k)


def wigner(x, p):
    r = p["least.x"]
    return len(x) * math.log(2 / (math.pi * r * r)) + 0.5 * float(np.sum(np.log(r * r - x * x)))


# name -> (log-likelihood, what the family can produce)
FAMILIES = {
    "uniform_continuous": (uniform, "real"), "normal": (normal, "real"), "lognormal": (lognormal, "positive"), "exponential": (exponential, "nonnegative"),
    "pareto": (pareto, "positive"), "laplace": (laplace, "real"), "discrete_uniform": (discrete_uniform, "real"), "bernoulli": (bernoulli, "bits"),
    "binomial": (binomial, "few"), "poisson": (poisson, "counts"), "geometric": (geometric, "trials"), "weibull": (weibull, "positive"),
    "wigner": (wigner, "real"), "gamma": (fitted("gamma"), "positive"), "beta": (fitted("beta"), "unit"), "cauchy": (fitted("cauchy"), "real"),
    "chi_squared": (fitted("chi2"), "positive"), "t_distribution": (fitted("t"), "real"), "fisher": (fitted("f"), "positive"), "rayleigh": (fitted("rayleigh"), "positive"),
}
INSIDE = {
    "real": lambda x: True, "positive": lambda x: bool(np.all(x > 0)), "nonnegative": lambda x: bool(np.all(x >= 0)), "unit": lambda x: bool(np.all((x > 0) & (x < 1))),
    "bits": lambda x: bool(np.all((x == 0) | (x == 1))), "few": lambda x: bool(np.all((x >= 0) & (x <= BINOMIAL) & (x == np.floor(x)))),
    "counts": lambda x: bool(np.all((x >= 0) & (x == np.floor(x)))), "trials": lambda x: bool(np.all((x >= 1) & (x == np.floor(x)))),
}


def data_sets(tier):
    """Data of every kind a caller can have, each with a name."""
    r = np.random.default_rng(5)
    out = []
    for n in (3, 4, 20, 33, 60) + ((7, 101, 250) if tier == "thorough" else ()):
        out += [("real numbers", r.normal(0.4, 2.1, n)), ("positive numbers", r.gamma(1.7, 1.3, n) + 0.01), ("numbers between 0 and 1", r.beta(1.3, 2.2, n)),
                ("counts", r.poisson(2.3, n).astype(float)), ("numbers of trials", r.geometric(0.4, n).astype(float)), ("bits", (r.random(n) < 0.3).astype(float) + 0.0),
                ("counts up to seven", r.binomial(BINOMIAL, 0.6, n).astype(float)), ("repeated numbers", np.round(r.normal(1.5, 2.0, n))),
                ("positive numbers and a negative one", np.append(r.gamma(2.0, 1.0, n - 1), -0.5)), ("positive numbers and a nought", np.append(r.gamma(2.0, 1.0, n - 1), 0.0)),
                ("numbers between 0 and 1 and a one", np.append(r.beta(2.0, 2.0, n - 1), 1.0)), ("counts and a fraction", np.append(r.poisson(2.0, n - 1).astype(float) + 1, 2.5)),
                ("counts and a nought", np.append(r.geometric(0.4, n - 1).astype(float), 0.0)), ("counts and a negative one", np.append(r.poisson(2.0, n - 1).astype(float), -1.0)),
                ("large counts", r.poisson(150.0, n).astype(float)), ("counts with one above seven", np.append(r.binomial(BINOMIAL, 0.6, n - 1).astype(float), 8.0)),
                ("small numbers", r.gamma(1.5, 1e-3, n)), ("large numbers", r.gamma(1.5, 1e4, n))]
    for n in (4, 16):           # sums of equal numbers are exact
        for v in (0.0, 1.0, 2.5, 5.0, -1.0, float(BINOMIAL)):
            out.append((f"only {v:g}", np.full(n, v)))
    return out


def sized(sizes):
    """Data sets of the sizes an expression distinguishes."""
    out = []
    for n in sizes[:24]:
        r = np.random.default_rng(n)
        out += [("real numbers", r.normal(0.4, 2.1, n)), ("positive numbers", r.gamma(1.7, 1.3, n) + 0.01), ("numbers between 0 and 1", r.beta(1.3, 2.2, n)),
                ("numbers of trials", r.geometric(0.4, n).astype(float)), ("bits", (np.arange(n) % 3 == 0).astype(float)), ("counts up to seven", r.binomial(BINOMIAL, 0.6, n).astype(float))]
    return out


def strenuous():
    """Data whose densities leave the range of floating-point numbers although their logarithms do not."""
    r = np.random.default_rng(6)
    return [("many equal numbers and a distant one", np.append(np.full(1900, 0.25) + 1e-9 * np.arange(1900), 90.0)),
            ("one success in many", np.append(np.zeros(1500), 1.0)), ("one failure in many", np.append(np.ones(1500), 0.0)), ("a few successes in many", np.append(np.zeros(240), [1.0] * 5)),
            ("counts of millions", np.array([3.0e6, 3.1e6, 2.9e6, 3.05e6])), ("counts of billions", np.array([5.0e9, 5.1e9, 4.9e9])), ("almost always seven", np.append(np.full(900, 7.0), 5.0)),
            ("long waits", r.geometric(1e-4, 50).astype(float)), ("hundreds", r.poisson(290.0, 12).astype(float)), ("thousands", r.poisson(40000.0, 5).astype(float)),
            ("many small numbers", r.gamma(1.5, 1e-5, 400)), ("many large counts", np.append(r.poisson(5.0, 1500), 400).astype(float))]


PARAMS = ({"gamma.a": 1.8, "gamma.loc": 0.0, "gamma.scale": 0.7, "beta.a": 1.4, "beta.b": 2.3, "beta.loc": 0.0, "beta.scale": 1.3, "cauchy.loc": 0.3, "cauchy.scale": 1.2,
           "chi2.df": 2.6, "chi2.loc": 0.0, "chi2.scale": 0.8, "t.df": 3.7, "t.loc": 0.4, "t.scale": 1.6, "f.dfn": 3.1, "f.dfd": 5.3, "f.loc": 0.0, "f.scale": 1.2,
           "rayleigh.loc": 0.0, "rayleigh.scale": 1.7, "root.x": 1.6},
          {"gamma.a": 0.6, "gamma.loc": 0.0, "gamma.scale": 2.3, "beta.a": 0.7, "beta.b": 1.2, "beta.loc": 0.0, "beta.scale": 1.6, "cauchy.loc": -0.6, "cauchy.scale": 0.4,
           "chi2.df": 1.4, "chi2.loc": 0.0, "chi2.scale": 1.9, "t.df": 11.0, "t.loc": -0.9, "t.scale": 0.5, "f.dfn": 6.2, "f.dfd": 2.4, "f.loc": 0.0, "f.scale": 0.6,
           "rayleigh.loc": 0.0, "rayleigh.scale": 0.9, "root.x": 0.7})


def log_of(e, p):
    """The logarithm of a non-negative expression at a point; what is written as an exponential is not exponentiated."""
    e = sympy.sympify(e)
    if e.func is cl.Ite:
        c = p.at(e.args[0])
        return log_of(e.args[1] if bool(c) else e.args[2], p)
    if e.func is sympy.exp:
        return float(p.at(e.args[0]))
    if e.func is cl.Fun and e.args[0].name == "math.exp":
        v = float(p.at(e.args[1]))
        if v > 709.78:
            p.trouble = "math.exp overflows"
            return math.nan
        return v
    v = float(p.at(e))
    return math.nan if math.isnan(v) or v < 0 else (-math.inf if v == 0 else math.inf if v == math.inf else math.log(v))


def at(got, w, xs, par):
    p = cl.Point(xs, {})
    if "least.x" in w.unknowns:
        par = {**par, "least.x": 1.7 * float(np.max(np.abs(xs))) + 0.1}
    par = {**par, **{n: float(v) for n, v in w.held.items() if v.is_Number}}
    for n, s in w.unknowns.items():
        p.env[s] = par.get(n, 1.3)
    return p, log_of(got, p), par


def look(rep, I, n, tier):
    fam = n.name[len(estimation.PREFIX):]
    want, inside = FAMILIES[fam]
    m = I.load(f"{stats.PKG}.{estimation.FUNCS}")
    site = (m.path, n.lineno, f"{m.name}.{n.name}")
    f = next((a[1] for a in I.g.heap[m.env].attrs[n.name].atoms if a[0] == "f"), None)
    if f is None:
        rep.unsure(n.name, "not a plain function")
        return
    w = Likelihood(I, None)
    data = whole(cl.N, lambda k: w.Rf(k))
    extra = [sympy.Integer(BINOMIAL)] if len(n.args.args) > 1 else []
    try:
        got = sympy.sympify(number(w.call(summary.Fn(f), [data] + extra, {})))
    except (Unknown, Raised, cl.NoValue, RecursionError) as e:
        rep.unsure(n.name, f"no closed form: {e}")
        return
    rep.count("closed forms")
    deep = nested(got)
    sets = data_sets(tier) + strenuous() + sized(thresholds(got, low=3, high=3000 if deep <= 1 else 300))
    seen = 0
    for i, (what, xs) in enumerate(sets):
        if deep > 2 and len(xs) > 70:
            continue
        ok = INSIDE[inside](xs)
        constant = bool(np.all(xs == xs[0]))
        if ok and not constant and fam == "exponential" and xs.sum() == 0:
            continue
        for par in PARAMS[:1] if not w.unknowns else PARAMS:
            try:
                p, g, q = at(got, w, xs, par)
            except cl.NoValue:
                continue
            rep.count("data sets")
            shown = f"{len(xs)} observations ({what})"
            if p.trouble and math.isnan(g):
                rep.violation(f"{n.name}:raises", f"{n.name}: raises for {shown}: {p.trouble}", site, {"data": [float(x) for x in xs[:40]]})
                return
            if math.isnan(g) or g == math.inf:
                continue                      # what floating-point arithmetic makes of it is not known here
            if not ok:
                if g != -math.inf:
                    rep.violation(f"{n.name}:support", f"{n.name}: is not zero for {shown}, which the family cannot produce", site, {"data": [float(x) for x in xs[:40]]})
                    return
                seen += 1
                continue
            if constant and fam not in ("bernoulli", "binomial", "poisson", "geometric", "exponential", "discrete_uniform") or constant and fam == "exponential" and xs[0] == 0:
                continue
            if what.startswith("large numbers") and fam in ("weibull", "wigner"):
                continue                      # beyond the range searched
            t = want(xs, q)
            if not math.isfinite(t):
                continue
            if g == -math.inf and (fam in ("weibull", "wigner") or t < -700):
                continue
            if not abs(g - t) <= 1e-6 * max(1.0, abs(t)):
                rep.violation(f"{n.name}:value", f"{n.name}: for {shown}{fitted_text(w, q)} the logarithm of the expression computed is {g:.9g}, "
                              f"the log-likelihood {t:.9g}", site, {"data": [float(x) for x in xs[:40]]})
                return
            seen += 1
    for kind, x, v in w.equations:
        if fam != "weibull" or kind != "root":
            continue
        for what, xs in sets[:18]:
            if not INSIDE[inside](xs) or np.all(xs == xs[0]):
                continue
            lo, hi = 1e-3, 60.0
            for _ in range(200):
                mid = (lo + hi) / 2
                lo, hi = (mid, hi) if weibull_equation(xs, mid) > 0 else (lo, mid)
            p = cl.Point(xs, {x: lo})
            try:
                g, g2 = float(p.at(v)), float(cl.Point(xs, {x: lo * 1.5}).at(v))
            except cl.NoValue:
                continue
            if math.isnan(g) or math.isnan(g2):
                continue
            rep.count("equations")
            if abs(g) > 1e-5 * max(1.0, abs(g2)):
                rep.violation(f"{n.name}:equation", f"{n.name}: the equation solved for the parameter is not the likelihood equation: at its root for {len(xs)} observations "
                              f"({what}) it has the value {g:.6g}", site, {"data": [float(y) for y in xs]})
                return
    if seen >= 5:
        rep.ok(n.name)
    else:
        rep.unsure(n.name, "no data set where both have a value")


def fitted_text(w, q):
    return " with " + ", ".join(f"{n}={q.get(n):.4g}" for n in sorted(w.unknowns)) if w.unknowns else ""


@check("P30", "closed forms by symbolic summarisation",
       "Every likelihood function is translated from its source into one expression over the data, valid for every data set: conditions, repeated values, what a mathematical "
       "function raises, and names for what a fit or a root search finds are part of it. The logarithm of the expression is compared with the family's greatest log-likelihood "
       "(or, after a numerical fit, the log-likelihood at the fitted parameters) at data sets of every kind: inside and outside the support, on its boundary, constant, repeated, "
       "integral, very small, very large and very many; the equation solved for the Weibull shape has its root where the likelihood equation has.",
       "The expressions are compared at data sets, not proved equal. Whether numerical fits find the maximum, and failures inside a fit, are not decided.")
def p30(rep, root, tier):
    rep.rule = "each likelihood function is the family's likelihood at its (maximising or fitted) parameters, zero outside the support, and never an exception"
    I = stats.new_interp(root)
    names = estimation.likelihoods(I)
    rep.count("likelihood functions", len(names))
    for n in names:
        fam = n.name[len(estimation.PREFIX):]
        if fam not in FAMILIES:
            rep.unsure(n.name, "no definition of this family")
            continue
        look(rep, I, n, tier)
