"""Published definitions of the statistics, as closed forms over the sample (see sa.closed), by criterion code.

Written from the literature, over X(i) (the i-th observation), Y(i) (the i-th smallest), n, and the parameters of
the hypothesis; indices run from 1.
"""
from __future__ import annotations

import sympy

from . import closed as cl
from .closed import Bin, Fl, Gam, Ite, Law, Leg, MaxF, Mx, N, Op, Phi, Pinv, Psi, R, O, Rp, Sg

Q = sympy.Rational
sqrt, log, exp, pi, Abs = sympy.sqrt, sympy.log, sympy.exp, sympy.pi, sympy.Abs
ONE = sympy.Integer(1)


def dec(text):
    """A decimal constant."""
    return Q(text)


def index():
    return sympy.Dummy("i", integer=True, nonnegative=True)


def S(f, lo=1, hi=N):
    k = index()
    return Sg(sympy.sympify(f(k)), k, sympy.sympify(lo), sympy.sympify(hi))


def M(f, lo=1, hi=N):
    k = index()
    return Mx(sympy.sympify(f(k)), k, sympy.sympify(lo), sympy.sympify(hi))


def cdf_of(family, z, *shapes):
    return Law(sympy.Symbol("cdf"), sympy.Symbol(family), z, *shapes)


class Sample:
    """A sample and functions of it: x(i), y(i) give the observations from 1 on."""

    def __init__(self, x, y, p):
        self.x, self.y, self.p = x, y, p
        self.n = N
        self.sum = S(x)
        self.mean = self.sum / N

    def map(self, f):
        """The sample of f of the observations, f increasing."""
        return Sample(lambda i: f(self.x(i)), lambda i: f(self.y(i)), self.p)

    def m(self, r):
        """Central moment."""
        return S(lambda i: (self.x(i) - self.mean) ** r) / N

    def var(self, ddof=0):
        return S(lambda i: (self.x(i) - self.mean) ** 2) / (N - ddof)

    @property
    def skew(self):
        return self.m(3) / self.m(2) ** Q(3, 2)

    @property
    def kurt(self):
        return self.m(4) / self.m(2) ** 2

    @property
    def median(self):
        h = Fl(N / 2)
        return Ite(cl.Eq0(N - 2 * h), (self.y(h) + self.y(h + 1)) / 2, self.y(h + 1))

    def z(self, ddof=1):
        sd = sqrt(self.var(ddof))
        m = self.mean
        return self.map(lambda v: (v - m) / sd)


def observed(positive, params):
    r, o = (Rp, Op) if positive else (R, O)
    return Sample(lambda i: r(i - 1), lambda i: o(i - 1), params)


DEFS = {}
FAMILY = {}
DEVIATIONS = {}


def define(*codes):
    def reg(fn):
        for c in codes:
            DEFS[c] = fn
        return fn
    return reg


def deviation(code, name):
    """What the statistic is known to compute instead of its definition (see known_findings.txt)."""
    def reg(fn):
        DEVIATIONS.setdefault(code, {})[name] = fn
        return fn
    return reg


# ------------------------------------------------------------------ distances between distribution functions
def family(code):
    def reg(fn):
        FAMILY[code] = fn
        return fn
    return reg


@family("EXPONENTIALITY")
def _(s):
    return s.map(lambda x: 1 - exp(-s.p["lam"] * x))


@family("NORMALITY")
def _(s):
    return s.map(lambda x: Phi((x - s.p["mean"]) / sqrt(s.p["var"])))


@family("WEIBULL")
def _(s):
    return s.map(lambda x: (1 - exp(-x ** s.p["k"])) ** s.p["a"])


@family("GAMMA")
def _(s):
    return s.map(lambda x: cdf_of("gamma", x * s.p["beta"], s.p["alpha"]))


@family("BETA")
def _(s):
    return s.map(lambda x: cdf_of("beta", x, s.p["alpha"], s.p["beta"]))


@family("UNIFORM")
def _(s):
    return s.map(lambda x: (x - s.p["a"]) / (s.p["b"] - s.p["a"]))


@family("STUDENT")
def _(s):
    return s.map(lambda x: cdf_of("t", (x - s.p["loc"]) / s.p["scale"], s.p["df"]))


@family("LOGNORMAL")
def _(s):
    return s.map(lambda x: Phi(log(x / s.p["scale"]) / s.p["s"]))


def d_plus(u):
    return M(lambda i: i / N - u.y(i))


def d_minus(u):
    return M(lambda i: u.y(i) - (i - 1) / N)


def kolmogorov(u):
    side = u.p.get("alternative_type", "TWO_TAILED")
    if side == "RIGHT":
        return d_plus(u)
    if side == "LEFT":
        return d_minus(u)
    return MaxF(d_plus(u), d_minus(u))


def two_sided(u):
    return MaxF(d_plus(u), d_minus(u))


def anderson(u):
    return -N - S(lambda i: (2 * i - 1) * (log(u.y(i)) + log(1 - u.y(N + 1 - i)))) / N


def cramer(u):
    return 1 / (12 * N) + S(lambda i: (u.y(i) - (2 * i - 1) / (2 * N)) ** 2)


def watson(u):
    return cramer(u) - N * (u.mean - Q(1, 2)) ** 2


def kuiper(u):
    return d_plus(u) + d_minus(u)


def spacing(u, i):
    """The i-th of the n+1 gaps that the sample leaves in [0, 1]."""
    return u.y(i) - u.y(i - 1)


def gaps(u, f, lo=0, hi=1):
    """Sum of f over the n+1 gaps of [lo, hi]."""
    return f(u.y(1) - lo) + S(lambda i: f(u.y(i + 1) - u.y(i)), 1, N - 1) + f(hi - u.y(N))


def greenwood(u):
    return gaps(u, lambda g: g ** 2)


def moran(u):
    return -gaps(u, lambda g: log(N * g))


def min_toshiyuki(u):
    return S(lambda i: MaxF(i / N - u.y(i), u.y(i) - (i - 1) / N) / sqrt(u.y(i) * (1 - u.y(i)))) / sqrt(N)


def quesenberry(u, lo=0, hi=1):
    inner = S(lambda i: (u.y(i + 1) - u.y(i)) * (u.y(i + 2) - u.y(i + 1)), 1, N - 2)
    ends = (u.y(1) - lo) * (u.y(2) - u.y(1)) + (u.y(N) - u.y(N - 1)) * (hi - u.y(N))
    return gaps(u, lambda g: g ** 2, lo, hi) + inner + ends


EDF = {"KS": kolmogorov, "CVM": cramer, "AD": anderson}
for fam_, names_ in {"EXPONENTIALITY": "KS CVM", "NORMALITY": "KS CVM", "WEIBULL": "KS CVM MT W LILLIE", "GAMMA": "KS CVM AD WAT KUI GRW MOR MT",
                     "BETA": "KS CVM AD W KUIPER LILLIE", "UNIFORM": "KS CVM AD KUIPER GREENWOOD LILLIE",
                     "STUDENT": "KS CVM AD KUIPER WATSON LILLIE", "LOGNORMAL": "KS CVM QUESENBERRY_MILLER"}.items():
    for n_ in names_.split():
        g_ = {"KS": kolmogorov, "CVM": cramer, "AD": anderson, "W": watson, "WAT": watson, "WATSON": watson, "KUI": kuiper, "KUIPER": kuiper,
              "GRW": greenwood, "GREENWOOD": greenwood, "MOR": moran, "MT": min_toshiyuki, "LILLIE": two_sided,
              "QUESENBERRY_MILLER": quesenberry}[n_]
        DEFS[f"{n_}_{fam_}"] = (lambda g, fam: lambda s: g(FAMILY[fam](s)))(g_, fam_)


@define("LILLIE_STUDENT")
def _(s):
    return two_sided(s.map(lambda x: cdf_of("t", x, s.p["df"])))


@define("LILLIE_GAMMA")
def _(s):
    v = s.var(1)
    return two_sided(s.map(lambda x: cdf_of("gamma", x * s.mean / v, s.mean ** 2 / v)))


@define("AD_NORMALITY")
def _(s):
    return anderson(s.z().map(Phi))


@define("LILLIE_NORMALITY")
def _(s):
    return two_sided(s.z().map(Phi))


@define("QUESENBERRY_MILLER_UNIFORM")
def _(s):
    return quesenberry(s, s.p["a"], s.p["b"])


def gamma_scores(s):
    return lambda i: Law(sympy.Symbol("ppf"), sympy.Symbol("gamma"), (i - Q(3, 8)) / (N + Q(1, 4)), s.p["alpha"]) / s.p["beta"]


def correlation(f, g, mean_f, mean_g):
    """Pearson correlation of f(i), g(i), i = 1..n."""
    return S(lambda i: (f(i) - mean_f) * (g(i) - mean_g)) / sqrt(S(lambda i: (f(i) - mean_f) ** 2) * S(lambda i: (g(i) - mean_g) ** 2))


def ppcc(s, scores):
    return correlation(s.y, scores, s.mean, S(scores) / N)


@define("PPCC_GAMMA")
def _(s):
    return 1 - ppcc(s, gamma_scores(s))


def bin_count(s, lo, hi):
    """Observations in [lo, hi); None: no bound."""
    def inside(x):
        c = [cl.Ge0(x - lo)] if lo is not None else []
        c += [cl.Gt0(hi - x)] if hi is not None else []
        return c[0] if len(c) == 1 else cl.AndF(*c)
    return S(lambda i: Ite(inside(s.x(i)), ONE, sympy.Integer(0)))


def equiprobable(s, ppf, bins):
    edges = [None] + [ppf(Q(j, bins)) for j in range(1, bins)] + [None]
    return [bin_count(s, a, b) for a, b in zip(edges, edges[1:])]


def gamma_bins(s):
    k = int(s.p["bins"])
    c = equiprobable(s, lambda q: Law(sympy.Symbol("ppf"), sympy.Symbol("gamma"), q, s.p["alpha"]) / s.p["beta"], k)
    return c, N / k


def pearson(c, e):
    return sum((o - e) ** 2 for o in c) / e


@define("CHI2_PEARSON_GAMMA")
def _(s):
    return pearson(*gamma_bins(s))


@define("G_TEST_GAMMA")
def _(s):
    c, e = gamma_bins(s)
    return 2 * sum(Ite(cl.Eq0(o), sympy.Integer(0), o * log(o / e)) for o in c)


@define("CRESSIE_READ_GAMMA")
def _(s):
    c, e = gamma_bins(s)
    lam = s.p["power"]
    return 2 / (lam * (lam + 1)) * sum(o * ((o / e) ** lam - 1) for o in c)


@define("CHI2_STUDENT")
def _(s):
    z = s.map(lambda x: (x - s.p["loc"]) / s.p["scale"])
    k = int(s.p["n_bins"])
    return pearson(equiprobable(z, lambda q: Law(sympy.Symbol("ppf"), sympy.Symbol("t"), q, s.p["df"]), k), N / k)


def binned(s, edge, expected, bins, lam, closed=False):
    """Power divergence over `bins` equal bins with the given edges; the last one may hold its upper edge."""
    def last(x):
        return cl.AndF(cl.Ge0(x - edge(bins - 1)), cl.Ge0(edge(bins) - x))
    top = S(lambda i: Ite(last(s.x(i)), ONE, sympy.Integer(0)))
    return (S(lambda j: divergence_term(bin_count(s, edge(j - 1), edge(j)), expected(j), lam), 1, bins - 1)
            + divergence_term(top, expected(bins), lam))


def divergence_term(o, e, lam):
    return (o - e) ** 2 / e if lam == 1 else 2 * o * ((o / e) ** lam - 1) / (lam * (lam + 1))


@define("CHI2_PEARSON_BETA")
def _(s):
    k = -Fl(-sqrt(N))
    return binned(s, lambda j: j / k, lambda j: N * (cdf_of("beta", j / k, s.p["alpha"], s.p["beta"]) - cdf_of("beta", (j - 1) / k, s.p["alpha"], s.p["beta"])),
                  k, s.p["lambda_"])


@define("CHI2_PEARSON_UNIFORM")
def _(s):
    if s.p["bins"] != "sturges":
        return None
    k = -Fl(-(log(N) / log(2) + 1))
    a, b = s.p["a"], s.p["b"]
    return binned(s, lambda j: a + (b - a) * j / k, lambda j: N / k, k, s.p["lambda_"])


def pearson_weibull(s, total):
    k = -Fl(-sqrt(N))
    lo, hi = s.y(1), s.y(N)

    def edge(j):
        return lo + (hi - lo) * j / k

    def cdf(x):
        return (1 - exp(-x ** s.p["k"])) ** s.p["a"]
    return binned(s, edge, lambda j: N * (cdf(edge(j)) - cdf(edge(j - 1))), k, 1) / total


@define("CHI2_PEARSON_WEIBULL")
def _(s):
    return pearson_weibull(s, 1)


@deviation("CHI2_PEARSON_WEIBULL", "proportions")
def _(s):
    return pearson_weibull(s, N)


# ------------------------------------------------------------------ uniformity
def unit(s):
    return FAMILY["UNIFORM"](s)


@define("WATSON_UNIFORM")
def _(s):
    return watson(unit(s))


@define("SHERMAN_UNIFORM")
def _(s):
    a, b = s.p["a"], s.p["b"]
    return gaps(s, lambda g: Abs(g - (b - a) / (N + 1)), a, b) / 2


@define("STEIN_U_UNIFORM", "CENSORED_STEIN_U_UNIFORM")
def _(s):
    u = unit(s)

    def h(i, j):
        return Q(1, 2) * (2 * MaxF(u.x(i), u.x(j)) - 2 * u.x(i) - 2 * u.x(j) + u.x(i) ** 2 + u.x(j) ** 2)
    return S(lambda i: S(lambda j: h(i, j), i + 1, N), 1, N) * 2 / (N * (N - 1))


@define("NEYMAN_UNIFORM")
def _(s):
    u = unit(s)
    k = int(s.p["k"])
    x = sympy.Symbol("x")
    r = 0
    for j in range(1, k + 1):
        pol = sympy.Poly(sympy.legendre(j, 2 * x - 1), x).as_expr()
        r = r + (2 * j + 1) * S(lambda i: pol.subs(x, u.x(i))) ** 2 / N
    return r


@define("ZHANG_UNIFORM")
def _(s):
    if s.p.get("test_type", "A") != "A":
        return None                 # the other two are not the published ones, and have no other definition
    u = unit(s)
    return zhang_a(u)


def zhang_a(u):
    return -S(lambda i: log(u.y(i)) / (N - i + Q(1, 2)) + log(1 - u.y(i)) / (i - Q(1, 2)))


def zhang_c(u):
    return S(lambda i: log((1 / u.y(i) - 1) / ((N - Q(1, 2)) / (i - Q(3, 4)) - 1)) ** 2)


@define("BICKEL_ROSENBLATT_UNIFORM")
def _(s):
    u = unit(s)
    if s.p.get("bandwidth", "auto") != "auto":
        return None
    h = dec("1.06") * sqrt(u.var()) * N ** Q(-1, 5)
    k = 1000

    def density(t):
        return S(lambda i: exp(-((t - u.x(i)) / h) ** 2 / 2) / sqrt(2 * pi)) / (N * h)
    return S(lambda j: (density(j / sympy.Integer(k - 1)) - 1) ** 2, 0, k - 1) / (k - 1)


# ------------------------------------------------------------------ Student
@define("ZHANG_ZA_STUDENT")
def _(s):
    return zhang_a(clipped(FAMILY["STUDENT"](s)))


@define("ZHANG_ZC_STUDENT")
def _(s):
    return zhang_c(clipped(FAMILY["STUDENT"](s)))


def clipped(u, eps=Q(1, 10 ** 10)):
    return u.map(lambda v: -MaxF(-MaxF(v, eps), eps - 1))


# ------------------------------------------------------------------ exponentiality
def scaled(s):
    return s.map(lambda x: x / s.mean)


@define("EP_EXPONENTIALITY")
def _(s):
    y = scaled(s)
    return sqrt(48 * N) * S(lambda i: exp(-y.x(i)) - Q(1, 2)) / N


@define("AHS_EXPONENTIALITY")
def _(s):
    def count(c):
        return S(lambda k: S(lambda i: S(lambda j: Ite(c(i, j, k), ONE, sympy.Integer(0)))))
    h = count(lambda i, j, k: cl.Gt0(s.x(k) - Abs(s.x(i) - s.x(j))))
    g = count(lambda i, j, k: cl.Gt0(s.x(k) + 2 * MaxF(-s.x(i), -s.x(j))))
    return (h - g) / N ** 3


@define("RS_EXPONENTIALITY")
def _(s):
    return None


@define("ATK_EXPONENTIALITY")
def _(s):
    p = dec("0.99")
    return sqrt(N) * Abs((S(lambda i: s.x(i) ** p) / N) ** (1 / p) / s.mean - Gam(1 + p) ** (1 / p))


@define("CO_EXPONENTIALITY")
def _(s):
    y = scaled(s)
    return N + S(lambda i: (1 - y.x(i)) * log(y.x(i)))


@define("DSP_EXPONENTIALITY")
def _(s):
    b = dec("0.44")
    return S(lambda i: S(lambda k: Ite(cl.AndF(cl.NotF(cl.Eq0(i - k)), cl.Gt0(s.x(i) - b * s.x(k))), ONE, sympy.Integer(0)))) / (N * (N - 1))


def norm_gap(s, i):
    """Normalised spacing (n - i + 1)(Y_i - Y_(i-1)), Y_0 = 0."""
    return (N - i + 1) * (s.y(i) - Ite(cl.Eq0(i - 1), sympy.Integer(0), s.y(cl.Rnd(i - 1))))


def norm_gaps(s, f, lo, hi):
    """Sum of f over the normalised spacings lo..hi."""
    if lo == 1:
        return f(N * s.y(1)) + S(lambda i: f((N - i + 1) * (s.y(i) - s.y(i - 1))), 2, hi)
    return S(lambda i: f((N - i + 1) * (s.y(i) - s.y(i - 1))), lo, hi)


@define("EPS_EXPONENTIALITY")
def _(s):
    def ident(v):
        return v
    return 2 * N * (log(norm_gaps(s, ident, 1, N) / N) - norm_gaps(s, log, 1, N) / N) / (1 + (N + 1) / (6 * N))


@define("FZ_EXPONENTIALITY")
def _(s):
    return S(lambda i: Abs(1 - exp(-s.y(i) / s.mean) - (i - Q(1, 2)) / N)) / sqrt(N)


@define("GINI_EXPONENTIALITY")
def _(s):
    return S(lambda i: i * (N - i) * (s.y(i + 1) - s.y(i)), 1, N - 1) / ((N - 1) * s.sum)


def plain(v):
    return v


@define("GD_EXPONENTIALITY")
def _(s):
    r = cl.Rnd(N / 2)
    return norm_gaps(s, plain, 1, r) / r / (norm_gaps(s, plain, r + 1, N) / (N - r))


@define("HM_EXPONENTIALITY")
def _(s):
    r = cl.Rnd(N / 4)
    return (norm_gaps(s, plain, 1, r) + norm_gaps(s, plain, N - r + 1, N)) / (2 * r) / (norm_gaps(s, plain, r + 1, N - r) / (N - 2 * r))


@define("HG1_EXPONENTIALITY")
def _(s):
    return S(lambda i: Abs(s.p["lam"] * s.y(i) + log(1 - i / (N + 1)))) / N


@define("HG2_EXPONENTIALITY")
def _(s):
    return S(lambda i: (s.p["lam"] * s.y(i) + log(1 - i / (N + 1))) ** 2) / N


@define("HP_EXPONENTIALITY")
def _(s):
    t = S(lambda i: S(lambda j: S(lambda k: Ite(cl.AndF(cl.NotF(cl.Eq0(i - j)), cl.NotF(cl.Eq0(i - k)), cl.Gt0(k - j),
                                                           cl.Gt0(s.x(i) - s.x(j) - s.x(k))), ONE, sympy.Integer(0)))))
    return 2 * t / (N * (N - 1) * (N - 2))


@define("KM_EXPONENTIALITY")
def _(s):
    def st(v):
        return 2 / pi * sympy.asin(sqrt(v))
    return M(lambda i: Abs(st((i - Q(1, 2)) / N) - st(1 - exp(-s.y(i) / s.mean))))


@define("KC_EXPONENTIALITY")
def _(s):
    def j(u):
        return 2 * (1 - u) * (1 - log(1 - u)) - 1
    return sqrt(108 * N / 17) * S(lambda i: j(i / (N + 1)) * s.y(i)) / s.sum


@define("LZ_EXPONENTIALITY")
def _(s):
    return S(lambda i: s.y(i), 1, Fl(N / 2)) / s.sum


@define("MN_EXPONENTIALITY")
def _(s):
    return sympy.EulerGamma + S(lambda i: log(s.x(i) / s.mean)) / N


@define("PT_EXPONENTIALITY")
def _(s):
    return S(lambda i: Abs(s.x(i) - s.mean)) / (2 * N * s.mean)


@define("SW_EXPONENTIALITY")
def _(s):
    return N * (s.mean - s.y(1)) ** 2 / ((N - 1) * S(lambda i: (s.x(i) - s.mean) ** 2))


@define("WE_EXPONENTIALITY")
def _(s):
    return (N - 1) * s.var(1) / (N ** 2 * s.mean ** 2)


@define("WW_EXPONENTIALITY")
def _(s):
    return s.y(N) / s.y(1)


# ------------------------------------------------------------------ normality
def blom(i):
    return Pinv((i - Q(3, 8)) / (N + Q(1, 4)))


@define("SW_NORMALITY")
def _(s):
    """Royston (1992)."""
    m2 = S(lambda i: blom(i) ** 2)
    u = 1 / sqrt(N)

    def poly(cs, last):
        r = sympy.Integer(0)
        for c in cs:
            r = r * u + dec(c)
        return r * u + last
    an = poly(["-2.706056", "4.434685", "-2.071190", "-0.147981", "0.221157"], blom(N) / sqrt(m2))
    an1 = poly(["-3.582633", "5.682633", "-1.752461", "-0.293762", "0.042981"], blom(N - 1) / sqrt(m2))
    phi = (m2 - 2 * blom(N) ** 2 - 2 * blom(N - 1) ** 2) / (1 - 2 * an ** 2 - 2 * an1 ** 2)
    t = an * (s.y(N) - s.y(1)) + an1 * (s.y(N - 1) - s.y(2)) + S(lambda i: blom(i) * s.y(i), 3, N - 2) / sqrt(phi)
    return t ** 2 / S(lambda i: (s.x(i) - s.mean) ** 2)


@define("JB_NORMALITY")
def _(s):
    return N / 6 * (s.skew ** 2 + (s.kurt - 3) ** 2 / 4)


def skew_z(b1):
    """D'Agostino (1970)."""
    y = b1 * sqrt((N + 1) * (N + 3) / (6 * (N - 2)))
    b2 = 3 * (N ** 2 + 27 * N - 70) * (N + 1) * (N + 3) / ((N - 2) * (N + 5) * (N + 7) * (N + 9))
    w2 = -1 + sqrt(2 * (b2 - 1))
    a = sqrt(2 / (w2 - 1))
    return log(y / a + sqrt((y / a) ** 2 + 1)) / sqrt(log(w2) / 2)


def kurt_z(b2):
    """Anscombe and Glynn (1983)."""
    e = 3 * (N - 1) / (N + 1)
    v = 24 * N * (N - 2) * (N - 3) / ((N + 1) ** 2 * (N + 3) * (N + 5))
    x = (b2 - e) / sqrt(v)
    sb = 6 * (N ** 2 - 5 * N + 2) / ((N + 7) * (N + 9)) * sqrt(6 * (N + 3) * (N + 5) / (N * (N - 2) * (N - 3)))
    a = 6 + 8 / sb * (2 / sb + sqrt(1 + 4 / sb ** 2))
    d = 1 + x * sqrt(2 / (a - 4))
    root = cl.Sgn(d) * ((1 - 2 / a) / Abs(d)) ** Q(1, 3)
    return (1 - 2 / (9 * a) - root) / sqrt(2 / (9 * a))


@define("SKEW_NORMALITY")
def _(s):
    return skew_z(s.skew)


@define("KURTOSIS_NORMALITY")
def _(s):
    return kurt_z(s.kurt)


@define("DAP_NORMALITY")
def _(s):
    return skew_z(s.skew) ** 2 + kurt_z(s.kurt) ** 2


@define("FILLI_NORMALITY")
def _(s):
    first = Pinv(1 - Q(1, 2) ** (1 / N))
    last = Pinv(Q(1, 2) ** (1 / N))

    def mid(i):
        return Pinv((i - dec("0.3175")) / (N + dec("0.365")))
    mean = (first + last + S(mid, 2, N - 1)) / N
    cross = (s.y(1) - s.mean) * (first - mean) + (s.y(N) - s.mean) * (last - mean) + S(lambda i: (s.y(i) - s.mean) * (mid(i) - mean), 2, N - 1)
    mm = (first - mean) ** 2 + (last - mean) ** 2 + S(lambda i: (mid(i) - mean) ** 2, 2, N - 1)
    return cross / sqrt(S(lambda i: (s.x(i) - s.mean) ** 2) * mm)


@define("LG_NORMALITY")
def _(s):
    return ppcc(s, blom)


@define("RJ_NORMALITY")
def _(s):
    if s.p.get("weighted") or s.p.get("cte_alpha", "3/8") != "3/8":
        return None
    return ppcc(s, blom)


@define("SF_NORMALITY")
def _(s):
    return S(lambda i: blom(i) * s.y(i)) ** 2 / (S(lambda i: (s.x(i) - s.mean) ** 2) * S(lambda i: blom(i) ** 2))


@define("EP_NORMALITY")
def _(s):
    m2 = s.m(2)
    pairs = S(lambda k: S(lambda j: exp(-(s.y(j) - s.y(k)) ** 2 / (2 * m2)), 1, k - 1), 2, N)
    return 1 + N / sqrt(3) + 2 * pairs / N - sqrt(2) * S(lambda i: exp(-(s.x(i) - s.mean) ** 2 / (4 * m2)))


def trimmed_l(s, r, t):
    """Sample TL-moment of order r, t trimmed on each side (Elamir and Seheult 2003)."""
    def weight(i):
        return sum((-1) ** k * Bin(sympy.Integer(r - 1), sympy.Integer(k)) * Bin(i - 1, sympy.Integer(r + t - 1 - k)) * Bin(N - i, sympy.Integer(t + k)) for k in range(r))
    return S(lambda i: s.y(i) * weight(i), 1, N) / (r * Bin(N, sympy.Integer(r + 2 * t)))


def hosking(t, consts):
    def fn(s):
        l2, l3, l4 = (trimmed_l(s, r, t) for r in (2, 3, 4))

        def pick(j):
            a, b, c = (dec(x[j]) for x in consts)
            return Ite(cl.Ge0(25 - N), a, Ite(cl.Ge0(50 - N), b, c))
        return (l3 / l2) ** 2 / pick(1) + (l4 / l2 - pick(0)) ** 2 / pick(2)
    return fn


DEFS["HOSKING1_NORMALITY"] = hosking(0, [("0.12383", "0.0088038", "0.0049295"), ("0.12321", "0.0040493", "0.0020802"), ("0.12291", "0.0019434", "0.00095785")])
DEFS["HOSKING2_NORMALITY"] = hosking(1, [("0.067077", "0.0081391", "0.0042752"), ("0.064456", "0.0034657", "0.0015699"), ("0.063424", "0.0016064", "0.00068100")])
DEFS["HOSKING3_NORMALITY"] = hosking(2, [("0.044174", "0.0086570", "0.0042066"), ("0.040389", "0.0033818", "0.0013301"), ("0.039030", "0.0015120", "0.00054207")])
DEFS["HOSKING4_NORMALITY"] = hosking(3, [("0.033180", "0.0095765", "0.0044609"), ("0.028224", "0.0033813", "0.0011823"), ("0.026645", "0.0014547", "0.00045107")])


@define("ZWC_NORMALITY")
def _(s):
    return zhang_c(s.z().map(Phi))


@define("ZWA_NORMALITY")
def _(s):
    return 10 * zhang_a(s.z().map(Phi)) - 32


@define("GLB_NORMALITY")
def _(s):
    """Glen, Leemis and Barr (2001): the probabilities of the order statistics, ordered again."""
    u = s.z().map(Phi)
    k = index()
    body = cdf_of("beta", u.y(k + 1), k + 1, N - k)

    def p(i):
        return cl.Ost(body, k, sympy.Integer(0), N - 1, i - 1)
    return -N - S(lambda i: (2 * N + 1 - 2 * i) * log(p(i)) + (2 * i - 1) * log(1 - p(i))) / N


@define("DH_NORMALITY")
def _(s):
    b1, b2 = s.skew, s.kurt
    d = (N - 3) * (N + 1) * (N ** 2 + 15 * N - 4)
    a = (N - 2) * (N + 5) * (N + 7) * (N ** 2 + 27 * N - 70) / (6 * d)
    c = (N - 7) * (N + 5) * (N + 7) * (N ** 2 + 2 * N - 5) / (6 * d)
    k = (N + 5) * (N + 7) * (N ** 3 + 37 * N ** 2 + 11 * N - 313) / (12 * d)
    alpha = a + b1 ** 2 * c
    chi = 2 * (b2 - 1 - b1 ** 2) * k
    z2 = ((chi / (2 * alpha)) ** Q(1, 3) - 1 + 1 / (9 * alpha)) * sqrt(9 * alpha)
    return skew_z(b1) ** 2 + z2 ** 2


@define("RJB_NORMALITY")
def _(s):
    j = sqrt(pi / 2) / N * S(lambda i: Abs(s.x(i) - s.median))
    return N / 6 * (s.m(3) / j ** 3) ** 2 + N / 64 * (s.m(4) / j ** 4 - 3) ** 2


def hermite(r, z):
    """Normalised Hermite polynomial."""
    x = sympy.Symbol("x")
    p = {0: 1, 1: x, 2: x ** 2 - 1, 3: x ** 3 - 3 * x, 4: x ** 4 - 6 * x ** 2 + 3, 5: x ** 5 - 10 * x ** 3 + 15 * x,
         6: x ** 6 - 15 * x ** 4 + 45 * x ** 2 - 15, 7: x ** 7 - 21 * x ** 5 + 105 * x ** 3 - 105 * x,
         8: x ** 8 - 28 * x ** 6 + 210 * x ** 4 - 420 * x ** 2 + 105}[r]
    return sympy.sympify(p).subs(x, z) / sqrt(sympy.factorial(r))


@define("BM1_NORMALITY")
def _(s):
    z = s.z()
    return sum(S(lambda i: hermite(r, z.x(i))) ** 2 for r in (3, 4)) / N


@define("BM2_NORMALITY")
def _(s):
    z = s.z()
    return sum(S(lambda i: hermite(r, z.x(i))) ** 2 for r in (3, 4, 5, 6)) / N


def mean_hermite(z):
    return {r: S(lambda i: hermite(r, z.x(i))) / sqrt(N) for r in range(3, 9)}


def density(z):
    return exp(-z ** 2 / 2) / sqrt(2 * pi)


@define("CC1_NORMALITY")
def _(s):
    z = s.z()
    h = mean_hermite(z)
    return M(lambda i: Abs(Phi(z.x(i)) * h[3] - density(z.x(i)) * sum(h[j + 3] * hermite(j - 1, z.x(i)) / sqrt(j) for j in range(1, 6))))


def cabana_cabana_2(s, weights=(1, 1, 1, 1)):
    z = s.z()
    h = mean_hermite(z)

    def at(v):
        tail = sum(w * (sqrt(Q(j, j - 1)) * hermite(j - 2, v) + hermite(j, v)) * h[j + 3] for j, w in zip(range(2, 6), weights))
        return -density(v) * h[3] + (Phi(v) - v * density(v)) * h[4] - density(v) * tail
    return M(lambda i: Abs(at(z.x(i))))


define("CC2_NORMALITY")(cabana_cabana_2)
deviation("CC2_NORMALITY", "last-term-twice")(lambda s: cabana_cabana_2(s, (1, 1, 1, 2)))


@define("BS_NORMALITY")
def _(s):
    w = dec("13.29") * (log(sqrt(s.m(2))) - log(S(lambda i: Abs(s.x(i) - s.mean)) / N))
    return sqrt(N + 2) * (w - 3) / dec("3.54")


@define("MI_NORMALITY")
def _(s):
    med = s.median
    k = index()
    dev = Abs(s.x(k + 1) - med)
    h = Fl(N / 2)

    def dv(j):
        return cl.Ost(dev, k, sympy.Integer(0), N - 1, j)
    mad = Ite(cl.Eq0(N - 2 * h), (dv(h) + dv(h - 1)) / 2, dv(h))

    def z(i):
        return (s.x(i) - med) / (9 * mad)
    num = N * S(lambda i: (s.x(i) - med) ** 2 * (1 - z(i) ** 2) ** 4)
    den = S(lambda i: (1 - z(i) ** 2) * (1 - 5 * z(i) ** 2)) ** 2
    return S(lambda i: (s.x(i) - med) ** 2) / (N - 1) / (num / den)


@define("CS_NORMALITY")
def _(s):
    t = S(lambda i: (s.y(i + 1) - s.y(i)) / (blom(i + 1) - blom(i)), 1, N - 1) / ((N - 1) * sqrt(s.var(1)))
    return sqrt(N) * (1 - t)


def zhang_q(y):
    u = blom
    q1 = S(lambda i: (y(i) - y(1)) / (u(i) - u(1)), 2, N) / (N - 1)
    q2 = S(lambda i: (y(i + 4) - y(i)) / (u(i + 4) - u(i)), 1, N - 4) / (N - 4)
    return log(q1 / q2)


@define("ZQ_NORMALITY")
def _(s):
    return zhang_q(s.y)


@define("ZQS_NORMALITY")
def _(s):
    return zhang_q(lambda i: -s.y(N + 1 - i))


@define("D_NORMALITY")
def _(s):
    d = S(lambda i: (i - (N + 1) / 2) * s.y(i)) / (N ** 2 * sqrt(s.m(2)))
    return sqrt(N) * (d - dec("0.28209479")) / dec("0.02998598")


@define("SWRG_NORMALITY")
def _(s):
    """Weights of Rahman and Govindarajulu (1997)."""
    def m(i):
        return Pinv(i / (N + 1))

    def mf(i):
        return m(i) * density(m(i))

    def a(i, left, right):
        return -(N + 1) * (N + 2) * density(m(i)) * (left - 2 * mf(i) + right)
    first = a(sympy.Integer(1), 0, mf(sympy.Integer(2)))
    last = a(N, mf(N - 1), 0)

    def mid(i):
        return a(i, mf(i - 1), mf(i + 1))
    top = first * s.y(1) + last * s.y(N) + S(lambda i: mid(i) * s.y(i), 2, N - 1)
    norm = first ** 2 + last ** 2 + S(lambda i: mid(i) ** 2, 2, N - 1)
    return top ** 2 / norm / S(lambda i: (s.x(i) - s.mean) ** 2)


@define("GMG_NORMALITY")
def _(s):
    return sqrt(s.m(2)) / (sqrt(pi / 2) * S(lambda i: Abs(s.x(i) - s.median)) / N)


@define("SH_NORMALITY")
def _(s):
    sd = sqrt(s.var(1))
    u = (s.y(N) - s.y(1)) / sd
    g = S(lambda i: Abs(s.x(i) - s.mean)) / (sd * sqrt(N * (N - 1)))
    small = Gam(N + 1) ** (1 / (N - 1)) / (2 * N)
    large = (2 * pi) ** (1 / (2 * (N - 1))) * (N * sqrt(N) / sympy.E) ** (1 / (N - 1)) / (2 * sympy.E)
    c = Ite(cl.Gt0(150 - N), small, large)
    return ((c * u) ** (-(N - 1)) + g ** (-(N - 1))) ** (1 / (N - 1))


@define("DLDMZEPD_NORMALITY")
def _(s):
    z = s.z(0)
    r1 = dec("0.18240929") - S(lambda i: z.x(i) ** 2 * log(Abs(z.x(i)))) / (2 * N)
    r2 = dec("0.5348223") - S(lambda i: log(1 + Abs(z.x(i)))) / N
    r3 = dec("0.20981558") - S(lambda i: log(log(dec("2.71828182846") + Abs(z.x(i))))) / N
    m = [[dec("1259.04213344"), dec("-32040.69569026"), dec("85065.77739473")], [dec("-32040.6956903"), dec("918649.9005906"), dec("-2425883.3443201")],
         [dec("85065.7773947"), dec("-2425883.3443201"), dec("6407749.8211208")]]
    r = [r1, r2, r3]
    return N * sum(m[i][j] * r[i] * r[j] for i in range(3) for j in range(3))


# ------------------------------------------------------------------ Weibull
@define("MD_WEIBULL")
def _(s):
    u = FAMILY["WEIBULL"](s)
    t1 = S(lambda i: (i / N - 1) ** 2 * (log(u.y(i + 1)) - log(u.y(i))), 1, N - 1)
    t2 = S(lambda i: (i / N - 1) * (u.y(i + 1) - u.y(i)), 1, N - 1)
    return N * (t1 + 2 * t2 + Q(1, 2))


@define("LS_WEIBULL")
def _(s):
    u = FAMILY["WEIBULL"](s)
    eps = Q(1, 10 ** 10)
    return S(lambda i: MaxF(i / N - u.y(i), u.y(i) - (i - 1) / N) / sqrt(u.y(i) * (1 - u.y(i) + eps))) / sqrt(N)


@define("KL_WEIBULL")
def _(s):
    k = s.p["k"]
    m = Fl(N / 2)

    def lv(i):
        return k * log(s.y(i))

    def hi(i):
        return -MaxF(-(i + m), -N)

    def lo(i):
        return MaxF(i - m, ONE)
    h = S(lambda i: log(N / (2 * m) * (lv(hi(i)) - lv(lo(i))))) / N
    return -h - S(lambda i: k * log(s.x(i))) / N + S(lambda i: s.x(i) ** k) / N


def gumbel(s):
    """Minus the logarithms: a Gumbel sample; y in ascending order."""
    return Sample(lambda i: -log(s.x(i)), lambda i: -log(s.y(N + 1 - i)), s.p)


@define("ST1_WEIBULL")
def _(s):
    return (gumbel(s).skew - dec("1.139547")) ** 2 / (20 / N)


@define("ST2_WEIBULL")
def _(s):
    g = gumbel(s)
    return (g.kurt - dec("7.55") * g.skew + dec("3.21")) ** 2 / (dec("219.72") / N)


@define("RSB_WEIBULL")
def _(s):
    """Smith and Bain: correlation of the ordered log-observations with the scores."""
    return smith_bain(s.map(log))


@deviation("RSB_WEIBULL", "unsorted")
def _(s):
    return smith_bain(Sample(lambda i: log(s.x(i)), lambda i: log(s.x(i)), s.p))


def smith_bain(lx):
    def score(i):
        return log(-log(1 - i / (N + 1)))
    return N * (1 - ppcc(lx, score) ** 2)


def blie(s):
    """The best linear invariant-like estimate of 1/beta of Gibson and Higgins, as given by Ozturk and Korukoglu (1988)."""
    def w(i):
        return log((N + 1) / (N - i + 1))

    def v(i):
        return w(i) * (1 + log(w(i))) - 1
    wn = N - S(w, 1, N - 1)
    vn = dec("0.4228") * N - S(v, 1, N - 1)
    sv = S(lambda i: v(i) * log(s.y(i)), 1, N - 1) + vn * log(s.y(N))
    sw = S(lambda i: w(i) * log(s.y(i)), 1, N - 1) + wn * log(s.y(N))
    return dec("0.6079") * sv - dec("0.257") * sw


@define("SB_WEIBULL")
def _(s):
    lx = s.map(log)
    return N * (blie(s) / N) ** 2 / S(lambda i: (lx.x(i) - lx.mean) ** 2)


@define("OK_WEIBULL")
def _(s):
    sig = S(lambda i: (2 * i - 1 - N) * log(s.y(i))) / (log(2) * (N - 1))
    return (blie(s) / sig - 1 - dec("0.13") / sqrt(N) + dec("1.18") / N) / (dec("0.49") / sqrt(N) - dec("0.36") / N)


def gumbel_score(i):
    """Approximate mean of the i-th order statistic of the standard Gumbel law of minima (David and Johnson)."""
    p = i / (N + 1)
    q = 1 - p
    t = sympy.Symbol("t", positive=True)
    f = log(-log(1 - t))
    d2, d3, d4 = (sympy.diff(f, t, r) for r in (2, 3, 4))
    sub = {t: p}
    return f.subs(sub) + p * q / (2 * (N + 2)) * d2.subs(sub) + p * q / (N + 2) ** 2 * (Q(1, 3) * (q - p) * d3.subs(sub) + Q(1, 8) * p * q * d4.subs(sub))


def standard_gap(s, i):
    return (log(s.y(i + 1)) - log(s.y(i))) / (gumbel_score(i + 1) - gumbel_score(i))


@define("TS_WEIBULL")
def _(s):
    top = 2 * S(lambda i: (N - 1 - i) * standard_gap(s, i), 1, N - 2)
    return top / ((N - 2) * S(lambda i: standard_gap(s, i), 1, N - 1))


@define("LOS_WEIBULL")
def _(s):
    total = S(lambda i: standard_gap(s, i), 1, N - 1)

    def z(i):
        return S(lambda j: standard_gap(s, j), 1, i) / total
    m = N - 2
    return -m - S(lambda i: (2 * i - 1) * (log(z(i)) + log(1 - z(N - 1 - i))), 1, N - 2) / m


@define("MSF_WEIBULL")
def _(s):
    h = Fl(N / 2)
    return S(lambda i: standard_gap(s, i), h + 1, N - 1) / S(lambda i: standard_gap(s, i), 1, N - 1)


# ------------------------------------------------------------------ beta
@define("MB_BETA")
def _(s):
    a, b = s.p["alpha"], s.p["beta"]
    mean, var = a / (a + b), a * b / ((a + b) ** 2 * (a + b + 1))
    return N * (s.mean - mean) ** 2 / var + N * (s.var(1) - var) ** 2 / var


@define("SK_BETA")
def _(s):
    a, b = s.p["alpha"], s.p["beta"]
    t = a + b
    g1 = 2 * (b - a) * sqrt(t + 1) / ((t + 2) * sqrt(a * b))
    g2 = 6 * ((a - b) ** 2 * (t + 1) - a * b * (t + 2)) / (a * b * (t + 2) * (t + 3))
    sk = sqrt(N * (N - 1)) / (N - 2) * s.skew
    ku = (N - 1) / ((N - 2) * (N - 3)) * ((N + 1) * (s.kurt - 3) + 6)
    return N / 6 * (sk - g1) ** 2 + N / 24 * (ku - g2) ** 2


@define("RT_BETA")
def _(s):
    a, b = s.p["alpha"], s.p["beta"]
    ratio = exp(S(lambda i: log(s.x(i))) / N) / s.mean
    return sqrt(N) * Abs(ratio - exp(Psi(a) - Psi(a + b)) * (a + b) / a)


@define("ENT_BETA")
def _(s):
    a, b = s.p["alpha"], s.p["beta"]
    m = Fl(N / 4)

    def gap(i):
        return s.y(-MaxF(-(i + m), -N)) - s.y(MaxF(i - m, ONE))
    h = S(lambda i: log(N / (2 * m) * gap(i))) / N
    lb = cl.Lg(a) + cl.Lg(b) - cl.Lg(a + b)
    return sqrt(N) * Abs(h - (lb - (a - 1) * Psi(a) - (b - 1) * Psi(b) + (a + b - 2) * Psi(a + b)))


def of_logarithms(base):
    """The statistic for log-normality: that for normality, of the standardised logarithms."""
    def fn(s):
        z = s.map(lambda x: (log(x) - log(s.p["scale"])) / s.p["s"])
        z.p = {"mean": sympy.Integer(0), "var": ONE}
        return base(z)
    return fn


def definition(code):
    """The definition for a criterion code (without its GOODNESS_OF_FIT), or None."""
    if code in DEFS:
        return DEFS[code]
    if code.endswith("_LOGNORMAL"):
        base = DEFS.get(code[:-len("LOGNORMAL")] + "NORMALITY")
        return base and of_logarithms(base)
    return None


def deviations(code):
    if code in DEVIATIONS:
        return DEVIATIONS[code]
    if code.endswith("_LOGNORMAL"):
        return {k: of_logarithms(f) for k, f in DEVIATIONS.get(code[:-len("LOGNORMAL")] + "NORMALITY", {}).items()}
    return {}
