"""Which law a criterion hypothesises, simulates and compares with; what each generator draws; the registries."""
from __future__ import annotations

import ast
import itertools

import sympy

from .. import laws, models, stats
from ..drive import NONE, Session, enum_members, new_interp, sym
from ..interp import AnalysisBroken, Interp, Project
from ..laws import Law
from ..values import AV, UNK, C, Facets, Obj, OrdVal, const, num
from .registry import check

PT = models.param_term


def member(m):
    return AV(frozenset({("c", C(m))}))


def members(s):
    return s.cls(s.get("DistributionType")).members


# ---- the laws in terms of documented parameters
def g(fam, **p):
    return Law(fam, {k: sympy.sympify(v) for k, v in p.items()})


GEN_SPEC = {
    "NORMAL": (("mean", "var"), lambda p: g("norm", loc=p["mean"], scale=sympy.sqrt(p["var"]))),
    "EXPONENTIAL": (("lam",), lambda p: g("expon", scale=1 / p["lam"])),
    "WEIBULL": (("a", "k"), lambda p: g("exponweib", a=p["a"], c=p["k"])),
    "UNIFORM": (("a", "b"), lambda p: g("uniform", loc=p["a"], scale=p["b"] - p["a"])),
    "STUDENT": (("df",), lambda p: g("t", df=p["df"])),
    "GAMMA": (("alfa", "beta"), lambda p: g("gamma", a=p["alfa"], scale=1 / p["beta"])),
    "BETA": (("a", "b"), lambda p: g("beta", a=p["a"], b=p["b"])),
    "LOG_NORMAL": (("s", "mu"), lambda p: g("lognorm", s=p["s"], scale=sympy.exp(p["mu"]))),
    "CAUCHY": (("t", "s"), lambda p: g("cauchy", loc=p["t"], scale=p["s"])),
    "CHI_2": (("df",), lambda p: g("chi2", df=p["df"])),
    "GOMPERTZ": (("eta", "b"), lambda p: g("gompertz", c=p["eta"], scale=p["b"])),
    "GUMBEL": (("mu", "beta"), lambda p: g("gumbel_r", loc=p["mu"], scale=p["beta"])),
    "INV_GAUSS": (("mu", "lam"), lambda p: g("invgauss", mu=p["mu"] / p["lam"], scale=p["lam"])),
    "LAPLACE": (("t", "s"), lambda p: g("laplace", loc=p["t"], scale=p["s"])),
    "LOGISTIC": (("t", "s"), lambda p: g("logistic", loc=p["t"], scale=p["s"])),
    "RICE": (("nu", "sigma"), lambda p: g("rice", b=p["nu"] / p["sigma"], scale=p["sigma"])),
    "TRUNC_NORMAL": (("mean", "var", "a", "b"), lambda p: g("truncnorm", a=(p["a"] - p["mean"]) / sympy.sqrt(p["var"]),
                                                          b=(p["b"] - p["mean"]) / sympy.sqrt(p["var"]), loc=p["mean"], scale=sympy.sqrt(p["var"]))),
    "TUKEY": (("lam",), lambda p: g("tukeylambda", lam=p["lam"])),
}
# contaminated normals: [(weight, law)]
MIX_SPEC = {
    "LO_CON_NORMAL": (("p", "a"), lambda p: [(p["p"], g("norm", loc=p["a"])), (1 - p["p"], g("norm"))]),
    "SCALE_CON_NORMAL": (("p", "b"), lambda p: [(p["p"], g("norm", scale=p["b"])), (1 - p["p"], g("norm"))]),
    "MIX_CON_NORMAL": (("p", "a", "b"), lambda p: [(p["p"], g("norm", loc=p["a"], scale=p["b"])), (1 - p["p"], g("norm"))]),
}
# criterion constructor parameters
STAT_SPEC = {
    "NORMAL": ({"mean": 0, "var": 1}, lambda p: g("norm", loc=p["mean"], scale=sympy.sqrt(p["var"]))),
    "EXPONENTIAL": ({"lam": 1}, lambda p: g("expon", scale=1 / p["lam"])),
    "WEIBULL": ({"a": 1, "k": 5}, lambda p: g("exponweib", a=p["a"], c=p["k"])),
    "UNIFORM": ({"a": 0, "b": 1}, lambda p: g("uniform", loc=p["a"], scale=p["b"] - p["a"])),
    "STUDENT": ({"df": 1, "loc": 0, "scale": 1}, lambda p: g("t", df=p["df"], loc=p["loc"], scale=p["scale"])),
    "GAMMA": ({"alpha": 1, "beta": 1}, lambda p: g("gamma", a=p["alpha"], scale=1 / p["beta"])),
    "BETA": ({"alpha": 1, "beta": 1}, lambda p: g("beta", a=p["alpha"], b=p["beta"])),
    "LOG_NORMAL": ({"s": 1, "scale": 1}, lambda p: g("lognorm", s=p["s"], scale=p["scale"])),
}
# documented domains of generator parameters
POS, NONNEG, PROB, REAL = "positive", "non-negative", "a probability", "any number"
DOMAIN = {
    "NORMAL": {"mean": REAL, "var": POS}, "EXPONENTIAL": {"lam": POS}, "WEIBULL": {"a": POS, "k": POS},
    "UNIFORM": {"a": REAL, "b": REAL}, "STUDENT": {"df": POS}, "GAMMA": {"alfa": POS, "beta": POS},
    "BETA": {"a": POS, "b": POS}, "LOG_NORMAL": {"mu": REAL, "s": POS}, "CAUCHY": {"t": REAL, "s": POS},
    "CHI_2": {"df": POS}, "GOMPERTZ": {"eta": POS, "b": POS}, "GUMBEL": {"mu": REAL, "beta": POS},
    "INV_GAUSS": {"mu": POS, "lam": POS}, "LAPLACE": {"t": REAL, "s": POS}, "LOGISTIC": {"t": REAL, "s": POS},
    "RICE": {"nu": NONNEG, "sigma": NONNEG}, "TRUNC_NORMAL": {"mean": REAL, "var": POS, "a": REAL, "b": REAL},
    "TUKEY": {"lam": REAL}, "LO_CON_NORMAL": {"p": PROB, "a": REAL}, "SCALE_CON_NORMAL": {"p": PROB, "b": POS},
    "MIX_CON_NORMAL": {"p": PROB, "a": REAL, "b": POS},
}


# ---- criteria: the law simulated for the null distribution
class Sim:
    __slots__ = ("cls", "member", "inst", "sess", "law", "use", "params", "hyp_terms", "why", "raises", "uses", "variant", "sizes")

    def __init__(self):
        for x in self.__slots__:
            setattr(self, x, None)


def execute_func(c):
    d, av = c.lookup("execute_statistic")
    if av is None:
        return None
    for a in av.atoms:
        if a[0] == "f":
            return a[1]
    return None


def simulate(I, c, vname, args):
    """Follow the Monte-Carlo resolver for one criterion up to the sample it is evaluated on."""
    r = Sim()
    r.cls, r.variant = c, vname
    s = r.sess = Session(I, f"sim/{c.qualname}/{vname}")
    r.inst = s.new(c, **args)
    if r.inst is None:
        r.why = "the criterion cannot be constructed"
        return r
    d = s.meth(r.inst, "distribution")
    ok, m = d.const() if d is not None else (False, None)
    if not ok:
        r.why = "its distribution is not a constant"
        return r
    r.member = m.name
    hyp = s.meth(r.inst, "hypothesis")
    pl = s.meth(hyp, "parameters") if hyp is not None else None
    r.hyp_terms = list_terms(I, pl, s.st)
    f = execute_func(c)
    seen = []

    def hook(I2, fn, a, k, st, fr, node):
        x = a[-1] if a else next(iter(k.values()), None)
        for n in ("rvs", "sample", "data", "x"):
            if n in k:
                x = k[n]
        if x is not None:
            seen.append((x, I2.eff(x, st), models.length(I2, x, st)))
        return num(Facets(deps=I2.eff_deps(x, st) if x is not None else frozenset(), rank=0))
    saved = dict(I.func_hooks)
    I.func_hooks[f.qualname] = hook
    u0 = len(I.law_uses)
    n = sym("sample_size")
    try:
        res = s.new(s.cls(s.get("hypothesis_testing.limit_distribution.base.MonteCarloLimitDistributionResolver")), sym("monte_carlo_count"))
        if res is None:
            r.why = "the Monte-Carlo resolver cannot be constructed"
            return r
        out = s.meth(res, "resolve", r.inst, n)
        r.raises = list(s.last_raises)
    finally:
        I.func_hooks.clear()
        I.func_hooks.update(saved)
    r.uses = [u for u in I.law_uses[u0:] if u.method == "rvs"]
    if not seen:
        r.why = "never-simulated" if out is None else "no sample reaches the statistic"
        return r
    ls = []
    for x, fct, ln in seen:
        ls.append(laws.of_term(fct.term, I.draws))
    r.sizes = [ln for _, _, ln in seen]
    L = ls[0]
    for o in ls[1:]:
        if laws.same(L, o)[0] is not True:
            r.why = "several laws are simulated"
            return r
    r.law = L
    r.use = r.uses[-1] if r.uses else None
    return r


def list_terms(I, v, st):
    """Terms of the elements of a list value; None when they are not all known."""
    os_ = I.objs(v, st) if v is not None else []
    if len(os_) != 1 or len(v.atoms) != 1:
        return None
    o = os_[0][1]
    if o.elems is None:
        return None
    return [x.f.term for x in o.elems]


_SIM = {}


def all_sims(root):
    if root in _SIM:
        return _SIM[root]
    I = new_interp(root)
    cs = stats.concrete_statistics(I)
    if len(cs) < 150:
        raise AnalysisBroken(f"only {len(cs)} concrete statistics found")
    sims = []
    for c in cs:
        vn, args = stats.variants(I, c)[0]
        sims.append((simulate(I, c, vn, args), args))
    _SIM[root] = (I, sims)
    return _SIM[root]


def declared_law(r, args):
    """The law the constructor arguments declare; None when the constructor names none we know."""
    spec = STAT_SPEC.get(r.member)
    if spec is None:
        return None
    dflt, build = spec
    have = [n for n in dflt if n in args]
    return build({n: (PT(n) if n in args else sympy.Integer(dflt[n])) for n in dflt}), have


GRID = {"mean": (0, -3, 250), "loc": (0, -3, 250), "var": (1, sympy.Rational(1, 400), 900), "a": (0, 1, sympy.Rational(1, 2), 6000), "b": (1, 9000, 7),
        None: (1, sympy.Rational(3, 8), sympy.Rational(1, 5000), sympy.Rational(5, 2), 60, 5000)}


def differ_at(member, A, B, names):
    """A point of the parameter domain at which two laws of one family differ, as text, or None."""
    A, B = laws.canonical(A), laws.canonical(B)
    if A.family is None or A.family != B.family or not A.known() or not B.known():
        return None
    free = set().union(*[v.free_symbols for L in (A, B) for v in L.p.values()])
    ps = [n for n in names if PT(n) in free]
    if free - {PT(n) for n in ps} or not ps:
        return None
    positive = member == "WEIBULL"
    grids = [[x for x in GRID.get(n, GRID[None]) if not positive or x > 0] for n in ps]
    if len(ps) > 3:
        return None
    for vals in itertools.product(*grids):
        v = dict(zip(ps, vals))
        if "a" in v and "b" in v and v["a"] >= v["b"]:
            continue
        at = {PT(n): sympy.sympify(x) for n, x in v.items()}
        for n in A.p:
            try:
                x, y = (complex(L.p[n].subs(at).evalf(30)) for L in (A, B))
            except Exception:
                return None
            if not (abs(x) < 1e300 and abs(y) < 1e300):
                continue
            if abs(x - y) > 1e-9 * max(abs(x), abs(y), 1e-12):
                return f"{n} is {float(x.real):g} instead of {float(y.real):g} for {', '.join(f'{k}={float(z):g}' for k, z in v.items())}"
    return None


def single_points(I, c, member, have):
    """Single values of the constructor parameters, on both sides of the numbers the constructors are written with."""
    own = set()
    for k in c.mro:
        node = getattr(k, "node", None)
        for f in (node.body if node is not None else ()):
            if isinstance(f, ast.FunctionDef) and f.name in ("__init__", "hypothesis"):
                for n in ast.walk(f):
                    if isinstance(n, ast.Constant) and type(n.value) in (int, float) and abs(n.value) < 1e9:
                        own |= {sympy.Rational(repr(n.value)) * q for q in (sympy.Rational(3, 4), 1, sympy.Rational(5, 4))}
    dflt = STAT_SPEC[member][0]
    base = {n: sympy.Rational(7, 4) if n not in ("a", "b", "mean", "loc") or member == "WEIBULL" else sympy.sympify(dflt[n]) for n in dflt if n in have}
    out = [base]
    for n in base:
        real = n in ("mean", "loc") or (member == "UNIFORM")
        for x in [*GRID.get(n, GRID[None]), *sorted(own)]:
            p = {**base, n: sympy.sympify(x)}
            if (not real and x <= 0) or (member == "UNIFORM" and not p.get("a", 0) < p.get("b", 1)):
                continue
            out.append(p)
    return out[:40]


def law_at(member, p):
    dflt, build = STAT_SPEC[member]
    return build({n: sympy.sympify(p.get(n, dflt[n])) for n in dflt})


def known_args(args, p):
    return {n: const(float(p[n])) if n in p else v for n, v in args.items()}


def text_of(p):
    return ", ".join(f"{n}={float(x):g}" for n, x in p.items())


def site_of(r):
    return r.use.site if r.use is not None else None


@check("P06", "law inference (symbolic dataflow)",
       "Every concrete criterion is constructed abstractly with a symbol per parameter; the Monte-Carlo resolver is followed "
       "through hypothesis, generator lookup and generator to the random-number call, whose family and parameter terms "
       "must equal the law the constructor parameters declare; the parameter values reported for storage must determine "
       "that law.",
       "Terms are compared by algebra; a report is a pair of terms that differ (with a witness value). Laws that cannot be "
       "expressed are undecided. The meaning of the constructor parameters per family is a table in the checker.")
def p06(rep, root, tier):
    I, sims = all_sims(root)
    rep.rule = "law(simulated sample) == law(constructor parameters), and the reported parameters contain every one of them"
    rep.count("criteria", len(sims))
    for r, args in sims:
        n = r.cls.name
        if r.why == "never-simulated":
            exc = r.raises[0] if r.raises else None
            rep.violation(f"{n}:not-simulated", f"{n}: its null distribution cannot be simulated: {exc[0] if exc else 'no path completes'}",
                          exc[2] if exc else None)
            continue
        if r.member in STAT_SPEC and (r.law is None or not r.law.known()):
            hit = None
            for p in single_points(I, r.cls, r.member, args):
                q = simulate(I, r.cls, f"{r.variant}/{text_of(p)}", known_args(args, p))
                rep.count("single parameter values")
                want = law_at(r.member, p)
                if q.law is not None and laws.same(q.law, want)[0] is False and not nearly(q.law, want):
                    hit = (p, q, want)
                    break
            if hit:
                p, q, want = hit
                rep.violation(f"{n}:simulated-law:{q.law}", f"{n}: constructed with {text_of(p)}, its null distribution is simulated from {q.law}, not {want}",
                              site_of(q), {"criterion": r.cls.qualname})
                continue
        if r.member is None or r.law is None:
            rep.unsure(n, r.why)
            continue
        d = declared_law(r, args)
        if d is None:
            rep.unsure(n, f"no declared law for family {r.member}")
            continue
        L, have = d
        rep.count("laws compared")
        eq, why = laws.same(r.law, L)
        if eq is None:
            at = differ_at(r.member, r.law, L, have)
            eq, why = (False, at) if at else (eq, why)
        if eq is False:
            rep.violation(f"{n}:simulated-law:{r.law}", f"{n}: constructed for {L}, but its null distribution is simulated from {r.law} ({why})",
                          site_of(r), {"criterion": r.cls.qualname, "declared": str(L), "simulated": str(r.law)})
            continue
        if eq is None:
            rep.unsure(n, why)
            continue
        if r.hyp_terms is None or any(t is None for t in r.hyp_terms):
            rep.unsure(n, "the reported parameter list is not known")
            continue
        rep.count("reported parameters", len(r.hyp_terms))
        got = set().union(*[t.free_symbols for t in r.hyp_terms]) if r.hyp_terms else set()
        missing = [x for x in have if PT(x) not in got and any(PT(x) in sympy.sympify(v).free_symbols for v in L.p.values())]
        if missing:
            rep.violation(f"{n}:reported-parameters", f"{n}: the reported parameters do not carry {', '.join(missing)}", None)
        else:
            rep.ok(f"{n}: {r.law}")


def estimated(law):
    """The law's parameters were fitted to the sample."""
    return law is not None and any(v is not None and any(str(t).startswith("fitted_") for t in v.free_symbols) for v in law.p.values())


@check("P07", "law inference (symbolic dataflow)",
       "Every distribution-function call reachable from an evaluation (cdf, sf, their logarithms, densities and quantiles, "
       "frozen or not) is bound to its family and parameter terms; an argument that is a shift, scaling or logarithm of the "
       "observation is folded in; the law so compared with must equal the one the constructor parameters declare.",
       "A report is a definite difference between two laws in closed form. Estimated parameters and formulas without a "
       "library law are undecided here.")
def p07(rep, root, tier):
    from .statistics import all_runs
    I2, sims = all_sims(root)
    by = {r.cls.qualname: (r, args) for r, args in sims}
    rep.rule = "law(observation under the reference distribution function) == law(constructor parameters)"
    I = new_interp(root)
    cs = stats.concrete_statistics(I)
    rep.count("criteria", len(cs))
    x = models.X_SYM
    for c in cs:
        q = by.get(c.qualname)
        d = declared_law(*q) if q is not None and q[0].member is not None else None
        if d is None:
            rep.unsure(c.name, "the declared law is not known")
            continue
        want = d[0]
        vn, args = stats.variants(I, c)[0]
        u0 = len(I.law_uses)
        r = stats.run_statistic(I, c, vn, args, "array")
        uses = [u for u in I.law_uses[u0:] if u.method != "rvs"]
        compared = 0
        bad = False
        seen = set()
        for u in uses:
            rep.count("distribution-function calls")
            if estimated(u.law):
                rep.count("laws fitted to the sample")
                continue
            if u.method in ("ppf", "isf"):
                A = laws.canonical(u.law)
                B = laws.canonical(want)
                if A.family != B.family or not u.law.known():
                    continue
                shapes_eq = [laws.equal(A.p[k], B.p[k]) for k in A.p if k not in ("loc", "scale")]
                std = laws.equal(A.p["loc"], laws.ZERO) and laws.equal(A.p["scale"], laws.ONE)
                eq, why = laws.same(u.law, want)
                if eq is True or (std and all(e is True for e in shapes_eq)):
                    compared += 1
                    continue
                if any(e is False for e in shapes_eq) or (eq is False and not std):
                    bad = True
                    rep.violation(f"{c.name}:quantile-law", f"{c.name}: takes quantiles of {u.law}, but was constructed for "
                                  f"{want} ({why})", u.site, {"criterion": c.qualname})
                continue
            if u.x is None or not (u.x.has(x) or u.x.has(models.EDGE_SYM)) or (u.x.has(x) and u.x.has(models.EDGE_SYM)):
                continue
            L = laws.of_observation(u.law, u.x, x if u.x.has(x) else models.EDGE_SYM)
            if L.family is None or not L.known() or estimated(L):
                continue
            eq, why = laws.same(L, want)
            if eq is None:
                at = differ_at(q[0].member, L, want, d[1])
                eq, why = (False, at) if at else (eq, why)
            if eq is True:
                compared += 1
            elif eq is False:
                bad = True
                rep.violation(f"{c.name}:reference-law", f"{c.name}: compares the sample with {L}, but was constructed for "
                              f"{want} ({why})", u.site, {"criterion": c.qualname, "reference": str(L), "declared": str(want)})
        if not bad and any(not u.law.known() for u in uses if u.method not in ("ppf", "isf")):
            bad = at_single_values(rep, I, c, vn, args, q[0].member)
        if bad:
            continue
        if compared:
            rep.count("laws compared", compared)
            rep.ok(f"{c.name}: {compared} uses of {want}")
        elif not uses and r.value is not None and not r.undecided:
            rep.count("criteria that apply no distribution function")
        else:
            rep.unsure(c.name, "no distribution function with known parameters is applied to the sample" if not uses else
                       "its distribution functions have estimated parameters or are applied to transformed data")


def at_single_values(rep, I, c, vn, args, member):
    """The reference law for single values of the constructor parameters: for constructors that distinguish them."""
    x = models.X_SYM
    for p in single_points(I, c, member, args):
        u0 = len(I.law_uses)
        stats.run_statistic(I, c, f"{vn}/{text_of(p)}", known_args(args, p), "array")
        rep.count("single parameter values")
        want = law_at(member, p)
        for u in I.law_uses[u0:]:
            if u.method in ("rvs", "ppf", "isf") or estimated(u.law) or u.x is None or not u.x.has(x) or u.x.has(models.EDGE_SYM):
                continue
            L = laws.of_observation(u.law, u.x, x)
            if L.family is None or not L.known() or estimated(L) or any(v.free_symbols for v in L.p.values()):
                continue
            if laws.same(L, want)[0] is False and not nearly(L, want):
                rep.violation(f"{c.name}:reference-law", f"{c.name}: constructed with {text_of(p)} it compares the sample with {L}, not {want}", u.site,
                              {"criterion": c.qualname})
                return True
    return False


# ---- generators
def make_generator(I, name, label="gen", params=None):
    s = Session(I, f"{label}/{name}")
    m = next((x for x in members(s) if x.name == name), None)
    if m is None:
        return s, None, None
    spec = GEN_SPEC.get(name) or MIX_SPEC.get(name)
    names = spec[0] if spec else ()
    d = s.heap_dict({n: sym(n) for n in names}) if params is None else params
    gen = s.call("utils.generator.get_available_generator", member(m), d)
    return s, m, gen


def weights(I, name, args, kwargs, st):
    """Probabilities of the outcomes of a discrete selection, or None."""
    leaf = name.rsplit(".", 1)[1]
    if leaf == "choice":
        p = kwargs.get("p") or (args[3] if len(args) > 3 else None)
        if p is None:
            return None
        for oid, o in I.objs(p, st):
            if o.elems is not None:
                return [x.f.term for x in o.elems]
        a = p.single()
        if a is not None and a[0] == "t":
            return [x.f.term for x in a[1]]
        return None
    if leaf == "binomial":
        n = kwargs.get("n") or (args[0] if args else None)
        p = kwargs.get("p") or (args[1] if len(args) > 1 else None)
        if n is not None and n.const() == (True, 1) and p is not None and p.f.term is not None:
            return [1 - p.f.term, p.f.term]
    if name == "scipy.stats.bernoulli.rvs":
        p = kwargs.get("p") or (args[0] if args else None)
        if p is not None and p.f.term is not None:
            return [1 - p.f.term, p.f.term]
    return None


def mixture(I, name):
    """[(weight, law)] of a generator that selects a component, or (None, why)."""
    out = []
    probs = []
    site = [None]
    for k in (0, 1):
        def hook(I2, kind, nm, recv, args, kwargs, st, fr, node, k=k):
            if kind != "call" or not (nm.startswith("numpy.random") or nm.startswith("scipy.stats.bernoulli")):
                return None
            w = weights(I2, nm, args, kwargs, st)
            if w is None:
                return None
            probs.append(w)
            site[0] = I2.site(node, fr)
            return const(k)
        s, m, gen = make_generator(I, name, f"mix{k}")
        if gen is None:
            return None, "the generator cannot be built", None
        I.hooks.append(hook)
        u0 = len(I.law_uses)
        try:
            s.meth(gen, "generate", sym("size"))
        finally:
            I.hooks.remove(hook)
        ls = []
        for u in I.law_uses[u0:]:
            if u.method == "rvs" and not any(laws.same(u.law, o)[0] is True for o in ls):
                ls.append(u.law)
        if len(ls) != 1 or not probs or len(probs[-1]) != 2 or probs[-1][k] is None:
            return None, f"the component drawn for outcome {k} is not a single law chosen by a known probability", site[0]
        out.append((probs[-1][k], ls[0]))
    return out, "", site[0]


class separately:
    """A run on a known size: every drawn value is a symbol of its own, ordered by or against the time it was drawn."""

    def __init__(self, I, sense):
        self.I, self.sense = I, sense

    def __enter__(self):
        I = self.I
        I.known_run = I.exact_raises = I.split_draws = True
        I.split_order = []

        def cmp(a, b):
            a, b = sympy.sympify(a), sympy.sympify(b)
            if a == b:
                return 0
            if a.is_number and b.is_number:
                return None if a is sympy.nan or b is sympy.nan else (-1 if a < b else 1)
            if a in I.split_order and b in I.split_order:
                return self.sense * (-1 if I.split_order.index(a) < I.split_order.index(b) else 1)
            return None
        I.order = cmp
        return self

    def __exit__(self, *a):
        self.I.known_run = self.I.exact_raises = self.I.split_draws = False
        self.I.order = None
        return False


def separate_draws(rep, I, name, cname):
    """Each of the values is made from draws of its own, in an arrangement that does not depend on what was drawn."""
    n = 3
    mixed = name in MIX_SPEC
    bad = opened = False
    for pattern in (((0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1)) if mixed else (None,)):
        seen = []
        for sense in (1, -1):
            count = [0]

            def hook(I2, kind, nm, recv, args, kwargs, st, fr, node):
                if kind != "call" or not (nm.startswith("numpy.random") or nm.startswith("scipy.stats.bernoulli")):
                    return None
                if weights(I2, nm, args, kwargs, st) is None:
                    return None
                sz = kwargs.get("size") or (args[1] if len(args) > 1 and nm.endswith("choice") else None)
                ok, k = sz.const() if sz is not None else (True, None)
                if not ok or k is not None and not isinstance(k, int):
                    return None

                def nxt():
                    count[0] += 1
                    return const(pattern[(count[0] - 1) % n])
                if k is None:
                    return nxt()
                return I2.new("array", node, fr, st, f=Facets(rank=1), elems=tuple(nxt() for _ in range(k)))
            s, m, gen = make_generator(I, name, f"sep{pattern}{sense}")
            if gen is None:
                return None
            if mixed:
                I.hooks.append(hook)
            try:
                with separately(I, sense):
                    v = s.meth(gen, "generate", const(n))
                    order = list(I.split_order)
            finally:
                if mixed:
                    I.hooks.remove(hook)
            rep.count("runs of three draws")
            k = I.known_elems(v, s.st) if v is not None else None
            ts = [I.eff(x, s.st).term for x in k] if k is not None else None
            if ts is None or None in ts:
                opened = True
                continue
            site = class_site_of(I, s, gen)
            if len(ts) != n:
                rep.violation(f"{cname}:size", f"{cname}: asked for {n} values, {len(ts)} are returned", site)
                return False
            own = [frozenset(t.free_symbols & set(order)) for t in ts]
            if any(not o for o in own):
                rep.violation(f"{cname}:independent", f"{cname}: a returned value is {next(t for t, o in zip(ts, own) if not o)}, not drawn at random", site)
                return False
            for i in range(n):
                for j in range(i):
                    if own[i] & own[j]:
                        rep.violation(f"{cname}:independent", f"{cname}: values {j + 1} and {i + 1} of a sample are made from the same draw: they are not independent", site)
                        return False
            seen.append([sorted(order.index(x) for x in o) for o in own])
        if len(seen) == 2 and seen[0] != seen[1]:
            rep.violation(f"{cname}:independent", f"{cname}: the arrangement of the sample depends on the drawn values (sorted or selected draws are not independent)", site)
            return False
    return None if opened else not bad


def class_site_of(I, s, gen):
    for _, o in s.objs(gen):
        if o.cls is not None:
            d, av = o.cls.lookup("generate")
            for a in (av.atoms if av is not None else ()):
                f = a[1]
                if hasattr(f, "node"):
                    return (I.rel(f.module.path), f.node.lineno, f.qualname)
    return None


def same_mixture(A, B):
    def one(x, y):
        e = laws.equal(x[0], y[0])
        f = laws.same(x[1], y[1])[0]
        if e is False or f is False:
            return False
        return None if e is None or f is None else True
    v = []
    for perm in ((0, 1), (1, 0)):
        vs = [one(A[i], B[p]) for i, p in enumerate(perm)]
        v.append(False if False in vs else (None if None in vs else True))
    return True if True in v else (None if None in v else False)


@check("P08", "law inference (symbolic dataflow)",
       "Every generator is obtained through the public lookup with a symbol per documented parameter and followed to its "
       "random-number calls; family, parameter terms and number of draws must equal the documented law and the requested "
       "size, the reported parameters must be the ones given, and the code must depend on every one of them. The "
       "distribution-function helpers next to each generator must use the same law.",
       "Terms compared by algebra; mixtures by following each outcome of the component choice. The documented meaning of the "
       "parameters is a table in the checker.")
def p08(rep, root, tier):
    I = new_interp(root)
    rep.rule = "law(generated sample) == documented law(parameters); size, reported parameters and code agree"
    s0 = Session(I, "members")
    for m in members(s0):
        name = m.name
        s, _, gen = make_generator(I, name)
        spec = GEN_SPEC.get(name) or MIX_SPEC.get(name)
        if gen is None or spec is None:
            rep.unsure(name, "no generator, or no documented law for it")
            continue
        rep.count("generators")
        names, build = spec
        P = {n: PT(n) for n in names}
        cname = next((o.cls.name for _, o in s.objs(gen) if o.cls is not None), name)
        bad = False
        size = sym("size")
        u0 = len(I.law_uses)
        v = s.meth(gen, "generate", size)
        uses = [u for u in I.law_uses[u0:] if u.method == "rvs"]
        site = uses[-1].site if uses else None
        if v is None:
            rep.violation(f"{cname}:generate-raises", f"{cname}: generate raises on every path", s.last_raises[0][2] if s.last_raises else None)
            continue
        if name in GEN_SPEC:
            L = laws.of_term(I.eff(v, s.st).term, I.draws)
            eq, why = laws.same(L, build(P))
            if eq is False:
                bad = True
                rep.violation(f"{cname}:law", f"{cname}: documented to draw from {build(P)}, draws from {L} ({why})", site)
            elif eq is None and laws.has_atom(I.eff(v, s.st).term, I.draws):
                bad = True
                rep.violation(f"{cname}:law", f"{cname}: documented to draw from the continuous law {build(P)}, but {I.eff(v, s.st).term} takes one value with positive probability", site)
            elif eq is None:
                rep.unsure(f"{cname}: law", why)
            ln = models.length(I, v, s.st)
            szs = [u.size for u in uses] if len(uses) == 1 else []
            for what, z in [("the result has", ln)] + [("the call draws", z) for z in szs]:
                if z is None or z.f.term is None:
                    continue
                if laws.equal(z.f.term, PT("size")) is False or other_size(z.f.term):
                    bad = True
                    rep.violation(f"{cname}:size", f"{cname}: asked for size values, {what} {z.f.term}", site)
            if not szs or szs[0] is None or szs[0].f.term is None:
                if ln is None or ln.f.term is None:
                    rep.unsure(f"{cname}: size", "the number of values is not known")
        else:
            mix, why, msite = mixture(I, name)
            if mix is None:
                rep.unsure(f"{cname}: law", why)
            else:
                want = build(P)
                eq = same_mixture(mix, want)
                show = lambda z: " + ".join(f"{w}*{q}" for w, q in z)  # noqa: E731
                if eq is False:
                    bad = True
                    rep.violation(f"{cname}:law", f"{cname}: documented to draw from {show(want)}, draws from {show(mix)}", msite)
                elif eq is None:
                    rep.unsure(f"{cname}: law", "a weight or a component is not known")
        if repeatable(rep, I, name, cname) or (name in GEN_SPEC and not bad and at_values(rep, I, name, cname) is False):
            bad = True
        r = separate_draws(rep, I, name, cname)
        if r is False:
            bad = True
        elif r is None:
            rep.unsure(f"{cname}: independence", "the values of a sample of three are not known one by one")
        else:
            rep.ok(f"{cname}: each value from a draw of its own")
        pv = s.meth(gen, "parameters")
        got = None
        for _, o in s.objs(pv):
            if o.kind == "dict" and o.extra == "closed":
                got = {k.v: x for k, x in o.attrs.items()}
        if got is None:
            rep.unsure(f"{cname}: parameters", "the reported parameters are not known")
        else:
            for n in names:
                if n not in got:
                    bad = True
                    rep.violation(f"{cname}:parameters", f"{cname}: parameter {n} is not reported", None)
                elif laws.equal(got[n].f.term, PT(n)) is False:
                    bad = True
                    rep.violation(f"{cname}:parameters", f"{cname}: parameter {n} is reported as {got[n].f.term}", None)
        cv = s.meth(gen, "code")
        if cv is None:
            rep.violation(f"{cname}:code", f"{cname}: code raises", None)
            bad = True
        else:
            deps = I.eff_deps(cv, s.st)
            miss = [n for n in names if f"param:{n}" not in deps]
            if miss:
                bad = True
                rep.violation(f"{cname}:code", f"{cname}: its code does not depend on {', '.join(miss)}", None)
        if not bad:
            rep.ok(f"{cname}: {uses[-1].law if uses else ''}")
    helper_laws(rep, I)


def other_size(t):
    """A number of values the term gets wrong."""
    for k in (1, 2, 3, 10, 1000, 10 ** 6):
        v = t.subs(PT("size"), k)
        if v.is_number and v != k:
            return True
    return False


SEEDS = ("numpy.random.seed", "numpy.random.default_rng", "numpy.random.RandomState", "random.seed", "random.Random", "numpy.random.SeedSequence", "numpy.random.PCG64",
         "numpy.random.Philox", "numpy.random.MT19937")


def repeatable(rep, I, name, cname):
    """A seed that the code chooses makes every sample of a kind the same."""
    s, m, gen = make_generator(I, name, "seeds")
    if gen is None:
        return False
    c0 = len(I.calls)
    s.meth(gen, "generate", sym("size"))
    for dotted, args, kwargs, site, _ in I.calls[c0:]:
        seeds = [kwargs[k] for k in ("random_state", "seed") if k in kwargs] + (list(args[:1]) if dotted in SEEDS else [])
        for x in seeds:
            ok, c = x.const()
            if (ok and c is not None) or (not ok and x.single() == ("n",)):
                rep.violation(f"{cname}:seed", f"{cname}: draws with the seed {c if ok else I.eff(x, s.st).term}: its samples repeat each other", site)
                return True
    return False


VALUES = {POS: (0.375, 1.0, 2.5, 60.0, 5000.0, 1e-8), NONNEG: (0.5, 1.0, 2.5, 60.0, 1e-8), PROB: (0.25, 0.75), REAL: (-3.5, 0.0, 1.25, 250.0, 1e-8)}
BASE = {"UNIFORM": {"a": -7.0, "b": 1e6}, "TRUNC_NORMAL": {"mean": 1.5, "var": 2.25, "a": -4.5, "b": 300.0}}


def own_numbers(I, name, gen, s):
    """Numbers the generator's code is written with, and numbers around them."""
    out = set()
    mods = {o.cls.node for _, o in s.objs(gen) if o.cls is not None}
    low = {"NORMAL": "norm", "LOG_NORMAL": "lognormal", "EXPONENTIAL": "expon", "CHI_2": "chi2", "INV_GAUSS": "invgauss", "TRUNC_NORMAL": "truncnormal"}.get(name, name.lower())
    mn = f"pysatl_criterion.core.distributions.{low}"
    if mn in I.p.sources:
        mods.add(I.p.tree(mn))
    for t in mods:
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and type(n.value) in (int, float) and abs(n.value) < 1e12:
                c = float(n.value)
                out |= {c, c * 1.25 + 0.015625, c * 0.75}
    return sorted(out)[:40]


def at_values(rep, I, name, cname):
    """The law for single values of each parameter, and for few and many values: for code that distinguishes them."""
    names, build = GEN_SPEC[name]
    s, m, gen = make_generator(I, name, "values")
    if gen is None:
        return None
    extra = own_numbers(I, name, gen, s)
    base = BASE.get(name) or {n: (0.625 if DOMAIN[name][n] == PROB else 1.75) for n in names}
    points = [(dict(base), k) for k in sorted({1, 2, 40} | {int(x) + d for x in extra for d in (0, 1) if 2 < x < 10 ** 7})[:14]]
    for n in names:
        kind = DOMAIN[name][n]
        for x in sorted({*VALUES[kind], *(x for x in extra if kind == REAL or (x > 0 and (kind != PROB or x < 1)))}):
            p = {**base, n: x}
            if ("a" in p and name in BASE and p["a"] >= p["b"]):
                continue
            points.append((p, 5))
    for i, (p, size) in enumerate(points):
        s = Session(I, f"values/{name}/{i}")
        gen = s.call("utils.generator.get_available_generator", member(m), s.heap_dict({n: const(x) for n, x in p.items()}))
        v = s.meth(gen, "generate", const(size)) if gen is not None else None
        rep.count("parameter values and sizes")
        shown = ", ".join(f"{n}={x:g}" for n, x in p.items())
        if v is None:
            if gen is not None:
                rep.violation(f"{cname}:generate-raises", f"{cname}: with {shown} {size} value(s) cannot be generated", last_raise(s))
                return False
            continue
        n0 = I.eff(v, s.st)
        t = n0.term
        if t is None and n0.iv[0] == n0.iv[1] and models.is_arr(I, v, s.st):
            t = sympy.Float(n0.iv[0])
        L = laws.of_term(t, I.draws)
        want = build({n: sympy.Rational(repr(x)) for n, x in p.items()})
        eq, why = laws.same(L, want)
        if eq is False and nearly(L, want):
            eq = True
        site = class_site_of(I, s, gen)
        if eq is False:
            rep.violation(f"{cname}:law", f"{cname}: with {shown} and {size} value(s) it draws from {L}, not {want} ({why})", site)
            return False
        if eq is None and t is not None and (not t.free_symbols or laws.has_atom(t, I.draws)):
            rep.violation(f"{cname}:law", f"{cname}: with {shown} and {size} value(s) it yields {t}, not values drawn from {want}", site)
            return False
        ln = models.length(I, v, s.st)
        if ln is not None and ln.const()[0] and ln.const()[1] != size:
            rep.violation(f"{cname}:size", f"{cname}: asked for {size} value(s), the result has {ln.const()[1]}", site)
            return False
    return True


def nearly(A, B):
    """The same law but for the rounding of known numbers."""
    A, B = laws.canonical(A), laws.canonical(B)
    if A.family != B.family or set(A.p) != set(B.p):
        return False
    try:
        return all(abs(float(A.p[n]) - float(B.p[n])) <= 1e-9 * max(abs(float(B.p[n])), 1e-300) for n in A.p)
    except TypeError:
        return False


def last_raise(s):
    return s.last_raises[0][2] if s.last_raises else None


def helper_laws(rep, I):
    """generate_* and cdf_*/pdf_* functions of one module speak of one law."""
    pkg = "pysatl_criterion.core.distributions."
    for mn in sorted(I.p.sources):
        if not mn.startswith(pkg):
            continue
        mod = I.load(mn)
        fs = {}
        for k, v in I.g.heap[mod.env].attrs.items():
            for a in v.atoms:
                if a[0] == "f" and a[1].module is mod:
                    fs[k] = a[1]
        gens = {k: f for k, f in fs.items() if k.startswith("generate_") and not k.endswith(("_cdf", "_logcdf", "_logsf", "_pdf", "_sf", "_logpdf"))}
        rest = {k: f for k, f in fs.items() if k not in gens}
        if not gens or not rest:
            continue
        gname, gf = next(iter(gens.items()))
        s = Session(I, "helper/" + mn)
        gp = [a.arg for a in gf.node.args.args][1:]
        v = s.call(AV(frozenset({("f", gf)})), sym("size"), **{n: sym(n) for n in gp})
        L = laws.of_term(I.eff(v, s.st).term, I.draws) if v is not None else Law(None)
        for k, f in sorted(rest.items()):
            ps = [a.arg for a in f.node.args.args]
            if ps[1:] != gp:
                continue
            s2 = Session(I, f"helper/{mn}.{k}")
            oid, xav = stats.sample_value(I, s2.st, "array")
            u0 = len(I.law_uses)
            s2.call(AV(frozenset({("f", f)})), xav, **{n: sym(n) for n in gp})
            for u in I.law_uses[u0:]:
                if u.method == "rvs" or u.x is None:
                    continue
                rep.count("distribution-function helpers")
                R = laws.of_observation(u.law, u.x, models.X_SYM)
                eq, why = laws.same(R, L)
                if eq is False:
                    rep.violation(f"{mn.rsplit('.', 1)[1]}.{k}:law", f"{k} evaluates {R}, while {gname} draws from {L} ({why})", u.site)
                elif eq is None:
                    rep.unsure(f"{k}", why)
                else:
                    rep.ok(f"{k}: {R}")


# ---- registries
def concrete_of(I, qual):
    base = stats.find_class(I, qual)
    if base is None:
        raise AnalysisBroken(f"{qual} does not exist")
    return [c for c in I.classes if base in c.mro and c is not base and not c.is_abstract()], base


REGIONS = [("negative", (-sympy.oo, 0), {POS: False, NONNEG: False, PROB: False, REAL: True}),
           ("between 0 and 1", (0, 1), {POS: True, NONNEG: True, PROB: True, REAL: True}),
           ("above 1", (1, sympy.oo), {POS: True, NONNEG: True, PROB: False, REAL: True})]
POINTS = [(0, {POS: False, NONNEG: True, PROB: True, REAL: True}), (1, {POS: True, NONNEG: True, PROB: True, REAL: True}),
          (-1, {POS: False, NONNEG: False, PROB: False, REAL: True}), (2, {POS: True, NONNEG: True, PROB: False, REAL: True}),
          (0.5, {POS: True, NONNEG: True, PROB: True, REAL: True})]


@check("P09", "registry and domain analysis",
       "For every distribution type the public lookups are interpreted starting from nothing but the module that defines them: "
       "each must find exactly one generator and exactly one descriptor, the descriptor must name the generator's parameters, "
       "every default must satisfy its own validator, every validator must accept exactly the documented domain, and the "
       "list of criteria of a family must be exactly its concrete classes.",
       "Classes are enumerated from the source; validators are evaluated on every region of the number line the domains "
       "distinguish. The documented domains are a table in the checker.")
def p09(rep, root, tier):
    I = new_interp(root)
    rep.rule = "one generator and one descriptor per type, same parameter names, defaults and validators agree with the domain"
    s0 = Session(I, "members")
    ms = members(s0)
    gens, _ = concrete_of(I, "pysatl_criterion.generator.model.AbstractRVSGenerator")
    descs, _ = concrete_of(I, "pysatl_criterion.distribution.distributions.DistributionDescriptor")
    if len(gens) < 15 or len(descs) < 15:
        raise AnalysisBroken("generators or descriptors not found")
    rep.count("distribution types", len(ms))
    rep.count("generators", len(gens))
    rep.count("descriptors", len(descs))

    def by_type(classes, meth):
        out = {}
        for c in classes:
            s = Session(I, f"type/{c.qualname}")
            d, f = c.lookup(meth)
            v = s.call(s.attr(AV(frozenset({("k", c)})), meth))
            ok, m = v.const() if v is not None else (False, None)
            out.setdefault(m.name if ok and hasattr(m, "name") else None, []).append(c)
        return out
    g_by, d_by = by_type(gens, "distribution_type"), by_type(descs, "type")
    for m in ms:
        for what, by in (("generator", g_by), ("descriptor", d_by)):
            cs = by.get(m.name, [])
            if len(cs) == 1:
                rep.ok()
            elif not cs and by.get(None):
                rep.unsure(f"{m.name}: {what}", "some classes have no constant type")
            else:
                rep.violation(f"{m.name}:{what}-count", f"{m.name} has {len(cs)} {what}s: {', '.join(c.name for c in cs) or 'none'}", None)
    # lookups in a fresh program that has imported nothing else
    lookups = [("utils.generator", "get_available_generator", "generator"), ("utils.distribution", "get_available_distribution_descriptor", "descriptor")]
    for mod, fn, what in lookups:
        p = Project(root, "pysatl_criterion")
        J = Interp(p)
        J.load("pysatl_criterion")
        J.load("pysatl_criterion." + mod)
        for m in members(Session(J, "m")):
            s = Session(J, f"fresh/{fn}/{m.name}")
            spec = GEN_SPEC.get(m.name) or MIX_SPEC.get(m.name)
            args = [member(m)] + ([s.heap_dict({n: sym(n) for n in (spec[0] if spec else ())})] if what == "generator" else [])
            v = s.call(f"{mod}.{fn}", *args)
            rep.count("lookups")
            if v is None:
                rep.violation(f"{m.name}:{what}-lookup", f"the {what} of {m.name} cannot be looked up", s.last_raises[0][2] if s.last_raises else None)
                continue
            got = {o.cls.name for _, o in s.objs(v) if o.cls is not None}
            want = {c.name for c in (g_by if what == "generator" else d_by).get(m.name, [])}
            if got and want and not (got & want):
                rep.violation(f"{m.name}:{what}-lookup", f"looking up the {what} of {m.name} gives {', '.join(sorted(got))}", None)
            elif got == want and len(got) == 1:
                rep.ok()
            else:
                rep.unsure(f"{m.name}: {what} lookup", f"may give {sorted(got)}")
    catalogue(rep, root, I)
    for m in ms:
        for c in d_by.get(m.name, [])[:1]:
            descriptor(rep, I, m, c, g_by)


def catalogue(rep, root, I):
    """get_available_criteria in a program that imported only its module."""
    want = {}
    for c in stats.concrete_statistics(I):
        s = Session(I, f"cat/{c.qualname}")
        k = AV(frozenset({("k", c)}))
        d = s.call(s.attr(k, "distribution"))
        sc = s.call(s.attr(k, "short_code"))
        if d is None or sc is None or not d.const()[0] or not sc.const()[0]:
            continue
        want.setdefault(d.const()[1].name, set()).add(sc.const()[1])
    p = Project(root, "pysatl_criterion")
    J = Interp(p)
    J.load("pysatl_criterion")
    J.load("pysatl_criterion.utils.statistic")
    for m in members(Session(J, "m")):
        s = Session(J, f"fresh/criteria/{m.name}")
        v = s.call("utils.statistic.get_available_criteria", member(m))
        rep.count("catalogues")
        os_ = s.objs(v)
        if v is None:
            rep.violation(f"{m.name}:catalogue", f"the criteria of {m.name} cannot be listed", s.last_raises[0][2] if s.last_raises else None)
            continue
        got = None
        if len(os_) == 1 and os_[0][1].elems is not None and all(e.const()[0] for e in os_[0][1].elems):
            got = {e.const()[1] for e in os_[0][1].elems}
        w = want.get(m.name, set())
        if got is None:
            rep.unsure(f"{m.name}: catalogue", "the list is not known")
        elif got != w:
            rep.violation(f"{m.name}:catalogue", f"listing the criteria of {m.name} omits {sorted(w - got)[:6]} and adds {sorted(got - w)[:6]}", None)
        else:
            rep.ok(f"{m.name}: {len(got)} criteria")


def accepts(I, s, validator, v):
    """True/False/None: does the validator accept the value."""
    r = s.call(validator, v)
    if r is None:
        return False
    return I.truth(r, s.st)


VALUE = sympy.Symbol("parameter_value", real=True)


def accepts_region(I, s, validator, lo, hi):
    """[(lo, hi, verdict)]: the validator's answer on the open interval, which is split at every constant the validator
    compares the value with; verdict None when its answer depends on more than such comparisons."""
    out, todo = [], [(lo, hi)]
    while todo:
        lo, hi = todo.pop()
        cuts = set()

        def order(a, b):
            from ..order import linear
            v = linear(a - b, [VALUE])
            if v is None:
                return None
            k, c = v
            if abs(k) < 1e-12:
                return 0 if c == 0 else (1 if c > 0 else -1)
            r = -c / k
            if r <= lo:
                return 1 if k > 0 else -1
            if r >= hi:
                return -1 if k > 0 else 1
            cuts.add(r)
            return None
        v = num(Facets(deps=frozenset({"param:value"}), rank=0, py=True, term=VALUE))
        old, I.order = I.order, order
        try:
            a = accepts(I, s, validator, v)
        finally:
            I.order = old
        if a is None and cuts and len(out) + len(todo) < 12:
            c = min(cuts)
            todo += [(lo, c), (c, hi)]
            out.append((c, c, accepts(I, s, validator, const(c))))
        else:
            out.append((lo, hi, a))
    return out


def descriptor(rep, I, m, c, g_by):
    s = Session(I, f"desc/{m.name}")
    pv = s.call(s.attr(AV(frozenset({("k", c)})), "parameters"))
    os_ = s.objs(pv)
    if len(os_) != 1 or os_[0][1].elems is None:
        rep.unsure(f"{c.name}: parameters", "the parameter list is not known")
        return
    names, rows = [], []
    for e in os_[0][1].elems:
        nm = s.attr(e, "name")
        names.append(nm.const()[1] if nm is not None and nm.const()[0] else None)
        rows.append((names[-1], s.attr(e, "default"), s.attr(e, "validator")))
    _, _, gen = make_generator(I, m.name, "descgen")
    gs = Session(I, f"descgen2/{m.name}")
    s2, _, gen = make_generator(I, m.name, "descgen3")
    pr = s2.meth(gen, "parameters") if gen is not None else None
    gk = None
    for _, o in s2.objs(pr):
        if o.kind == "dict" and o.extra == "closed":
            gk = [k.v for k in o.attrs]
    if gk is None or None in names:
        rep.unsure(f"{c.name}: names", "parameter names are not known")
    elif set(gk) != set(names):
        rep.violation(f"{c.name}:names", f"{c.name} describes {', '.join(names)}; the generator has {', '.join(gk)}", None)
    else:
        rep.ok(f"{c.name}: {names}")
    gcls = (g_by.get(m.name) or [None])[0]
    gd = {}
    if gcls is not None:
        for n, d, _ in stats.ctor_params(I, gcls)[0]:
            if d is not None:
                gd[n] = d
    dom = DOMAIN.get(m.name, {})
    for n, dflt, val in rows:
        rep.count("parameters")
        none = val is None or (val.const()[0] and val.const()[1] is None)
        for who, d in (("descriptor", dflt), ("generator", gd.get(n))):
            if d is None or (d.const()[0] and d.const()[1] is None) or none:
                continue
            a = accepts(I, s, val, d)
            if a is False:
                rep.violation(f"{m.name}.{n}:{who}-default", f"{m.name}: the {who}'s default {n}={d.const()[1]} is rejected by the parameter's own validator", None)
            elif a is None:
                rep.unsure(f"{m.name}.{n}: {who} default", "the validator's answer is not known")
            else:
                rep.ok()
        want = dom.get(n)
        if want is None:
            continue
        if none:
            if want != REAL:
                rep.violation(f"{m.name}.{n}:validator", f"{m.name}: parameter {n} must be {want} but has no validator", None)
            continue
        unknown = False
        wrong = False
        for what, (lo, hi), exp in REGIONS:
            for l, h, a in accepts_region(I, s, val, lo, hi):
                if a is None:
                    unknown = True
                elif a is not exp[want]:
                    wrong = True
                    which = what if (l, h) == (lo, hi) else (f"equal to {l}" if l == h else f"between {l} and {h}")
                    rep.violation(f"{m.name}.{n}:validator", f"{m.name}: parameter {n} must be {want}, but its validator {'accepts' if a else 'rejects'} values {'that are ' + which if which == what else which}", None)
        for x, exp in POINTS:
            a = accepts(I, s, val, const(x))
            if a is None:
                unknown = True
            elif a is not exp[want]:
                wrong = True
                rep.violation(f"{m.name}.{n}:validator", f"{m.name}: parameter {n} must be {want}, but its validator {'accepts' if a else 'rejects'} {x}", None)
        if not wrong:
            if unknown:
                rep.unsure(f"{m.name}.{n}: validator", "its answer is not known on a whole region")
            else:
                rep.ok(f"{m.name}.{n} {want}")


@check("P10", "constant propagation over all classes",
       "The code and short code of every concrete criterion are computed by constant propagation from the source, before and "
       "after construction; codes must be pairwise different, constant, equal for class and instance, begin with the "
       "criterion's own short code and continue with the identifier of its family, which no other family uses.",
       "Exact: all concrete criteria, all pairs. A code that is not a constant string is undecided.")
def p10(rep, root, tier):
    I = new_interp(root)
    cs = stats.concrete_statistics(I)
    if len(cs) < 150:
        raise AnalysisBroken("statistics not found")
    rep.rule = "codes are constant, pairwise different and of the form <own short code>_<family identifier>"
    rep.count("criteria", len(cs))
    codes, shorts, fam = {}, {}, {}
    for c in cs:
        s = Session(I, f"code/{c.qualname}")
        k = AV(frozenset({("k", c)}))
        vn, args = stats.variants(I, c)[0]
        inst = s.new(c, **args)
        vals = {}
        for what, obj in (("class", k), ("instance", inst)):
            if obj is None:
                continue
            for meth in ("code", "short_code", "distribution"):
                f = s.attr(obj, meth)
                v = s.call(f) if f is not None else None
                vals[what, meth] = v.const()[1] if v is not None and v.const()[0] else None
                if what == "instance" and meth == "code" and v is not None and not v.const()[0]:
                    varies = sorted(x[6:] for x in I.eff_deps(v, s.st) if x.startswith("param:"))
                    if varies and UNK not in v.atoms:
                        rep.violation(f"{c.name}:instance-code", f"{c.name}: the code of an instance depends on {', '.join(varies)}; the class has one code", code_site(I, c))
                    else:
                        rep.unsure(c.name, "the code of its instances is not known")
        code, short, d = vals.get(("class", "code")), vals.get(("class", "short_code")), vals.get(("class", "distribution"))
        if not isinstance(code, str) or not isinstance(short, str) or d is None:
            rep.unsure(c.name, "its code is not a constant")
            continue
        if inst is not None and (vals["instance", "code"] not in (code, None) or vals["instance", "short_code"] not in (short, None)):
            rep.violation(f"{c.name}:instance-code", f"{c.name}: class and instance report different codes ({code}, {vals['instance', 'code']})", None)
        site = code_site(I, c)
        other = codes.get(code)
        if other is not None:
            rep.violation(f"{other.name}+{c.name}:code", f"{other.name} and {c.name} have the same code {code!r}", site)
        else:
            codes[code] = c
            rep.ok(f"{c.name}: {code}")
        o2 = shorts.get((d.name, short))
        if o2 is not None and (other is None):
            rep.violation(f"{o2.name}+{c.name}:short-code", f"{o2.name} and {c.name} of family {d.name} have the same short code {short!r}", site)
        shorts.setdefault((d.name, short), c)
        if not code.startswith(short + "_"):
            rep.violation(f"{c.name}:code-form", f"{c.name}: code {code!r} does not begin with its short code {short!r}", site)
            continue
        fam.setdefault(d.name, {}).setdefault(code[len(short) + 1:], []).append(c)
    owner = {}
    for d, sfx in sorted(fam.items()):
        rep.count("families")
        main = max(sfx, key=lambda x: len(sfx[x]))
        for x, lst in sfx.items():
            if x != main and not x.endswith("_" + main):
                for c in lst:
                    rep.violation(f"{c.name}:family", f"{c.name}: its code names {x!r}, the other criteria of {d} name {main!r}", code_site(I, c))
        if main in owner:
            rep.violation(f"{d}:family", f"families {owner[main]} and {d} share the identifier {main!r}", None)
        owner[main] = d


def code_site(I, c):
    d, av = c.lookup("code")
    for a in (av.atoms if av is not None else ()):
        if a[0] == "f":
            return (I.rel(a[1].module.path), a[1].node.lineno, a[1].qualname)
    return None
