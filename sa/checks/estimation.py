"""P24: maximum-likelihood estimation."""
from __future__ import annotations

import ast
import math

from .. import dims, drive, models, stats
from ..interp import AnalysisBroken
from ..values import AV, BOOL, NUM, UNK, C, Facets, Obj, const
from .connecting import kind_of
from .registry import check
from .resolving import concretely
from .testing import heap_list

MLE = "estimation.maximum_likelihood"
FUNCS = f"{MLE}.function_for_maximum_likelihood"
PREFIX = "likelihood_function_"
# what replacing the observations x by d*x + c does to a family: (unit, origin) do not leave it
LOCATION_SCALE = {"uniform_continuous", "normal", "cauchy", "t_distribution", "laplace"}
SCALE = {"lognormal", "exponential", "weibull", "gamma", "chi_squared", "fisher", "rayleigh", "wigner", "pareto"} | LOCATION_SCALE
OTHER = {"beta", "discrete_uniform", "bernoulli", "binomial", "poisson", "geometric"}
LAW = {"gamma": "gamma", "beta": "beta", "cauchy": "cauchy", "chi_squared": "chi2", "t_distribution": "t", "fisher": "f", "rayleigh": "rayleigh",
       "normal": "norm", "lognormal": "lognorm", "exponential": "expon", "laplace": "laplace", "weibull": "weibull_min", "pareto": "pareto",
       "uniform_continuous": "uniform"}
MIN_FUNCTIONS = 15


def likelihoods(I):
    out = []
    for n in I.p.tree(f"{stats.PKG}.{FUNCS}").body:
        if isinstance(n, ast.FunctionDef) and n.name.startswith(PREFIX):
            out.append(n)
    if len(out) < MIN_FUNCTIONS:
        raise AnalysisBroken(f"only {len(out)} likelihood functions found")
    return out


def path_of(I):
    m = I.load(f"{stats.PKG}.{FUNCS}")
    return m.path


def evaluate(I, n, kind="array", dim=None):
    s = drive.Session(I, f"{n.name}({kind})")
    soid, sav = stats.sample_value(I, s.st, kind)
    if dim is not None:
        o = s.st.heap[soid]
        s.st.heap[soid] = o.but(f=o.f.but(dim=dim))
        sav = sav.but(dim=dim)
    args = {a.arg: drive.sym(a.arg) for a in n.args.args[1:]}
    u0 = len(I.law_uses)
    v = s.call(f"{FUNCS}.{n.name}", sav, **args)
    return s, soid, v, I.law_uses[u0:]


def one(rep, I, n):
    fam = n.name[len(PREFIX):]
    site = (path_of(I), n.lineno, f"{stats.PKG}.{FUNCS}.{n.name}")
    s, soid, v, uses = evaluate(I, n)
    bad = False

    def report(kind, msg, at=None):
        nonlocal bad
        bad = True
        rep.violation(f"{n.name}:{kind}", f"{n.name}: {msg}", at or site, {"function": n.name})
    for i in s.issues():
        if i.definite:
            report(i.kind, i.msg, i.where_tuple())
    if v is None:
        if not bad:
            report("always-raises", "evaluating the likelihood raises on every path")
        return
    # a number on every path
    for a in v.atoms:
        if a[0] == "c" and not isinstance(a[1].v, (int, float)) or a[0] in ("t", "s", "k", "f") or \
                a[0] == "r" and s.st.heap[a[1]].kind in ("list", "dict", "set", "gen"):
            report("not-a-number", "can return something that is not a number")
    # the sample, as a whole and unchanged
    f = I.eff(v, s.st)
    if f.ord == "X":
        w = f.wit or ("", None)
        report("order", f"the likelihood depends on the order of the data: {w[0]}", w[1])
    for kind, data, *at in s.events({"mutate"}):
        if data[0] == soid:
            report("mutates", f"changes the caller's data ({data[1]})", tuple(at))
    if "sample" not in I.eff_deps(v, s.st):
        report("ignores-data", "does not depend on the data")
    # the density of the family that was fitted, its parameters each in its place
    for u in uses:
        if u.method not in ("logpdf", "pdf", "logpmf", "pmf"):
            continue
        rep.count("densities")
        want = LAW.get(fam)
        if u.law is None:
            rep.unsure(f"{n.name}: density", "the law is not known")
            continue
        if want is not None and u.law.family != want:
            report("family", f"evaluates the density of {u.law.family}", u.site)
            continue
        if u.x is not None and u.x.has(models.X_SYM) and u.x != models.X_SYM:
            report("transformed", "evaluates the density of transformed data", u.site)
        for k, t in u.law.p.items():
            fitted = sorted(str(y) for y in (t.free_symbols if t is not None else ()) if str(y).startswith("fitted_"))
            name = f"fitted_{u.law.family}_{k}"
            if t is None or t.is_Number and k in ("loc", "scale"):
                continue
            if fitted and str(t) != name:
                report("parameters", f"the density's {k} is {t}, not the fitted {k}", u.site)
        for k in ("scale",):
            if any(str(y).startswith("fitted_") for t in u.law.p.values() if t is not None for y in t.free_symbols) and \
                    u.law.p.get(k) is not None and u.law.p[k].is_Number and fam in SCALE:
                report("parameters", f"the density's {k} is {u.law.p[k]}, not the fitted {k}", u.site)
    # another unit multiplies every density by its inverse, another origin changes nothing
    if fam in SCALE and not bad:
        for what, d in (("unit", dims.D(dims.ONE)), ("origin", dims.X1)):
            if what == "origin" and fam not in LOCATION_SCALE:
                continue
            Dm = dims.Dims(I, {"sample"}, False, [])
            I.post = Dm
            try:
                s2, _, w, _ = evaluate(I, n, dim=d)
            finally:
                I.post = None
            e = Dm.of(w, s2.st) if w is not None else None
            for x, at in Dm.conds:
                report(f"{what}-branch", f"a branch is taken where {x[1]}", x[2] or at)
            if bad:
                return
            if e is None or e[0] == "G" or e[0] == "E":
                rep.unsure(f"{n.name}: {what}", "the effect of the unit is not known")
            elif e[0] == "X":
                report(what, e[1], e[2])
            elif e[0] == "D" and models.N_SYM is not None:
                rest = dims.tidy(dims.sympy.sympify(e[1]) + models.N_SYM)
                if rest != 0:
                    report(what, f"with data in another unit it is multiplied by the unit to the power {e[1]}, not to minus the number of observations")
                elif what == "origin" and e[2] is not None and e[2] != 0 and e[2] not in dims.PARTIAL:
                    report(what, "it changes with the origin of the data")
                elif what == "origin" and e[2] != 0:
                    rep.unsure(f"{n.name}: origin", "the effect of the origin is not known")
                else:
                    rep.ok(f"{n.name}: {what}")
            else:
                rep.unsure(f"{n.name}: {what}", "the effect of the unit is not known")
    if not bad:
        rep.ok(n.name)


def fixed_values(I, names, values, seen):
    """Every likelihood function returns the given value and records the data it was given."""
    def hook(v, name):
        def h(I_, f, args, kwargs, st, fr, node):
            seen.append((name, args[0] if args else next(iter(kwargs.values()), None), I_.site(node, fr), len(args) + len(kwargs)))
            return const(v)
        return h
    for n, v in zip(names, values):
        I.func_hooks[f"{stats.PKG}.{FUNCS}.{n.name}"] = hook(v, n.name)


def selection(rep, I, names):
    """The best of the likelihood functions is found and returned with its value."""
    single = [n for n in names if len(n.args.args) + len(n.args.kwonlyargs) == 1]
    cases = [(f"{n.name} is greatest", [0.9 if m is n else 0.1 + 0.001 * i for i, m in enumerate(names)], n) for n in single]
    cases += [(f"only {single[0].name} is positive", [0.5 if m is single[0] else 0 for m in names], single[0]),
              (f"only {single[-1].name} is positive", [1e-300 if m is single[-1] else 0 for m in names], single[-1]),
              ("all are zero", [0 for _ in names], None)]
    near = 0.5 * (1 + 2.0 ** -40)
    for n in single:
        k = names.index(n)
        for what, v in (("infinite", math.inf), ("1e30", 1e30), ("1e-30", 1e-30), ("1e-200", 1e-200)):
            cases.append((f"{n.name} is {what}, the rest are smaller", [v if m is n else (v / 2 ** (1 + (i + k) % 5) if v < math.inf else 10.0 ** i) for i, m in enumerate(names)], n))
        cases.append((f"{n.name} is greatest by little", [near if m is n else 0.5 for m in names], n))
    sizes = [1, 2, 30] + constants(I)
    cases = [c + (None,) for c in cases]
    cases += [(f"{n.name} is greatest for {size} observations", [0.7 if m is n else 0.2 for m in names], n, size)
              for size in sizes for n in (single if size < 100 else (single[0], single[len(single) // 2], single[-1]))]
    saved = dict(I.func_hooks)
    for fn in ("find_max_probability_function", "find_result_of_likelihood_function"):
        for label, values, best, size in cases:
            seen = []
            fixed_values(I, names, values, seen)
            try:
                with concretely(I):
                    s = drive.Session(I, f"{fn}: {label}")
                    if size is None:
                        soid, sav = stats.sample_value(I, s.st, "array")
                    else:
                        sav = heap_list(s, [const(0.25 + i) for i in range(size)], kind="array")
                        soid = next(a[1] for a in sav.atoms if a[0] == "r")
                    v = s.call(f"{MLE}.maximum_likelihood.{fn}", sav)
            finally:
                I.func_hooks.clear()
                I.func_hooks.update(saved)
            rep.count("selections")
            what = f"{fn}: {label}"
            site = fn_site(I, fn)
            for i in s.issues():
                if i.definite:
                    rep.violation(f"{fn}:{i.kind}", f"{fn}: {i.msg}", i.where_tuple())
            if not seen:
                rep.unsure(what, "the functions tried are not known")
                continue
            for m in names:
                if not any(x[0] == m.name for x in seen) and m in single and math.inf not in values:
                    rep.violation(f"{fn}:skips", f"{fn} does not try {m.name}", site, {"case": label})
            for name, data, at, k in seen:
                if data is not None and ("r", soid) not in data.atoms and not carries(I, s, data, size):
                    rep.violation(f"{fn}:data", f"{fn} gives {name} something else than the data", at, {"case": label})
            raised = set().union(*(kind_of(r[0], r[1]) for r in s.last_raises)) if s.last_raises else set()
            if best is None:
                if v is None and ("?" in raised or any(r.startswith(stats.PKG) for r in raised)) or v is not None and not definite_result(v):
                    rep.unsure(what, "the exception is not known")
                elif v is not None or not any(r.rsplit(".", 1)[-1] == "ValueError" for r in raised):
                    rep.violation(f"{fn}:no-positive", f"{fn} does not raise ValueError when no likelihood is positive", site, {"case": label})
                else:
                    rep.ok(what)
                continue
            if v is None:
                rep.violation(f"{fn}:raises", f"{fn} raises although a likelihood is positive ({sorted(raised)})", site, {"case": label})
                continue
            f, val = v, None
            if fn.startswith("find_result"):
                t = v.single()
                if t is None or t[0] != "t" or len(t[1]) != 2:
                    if any(a[0] in ("t", "u") for a in v.atoms):
                        rep.unsure(what, "the result is not known")
                    else:
                        rep.violation(f"{fn}:result", f"{fn} does not return the function and its value", site, {"case": label})
                    continue
                f, val = t[1]
            got = {a[1].name for a in f.atoms if a[0] == "f"}
            if len(got) != len(f.atoms):
                if any(a[0] == "u" for a in f.atoms):
                    rep.unsure(what, "the function returned is not known")
                else:
                    rep.violation(f"{fn}:result", f"{fn} does not return a likelihood function", site, {"case": label})
            elif best.name not in got:
                rep.violation(f"{fn}:best", f"{fn} returns {sorted(got)} where {best.name} has the greatest likelihood", site, {"case": label})
            elif len(got) > 1:
                rep.unsure(what, "the function returned is not known")
            elif val is not None and val.const()[0] and val.const()[1] != values[names.index(best)]:
                rep.violation(f"{fn}:value", f"{fn} returns another value than the greatest likelihood", site, {"case": label})
            else:
                rep.ok(what)


def constants(I):
    """Sizes around the whole numbers the search mentions."""
    out = set()
    for x in ast.walk(I.p.tree(f"{stats.PKG}.{MLE}.maximum_likelihood")):
        if isinstance(x, ast.Constant) and type(x.value) in (int, float) and 2 < x.value < 550 and x.value == int(x.value):
            out |= {int(x.value) - 1, int(x.value), int(x.value) + 1}
    return sorted(out)[:12]


def carries(I, s, v, size=None):
    """An array of the data."""
    if size is not None:
        k = I.known_elems(v, s.st)
        return k is None or [x.const() for x in k] == [(True, 0.25 + i) for i in range(size)]
    f = I.eff(v, s.st)
    return f.term == models.X_SYM or UNK in v.atoms


def definite_result(v):
    a = v.single()
    return a is not None and (a[0] == "f" or a[0] == "c" or a[0] == "t" and all(definite_result(x) or x.has("n") for x in a[1]))


def fn_site(I, fn):
    m = I.load(f"{stats.PKG}.{MLE}.maximum_likelihood")
    n = next((x for x in I.p.tree(m.name).body if isinstance(x, ast.FunctionDef) and x.name == fn), None)
    if n is None:
        raise AnalysisBroken(f"{fn} does not exist")
    return (m.path, n.lineno, f"{m.name}.{fn}")


@check("P24", "order, effect, law and units-of-measure inference",
       "Every likelihood function is interpreted abstractly on an arbitrary sample: the kinds of its results, its behaviour under a permutation of the data, its effects, "
       "the family and parameters of every density it evaluates after a fit, and the power of the unit of the data its value is multiplied by are inferred and compared with "
       "what a likelihood must have; the two entry points are run for every order of the likelihoods' values.",
       "A report is a definite difference. Whether the fitted parameters maximise the likelihood, and hand-written densities beyond their units, are not decided.")
def p24(rep, root, tier):
    rep.rule = "each likelihood is a number, symmetric in unchanged data, of its own family, multiplied by unit**-n; the best of all is returned with its value"
    I = stats.new_interp(root)
    names = likelihoods(I)
    rep.count("likelihood functions", len(names))
    for n in names:
        one(rep, I, n)
    missing = (SCALE | OTHER) - {n.name[len(PREFIX):] for n in names}
    for m in sorted(missing):
        rep.unsure(m, "no such likelihood function any more")
    selection(rep, I, names)
