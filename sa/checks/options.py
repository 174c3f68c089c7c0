"""P23: every constructor option of a criterion has an effect."""
from __future__ import annotations

import itertools
import math

import sympy

from .. import drive, models, stats
from ..interp import AnalysisBroken
from ..values import AV, C, Facets, UNK, const
from .lawchecks import PT, STAT_SPEC
from .registry import check
from .resolving import concretely
from .statistics import all_runs

MIN_OPTIONS = 250
MIN_KEYS = 100


def enum_of(d):
    if d is None:
        return None
    ok, v = d.const()
    return v.cls if ok and hasattr(v, "cls") and getattr(v.cls, "is_enum", False) else None


def any_member(cls, name):
    return AV(frozenset(("c", C(m)) for m in cls.members), Facets(deps=frozenset({f"param:{name}"}), rank=0))


def followed(v):
    return v is not None and UNK not in v.atoms and not v.has("xb")


def site_of(c):
    d, v = c.lookup("__init__")
    f = next((a[1] for a in v.atoms if a[0] == "f"), None) if v is not None else None
    if f is not None:
        return (f.module.path, f.node.lineno, f.qualname)
    return (c.module.path, c.node.lineno, c.qualname)


@check("P23", "dependence analysis",
       "Every criterion is built with one symbol per constructor option and its statistic, hypothesis and alternative are interpreted "
       "abstractly; each carries the options it may depend on through data or through the branches taken. An option none of the three depends on "
       "is reported, and so is a choice of alternative that leaves the statistic or the declared alternative as it is.",
       "Dependence is over-approximated, so a report means no flow at all; an option that has an effect only on paths the program never takes is "
       "not noticed. Options whose results cannot be followed are undecided.")
def p23(rep, root, tier):
    I, cs, runs = all_runs(root)
    rep.rule = "every constructor option reaches the value, the hypothesis or the alternative of its criterion"
    rep.count("statistics", len(cs))
    by = {}
    for r in runs:
        by.setdefault(r.cls, []).append(r)
    n = 0
    for c in cs:
        ps, f = stats.ctor_params(I, c)
        if not ps:
            continue
        rs = list(by.get(c, []))
        enums = [(p, enum_of(d)) for p, d, _ in ps if enum_of(d) is not None]
        base = stats.variants(I, c)[0][1]
        for p, cls in enums:
            rs.append(stats.run_statistic(I, c, f"any {p}", {**base, p: any_member(cls, p)}, "array"))
        value, rest, alt = set(), set(), set()
        blind = False
        for r in rs:
            if r.inst is None or r.value is None:
                blind = blind or r.inst is None
                continue
            if not followed(r.value):
                blind = True
            value |= set(I.eff_deps(r.value, r.st))
            for v in (r.hyp, r.alt):
                if v is None:
                    blind = True
                elif not followed(v):
                    blind = True
                else:
                    rest |= set(I.eff_deps(v, r.st))
            if r.alt is not None:
                alt |= set(I.eff_deps(r.alt, r.st))
        for p, d, _ in ps:
            n += 1
            lab = f"param:{p}"
            what = f"{c.name}: {p}"
            if lab in value or lab in rest:
                if enum_of(d) is not None and enum_of(d).name == "AlternativeType":
                    for part, deps in (("value", value), ("alternative", alt)):
                        if lab not in deps:
                            if blind:
                                rep.unsure(f"{what} ({part})", "a result could not be followed")
                            else:
                                rep.violation(f"{c.name}:{p}:{part}", f"{c.name}: choosing another {p} does not change the {part} of the criterion",
                                              site_of(c), {"statistic": c.qualname, "option": p})
                        else:
                            rep.ok(f"{what} ({part})")
                else:
                    rep.ok(what)
            elif blind:
                rep.unsure(what, "a result could not be followed")
            else:
                rep.violation(f"{c.name}:{p}", f"{c.name}: the constructor option {p} has no effect on the statistic, the hypothesis or the alternative",
                              site_of(c), {"statistic": c.qualname, "option": p})
    rep.count("options", n)
    if n < MIN_OPTIONS:
        raise AnalysisBroken(f"only {n} constructor options found")


def key_of(I, r):
    """The elements of the parameters a stored distribution of this criterion is found by; None when they are not known."""
    s = drive.Session(I, f"{r.cls.name}: parameters()")
    s.st = r.st
    v = s.meth(r.hyp, "parameters")
    if v is None:
        return None, set()
    deps = set(I.eff_deps(v, s.st))
    k = I.known_elems(v, s.st)
    if k is None or not followed(v):
        return None, deps
    terms = [x.f.term if not x.const()[0] else sympy.sympify(x.const()[1]) for x in k]
    for x in k:
        deps |= set(I.eff_deps(x, s.st))
    return (None if any(t is None for t in terms) else terms), deps


def fixes(terms, p):
    """Do these expressions determine the parameter?"""
    t = models.param_term(p)
    if t in terms:
        return True
    free = sorted(set().union(*(x.free_symbols for x in terms), {t}), key=str)
    J = sympy.Matrix([[sympy.diff(x, y) for y in free] for x in terms]) if terms else sympy.zeros(0, len(free))
    e = sympy.Matrix([[1 if y == t else 0 for y in free]])
    return J.col_join(e).rank() == J.rank()


def family_of(I, rs):
    for r in rs:
        if r.inst is None:
            continue
        s = drive.Session(I, f"{r.cls.name}: distribution()")
        s.st = r.st
        v = s.meth(r.inst, "distribution")
        ok, m = v.const() if v is not None else (False, None)
        if ok and hasattr(m, "name"):
            return m.name
    return None


def moved(family, ps):
    """Parameters that are nothing but the location and scale of the hypothesised law: the statistic is invariant in them (P22)."""
    dflt, build = STAT_SPEC[family]
    L = build({n: PT(n) for n in dflt})
    return {n for n in dflt if all(PT(n) not in t.free_symbols for k, t in L.p.items() if k not in ("loc", "scale"))}


def grid(law, ps):
    """Assignments of a few values to the parameters of the hypothesised law."""
    names = [p for p, d, _ in ps if p in law]
    vals = []
    for p, d, _ in ps:
        if p in names:
            ok, v = d.const() if d is not None else (False, None)
            vals.append((1, 2, 2 + 1e-9, 3) + ((0, -1) if ok and v == 0 else ()))
    out = [dict(zip(names, v)) for v in itertools.product(*vals)]
    # neighbouring numbers, and very small ones, one parameter at a time
    out += [{**{n: 2 for n in names}, x: v} for x in names for v in (math.nextafter(2, 3), 1e-13, 1e-13 * (1 + 1e-9), 1e-300, 1e6 + 0.1, 1e6 + 0.2)]
    return names, [v for v in out if not ("a" in v and "b" in v and "mean" not in v and set(law) == {"a", "b"} and v["a"] >= v["b"])]


def told_apart(rep, I, c, family, ps, free):
    """Different parameters of the law are stored under different keys."""
    names, points = grid(STAT_SPEC[family][0], ps)
    if not set(names) - free:
        return 0
    seen = {}
    d, f = c.lookup("hypothesis")
    site = next(((a[1].module.path, a[1].node.lineno, a[1].qualname) for a in f.atoms if a[0] == "f"), site_of(c)) if f is not None else site_of(c)
    with concretely(I):
        s = drive.Session(I, f"{c.name}: keys")
        for pt in points:
            inst = s.new(c, **{k: const(v) for k, v in pt.items()})
            if inst is None:
                continue      # refused
            h = s.meth(inst, "hypothesis")
            v = s.meth(h, "parameters") if h is not None else None
            e = I.known_elems(v, s.st) if v is not None else None
            k = [x.const() for x in e] if e is not None else None
            if k is None or not all(ok for ok, _ in k):
                rep.unsure(f"{c.name}: {pt}", "the key is not known")
                return 1
            k = tuple(x for _, x in k)
            if k in seen and any(seen[k][n] != pt[n] for n in names if n not in free):
                a, b = seen[k], pt
                rep.violation(f"{c.name}:collision", f"{c.name}: {a} and {b} are stored under the same parameters {list(k)}", site, {"statistic": c.qualname})
                return 1
            seen.setdefault(k, pt)
    rep.ok(f"{c.name}: {len(seen)} hypotheses have different keys") if len(seen) > 1 else rep.unsure(c.name, "no two keys to compare")
    return 1


@check("P26", "dependence analysis",
       "Every criterion is built with one symbol per constructor option; the statistic it computes, its code and the parameters its stored distributions are found by are "
       "interpreted abstractly. Each option the statistic may depend on must be determined by the code and these parameters (the symbolic parameters are solved for it).",
       "Dependence of the statistic is over-approximated through branches; where it may be spurious the option is reported only if the value is followed to the end.")
def p26(rep, root, tier):
    I, cs, runs = all_runs(root)
    rep.rule = "every option the statistic depends on is determined by code() and hypothesis().parameters()"
    by = {}
    for r in runs:
        by.setdefault(r.cls, []).append(r)
    n = m = 0
    for c in cs:
        ps, f = stats.ctor_params(I, c)
        if not ps:
            continue
        rs = list(by.get(c, []))
        base = stats.variants(I, c)[0][1]
        for p, d, _ in ps:
            if enum_of(d) is not None:
                rs.append(stats.run_statistic(I, c, f"any {p}", {**base, p: any_member(enum_of(d), p)}, "array"))
        value, key, blind = set(), set(), False
        exprs = None
        for r in rs:
            if r.inst is None or r.hyp is None or not followed(r.hyp):
                blind = True
                continue
            if r.value is not None:
                value |= set(I.eff_deps(r.value, r.st))
            terms, deps = key_of(I, r)
            key |= deps | (set(I.eff_deps(r.code, r.st)) if r.code is not None else set())
            if r.variant == stats.variants(I, c)[0][0]:
                exprs = terms
        fam = family_of(I, rs)
        free = moved(fam, ps) if fam in STAT_SPEC else set()
        if fam in STAT_SPEC:
            m += told_apart(rep, I, c, fam, ps, free)
        else:
            rep.unsure(c.name, "its family is not known")
        for p, d, _ in ps:
            lab = f"param:{p}"
            if lab not in value or p in free and lab not in key:
                continue
            n += 1
            what = f"{c.name}: {p}"
            if lab in key and (exprs is None or enum_of(d) is not None or fixes(exprs, p)):
                rep.ok(what)
            elif blind:
                rep.unsure(what, "the hypothesis could not be followed")
            else:
                rep.violation(f"{c.name}:{p}", f"{c.name}: the statistic depends on {p}, but neither code() nor hypothesis().parameters() tells two values of it apart",
                              site_of(c), {"statistic": c.qualname, "option": p})
    rep.count("options the statistic depends on", n)
    rep.count("criteria with parameters of the law", m)
    if n < MIN_KEYS:
        raise AnalysisBroken(f"only {n} options found that a statistic depends on")
