"""Check of how statistics react to another unit or another origin of the observations."""
from __future__ import annotations

import re
from fractions import Fraction

from .. import dims, stats
from ..dims import D, E, ONE, X1, isD, pure
from ..interp import AnalysisBroken
from .registry import check


class Group:
    """What replacing the observations by d*x + c (or x^d) does to the parameters of a family's hypothesis."""

    def __init__(self, name, x, params, need, power=False):
        self.name, self.x, self.params, self.need, self.power = name, x, params, need, power


GROUPS = {
    "normal": [Group("unit and origin", X1, {"mean": X1, "var": D(Fraction(2))}, ())],
    "uniform": [Group("unit and origin", X1, {"a": X1, "b": X1}, ("a", "b"))],
    "student": [Group("unit and origin", X1, {"loc": X1, "scale": D(ONE)}, ("loc", "scale"))],
    "exponent": [Group("unit", D(ONE), {"lam": D(-ONE)}, ("lam",))],
    "gamma": [Group("unit", D(ONE), {"beta": D(-ONE)}, ("beta",))],
    "log_normal": [Group("unit", D(ONE), {"scale": D(ONE)}, ("scale",)),
                   Group("power", E(ONE), {"scale": E(ONE), "s": D(ONE)}, ("scale", "s"), True)],
    "weibull": [Group("power", E(ONE), {"k": D(-ONE)}, ("k",), True)],
}
MIN_RUNS = 150


def family_of(c):
    """The family module that defines the statistic's abstract base class."""
    for m in c.mro:
        fam = m.module.name.rsplit(".", 1)[-1]
        if ".goodness_of_fit." in m.module.name and fam in GROUPS:
            return fam
    return None


def run(I, c, vn, args, kind, g):
    Dm = dims.Dims(I, {"sample"} | {f"param:{k}" for k in g.params}, g.power, [p[0] for p in stats.ctor_params(I, c)[0]])
    I.post = Dm
    args = {k: (v.but(dim=g.params[k]) if k in g.params and not v.const()[0] else v) for k, v in args.items()}

    def carry(st, oid, sav):
        o = st.heap[oid]
        st.heap[oid] = o.but(f=o.f.but(dim=g.x), elem=o.elem.but(dim=g.x) if o.elem is not None else None)
        return sav.but(dim=g.x)
    try:
        return stats.run_statistic(I, c, vn, args, kind, carry), Dm
    finally:
        I.post = None


def site_of(c):
    d, m = c.lookup("execute_statistic")
    f = next((a[1] for a in m.atoms if a[0] == "f"), None) if m is not None else None
    return (f.module.path, f.node.lineno, f.qualname) if f is not None and hasattr(f.module, "path") else None


@check("P22", "units-of-measure type inference",
       "Each value computed by a statistic carries how it changes when the observations (and the location and scale parameters of the hypothesis) are measured "
       "in another unit or from another origin: the power of the unit it is multiplied by, how much of the origin it carries, or a logarithm of the unit; for "
       "families closed under powers (Weibull, log-normal) the same for x -> x^d. The kinds are inferred through arithmetic, numpy reductions, distribution "
       "functions, loops and calls. Adding or comparing values of different units, applying a transcendental or rounding function to one that has a unit, branching "
       "on such a comparison, and a result that changes otherwise than allowed are reported with the operation.",
       "All statistics of families with a location or scale parameter whose constructor has it. A report is a definite clash; values the rules "
       "cannot classify (fitted parameters, loops over intermediate states) are counted as undecided. Literals below rounding error are taken as nought.")
def p22(rep, root, tier):
    I = stats.new_interp(root)
    cs = stats.concrete_statistics(I)
    rep.rule = "the result has no unit and no origin, or is a power of the unit times such a number built from the hypothesis's parameters; no operation mixes units"
    n = 0
    for c in cs:
        fam = family_of(c)
        if fam is None:
            continue
        names = {p[0] for p in stats.ctor_params(I, c)[0]}
        for g in GROUPS[fam]:
            if not set(g.need) <= names:
                rep.count("statistics without the parameters, out of scope")
                continue
            for vn, args in stats.variants(I, c):
                for kind in (("array", "list") if tier == "thorough" else ("array",)):
                    n += 1
                    one(rep, I, c, vn, args, kind, g)
    rep.count("analysed evaluations", n)
    if n < MIN_RUNS:
        raise AnalysisBroken(f"only {n} evaluations of statistics with location or scale found")


UNIT = re.compile(r"a pure number|the unit of the observations|the unit to the power (-?[\d/]+)")


def apart(msg):
    """How many powers of the unit lie between the two values that were mixed: names a clash wherever in the code it shows."""
    ps = [Fraction(m.group(1)) if m.group(1) else Fraction(m.group(0).startswith("the unit of")) for m in UNIT.finditer(msg)]
    return f"clash {abs(ps[0] - ps[1])}" if len(ps) == 2 else ""


def one(rep, I, c, vn, args, kind, g):
    r, Dm = run(I, c, vn, args, kind, g)
    rep.count("operations classified", Dm.count)
    what = f"{c.name} ({vn}, {kind} sample): {g.name}"
    if r.value is None:
        rep.unsure(what, "no value is returned on any analysed path")
        return
    d = Dm.of(r.value, r.st)
    bad = False

    def report(kind_, msg, site):
        nonlocal bad
        bad = True
        kind_ = apart(msg) or kind_
        rep.violation(f"{c.name}:{g.name}:{kind_}", f"{c.name}: the value depends on the {g.name} of the observations: {msg}", site,
                      {"statistic": c.qualname, "variant": vn, "sample": kind})
    for x, site in Dm.conds:
        report("branch", f"a branch is taken where {x[1]}", x[2] or site)
    if d is not None and d[0] == "X":
        report("mixed", d[1], d[2])
    if bad:
        return
    deps = I.eff_deps(r.value, r.st)
    uses = any(f"param:{k}" in deps for k in g.params)
    unit = origin = None        # the result keeps the unit / the origin out
    if d is not None:
        if d[0] == "0":
            unit = origin = True
        elif d[0] == "D":
            if d[1] == 0:
                unit = True
            elif uses and not g.power:
                unit = True
            else:
                report("unit", f"it is expressed in {dims.text(d)} and no parameter of the hypothesis removes it", site_of(c))
            if d[2] is not None:
                if d[2] == 0:
                    origin = True
                elif d[2] not in dims.PARTIAL:
                    report("origin", "it moves with the origin of the observations", site_of(c))
        elif d[0] == "G" and d[1] is not None and d[1] != 0:
            report("unit", "the logarithm of the unit is added to it", site_of(c))
        elif d[0] == "E":
            report("unit", "it is a power of the observations", site_of(c))
    if bad:
        return
    if Dm.open:
        rep.unsure(what, f"a branch is taken on a condition about which nothing is known, at {Dm.open[0][0].rsplit('/', 1)[-1]}:{Dm.open[0][1]}")
        return
    if unit:
        rep.ok(what)
    else:
        rep.unsure(what, f"the unit of the result is not known ({dims.text(d)})")
    if "origin" in g.name:
        if origin:
            rep.ok(what + ", origin")
        else:
            rep.unsure(what + ", origin", "the effect of the origin is not known")
