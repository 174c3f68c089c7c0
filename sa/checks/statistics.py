"""Checks over every concrete goodness-of-fit statistic: effects, order, results, usability."""
from __future__ import annotations

from .. import stats
from ..interp import AnalysisBroken
from ..values import NUM, UNK
from .registry import check

MIN_STATISTICS = 150
_CACHE = {}


def all_runs(root, kinds=("list", "array")):
    """Analyse every concrete statistic once per argument variant and kind of sample."""
    key = (root, kinds)
    if key in _CACHE:
        return _CACHE[key]
    I = stats.new_interp(root)
    cs = stats.concrete_statistics(I)
    if len(cs) < MIN_STATISTICS:
        raise AnalysisBroken(f"only {len(cs)} concrete statistics found")
    runs = []
    for c in cs:
        for vn, args in stats.variants(I, c):
            for kind in kinds:
                runs.append(stats.run_statistic(I, c, vn, args, kind))
    _CACHE[key] = (I, cs, runs)
    return _CACHE[key]


def label(r):
    return f"{r.cls.name} ({r.variant}, {r.kind} sample)"


def chain(I, site):
    return site


@check("P01", "effect and alias analysis",
       "Every concrete statistic is interpreted abstractly on a list and on an array sample, for every kind of "
       "constructor argument; every in-place operation (sort, item or slice assignment, out=, augmented assignment, "
       "append, pop, ...) reachable from the evaluation is checked against the set of objects that may share memory with "
       "the caller's sample (views, slices, asarray, aliases through calls).",
       "All call paths of all statistics; may-alias, so a report is a mutation of an object that can be the caller's. "
       "Trusts the effect table of the numpy/scipy functions used; opaque library calls are assumed not to write.")
def p01(rep, root, tier):
    I, cs, runs = all_runs(root)
    rep.rule = "no in-place operation may reach an object rooted in the caller's sample"
    rep.count("statistics", len(cs))
    rep.count("analysed calls", len(runs))
    for r in runs:
        if r.inst is None:
            rep.unsure(label(r), "the statistic cannot be constructed")
            continue
        bad = False
        n = 0
        for kind, data, file, line, func in r.events[r.e_call:]:
            if kind == "mutate":
                n += 1
                if data[0] == r.sample:
                    bad = True
                    rep.violation(f"{r.cls.name}:mutates-sample",
                                  f"{r.cls.name}: evaluating the statistic changes the caller's {r.kind} sample ({data[1]})",
                                  (file, line, func), {"statistic": r.cls.qualname, "sample": r.kind, "operation": data[1]})
        rep.count("in-place operations examined", n)
        if not bad:
            rep.ok(label(r))


@check("P02", "effect analysis",
       "Every concrete statistic is interpreted abstractly; every effect reachable from an evaluation (random numbers, "
       "clock, input/output, writes to the criterion, to classes, module globals, library state, or to any object that "
       "existed before the call) is collected with its source location and must be absent.",
       "All call paths of all statistics. Library calls not in the effect table are assumed pure.")
def p02(rep, root, tier):
    I, cs, runs = all_runs(root)
    rep.rule = "the effect set of an evaluation is empty (the sample itself is the subject of P01)"
    rep.count("statistics", len(cs))
    rep.count("analysed calls", len(runs))
    what = {"rng": "draws random numbers", "clock": "reads the clock", "io": "performs input/output",
            "global-write": "changes shared state", "class-write": "changes a class attribute",
            "ext-write": "changes an imported module"}
    for r in runs:
        if r.inst is None:
            rep.unsure(label(r), "the statistic cannot be constructed")
            continue
        bad = False
        for kind, data, file, line, func in r.events[r.e_call:]:
            msg = None
            rep.count("effects examined")
            if kind in what:
                msg = f"{what[kind]} ({data})"
            elif kind == "attr-write" and data[0] in r.before:
                msg = f"stores attribute {data[2]!r} on an existing {data[1]}"
                kind = f"attr-write-{data[2]}"
            elif kind in ("mutate", "obj-write") and data[0] in r.before and data[0] != r.sample:
                msg = f"changes an object that outlives the call ({data[1]})"
            if msg:
                bad = True
                rep.violation(f"{r.cls.name}:{kind}", f"{r.cls.name}: evaluating the statistic {msg}", (file, line, func),
                              {"statistic": r.cls.qualname, "effect": str(data)})
        if not bad:
            rep.ok(label(r))


@check("P03", "order (permutation) type inference",
       "Each value computed from the sample carries its behaviour under a permutation of the sample: invariant, "
       "position-dependent, equivariant, a permutation, or order-dependent; the kinds are inferred through numpy "
       "operations, loops, comprehensions and calls, and the returned value must not be order-dependent.",
       "A report is a definite combination of values in the caller's order with values tied to positions. Results the "
       "rules cannot classify (pairwise double loops and the like) are counted as undecided and not reported.")
def p03(rep, root, tier):
    I, cs, runs = all_runs(root)
    rep.rule = "the result's permutation kind is 'invariant'"
    rep.count("statistics", len(cs))
    rep.count("analysed calls", len(runs))
    for r in runs:
        if r.value is None:
            rep.unsure(label(r), "no value is returned on any analysed path")
            continue
        f = I.eff(r.value, r.st)
        if f.ord == "I":
            rep.ok(label(r))
        elif f.ord == "X":
            w = f.wit or ("the result depends on the order of the sample", None)
            rep.violation(f"{r.cls.name}:order", f"{r.cls.name}: the result depends on the order of the sample: {w[0]}", w[1],
                          {"statistic": r.cls.qualname, "variant": r.variant, "sample": r.kind})
        else:
            rep.unsure(label(r), f"permutation kind {f.ord}")


@check("P04", "abstract interpretation (value kinds)",
       "For every concrete statistic the set of kinds of value an evaluation can return is computed over all paths; "
       "a path that falls off the end of a function, or returns None or something that is not a number, is reported "
       "with the function it leaves.",
       "All paths of all statistics; paths that raise are not results. Values of unknown kind are undecided.")
def p04(rep, root, tier):
    I, cs, runs = all_runs(root)
    rep.rule = "every normal return of an evaluation is a number"
    rep.count("statistics", len(cs))
    rep.count("analysed calls", len(runs))
    for r in runs:
        if r.value is None:
            rep.unsure(label(r), "no value is returned on any analysed path")
            continue
        v = r.value
        bad = None
        for a in v.atoms:
            if a[0] == "c" and not isinstance(a[1].v, (int, float)):
                bad = f"can return {a[1].v!r}"
            elif a[0] in ("t", "s", "k", "f"):
                bad = "can return something that is not a number"
            elif a[0] == "r":
                o = r.st.heap.get(a[1])
                if o is not None and o.kind in ("list", "dict", "set", "gen"):
                    bad = f"can return a {o.kind}"
        if bad:
            site = None
            for f in sorted(v.f.facts, key=str):
                if f[0] in ("none-fall", "none-return"):
                    site = (f[2], f[3], f[1]) if len(f) > 3 else None
                    break
            rep.violation(f"{r.cls.name}:not-a-number", f"{r.cls.name}: evaluating the statistic {bad}", site,
                          {"statistic": r.cls.qualname, "facts": sorted(map(str, v.f.facts))})
        elif UNK in v.atoms or v.has("xb"):
            rep.unsure(label(r), "the kind of the value is not known")
        else:
            rep.ok(label(r))


@check("P05", "attribute, call-binding and raise analysis",
       "Every concrete statistic is constructed abstractly with every kind of argument it declares, asked for its "
       "hypothesis, alternative and code, and evaluated on a list and on an array; attribute accesses, call bindings and "
       "operators that certainly fail, and evaluations that raise on every path, are reported.",
       "Definite failures only: an attribute that no path has set, a call no signature accepts, an operator undefined for "
       "the operand kinds, a function all of whose paths raise.")
def p05(rep, root, tier):
    I, cs, runs = all_runs(root)
    rep.rule = "construction, description and evaluation can complete; no certain failure on the way"
    rep.count("statistics", len(cs))
    rep.count("analysed calls", len(runs))
    for r in runs:
        bad = False
        for i in r.issues:
            if not i.definite:
                continue
            bad = True
            rep.violation(f"{r.cls.name}:{i.kind}", f"{r.cls.name}: {i.msg}", i.where_tuple(), {"statistic": r.cls.qualname})
        if r.inst is None:
            if not bad:
                rep.violation(f"{r.cls.name}:cannot-construct", f"{r.cls.name}: construction raises for every argument", None)
            continue
        for name, v in (("hypothesis", r.hyp), ("alternative", r.alt), ("code", r.code)):
            if v is None and not bad:
                bad = True
                rep.violation(f"{r.cls.name}:{name}-raises", f"{r.cls.name}: {name} cannot be obtained", None)
        if r.value is None and not bad:
            bad = True
            site = r.raises[0][2] if r.raises else None
            rep.violation(f"{r.cls.name}:always-raises", f"{r.cls.name}: evaluating the statistic raises on every path "
                          f"({r.kind} sample)", site, {"statistic": r.cls.qualname})
        if not bad:
            rep.ok(label(r))
