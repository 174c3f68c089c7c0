"""P25: operations leave their arguments, their objects and the modules as they were."""
from __future__ import annotations

import ast

from .. import drive, stats
from ..interp import AnalysisBroken
from ..report import Report
from ..values import Facets, Obj, num
from .registry import CHECKS, check

Session = drive.Session
SCENARIOS = ("P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P06", "P08", "P09")
GUARDED = {"AbstractStatistic", "Hypothesis", "DataModel", "DataQuery"}
SHARED = {"class-write": "changes a class attribute", "global-write": "changes a module", "ext-write": "changes an imported module"}
MIN_CALLS = 3000
MIN_FUNCTIONS = 35


def reachable(I, st, v, out, depth=0):
    """The caller's containers, criteria, hypotheses and records behind a value."""
    if depth > 5:
        return
    for a in v.atoms:
        if a[0] == "t":
            for x in a[1]:
                reachable(I, st, x, out, depth + 1)
    for oid, o in I.objs(v, st):
        if oid in out:
            continue
        if o.kind in ("list", "dict", "sample", "array", "set"):
            out[oid] = {"sample": "array", "dict": "dictionary"}.get(o.kind, o.kind)
        elif o.kind == "inst" and o.cls is not None and GUARDED & {getattr(k, "name", None) for k in o.cls.mro}:
            out[oid] = o.cls.name
        else:
            continue
        for x in list(o.attrs.values()) + list(o.elems or ()) + ([o.elem] if o.elem is not None else []):
            if x is not None:
                reachable(I, st, x, out, depth + 1)


class Watch:
    """Observes every operation the scenarios perform."""

    def __init__(self, rep):
        self.rep, self.n, self.effects, self.bad = rep, 0, 0, {}
        self.entered = {}

    def before(self, s, args):
        prot = s.__dict__.setdefault("guarded", {})
        for v in args:
            if hasattr(v, "atoms"):
                reachable(s.I, s.st, v, prot)
        return prot, set(s.st.heap), len(s.I.events)

    def after(self, s, state, what):
        prot, before, e0 = state
        self.n += 1
        for kind, data, f, l, q in s.I.events[e0:]:
            msg = None
            self.effects += 1
            if kind in SHARED:
                msg = f"{SHARED[kind]} ({data})"
            elif kind in ("mutate", "attr-write", "obj-write"):
                how = {"mutate": data[1], "obj-write": "item assignment"}.get(kind) or f"stores attribute {data[-1]!r}"
                if data[0] in prot:
                    msg = f"changes the {prot[data[0]]} the caller passed ({how})"
                elif data[0] in before:
                    o = s.st.heap.get(data[0])
                    msg = f"changes an object that outlives the call ({how}, {o.cls.name if o is not None and o.cls else data[1]})"
            if msg and (q, msg) not in self.bad:
                self.bad[(q, msg)] = (f, l, q)
                short = q.replace("pysatl_criterion.", "")
                self.rep.violation(f"{short}:{kind}", f"{short} {msg}", (f, l, q), {"operation": what})


def watched(w):
    """Wrap the operations of Session; returns what undoes it."""
    old = {n: getattr(Session, n) for n in ("call", "meth", "new")}

    def call(self, fn, *a, **k):
        st = w.before(self, list(a) + list(k.values()))
        try:
            return old["call"](self, fn, *a, **k)
        finally:
            w.after(self, st, self.label)

    def meth(self, obj, name, *a, **k):
        st = w.before(self, list(a) + list(k.values()))
        try:
            return old["meth"](self, obj, name, *a, **k)
        finally:
            w.after(self, st, f"{self.label}: .{name}()")

    def new(self, c, *a, **k):
        st = w.before(self, list(a) + list(k.values()))
        try:
            return old["new"](self, c, *a, **k)
        finally:
            w.after(self, st, f"{self.label}: {getattr(c, 'name', c)}(...)")
    Session.call, Session.meth, Session.new = call, meth, new

    def undo():
        for n, f in old.items():
            setattr(Session, n, f)
    return undo


def functions(I):
    """Public module-level functions outside the statistics (whose evaluations are the subject of P01 and P02)."""
    for m in sorted(I.p.sources):
        if ".statistics" in m:
            continue
        for n in I.p.tree(m).body:
            if isinstance(n, ast.FunctionDef) and not n.name.startswith("_"):
                yield m, n


@check("P25", "effect and alias analysis",
       "The scenarios of the other checks (tests, p-values, critical values, adjustments, simulation, listing, storing, loading) are interpreted "
       "abstractly once more while every list, array, dictionary, criterion, hypothesis and record passed in is watched, together with every object, "
       "class and module that existed before the operation; each module-level function is also run with a list and an array in each of its parameters. "
       "Any write reaching a watched object is reported with its location.",
       "May-alias along the analysed paths of the scenarios; library calls not in the effect table are assumed not to write. The random stream and "
       "the database are the intended state and are not watched.")
def p25(rep, root, tier):
    rep.rule = "no write reaches an argument, or an object, class or module older than the operation"
    w = Watch(rep)
    undo = watched(w)
    try:
        for p in SCENARIOS:
            n0 = w.n
            try:
                CHECKS[p].run(Report(p), root, "quick")
            except AnalysisBroken as e:
                rep.unsure(f"operations of {p}", f"the scenario lost its footing: {e}")
            rep.count(f"operations of {p}", w.n - n0)
            rep.ok(f"operations of {p}")
        I = stats.new_interp(root)
        nf = 0
        for m, n in functions(I):
            nf += 1
            names = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
            for kind in ("array", "list"):
                for i, _ in enumerate(names or [None]):
                    s = Session(I, f"{m}.{n.name}({names[i] if names else ''}: {kind})")
                    args = {}
                    for j, nm in enumerate(names):
                        if i == j:
                            args[nm] = stats.sample_value(I, s.st, kind, "sample")[1]
                        else:
                            args[nm] = num(Facets(deps=frozenset({f"param:{nm}"}), rank=0, py=True))
                    s.call(f"{m[len(stats.PKG) + 1:]}.{n.name}", **args)
            rep.ok(f"{m}.{n.name}")
    finally:
        undo()
    rep.count("functions run on their own", nf)
    rep.count("operations", w.n)
    rep.count("effects examined", w.effects)
    if w.n < MIN_CALLS or nf < MIN_FUNCTIONS:
        raise AnalysisBroken(f"only {w.n} operations and {nf} functions found")
