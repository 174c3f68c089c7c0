"""Statistics as analysis entry points: which classes there are, and how each is built and run."""
from __future__ import annotations

import ast

from . import models
from .interp import Budget, ClassObj, Dead, Frame, Interp, ModuleObj, Project
from .values import AV, C, F0, INF, NONE, NUM, Facets, Obj, State, const, join, num, unk

PKG = "pysatl_criterion"


def new_interp(root="/repo/src"):
    p = Project(root, PKG)
    I = Interp(p)
    for n in sorted(p.sources):
        I.load(n)
    return I


def find_class(I, qual):
    for c in I.classes:
        if c.qualname == qual:
            return c
    return None


def top_frame(I, label="analysis entry"):
    m = next(iter(I.modules.values()))
    env = I.fresh()
    I.g.heap[env] = Obj("env")
    return Frame(None, env, (label,), m, None, f"<{label}>")


def concrete_statistics(I):
    base = find_class(I, "pysatl_criterion.statistics.statistic.AbstractStatistic")
    seen, out = set(), []
    for c in I.classes:
        if base in c.mro and not c.is_abstract() and c.qualname not in seen and c is not base:
            seen.add(c.qualname)
            out.append(c)
    return out


NODE = ast.parse("entry()").body[0]


class Run:
    """What one abstract execution of one statistic (one constructor variant, one sample kind) showed."""

    __slots__ = ("cls", "variant", "kind", "inst", "st", "ctor_ok", "hyp", "dist", "code", "value", "raises", "issues",
                 "events", "calls", "sample", "self_oid", "undecided", "value2", "short", "params_av", "alt", "n0", "e_call", "i_call", "c_call", "before")

    def __init__(self):
        for s in self.__slots__:
            setattr(self, s, None)


def sample_value(I, st, kind, label="sample"):
    oid = I.fresh()
    st.heap[oid] = Obj("sample", f=Facets(deps=frozenset({label}), ord="E", rank=1, term=models.X_SYM if label == "sample" else None),
                       roots=frozenset({oid}), extra=kind, elem=num(Facets(deps=frozenset({label}), ord="E", rank=0, term=models.X_SYM if label == "sample" else None, py=True)) if kind == "list" else None)
    return oid, AV(frozenset({("r", oid)}), st.heap[oid].f)


def ctor_params(I, c):
    d, init = c.lookup("__init__")
    if init is None:
        return [], None
    f = next((a[1] for a in init.atoms if a[0] == "f"), None)
    if f is None:
        return [], None
    a = f.node.args
    pos = [x for x in a.posonlyargs + a.args][1:]
    nd = len(a.defaults)
    out = []
    for i, x in enumerate(pos):
        j = i - (len(pos) - nd)
        out.append((x.arg, f.defaults[j] if j >= 0 else None, x.annotation))
    for x, dflt in zip(a.kwonlyargs, f.kwdefaults):
        out.append((x.arg, dflt, x.annotation))
    return out, f


def symbolic_arg(name, dflt):
    """A constructor argument about which only its kind is known."""
    lab = f"param:{name}"
    if dflt is not None:
        ok, v = dflt.const()
        if ok and isinstance(v, bool):
            return AV(frozenset({("B",)}), Facets(deps=frozenset({lab}), rank=0, py=True))
        if ok and isinstance(v, str):
            return AV(frozenset({("s",)}), Facets(deps=frozenset({lab}), rank=0))
        if ok and not isinstance(v, (int, float)):
            return dflt
    return num(Facets(deps=frozenset({lab}), rank=0, term=models.param_term(name), py=True))


def variants(I, c):
    """Constructor argument sets: one with every default flag value, one with arbitrary strings and
    flags, and one for each member of an enumeration-typed argument."""
    ps, f = ctor_params(I, c)
    base = {}
    loose = {}
    enums = []
    for n, d, ann in ps:
        s = symbolic_arg(n, d)
        if d is not None and s is not d:
            ok, v = d.const()
            if ok and isinstance(v, (str, bool)):
                base[n] = d
                loose[n] = s
                continue
        if s is d and d is not None:
            ok, v = d.const()
            if ok and hasattr(v, "cls") and v.cls.is_enum:
                enums.append((n, v))
        base[n] = s
    out = [("default flags", base)]
    if loose:
        out.append(("arbitrary flags", {**base, **loose}))
    for n, v in enums:
        for m in v.cls.members:
            if m is not v:
                out.append((f"{n}={m.name}", {**base, n: AV(frozenset({("c", C(m))}), Facets(rank=0))}))
    return out


def guarded(I, fn):
    """Run fn, returning (value or None, raised exceptions)."""
    I.raise_stack.append([])
    try:
        v = fn()
    except Dead:
        v = None
    raises = I.raise_stack.pop()
    return v, raises


def run_statistic(I, c, vname, args, kind, dim=None):
    r = Run()
    r.cls, r.variant, r.kind = c, vname, kind
    st = I.g.copy()
    fr = top_frame(I, f"{c.qualname}/{vname}/{kind}")
    fr_env = fr.env
    st.heap[fr_env] = Obj("env")
    i0, e0, c0, u0 = len(I.issues), len(I.events), len(I.calls), len(I.undecided)
    inst, ctor_raises = guarded(I, lambda: I.instantiate(c, [], dict(args), st, fr, NODE))
    r.ctor_ok = inst is not None
    r.inst = inst
    r.st = st
    if inst is not None:
        r.self_oid = inst.single()[1]

        def meth(name, a=(), node=None):
            m = I.getattr(inst, name, node or NODE, st, fr)
            return I.call(m, list(a), {}, st, fr, node or NODE)
        r.n0 = len(I.events)
        r.hyp, _ = guarded(I, lambda: meth("hypothesis", node=ast.parse("h()").body[0]))
        r.alt, _ = guarded(I, lambda: meth("alternative", node=ast.parse("h()").body[0]))
        r.code, _ = guarded(I, lambda: meth("code", node=ast.parse("h()").body[0]))
        soid, sav = sample_value(I, st, kind)
        if dim is not None:
            sav = dim(st, soid, sav)
        r.sample = soid
        r.e_call = len(I.events) - e0
        r.i_call = len(I.issues) - i0
        r.c_call = len(I.calls) - c0
        r.before = set(st.heap)
        r.value, r.raises = guarded(I, lambda: meth("execute_statistic", [sav], ast.parse("h()").body[0]))
    r.issues = I.issues[i0:]
    r.events = I.events[e0:]
    r.calls = I.calls[c0:]
    r.undecided = I.undecided[u0:]
    return r
