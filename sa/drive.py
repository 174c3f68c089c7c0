"""Helpers to enter repository code abstractly from a check."""
from __future__ import annotations

import ast

from . import models
from .interp import AnalysisBroken, Dead
from .stats import NODE, PKG, find_class, guarded, new_interp, top_frame  # noqa: F401
from .values import AV, C, F0, INF, NONE, NUM, Facets, Obj, const, join, num, unk  # noqa: F401

_N = [ast.parse(f"e{i}()").body[0] for i in range(64)]


class Session:
    """One abstract scenario: its own copy of the state after importing the package."""

    def __init__(self, I, label):
        self.I, self.label = I, label
        self.st = I.g.copy()
        self.fr = top_frame(I, label)
        self.st.heap[self.fr.env] = Obj("env")
        self.n = 0
        self.e0, self.c0, self.i0 = len(I.events), len(I.calls), len(I.issues)
        self.raises = []

    def node(self):
        self.n += 1
        while self.n >= len(_N):
            _N.append(ast.parse(f"e{len(_N)}()").body[0])
        return _N[self.n]

    def get(self, dotted):
        """A module attribute: 'utils.generator.get_available_generator' (relative to the package)."""
        mod, _, name = f"{PKG}.{dotted}".rpartition(".")
        rest = []
        while mod not in self.I.p.sources:
            mod, _, r = mod.rpartition(".")
            rest.insert(0, name)
            name = r
            if not mod:
                raise AnalysisBroken(f"{dotted} does not exist")
        m = self.I.load(mod)
        v = self.I.module_attr(m, name, self.st)
        if v is None:
            raise AnalysisBroken(f"{dotted} does not exist")
        for r in rest:
            v = self.I.getattr(v, r, self.node(), self.st, self.fr)
        return v

    def call(self, fn, *args, **kwargs):
        """Value of the call, or None when every path raises; exceptions are appended to self.raises."""
        if isinstance(fn, str):
            fn = self.get(fn)
        node = self.node()
        v, r = guarded(self.I, lambda: self.I.call(fn, list(args), dict(kwargs), self.st, self.fr, node))
        self.last_raises = r
        self.raises += r
        return v

    def meth(self, obj, name, *args, **kwargs):
        node = self.node()
        v, r = guarded(self.I, lambda: self.I.call(self.I.getattr(obj, name, node, self.st, self.fr), list(args), dict(kwargs),
                                                   self.st, self.fr, node))
        self.last_raises = r
        self.raises += r
        return v

    def attr(self, obj, name):
        node = self.node()
        v, r = guarded(self.I, lambda: self.I.getattr(obj, name, node, self.st, self.fr))
        self.last_raises = r
        self.raises += r
        return v

    def set(self, obj, name, v):
        """Assign an attribute of one known instance."""
        for a in obj.atoms:
            if a[0] == "r" and a[1] in self.st.heap:
                o = self.st.heap[a[1]]
                self.st.heap[a[1]] = o.but(attrs={**o.attrs, name: v})

    def new(self, c, *args, **kwargs):
        node = self.node()
        v, r = guarded(self.I, lambda: self.I.instantiate(c, list(args), dict(kwargs), self.st, self.fr, node))
        self.last_raises = r
        self.raises += r
        return v

    def cls(self, av):
        a = av.single()
        if a is None or a[0] != "k":
            raise AnalysisBroken("not a class")
        return a[1]

    def heap_dict(self, items):
        """A dict object with the given (constant key -> value) items."""
        oid = self.I.fresh()
        self.st.heap[oid] = Obj("dict", attrs={C(k): v for k, v in items.items()}, extra="closed", roots=frozenset({oid}))
        return AV(frozenset({("r", oid)}))

    def objs(self, v):
        return list(self.I.objs(v, self.st)) if v is not None else []

    def events(self, kinds=None):
        return [e for e in self.I.events[self.e0:] if kinds is None or e[0] in kinds]

    def calls(self, prefix=""):
        return [c for c in self.I.calls[self.c0:] if c[0].startswith(prefix)]

    def issues(self):
        return self.I.issues[self.i0:]


def sym(name, **kw):
    """An arbitrary positive number with its own symbol."""
    return num(Facets(deps=frozenset({f"param:{name}"}), rank=0, term=models.param_term(name), py=True, **kw))


def enum_members(c):
    return list(c.members)
