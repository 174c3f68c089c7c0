"""Interprocedural abstract interpreter over the syntax trees of the analysed package.

It follows imports, classes (C3 MRO), closures, super(), dataclasses and dynamically created
classes, inlines calls along the resolved call graph, joins at merges and iterates loops to a
fixpoint.  Nothing of the analysed package is imported or executed.
"""
from __future__ import annotations

import ast
import os
import sys

from . import models
from .values import (NO_AX, ax_get, ax_merge, ax_sum, AV, BOOL, BYTES, C, F0, FALSE, INF, NONE, NUM, STR, TOP_IV, TRUE, UNK, EnumMember, Facets,
                     Obj, OrdVal, State, boolean, comb_ord, const, join, join_facets, join_obj, join_ord,
                     join_state, num, same_state, string, unk)

sys.setrecursionlimit(20000)

MAX_UNROLL = 600
MAX_DEPTH = 60


class AnalysisBroken(Exception):
    """The analysis lost an anchor it needs (never a verdict)."""


class Dead(Exception):
    """The current path ended (an exception was raised or nothing can continue)."""


class Budget(Exception):
    pass


class ModuleObj:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.env = None
        self.executed = False

    def __repr__(self):
        return f"<module {self.name}>"


class FuncObj:
    def __init__(self, name, qualname, node, module, closure, defaults, kwdefaults, cls):
        self.name, self.qualname, self.node, self.module = name, qualname, node, module
        self.closure, self.defaults, self.kwdefaults, self.cls = closure, defaults, kwdefaults, cls
        self.kind = "func"
        self.abstract = False
        self.is_gen = False
        self.ctxman = False
        self.overload = False

    def __repr__(self):
        return f"<func {self.qualname}>"


class ClassObj:
    def __init__(self, name, qualname, module, bases, ns, node):
        self.name, self.qualname, self.module, self.bases = name, qualname, module, bases
        self.ns, self.node = ns, node
        self.ext_bases = []
        self.mro = []
        self.annotations = []
        self.dataclass = None
        self.is_enum = False
        self.members = []

    def __repr__(self):
        return f"<class {self.qualname}>"

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c, c.ns[name]
        return None, None

    def find(self, name, st):
        """Like lookup, but sees the attributes assigned to classes at run time."""
        late = None
        for c in self.mro:
            o = st.heap.get(("class", c))
            if o is not None and name in o.attrs:
                v = o.attrs[name]
                rest = frozenset(a for a in v.atoms if a != ("missing",))
                if rest:
                    late = (c, join(late[1], AV(rest, v.f)) if late else AV(rest, v.f))
                if ("missing",) not in v.atoms:
                    return late if late else (None, None)
            if name in c.ns:
                return (c, join(late[1], c.ns[name])) if late else (c, c.ns[name])
        return late if late else (None, None)

    def opaque(self):
        for c in self.mro:
            for e in c.ext_bases:
                if e not in TRANSPARENT_BASES:
                    return True
        return False

    def is_sub(self, other):
        return other in self.mro

    def abstract_names(self):
        names = set()
        for c in reversed(self.mro):
            for n, v in c.ns.items():
                fs = [a[1] for a in v.atoms if a[0] in ("f", "p")]
                if fs and any(f.abstract for f in fs):
                    names.add(n)
                else:
                    names.discard(n)
        return names

    def is_abc(self):
        return any("abc.ABC" in c.ext_bases for c in self.mro)

    def is_abstract(self):
        return self.is_abc() and bool(self.abstract_names())


TRANSPARENT_BASES = {"abc.ABC", "typing.Generic", "enum.Enum", "builtins.object", "typing.Protocol",
                     "enum.StrEnum", "builtins.str", "builtins.Exception", "builtins.ValueError",
                     "typing.NamedTuple", "builtins.int"}


def c3(cls):
    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            res.append(cand)
            seqs = [[x for x in s if x is not cand] for s in seqs]
            seqs = [s for s in seqs if s]
        return res
    return [cls] + merge([b.mro for b in cls.bases] + [cls.bases])


class Frame:
    def __init__(self, func, env, ctx, module, cls, name):
        self.func, self.env, self.ctx, self.module, self.cls, self.name = func, env, ctx, module, cls, name
        self.returns = []
        self.loops = []
        self.yields = None
        self.on_yield = None
        self.first = None
        self.class_ns = None
        self.globals = set()
        self.nonlocals = set()


class LoopCtx:
    def __init__(self):
        self.breaks, self.conts = [], []


class Issue:
    __slots__ = ("kind", "msg", "file", "line", "func", "key", "definite")

    def __init__(self, kind, msg, file, line, func, key=None, definite=True):
        self.kind, self.msg, self.file, self.line, self.func = kind, msg, file, line, func
        self.key = key or msg
        self.definite = definite

    def where(self):
        return f"{self.file}:{self.line} in {self.func}"

    def where_tuple(self):
        return (self.file, self.line, self.func)


class Project:
    def __init__(self, root, package):
        self.root, self.package = root, package
        self.sources = {}
        for d, dirs, files in os.walk(os.path.join(root, package)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    parts = rel[:-3].split(os.sep)
                    is_pkg = parts[-1] == "__init__"
                    if is_pkg:
                        parts = parts[:-1]
                    self.sources[".".join(parts)] = (p, is_pkg)
        if package not in self.sources:
            raise AnalysisBroken(f"package {package} not found under {root}")
        self.trees = {}

    def tree(self, name):
        if name not in self.trees:
            p, _ = self.sources[name]
            with open(p, encoding="utf-8") as fh:
                self.trees[name] = ast.parse(fh.read(), p)
        return self.trees[name]


_CONVERSIONS = {-1: lambda v: v, 115: str, 114: repr, 97: ascii}


class Interp:
    def __init__(self, project):
        self.p = project
        self.modules = {}
        self.classes = []
        self.funcs_seen = set()
        self.g = State()
        self.next_oid = 1
        self.alloc_map = {}
        self.oid_site = {}
        self.issues = []
        self.events = []
        self.calls = []
        self.record_calls = True
        self.warn_scope = 0
        self.raise_stack = [[]]
        self.stack = []
        self.hooks = []
        self.module_mode = 0
        self.steps = 0
        self.max_steps = 4_000_000
        self.quiet = 0
        self.loaded_order = []
        self.undecided = []
        self.func_hooks = {}
        self.law_uses = []
        self.conditions = {}
        self.split_draws = False  # every drawn value is a symbol of its own (in split_order)
        self.split_order = []
        self.known_run = False    # runs on known inputs: new arrays of known length keep their elements
        self.exact_raises = False   # only raises that are seen reach a handler
        self.handling = []       # exceptions of the handlers being executed
        self.post = None         # tracks units of measure: see sa.dims
        self.op_hook = None      # (I, operation, operands, node, st, fr) -> value or None
        self.rel_terms = False   # comparisons of an array keep their relation as a term
        self.forks = 0           # branches taken both ways
        self.next_yield = None   # (generator function, callback) of a context manager about to run
        self.order = None   # the order of terms a scenario assumes: (a, b) -> -1/0/1/None
        self.draws = {}
        self.draw_syms = {}
        self.unsupported = {}
        self.lids = []
        self.born = {}

    # ------------------------------------------------------------------ infrastructure
    def rel(self, path):
        return os.path.relpath(path, os.path.dirname(self.p.root))

    def site(self, node, fr):
        return (self.rel(fr.module.path), getattr(node, "lineno", 0), fr.name)

    def issue(self, kind, msg, node, fr, key=None, definite=True):
        if self.quiet:
            return
        f, l, q = self.site(node, fr)
        self.issues.append(Issue(kind, msg, f, l, q, key, definite))

    def event(self, kind, data, node, fr):
        f, l, q = self.site(node, fr)
        self.events.append((kind, data, f, l, q))

    def fresh(self):
        self.next_oid += 1
        return self.next_oid

    def alloc(self, obj, node, fr, st, tag=""):
        key = (fr.ctx, id(node), tag)
        oid = self.alloc_map.get(key)
        if oid is None:
            oid = self.fresh()
            self.alloc_map[key] = oid
            self.oid_site[oid] = self.site(node, fr)
            self.born[oid] = tuple(self.lids)
        if oid not in obj.roots and obj.kind in ("array", "list", "sample", "dict", "set", "inst", "gen"):
            obj = obj.but(roots=obj.roots | {oid})
        old = st.heap.get(oid)
        if old is not None and self.in_summary(fr):
            obj = join_obj(old, obj)
        st.heap[oid] = obj
        return oid

    def in_summary(self, fr):
        return self.summary_depth > 0

    summary_depth = 0

    def ref(self, oid, st):
        o = st.heap[oid]
        return AV(frozenset({("r", oid)}), o.f)

    def new(self, kind, node, fr, st, f=F0, tag="", **kw):
        o = Obj(kind, f=f, site=self.site(node, fr), **kw)
        return self.ref(self.alloc(o, node, fr, st, tag or kind), st)

    def objs(self, av, st):
        return [(a[1], st.heap[a[1]]) for a in av.atoms if a[0] == "r" and a[1] in st.heap]

    def eff(self, av, st):
        """Facets of the value itself together with those of the objects it refers to."""
        f = av.f
        os_ = self.objs(av, st)
        if os_ and len(os_) == len(av.atoms):
            # the object's current facets win over those the reference had when it was made
            f = os_[0][1].f
            for _, o in os_[1:]:
                f = join_facets(f, o.f)
            if av.f is not f:
                f = f.but(deps=f.deps | av.f.deps, facts=f.facts | av.f.facts, wit=f.wit or av.f.wit,
                          ord=join_ord(f.ord, av.f.ord) if av.f.ord in ("X", "U") else f.ord)
        for _, o in os_:
            f = join_facets(f, o.f) if len(os_) != len(av.atoms) else f
            e = o.elem
            if o.elems:
                for x in o.elems:
                    f = f.but(deps=f.deps | self.eff_deps(x, st), facts=f.facts | x.f.facts)
            elif e is not None:
                f = f.but(deps=f.deps | e.f.deps, facts=f.facts | e.f.facts)
        for a in av.of("t"):
            for x in a[1]:
                xf = self.eff(x, st)
                f = f.but(deps=f.deps | xf.deps, facts=f.facts | xf.facts,
                          ord=join_ord(f.ord, xf.ord), ax=ax_merge(f.ax, xf.ax, join_ord))
        for a in av.of("xb"):
            xf = self.eff(a[2], st)
            f = f.but(deps=f.deps | xf.deps, facts=f.facts | xf.facts, ord=join_ord(f.ord, xf.ord))
        return f

    def eff_deps(self, av, st, depth=0):
        d = av.f.deps
        if depth > 6:
            return d
        for _, o in self.objs(av, st):
            d = d | o.f.deps
            if o.elems:
                for x in o.elems:
                    d = d | self.eff_deps(x, st, depth + 1)
            elif o.elem is not None:
                d = d | self.eff_deps(o.elem, st, depth + 1)
            if o.kind in ("inst", "dict"):
                for x in o.attrs.values():
                    d = d | self.eff_deps(x, st, depth + 1)
        for a in av.of("t"):
            for x in a[1]:
                d = d | self.eff_deps(x, st, depth + 1)
        for a in av.of("xb"):
            d = d | self.eff_deps(a[2], st, depth + 1)
        return d

    def eff_facts(self, av, st, depth=0):
        d = av.f.facts
        if depth > 6:
            return d
        for _, o in self.objs(av, st):
            d = d | o.f.facts
            for x in (o.elems or ()):
                d = d | self.eff_facts(x, st, depth + 1)
            if o.elem is not None:
                d = d | self.eff_facts(o.elem, st, depth + 1)
            if o.kind in ("inst", "dict"):
                for x in o.attrs.values():
                    d = d | self.eff_facts(x, st, depth + 1)
        for a in av.of("t"):
            for x in a[1]:
                d = d | self.eff_facts(x, st, depth + 1)
        for a in av.of("xb"):
            d = d | self.eff_facts(a[2], st, depth + 1)
        return d

    # ------------------------------------------------------------------ modules
    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name not in self.p.sources:
            return None
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        path, is_pkg = self.p.sources[name]
        m = ModuleObj(name, path, self.p.tree(name), is_pkg)
        self.modules[name] = m
        self.loaded_order.append(name)
        m.env = self.fresh()
        self.g.heap[m.env] = Obj("env", attrs={
            "__name__": const(name), "__file__": string(), "__doc__": string(), "__package__": string()})
        fr = Frame(None, m.env, ("mod", name), m, None, name)
        self.module_mode += 1
        saved, self.summary_depth = self.summary_depth, 0
        self.raise_stack.append([])
        try:
            g = self.exec_block(m.tree.body, self.g, fr)
            if g is None:
                self.issue("module-raises", f"importing {name} always raises", m.tree, fr)
            else:
                if g is not self.g:
                    self.g.heap = g.heap
        finally:
            self.raise_stack.pop()
            self.module_mode -= 1
            self.summary_depth = saved
        m.executed = True
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            pm = self.modules.get(parent)
            if pm is not None:
                self.set_env(pm.env, leaf, AV(frozenset({("m", m)})), self.g, weak=True)
        return m

    def set_env(self, env, name, av, st, weak=False):
        o = st.heap[env]
        if weak and name in o.attrs:
            return
        attrs = dict(o.attrs)
        attrs[name] = av
        st.heap[env] = o.but(attrs=attrs)

    def module_attr(self, m, name, st):
        env = st.heap.get(m.env) or self.g.heap.get(m.env)
        if env is not None and name in env.attrs:
            return env.attrs[name]
        sub = f"{m.name}.{name}"
        if sub in self.p.sources:
            sm = self.load_from(sub, st)
            return AV(frozenset({("m", sm)}))
        return None

    def load_from(self, name, st):
        """Load a module while interpreting: its globals appear in this state as well."""
        if self.module_mode and st is not self.g:
            # a module being executed imports another one: both see the same globals
            self.g.heap = st.heap
            m = self.load(name)
            st.heap = self.g.heap
            return m
        before = set(self.g.heap)
        m = self.load(name)
        if st is not self.g:
            for k in self.g.heap.keys() - before:
                st.heap.setdefault(k, self.g.heap[k])
            for k, o in self.g.heap.items():
                if k not in st.heap:
                    st.heap[k] = o
                elif o.kind == "env" and st.heap[k].kind == "env":
                    missing = {n: v for n, v in o.attrs.items() if n not in st.heap[k].attrs}
                    if missing:
                        st.heap[k] = st.heap[k].but(attrs={**st.heap[k].attrs, **missing})
        return m

    def resolve_from(self, mod, level, fr):
        if level == 0:
            return mod
        base = fr.module.name.split(".")
        if not fr.module.is_pkg:
            base = base[:-1]
        base = base[: len(base) - (level - 1)]
        return ".".join(base + ([mod] if mod else []))

    # ------------------------------------------------------------------ names
    def mangle(self, name, fr):
        if fr.cls is not None and name.startswith("__") and not name.endswith("__"):
            return "_" + fr.cls.name.lstrip("_") + name
        return name

    def lookup(self, name, st, fr, node):
        name = self.mangle(name, fr)
        if fr.class_ns is not None and name in fr.class_ns:
            return fr.class_ns[name]
        envs = [fr.env] + list(fr.func.closure if fr.func else ())
        if fr.class_ns is not None:
            envs = list(fr.outer_envs)
        for e in envs:
            o = st.heap.get(e) or self.g.heap.get(e)
            if o is not None and name in o.attrs:
                v = o.attrs[name]
                if ("missing",) in v.atoms:
                    rest = frozenset(a for a in v.atoms if a != ("missing",))
                    if not rest:
                        self.issue("unbound", f"name '{name}' is not bound on any path", node, fr)
                        raise Dead()
                    v = AV(rest, v.f)
                return v
        if hasattr(__builtins__, name) if not isinstance(__builtins__, dict) else name in __builtins__:
            if name in ("True", "False", "None"):
                return const({"True": True, "False": False, "None": None}[name])
            return AV(frozenset({("x", "builtins." + name)}))
        if name in ("__name__", "__file__"):
            return string()
        self.issue("name-error", f"name '{name}' is not defined", node, fr)
        return unk()

    def assign_name(self, name, av, st, fr, node):
        name = self.mangle(name, fr)
        if fr.class_ns is not None:
            fr.class_ns[name] = av
            return
        if name in fr.globals:
            self.event("global-write", name, node, fr)
            self.set_env(fr.module.env, name, av, st)
            return
        if name in fr.nonlocals:
            for e in fr.func.closure:
                if e in st.heap and name in st.heap[e].attrs:
                    self.set_env(e, name, join(st.heap[e].attrs[name], av), st)
                    return
        self.forget(name, st, fr)
        self.set_env(fr.env, name, av, st)

    # ------------------------------------------------------------------ statements
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()

    def exec_block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            self.tick()
            try:
                st = self.exec_stmt(s, st, fr)
            except Dead:
                return None
        return st

    def exec_stmt(self, s, st, fr):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.unsupported[type(s).__name__] = self.unsupported.get(type(s).__name__, 0) + 1
            return st
        return m(s, st, fr)

    def x_Pass(self, s, st, fr):
        return st

    def x_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.eval(s.value, st, fr)
            return st
        self.eval(s.value, st, fr)
        return st

    def x_Import(self, s, st, fr):
        for a in s.names:
            if a.name.split(".")[0] == self.p.package or a.name in self.p.sources:
                m = self.load_from(a.name, st)
                if m is None:
                    self.issue("import-error", f"module {a.name} does not exist", s, fr)
                    raise Dead()
                if a.asname:
                    self.assign_name(a.asname, AV(frozenset({("m", m)})), st, fr, s)
                else:
                    top = self.load_from(a.name.split(".")[0], st)
                    self.assign_name(a.name.split(".")[0], AV(frozenset({("m", top)})), st, fr, s)
            else:
                if not a.asname and "." not in a.name and self.sibling(a.name, fr):
                    self.issue("import-error", f"bare import of sibling module {a.name}", s, fr)
                    raise Dead()
                if a.asname:
                    self.assign_name(a.asname, AV(frozenset({("x", models.canon(a.name))})), st, fr, s)
                else:
                    top = a.name.split(".")[0]
                    self.assign_name(top, AV(frozenset({("x", models.canon(top))})), st, fr, s)
        return st

    def sibling(self, name, fr):
        parent = fr.module.name if fr.module.is_pkg else fr.module.name.rsplit(".", 1)[0]
        return f"{parent}.{name}" in self.p.sources and not models.is_installed(name)

    def x_ImportFrom(self, s, st, fr):
        mod = self.resolve_from(s.module, s.level, fr)
        if mod == "__future__":
            return st
        if mod in self.p.sources or (mod and mod.split(".")[0] == self.p.package):
            m = self.load_from(mod, st) if mod in self.p.sources else None
            if m is None:
                self.issue("import-error", f"module {mod} does not exist", s, fr)
                raise Dead()
            for a in s.names:
                if a.name == "*":
                    env = (st.heap.get(m.env) or self.g.heap[m.env]).attrs
                    for k, v in list(env.items()):
                        if not k.startswith("_"):
                            self.assign_name(k, v, st, fr, s)
                    continue
                v = self.module_attr(m, a.name, st)
                if v is None:
                    self.issue("import-error", f"cannot import name '{a.name}' from {mod}", s, fr,
                               key=f"import {a.name} from {mod}")
                    v = unk()
                self.assign_name(a.asname or a.name, v, st, fr, s)
        else:
            for a in s.names:
                self.assign_name(a.asname or a.name, models.ext_value(f"{mod}.{a.name}"), st, fr, s)
        return st

    def x_Global(self, s, st, fr):
        fr.globals |= set(s.names)
        return st

    def x_Nonlocal(self, s, st, fr):
        fr.nonlocals |= set(s.names)
        return st

    def closure_of(self, fr):
        if fr.func is None and fr.class_ns is None:
            return (fr.env,)
        if fr.class_ns is not None:
            return tuple(fr.outer_envs)
        return (fr.env,) + tuple(fr.func.closure)

    def make_func(self, node, st, fr, name):
        a = node.args
        defaults = [self.eval(d, st, fr) for d in a.defaults]
        kwd = [self.eval(d, st, fr) if d is not None else None for d in a.kw_defaults]
        cls = fr.cls
        q = f"{fr.name}.{name}" if (fr.func is not None or fr.class_ns is not None) else f"{fr.module.name}.{name}"
        f = FuncObj(name, q, node, fr.module, self.closure_of(fr), defaults, kwd, cls)
        if not isinstance(node, ast.Lambda):
            f.is_gen = _has_yield(node)
        return f

    def x_FunctionDef(self, s, st, fr):
        f = self.make_func(s, st, fr, s.name)
        av = AV(frozenset({("f", f)}))
        for d in reversed(s.decorator_list):
            av = self.decorate(d, av, f, st, fr)
        if f.overload and fr.class_ns is not None and s.name in fr.class_ns:
            return st
        self.assign_name(s.name, av, st, fr, s)
        return st

    x_AsyncFunctionDef = x_FunctionDef

    def decorate(self, d, av, f, st, fr):
        base = d.func if isinstance(d, ast.Call) else d
        dv = self.eval(base, st, fr)
        a = dv.single()
        name = a[1] if a and a[0] == "x" else None
        if name == "builtins.staticmethod":
            f.kind = "static"
            return av
        if name == "builtins.classmethod":
            f.kind = "class"
            return av
        if name in ("builtins.property", "functools.cached_property"):
            return AV(frozenset({("p", f)}))
        if name == "abc.abstractmethod":
            f.abstract = True
            return av
        if name in ("typing.overload", "typing_extensions.overload"):
            f.overload = True
            return av
        if name == "contextlib.contextmanager" and f.is_gen:
            f.ctxman = True
            return av
        if name in ("typing_extensions.override", "typing.override", "typing.final", "functools.wraps",
                    "functools.lru_cache", "functools.cache"):
            return av
        if isinstance(base, ast.Attribute) and base.attr in ("setter", "getter", "deleter"):
            return self.eval(base.value, st, fr)
        if a and a[0] == "f":
            try:
                return self.call(dv, [av], {}, st, fr, d)
            except Dead:
                raise
        return unk()

    def x_ClassDef(self, s, st, fr):
        bases, ext = [], []
        for b in s.bases:
            node = b.value if isinstance(b, ast.Subscript) else b
            v = self.eval(node, st, fr)
            got = False
            for at in v.atoms:
                if at[0] == "k":
                    bases.append(at[1])
                    got = True
                elif at[0] == "x":
                    ext.append(at[1])
                    got = True
            if not got:
                ext.append("?")
        q = f"{fr.name}.{s.name}" if (fr.func is not None or fr.class_ns is not None) else f"{fr.module.name}.{s.name}"
        c = ClassObj(s.name, q, fr.module, bases, {}, s)
        c.ext_bases = ext
        c.mro = c3(c)
        c.is_enum = any("enum.Enum" in b.ext_bases or "enum.StrEnum" in b.ext_bases for b in c.mro)
        sub = Frame(fr.func, fr.env, fr.ctx + (("cls", s.name),), fr.module, c, q)
        sub.class_ns = c.ns
        sub.outer_envs = ([fr.env] + list(fr.func.closure)) if fr.func else [fr.env]
        if fr.class_ns is not None:
            sub.outer_envs = list(fr.outer_envs)
        c.ns["__doc__"] = string()
        for x in s.body:
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                c.annotations.append((x.target.id, x))
        st = self.exec_block(s.body, st, sub) or st
        if c.is_enum:
            for k, v in list(c.ns.items()):
                if k.startswith("__") or v.of("f") or v.of("p"):
                    continue
                mem = EnumMember(c, k, v)
                c.members.append(mem)
                c.ns[k] = AV(frozenset({("c", C(mem))}), Facets(rank=0))
        self.classes.append(c)
        av = AV(frozenset({("k", c)}))
        for d in reversed(s.decorator_list):
            base = d.func if isinstance(d, ast.Call) else d
            dv = self.eval(base, st, fr)
            a = dv.single()
            if a and a[0] == "x" and a[1] == "dataclasses.dataclass":
                c.dataclass = {k.arg: getattr(k.value, "value", None) for k in d.keywords} if isinstance(d, ast.Call) else {}
            elif a and a[0] == "f":
                av = self.call(dv, [av], {}, st, fr, d)
        self.assign_name(s.name, av, st, fr, s)
        return st

    def x_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value is not None else NONE
        if s.value is None or (isinstance(s.value, ast.Constant) and s.value.value is None):
            v = v.plus(facts=frozenset({("none-return", fr.name, self.rel(fr.module.path), s.lineno)}))
        v = self.with_pc(v, st)
        fr.returns.append((v, st))
        return None

    def with_pc(self, v, st):
        d, o = st.pc
        if not d and o == "I":
            return v
        return AV(v.atoms, v.f.but(deps=v.f.deps | d, ord=ctl_ord(v.f.ord, o)))

    def x_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        if len(s.targets) == 1:
            self.condition(s.targets[0], s.value, v, st, fr)
        return st

    def x_AnnAssign(self, s, st, fr):
        if s.value is not None:
            v = self.eval(s.value, st, fr)
            self.assign(s.target, v, st, fr)
            self.condition(s.target, s.value, v, st, fr)
        return st

    def condition(self, t, e, v, st, fr):
        """Remember the condition a name stands for, until one of its own names changes (see `forget`)."""
        if not isinstance(t, ast.Name) or fr.class_ns is not None or not isinstance(e, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call)):
            return
        ns = _condition_names(e)
        if ns is None or t.id in ns or self.truth(v, st) is not None:
            return
        self.conditions[id(e)] = e
        self.set_env(fr.env, t.id + "?", const(id(e)), st)

    def forget(self, name, st, fr):
        o = st.heap.get(fr.env)
        if o is None:
            return
        gone = [k for k, v in o.attrs.items() if k[-1] == "?" and (k[:-1] == name or any(a[0] == "c" and name in (_condition_names(self.conditions.get(a[1].v)) or ()) for a in v.atoms))]
        if gone:
            st.heap[fr.env] = o.but(attrs={k: v for k, v in o.attrs.items() if k not in gone})

    def x_AugAssign(self, s, st, fr):
        load = _as_load(s.target)
        cur = self.eval(load, st, fr)
        v = self.eval(s.value, st, fr)
        # in-place operation on a mutable array or list changes the object itself
        inplace = [o for o in self.objs(cur, st) if o[1].kind in ("array", "sample", "list", "set")]
        if inplace and not isinstance(s.target, ast.Subscript):
            self.mutate(cur, f"augmented assignment ({type(s.op).__name__})", s, st, fr)
        if self.post is not None:
            self.post.added[id(s.value)] = (self.post.of(v, st), s)
        r = self.binop(type(s.op).__name__, cur, v, s, st, fr)
        if isinstance(s.target, ast.Subscript):
            base = self.eval(s.target.value, st, fr)
            idx = self.eval_index(s.target.slice, st, fr)
            self.store_item(base, idx, r, s, st, fr, aug=True, delta=v)
            return st
        if inplace and not any(a[0] != "r" for a in cur.atoms):
            for oid, o in inplace:
                f = join_facets(o.f, self.eff(v, st)) if o.kind == "list" else self.eff(r, st)
                st.heap[oid] = o.but(f=f, elems=None if o.kind == "list" else o.elems,
                                     elem=join(self.elem_of(cur, st), self.elem_of(v, st)) if o.kind == "list" else o.elem)
                if self.post is not None and o.kind != "list":
                    self.post.put(AV(frozenset({("r", oid)})), self.post.of(r, st), st)
            return st
        self.assign(s.target, r, st, fr)
        return st

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, st, fr, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, fr)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st, fr)
            self.store_attr(base, self.mangle(t.attr, fr), v, t, st, fr)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st, fr)
            idx = self.eval_index(t.slice, st, fr)
            self.store_item(base, idx, v, t, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def unpack(self, t, v, st, fr):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        tup = [a for a in v.atoms if a[0] == "t"]
        if tup and not star:
            good = [a for a in tup if len(a[1]) == n]
            bad = [a for a in tup if len(a[1]) != n]
            if bad and not good and len(tup) == len(v.atoms):
                self.issue("unpack", f"cannot unpack {len(bad[0][1])} values into {n} names", t, fr)
                raise Dead()
            if good:
                for i, e in enumerate(t.elts):
                    x = None
                    for a in good:
                        x = join(x, a[1][i])
                    self.assign(e, x.plus(deps=v.f.deps), st, fr)
                return
        known = self.known_elems(v, st)
        if known is not None and not star:
            if len(known) == n:
                for e, x in zip(t.elts, known):
                    self.assign(e, x, st, fr)
                return
            self.issue("unpack", f"cannot unpack {len(known)} values into {n} names", t, fr)
            raise Dead()
        e = self.elem_of(v, st)
        f = self.eff(v, st)
        for i, x in enumerate(t.elts):
            if isinstance(x, ast.Starred):
                self.assign(x.value, self.new("list", x, fr, st, f=f, elem=e), st, fr)
            else:
                y = e
                if f.ord == "E":
                    y = e.but(ord="X", wit=("unpacking takes elements of the sample by position", self.site(t, fr)))
                elif f.ord == "P":
                    y = e.but(ord="I")
                self.assign(x, y.plus(facts=frozenset({("item", i)}) if False else frozenset()), st, fr)

    def store_attr(self, base, name, v, node, st, fr):
        for a in base.atoms:
            if a[0] == "r" and a[1] in st.heap:
                o = st.heap[a[1]]
                if o.kind == "inst" or o.kind == "ext":
                    self.event("attr-write", (a[1], o.cls.name if o.cls else o.kind, name), node, fr)
                    attrs = dict(o.attrs)
                    if len(base.atoms) == 1:
                        attrs[name] = v
                    else:
                        attrs[name] = join(attrs.get(name), v)
                    st.heap[a[1]] = o.but(attrs=attrs)
                elif o.kind in ("array", "sample"):
                    self.mutate(base, f"assignment to attribute .{name}", node, st, fr)
            elif a[0] == "k":
                if self.module_mode:
                    if name in ("__name__", "__qualname__"):
                        ok, s = v.const()
                        if ok and isinstance(s, str):
                            if name == "__name__":
                                a[1].name = s
                            a[1].qualname = f"{a[1].module.name}.{s}"
                    else:
                        a[1].ns[name] = v
                else:
                    self.event("class-write", (a[1].name, name), node, fr)
                    key = ("class", a[1])
                    o = st.heap.get(key) or Obj("class", a[1])
                    st.heap[key] = o.but(attrs={**o.attrs, name: v if len(base.atoms) == 1 else
                                                join(o.attrs.get(name) or AV(frozenset({("missing",)})), v)})
            elif a[0] == "m":
                if self.module_mode:
                    self.set_env(a[1].env, name, v, st)
                else:
                    self.event("global-write", f"{a[1].name}.{name}", node, fr)
            elif a[0] == "f":
                if not self.module_mode:
                    self.event("global-write", f"{a[1].qualname}.{name}", node, fr)
            elif a[0] in ("x", "xb"):
                self.event("ext-write", (a[1], name), node, fr)

    def store_item(self, base, idx, v, node, st, fr, aug=False, delta=None):
        vf = self.eff(v, st)
        for oid, o in self.objs(base, st):
            if o.kind in ("array", "list", "sample"):
                self.mutate(AV(frozenset({("r", oid)})), "item assignment", node, st, fr)
                o = st.heap[oid]
                ok, i = idx.const() if isinstance(idx, AV) else (False, None)
                strong = len(base.atoms) == 1
                no = self.store_ord(o, idx, vf, node, fr, st, aug, delta)
                deps = o.f.deps | vf.deps | (self.eff(idx, st).deps if isinstance(idx, AV) else frozenset())
                nf = o.f.but(deps=deps, ord=no[0], wit=no[1] or o.f.wit, term=None, facts=o.f.facts | vf.facts,
                             iv=join_facets(o.f, vf).iv, dim=join_facets(o.f, vf).dim if self.post is None else self.post.stored(oid, v, st))
                if o.elems is not None and ok and isinstance(i, int) and not isinstance(i, bool) and -len(o.elems) <= i < len(o.elems):
                    el = list(o.elems)
                    el[i] = v if strong else join(el[i], v)
                    st.heap[oid] = o.but(elems=tuple(el), f=nf)
                else:
                    e = None
                    if o.elems is not None:
                        for x in o.elems:
                            e = join(e, x)
                    else:
                        e = o.elem
                    e = join(e, AV(v.atoms, v.f.but(idx=None, rank=None))) if e is not None else v.but(idx=None)
                    st.heap[oid] = o.but(elems=None, elem=e, f=nf)
            elif o.kind == "dict":
                self.event("obj-write", (oid, "dict"), node, fr)
                ok, k = models.key_const(self, idx, st) if isinstance(idx, AV) else (False, None)
                attrs = dict(o.attrs)
                if ok and _hashable(k):
                    attrs[C(k)] = v if len(base.atoms) == 1 and not aug else join(attrs.get(C(k)), v)
                    st.heap[oid] = o.but(attrs=attrs)
                else:
                    f = o.f.but(deps=o.f.deps | vf.deps | idx.f.deps, ord=join_ord(o.f.ord, vf.ord))
                    key = join(o.extra, idx) if isinstance(o.extra, AV) else idx
                    st.heap[oid] = o.but(elem=join(o.elem, v), f=f, extra=key)
            elif o.kind == "inst":
                c, m = o.cls.lookup("__setitem__")
                if m is not None:
                    self.call(self.bind(m, AV(frozenset({("r", oid)})), c, o.cls), [idx, v], {}, st, fr, node)
                elif not o.cls.opaque():
                    self.issue("type-error", f"'{o.cls.name}' object does not support item assignment", node, fr)
            elif o.kind == "ext":
                st.heap[oid] = o.but(f=o.f.but(deps=o.f.deps | vf.deps, ord=join_ord(o.f.ord, vf.ord),
                                               facts=o.f.facts | vf.facts))

    def store_ord(self, o, idx, vf, node, fr, st, aug, delta):
        """Order behaviour of an array after storing a value at an index."""
        if not isinstance(idx, AV):
            return join_ord(o.f.ord, vf.ord), None
        fi = self.eff(idx, st)
        cur, v, i = o.f.ord, vf.ord, fi.ord
        if fi.ax and v not in ("X", "U"):
            v = models.own_ord(vf, {l for l, _ in fi.ax})[0] if vf.ax else v
        if "X" in (cur, v, i):
            return "X", vf.wit or fi.wit or o.f.wit
        if "U" in (cur, v, i):
            return "U", None
        if aug and delta is not None and i == "E":
            d = self.eff(delta, st).ord
            return ("P", None) if d in ("I", "E") and cur in ("I", "P") else ("U", None)
        if i == "M":
            return ("E", None) if cur in ("I", "E") and v in ("I", "P") else ("U", None)
        if i == "E":
            return "U", None
        if i == "P":
            if v == "E" and fi.idx is not None:
                return ("E", None) if cur in ("I", "E") else ("U", None)
            if v == "E":
                return "U", None
            if cur == "E":
                if fi.idx is not None:
                    return ("P" if v == "P" else "U"), None
                return "U", None
            return ("P" if (v == "P" or cur == "P") else "I"), None
        # invariant index: one position
        if cur == "E" or v == "E":
            return "U", None
        if idx.has("slice"):
            return ("P" if "P" in (cur, v) else "P"), None
        return "P", None

    def mutate(self, av, how, node, st, fr):
        for oid, o in self.objs(av, st):
            if o.kind in ("array", "sample", "list", "set", "gen", "dict"):
                for r in o.roots | {oid}:
                    self.events.append(("mutate", (r, how), *self.site(node, fr)))

    def x_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value, st, fr)
                self.eval_index(t.slice, st, fr)
                self.mutate(b, "del of an item", s, st, fr)
                for oid, o in self.objs(b, st):
                    if o.kind in ("list", "array", "sample"):
                        st.heap[oid] = o.but(elems=None, elem=self.elem_of(b, st))
            elif isinstance(t, ast.Name):
                o = st.heap[fr.env]
                attrs = dict(o.attrs)
                attrs.pop(self.mangle(t.id, fr), None)
                st.heap[fr.env] = o.but(attrs=attrs)
        return st

    def x_Assert(self, s, st, fr):
        v = self.eval(s.test, st, fr)
        t = self.truth(v, st)
        if t is False:
            self.do_raise(AV(frozenset({("x", "builtins.AssertionError")})), st, s, fr)
            return None
        return self.refine(s.test, True, st, fr) or st

    def x_Raise(self, s, st, fr):
        v = self.eval(s.exc, st, fr) if s.exc is not None else (self.handling[-1] if self.handling else unk())
        if s.cause is not None:
            self.eval(s.cause, st, fr)
        self.do_raise(v, st, s, fr)
        return None

    def do_raise(self, v, st, node, fr):
        self.raise_stack[-1].append((v, st.copy(), self.site(node, fr)))

    # -- branching
    def x_If(self, s, st, fr):
        c = self.eval(s.test, st, fr)
        t = self.truth(c, st)
        if t is True:
            st = self.refine(s.test, True, st, fr) or st
            return self.exec_block(s.body, st, fr)
        if t is False:
            st = self.refine(s.test, False, st, fr) or st
            return self.exec_block(s.orelse, st, fr)
        self.forks += 1
        if self.post is not None:
            self.post.cond(c, st, self.site(s, fr))
        cf = self.eff(c, st)
        cond = (cf.deps, cf.ord, cf.ax)
        s1 = self.refine(s.test, True, st.copy(), fr)
        s2 = self.refine(s.test, False, st, fr)
        pc0 = st.pc
        npc = (pc0[0] | cond[0], join_ord(pc0[1], cond[1]) if cond[1] in ("X", "U") else pc0[1])
        n0 = len(fr.returns)
        r1 = r2 = None
        if s1 is not None:
            s1.pc = npc
            r1 = self.exec_block(s.body, s1, fr)
        n1 = len(fr.returns)
        if s2 is not None:
            s2.pc = npc
            r2 = self.exec_block(s.orelse, s2, fr)
        n2 = len(fr.returns)
        returned = n2 > n0
        if r1 is None and r2 is None:
            return None
        if r1 is None or r2 is None:
            r = r1 if r1 is not None else r2
            if not returned:
                r.pc = pc0 if not fr.loops else pc0
            return r
        r = self.join_branch(r1, r2, cond, fr)
        if not returned:
            r.pc = pc0
        return r

    def join_branch(self, a, b, cond, fr):
        deps, o, ax = cond
        j = join_state(a, b)
        if not deps and o == "I":
            return j
        for k in j.heap:
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None or y is None or x is y:
                continue
            if x.same(y):
                continue
            z = j.heap[k]
            if z.kind == "env" or z.kind == "inst":
                attrs = dict(z.attrs)
                for n in attrs:
                    v1, v2 = x.attrs.get(n), y.attrs.get(n)
                    if v1 is not None and v2 is not None and v1 == v2:
                        continue
                    v = attrs[n]
                    attrs[n] = AV(v.atoms, under(v.f, deps, o, ax))
                j.heap[k] = z.but(attrs=attrs)
            elif z.kind in ("array", "list", "set", "dict", "ext"):
                j.heap[k] = z.but(f=under(z.f, deps, o, ax, True))
        return j

    def x_While(self, s, st, fr):
        if self.known_run and not s.orelse:
            r = self.while_known(s, st, fr)
            if r is not False:
                return r
        f = _as_range(s)
        if f is not None and fr.class_ns is None:
            v = self.peek(f.target, st, fr)
            if v is not None and (v.f.py or v.const()[0]) and not self.objs(v, st):
                return self.x_For(f, st, fr)
        return self.loop(s, st, fr, None, None)

    def x_For(self, s, st, fr):
        it = self.eval(s.iter, st, fr)
        known = self.known_elems(it, st, s.iter)
        if known is not None and len(known) <= MAX_UNROLL and not (self.summary_depth and len(known) > 16):
            return self.unrolled(s, known, st, fr)
        return self.loop(s, st, fr, it, s.target)

    def while_known(self, s, st, fr):
        """A loop whose condition is known at every turn; False when it is not (nothing was executed then)."""
        lc = LoopCtx()
        fr.loops.append(lc)
        ctx0 = fr.ctx
        try:
            for k in range(200):
                fr.ctx = ctx0 + (("it", id(s), k),)
                t = self.truth(self.eval(s.test, st, fr), st)
                if t is None:
                    if k == 0:
                        return False
                    fr.ctx = ctx0
                    r = self.loop(s, st, fr, None, None)
                    for b in lc.breaks:
                        r = join_state(r, b)
                    return r
                if t is False:
                    break
                lc.conts = []
                st = self.exec_block(s.body, st, fr)
                for c in lc.conts:
                    st = join_state(st, c)
                if st is None:
                    break
        finally:
            fr.loops.pop()
            fr.ctx = ctx0
        for b in lc.breaks:
            st = join_state(st, b)
        return st

    def unrolled(self, s, known, st, fr):
        lc = LoopCtx()
        fr.loops.append(lc)
        ctx0 = fr.ctx
        try:
            for k, e in enumerate(known):
                if st is None:
                    break
                fr.ctx = ctx0 + (("it", id(s), k),)
                self.assign(s.target, e, st, fr)
                lc.conts = []
                st = self.exec_block(s.body, st, fr)
                for c in lc.conts:
                    st = join_state(st, c)
        finally:
            fr.loops.pop()
            fr.ctx = ctx0
        if st is not None and s.orelse:
            st = self.exec_block(s.orelse, st, fr)
        for b in lc.breaks:
            st = join_state(st, b)
        return st

    def loop(self, s, st, fr, it, target):
        """Summary execution of a loop: iterate the body to a fixpoint from the loop entry."""
        self.forks += 1
        lid = (id(s), len(fr.ctx))
        accs = _accumulators(s)
        lc = LoopCtx()
        fr.loops.append(lc)
        self.lids.append(lid)
        self.summary_depth += 1
        st = self.counters(s, st, fr, lid, it)
        entry = st.copy()
        pc0 = entry.pc
        head = st
        exits = []
        wide = 0
        itf = self.eff(it, st) if it is not None else None
        n_ret = len(fr.returns)
        turns = frozenset()   # what the number of turns, and which of them are complete, depends on
        try:
            while True:
                wide += 1
                self.tick()
                lc.breaks, lc.conts = [], []
                exits = []
                del fr.returns[n_ret:]
                cur = head.copy()
                if it is None:
                    c = self.eval(s.test, cur, fr)
                    t = self.truth(c, cur)
                    cf = self.eff(c, cur)
                    turns |= cf.deps
                    if self.post is not None and t is None:
                        self.post.cond(c, cur, self.site(s, fr))
                    if t is not True:
                        e = self.refine(s.test, False, cur.copy(), fr)
                        if e is not None:
                            exits.append(e)
                    if t is False:
                        break
                    cur = self.refine(s.test, True, cur, fr)
                    if cur is None:
                        break
                    cur.pc = (cur.pc[0] | cf.deps, cur.pc[1])
                else:
                    exits.append(head)
                    el = self.loop_elem(it, cur, lid, s, fr, _paired(s))
                    self.assign(target, el, cur, fr)
                body = self.exec_block(s.body, cur, fr)
                for c in lc.conts:
                    body = join_state(body, c)
                for c in lc.conts + lc.breaks:
                    turns |= c.pc[0] - pc0[0]
                if body is None:
                    break
                nxt = join_state(head, body)
                nxt.pc = pc0
                if wide >= 3:
                    nxt = self.widen(head, nxt)
                if same_state(head, nxt) or wide > 9:
                    head = nxt
                    if it is not None:
                        exits = [nxt]
                    break
                head = nxt
        finally:
            self.summary_depth -= 1
            self.lids.pop()
            fr.loops.pop()
        out = None
        for e in exits:
            out = join_state(out, e)
        if out is not None:
            out = out.copy()
            self.reduce_after(out, entry, fr, accs, lid, s)
            if self.post is not None and not lc.breaks and it is not None:
                self.post.after_loop(s, it, entry, out, fr)
            if s.orelse:
                out = self.exec_block(s.orelse, out, fr)
        for b in lc.breaks:
            b = b.copy()
            self.reduce_after(b, entry, fr, accs, lid, s, broke=True)
            out = join_state(out, b)
        if out is not None:
            out.pc = pc0 if len(fr.returns) == n_ret else out.pc
            if turns:
                self.depend(out, entry, fr, turns)
        return out

    def depend(self, out, entry, fr, deps):
        """What a loop has changed depends on what its turns depend on."""
        for k, o in list(out.heap.items()):
            was = entry.heap.get(k)
            if was is o:
                continue
            if o.kind in ("env", "inst"):
                old = was.attrs if was is not None else {}
                attrs = {n: v if old.get(n) == v else v.plus(deps=deps) for n, v in o.attrs.items()}
                if attrs != o.attrs:
                    out.heap[k] = o.but(attrs=attrs)
            elif o.kind in ("array", "list", "set", "dict", "gen") and (was is None or not was.same(o)):
                out.heap[k] = o.but(f=o.f.but(deps=o.f.deps | deps))

    def widen(self, a, b):
        for k in list(b.heap):
            x, y = a.heap.get(k), b.heap[k]
            if x is None or x is y or x.same(y):
                continue
            if y.kind in ("env", "inst", "dict"):
                attrs = dict(y.attrs)
                for n, v in attrs.items():
                    w = x.attrs.get(n)
                    if w is not None and w != v:
                        attrs[n] = widen_av(w, v)
                b.heap[k] = y.but(attrs=attrs)
            if y.f.iv != x.f.iv:
                b.heap[k] = b.heap[k].but(f=b.heap[k].f.but(iv=widen_iv(x.f.iv, y.f.iv)))
            if y.elem is not None and x.elem is not None and x.elem != y.elem:
                b.heap[k] = b.heap[k].but(elem=widen_av(x.elem, y.elem))
        return b

    def counters(self, s, st, fr, lid, it):
        """Loop counters kept by hand: positions, like the variable of a range."""
        o = st.heap.get(fr.env)
        if o is None:
            return st
        todo = {}
        for name, last, simple, bound in _counters(s):
            v = o.attrs.get(name)
            if v is None:
                continue
            ok, c = v.const()
            if not ok or isinstance(c, bool) or not isinstance(c, int):
                if not (v.atoms == {NUM} and v.f.ord == "I"):
                    continue
                c = None
            whole = False
            if c == 0 and last and simple:
                if it is not None:
                    whole = models.is_full(self, it, st)
                elif bound is not None:
                    b = self.quiet_eval(bound, st, fr)
                    whole = b is not None and b.f.term == models.N_SYM
            lo = c if c is not None else -INF
            todo[name] = num(Facets(deps=v.f.deps, ord="P", rank=0, idx=lid if whole else None, iv=(lo, INF, False), py=True,
                                    facts=frozenset() if whole else frozenset({("pair",)}), ax=frozenset({(lid, "P")})))
        if todo:
            st = st.copy()
            attrs = dict(o.attrs)
            attrs.update(todo)
            st.heap[fr.env] = o.but(attrs=attrs)
        return st

    def reduce_after(self, out, entry, fr, accs, lid, s, broke=False):
        """What the values made in a loop are once the loop is over."""
        o = out.heap.get(fr.env)
        if o is None:
            return
        attrs = dict(o.attrs)
        e0 = entry.heap[fr.env].attrs
        for n, v in attrs.items():
            if e0.get(n) == v and not any(l == lid for l, _ in v.f.ax):
                continue
            if v.f.idx == lid:
                v = v.but(idx=None)
                attrs[n] = v
            if self.objs(v, out) and not v.atoms - {a for a in v.atoms if a[0] == "r"}:
                continue
            was = e0[n].f.ord if n in e0 else "I"
            if was == "X" and v.f.ord == "X" and n in e0 and e0[n].f.rank == 0:
                # started from one element and updated along the others
                attrs[n] = v.but(ord="U", ax=NO_AX, wit=None)
                continue
            own, rest = ax_get(v.f.ax, {lid})
            if own is None:
                continue
            no = ax_sum(rest)
            if v.f.ord in ("X", "U"):
                no = v.f.ord
            elif n in accs:
                if broke and own != "I":
                    no = "U"
            elif own not in ("I", "P") or broke:
                no = "U"
            attrs[n] = v.but(ord=no, ax=rest, facts=v.f.facts - {("pair",)})
        out.heap[fr.env] = o.but(attrs=attrs)
        for k, ob in list(out.heap.items()):
            if ob.kind in ("array", "list", "set", "gen", "dict") and any(l == lid for l, _ in ob.f.ax):
                own, rest = ax_get(ob.f.ax, {lid})
                no = ob.f.ord
                if no not in ("X", "U") and own != "I":
                    if k not in entry.heap or own in ("X", "U"):
                        no = own if own == "X" else "U"
                    elif no in ("I", own):
                        no = own
                    else:
                        no = "U"
                out.heap[k] = ob.but(f=ob.f.but(ord=no, ax=rest))

    def loop_elem(self, it, st, lid, node, fr, pairs=False):
        """The value a loop variable takes in one arbitrary iteration."""
        f = self.eff(it, st)
        obs = self.objs(it, st)
        ranges = [o for _, o in obs if o.kind == "range"]
        if ranges and all(a[0] == "r" for a in it.atoms):
            full = all(o.extra == "full" for o in ranges)
            iv = ranges[0].f.iv
            for o in ranges[1:]:
                iv = (min(iv[0], o.f.iv[0]), max(iv[1], o.f.iv[1]), False)
            facts = f.facts & {("pair",)}
            if pairs and not full:
                facts |= {("pair",)}
            own = f.ord if f.ord in ("X", "U") else "P"
            ax = ax_merge(frozenset({(lid, own)}), f.ax, join_ord)
            return num(Facets(deps=f.deps, ord=own, rank=0, idx=lid if full else None, iv=iv, facts=facts, ax=ax))
        o = f.ord
        en = [ob for _, ob in obs if ob.kind == "enumerate"]
        if en:
            inner = en[0].extra
            x = self.loop_elem(inner, st, lid, node, fr)
            xf = self.eff(inner, st)
            start0 = en[0].elems is None
            whole = xf.ord in ("E", "M", "R") or any(models.is_full(self, inner, st) for _ in (0,))
            i = num(Facets(ord="P", rank=0, idx=lid if start0 and whole else None, iv=(0, INF, False), ax=frozenset({(lid, "P")}),
                           facts=frozenset() if whole else frozenset({("pair",)})))
            return AV(frozenset({("t", (i, x))}), Facets(deps=xf.deps))
        zp = [ob for _, ob in obs if ob.kind == "zip"]
        if zp:
            xs = tuple(self.loop_elem(x, st, lid, node, fr) for x in zp[0].extra)
            return AV(frozenset({("t", xs)}), Facets(deps=f.deps))
        e = self.elem_of(it, st)
        ax = ax_merge(frozenset({(lid, o)}) if o != "I" else NO_AX, f.ax, join_ord)
        if e.of("t") and len(e.atoms) == 1:
            return models.lift_elem(e, frozenset({(lid, o)}), o)
        rank = e.f.rank if e.f.rank is not None else 0
        if rank == 0:
            eo = e.f.ord
            own = o if eo == "I" or eo == o else join_ord(eo, o)
            if own in ("E", "P", "M", "R", "I"):
                ax = ax_merge(frozenset({(lid, own)}) if own != "I" else NO_AX, f.ax, join_ord)
                own = ax_sum(ax)
            return AV(e.atoms, e.f.but(ord=own, deps=e.f.deps | f.deps, rank=0, idx=None, ax=ax, wit=e.f.wit or f.wit))
        return AV(e.atoms, e.f.but(ord=join_ord(e.f.ord, o) if e.f.ord != o else o, deps=e.f.deps | f.deps,
                                   rank=rank, idx=None))

    def x_Break(self, s, st, fr):
        if fr.loops:
            fr.loops[-1].breaks.append(st)
        return None

    def x_Continue(self, s, st, fr):
        if fr.loops:
            fr.loops[-1].conts.append(st)
        return None

    def x_With(self, s, st, fr):
        return self.with_items(s, 0, st, fr)

    x_AsyncWith = x_With

    def with_items(self, s, i, st, fr):
        if i == len(s.items):
            return self.exec_block(s.body, st, fr)
        it = s.items[i]
        v = self.eval(it.context_expr, st, fr)
        ent = v
        for oid, o in self.objs(v, st):
            if o.kind == "ctxgen" and len(v.atoms) == 1:
                return self.with_gen(s, i, o.extra, st, fr)
            if o.kind == "inst":
                c, m = o.cls.lookup("__enter__")
                if m is not None:
                    ent = self.call(self.bind(m, v, c, o.cls), [], {}, st, fr, it.context_expr)
            elif o.kind == "ext":
                r = self.run_hooks("enter", v, st, fr, s, o)
                if r is not None:
                    ent = r
        if it.optional_vars is not None:
            self.assign(it.optional_vars, ent, st, fr)
        n0 = len(fr.returns)
        loop = fr.loops[-1] if fr.loops else None
        b0 = (len(loop.breaks), len(loop.conts)) if loop else (0, 0)
        scoped = any(o.kind == "ext" and o.extra == "warnings.catch_warnings" for _, o in self.objs(v, st))
        self.warn_scope += scoped
        try:
            out = self.with_items(s, i + 1, st, fr)
        finally:
            self.warn_scope -= scoped
        left = [x for _, x in fr.returns[n0:]]
        if loop:
            left += loop.breaks[b0[0]:] + loop.conts[b0[1]:]
        if out is not None:
            left.append(out)
        for x in list(left):
            try:
                self.run_exit(v, x, fr, s)
            except Dead:
                left.remove(x)
                out = None if x is out else out
                fr.returns[n0:] = [r for r in fr.returns[n0:] if r[1] is not x]
                if loop:
                    loop.breaks[b0[0]:] = [b for b in loop.breaks[b0[0]:] if b is not x]
                    loop.conts[b0[1]:] = [b for b in loop.conts[b0[1]:] if b is not x]
                if not left:
                    return None
        if self.known_run and not left:
            self.run_exit(v, st, fr, s, "exit-raise")
        return out

    def with_gen(self, s, i, gen, st, fr):
        """A generator-based context manager: its body runs with the with-body in place of its yield."""
        f, args, kwargs, star, kwstar = gen
        pend = []

        def on_yield(yv, st2):
            if s.items[i].optional_vars is not None:
                self.assign(s.items[i].optional_vars, yv, st2, fr)
            n0 = len(fr.returns)
            loop = fr.loops[-1] if fr.loops else None
            b0 = (len(loop.breaks), len(loop.conts)) if loop else (0, 0)
            out = self.with_items(s, i + 1, st2.copy(), fr)
            rets = fr.returns[n0:]
            brk, cnt = (loop.breaks[b0[0]:], loop.conts[b0[1]:]) if loop else ([], [])
            del fr.returns[n0:]
            if loop:
                del loop.breaks[b0[0]:], loop.conts[b0[1]:]
            j = out
            for x in [x for _, x in rets] + brk + cnt:
                j = join_state(j, x)
            if j is None:
                raise Dead()
            st2.heap, st2.must, st2.may, st2.pc = j.heap, j.must, j.may, j.pc
            pend.append((out is not None, [v for v, _ in rets], bool(brk), bool(cnt)))

        self.next_yield = (f, on_yield)
        try:
            self.call_func(f, args, kwargs, st, fr, s.items[i].context_expr, star, kwstar)
        finally:
            self.next_yield = None
        through = not pend
        for fell, rets, brk, cnt in pend:
            through = through or fell
            for v in rets:
                fr.returns.append((v, st.copy()))
            if brk:
                fr.loops[-1].breaks.append(st.copy())
            if cnt:
                fr.loops[-1].conts.append(st.copy())
        return st if through else None

    def run_exit(self, v, st, fr, s, what="exit"):
        for oid, o in self.objs(v, st):
            if o.kind == "ext":
                self.run_hooks(what, v, st, fr, s, o)
            elif o.kind == "inst":
                c, m = o.cls.lookup("__exit__")
                if m is not None:
                    a = [NONE] * 3 if what == "exit" else [unk()] * 3
                    try:
                        self.call(self.bind(m, v, c, o.cls), a, {}, st, fr, s)
                    except Dead:
                        pass

    def run_hooks(self, what, v, st, fr, node, o):
        for h in self.hooks:
            r = h(self, what, o.extra, v, [], {}, st, fr, node)
            if r is not None:
                return r
        return None

    def x_Try(self, s, st, fr):
        k0 = len(self.raise_stack[-1])
        self.raise_stack.append([])
        snaps = []
        cur = st
        n0 = len(fr.returns)
        may_raise = False
        entry = st.copy()
        for x in s.body:
            if cur is None:
                break
            if _may_raise(x):
                may_raise = True
                snaps.append(cur.copy())
            try:
                cur = self.exec_stmt(x, cur, fr)
            except Dead:
                cur = None
            if cur is not None and _may_raise(x):
                snaps.append(cur.copy())
        raised = self.raise_stack.pop()
        body_returns = fr.returns[n0:]
        out = cur
        if cur is not None and s.orelse:
            out = self.exec_block(s.orelse, cur, fr)
        for rv, rst in body_returns:
            if may_raise:
                snaps.append(rst.copy())
        unhandled = list(raised)
        for h in s.handlers:
            hs = None
            excv = None
            caught = []
            for r in unhandled:
                if self.catches(h, r[0], st, fr, r[1]):
                    hs = join_state(hs, r[1])
                    excv = join(excv, r[0])
                    caught.append(r)
            if may_raise and not self.exact_raises:
                for sn in snaps:
                    hs = join_state(hs, sn)
                excv = join(excv, unk())
            unhandled = [r for r in unhandled if r not in caught or not self.catches_surely(h, r[0], st, fr)]
            if hs is None:
                continue
            hs = hs.copy()
            if h.name:
                self.assign_name(h.name, (excv or unk()).plus(facts=frozenset({("exc",)})), hs, fr, h)
            self.handling.append(excv or unk())
            try:
                r = self.exec_block(h.body, hs, fr)
            finally:
                self.handling.pop()
            if r is not None:
                out = join_state(out, r)
        for r in unhandled:
            self.raise_stack[-1].append(r)
        if s.finalbody:
            if out is not None:
                out = self.exec_block(s.finalbody, out, fr)
            for i in range(n0, len(fr.returns)):
                rv, rst = fr.returns[i]
                self.exec_block(s.finalbody, rst, fr)
            if out is None and len(fr.returns) == n0:
                left = None
                for r in self.raise_stack[-1][k0:]:
                    left = join_state(left, r[1])
                n1 = len(fr.returns)
                left = left.copy() if left is not None else entry
                left = self.exec_block(s.finalbody, left, fr)
                if len(fr.returns) > n1:
                    del self.raise_stack[-1][k0:]
        return out

    x_TryStar = x_Try

    def exc_names(self, v):
        out = set()
        for a in v.atoms:
            if a[0] == "x":
                out.add(a[1].rsplit(".", 1)[-1])
            elif a[0] == "r":
                out.add("?obj")
            elif a[0] == "k":
                out.add(a[1].name)
            else:
                out.add("?")
        return out

    def exc_class_names(self, v, st):
        """Names of the classes of an exception value."""
        out = set()
        for a in v.atoms:
            o = st.heap.get(a[1]) if a[0] == "r" else None
            if o is not None and o.kind == "ext" and isinstance(o.extra, str):
                out.add(o.extra.rsplit(".", 1)[-1])
            elif o is not None and o.cls is not None:
                ext = [x.rsplit(".", 1)[-1] for k in o.cls.mro for x in k.ext_bases]
                out |= {"?obj"} if not ext else {k.name for k in o.cls.mro} | set(ext)
            else:
                out |= self.exc_names(AV(frozenset({a})))
        return out

    def catches(self, h, v, st, fr, rst=None):
        if h.type is None:
            return True
        hv = self.eval(h.type, st, fr)
        names = set()
        for a in hv.atoms:
            if a[0] == "t":
                for x in a[1]:
                    names |= self.exc_names(x)
            else:
                names |= self.exc_names(AV(frozenset({a})))
        if names & {"Exception", "BaseException"}:
            return True
        en = {f[1] for f in v.f.facts if f[0] == "exc-class"} or self.exc_class_names(v, rst or st)
        if not en or "?" in en or "?obj" in en:
            return True
        return any(exc_supers(n) & names for n in en)

    def catches_surely(self, h, v, st, fr):
        return True

    def x_Match(self, s, st, fr):
        subj = self.eval(s.subject, st, fr)
        out = None
        cur = st
        for case in s.cases:
            if cur is None:
                break
            b = cur.copy()
            res, b = self.match(case.pattern, subj, b, fr)
            if res is False or b is None:
                continue
            if case.guard is not None:
                g = self.truth(self.eval(case.guard, b, fr), b)
                if g is False:
                    continue
                if g is None:
                    res = None
            r = self.exec_block(case.body, b, fr)
            if r is not None:
                out = join_state(out, r)
            if res is True:
                cur = None
        if cur is not None:
            out = join_state(out, cur)
        return out

    def match(self, p, subj, st, fr):
        if isinstance(p, ast.MatchAs):
            res = True
            if p.pattern is not None:
                res, st = self.match(p.pattern, subj, st, fr)
            if p.name and st is not None:
                self.assign_name(p.name, subj, st, fr, p)
            return res, st
        if isinstance(p, (ast.MatchValue, ast.MatchSingleton)):
            v = self.eval(p.value, st, fr) if isinstance(p, ast.MatchValue) else const(p.value)
            t = self.truth(self.compare("Eq", subj, v, p, st, fr), st)
            return t, st
        if isinstance(p, ast.MatchOr):
            any_none = False
            for q in p.patterns:
                r, _ = self.match(q, subj, st.copy(), fr)
                if r is True:
                    return True, st
                if r is None:
                    any_none = True
            return (None if any_none else False), st
        return None, st

    # ------------------------------------------------------------------ truth and refinement
    def truth(self, v, st):
        res = set()
        for a in v.atoms:
            t = self.truth_atom(a, v, st)
            res.add(t)
        if res == {True}:
            return True
        if res == {False}:
            return False
        return None

    def truth_atom(self, a, v, st):
        k = a[0]
        if k == "c":
            x = a[1].v
            if isinstance(x, OrdVal):
                return None
            if isinstance(x, EnumMember):
                return True
            try:
                return bool(x)
            except Exception:
                return None
        if k == "n":
            lo, hi, _ = v.f.iv
            if lo > 0 or hi < 0:
                return True
            return None
        if k in ("f", "b", "k", "m"):
            return True
        if k == "t":
            return len(a[1]) > 0
        if k == "r":
            o = st.heap.get(a[1])
            if o is None:
                return None
            if o.kind in ("inst",):
                return True if not o.cls.opaque() else (True if o.extra == "model" else None)
            if o.kind in ("list", "set") and o.elems is not None:
                return len(o.elems) > 0
            if o.kind == "dict" and o.elem is None and o.attrs:
                return True
            if o.kind == "dict" and o.elem is None and o.extra == "closed":
                return bool(o.attrs)
            return None
        if k == "x" and a[1] in ("builtins.None",):
            return False
        return None

    def refine(self, test, want, st, fr):
        """Narrow names of the environment by a branch condition; None when it cannot hold."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not want, st, fr)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == want:
                for v in test.values:
                    st = self.refine(v, want, st, fr)
                    if st is None:
                        return None
            return st
        if isinstance(test, ast.Name):
            v = self.peek(test, st, fr)
            if v is not None:
                keep = frozenset(a for a in v.atoms if self.truth_atom(a, v, st) in (want, None))
                if not keep:
                    return None
                if keep != v.atoms:
                    self.poke(test, AV(keep, v.f), st, fr)
            o = st.heap.get(fr.env)
            c = o.attrs.get(test.id + "?") if o is not None else None
            if c is not None and c.const()[0] and c.const()[1] in self.conditions:
                return self.refine(self.conditions[c.const()[1]], want, st, fr)
            return st
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            left, right = test.left, test.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                pos = isinstance(op, (ast.Is, ast.Eq)) == want
                for n, other in ((left, right), (right, left)):
                    v = self.peek(n, st, fr)
                    if v is None:
                        continue
                    o = self.quiet_eval(other, st, fr)
                    if o is None:
                        continue
                    ok, cv = o.const()
                    if not ok:
                        continue
                    is_op = isinstance(op, (ast.Is, ast.IsNot))
                    keep = set()
                    for a in v.atoms:
                        if a[0] == "c":
                            eq = (a[1].v is cv) if (cv is None or isinstance(cv, bool)) else _safe_eq(a[1].v, cv)
                            if eq is None or eq == pos:
                                keep.add(a)
                        elif cv is None and a[0] not in ("u",):
                            if a[0] == "r" and st.heap.get(a[1]) is not None and st.heap[a[1]].kind == "ext":
                                keep.add(a)
                            elif not pos:
                                keep.add(a)
                        elif cv is None and a[0] == "u" and pos and is_op:
                            keep.add(("c", C(None)))
                        else:
                            keep.add(a)
                    if not keep:
                        return None
                    if keep != v.atoms:
                        self.poke(n, AV(frozenset(keep), v.f), st, fr)
            elif isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                st = self.refine_iv(type(op).__name__, left, right, want, st, fr)
            return st
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2:
            v = self.peek(test.args[0], st, fr)
            if v is None:
                return st
            t = self.quiet_eval(test.args[1], st, fr)
            if t is None:
                return st
            keep = set()
            for a in v.atoms:
                r = self.isinstance_atom(a, t, st)
                if r is None or r == want:
                    keep.add(a)
            if not keep:
                return None
            if keep != v.atoms:
                self.poke(test.args[0], AV(frozenset(keep), v.f), st, fr)
        return st

    def isinstance_atom(self, a, t, st, f=None):
        return models.isinstance_atom(self, a, t, st, f)

    def refine_iv(self, op, left, right, want, st, fr):
        neg = {"Lt": "GtE", "LtE": "Gt", "Gt": "LtE", "GtE": "Lt"}
        flip = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}
        if not want:
            op = neg[op]
        for n, other, o in ((left, right, op), (right, left, flip[op])):
            v = self.peek(n, st, fr)
            if v is None or self.objs(v, st):
                continue
            ov = self.quiet_eval(other, st, fr)
            if ov is None:
                continue
            lo, hi, t = v.f.iv
            olo, ohi, _ = ov.f.iv
            isint = ("int",) in v.f.facts
            if o in ("Lt", "LtE"):
                hi2 = min(hi, ohi - 1 if (o == "Lt" and isint) else ohi)
                if hi2 < lo:
                    return None
                if hi2 != hi:
                    self.poke(n, v.but(iv=(lo, hi2, t)), st, fr)
            else:
                lo2 = max(lo, olo + 1 if (o == "Gt" and isint) else olo)
                if lo2 > hi:
                    return None
                if lo2 != lo:
                    self.poke(n, v.but(iv=(lo2, hi, t)), st, fr)
        return st

    def quiet_eval(self, node, st, fr):
        if not isinstance(node, (ast.Name, ast.Constant, ast.Attribute, ast.UnaryOp)):
            return None
        self.quiet += 1
        try:
            return self.eval(node, st, fr)
        except Dead:
            return None
        finally:
            self.quiet -= 1

    def peek(self, node, st, fr):
        if isinstance(node, ast.Name) and fr.class_ns is None:
            n = self.mangle(node.id, fr)
            o = st.heap.get(fr.env)
            if o is not None and n in o.attrs and ("missing",) not in o.attrs[n].atoms:
                return o.attrs[n]
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
            b = self.peek(node.value, st, fr)
            if b is not None and b.single() and b.single()[0] == "r":
                o = st.heap.get(b.single()[1])
                if o is not None and o.kind == "inst":
                    return o.attrs.get(self.mangle(node.attr, fr))
        if isinstance(node, ast.NamedExpr):
            return self.peek(node.target, st, fr)
        return None

    def poke(self, node, av, st, fr):
        if isinstance(node, ast.Name):
            self.set_env(fr.env, self.mangle(node.id, fr), av, st)
        elif isinstance(node, ast.NamedExpr):
            self.poke(node.target, av, st, fr)
        elif isinstance(node, ast.Attribute):
            b = self.peek(node.value, st, fr)
            oid = b.single()[1]
            o = st.heap[oid]
            st.heap[oid] = o.but(attrs={**o.attrs, self.mangle(node.attr, fr): av})

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st, fr):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unsupported[type(e).__name__] = self.unsupported.get(type(e).__name__, 0) + 1
            return unk()
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        if isinstance(e.value, bytes):
            return AV(frozenset({("c", C(e.value))}), Facets(rank=0))
        return const(e.value)

    def e_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr, e)

    def e_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_JoinedStr(self, e, st, fr):
        parts, deps, ok = [], frozenset(), True
        facts = frozenset()
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                x = self.eval(v.value, st, fr)
                deps |= self.eff_deps(x, st)
                facts |= self.eff_facts(x, st)
                c, val = x.const()
                if c and isinstance(val, (str, int, float)) and v.format_spec is None and v.conversion in (-1, 115):
                    parts.append(str(val))
                elif c and isinstance(val, EnumMember) and v.format_spec is None:
                    parts.append(str(val))
                elif c and isinstance(val, (str, int, float)) and v.conversion in _CONVERSIONS:
                    spec = ""
                    if v.format_spec is not None:
                        k, spec = self.eval(v.format_spec, st, fr).const()
                        c = k and isinstance(spec, str)
                    try:
                        parts.append(format(_CONVERSIONS[v.conversion](val), spec)) if c else None
                    except ValueError:
                        c = False
                    ok = ok and c
                else:
                    ok = False
        f = Facets(deps=deps, facts=facts, rank=0)
        if ok:
            return AV(frozenset({("c", C("".join(parts)))}), f)
        return string(f)

    def e_Tuple(self, e, st, fr):
        elems = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, fr)
                k = self.known_elems(v, st)
                if k is None:
                    f = self.eff(v, st)
                    return self.new("list", e, fr, st, f=f, elem=self.elem_of(v, st))
                elems.extend(k)
            else:
                elems.append(self.eval(x, st, fr))
        o = "I"
        return AV(frozenset({("t", tuple(elems))}), Facets(ord=o, rank=1))

    def e_List(self, e, st, fr):
        elems, summary, f = [], None, Facets(rank=1)
        unkn = False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, fr)
                k = self.known_elems(v, st)
                if k is None:
                    unkn = True
                    summary = join(summary, self.elem_of(v, st))
                    f = join_facets(f, self.eff(v, st).but(rank=1))
                else:
                    elems.extend(k)
            else:
                elems.append(self.eval(x, st, fr))
        o = self.seq_ord(elems, st)
        for x in elems:
            xf = self.eff(x, st)
            f = f.but(deps=f.deps | xf.deps, facts=f.facts | xf.facts, wit=f.wit or xf.wit)
        f = f.but(ord=join_ord(f.ord, o) if unkn else o, rank=1)
        for x in elems:
            f = f.but(iv=x.f.iv if f.iv == TOP_IV and x is elems[0] else (min(f.iv[0], x.f.iv[0]), max(f.iv[1], x.f.iv[1]), False))
        if unkn:
            for x in elems:
                summary = join(summary, x)
            return self.new("list", e, fr, st, f=f, elem=summary)
        return self.new("list", e, fr, st, f=f, elems=tuple(elems))

    def seq_ord(self, elems, st):
        """A literal sequence: its elements sit at fixed positions."""
        o = "I"
        for x in elems:
            xo = self.eff(x, st).ord
            if xo in ("X", "U"):
                o = join_ord(o, xo)
            elif xo in ("E", "M"):
                o = join_ord(o, xo)
            elif xo == "P":
                o = join_ord(o, "P")
        if o == "I" and len(elems) > 1:
            o = "P"
        return o

    def e_Set(self, e, st, fr):
        elems = [self.eval(x, st, fr) for x in e.elts]
        f = Facets(rank=1)
        for x in elems:
            f = f.but(deps=f.deps | x.f.deps)
        return self.new("set", e, fr, st, f=f, elems=tuple(elems))

    def e_Dict(self, e, st, fr):
        attrs, deps, elem, key = {}, frozenset(), None, None
        for k, v in zip(e.keys, e.values):
            x = self.eval(v, st, fr)
            if k is None:
                merged = False
                for _, o in self.objs(x, st):
                    if o.kind == "dict":
                        attrs.update(o.attrs)
                        elem = join(elem, o.elem) if o.elem is not None else elem
                        merged = True
                if not merged:
                    elem = join(elem, unk(Facets(deps=self.eff_deps(x, st))))
                continue
            kv = self.eval(k, st, fr)
            ok, c = models.key_const(self, kv, st)
            if ok and _hashable(c):
                attrs[C(c)] = x
            else:
                elem = join(elem, x)
                key = join(key, kv)
                deps |= kv.f.deps
        return self.new("dict", e, fr, st, f=Facets(deps=deps), attrs=attrs, elem=elem,
                        extra=key if elem is not None else "closed")

    def e_IfExp(self, e, st, fr):
        c = self.eval(e.test, st, fr)
        t = self.truth(c, st)
        if t is True:
            self.refine(e.test, True, st, fr)
            return self.eval(e.body, st, fr)
        if t is False:
            return self.eval(e.orelse, st, fr)
        self.forks += 1
        if self.post is not None:
            self.post.cond(c, st, self.site(e, fr))
        s1 = self.refine(e.test, True, st.copy(), fr)
        s2 = self.refine(e.test, False, st.copy(), fr)
        a = b = None
        ra = rb = None
        if s1 is not None:
            try:
                a = self.eval(e.body, s1, fr)
                ra = s1
            except Dead:
                pass
        if s2 is not None:
            try:
                b = self.eval(e.orelse, s2, fr)
                rb = s2
            except Dead:
                pass
        if a is None and b is None:
            raise Dead()
        j = join_state(ra, rb)
        st.heap, st.must, st.may = j.heap, j.must, j.may
        if a is None or b is None:
            return a if a is not None else b
        cf = self.eff(c, st)
        if a == b:
            return a
        v = join(a, b)
        return AV(v.atoms, under(v.f, cf.deps, cf.ord, cf.ax, bool(self.objs(v, st))))

    def e_BoolOp(self, e, st, fr):
        conj = isinstance(e.op, ast.And)
        res = None
        cur = st
        deps, facts, o, ax = frozenset(), frozenset(), "I", NO_AX
        work = st
        for i, x in enumerate(e.values):
            try:
                v = self.eval(x, work, fr)
            except Dead:
                if i == 0:
                    raise
                break
            vf = self.eff(v, work)
            deps |= vf.deps
            facts |= vf.facts
            o = ctl_ord(o, vf.ord)
            ax = ax_merge(ax, vf.ax, ctl_ord)
            t = self.truth(v, work)
            last = i == len(e.values) - 1
            if t is None:
                keep = frozenset(a for a in v.atoms if last or self.truth_atom(a, v, work) in (None, not conj))
                res = join(res, AV(keep or v.atoms, v.f))
                if not last:
                    self.forks += 1
                    if work is st:
                        work = st.copy()
                    w = self.refine(x, conj, work, fr)
                    if w is None:
                        break
                    work = w
            elif t == (not conj):
                res = join(res, v)
                break
            elif last:
                res = join(res, v)
        if work is not st:
            j = join_state(st.copy(), work)
            st.heap = j.heap
        if res is None:
            res = boolean()
        if ax and o not in ("X", "U"):
            o = ax_sum(ax)
        return AV(res.atoms, res.f.but(deps=deps, facts=facts, ord=o, ax=ax))

    def e_UnaryOp(self, e, st, fr):
        v = self.eval(e.operand, st, fr)
        f = self.eff(v, st)
        op = type(e.op).__name__
        if self.op_hook is not None:
            r = self.op_hook(self, op, (v,), e, st, fr)
            if r is not None:
                return r
        if op == "Not":
            self.check_truth(v, e, st, fr)
            t = self.truth(v, st)
            if t is not None:
                return AV(frozenset({("c", C(not t))}), Facets(deps=f.deps, facts=f.facts, rank=0))
            return boolean(Facets(deps=f.deps, ord=f.ord, facts=f.facts, rank=0, ax=f.ax))
        ok, c = v.const()
        if ok and isinstance(c, (int, float)):
            c = -c if op == "USub" else (+c if op == "UAdd" else (~c if isinstance(c, int) else c))
            return const(c).plus(deps=f.deps)
        if self.list_operand(v, st):
            self.issue("type-error", f"bad operand type for unary {op}: 'list'", e, fr,
                       key=f"unary {op} on list in {fr.name}")
            raise Dead()
        lo, hi, t = f.iv
        if self.post is not None:
            nf = f.but(idx=None, term=models.t_neg(f.term) if op == "USub" else None, iv=TOP_IV if op != "USub" else (-hi, -lo, t))
            return self.post.op(self, op, (v,), self.result_like(v, nf, e, st, fr), e, st, fr)
        nf = f.but(idx=None, term=models.t_neg(f.term) if op == "USub" else f.term,
                   iv=(-hi, -lo, t) if op == "USub" else f.iv)
        return self.result_like(v, nf, e, st, fr)

    def list_operand(self, v, st):
        """True when the value is certainly a Python list (not an array)."""
        os_ = self.objs(v, st)
        return bool(os_) and len(os_) == len(v.atoms) and all(o.kind == "list" or (o.kind == "sample" and o.extra == "list") for _, o in os_)

    def array_operand(self, v, st):
        os_ = self.objs(v, st)
        return bool(os_) and len(os_) == len(v.atoms) and all(o.kind == "array" or (o.kind == "sample" and o.extra == "array") for _, o in os_)

    def check_truth(self, v, e, st, fr):
        if self.array_operand(v, st) and all(o.f.rank == 1 and ("maybe-scalar",) not in o.f.facts for _, o in self.objs(v, st)):
            if any(o.kind == "sample" for _, o in self.objs(v, st)):
                self.issue("type-error", "truth value of a sample array is ambiguous", e, fr,
                           key=f"truth value of array in {fr.name}")
                raise Dead()

    def result_like(self, v, f, node, st, fr):
        if self.objs(v, st) and any(o.kind in ("array", "list", "sample", "gen", "range") for _, o in self.objs(v, st)):
            return self.new("array", node, fr, st, f=f.but(rank=f.rank if f.rank else 1))
        return num(f)

    def e_BinOp(self, e, st, fr):
        a = self.eval(e.left, st, fr)
        b = self.eval(e.right, st, fr)
        return self.binop(type(e.op).__name__, a, b, e, st, fr)

    def binop(self, op, a, b, e, st, fr):
        if self.op_hook is not None:
            r = self.op_hook(self, op, (a, b), e, st, fr)
            if r is not None:
                return r
        if self.post is not None:
            ds = self.post.of(a, st), self.post.of(b, st)
            if isinstance(e, ast.BinOp) and op in ("Add", "Sub"):
                self.post.added[id(e.right)], self.post.added[id(e.left)] = (ds[1], e), (ds[0], e)
            return self.post.op(self, op, (a, b), models.binop(self, op, a, b, e, st, fr), e, st, fr, ds)
        return models.binop(self, op, a, b, e, st, fr)

    def e_Compare(self, e, st, fr):
        left = self.eval(e.left, st, fr)
        res = None
        f = Facets(rank=0)
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, st, fr)
            r = self.compare(type(op).__name__, left, right, e, st, fr)
            rf = self.eff(r, st)
            f = f.but(deps=f.deps | rf.deps, ord=comb_ord(f.ord, rf.ord), facts=f.facts | rf.facts,
                      wit=f.wit or rf.wit, rank=rf.rank)
            t = self.truth(r, st)
            if len(e.ops) == 1:
                return r
            if t is False:
                return AV(frozenset({("c", C(False))}), f)
            res = t if res in (None, True) and not (res is None and op is not e.ops[0]) else res
            if t is None:
                res = "?"
            left = right
        if res is True:
            return AV(frozenset({("c", C(True))}), f)
        return boolean(f)

    def compare(self, op, a, b, e, st, fr):
        if self.op_hook is not None:
            r = self.op_hook(self, op, (a, b), e, st, fr)
            if r is not None:
                return r
        if self.post is not None:
            return self.post.op(self, op, (a, b), models.compare(self, op, a, b, e, st, fr), e, st, fr)
        return models.compare(self, op, a, b, e, st, fr)

    def e_Attribute(self, e, st, fr):
        b = self.eval(e.value, st, fr)
        if self.post is not None:
            return self.post.attr(self, e.attr, b, self.getattr(b, self.mangle(e.attr, fr), e, st, fr), st)
        return self.getattr(b, self.mangle(e.attr, fr), e, st, fr)

    def bind(self, v, selfav, defcls, actual_cls):
        """Bind a class attribute found on an instance."""
        out = set()
        for a in v.atoms:
            if a[0] == "f":
                f = a[1]
                if f.kind == "static":
                    out.add(("f", f))
                elif f.kind == "class":
                    out.add(("b", f, AV(frozenset({("k", actual_cls)}))))
                else:
                    out.add(("b", f, selfav))
            else:
                out.add(a)
        return AV(frozenset(out), v.f)

    def getattr(self, b, name, e, st, fr, default=None):
        res = None
        missing = []
        for a in sorted(b.atoms, key=lambda x: str(x[0])):
            r = self.getattr_atom(a, b, name, e, st, fr)
            if r is None:
                missing.append(a)
            else:
                res = join(res, r)
        if missing:
            none_only = all(m[0] == "c" and m[1].v is None for m in missing)
            if default is not None:
                res = join(res, default)
            elif res is None:
                what = self.describe(missing[0], st)
                self.issue("attr-missing", f"{what} has no attribute '{name}'", e, fr,
                           key=f"{what} has no attribute {name}")
                self.do_raise(AV(frozenset({("x", "builtins.AttributeError")})), st, e, fr)
                raise Dead()
            elif not none_only:
                what = self.describe(missing[0], st)
                self.issue("attr-missing", f"{what} has no attribute '{name}' on some path", e, fr,
                           key=f"{what} has no attribute {name}", definite=False)
        return res

    def describe(self, a, st):
        if a[0] == "r":
            o = st.heap.get(a[1])
            if o is not None:
                return f"{o.cls.name} instance" if o.cls is not None else f"{o.kind}"
        if a[0] == "k":
            return f"class {a[1].name}"
        if a[0] == "c":
            return f"{type(a[1].v).__name__}"
        if a[0] == "m":
            return f"module {a[1].name}"
        return a[0]

    def getattr_atom(self, a, b, name, e, st, fr):
        k = a[0]
        if k == "r":
            o = st.heap.get(a[1])
            if o is None:
                return unk()
            selfav = AV(frozenset({a}), o.f)
            if o.kind == "inst":
                return self.inst_attr(a, o, selfav, name, e, st, fr)
            if o.kind == "ext":
                if name in o.attrs:
                    return o.attrs[name]
                for h in self.hooks:
                    r = h(self, "getattr", name, selfav, [], {}, st, fr, e)
                    if r is not None:
                        return r
                return AV(frozenset({("xb", f"{o.extra}.{name}", selfav)}), Facets(deps=o.f.deps, facts=o.f.facts, ord=o.f.ord))
            return models.obj_attr(self, selfav, o, name, e, st, fr)
        if k == "k":
            return self.class_attr(a[1], name, e, st, fr)
        if k == "m":
            return self.module_attr(a[1], name, st)
        if k == "x":
            return models.ext_value(f"{a[1]}.{name}")
        if k == "xb":
            return AV(frozenset({("xb", f"{a[1]}.{name}", a[2])}), b.f)
        if k == "sup":
            return self.super_attr(a, name, e, st, fr)
        if k == "c":
            x = a[1].v
            if isinstance(x, EnumMember):
                if name == "value":
                    return x.value
                if name == "name":
                    return const(x.name)
                c, v = x.cls.lookup(name)
                if v is not None:
                    return self.bind(v, AV(frozenset({a})), c, x.cls)
                return None
            if isinstance(x, OrdVal):
                return AV(frozenset({("xb", f"num.{name}", AV(frozenset({a}), b.f))}), b.f)
            if x is None:
                return None
            if isinstance(x, str):
                return AV(frozenset({("xb", f"str.{name}", AV(frozenset({a}), b.f))}), b.f) if hasattr(x, name) else None
            if isinstance(x, bytes):
                return AV(frozenset({("xb", f"bytes.{name}", AV(frozenset({a}), b.f))}), b.f)
            if isinstance(x, (int, float)):
                return AV(frozenset({("xb", f"num.{name}", AV(frozenset({a}), b.f))}), b.f)
            return unk(b.f)
        if k == "t":
            return AV(frozenset({("xb", f"tuple.{name}", AV(frozenset({a}), b.f))}), b.f)
        if k == "n" or k == "B":
            if name in ("real", "T"):
                return AV(frozenset({a}), b.f)
            if name in ("shape",):
                return AV(frozenset({("t", ())}))
            if name in ("size", "ndim"):
                return num(Facets(rank=0))
            return AV(frozenset({("xb", f"num.{name}", AV(frozenset({a}), b.f))}), b.f)
        if k == "s":
            return AV(frozenset({("xb", f"str.{name}", AV(frozenset({a}), b.f))}), b.f)
        if k == "y":
            return AV(frozenset({("xb", f"bytes.{name}", AV(frozenset({a}), b.f))}), b.f)
        if k == "f":
            if name in ("__name__", "__qualname__"):
                return const(a[1].name)
            return unk()
        if k == "b":
            return unk()
        if k == "missing":
            return None
        return AV(frozenset({("xb", f"?.{name}", AV(frozenset({a}), b.f))}), b.f)

    def inst_attr(self, a, o, selfav, name, e, st, fr):
        if name in o.attrs:
            v = o.attrs[name]
            if ("missing",) in v.atoms:
                c, cv = o.cls.find(name, st)
                rest = frozenset(x for x in v.atoms if x != ("missing",))
                if cv is None:
                    self.issue("attr-missing", f"attribute '{name}' of {o.cls.name} is not set on every path", e, fr,
                               key=f"{o.cls.name} instance has no attribute {name}", definite=False)
                    if not rest:
                        return None
                    return AV(rest, v.f)
                v = AV(rest, v.f) if rest else None
                return join(v, self.bind(cv, selfav, c, o.cls))
            return v
        if name == "__class__":
            return AV(frozenset({("k", o.cls)}))
        if name == "__dict__":
            return unk()
        c, v = o.cls.find(name, st)
        if v is None:
            if o.cls.opaque() or o.extra == "open":
                return AV(frozenset({("xb", f"{o.cls.qualname}.{name}", selfav)}))
            c, g = o.cls.lookup("__getattr__")
            if g is not None:
                return unk()
            return None
        props = [x for x in v.atoms if x[0] == "p"]
        if props:
            r = None
            for p in props:
                r = join(r, self.call_func(p[1], [selfav], {}, st, fr, e))
            return r
        if o.cls.opaque() and not v.of("f") and not v.const()[0]:
            return AV(v.atoms, v.f.but(facts=v.f.facts | {("col", name)}))
        return self.bind(v, selfav, c, o.cls)

    def class_attr(self, c, name, e, st, fr):
        if name in ("__name__", "__qualname__"):
            return const(c.name)
        if name == "__module__":
            return const(c.module.name)
        if name == "__subclasses__":
            return AV(frozenset({("xb", "class.__subclasses__", AV(frozenset({("k", c)})))}))
        if name in ("__mro__", "__bases__"):
            seq = c.mro if name == "__mro__" else c.bases
            return AV(frozenset({("t", tuple(AV(frozenset({("k", x)})) for x in seq))}))
        if name == "__dict__":
            return unk()
        if name == "__members__" and c.is_enum:
            return self.new("dict", e, fr, st, attrs={C(m.name): AV(frozenset({("c", C(m))}), Facets(rank=0)) for m in c.members}, extra="closed")
        d, v = c.find(name, st)
        if self.op_hook is not None and c.opaque():
            for h in self.hooks:
                r = h(self, "classattr", name, AV(frozenset({("k", c)})), [], {}, st, fr, e)
                if r is not None:
                    return r
        if v is None:
            if any(n == name for k in c.mro for n, _ in k.annotations) and c.opaque():
                return AV(frozenset({("xb", f"column.{name}", AV(frozenset({("k", c)})))}), Facets(facts=frozenset({("col", name)})))
            if c.opaque():
                return AV(frozenset({("xb", f"{c.qualname}.{name}", AV(frozenset({("k", c)})))}))
            if name == "__init__" and any(k.dataclass is not None for k in c.mro):
                return unk()
            if name in dir(type("", (), {})):
                return AV(frozenset({("x", f"object.{name}")}))
            return None
        if c.opaque() and not v.of("f") and not v.of("p") and not v.const()[0]:
            return AV(v.atoms, v.f.but(facts=v.f.facts | {("col", name)}))
        out = set()
        for a in v.atoms:
            if a[0] == "f" and a[1].kind == "class":
                out.add(("b", a[1], AV(frozenset({("k", c)}))))
            else:
                out.add(a)
        return AV(frozenset(out), v.f)

    def super_attr(self, a, name, e, st, fr):
        _, cls, selfav = a
        if selfav is None:
            return AV(frozenset({("xb", f"unbound-super.{name}", unk())}))
        s = selfav.single()
        if s is None:
            cands = [x for x in selfav.atoms if x[0] in ("r", "k")]
            s = cands[0] if cands else None
        if s is None:
            return unk()
        actual = s[1] if s[0] == "k" else st.heap[s[1]].cls
        if actual is None or cls not in actual.mro:
            return unk()
        mro = actual.mro[actual.mro.index(cls) + 1:]
        for c in mro:
            if name in c.ns:
                v = c.ns[name]
                props = [x for x in v.atoms if x[0] == "p"]
                if props and s[0] == "r":
                    return self.call_func(props[0][1], [selfav], {}, st, fr, e)
                if s[0] == "k":
                    return self.class_bind(v, actual, s[0])
                return self.bind(v, selfav, c, actual)
        if name in ("__init__", "__init_subclass__", "__new__", "__post_init__", "__setattr__", "__getattribute__"):
            if name == "__init__" and any(c.dataclass is not None for c in mro):
                dc = next(c for c in mro if c.dataclass is not None)
                return AV(frozenset({("dcinit", dc, selfav)}))
            return AV(frozenset({("x", f"object.{name}")}))
        if actual.opaque():
            return AV(frozenset({("xb", f"super.{name}", selfav)}))
        return None

    def class_bind(self, v, actual, k):
        out = set()
        for a in v.atoms:
            if a[0] == "f" and a[1].kind == "class":
                out.add(("b", a[1], AV(frozenset({("k", actual)}))))
            else:
                out.add(a)
        return AV(frozenset(out), v.f)

    # -- subscripts
    def eval_index(self, s, st, fr):
        if isinstance(s, ast.Slice):
            parts = [self.eval(x, st, fr) if x is not None else None for x in (s.lower, s.upper, s.step)]
            f = F0
            for p in parts:
                if p is not None:
                    pf = self.eff(p, st)
                    f = f.but(deps=f.deps | pf.deps, ord=comb_ord(f.ord, pf.ord if pf.ord != "P" else "P"))
            return AV(frozenset({("slice", tuple(parts))}), f)
        if isinstance(s, ast.Tuple) and any(isinstance(x, (ast.Slice, ast.Constant)) for x in s.elts):
            elems = tuple(self.eval_index(x, st, fr) for x in s.elts)
            return AV(frozenset({("t", elems)}), Facets(rank=1))
        return self.eval(s, st, fr)

    def e_Subscript(self, e, st, fr):
        b = self.eval(e.value, st, fr)
        idx = self.eval_index(e.slice, st, fr)
        if self.op_hook is not None:
            r = self.op_hook(self, "Subscript", (b, idx), e, st, fr)
            if r is not None:
                return r
        if self.post is not None:
            return self.post.op(self, "Subscript", (b, idx), models.subscript(self, b, idx, e, st, fr), e, st, fr)
        return models.subscript(self, b, idx, e, st, fr)

    def e_Slice(self, e, st, fr):
        return self.eval_index(e, st, fr)

    def e_Starred(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Await(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Lambda(self, e, st, fr):
        return AV(frozenset({("f", self.make_func(e, st, fr, "<lambda>"))}))

    def e_Yield(self, e, st, fr):
        v = self.eval(e.value, st, fr) if e.value is not None else NONE
        if fr.on_yield is not None:
            fr.on_yield(v, st)
            return NONE
        if fr.yields is not None:
            fr.yields.append(v)
        return NONE

    def e_YieldFrom(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        k = self.known_elems(v, st)
        if fr.yields is not None:
            if k is not None:
                fr.yields.extend(k)
            else:
                fr.yields.append(self.elem_of(v, st))
                fr.yield_open = True
        return NONE

    # -- comprehensions
    def e_ListComp(self, e, st, fr):
        return self.comp(e, "list", st, fr)

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, "gen", st, fr)

    def e_SetComp(self, e, st, fr):
        return self.comp(e, "set", st, fr)

    def e_DictComp(self, e, st, fr):
        return self.comp(e, "dict", st, fr)

    def comp(self, e, kind, st, fr):
        env = self.fresh_env(e, fr, st)
        sub = Frame(FuncObj("<comp>", fr.name, e, fr.module, self.closure_of(fr), [], [], fr.cls), env, fr.ctx, fr.module, fr.cls, fr.name)
        sub.yields = None
        out = []   # list of (value(s), exact)
        exact = self.comp_gen(e, 0, kind, st, sub, out)
        f = Facets(rank=1)
        vals = [v for v, _ in out]
        if kind == "dict":
            attrs, elem, key = {}, None, None
            for kv, v in vals:
                ok, c = models.key_const(self, kv, st)
                if ok and exact and _hashable(c):
                    attrs[C(c)] = v
                else:
                    elem, key = join(elem, v), join(key, kv)
                    f = f.but(deps=f.deps | kv.f.deps | v.f.deps)
            return self.new("dict", e, fr, st, f=f, attrs=attrs, elem=elem, extra=key if elem is not None else "closed")
        if exact:
            for v in vals:
                vf = self.eff(v, st)
                f = f.but(deps=f.deps | vf.deps, facts=f.facts | vf.facts, wit=f.wit or vf.wit)
            f = f.but(ord=self.seq_ord(vals, st))
            if vals:
                iv = vals[0].f.iv
                for v in vals[1:]:
                    iv = (min(iv[0], v.f.iv[0]), max(iv[1], v.f.iv[1]), False)
                f = f.but(iv=iv)
            return self.new(kind, e, fr, st, f=f, elems=tuple(vals))
        self.forks += 1
        elem = None
        o = "I"
        lids = getattr(sub, "comp_lids", ())
        ax = NO_AX
        for v, o2 in out:
            vf = self.eff(v, st)
            elem = join(elem, models.sink_elem(v, lids))
            f = f.but(deps=f.deps | vf.deps, facts=f.facts | vf.facts, wit=f.wit or vf.wit)
            if vf.rank == 0 or vf.ax:
                own, pend = models.own_ord(vf, lids)
                ax = ax_merge(ax, pend, join_ord)
            else:
                own = vf.ord
            o = join_ord(o, own)
        if elem is None:
            elem = unk()
        f = f.but(ord=o, iv=elem.f.iv, ax=ax)
        conds = getattr(sub, "comp_cond", None)
        if conds is not None:
            co, cpend = models.own_ord(Facets(ord=conds[1], ax=conds[2]), lids)
            f = f.but(deps=f.deps | conds[0], ord=ctl_ord(f.ord, co), ax=ax_merge(f.ax, cpend, ctl_ord))
        f = f.but(deps=f.deps | getattr(sub, "comp_deps", frozenset()))
        attrs = {}
        if len(e.generators) == 1 and kind in ("list", "gen"):
            it = getattr(sub, "comp_src", None)
            if it is not None and not e.generators[0].ifs:
                attrs["len"] = it
            elif it is not None and self.rel_terms and len(e.generators[0].ifs) == 1 and getattr(sub, "comp_test", None) is not None:
                attrs["filter"] = (sub.comp_test, it)
        return self.new(kind, e, fr, st, f=f, elem=elem.but(idx=None), attrs=attrs)

    def fresh_env(self, node, fr, st):
        key = (fr.ctx, id(node), "env")
        oid = self.alloc_map.get(key)
        if oid is None:
            oid = self.fresh()
            self.alloc_map[key] = oid
        st.heap[oid] = Obj("env", attrs={})
        return oid

    def comp_gen(self, e, i, kind, st, sub, out):
        if i == len(e.generators):
            if kind == "dict":
                out.append(((self.eval(e.key, st, sub), self.eval(e.value, st, sub)), "I"))
            else:
                out.append((self.eval(e.elt, st, sub), "I"))
            return True
        g = e.generators[i]
        it = self.eval(g.iter, st, sub)
        itf = self.eff(it, st)
        sub.comp_deps = getattr(sub, "comp_deps", frozenset()) | itf.deps
        known = self.known_elems(it, st, g.iter)
        exact = True
        if known is not None and len(known) <= MAX_UNROLL and not (self.summary_depth and len(known) > 16):
            ctx0 = sub.ctx
            for k, x in enumerate(known):
                sub.ctx = ctx0 + (("it", id(g), k),)
                try:
                    self.assign(g.target, x, st, sub)
                    ok = True
                    for c in g.ifs:
                        cv = self.eval(c, st, sub)
                        t = self.truth(cv, st)
                        if t is False:
                            ok = False
                            break
                        if t is None:
                            exact = False
                            self.note_cond(sub, cv, st)
                    if ok:
                        exact = self.comp_gen(e, i + 1, kind, st, sub, out) and exact
                except Dead:
                    sub.ctx = ctx0
                    if len(known) == 1 or True:
                        raise
            sub.ctx = ctx0
            return exact
        sub.comp_src = models.length(self, it, st)
        self.summary_depth += 1
        lid = (id(g), len(sub.ctx))
        self.lids.append(lid)
        sub.comp_lids = getattr(sub, "comp_lids", ()) + (lid,)
        try:
            el = self.loop_elem(it, st, lid, g.iter, sub, i + 1 < len(e.generators) and _mentions(e.generators[i + 1:], g.target))
            self.assign(g.target, el, st, sub)
            ok = True
            for c in g.ifs:
                cv = self.eval(c, st, sub)
                t = self.truth(cv, st)
                sub.comp_test = self.eff(cv, st).term
                if t is False:
                    ok = False
                elif t is None:
                    self.note_cond(sub, cv, st)
                    if self.refine(c, True, st, sub) is None:
                        ok = False
            if ok:
                self.comp_gen(e, i + 1, kind, st, sub, out)
        finally:
            self.summary_depth -= 1
            self.lids.pop()
        return False

    def note_cond(self, sub, cv, st):
        cf = self.eff(cv, st)
        d, o, ax = getattr(sub, "comp_cond", (frozenset(), "I", NO_AX))
        sub.comp_cond = (d | cf.deps, ctl_ord(o, cf.ord), ax_merge(ax, cf.ax, ctl_ord))

    # ------------------------------------------------------------------ sequences
    def known_elems(self, v, st, node=None):
        """The elements when the value is a sequence of statically known length."""
        a = v.single()
        if a is None:
            return None
        if a[0] == "t":
            return [x.plus(deps=v.f.deps) if v.f.deps else x for x in a[1]]
        if a[0] == "k" and a[1].is_enum:
            return [AV(frozenset({("c", C(m))}), Facets(rank=0)) for m in a[1].members]
        if a[0] == "c" and isinstance(a[1].v, str):
            return [const(x) for x in a[1].v] if len(a[1].v) < 40 else None
        if a[0] == "r":
            o = st.heap.get(a[1])
            if o is None:
                return None
            if o.kind == "set" and o.elems is not None:
                cs = [x.const() for x in o.elems]
                if cs and all(ok and type(c) in (int, float, bool) for ok, c in cs):
                    return [const(c) for c in {c for _, c in cs}]
            if o.kind in ("list", "set", "gen", "array", "ext") and o.elems is not None:
                return [x for x in o.elems]
            if o.kind == "dict" and o.elem is None and (o.attrs or o.extra == "closed"):
                return [models.key_av(k) for k in o.attrs]
            if o.kind == "range" and o.elems is not None and len(o.elems) <= (MAX_UNROLL if self.known_run else 64):
                return list(o.elems)
            if o.kind == "enumerate":
                k = self.known_elems(o.extra, st)
                if k is not None and o.elems is None:
                    return [AV(frozenset({("t", (const(i), x))})) for i, x in enumerate(k)]
            if o.kind == "zip":
                ks = [self.known_elems(x, st) for x in o.extra]
                if all(k is not None for k in ks):
                    return [AV(frozenset({("t", t)})) for t in zip(*ks)]
        return None

    def elem_of(self, v, st):
        r = None
        for a in v.atoms:
            if a[0] == "r":
                o = st.heap.get(a[1])
                if o is None:
                    r = join(r, unk())
                elif o.elems:
                    for x in o.elems:
                        r = join(r, x)
                elif o.kind == "dict":
                    for k in o.attrs:
                        r = join(r, models.key_av(k) if not isinstance(k, str) else string())
                    if isinstance(o.extra, AV):
                        r = join(r, o.extra)
                elif o.elem is not None:
                    r = join(r, o.elem.plus(deps=o.f.deps))
                elif o.kind in ("array", "sample", "range"):
                    r = join(r, num(o.f.but(rank=0 if (o.f.rank or 1) == 1 else None, idx=None, term=None,
                                            facts=o.f.facts - {("len",)})))
                elif o.kind in ("list", "set", "gen") and o.elems is not None:
                    pass
                else:
                    r = join(r, unk(o.f.but(idx=None)))
            elif a[0] == "t":
                for x in a[1]:
                    r = join(r, x)
            elif a[0] == "s" or (a[0] == "c" and isinstance(a[1].v, str)):
                r = join(r, string())
            elif a[0] == "k" and a[1].is_enum:
                for m in a[1].members:
                    r = join(r, AV(frozenset({("c", C(m))})))
            else:
                r = join(r, unk(v.f.but(idx=None)))
        return r if r is not None else unk()

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        # super() needs the lexical frame
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.do_super(e, st, fr)
        fn = self.eval(e.func, st, fr)
        args, star = [], None
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, fr)
                k = self.known_elems(v, st)
                if k is None:
                    star = v if star is None else join(star, v)
                else:
                    args.extend(k)
            else:
                args.append(self.eval(x, st, fr))
        kwargs, kwstar = {}, None
        for k in e.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                done = False
                for _, o in self.objs(v, st):
                    if o.kind == "dict" and len(v.atoms) == 1:
                        for c, x in o.attrs.items():
                            if isinstance(c.v, str):
                                kwargs[c.v] = x
                        if o.elem is not None:
                            kwstar = o.elem
                        done = True
                if not done:
                    kwstar = v
            else:
                kwargs[k.arg] = v
        return self.call(fn, args, kwargs, st, fr, e, star=star, kwstar=kwstar)

    def do_super(self, e, st, fr):
        if not e.args:
            cls = fr.cls
            selfav = fr.first
            if cls is None:
                return unk()
            return AV(frozenset({("sup", cls, selfav)}))
        c = self.eval(e.args[0], st, fr)
        o = self.eval(e.args[1], st, fr) if len(e.args) > 1 else None
        a = c.single()
        if a and a[0] == "k":
            return AV(frozenset({("sup", a[1], o)}))
        return unk()

    def call(self, fn, args, kwargs, st, fr, node, star=None, kwstar=None):
        res = None
        dead = False
        atoms = sorted(fn.atoms, key=lambda x: str(x[0]))
        many = len(atoms) > 1
        states = []
        for a in atoms:
            s = st.copy() if many else st
            try:
                r = self.call_atom(a, fn, args, kwargs, s, fr, node, star, kwstar)
                res = join(res, r)
                states.append(s)
            except Dead:
                dead = True
        if res is None:
            raise Dead()
        if many:
            j = None
            for s in states:
                j = join_state(j, s)
            st.heap, st.must, st.may = j.heap, j.must, j.may
        return res

    def call_atom(self, a, fn, args, kwargs, st, fr, node, star, kwstar):
        k = a[0]
        if k == "f":
            return self.call_func(a[1], args, kwargs, st, fr, node, star, kwstar)
        if k == "b":
            return self.call_func(a[1], [a[2]] + list(args), kwargs, st, fr, node, star, kwstar)
        if k == "k":
            return self.instantiate(a[1], args, kwargs, st, fr, node, star, kwstar)
        if k == "dcinit":
            return self.dc_init(a[1], a[2], args, kwargs, st, fr, node, star, kwstar)
        if k == "x":
            return self.call_ext(a[1], None, args, kwargs, st, fr, node, star, kwstar)
        if k == "xb":
            return self.call_ext(a[1], a[2], args, kwargs, st, fr, node, star, kwstar)
        if k == "r":
            o = st.heap.get(a[1])
            if o is not None and o.kind == "inst":
                c, m = o.cls.lookup("__call__")
                if m is not None:
                    return self.call(self.bind(m, AV(frozenset({a}), o.f), c, o.cls), args, kwargs, st, fr, node, star, kwstar)
                if not o.cls.opaque():
                    self.issue("type-error", f"'{o.cls.name}' object is not callable", node, fr)
                    raise Dead()
            if o is not None and o.kind == "ext":
                return self.call_ext(f"{o.extra}.__call__", AV(frozenset({a}), o.f), args, kwargs, st, fr, node, star, kwstar)
            if o is not None and o.kind in ("list", "array", "dict", "sample"):
                self.issue("type-error", f"'{o.kind}' object is not callable", node, fr)
                raise Dead()
        if k == "c" and not callable(a[1].v):
            self.issue("type-error", f"{a[1].v!r} is not callable", node, fr)
            self.do_raise(AV(frozenset({("x", "builtins.TypeError")})), st, node, fr)
            raise Dead()
        f = self.args_facets(args, kwargs, st, star, kwstar)
        f = join_facets(f, fn.f)
        return unk(f.but(ord="U" if f.ord != "I" else "I", idx=None, term=None, iv=TOP_IV, rank=None))

    def args_facets(self, args, kwargs, st, star=None, kwstar=None):
        f = F0
        for v in list(args) + list(kwargs.values()) + [x for x in (star, kwstar) if x is not None]:
            vf = self.eff(v, st)
            f = f.but(deps=f.deps | self.eff_deps(v, st), ord=join_ord(f.ord, vf.ord), facts=f.facts | vf.facts, wit=f.wit or vf.wit)
        return f

    def bind_params(self, f, args, kwargs, st, fr, node, star, kwstar):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals, err = {}, None
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(pos):
            if a.vararg is None:
                return None, f"{f.name}() takes {len(pos)} positional arguments but {len(args)} were given"
            extra = args[len(pos):]
            vals[a.vararg.arg] = AV(frozenset({("t", tuple(extra))}))
            args = args[: len(pos)]
        for n, v in zip(pos, args):
            vals[n] = v
        rest = {}
        for k, v in kwargs.items():
            if k in vals and (k in pos):
                return None, f"{f.name}() got multiple values for argument '{k}'"
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                vals[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                return None, f"{f.name}() got an unexpected keyword argument '{k}'"
        nd = len(a.defaults)
        for i, n in enumerate(pos):
            if n not in vals:
                j = i - (len(pos) - nd)
                if star is not None:
                    vals[n] = self.elem_of(star, st)
                    if j >= 0:
                        vals[n] = join(vals[n], f.defaults[j])
                elif j >= 0:
                    vals[n] = f.defaults[j]
                    if kwstar is not None:
                        vals[n] = join(vals[n], unk(kwstar.f))
                elif kwstar is not None:
                    vals[n] = unk(kwstar.f)
                else:
                    return None, f"{f.name}() missing required argument '{n}'"
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in vals:
                if d is None:
                    if kwstar is None:
                        return None, f"{f.name}() missing required keyword argument '{x.arg}'"
                    vals[x.arg] = unk(kwstar.f)
                else:
                    vals[x.arg] = d
        if a.vararg is not None and a.vararg.arg not in vals:
            if star is not None:
                vals[a.vararg.arg] = star
            else:
                vals[a.vararg.arg] = AV(frozenset({("t", ())}))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.new("dict", f.node, fr, st, tag="kwargs", attrs={C(k): v for k, v in rest.items()},
                                         elem=kwstar, extra=unk() if kwstar is not None else "closed")
        return vals, None

    def call_func(self, f, args, kwargs, st, fr, node, star=None, kwstar=None):
        self.tick()
        h = self.func_hooks.get(f.qualname)
        if h is not None:
            r = h(self, f, args, kwargs, st, fr, node)
            if r is not NotImplemented:
                return r
        self.funcs_seen.add(f.qualname)
        if f.ctxman and (self.next_yield is None or self.next_yield[0] is not f):
            return self.new("ctxgen", node, fr, st, extra=(f, args, kwargs, star, kwstar))
        vals, err = self.bind_params(f, args, kwargs, st, fr, node, star, kwstar)
        if err:
            self.issue("call-binding", err, node, fr, key=f"{fr.name}: {err}")
            self.do_raise(AV(frozenset({("x", "builtins.TypeError")})), st, node, fr)
            raise Dead()
        depth = sum(1 for g in self.stack if g is f)
        concrete = all(self.concrete(v, st) for v in vals.values())
        if len(self.stack) > MAX_DEPTH or depth > (30 if concrete else 2):
            af = self.args_facets(list(vals.values()), {}, st)
            self.undecided.append(("recursion", f.qualname))
            return unk(af.but(ord="U" if af.ord != "I" else "I", idx=None, term=None))
        ctx = fr.ctx + ((id(node), f.qualname),)
        if len(ctx) > 300:
            raise Budget()
        env = self.alloc_map.get((ctx, id(f.node), "callenv"))
        if env is None:
            env = self.fresh()
            self.alloc_map[(ctx, id(f.node), "callenv")] = env
        st.heap[env] = Obj("env", attrs=vals)
        sub = Frame(f, env, ctx, f.module, f.cls, f.qualname)
        a = f.node.args
        pos = a.posonlyargs + a.args
        if pos:
            sub.first = vals.get(pos[0].arg)
        if f.is_gen:
            sub.yields = []
            if self.next_yield is not None and self.next_yield[0] is f:
                sub.on_yield, self.next_yield = self.next_yield[1], None
        self.stack.append(f)
        pc0, st_pc = st.pc, st.pc
        st.pc = (frozenset(), "I")
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, st, sub)
                st.pc = pc0
                return v
            end = self.exec_block(f.node.body, st.copy(), sub)
        finally:
            self.stack.pop()
            st.pc = pc0
        if end is not None:
            if not f.is_gen:
                sub.returns.append((self.with_pc(NONE.plus(facts=frozenset({("none-fall", f.qualname, self.rel(f.module.path), f.node.lineno)})), end), end))
            else:
                sub.returns.append((NONE, end))
        if not sub.returns:
            raise Dead()
        res, j = None, None
        for v, s in sub.returns:
            res = join(res, v)
            j = join_state(j, s)
        st.heap, st.must, st.may = j.heap, j.must, j.may
        st.pc = pc0
        if f.is_gen:
            ff = Facets(rank=1)
            if self.summary_depth or getattr(sub, "yield_open", False) or len(sub.returns) > 1:
                e = None
                for y in sub.yields:
                    e = join(e, y)
                    ff = join_facets(ff, self.eff(y, st))
                return self.new("gen", f.node, fr, st, f=ff.but(rank=1), elem=e or unk())
            for y in sub.yields:
                ff = ff.but(deps=ff.deps | y.f.deps, ord=join_ord(ff.ord, y.f.ord))
            return self.new("gen", f.node, fr, st, f=ff, elems=tuple(sub.yields))
        return res

    def concrete(self, v, st):
        return all(a[0] in ("k", "c", "f", "m", "x") for a in v.atoms)

    def instantiate(self, c, args, kwargs, st, fr, node, star=None, kwstar=None):
        if c.is_enum:
            if args:
                ok, v = args[0].const()
                if ok:
                    for m in c.members:
                        mo, mv = m.value.const()
                        if (mo and mv == v) or m is v:
                            return AV(frozenset({("c", C(m))}), Facets(rank=0))
                    self.issue("value-error", f"{v!r} is not a valid {c.name}", node, fr)
                    self.do_raise(AV(frozenset({("x", "builtins.ValueError")})), st, node, fr)
                    raise Dead()
                return AV(frozenset(("c", C(m)) for m in c.members), args[0].f)
            return unk()
        h = self.func_hooks.get("class:" + c.qualname)
        if h is not None:
            r = h(self, c, args, kwargs, st, fr, node)
            if r is not NotImplemented:
                return r
        if c.is_abstract():
            self.issue("abstract-instantiation",
                       f"cannot instantiate abstract class {c.name} (abstract: {', '.join(sorted(c.abstract_names()))})", node, fr,
                       key=f"abstract {c.name}")
            self.do_raise(AV(frozenset({("x", "builtins.TypeError")})), st, node, fr)
            raise Dead()
        o = Obj("inst", cls=c, site=self.site(node, fr))
        oid = self.alloc(o, node, fr, st, "inst:" + c.qualname)
        if not self.summary_depth:
            st.heap[oid] = o.but(roots=frozenset({oid}))
        selfav = AV(frozenset({("r", oid)}))
        d, init = c.lookup("__init__")
        # a dataclass-generated __init__ belongs to the class carrying the decorator
        for k in c.mro:
            if "__init__" in k.ns:
                self.call(self.bind(k.ns["__init__"], selfav, k, c), args, kwargs, st, fr, node, star, kwstar)
                break
            if k.dataclass is not None:
                self.dc_init(k, selfav, args, kwargs, st, fr, node, star, kwstar)
                break
        else:
            if (args or kwargs) and not c.opaque():
                self.issue("call-binding", f"{c.name}() takes no arguments", node, fr)
                self.do_raise(AV(frozenset({("x", "builtins.TypeError")})), st, node, fr)
                raise Dead()
            if c.opaque() and (kwargs or args):
                attrs = dict(st.heap[oid].attrs)
                for n, v in kwargs.items():
                    attrs[n] = v
                st.heap[oid] = st.heap[oid].but(attrs=attrs)
                self.calls.append((c.qualname, list(args), dict(kwargs), self.site(node, fr), None))
        return AV(frozenset({("r", oid)}), st.heap[oid].f)

    def dc_fields(self, c):
        fields = []
        for k in reversed(c.mro):
            if k.dataclass is not None:
                for n, node in k.annotations:
                    ann = ast.unparse(node.annotation)
                    if "ClassVar" in ann:
                        continue
                    fields = [x for x in fields if x[0] != n] + [(n, node, k)]
        return fields

    def dc_init(self, c, selfav, args, kwargs, st, fr, node, star=None, kwstar=None):
        fields = self.dc_fields(c)
        names = [n for n, _, _ in fields]
        vals = {}
        if len(args) > len(names):
            self.issue("call-binding", f"{c.name}() takes {len(names)} fields but {len(args)} were given", node, fr)
            raise Dead()
        for n, v in zip(names, args):
            vals[n] = v
        for k, v in kwargs.items():
            if k not in names or k in vals:
                self.issue("call-binding", f"{c.name}() got an unexpected or repeated field '{k}'", node, fr)
                self.do_raise(AV(frozenset({("x", "builtins.TypeError")})), st, node, fr)
                raise Dead()
            vals[k] = v
        for n, a, k in fields:
            if n in vals:
                continue
            if a.value is None:
                if star is not None or kwstar is not None:
                    vals[n] = unk()
                    continue
                self.issue("call-binding", f"{c.name}() missing field '{n}'", node, fr)
                self.do_raise(AV(frozenset({("x", "builtins.TypeError")})), st, node, fr)
                raise Dead()
            d = k.ns.get(n, unk())
            fac = [x for _, x in self.objs(d, st) if x.kind == "ext" and x.extra == "dataclasses.field"]
            if fac:
                df = fac[0].attrs.get("default_factory")
                if df is not None:
                    vals[n] = self.call(df, [], {}, st, fr, node)
                else:
                    vals[n] = fac[0].attrs.get("default", unk())
            else:
                vals[n] = d
        s = selfav.single()
        o = st.heap[s[1]]
        st.heap[s[1]] = o.but(attrs={**o.attrs, **vals})
        d, post = o.cls.lookup("__post_init__")
        if post is not None:
            self.call(self.bind(post, selfav, d, o.cls), [], {}, st, fr, node)
        return NONE

    def call_ext(self, name, recv, args, kwargs, st, fr, node, star=None, kwstar=None):
        for h in self.hooks:
            r = h(self, "call", name, recv, args, kwargs, st, fr, node)
            if r is not None:
                return r
        pre = self.post.before(name, recv, args, kwargs, st) if self.post is not None else None
        r = models.call(self, name, recv, args, kwargs, st, fr, node, star, kwstar)
        if pre is not None:
            r = self.post.call(self, name, recv, args, kwargs, pre, r, node, st, fr)
        if self.record_calls:
            self.calls.append((name, ([recv] if recv is not None else []) + list(args), dict(kwargs), self.site(node, fr), r))
        return r


# ---------------------------------------------------------------------- helpers
_SQL = ("SQLAlchemyError",)
_DB = ("DBAPIError", "StatementError") + _SQL
EXC_BASES = {"OperationalError": ("DatabaseError",) + _DB, "IntegrityError": ("DatabaseError",) + _DB, "DatabaseError": _DB, "DBAPIError": ("StatementError",) + _SQL,
             "MultipleResultsFound": ("InvalidRequestError",) + _SQL, "NoResultFound": ("InvalidRequestError",) + _SQL, "InvalidRequestError": _SQL, "ArgumentError": _SQL,
             "ProgrammingError": ("DatabaseError",) + _DB, "InternalError": ("DatabaseError",) + _DB, "InterfaceError": _DB, "NoSuchModuleError": ("ArgumentError",) + _SQL}


def exc_supers(name):
    """Names of the exception classes that catch an exception of this class."""
    import builtins
    c = getattr(builtins, name, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return {x.__name__ for x in c.__mro__}
    return {name, *EXC_BASES.get(name, ())}


def under(f, deps, o, ax, arr=False):
    """Facets of a value chosen under a condition."""
    if not ax or o in ("X", "U"):
        return f.but(deps=f.deps | deps, ord=ctl_ord(f.ord, o))
    d = dict(f.ax)
    for l, c in ax:
        d[l] = ctl_ord(d.get(l, "I"), c)
    nax = frozenset(d.items())
    no = f.ord
    if not arr and no not in ("X", "U"):
        no = ax_sum(nax) if f.ax or no == "I" else ("U" if ax_sum(nax) != no else no)
    return f.but(deps=f.deps | deps, ord=no, ax=nax)


def ctl_ord(v, c):
    """Order behaviour of a value selected under a condition of order behaviour c."""
    if c == "I":
        return v
    if c in ("X", "U"):
        return "X" if "X" in (v, c) else "U"
    if c == "M":
        return "U"
    r = comb_ord(v, c)
    return "U" if r == "X" and v != "X" else r


def widen_iv(a, b):
    return (a[0] if b[0] >= a[0] else -INF, a[1] if b[1] <= a[1] else INF, a[2] and b[2])


def widen_av(a, b):
    atoms = b.atoms
    cs = [x for x in atoms if x[0] == "c" and isinstance(x[1].v, (int, float)) and not isinstance(x[1].v, bool)]
    if len(cs) > 1:
        atoms = frozenset(x for x in atoms if x not in cs) | {NUM}
    return AV(atoms, b.f.but(iv=widen_iv(a.f.iv, b.f.iv), term=b.f.term if a.f.term == b.f.term else None))


def _safe_eq(a, b):
    try:
        if isinstance(a, OrdVal) or isinstance(b, OrdVal):
            if isinstance(a, OrdVal) and isinstance(b, OrdVal):
                return a.rank == b.rank
            return None
        return bool(a == b)
    except Exception:
        return None


def _hashable(c):
    try:
        hash(c)
        return True
    except TypeError:
        return False


def _has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(t.id, ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
    return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)


_ACC = {}


def _accumulators(loop):
    """Names whose every assignment in the loop accumulates with a commutative operation and that
    are read nowhere else in the loop body."""
    if id(loop) in _ACC:
        return _ACC[id(loop)][1]
    good, bad = set(), set()
    reads = {}
    commut = (ast.Add, ast.Mult, ast.Sub, ast.Div, ast.BitOr, ast.BitAnd, ast.BitXor)

    def names_in(n):
        return [x.id for x in ast.walk(n) if isinstance(x, ast.Name)]

    def visit(s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, commut):
            good.add(s.target.id)
            for n in names_in(s.value):
                reads[n] = reads.get(n, 0) + 1
            return
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            t = s.targets[0].id
            v = s.value
            if isinstance(v, ast.BinOp) and isinstance(v.op, commut):
                # flatten t + a + b
                left = v
                while isinstance(left, ast.BinOp) and isinstance(left.op, commut):
                    left = left.left
                ns = names_in(v)
                sides = [v.left, v.right]
                if isinstance(left, ast.Name) and left.id == t and ns.count(t) == 1:
                    good.add(t)
                    for n in ns:
                        if n != t:
                            reads[n] = reads.get(n, 0) + 1
                    return
                if isinstance(v.right, ast.Name) and v.right.id == t and ns.count(t) == 1 and isinstance(v.op, (ast.Add, ast.Mult)):
                    good.add(t)
                    for n in ns:
                        if n != t:
                            reads[n] = reads.get(n, 0) + 1
                    return
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("max", "min") and names_in(v).count(t) == 1:
                good.add(t)
                for n in names_in(v):
                    if n != t:
                        reads[n] = reads.get(n, 0) + 1
                return
            bad.add(t)
            for n in names_in(v):
                reads[n] = reads.get(n, 0) + 1
            return
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for n in names_in(s):
                reads[n] = reads.get(n, 0) + 1
            return
        if isinstance(s, (ast.If, ast.While)):
            for n in names_in(s.test):
                reads[n] = reads.get(n, 0) + 1
            for x in s.body + s.orelse:
                visit(x)
            return
        if isinstance(s, ast.For):
            for n in names_in(s.iter):
                reads[n] = reads.get(n, 0) + 1
            for n in names_in(s.target):
                bad.add(n)
            for x in s.body + s.orelse:
                visit(x)
            return
        if isinstance(s, (ast.With, ast.Try)):
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.stmt):
                    visit(x)
                else:
                    for n in names_in(x):
                        reads[n] = reads.get(n, 0) + 1
            return
        for x in ast.walk(s):
            if isinstance(x, ast.Name):
                if isinstance(x.ctx, ast.Store):
                    bad.add(x.id)
                else:
                    reads[x.id] = reads.get(x.id, 0) + 1

    if isinstance(loop, ast.While):
        for n in names_in(loop.test):
            reads[n] = reads.get(n, 0) + 1
    for s in loop.body:
        visit(s)
    res = {n for n in good if n not in bad and n not in reads}
    _ACC[id(loop)] = (loop, res)
    return res


def _mentions(nodes, target):
    names = {x.id for x in ast.walk(target) if isinstance(x, ast.Name)}
    return any(isinstance(x, ast.Name) and x.id in names for g in nodes for x in ast.walk(g.iter))


_PAIRED = {}


def _paired(loop):
    """An inner loop runs over positions relative to this loop's variable."""
    if id(loop) not in _PAIRED:
        r = False
        if isinstance(loop, ast.For):
            names = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}

            def speaks(n):
                return any(isinstance(y, ast.Name) and y.id in names for y in ast.walk(n))
            inside = [x for s in loop.body for x in ast.walk(s)]
            more = True
            while more:
                more = False
                for x in inside:
                    if isinstance(x, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and x.value is not None and _position(x.value) and speaks(x.value):
                        for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                            for y in ast.walk(t):
                                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id not in names:
                                    names.add(y.id)
                                    more = True
            for x in inside:
                if isinstance(x, (ast.For, ast.comprehension)) and speaks(x.iter) or isinstance(x, ast.While) and speaks(x.test):
                    r = True
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "range" and speaks(x):
                    r = True
        _PAIRED[id(loop)] = (loop, r)
    return _PAIRED[id(loop)][1]


def _position(e):
    """An expression a position may be computed with."""
    return all(isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.operator, ast.UnaryOp, ast.unaryop, ast.expr_context, ast.Attribute))
               or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("min", "max", "int", "len", "range") for x in ast.walk(e))


_COUNT = {}


_COND = {}


def _condition_names(e):
    """The local names a condition speaks of; None when it is not simple enough to be kept for later."""
    if e is None:
        return None
    if id(e) not in _COND:
        ns, ok = set(), True
        for x in ast.walk(e):
            if isinstance(x, ast.Name):
                ns.add(x.id)
            elif isinstance(x, ast.Call):
                ok = ok and isinstance(x.func, ast.Name) and x.func.id in ("isinstance", "len", "hasattr", "callable", "bool")
            elif isinstance(x, (ast.Attribute, ast.NamedExpr, ast.Await, ast.Yield, ast.Lambda)):
                ok = ok and isinstance(x, ast.Attribute)
        _COND[id(e)] = (e, ns if ok else None)
    return _COND[id(e)][1]


_RANGE = {}
_MUTATORS = {"append", "appendleft", "pop", "popleft", "remove", "extend", "insert", "clear", "add", "update", "discard", "sort", "reverse", "resize"}


def _as_range(loop):
    """The for loop over a range that a while loop with a counter kept by hand amounts to."""
    if id(loop) in _RANGE:
        return _RANGE[id(loop)][1]
    r = _as_range_new(loop)
    _RANGE[id(loop)] = (loop, r)
    return r


def _as_range_new(loop):
    t = loop.test
    neg = False
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, neg = t.operand, not neg
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    stores = {}
    calls = set()
    for s in loop.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stores[x.id] = stores.get(x.id, 0) + 1
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in _MUTATORS:
                calls.add(x.func.value.id)
            if isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Await)):
                return None
    for n, h, flip in ((t.left, t.comparators[0], False), (t.comparators[0], t.left, True)):
        if not isinstance(n, ast.Name) or stores.get(n.id) != 1:
            continue
        at = [(i, _step(s)) for i, s in enumerate(loop.body) if _step(s) is not None and _step(s)[0] == n.id]
        if len(at) != 1:
            continue
        i, (_, k) = at[0]
        if k == 0 or i > 0 and _own_jumps(loop.body, ast.Continue):
            continue
        op = type(t.ops[0])
        if flip:
            op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op, op)
        if neg:
            op = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.Eq: ast.NotEq}.get(op)
        if not (op in (ast.Lt, ast.LtE) and k > 0 or op in (ast.Gt, ast.GtE) and k < 0 or op is ast.NotEq and k in (1, -1)):
            continue
        if not _fixed_bound(h, set(stores), calls):
            continue
        stop = h
        if op is ast.LtE:
            stop = ast.BinOp(h, ast.Add(), ast.Constant(1))
        elif op is ast.GtE:
            stop = ast.BinOp(h, ast.Sub(), ast.Constant(1))
        args = [ast.Name(n.id, ast.Load()), stop] + ([ast.Constant(k)] if k != 1 else [])
        body = list(loop.body)
        f = ast.For(ast.Name(n.id, ast.Store()), ast.Call(ast.Name("range", ast.Load()), args, []), body, list(loop.orelse))
        for x in ast.walk(f):
            if not hasattr(x, "lineno") and hasattr(x, "_attributes"):
                ast.copy_location(x, loop)
        ast.copy_location(f, loop)
        return f
    return None


def _own_jumps(body, kind):
    for s in body:
        if isinstance(s, kind):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            if _own_jumps(getattr(s, f, []) or [], kind):
                return True
        if any(_own_jumps(h.body, kind) for h in getattr(s, "handlers", [])):
            return True
    return False


def _fixed_bound(h, stores, mutated):
    for x in ast.walk(h):
        if isinstance(x, ast.Call):
            if not (isinstance(x.func, ast.Name) and x.func.id in ("len", "int", "min", "max")):
                return False
        elif isinstance(x, ast.Name):
            if x.id in stores or x.id in mutated:
                return False
        elif not isinstance(x, (ast.Constant, ast.BinOp, ast.Attribute, ast.expr_context, ast.operator, ast.UnaryOp, ast.unaryop)):
            return False
    return True


def _step(s):
    """(name, k) of a statement that adds the literal k to a name."""
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
        n, op, v = s.target.id, s.op, s.value
    elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp):
        n, op = s.targets[0].id, s.value.op
        if isinstance(s.value.left, ast.Name) and s.value.left.id == n:
            v = s.value.right
        elif isinstance(op, ast.Add) and isinstance(s.value.right, ast.Name) and s.value.right.id == n:
            v = s.value.left
        else:
            return None
    else:
        return None
    if not (isinstance(op, (ast.Add, ast.Sub)) and isinstance(v, ast.Constant) and type(v.value) is int):
        return None
    return n, v.value if isinstance(op, ast.Add) else -v.value


def _counters(loop):
    """Names stepped once, unconditionally, by a constant: (name, stepped last, step 1, bound of a while)."""
    if id(loop) in _COUNT:
        return _COUNT[id(loop)][1]

    def step_of(s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
            return s.target.id, s.value.value == 1 and isinstance(s.op, ast.Add)
        if (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp)
                and isinstance(s.value.op, (ast.Add, ast.Sub)) and isinstance(s.value.left, ast.Name)
                and s.value.left.id == s.targets[0].id and isinstance(s.value.right, ast.Constant) and isinstance(s.value.right.value, int)):
            return s.targets[0].id, s.value.right.value == 1 and isinstance(s.value.op, ast.Add)
        return None

    stores = {}
    jumps = False
    for s in loop.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                stores[x.id] = stores.get(x.id, 0) + 1
            if isinstance(x, (ast.Continue, ast.Break)):
                jumps = True
    out = []
    for i, s in enumerate(loop.body):
        r = step_of(s)
        if r is None or stores.get(r[0]) != 1:
            continue
        later = [x for t in loop.body[i + 1:] for x in ast.walk(t) if isinstance(x, ast.Name) and x.id == r[0]]
        bound = None
        if isinstance(loop, ast.While) and isinstance(loop.test, ast.Compare) and len(loop.test.ops) == 1:
            t = loop.test
            if isinstance(t.left, ast.Name) and t.left.id == r[0] and isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
                bound = t.comparators[0]
            elif isinstance(t.comparators[0], ast.Name) and t.comparators[0].id == r[0] and isinstance(t.ops[0], (ast.Gt, ast.NotEq)):
                bound = t.left
        out.append((r[0], not later and not jumps, r[1], bound))
    _COUNT[id(loop)] = (loop, out)
    return out


def _may_raise(s):
    for n in ast.walk(s):
        if isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.Raise, ast.BinOp)):
            return True
    return False
