"""What importing a module does, decided from the syntax trees: which modules run, in which order, and which names are bound when."""
from __future__ import annotations

import ast
import builtins
import symtable
import sys

BUILTINS = set(dir(builtins)) | {"__name__", "__file__", "__doc__", "__package__", "__spec__", "__loader__", "__path__", "__builtins__", "__annotations__", "__dict__"}


class Mod:
    def __init__(self, name, path, tree, pkg):
        self.name, self.path, self.tree, self.pkg = name, path, tree, pkg
        self.bound, self.done, self.open, self.alias = set(), False, False, {}
        self.future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in tree.body)


class Broken(Exception):
    def __init__(self, msg, mod, line):
        super().__init__(msg)
        self.msg, self.mod, self.line = msg, mod, line


class Imports:
    """One process: modules are run once, on their first import. `sources` maps module names to (path, tree, is a package)."""

    def __init__(self, sources, external):
        self.sources, self.external = sources, external
        self.mods = {}
        self.maybe = 0        # inside a branch that may not be taken
        self.log = []         # (message, module, line, certain)
        self.uses = 0
        self.stack = []

    # -- modules
    def load(self, name, mod=None, line=0):
        """Run a module (and the packages above it); True when it belongs to the project."""
        top = name.split(".")[0]
        if top not in {n.split(".")[0] for n in self.sources}:
            if not self.external(name):
                self.fail(f"module {name} is neither part of Python nor of a declared dependency", mod, line)
            return False
        parts = name.split(".")
        for i in range(1, len(parts) + 1):
            n = ".".join(parts[:i])
            if n not in self.sources:
                self.fail(f"module {n} does not exist", mod, line)
            if n not in self.mods:
                path, tree, pkg = self.sources[n]
                m = self.mods[n] = Mod(n, path, tree, pkg)
                self.stack.append(m)
                saved, self.maybe = self.maybe, 0
                try:
                    self.block(tree.body, m)
                finally:
                    self.stack.pop()
                    self.maybe = saved
                m.done = True
                if i > 1:
                    self.mods[".".join(parts[:i - 1])].bound.add(parts[i - 1])
        return True

    def fail(self, msg, mod, line):
        if self.maybe:
            self.log.append((msg, mod, line, False))
            return
        raise Broken(msg, mod, line)

    def has(self, m, name):
        return name in m.bound or name in BUILTINS and name.startswith("__")

    def member(self, name, attr, mod, line):
        """`from name import attr` once `name` is loaded."""
        m = self.mods[name]
        self.uses += 1
        if self.has(m, attr) or m.open:
            return
        sub = f"{name}.{attr}"
        if sub in self.sources:
            self.load(sub, mod, line)
            return
        self.fail(f"cannot import {attr} from {name}" + ("" if m.done else " (it is only partially initialised: circular import)"), mod, line)

    def absolute(self, s, m):
        if not s.level:
            return s.module
        base = m.name.split(".") if m.pkg else m.name.split(".")[:-1]
        base = base[:len(base) - (s.level - 1)]
        return ".".join(base + ([s.module] if s.module else []))

    # -- statements
    def block(self, body, m):
        for s in body:
            self.stmt(s, m)

    def bind(self, m, *names):
        m.bound.update(names)
        for n in names:
            m.alias.pop(n, None)

    def stmt(self, s, m):
        if isinstance(s, ast.Import):
            for a in s.names:
                mine = self.load(a.name, m, s.lineno)
                n = a.asname or a.name.split(".")[0]
                self.bind(m, n)
                if mine:
                    m.alias[n] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(s, ast.ImportFrom):
            if s.module == "__future__":
                return
            src = self.absolute(s, m)
            mine = self.load(src, m, s.lineno)
            for a in s.names:
                if a.name == "*":
                    if mine:
                        o = self.mods[src]
                        names = exported(o)
                        self.bind(m, *(names if names is not None else {n for n in o.bound if not n.startswith("_")}))
                    else:
                        m.open = True
                    continue
                if mine:
                    self.member(src, a.name, m, s.lineno)
                elif not self.external(f"{src}.{a.name}", member=True):
                    self.fail(f"cannot import {a.name} from {src}", m, s.lineno)
                self.bind(m, a.asname or a.name)
                if mine and f"{src}.{a.name}" in self.sources and a.name not in own_names(self.mods[src].tree):
                    m.alias[a.asname or a.name] = f"{src}.{a.name}"
        elif isinstance(s, ast.If):
            if _type_checking(s.test):
                self.block(s.orelse, m)
                return
            self.expr(s.test, m)
            if _is_main(s.test):
                self.block(s.orelse, m)
                return
            self.maybe += 1
            self.block(s.body, m)
            self.block(s.orelse, m)
            self.maybe -= 1
        elif isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            before = len(self.log)
            self.maybe += bool(s.handlers)
            self.block(s.body, m)
            self.maybe -= bool(s.handlers)
            del self.log[before:]
            self.maybe += 1
            for h in s.handlers:
                if h.name:
                    self.bind(m, h.name)
                self.block(h.body, m)
            self.maybe -= 1
            self.block(s.orelse, m)
            self.block(s.finalbody, m)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.function(s, m, set())
            self.bind(m, s.name)
        elif isinstance(s, ast.ClassDef):
            self.klass(s, m, set())
            self.bind(m, s.name)
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While, ast.With, ast.AsyncWith)):
            for n in ast.iter_child_nodes(s):
                if isinstance(n, ast.expr) and not isinstance(getattr(n, "ctx", None), ast.Store):
                    self.expr(n, m)
                elif isinstance(n, ast.withitem):
                    self.expr(n.context_expr, m)
            self.bind(m, *stored(s))
            self.maybe += 1
            self.block(s.body, m)
            self.block(getattr(s, "orelse", []), m)
            self.maybe -= 1
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    m.open = True
        else:
            for n in ast.iter_child_nodes(s):
                if isinstance(n, ast.expr):
                    if isinstance(s, ast.AnnAssign) and n is s.annotation and m.future:
                        continue
                    self.expr(n, m)
            self.bind(m, *stored(s))
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) or isinstance(s, ast.Assign) and any(isinstance(t, ast.Subscript) for t in s.targets):
                if any(isinstance(x, ast.Name) and x.id in ("globals", "setattr", "vars", "exec") for x in ast.walk(s)):
                    m.open = True

    def function(self, s, m, local):
        for d in s.decorator_list:
            self.expr(d, m, local)
        a = s.args
        for d in a.defaults + [d for d in a.kw_defaults if d is not None]:
            self.expr(d, m, local)
        if not m.future:
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                if x.annotation is not None:
                    self.expr(x.annotation, m, local)
            if s.returns is not None:
                self.expr(s.returns, m, local)

    def klass(self, s, m, outer):
        for e in s.decorator_list + s.bases + [k.value for k in s.keywords]:
            self.expr(e, m, outer)
        local = set()
        for x in s.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.function(x, m, local)
                local.add(x.name)
            elif isinstance(x, ast.ClassDef):
                self.klass(x, m, local)
                local.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                local |= {(a.asname or a.name).split(".")[0] for a in x.names}
            elif isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Expr)):
                for n in ast.iter_child_nodes(x):
                    if isinstance(n, ast.expr) and not (isinstance(x, ast.AnnAssign) and n is x.annotation and m.future):
                        self.expr(n, m, local)
                local |= stored(x)
            else:
                local |= stored(x)

    def expr(self, e, m, local=frozenset()):
        """Names and module members an expression evaluates while the module is imported."""
        if isinstance(e, ast.Lambda) or e is None:
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            inner = set(local) | stored(e)
            self.expr(e.generators[0].iter, m, local)
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    self.name(n, m, inner)
            return
        if isinstance(e, ast.Attribute):
            chain, x = [], e
            while isinstance(x, ast.Attribute):
                chain.append(x.attr)
                x = x.value
            if isinstance(x, ast.Name) and x.id in m.alias and x.id not in local:
                self.name(x, m, local)
                cur = m.alias[x.id]
                for attr in reversed(chain):
                    mm = self.mods.get(cur)
                    if mm is None:
                        return
                    self.uses += 1
                    sub = f"{cur}.{attr}"
                    if self.has(mm, attr):
                        if sub in self.sources and attr not in own_names(mm.tree):
                            cur = sub
                            continue
                        return
                    if mm.open:
                        return
                    if sub in self.mods:
                        cur = sub
                        continue
                    self.fail(f"{cur} has no attribute {attr}" + ("" if mm.done else " yet (circular import)"), m, e.lineno)
                    return
                return
        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load):
            self.name(e, m, local)
            return
        if isinstance(e, ast.NamedExpr):
            self.bind(m, e.target.id)
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.expr):
                self.expr(n, m, local)
            elif isinstance(n, ast.keyword):
                self.expr(n.value, m, local)

    def name(self, n, m, local):
        self.uses += 1
        if n.id in local or n.id in m.bound or n.id in BUILTINS or m.open:
            return
        self.fail(f"name {n.id!r} is not defined", m, n.lineno)


def stored(s):
    out = set()
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
    return out


_OWN = {}


def own_names(tree):
    """Names a module binds itself (as opposed to its submodules)."""
    if id(tree) not in _OWN:
        out = set()
        for s in ast.walk(tree):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                out.add(s.name)
            elif isinstance(s, ast.Assign):
                out |= stored(s)
        _OWN[id(tree)] = (tree, out)
    return _OWN[id(tree)][1]


def exported(m):
    """The constant names of __all__; None when there is none."""
    names = None
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in s.targets) and isinstance(s.value, (ast.List, ast.Tuple)):
            names = [e.value for e in s.value.elts if isinstance(e, ast.Constant) and isinstance(e.value, str)]
    return names


def _type_checking(t):
    return isinstance(t, ast.Name) and t.id == "TYPE_CHECKING" or isinstance(t, ast.Attribute) and t.attr == "TYPE_CHECKING"


def _is_main(t):
    return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__"


def global_uses(path, text):
    """(name, function, line) of every global name the functions of a module refer to, and the names declared global."""
    out = []

    def walk(t):
        if t.get_type() == "function":
            for s in t.get_symbols():
                if s.is_global() and s.is_referenced():
                    out.append((s.get_name(), t.get_name(), t.get_lineno()))
        for c in t.get_children():
            walk(c)
    walk(symtable.symtable(text, path, "exec"))
    return out


STDLIB = set(sys.stdlib_module_names)
