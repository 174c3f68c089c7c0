"""P27: the public surface can be imported, in any order, and is complete."""
from __future__ import annotations

import ast
import os
import re
import tomllib

from .. import imports, stats
from ..interp import AnalysisBroken
from .registry import check

MIN_MODULES = 60
PKG = stats.PKG
GOF = f"{PKG}.statistics.goodness_of_fit"
# names of the standard library younger than the oldest supported Python
SINCE = {
    11: {"typing": "Self LiteralString Never Required NotRequired TypeVarTuple Unpack assert_never assert_type reveal_type dataclass_transform get_overloads clear_overloads",
         "datetime": "UTC", "enum": "StrEnum ReprEnum EnumCheck FlagBoundary verify member nonmember property global_enum", "asyncio": "TaskGroup timeout timeout_at Runner Barrier",
         "math": "cbrt exp2", "contextlib": "chdir", "hashlib": "file_digest", "logging": "getLevelNamesMapping", "inspect": "getmembers_static ismethodwrapper", "operator": "call",
         "builtins": "ExceptionGroup BaseExceptionGroup EncodingWarning", "tomllib": "*", "string": "", "sqlite3": "Blob"},
    12: {"typing": "override TypeAliasType get_protocol_members", "types": "get_original_bases", "itertools": "batched", "math": "sumprod nextafter", "random": "binomialvariate",
         "inspect": "markcoroutinefunction getasyncgenstate", "collections.abc": "Buffer", "calendar": "Month Day", "sys": "monitoring activate_stack_trampoline"},
    13: {"warnings": "deprecated", "copy": "replace", "typing": "TypeIs ReadOnly NoDefault is_protocol get_protocol_members", "random": "", "math": "fma", "queue": "ShutDown", "os": "process_cpu_count"},
}
DIST = {"python-dotenv": "dotenv", "psycopg2-binary": "psycopg2", "typing-extensions": "typing_extensions", "scikit-learn": "sklearn", "pyyaml": "yaml", "python-dateutil": "dateutil"}


def project(root):
    """Declared dependencies, the oldest supported Python, and the documents of the repository."""
    top = os.path.dirname(os.path.abspath(root))
    base = top if os.path.exists(os.path.join(top, "pyproject.toml")) else "/repo"
    try:
        with open(os.path.join(base, "pyproject.toml"), "rb") as fh:
            d = tomllib.load(fh)
    except (OSError, tomllib.TOMLDecodeError) as e:
        raise AnalysisBroken(f"pyproject.toml: {e}") from e
    deps = d.get("tool", {}).get("poetry", {}).get("dependencies", {})
    names = set(deps) | {re.split(r"[<>=!~ \[;(]", x)[0] for x in d.get("project", {}).get("dependencies", [])}
    py = str(deps.get("python") or d.get("project", {}).get("requires-python", ""))
    m = re.search(r">=\s*3\.(\d+)|\^\s*3\.(\d+)|~\s*3\.(\d+)", py)
    oldest = int(next(g for g in m.groups() if g)) if m else None
    names.discard("python")
    if not names:
        raise AnalysisBroken("no declared dependencies found")
    return base, {DIST.get(n.lower(), n.lower().replace("-", "_")) for n in names}, oldest


def young(oldest):
    out = {}
    for v, t in SINCE.items():
        if oldest is not None and v > oldest:
            for m, ns in t.items():
                for n in ns.split():
                    out[(m, n)] = v
    return out


def external(deps, new):
    def known(name, member=False):
        if member:
            m, _, n = name.rpartition(".")
            return (m, n) not in new
        top = name.split(".")[0]
        return (top in imports.STDLIB or top in deps) and (top, "*") not in new
    return known


def check_modules(rep, I, srcs, ext):
    """Every module, imported first in a process of its own."""
    good = {}
    for name in sorted(srcs):
        P = imports.Imports(srcs, ext)
        try:
            P.load(name)
        except imports.Broken as e:
            at = e.mod.name if e.mod else name
            rep.violation(f"{at}:{e.msg.split(' (')[0]}", f"importing {name} first: {e.msg}", (e.mod.path if e.mod else srcs[name][0], e.line, at), {"imported": name})
            continue
        except RecursionError:
            rep.unsure(name, "the import could not be followed")
            continue
        for msg, mod, line, _ in P.log:
            rep.unsure(name, f"{mod.name}:{line}: {msg} on a conditional path")
        good[name] = P
        rep.count("names and members evaluated by imports", P.uses)
        rep.ok(f"import {name}")
    return good


def all_loaded(srcs, ext):
    P = imports.Imports(srcs, ext)
    for name in sorted(srcs):
        try:
            P.load(name)
        except (imports.Broken, RecursionError):
            pass
    return P


def check_exports(rep, P):
    for name, m in sorted(P.mods.items()):
        names = imports.exported(m)
        if names is None:
            continue
        for n in names:
            rep.count("exported names")
            if m.open or n in m.bound or f"{name}.{n}" in P.sources:
                rep.ok(f"{name}: {n}")
            else:
                rep.violation(f"{name}:__all__:{n}", f"{name} exports {n}, which it does not define", (m.path, 1, name))
        for n in sorted({x for x in names if names.count(x) > 1}):
            rep.unsure(name, f"{n} is exported twice")


def check_functions(rep, P, ext):
    """Imports, names and module members inside functions, which nothing evaluates before the function is called."""
    for name, m in sorted(P.mods.items()):
        with open(m.path, encoding="utf-8") as fh:
            text = fh.read()
        for n, f, line in imports.global_uses(m.path, text):
            rep.count("global names used by functions")
            if n not in m.bound and n not in imports.BUILTINS and not m.open and not declared_global(m.tree, n):
                rep.violation(f"{name}.{f}:{n}", f"{name}.{f} uses the name {n!r}, which is not defined", (m.path, line, f"{name}.{f}"))
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            guarded = {id(x) for t in ast.walk(fn) if isinstance(t, ast.Try) and t.handlers for s in t.body for x in ast.walk(s)}
            for s in ast.walk(fn):
                if isinstance(s, (ast.Import, ast.ImportFrom)) and id(s) not in guarded:
                    local_import(rep, P, ext, m, fn, s)
                elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == "import_module" and s.args and \
                        isinstance(s.args[0], ast.Constant) and isinstance(s.args[0].value, str) and s.args[0].value.split(".")[0] == PKG:
                    rep.count("imports inside functions")
                    if s.args[0].value not in P.sources:
                        rep.violation(f"{name}.{fn.name}:{s.args[0].value}", f"{name}.{fn.name} imports {s.args[0].value}, which does not exist", (m.path, s.lineno, f"{name}.{fn.name}"))


def declared_global(tree, n):
    return any(isinstance(x, ast.Global) and n in x.names for x in ast.walk(tree))


def local_import(rep, P, ext, m, fn, s):
    rep.count("imports inside functions")
    q = f"{m.name}.{fn.name}"
    site = (m.path, s.lineno, q)

    def missing(what):
        rep.violation(f"{q}:{what}", f"{q}: {what}", site)
    if isinstance(s, ast.Import):
        for a in s.names:
            if a.name.split(".")[0] == PKG:
                if a.name not in P.sources:
                    missing(f"module {a.name} does not exist")
            elif not ext(a.name):
                missing(f"module {a.name} is neither part of Python nor of a declared dependency")
        return
    src = P.absolute(s, m)
    if src.split(".")[0] != PKG:
        if not ext(src):
            missing(f"module {src} is neither part of Python nor of a declared dependency")
            return
        for a in s.names:
            if not ext(f"{src}.{a.name}", member=True):
                missing(f"cannot import {a.name} from {src} on every supported Python")
        return
    if src not in P.sources:
        missing(f"module {src} does not exist")
        return
    o = P.mods.get(src)
    for a in s.names:
        if o is not None and a.name != "*" and not o.open and a.name not in o.bound and f"{src}.{a.name}" not in P.sources:
            missing(f"cannot import {a.name} from {src}")


def check_documents(rep, P, base, srcs, ext):
    """The imports of the documentation's examples."""
    docs = [os.path.join(base, "README.md")]
    for d, dirs, files in os.walk(os.path.join(base, "docs")):
        docs += [os.path.join(d, f) for f in sorted(files) if f.endswith(".md")]
    for path in docs:
        try:
            with open(path, encoding="utf-8") as fh:
                text = fh.read()
        except OSError:
            continue
        for b in re.finditer(r"```(?:python|py)\n(.*?)```", text, re.S):
            line0 = text[:b.start(1)].count("\n") + 1
            try:
                tree = ast.parse(b.group(1))
            except SyntaxError:
                rep.unsure(f"{path}:{line0}", "the example is not a program")
                continue
            rep.count("examples in documents")
            rel = os.path.relpath(path, base)
            E = imports.Imports({**srcs, "__example__": (path, tree, False)}, ext)
            try:
                E.load("__example__")
                rep.ok(f"{rel}:{line0}")
            except imports.Broken as e:
                rep.violation(f"{rel}:{e.msg}", f"the example in {rel}: {e.msg}", (path, line0 + e.line - 1, rel))


def check_effects(rep, root):
    """Importing does nothing but define."""
    I = stats.new_interp(root)
    for name in sorted(I.p.sources):
        I.load(name)
    n = 0
    for e in I.events:
        if e[0] in ("rng", "io", "clock", "ext-write"):
            n += 1
            f, l, q = e[2], e[3], e[4]
            rep.violation(f"{q}:import:{e[0]}", f"importing {q.rsplit('.<', 1)[0]} has an effect ({e[0]}: {e[1]})", (f, l, q))
    if not n:
        rep.ok("no effect of importing any module")
    return I


@check("P27", "name resolution and import-order simulation on the syntax trees",
       "For every module of the package a process is simulated in which it is imported first: the modules its top-level statements run, in order, and the names bound at each moment, including "
       "partially initialised modules in import cycles, class bodies, decorators, defaults and annotations. Exported names, names and imports used inside functions, the imports of the "
       "documentation's examples, the availability of standard-library names on every supported Python, the completeness of the criteria's package and the effects of importing are checked.",
       "Names of third-party packages are not resolved, only that the package is declared. Statements on conditional paths are undecided rather than reported. Standard-library availability is a table.")
def p27(rep, root, tier):
    base, deps, oldest = project(root)
    I0 = stats.new_interp(root)
    new = young(oldest)
    ext = external(deps, new)
    rep.rule = "every module imports first, every promised or used name exists, nothing else happens"
    srcs = {}
    for n, (p, pkg) in I0.p.sources.items():
        t = I0.p.tree(n)
        srcs[n] = (p, t, pkg)
        if oldest is not None:
            with open(p, encoding="utf-8") as fh:
                text = fh.read()
            try:
                ast.parse(text, p, feature_version=(3, oldest))
            except SyntaxError as e:
                rep.violation(f"{n}:syntax", f"{n} is not valid on Python 3.{oldest}: {e.msg}", (p, e.lineno or 1, n))
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and (x.value.id, x.attr) in new and x.value.id in imported_modules(t):
                    rep.violation(f"{n}:{x.value.id}.{x.attr}", f"{n} uses {x.value.id}.{x.attr}, which only exists since Python 3.{new[(x.value.id, x.attr)]}", (p, x.lineno, n))
    rep.count("modules", len(srcs))
    rep.count("declared dependencies", len(deps))
    if len(srcs) < MIN_MODULES:
        raise AnalysisBroken(f"only {len(srcs)} modules found")
    check_modules(rep, I0, srcs, ext)
    P = all_loaded(srcs, ext)
    check_exports(rep, P)
    check_functions(rep, P, ext)
    check_documents(rep, P, base, srcs, ext)
    I = check_effects(rep, root)
    g = P.mods.get(GOF)
    if g is None:
        raise AnalysisBroken("the package of the criteria was not loaded")
    ex = imports.exported(g) or []
    for c in stats.concrete_statistics(I):
        rep.count("criteria")
        if c.name in ex or c.name in g.bound or g.open:
            rep.ok(f"{GOF}: {c.name}")
        else:
            rep.violation(f"{GOF}:{c.name}", f"{c.name} is not available from {GOF}", (c.module.path, c.node.lineno, c.qualname))


_MODS = {}


def imported_modules(tree):
    if id(tree) not in _MODS:
        _MODS[id(tree)] = (tree, {a.name for s in ast.walk(tree) if isinstance(s, ast.Import) for a in s.names if not a.asname})
    return _MODS[id(tree)][1]
