"""Connecting to a storage: unavailability and credentials (P21)."""
from __future__ import annotations

from ..drive import new_interp
from ..values import AV, Facets, const, string
from .persist import BASE, CODE, ERR, S, STORE, Store, keys_of, site_of
from .registry import check
from .testing import heap_list, hooked, last_site

SECRET = "param:connection_string"
PART = "part:connection_string"
CUTS = ("split", "rsplit", "partition", "rpartition", "replace", "sub", "subn", "urlparse", "urlsplit", "make_url", "removeprefix", "find", "index", "findall", "match", "search",
        "startswith", "endswith", "count", "sha256", "md5", "hash", "len", "bool")
OTHERS = {"create_engine": ("builtins.ModuleNotFoundError", "builtins.ValueError", "sqlalchemy.exc.NoSuchModuleError"),
          "connect": ("builtins.OSError", "builtins.UnicodeDecodeError", "sqlalchemy.exc.InterfaceError", "sqlalchemy.exc.ProgrammingError", "sqlalchemy.exc.TimeoutError"),
          "create_all": ("sqlalchemy.exc.ProgrammingError", "sqlalchemy.exc.InternalError", "builtins.TypeError")}
SINKS = ("logging.", "builtins.print", "warnings.warn", "sys.stderr", "sys.stdout", "loguru.", "traceback.", "structlog.")


def deps_of(I, v, st, depth=0):
    d = set(I.eff_deps(v, st))
    if depth < 3:
        for a in v.atoms:
            if a[0] == "t":
                for x in a[1]:
                    d |= deps_of(I, x, st, depth + 1)
            elif a[0] == "r" and a[1] in st.heap:
                o = st.heap[a[1]]
                if o.kind == "ext" and o.extra and o.extra.startswith("builtins.") or o.kind in ("list", "dict"):
                    for x in list(o.attrs.values()) + list(o.elems or ()):
                        if isinstance(x, AV):
                            d |= deps_of(I, x, st, depth + 1)
    return d


class Secrets:
    """What library calls do with the connection string: parts of it no longer are the string, the engine hides the password."""

    def __init__(self):
        self.unknown = set()

    def relabel(self, v, deps):
        return AV(v.atoms, v.f.but(deps=frozenset(deps)))

    def op(self, I, op, ops, node, st, fr):
        if op == "Subscript" and SECRET in I.eff_deps(ops[0], st):
            return string(Facets(deps=frozenset({PART}), rank=0))
        return None

    def __call__(self, I, kind, name, recv, args, kwargs, st, fr, node):
        url = recv is not None and any(o.kind == "ext" and o.extra == "db.url" for _, o in I.objs(recv, st))
        if kind == "getattr" and url and name in ("password", "username", "host", "port", "database", "drivername", "query"):
            return string(Facets(deps=frozenset({SECRET if name == "password" else PART}), rank=0))
        if kind != "call":
            return None
        if url and name.startswith("db.url."):
            m = name[7:]
            if m == "render_as_string":
                h = args[0] if args else kwargs.get("hide_password", const(True))
                ok, c = h.const()
                if not ok:
                    self.unknown.add("render_as_string")
                return string(Facets(deps=frozenset({SECRET if ok and not c else PART}), rank=0))
            if m == "set":
                return recv
            return string(Facets(deps=frozenset({PART}), rank=0))
        if name.startswith("db.engine.url"):
            return None
        vals = list(args) + list(kwargs.values()) + ([recv] if recv is not None else [])
        if name.rsplit(".", 1)[-1] in CUTS and any(SECRET in I.eff_deps(v, st) for v in vals):
            return string(Facets(deps=frozenset({PART}), rank=0))
        return None


def leaks(I, T, c0, s):
    """(what, site) of every place the connection string reaches a log, a stream or an exception; and places that hold parts of it."""
    out, parts = [], []
    for c in I.calls[c0:]:
        if c[0].startswith(SINKS):
            d = set()
            for v in list(c[1]) + list(c[2].values()):
                d |= deps_of(I, v, s.st)
            if SECRET in d:
                out.append((f"passed to {c[0]}", c[3]))
            elif PART in d:
                parts.append((f"a part of it is passed to {c[0]}", c[3]))
    for v, st, site in s.raises:
        d = deps_of(I, v, st)
        if SECRET in d:
            out.append(("in an exception", site))
        elif PART in d:
            parts.append(("a part of it is in an exception", site))
    return out, parts


def kind_of(v, st):
    out = set()
    for a in v.atoms:
        if a[0] == "x":
            out.add(a[1])
        elif a[0] == "r" and a[1] in st.heap:
            o = st.heap[a[1]]
            out.add(o.cls.qualname if o.cls is not None else str(o.extra))
        else:
            out.add("?")
    return out


@check("P21", "abstract interpretation over a modelled database, with taint tracking",
       "Connecting is interpreted with each of its steps failing (engine, connection, table creation) and with none: init must raise ConnectionError on any of them, create_safe must return None, "
       "and otherwise a storage whose tables exist. The connection string is tainted and followed through every operation of the storage, failing and not, into log calls, streams "
       "and exception messages.",
       "A message built from a part of the connection string (split, replaced, parsed) is left undecided unless the part is the password.")
def p21(rep, root, tier):
    I = new_interp(root)
    keys, _ = keys_of(I, rep)
    rep.rule = "failure => ConnectionError from init, None from create_safe; success => tables exist; the connection string never reaches logs, streams, exceptions"
    url = string(Facets(deps=frozenset({SECRET}), rank=0))
    ops = ("create_engine", "connect", "create_all")
    isite, csite = site_of(I, "init"), site_of(I, "create_safe")
    for fault, exc in ((None, None), *(((o, 1), x) for o in ops for x in (None, *OTHERS[o]))):
        how = f"{fault[0]} failing" + (f" with {exc.rsplit('.', 1)[-1]}" if exc else "") if fault else "a healthy database"
        for entry in ("init", "create_safe"):
            X = Secrets()
            with hooked(I, X), Store(I, f"connect/{entry}/{fault}", BASE, keys, url, build=False) as T:
                s = T.s
                I.op_hook = lambda *a: X.op(*a) or T.db.op(*a)
                T.db.fault, T.db.counts, T.db.exc = fault, {}, exc
                c0 = len(I.calls)
                cls = s.cls(s.get(STORE))
                if entry == "create_safe":
                    site = csite
                    v = s.call(s.get(STORE + ".create_safe"), url, const("Local"))
                else:
                    site = isite
                    o = s.new(cls, url)
                    v = s.meth(o, "init") if o is not None else None
                    if o is None and fault and fault[0] == "create_engine":
                        rep.ok()
                        continue
                rep.count("connections")
                hit = any(x[0].endswith(" fails") for x in T.db.log)
                what = f"{entry} with {how}"
                if T.db.unknown or X.unknown:
                    rep.unsure(entry, f"{what}: {', '.join(sorted(T.db.unknown | X.unknown))}")
                    continue
                good = True
                if T.sure():
                    good = outcome(rep, I, T, entry, fault, hit, v, what, site)
                else:
                    rep.unsure(entry, f"{what}: {T.why()}")
                spill(rep, I, T, c0, entry, what)
                if good:
                    rep.ok(what)
    for op in ("insert_data", "insert_bulk_data", "delete_data", "get_data", "get_data_for_cv", "get_bulk_data", "__repr__", "__str__"):
        if op.startswith("__") and T.s.cls(T.s.get(STORE)).lookup(op)[1] is None:
            continue
        for fault in (None, ("commit", 1), ("execute", 1), ("merge", 1)):
            X = Secrets()
            with hooked(I, X), Store(I, f"use/{op}/{fault}", BASE, keys, url) as T:
                I.op_hook = lambda *a: X.op(*a) or T.db.op(*a)
                c0 = len(I.calls)
                if op.startswith("insert"):
                    m = T.model("row", exp=1)
                    T.db.fault, T.db.counts = fault, {}
                    v = T.run(op, m if op == "insert_data" else heap_list(T.s, [m]))
                else:
                    T.db.fault, T.db.counts = fault, {}
                    q = [T.exact()] if op in ("delete_data", "get_data") else [T.query("CriticalValueQuery", criterion_code=const(CODE), sample_size=T.n(str(S)), sample_size_error=T.n(str(ERR)))] \
                        if op == "get_data_for_cv" else [heap_list(T.s, [const(CODE)]), T.n(str(S))] if op == "get_bulk_data" else []
                    v = T.run(op, *q)
                rep.count("operations")
                what = f"{op}" + (f" with {fault[0]} failing" if fault else "")
                if op.startswith("__") and v is not None and SECRET in deps_of(I, v, T.s.st):
                    rep.violation(f"leak:{op}", f"{op} of the storage contains the connection string", site_of(I, op))
                spill(rep, I, T, c0, op, what)


def outcome(rep, I, T, entry, fault, hit, v, what, site):
    s = T.s
    if fault and not hit:
        rep.unsure(entry, f"{what}: the operation is not reached")
        return False
    none = v is not None and v.const() == (True, None)
    if entry == "create_safe":
        if fault:
            if v is None:
                rep.violation("create_safe:raises", f"{what}: raises instead of returning None", last_site(s) or site)
                return False
            if not none:
                rep.violation("create_safe:result", f"{what}: returns a storage that is not usable", site)
                return False
            return True
        if v is None or none:
            rep.violation("create_safe:none", f"{what}: {'raises' if v is None else 'returns None'}", site)
            return False
        if not T.db.created:
            rep.violation("create_safe:tables", f"{what}: the storage has no tables", site)
            return False
        return True
    if fault:
        if v is not None:
            rep.violation("init:swallowed", f"{what}: returns as if the database were available", site)
            return False
        kinds = set()
        for x, st, _ in s.last_raises:
            kinds |= kind_of(x, st)
        if "?" in kinds:
            rep.unsure(entry, f"{what}: the exception is not known")
            return False
        bad = [k for k in kinds if k.rsplit(".", 1)[-1] not in ("ConnectionError", "ConnectionRefusedError", "ConnectionAbortedError", "ConnectionResetError", "BrokenPipeError")]
        mine = [k for k in bad if k.startswith("pysatl_criterion")]
        if mine:
            rep.unsure(entry, f"{what}: raises {mine[0]}")
            return False
        if bad:
            rep.violation("init:exception", f"{what}: raises {bad[0]}, not ConnectionError", s.last_raises[0][2])
            return False
        return True
    if v is None:
        rep.violation("init:raises", f"{what}: raises", last_site(s) or site)
        return False
    if not T.db.created:
        rep.violation("init:tables", f"{what}: the tables are not created", site)
        return False
    return True


def spill(rep, I, T, c0, op, what):
    out, parts = leaks(I, T, c0, T.s)
    for w, at in out:
        rep.violation(f"leak:{op}", f"{what}: the connection string, password included, is {w}", at)
    for w, at in parts:
        rep.unsure(f"leak:{op}", f"{what}: {w}")
    if not out and not parts:
        rep.ok()
