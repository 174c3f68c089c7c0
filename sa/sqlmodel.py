"""A model of the database layer (SQLAlchemy): sessions, statements over one mapped class, transactions.

Rows are abstract objects whose columns are symbols or constants; predicates are decided by the order of terms that the
scenario assumes. Whatever is not modelled marks the run as unknown, so that nothing is concluded from it."""
from __future__ import annotations

import json
import re

import sympy

from . import models
from .interp import Dead
from .values import AV, C, Facets, Obj, const, num, string, unk

E = "sqlalchemy.exc."
CMP = {"Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"}
FLIP = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE", "Eq": "Eq", "NotEq": "NotEq"}
READS = {"execute", "scalars", "scalar", "query", "get"}


def wild(t):
    """A LIKE pattern as a regular expression."""
    return "".join(".*" if c == "%" else ("." if c == "_" else re.escape(c)) for c in t)


def _not(x):
    return None if x is None else not x


def _all(xs):
    xs = list(xs)
    return False if any(x is False for x in xs) else (None if any(x is None for x in xs) else True)


def _any(xs):
    return _not(_all(_not(x) for x in xs))


class Db:
    """One database; the rows are persistent ORM instances (oids in the state's heap)."""

    def __init__(self, I, orm, keys, order):
        self.I, self.orm, self.keys, self.order = I, orm, tuple(keys), order
        self.rows = []
        self.log = []           # (operation, session, site)
        self.meta = {}
        self.unknown = set()
        self.fault = None       # (operation, n): the n-th such operation fails
        self.exc = None         # the exception it fails with, when not the usual one
        self.counts = {}
        self.sessions = {}      # session id -> {"open", "pending"}
        self.created = False
        self.columns = [n for k in reversed(orm.mro) for n, _ in k.annotations]

    # -- objects
    def ext(self, st, name, meta=None, deps=frozenset()):
        oid = self.I.fresh()
        st.heap[oid] = Obj("ext", extra=name, f=Facets(deps=deps), roots=frozenset({oid}))
        if meta is not None:
            self.meta[oid] = meta
        return AV(frozenset({("r", oid)}))

    def m(self, v, kind, st):
        """Description of the one object of this kind the value is; None otherwise."""
        if v is None or len(v.atoms) != 1:
            return None
        a = next(iter(v.atoms))
        if a[0] != "r":
            return None
        o = st.heap.get(a[1])
        if o is None or o.kind != "ext" or o.extra != kind:
            return None
        return self.meta.get(a[1])

    def seq(self, st, xs):
        oid = self.I.fresh()
        st.heap[oid] = Obj("list", elems=tuple(xs), f=Facets(rank=1), roots=frozenset({oid}))
        return AV(frozenset({("r", oid)}))

    def dunno(self, what):
        self.unknown.add(what)
        return unk()

    def fail(self, exc, st, node, fr):
        self.I.do_raise(AV(frozenset({("x", exc)})), st, node, fr)
        raise Dead()

    # -- values
    def same(self, a, b, st):
        oka, va = a.const()
        okb, vb = b.const()
        ta, tb = a.f.term, b.f.term
        if not (oka and okb) and ta is not None and tb is not None and not (oka and isinstance(va, str)) and not (okb and isinstance(vb, str)):
            o = self.order(ta, tb)
            return None if o is None else o == 0
        return models.same_value(self.I, a, b, st)

    def less(self, a, b):
        """Sign of a - b."""
        oka, va = a.const()
        okb, vb = b.const()
        if oka and okb and isinstance(va, (int, float, str)) and isinstance(vb, (int, float, str)) and isinstance(va, str) == isinstance(vb, str):
            return (va > vb) - (va < vb)
        ta, tb = a.f.term, b.f.term
        return None if ta is None or tb is None else self.order(ta, tb)

    def col(self, row, name, st):
        o = st.heap.get(row)
        return o.attrs.get(name) if o is not None else None

    def holds(self, p, row, st):
        k = p[0]
        if k == "and":
            return _all(self.holds(x, row, st) for x in p[1])
        if k == "or":
            return _any(self.holds(x, row, st) for x in p[1])
        if k == "not":
            return _not(self.holds(p[1], row, st))
        if k == "const":
            return p[1]
        if k == "cmp":
            a = self.value(p[2], row, st)
            b = self.value(p[3], row, st)
            if a is None or b is None:
                return None
            if p[1] in ("Eq", "NotEq"):
                r = self.same(a, b, st)
                return r if p[1] == "Eq" else _not(r)
            s = self.less(a, b)
            if s is None:
                return None
            return {"Lt": s < 0, "LtE": s <= 0, "Gt": s > 0, "GtE": s >= 0}[p[1]]
        if k == "like":
            a = self.value(p[1], row, st)
            ok, c = a.const() if a is not None else (False, None)
            return bool(re.fullmatch(p[2], c, re.S | re.I)) if ok and isinstance(c, str) else None
        if k == "in":
            a = self.value(p[1], row, st)
            if a is None or p[2] is None:
                return None
            return _any(self.same(a, x, st) for x in p[2])
        if k == "between":
            a = self.value(p[1], row, st)
            if a is None:
                return None
            lo, hi = self.less(p[2], a), self.less(a, p[3])
            return _all([None if lo is None else lo <= 0, None if hi is None else hi <= 0])
        return None

    def value(self, x, row, st):
        """x: ("col", name) or an abstract value."""
        if not isinstance(x, tuple):
            return x
        if not isinstance(x[1], tuple):
            return self.col(row, x[1], st)
        if x[1][0] == "pred":
            h = self.holds(x[1][1], row, st)
            return None if h is None else const(int(h))
        if x[1][1] in ("lower", "upper"):
            v = self.value(x[1][2][0], row, st)
            ok, c = v.const() if v is not None else (False, None)
            return const(getattr(c, x[1][1])()) if ok and isinstance(c, str) else None
        vs = [self.value(y, row, st) for y in x[1][2]]
        ts = [None if v is None else (v.f.term if v.f.term is not None else (sympy.sympify(v.const()[1]) if v.const()[0] and isinstance(v.const()[1], (int, float)) else None)) for v in vs]
        if any(t is None for t in ts):
            return None
        t = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "USub": lambda a: -a, "abs": sympy.Abs}[x[1][1]](*ts)
        return num(Facets(rank=0, term=t))

    def term(self, v, st):
        c = self.m(v, "db.column", st)
        if c is not None:
            return ("col", c["col"])
        return v

    # -- predicates out of operators
    def op(self, I, op, ops, node, st, fr):
        if any(self.m(v, "db.column", st) is not None or self.m(v, "db.pred", st) is not None for v in ops):
            if op in CMP:
                return self.ext(st, "db.pred", {"p": ("cmp", op, self.term(ops[0], st), self.term(ops[1], st))})
            ps = [self.m(v, "db.pred", st) for v in ops]
            if op in ("BitAnd", "BitOr") and all(p is not None for p in ps):
                return self.ext(st, "db.pred", {"p": ("and" if op == "BitAnd" else "or", [p["p"] for p in ps])})
            if op == "Invert" and ps[0] is not None:
                return self.ext(st, "db.pred", {"p": ("not", ps[0]["p"])})
            if op in ("Add", "Sub", "Mult", "USub") and not any(p is not None for p in ps):
                return self.ext(st, "db.column", {"col": ("expr", op, [self.term(v, st) for v in ops])})
            return self.dunno(f"operator {op} on a column")
        return None

    # -- library calls
    def __call__(self, I, kind, name, recv, args, kwargs, st, fr, node):
        if kind == "classattr":
            c = next((a[1] for a in recv.atoms if a[0] == "k"), None)
            if c is not None and self.orm in c.mro and name in self.columns:
                return self.ext(st, "db.column", {"col": name})
            return None
        if kind == "enter":
            return self.enter(name, recv, st, fr, node)
        if kind in ("exit", "exit-raise"):
            return self.leave(name, recv, kind == "exit-raise", st, fr, node)
        if kind == "getattr":
            return self.getattr_(name, recv, st)
        if kind != "call":
            return None
        if name in ("json.dumps", "json.loads"):
            return self.json(name, args, kwargs, st)
        if name == "sqlalchemy.create_engine":
            self.strike("create_engine", st, node, fr, "ArgumentError")
            self.log.append(("create_engine", None, I.site(node, fr)))
            d = frozenset().union(*(I.eff_deps(a, st) for a in list(args) + list(kwargs.values()))) if args or kwargs else frozenset()
            return self.ext(st, "db.engine", {}, frozenset("engine:" + x for x in d))
        if name in ("sqlalchemy.orm.sessionmaker", "sqlalchemy.orm.scoped_session"):
            return self.ext(st, "db.factory", {})
        if name in ("db.factory.__call__", "sqlalchemy.orm.Session", "sqlalchemy.orm.session.Session"):
            return self.session(I.site(node, fr), st)
        if name == "db.factory.begin":
            v = self.session(I.site(node, fr), st)
            return self.ext(st, "db.begin", {"session": v, "close": True})
        if name.endswith(".metadata.create_all") or name.endswith("metadata.create_all"):
            self.strike("create_all", st, node, fr)
            self.created = True
            self.log.append(("create_all", None, I.site(node, fr)))
            return const(None)
        if name.startswith("db.engine."):
            op = name[len("db.engine."):]
            if op in ("connect", "begin"):
                self.strike("connect", st, node, fr)
                self.log.append(("connect", None, I.site(node, fr)))
                return self.ext(st, "db.connection", {})
            if op == "dispose":
                return const(None)
            return self.dunno(name)
        if name.startswith("db.connection."):
            if name.endswith(".close"):
                return const(None)
            self.strike("execute", st, node, fr)
            return unk()
        if name in ("sqlalchemy.text", "sqlalchemy.literal"):
            return unk()
        if name in ("sqlalchemy.select", "sqlalchemy.delete", "sqlalchemy.sql.select", "sqlalchemy.future.select"):
            ents = self.entities(args, st)
            if ents is None or kwargs:
                return self.dunno(name)
            return self.ext(st, "db.stmt", {"kind": "delete" if name.endswith("delete") else "select", "ents": ents, "where": [], "order": [], "limit": None, "offset": None})
        if name in ("sqlalchemy.and_", "sqlalchemy.or_", "sqlalchemy.not_"):
            ps = [self.m(a, "db.pred", st) for a in args]
            if any(p is None for p in ps):
                return self.dunno(name)
            ps = [p["p"] for p in ps]
            return self.ext(st, "db.pred", {"p": ("not", ps[0]) if name.endswith("not_") else ("and" if "and" in name else "or", ps)})
        if name in ("sqlalchemy.func.lower", "sqlalchemy.func.upper") and len(args) == 1:
            fn = name.rsplit(".", 1)[1]
            if self.m(args[0], "db.column", st) is not None:
                return self.ext(st, "db.column", {"col": ("expr", fn, [self.term(args[0], st)])})
            ok, c = args[0].const()
            return const(getattr(c, fn)()) if ok and isinstance(c, str) else self.dunno(name)
        if name == "sqlalchemy.func.abs" and len(args) == 1 and self.m(args[0], "db.column", st) is not None:
            return self.ext(st, "db.column", {"col": ("expr", "abs", [self.term(args[0], st)])})
        if name in ("sqlalchemy.desc", "sqlalchemy.asc"):
            c = self.orderable(args[0], st) if args else None
            if c is None:
                return self.dunno(name)
            return self.ext(st, "db.order", {"key": (c, name.endswith("desc"))})
        if name.startswith("db.column."):
            return self.column(name[10:], recv, args, kwargs, st)
        if name.startswith("db.stmt."):
            return self.stmt(name[8:], recv, args, kwargs, st, fr, node)
        if name.startswith("db.session."):
            return self.op_session(name[11:], recv, args, kwargs, st, fr, node)
        if name.startswith("db.result."):
            return self.result(name[10:], recv, args, kwargs, st, fr, node)
        if name.startswith("db.begin."):
            return self.tx(name[9:], recv, st, fr, node)
        if name.startswith(("sqlalchemy.", "db.")):
            return self.dunno(name)
        return None

    def orderable(self, v, st):
        """What a value says about rows, as a sort key: a column, an expression or a condition."""
        c, p = self.m(v, "db.column", st), self.m(v, "db.pred", st)
        return c["col"] if c is not None else (("pred", p["p"]) if p is not None else None)

    def json(self, name, args, kwargs, st):
        if not args:
            return None
        kw = {}
        for k, v in kwargs.items():
            ok, c = v.const()
            if not ok:
                return None
            kw[k] = c
        try:
            if name == "json.dumps":
                ok, c = self.plain(args[0], st)
                return const(json.dumps(c, **kw)) if ok else None
            ok, c = args[0].const()
            return self.lift(json.loads(c, **kw), st) if ok and isinstance(c, (str, bytes)) else None
        except Exception:
            return None

    def plain(self, v, st):
        ok, c = v.const()
        if ok and (c is None or isinstance(c, (int, float, str))):
            return True, c
        if len(v.atoms) == 1 and next(iter(v.atoms))[0] == "t":
            k = next(iter(v.atoms))[1]
        else:
            k = self.I.known_elems(v, st)
        if k is not None:
            xs = [self.plain(x, st) for x in k]
            if all(o for o, _ in xs):
                return True, [x for _, x in xs]
        return False, None

    def lift(self, c, st):
        if isinstance(c, list):
            return self.seq(st, [self.lift(x, st) for x in c])
        return const(c)

    def entities(self, args, st):
        out = []
        for a in args:
            ks = [x[1] for x in a.atoms if x[0] == "k"]
            c = self.m(a, "db.column", st)
            if len(a.atoms) == 1 and ks and self.orm in ks[0].mro:
                out.append(None)
            elif c is not None:
                out.append(c["col"])
            else:
                return None
        return out or None

    def column(self, op, recv, args, kwargs, st):
        c = self.m(recv, "db.column", st)
        if c is None:
            return self.dunno("column method")
        x = ("col", c["col"])
        if op in ("desc", "asc"):
            return self.ext(st, "db.order", {"key": (c["col"], op == "desc")})
        if op == "between" and len(args) == 2:
            return self.ext(st, "db.pred", {"p": ("between", x, args[0], args[1])})
        if op in ("in_", "not_in", "notin_") and len(args) == 1:
            a = args[0]
            t = next(iter(a.atoms)) if len(a.atoms) == 1 else None
            ks = t[1] if t is not None and t[0] == "t" else self.I.known_elems(a, st)
            p = ("in", x, list(ks) if ks is not None else None)
            return self.ext(st, "db.pred", {"p": p if op == "in_" else ("not", p)})
        if op in ("like", "ilike", "startswith", "endswith", "contains", "not_like", "notlike", "not_ilike", "notilike") and len(args) == 1 and set(kwargs) <= {"autoescape", "escape"}:
            ok, c = args[0].const()
            if not ok or not isinstance(c, str):
                return self.dunno(f"column.{op}")
            auto = kwargs.get("autoescape", const(False)).const()
            if "escape" in kwargs or not auto[0]:
                return self.dunno(f"column.{op}")
            esc = (lambda t: re.escape(t)) if auto[1] else wild
            base = op.removeprefix("not_").removeprefix("not")
            rx = {"like": wild(c), "ilike": wild(c), "startswith": esc(c) + ".*", "endswith": ".*" + esc(c), "contains": ".*" + esc(c) + ".*"}[base]
            p = ("like", x, rx)                # the case of letters may or may not count, as in SQLite
            return self.ext(st, "db.pred", {"p": p if base == op else ("not", p)})
        if op in ("is_", "is_not", "isnot", "__eq__", "__ne__") and len(args) == 1:
            return self.ext(st, "db.pred", {"p": ("cmp", "Eq" if op in ("is_", "__eq__") else "NotEq", x, args[0])})
        return self.dunno(f"column.{op}")

    def preds(self, args, kwargs, st):
        out = []
        for a in args:
            p = self.m(a, "db.pred", st)
            ok, c = a.const()
            if p is not None:
                out.append(p["p"])
            elif ok and isinstance(c, bool):
                out.append(("const", c))
            else:
                self.dunno("condition")
                out.append(("?",))
        for k, v in kwargs.items():
            out.append(("cmp", "Eq", ("col", k), v))
        return out

    def stmt(self, op, recv, args, kwargs, st, fr, node):
        s = self.m(recv, "db.stmt", st)
        if s is None:
            return self.dunno("statement")
        s = {**s}
        if op in ("where", "filter", "filter_by"):
            s["where"] = s["where"] + self.preds(args, kwargs, st)
        elif op == "order_by":
            for a in args:
                o, c = self.m(a, "db.order", st), self.orderable(a, st)
                if o is None and c is None:
                    return self.dunno("order_by")
                s["order"] = s["order"] + [o["key"] if o is not None else (c, False)]
        elif op in ("limit", "offset"):
            ok, c = args[0].const() if args else (False, None)
            if not ok:
                return self.dunno(op)
            s[op] = c
        elif op in ("execution_options", "options", "with_for_update", "distinct"):
            if op == "distinct" and any(e is not None for e in s["ents"]):
                return self.dunno("distinct")
        elif "session" in s and op in ("all", "first", "one", "one_or_none", "count", "delete", "scalar"):
            if op == "delete":
                self.use(s["session"], "delete", st, node, fr)
                n = self.remove(s, s["session"], st)
                return const(n) if n is not None else unk()
            rows = self.select({**s, "limit": 1 if op == "first" else s["limit"]}, s["session"], st, node, fr)
            if op == "count":
                return const(len(rows)) if rows is not None else unk()
            v = self.rowset(rows, s["ents"], st, scalars=s["ents"] == [None])
            return self.result("all" if op == "all" else op, v, [], {}, st, fr, node)
        else:
            return self.dunno(f"statement.{op}")
        return self.ext(st, "db.stmt", s)

    # -- sessions
    def session(self, site, st):
        n = len(self.sessions) + 1
        self.sessions[n] = {"open": True, "pending": [], "site": site}
        self.log.append(("open", n, site))
        return self.ext(st, "db.session", {"id": n})

    def strike(self, op, st, node, fr, exc="OperationalError"):
        self.counts[op] = self.counts.get(op, 0) + 1
        if self.fault == (op, self.counts[op]):
            self.log.append((f"{op} fails", None, self.I.site(node, fr)))
            self.fail(self.exc or E + exc, st, node, fr)

    def use(self, n, op, st, node, fr):
        self.log.append((op, n, self.I.site(node, fr)))
        self.strike(op, st, node, fr)

    def view(self, n, st):
        rows = list(self.rows)
        for p in self.sessions[n]["pending"]:
            rows = self.applied(rows, p, st)
            if rows is None:
                return None
        return rows

    def samekey(self, a, b, st):
        out = []
        for k in self.keys:
            x, y = self.col(a, k, st), self.col(b, k, st)
            out.append(self.same(x, y, st) if x is not None and y is not None else None)
        return _all(out)

    def applied(self, rows, p, st):
        what, oid = p
        if what == "delete":
            return [r for r in rows if r != oid]
        out, hit = [], False
        for r in rows:
            k = self.samekey(r, oid, st)
            if k is None:
                self.dunno("row keys")
                return None
            if k:
                hit = True
                if what == "add":
                    return "conflict"
                out.append(oid)
            else:
                out.append(r)
        return out if hit else out + [oid]

    def select(self, s, n, st, node, fr):
        self.use(n, "execute", st, node, fr)
        rows = self.view(n, st)
        if rows == "conflict":
            self.fail(E + "IntegrityError", st, node, fr)
        if rows is None:
            return None
        out = []
        for r in rows:
            h = _all(self.holds(p, r, st) for p in s["where"])
            if h is None:
                self.dunno("a condition is not decided")
                return None
            if h:
                out.append(r)
        for col, desc in reversed(s["order"]):
            out = self.sorted(out, col, desc, st)
            if out is None:
                self.dunno("the order is not decided")
                return None
        if s.get("offset"):
            out = out[s["offset"]:]
        if s["limit"] is not None:
            out = out[:s["limit"]]
        return out

    def sorted(self, rows, col, desc, st):
        out = []
        for r in rows:
            i = len(out)
            while i > 0:
                a, b = self.value(("col", col), out[i - 1], st), self.value(("col", col), r, st)
                x = self.less(a, b) if a is not None and b is not None else None
                if x is None:
                    return None
                if (x < 0) if desc else (x > 0):
                    i -= 1
                else:
                    break
            out.insert(i, r)
        return out

    def remove(self, s, n, st):
        rows = self.view(n, st)
        if rows is None or rows == "conflict":
            self.dunno("rows")
            return None
        k = 0
        for r in rows:
            h = _all(self.holds(p, r, st) for p in s["where"])
            if h is None:
                self.dunno("a condition is not decided")
                return None
            if h:
                self.sessions[n]["pending"].append(("delete", r))
                k += 1
        return k

    def rowset(self, rows, ents, st, scalars):
        if rows is None:
            return unk()
        vals = []
        for r in rows:
            x = tuple(AV(frozenset({("r", r)})) if e is None else (self.value(("col", e), r, st) or unk()) for e in ents)
            vals.append(x[0] if scalars else AV(frozenset({("t", x)})))
        return self.results(vals, st)

    def results(self, vals, st):
        oid = self.I.fresh()
        st.heap[oid] = Obj("ext", extra="db.result", f=Facets(rank=1), roots=frozenset({oid}), elems=tuple(vals))
        self.meta[oid] = {"vals": list(vals)}
        return AV(frozenset({("r", oid)}))

    def op_session(self, op, recv, args, kwargs, st, fr, node):
        m = self.m(recv, "db.session", st)
        if m is None:
            return self.dunno("session")
        n = m["id"]
        S = self.sessions[n]
        if op in ("execute", "scalars", "scalar"):
            s = self.m(args[0], "db.stmt", st) if args else None
            if s is None:
                self.use(n, op, st, node, fr)
                return self.dunno("statement")
            if s["kind"] == "delete":
                self.use(n, "delete", st, node, fr)
                k = self.remove(s, n, st)
                return self.results([], st) if k is not None else unk()
            rows = self.select(s, n, st, node, fr)
            v = self.rowset(rows, s["ents"], st, scalars=op != "execute")
            return v if op != "scalar" else self.result("first", v, [], {}, st, fr, node)
        if op == "query":
            ents = self.entities(args, st)
            if ents is None:
                return self.dunno("query")
            return self.ext(st, "db.stmt", {"kind": "select", "ents": ents, "where": [], "order": [], "limit": None, "offset": None, "session": n})
        if op == "get":
            self.use(n, "execute", st, node, fr)
            pk = args[1] if len(args) > 1 else kwargs.get("ident")
            vals = None
            if pk is not None and len(pk.atoms) == 1 and next(iter(pk.atoms))[0] == "t":
                vals = dict(zip(self.keys, next(iter(pk.atoms))[1]))
            elif pk is not None:
                d = [o for _, o in self.I.objs(pk, st) if o.kind == "dict"]
                if len(d) == 1:
                    vals = {k.v: v for k, v in d[0].attrs.items()}
            if vals is None:
                return self.dunno("get")
            for r in self.view(n, st) or []:
                h = _all(self.same(self.col(r, k, st), v, st) if self.col(r, k, st) is not None else None for k, v in vals.items())
                if h is None:
                    return self.dunno("get")
                if h:
                    return AV(frozenset({("r", r)}))
            return const(None)
        if op in ("merge", "add", "delete"):
            os_ = [(i, o) for i, o in self.I.objs(args[0], st) if o.kind == "inst" and self.orm in o.cls.mro] if args else []
            if len(os_) != 1 or len(args[0].atoms) != 1:
                self.use(n, op, st, node, fr)
                return self.dunno(op)
            self.use(n, op, st, node, fr)
            oid, o = os_[0]
            if op != "delete":
                # what is stored does not change with the caller's object (not kept: tracked objects)
                new = self.I.fresh()
                st.heap[new] = o.but(extra="model", roots=frozenset({new}))
                S["pending"].append((op, new))
                return AV(frozenset({("r", new if op == "merge" else oid)}))
            S["pending"].append((op, oid))
            return const(None)
        if op in ("add_all", "bulk_save_objects"):
            k = self.I.known_elems(args[0], st) if args else None
            if k is None:
                self.use(n, "add", st, node, fr)
                return self.dunno(op)
            for x in k:
                self.op_session("add", recv, [x], {}, st, fr, node)
            return const(None)
        if op in ("flush", "refresh", "expire_all", "expunge", "expunge_all", "expire"):
            if op == "flush":
                self.use(n, "flush", st, node, fr)
                if self.view(n, st) == "conflict":
                    self.fail(E + "IntegrityError", st, node, fr)
            return const(None)
        if op == "commit":
            self.use(n, "commit", st, node, fr)
            self.commit(n, st, node, fr)
            return const(None)
        if op == "rollback":
            self.log.append(("rollback", n, self.I.site(node, fr)))
            S["pending"] = []
            return const(None)
        if op in ("close", "remove"):
            self.close(n, self.I.site(node, fr))
            return const(None)
        if op in ("begin", "begin_nested"):
            if op == "begin_nested":
                return self.dunno("begin_nested")
            return self.ext(st, "db.begin", {"session": recv, "close": False})
        return self.dunno(f"session.{op}")

    def commit(self, n, st, node, fr):
        rows = self.view(n, st)
        if rows == "conflict":
            self.sessions[n]["pending"] = []
            self.fail(E + "IntegrityError", st, node, fr)
        if rows is not None:
            self.rows = rows
        self.sessions[n]["pending"] = []

    def close(self, n, site):
        self.log.append(("close", n, site))
        self.sessions[n]["open"] = False
        self.sessions[n]["pending"] = []

    def tx(self, op, recv, st, fr, node):
        m = self.m(recv, "db.begin", st)
        if m is None:
            return self.dunno("transaction")
        return self.op_session(op, m["session"], [], {}, st, fr, node)

    def enter(self, name, recv, st, fr, node):
        if name in ("db.session", "db.connection"):
            return recv
        if name == "db.begin":
            m = self.m(recv, "db.begin", st)
            return m["session"] if m is not None else None
        return None

    def leave(self, name, recv, raised, st, fr, node):
        if name == "db.session":
            m = self.m(recv, name, st)
            if m is not None:
                self.close(m["id"], self.I.site(node, fr))
        if name == "db.begin":
            m = self.m(recv, name, st)
            if m is None:
                return None
            n = self.m(m["session"], "db.session", st)["id"]
            if raised:
                self.log.append(("rollback", n, self.I.site(node, fr)))
                self.sessions[n]["pending"] = []
            elif self.sessions[n]["open"]:
                try:
                    self.use(n, "commit", st, node, fr)
                    self.commit(n, st, node, fr)
                finally:
                    if m["close"]:
                        self.close(n, self.I.site(node, fr))
                return None
            if m["close"]:
                self.close(n, self.I.site(node, fr))
        return None

    def getattr_(self, name, recv, st):
        for oid, o in self.I.objs(recv, st):
            if o.kind == "ext" and o.extra == "db.engine" and name == "url":
                return self.ext(st, "db.url", {}, o.f.deps)
            if o.kind == "ext" and o.extra == "db.result" and name == "rowcount":
                return unk()
        return None

    def result(self, op, recv, args, kwargs, st, fr, node):
        m = self.m(recv, "db.result", st)
        if m is None:
            return unk()
        vals = m["vals"]
        first = lambda v: next(iter(v.atoms))[1][0] if len(v.atoms) == 1 and next(iter(v.atoms))[0] == "t" else v  # noqa: E731
        if op == "scalars":
            return self.results([first(v) for v in vals], st)
        if op in ("all", "fetchall", "to_list"):
            return self.seq(st, vals)
        if op in ("unique", "yield_per", "freeze"):
            return recv
        if op == "__iter__":
            return self.seq(st, vals)
        if op in ("first", "fetchone"):
            return vals[0] if vals else const(None)
        if op == "scalar":
            return first(vals[0]) if vals else const(None)
        if op in ("one", "one_or_none", "scalar_one", "scalar_one_or_none"):
            if len(vals) > 1:
                self.fail(E + "MultipleResultsFound", st, node, fr)
            if not vals:
                if op.endswith("none"):
                    return const(None)
                self.fail(E + "NoResultFound", st, node, fr)
            return first(vals[0]) if op.startswith("scalar") else vals[0]
        return self.dunno(f"result.{op}")


def row(I, st, orm, **cols):
    """A stored row."""
    oid = I.fresh()
    st.heap[oid] = Obj("inst", cls=orm, attrs=dict(cols), extra="model", roots=frozenset({oid}))
    return oid


__all__ = ["Db", "row", "C", "num", "string"]
