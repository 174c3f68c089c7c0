"""Stored distributions: writes, lookups, identity of what is stored (P16-P18)."""
from __future__ import annotations

import ast
import itertools

import sympy

from ..drive import PKG, Session, new_interp
from ..interp import AnalysisBroken
from ..sqlmodel import Db
from ..values import AV, Facets, const, num
from .registry import check
from .resolving import concretely
from .testing import func_site, heap_list, hooked, last_site

Q = "persistence.models.limit_distribution."
ORM = "persistence.sqlalchemy.models.limit_distribution_orm.LimitDistributionORM"
STORE = "persistence.sqlalchemy.datastorage.AlchemyLimitDistributionStorage"
KEY = ("experiment_id", "criterion_code", "criterion_parameters", "sample_size", "monte_carlo_count")
FIELDS = KEY + ("results_statistics",)
CODE, OTHER = "KS_NORM_GOODNESS", "AD_NORM_GOODNESS"
S, ERR, M = sympy.symbols("size size_error count")


class Valued:
    """The order of terms in a cell of the inputs, by points of the cell: decided only where all points agree."""

    def __init__(self, points):
        self.points = points
        self.memo = {}

    def __call__(self, a, b):
        k = (a, b)
        if k not in self.memo:
            self.memo[k] = self.sign(a, b)
        return self.memo[k]

    def value(self, t):
        """The term at the first point: what identifies a key."""
        try:
            x = sympy.sympify(t).subs(self.points[0])
            return float(x) if x.is_number and x.is_real else None
        except Exception:
            return None

    def sign(self, a, b):
        if a == b:
            return 0
        d = sympy.sympify(a) - sympy.sympify(b)
        out = set()
        for p in self.points:
            try:
                x = d.subs(p)
            except Exception:
                return None
            if not x.is_number or x.has(sympy.nan) or not x.is_real:
                return None
            out.add(0 if abs(float(x)) < 1e-9 else (1 if x > 0 else -1))
        return out.pop() if len(out) == 1 else None


BASE = [{S: 100, ERR: 8, M: 5000}, {S: 60, ERR: 5, M: 9000}]
POS = {"far below": lambda p: p[S] - p[ERR] - 7, "just below": lambda p: p[S] - p[ERR] - 1, "lower end": lambda p: p[S] - p[ERR],
       "below": lambda p: p[S] - p[ERR] // 2, "equal": lambda p: p[S], "above": lambda p: p[S] + p[ERR] // 2, "upper end": lambda p: p[S] + p[ERR],
       "just above": lambda p: p[S] + p[ERR] + 1, "far above": lambda p: p[S] + p[ERR] + 9}
INSIDE = {"lower end", "below", "equal", "above", "upper end"}


def sizes(rows, err=True):
    """Points in which row i has the given place and count level: rows = [(place, level)]."""
    out = []
    for b in BASE:
        p = dict(b)
        if not err:
            p[ERR] = 0
        for i, (pos, lv) in enumerate(rows):
            p[sympy.Symbol(f"n{i}")] = POS[pos](p)
            p[sympy.Symbol(f"m{i}")] = p[M] + lv * 500
        out.append(p)
    return out


def primary_key(I, orm):
    """Names of the primary-key columns; None when they are not found."""
    names = []
    for c in I.calls:
        if not (len(c[3]) > 2 and c[3][2] == orm.qualname):
            continue
        if c[0].endswith("PrimaryKeyConstraint"):
            for a in c[1]:
                ok, v = a.const()
                if not ok:
                    return None
                names.append(v)
    by_line = {}
    for k in orm.mro:
        for n, node in k.annotations:
            if node.value is not None:
                by_line[node.lineno] = n
                for ln in range(node.lineno, (node.end_lineno or node.lineno) + 1):
                    by_line.setdefault(ln, n)
    for c in I.calls:
        if c[0].endswith("mapped_column") and c[2].get("primary_key") is not None and c[2]["primary_key"].const() == (True, True):
            n = by_line.get(c[3][1])
            if n is None:
                return None
            names.append(n)
    return names or None


class Store:
    """A storage over one modelled database, in one cell of the inputs."""

    def __init__(self, I, label, points, keys, url=None, build=True):
        self.url, self.build = url if url is not None else const("sqlite://"), build
        self.I, self.s = I, Session(I, label)
        s = self.s
        self.order = Valued([dict(p) for p in points])
        self.orm = s.cls(s.get(ORM))
        self.db = Db(I, self.orm, keys, self.order)
        self.model_cls = s.get(Q + "LimitDistributionModel")
        self.tags = {}
        self.bare = []           # the tags of distributions without values
        self.store = None

    def __enter__(self):
        I = self.I
        self.h, self.c = hooked(I, self.db), concretely(I)
        self.h.__enter__()
        self.c.__enter__()
        I.order, I.op_hook = self.order, self.db.op
        self.forks0 = I.forks
        if not self.build:
            return self
        self.store = self.s.new(self.s.cls(self.s.get(STORE)), self.url)
        if self.store is None:
            raise AnalysisBroken("the storage cannot be built")
        return self

    def __exit__(self, *a):
        self.I.op_hook = None
        self.c.__exit__()
        self.h.__exit__()
        return False

    def n(self, name):
        return num(Facets(rank=0, term=sympy.Symbol(name), py=True, facts=frozenset({("int",)}), iv=(0, float("inf"), False)))

    def model(self, tag, exp=1, code=CODE, params=(0.0, 1.0), size=S, count=M, empty=False):
        s = self.s
        f = {"experiment_id": const(exp), "criterion_code": const(code), "criterion_parameters": heap_list(s, [const(x) for x in params]),
             "sample_size": self.n(str(size)), "monte_carlo_count": self.n(str(count)),
             "results_statistics": heap_list(s, [num(Facets(rank=0, term=sympy.Symbol(f"{tag}_{i}"), py=True)) for i in (() if empty else (1, 2, 3))])}
        if empty:
            self.bare.append(tag)
        for p in self.order.points:
            p.update({sympy.Symbol(f"{tag}_{i}"): x for i, x in ((1, sympy.Rational(5, 2)), (2, sympy.Rational(3, 2)), (3, sympy.Rational(5, 2)))})
        v = s.new(self.s.cls(self.model_cls), **f)
        if v is None:
            raise AnalysisBroken("LimitDistributionModel cannot be built")
        self.tags[tag] = {**f}
        return v

    def query(self, kind, **f):
        v = self.s.new(self.s.cls(self.s.get(Q + kind)), **f)
        if v is None:
            raise AnalysisBroken(f"{kind} cannot be built")
        return v

    def exact(self, code=CODE, params=(0.0, 1.0), size=S, count=M):
        return self.query("LimitDistributionQuery", criterion_code=const(code), criterion_parameters=heap_list(self.s, [const(x) for x in params]),
                          sample_size=self.n(str(size)), monte_carlo_count=self.n(str(count)))

    def put(self, *models):
        """Store rows; True when they are in the table as given, in this order."""
        for m in models:
            if self.s.meth(self.store, "insert_data", m) is None:
                return False
        return self.sure() and len(self.db.rows) == len(models) and not any(x["pending"] for x in self.db.sessions.values())

    def run(self, name, *args, **kwargs):
        self.log0, self.sess0 = len(self.db.log), len(self.db.sessions)
        v = self.s.meth(self.store, name, *args, **kwargs)
        return v

    def oplog(self):
        return self.db.log[self.log0:]

    def sure(self):
        return not self.db.unknown and self.I.forks == self.forks0

    def why(self):
        return ", ".join(sorted(self.db.unknown)) or "a branch depends on values that are not known"

    def tag(self, v, st=None):
        """Tag of a model or row value by its contents; '?' when it is not known, None for None."""
        st = st or self.s.st
        if v.const() == (True, None):
            return None
        x = self.I.getattr(v, "results_statistics", self.s.node(), st, self.s.fr)
        k = self.I.known_elems(x, st) if x is not None else None
        if k:
            t = str(k[0].f.term)
            if t.endswith("_1") and t[:-2] in self.tags:
                return t[:-2]
        if k is not None and not k and len(self.bare) == 1:
            return self.bare[0]
        return "?"

    def stored(self):
        st = self.s.st
        return [self.tag(AV(frozenset({("r", r)})), st) for r in self.db.rows]


def site_of(I, name):
    s = Session(I, "site")
    c = s.cls(s.get(STORE))
    return func_site(I, c, name)


def own_constants(I, mod, cap=4000):
    """More than any whole number the module's code is written with: no counter of its own stays below its limit."""
    if f"{PKG}.{mod}" not in I.p.sources:
        raise AnalysisBroken(f"{mod} does not exist")
    tree = I.p.tree(f"{PKG}.{mod}")
    ks = [n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and type(n.value) is int and n.value <= cap]
    return max(ks + [22]) + 2


def keys_of(I, rep):
    s = Session(I, "keys")
    orm = s.cls(s.get(ORM))
    k = primary_key(I, orm)
    if k is None:
        rep.unsure("primary key", "the primary key of the table is not recognised")
        return list(KEY), False
    return k, True


NEAR = [dict(code="KS_NORM_GOODNESS_2"), dict(code="KS_NORM"), dict(code="ks_norm_goodness"), dict(code=OTHER), dict(params=()), dict(params=(0.0,)),
        dict(params=(1.0, 0.0)), dict(params=(0.0, 1.0, 2.0)), dict(params=(0.0, 1.0 + 1e-11)), dict(params=(1e-12, 1.0)), dict(code="KSXNORM_GOODNESS"), dict(code="AKS_NORM_GOODNESS"), dict(size="n0"), dict(size="n1"), dict(count="m0"), dict(count="m1")]
NEARPT = sizes([("below", -1), ("above", 1)])


def brief(tags):
    return ", ".join(tags[:8]) + (f" and {len(tags) - 8} more" if len(tags) > 8 else "") or "empty"


def text(kw):
    return ", ".join(f"another {'criterion code' if k == 'code' else 'parameter list' if k == 'params' else 'sample size' if k == 'size' else 'Monte-Carlo count'}"
                     + (f" {v!r}" if k in ("code", "params") else {"n0": " (smaller)", "n1": " (larger)", "m0": " (smaller)", "m1": " (larger)"}[v])
                     for k, v in kw.items())


def judge(rep, T, key, got, want, what, site):
    """got: tags returned (set) or 'raise'; want: set of acceptable frozensets."""
    if not T.sure():
        rep.unsure("lookup", f"{what}: {T.why()}")
        return
    if got == "raise":
        rep.violation(key + ":raises", f"{what}: the lookup raises", last_site(T.s) or site)
    elif got is not None and "?" in got:
        rep.unsure("lookup", f"{what}: the result is not known")
    elif frozenset(got) not in want:
        show = lambda x: "nothing" if not x else ", ".join(sorted(map(str, x)))  # noqa: E731
        rep.violation(key, f"{what}: found {show(got)}, expected {' or '.join(show(w) for w in want)}", site)
    else:
        rep.ok()


def one(T, v):
    if v is None:
        return "raise"
    t = T.tag(v)
    return set() if t is None else {t}


@check("P17", "abstract interpretation over a modelled database",
       "The storage is interpreted against a model of SQLAlchemy sessions and statements: rows carry symbolic sizes and counts, and conditions are "
       "decided by their order. Exact lookups and deletions are run on tables with a matching row, rows that differ from the query in one part of "
       "the key, and two experiments; critical-value and bulk lookups on every placement of up to two (thorough: three) rows relative to the "
       "accepted size range and every order of their simulation counts. The rows found or deleted must be exactly those the query describes.",
       "Tables hold at most three candidate rows plus near misses; database calls outside the model leave an obligation undecided.")
def p17(rep, root, tier):
    I = new_interp(root)
    keys, _ = keys_of(I, rep)
    rep.rule = "get_data/delete_data: equal code, parameters, size, count; get_data_for_cv/get_bulk_data: equal code, |size - n| <= error, greatest count"
    exact_lookups(rep, I, keys)
    for fn in ("cv", "bulk"):
        ranged(rep, I, keys, fn, tier)
    bulk_codes(rep, I, keys)
    histories(rep, I, keys)


def exact_lookups(rep, I, keys):
    site = site_of(I, "get_data")
    dsite = site_of(I, "delete_data")
    cases = [("an empty table", [], ())]
    for kw in NEAR:
        cases.append((f"a stored distribution of {text(kw)}", [kw], ()))
    cases.append(("only other distributions", NEAR, ()))
    for at in (0, len(NEAR) // 2, len(NEAR)):
        rows = list(NEAR)
        rows.insert(at, dict(tag="match"))
        cases.append(("the distribution among others", rows, ("match",)))
    cases.append(("the distribution alone", [dict(tag="match")], ("match",)))
    cases.append(("the distribution of two experiments", [dict(tag="match", exp=1), dict(tag="match2", exp=2)], ("match", "match2")))
    cases.append(("the distribution of two experiments among others", [NEAR[5], dict(tag="match", exp=3), NEAR[9], dict(tag="match2", exp=2), NEAR[0]], ("match", "match2")))
    for what, rows, hits in cases:
        for op in ("get_data", "delete_data"):
            with Store(I, f"exact/{what}/{op}", NEARPT, keys) as T:
                ms = []
                for i, kw in enumerate(rows):
                    kw = dict(kw)
                    ms.append(T.model(kw.pop("tag", f"other{i}"), exp=kw.pop("exp", 100 + i), **kw))
                ok = T.put(*ms)
                rep.count("tables")
                if not ok:
                    rep.unsure(op, f"{what}: the rows cannot be prepared ({T.why()})")
                    continue
                before = T.stored()
                v = T.run(op, T.exact())
                if op == "get_data":
                    want = {frozenset({h}) for h in hits} or {frozenset()}
                    judge(rep, T, "get_data", one(T, v), want, f"get_data with {what}", site)
                else:
                    left = "raise" if v is None else set(T.stored())
                    if left == "raise" and not T.sure():
                        rep.unsure(op, f"{what}: {T.why()}")
                        continue
                    if left == "raise":
                        rep.violation("delete_data:raises", f"delete_data with {what} raises", last_site(T.s) or dsite)
                    elif not T.sure() or "?" in left:
                        rep.unsure(op, f"{what}: {T.why()}")
                    elif left != set(before) - set(hits):
                        lost, kept = set(before) - set(hits) - left, left & set(hits)
                        rep.violation("delete_data", f"delete_data with {what}: " + (f"{len(lost)} other distribution(s) deleted" if lost else
                                      f"{len(kept)} matching distribution(s) remain"), dsite)
                    else:
                        rep.ok()


def weak_orders(n):
    for lv in itertools.product(range(n), repeat=n):
        if set(lv) == set(range(len(set(lv)))):
            yield lv


def ranged(rep, I, keys, fn, tier):
    name = "get_data_for_cv" if fn == "cv" else "get_bulk_data"
    site = site_of(I, name)
    few = ("just below", "lower end", "equal", "upper end", "just above")
    tables = [(err, [(p, 0)]) for err in (True, False) for p in (POS if err else ("just below", "equal", "just above"))]
    for err in (True, False):
        for ps in itertools.product(few if err else ("just below", "equal", "just above"), repeat=2):
            tables += [(err, list(zip(ps, lv))) for lv in weak_orders(2)]
    if tier != "quick":
        for ps in itertools.product(few, repeat=3):
            tables += [(True, list(zip(ps, lv))) for lv in weak_orders(3)]
    else:
        tables += [(True, list(zip(ps, lv))) for ps in itertools.permutations(("lower end", "equal", "upper end")) for lv in weak_orders(3)]
        tables += [(True, list(zip(ps, (0, 1, 2)))) for ps in itertools.product(("equal", "just above"), repeat=3)]
    for err, rows in tables:
        inside = INSIDE if err else {"equal"}
        ok_rows = [(i, lv) for i, (p, lv) in enumerate(rows) if p in inside]
        best = max((lv for _, lv in ok_rows), default=None)
        want = {frozenset({f"row{i}"}) for i, lv in ok_rows if lv == best} or {frozenset()}
        what = f"{name} with " + (", ".join(f"a row {p} (count #{lv})" for p, lv in rows)) + (" of the accepted sizes" if err else " (no size error)")
        k = len(rows)
        pts = sizes(rows + [("equal", 9)], err)
        for default in ((False,) if err else (False, True)):
            with Store(I, f"ranged/{fn}", pts, keys) as T:
                ms = [T.model(f"row{i}", exp=i + 1, size=f"n{i}", count=f"m{i}", params=(float(i),)) for i in range(k)]
                ms.insert(1, T.model("other", exp=77, code=OTHER, size=f"n{k}", count=f"m{k}"))
                ok = T.put(*ms)
                rep.count("tables")
                if not ok:
                    rep.unsure(name, f"{what}: the rows cannot be prepared ({T.why()})")
                    continue
                ev = {} if default else {"sample_size_error": T.n(str(ERR))}
                if fn == "cv":
                    v = T.run(name, T.query("CriticalValueQuery", criterion_code=const(CODE), sample_size=T.n(str(S)), **ev))
                    got = one(T, v)
                else:
                    v = T.run(name, heap_list(T.s, [const(CODE)]), T.n(str(S)), **ev)
                    got = many(T, v)
                judge(rep, T, name, got, want, what, site)


def many(T, v):
    if v is None:
        return "raise"
    k = T.I.known_elems(v, T.s.st)
    if k is None:
        return {"?"}
    tags = [T.tag(x) for x in k]
    if len(set(tags)) != len(tags):
        return set(tags) | {"(repeated)"}
    return set(tags)


def bulk_codes(rep, I, keys):
    site = site_of(I, "get_bulk_data")
    rows = [("equal", 1), ("equal", 3), ("above", 2), ("equal", 0), ("just above", 8)]
    codes = [CODE, CODE, OTHER, "KS_NORM", OTHER]
    for asked, want in (([CODE], {1}), ([OTHER], {2}), ([CODE, OTHER], {1, 2}), ([OTHER, CODE, OTHER], {1, 2}), ([], set()), (["KS_NORM", "MISSING"], {3}),
                        ([CODE, "MISSING"], {1}), ([OTHER, "KS_NORM", CODE], {1, 2, 3})):
        with Store(I, "bulk", sizes(rows), keys) as T:
            ok = T.put(*[T.model(f"row{i}", exp=i, code=codes[i], size=f"n{i}", count=f"m{i}") for i in range(len(rows))])
            rep.count("tables")
            what = f"get_bulk_data for {len(asked)} codes"
            if not ok:
                rep.unsure("get_bulk_data", f"{what}: the rows cannot be prepared ({T.why()})")
                continue
            v = T.run("get_bulk_data", heap_list(T.s, [const(c) for c in asked]), T.n(str(S)), T.n(str(ERR)))
            judge(rep, T, "get_bulk_data:codes", many(T, v), {frozenset(f"row{i}" for i in want)}, what, site)


def histories(rep, I, keys):
    """Lookups see what was written before them (nothing is remembered across operations)."""
    for read in ("get_data", "get_data_for_cv", "get_bulk_data"):
        site = site_of(I, read)
        with Store(I, f"history/{read}", sizes([("equal", 1), ("equal", 2)]), keys) as T:
            def look():
                if read == "get_data":
                    return one(T, T.run(read, T.exact(count="m0")))
                if read == "get_data_for_cv":
                    return one(T, T.run(read, T.query("CriticalValueQuery", criterion_code=const(CODE), sample_size=T.n(str(S)), sample_size_error=T.n(str(ERR)))))
                return many(T, T.run(read, heap_list(T.s, [const(CODE)]), T.n(str(S)), T.n(str(ERR))))
            a = T.model("first", count="m0")
            b = T.model("second", exp=2 if read != "get_data" else 1, count="m1" if read != "get_data" else "m0")
            steps = [("before anything is stored", None, set()), ("after the first insertion", a, {"first"}), ("repeated", None, {"first"}),
                     ("after the second insertion", b, {"second"})]
            for what, m, want in steps:
                if m is not None and (T.run("insert_data", m) is None or not T.sure()):
                    rep.unsure(read, "history: " + T.why())
                    break
                rep.count("lookups in histories")
                judge(rep, T, read + ":history", look(), {frozenset(want)}, f"{read} {what}", site)
            else:
                T.run("delete_data", T.exact(count="m0"))
                T.run("delete_data", T.exact(count="m1"))
                if T.sure() and not T.db.rows:
                    judge(rep, T, read + ":history", look(), {frozenset()}, f"{read} after everything was deleted", site)


# ------------------------------------------------------------------------------------------- writes
@check("P16", "abstract interpretation over a modelled database",
       "Insertions and deletions are interpreted against a model of sessions and transactions, on empty and filled tables, and once for every database "
       "call they make with that call failing: a call that returns has stored (or removed) everything, a call that raises has changed nothing, every "
       "session it opened is closed again, and lookups write nothing.",
       "Failures are failures of single database calls; the database itself is assumed to honour commit and rollback.")
def p16(rep, root, tier):
    I = new_interp(root)
    keys, _ = keys_of(I, rep)
    rep.rule = "returned => committed; raised => table unchanged; every opened session closed; reads leave the table alone"
    pts = sizes([("below", -1), ("above", 1), ("far above", 2)])
    old = [dict(tag="same", exp=1), dict(tag="exp2", exp=2), dict(tag="size", size="n0"), dict(tag="count", count="m0"), dict(tag="params", params=(2.0,)), dict(tag="code", code=OTHER)]
    jobs = []
    for rows in ([], old[:1], old):
        names = {r["tag"] for r in rows}
        jobs.append(("insert_data", rows, [dict(tag="new")], (names - {"same"}) | {"new"}))
        jobs.append(("insert_bulk_data", rows, [dict(tag="new")], (names - {"same"}) | {"new"}))
        jobs.append(("insert_bulk_data", rows, [dict(tag="b1", exp=31), dict(tag="new"), dict(tag="b3", exp=33, code=OTHER)], (names - {"same"}) | {"new", "b1", "b3"}))
        jobs.append(("insert_bulk_data", rows, [dict(tag="b1"), dict(tag="b2", size="n1"), dict(tag="b3")], (names - {"same"}) | {"b3", "b2"}))
        jobs.append(("insert_bulk_data", rows, [], names))
        jobs.append(("insert_data", rows, [dict(tag="new", exp=0, params=(), empty=True)], names | {"new"}))
        jobs.append(("insert_bulk_data", rows, [dict(tag="b1", exp=0, params=(), empty=True), dict(tag="b2", exp=5, params=(0.1 + 0.2,))], names | {"b1", "b2"}))
        jobs.append(("delete_data", rows, None, names - {"same", "exp2"}))
        for r in ("get_data", "get_data_for_cv", "get_bulk_data"):
            jobs.append((r, rows, None, names))
    wide = own_constants(I, STORE.rpartition(".")[0])
    rep.count("bulk size", wide)
    bulk = [dict(tag=f"w{i}", exp=100 + i) for i in range(wide)]
    jobs.append(("insert_bulk_data", old[:2], bulk, {r["tag"] for r in old[:2]} | {r["tag"] for r in bulk}))
    for op, rows, new, want in jobs:
        site = site_of(I, op)
        many = new is not None and len(new) > 20
        fault = None
        tried, seen = [None], {None}
        while tried:
            fault = tried.pop()
            with Store(I, f"write/{op}/{fault}", pts, keys) as T:
                ok = T.put(*[T.model(**r) for r in rows])
                if not ok:
                    rep.unsure(op, f"the rows cannot be prepared ({T.why()})")
                    break
                T.db.counts = {}
                T.db.fault = fault
                before = sorted(map(str, T.stored()))
                if op == "insert_data":
                    v = T.run(op, T.model(**new[0]))
                elif op == "insert_bulk_data":
                    v = T.run(op, heap_list(T.s, [T.model(**r) for r in new]))
                elif op in ("delete_data", "get_data"):
                    v = T.run(op, T.exact())
                elif op == "get_data_for_cv":
                    v = T.run(op, T.query("CriticalValueQuery", criterion_code=const(CODE), sample_size=T.n(str(S)), sample_size_error=T.n(str(ERR))))
                else:
                    v = T.run(op, heap_list(T.s, [const(CODE), const(OTHER)]), T.n(str(S)), T.n(str(ERR)))
                rep.count("runs")
                after = sorted(map(str, T.stored()))
                log = T.oplog()
                hit = fault is not None and any(x[0] == f"{fault[0]} fails" for x in log)
                what = f"{op} on a table of {len(rows)} row(s)" + (f", {len(new)} given" if new is not None else "") + (f", {fault[0]} #{fault[1]} failing" if fault else "")
                at = next((x[2] for x in log if x[0].endswith(" fails")), None) or site
                for x in log:
                    o = x[0]
                    if fault is None and o in ("execute", "merge", "add", "delete", "commit", "flush"):
                        c = sum(1 for y in log[:log.index(x)] if y[0] == o) + 1
                        n = sum(1 for y in log if y[0] == o)
                        for i in range(1, n + 1) if not many else (n,):
                            if (o, i) not in seen:
                                seen.add((o, i))
                                tried.append((o, i))
                        del c
                if not T.sure():
                    rep.unsure(op, f"{what}: {T.why()}")
                    continue
                good = True
                if fault is None and v is None:
                    rep.violation(f"{op}:raises", f"{what}: raises", last_site(T.s) or site)
                    good = False
                if v is not None and "?" not in after and after != sorted(want):
                    lost, extra = sorted(set(want) - set(after)), sorted(set(after) - set(want))
                    key = f"{op}:stored" if not op.startswith("get") else f"{op}:writes"
                    msg = f"{what}: the table holds {len(after)} row(s) afterwards"
                    if lost:
                        msg += f", missing {brief(lost)}"
                    if extra:
                        msg += f", with {brief(extra)} that should be gone"
                    if hit:
                        key, msg = f"{op}:swallowed", msg + " although no error is reported"
                    rep.violation(key, msg, at)
                    good = False
                if v is None and hit and "?" in after and len(after) == len(before):
                    rep.unsure(op, f"{what}: the rows are not known afterwards")
                    good = False
                elif v is None and hit and after != before:
                    rep.violation(f"{op}:partial", f"{what}: raises, but the table changed ({brief(before)} -> {brief(after)})", at)
                    good = False
                for n, sess in T.db.sessions.items():
                    if n > T.sess0 and sess["open"]:
                        rep.violation(f"{op}:session", f"{what}: a session is left open", sess["site"])
                        good = False
                    if n > T.sess0 and sess["pending"] and not sess["open"]:
                        pass
                if good:
                    rep.ok(f"{op}: {what}")


# ------------------------------------------------------------------------------------------- identity
@check("P18", "abstract interpretation over a modelled database",
       "Every field of a distribution is followed from the model through the mapped row and back: what is read is what was written, field by field, for "
       "symbolic values of each field. The primary key must separate distributions that differ in experiment, code, parameters, size or count, and "
       "initialising the storage must create the tables.",
       "Field values are symbols; the numeric codec of the result column is the subject of P19.")
def p18(rep, root, tier):
    I = new_interp(root)
    keys, known = keys_of(I, rep)
    rep.rule = "read(write(model)).field == model.field for each field; {experiment, code, parameters, size, count} within the primary key"
    s0 = Session(I, "orm")
    orm = s0.cls(s0.get(ORM))
    osite = func_site(I, orm, "from_model")
    if known:
        for k in KEY:
            if k in keys:
                rep.ok(f"primary key: {k}")
            else:
                rep.violation(f"key:{k}", f"the primary key does not contain {k}: distributions that differ only there replace each other", osite)
        for k in keys:
            if k not in KEY:
                rep.violation(f"key:{k}", f"the primary key contains {k}: storing a distribution again adds a second row", osite)
    for params in ((), (0.0, 1.0), (2.5,), (1.0, 0.0, -3.0), (0.1 + 0.2, 1e-12, 123456789.123456), (1e300, -1e-300)):
        for read in ("get_data", "get_data_for_cv", "get_bulk_data"):
            with Store(I, f"roundtrip/{read}", sizes([("equal", 0)]), keys) as T:
                m = T.model("row", exp=41, params=params, size=str(S), count=str(M))
                if not T.put(m):
                    rep.unsure(read, T.why())
                    continue
                rep.count("round trips")
                if read == "get_data":
                    v = T.run(read, T.exact(params=params))
                elif read == "get_data_for_cv":
                    v = T.run(read, T.query("CriticalValueQuery", criterion_code=const(CODE), sample_size=T.n(str(S))))
                else:
                    v = T.run(read, heap_list(T.s, [const(CODE)]), T.n(str(S)))
                    k = I.known_elems(v, T.s.st) if v is not None else None
                    v = k[0] if k and len(k) == 1 else None
                if v is None or v.const() == (True, None) or not T.sure():
                    rep.unsure(read, f"nothing read back ({T.why()})")
                    continue
                fields_equal(rep, T, v, T.tags["row"], f"stored, then read by {read}", osite)
                if read == "get_data" and T.tags["row"]:
                    fields_equal(rep, T, m, T.tags["row"], "after storing, the caller's model", osite)
    with Store(I, "init", BASE, keys) as T:
        v = T.run("init")
        rep.count("initialisations")
        site = site_of(I, "init")
        if not T.sure():
            rep.unsure("init", T.why())
        elif v is None:
            rep.violation("init:raises", "initialising the storage raises", last_site(T.s) or site)
        elif not T.db.created:
            rep.violation("init:tables", "initialising the storage does not create the tables", site)
        else:
            rep.ok()


def fields_equal(rep, T, v, want, what, site):
    for f in FIELDS:
        x = T.s.attr(v, f)
        if x is None:
            rep.violation(f"field:{f}", f"{what}: {f} is missing", site)
            continue
        r = T.db.same(x, want[f], T.s.st)
        if r is True:
            rep.ok()
        elif r is False:
            rep.violation(f"field:{f}", f"{what}: {f} is not the value that was stored", site)
        else:
            a, b = T.I.known_elems(x, T.s.st), T.I.known_elems(want[f], T.s.st)
            ts = [None if k is None else [e.f.term for e in k] for k in (a, b)]
            if ts[0] is not None and ts[1] is not None and None not in ts[0] and len(ts[0]) == len(ts[1]) and ts[0] != ts[1]:
                rep.violation(f"field:{f}", f"{what}: {f} is {ts[0]}, not the stored {ts[1]}", site)
            elif ts[0] is not None and ts[0] == ts[1] and None not in ts[0]:
                rep.ok()
            else:
                ok, c = x.const()
                kinds = {"criterion_parameters": "list", "results_statistics": "list"}
                if ok and (isinstance(c, str) or c is None) and f in kinds:
                    rep.violation(f"field:{f}", f"{what}: {f} is {type(c).__name__}, not the stored list", site)
                else:
                    rep.unsure(f, f"{what}: not known")
