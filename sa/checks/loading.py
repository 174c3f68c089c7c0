"""Loading critical values from a remote storage into the local cache (P20)."""
from __future__ import annotations

import itertools

import sympy

from ..drive import Session, new_interp
from ..interp import AnalysisBroken, Dead
from ..values import AV, Facets, Obj, const, num, unk
from .persist import BASE, ERR, S, Valued
from .registry import check
from .resolving import concretely
from .testing import bound, func_site, heap_list, hooked, last_site

LOADER = "hypothesis_testing.critical_values.loader.remote_loader.CriticalValueLoader"
Q = "persistence.models.limit_distribution."
CODES = ("KS_NORM", "AD_NORM", "CVM_EXP")


class Storages:
    """Two storages known through their interface; each holds distributions by criterion code."""

    def __init__(self, s, local, remote, fault=None):
        self.s, self.I = s, s.I
        self.have = {"local": {}, "remote": {}}
        self.log = []     # (storage, method, codes, site)
        self.fault = fault
        self.unknown = set()
        self.size, self.err = self.n(str(S)), self.n(str(ERR))
        for c in local:
            self.have["local"][c] = self.model(c, "local")
        for c in remote:
            self.have["remote"][c] = self.model(c, "remote")
        self.ext = {}
        for w in ("local", "remote"):
            oid = self.I.fresh()
            s.st.heap[oid] = Obj("ext", extra=f"stage.{w}", f=Facets(), roots=frozenset({oid}), attrs={})
            self.ext[w] = AV(frozenset({("r", oid)}))

    def n(self, name):
        return num(Facets(rank=0, term=sympy.Symbol(name), py=True, facts=frozenset({("int",)})))

    def model(self, code, where):
        s = self.s
        v = s.new(s.cls(s.get(Q + "LimitDistributionModel")), experiment_id=const(1 if where == "local" else 2), criterion_code=const(code), criterion_parameters=heap_list(s, []),
                  sample_size=self.n(str(S)), monte_carlo_count=const(1000), results_statistics=heap_list(s, [const(1.0)]))
        if v is None:
            raise AnalysisBroken("LimitDistributionModel cannot be built")
        return v

    def same_size(self, v, want, what, at):
        t = v.f.term if v is not None else None
        c = v.const() if v is not None else (False, None)
        if t is None and c[0] and isinstance(c[1], (int, float)):
            t = sympy.sympify(c[1])
        o = self.I.order(t, sympy.Symbol(want)) if t is not None else None
        if o is None:
            self.unknown.add(what)
        elif o != 0:
            self.log.append(("?", f"asks with another {what}", [], at))

    def __call__(self, I, kind, name, recv, args, kwargs, st, fr, node):
        if kind != "call" or not name.startswith("stage."):
            return None
        at = I.site(node, fr)
        _, w, m = name.split(".", 2)
        have = self.have[w]
        rec = (None, args, kwargs)
        if self.fault == (w, m):
            self.log.append((w, m + " fails", [], at))
            I.do_raise(AV(frozenset({("x", "sqlalchemy.exc.OperationalError")})), st, node, fr)
            raise Dead()
        if m in ("get_data_for_cv", "get_data"):
            q = bound(rec, ("query",)).get("query")
            f = {n: I.getattr(q, n, node, st, fr) for n in ("criterion_code", "sample_size", "sample_size_error")} if q is not None and m == "get_data_for_cv" else {}
            ok, c = f["criterion_code"].const() if f.get("criterion_code") is not None else (False, None)
            if not ok:
                self.unknown.add("query")
                return unk()
            self.same_size(f["sample_size"], str(S), "sample size", at)
            self.same_size(f["sample_size_error"], str(ERR), "sample size error", at)
            self.log.append((w, m, [c], at))
            return have.get(c) or const(None)
        if m == "get_bulk_data":
            b = bound(rec, ("criterion_codes", "sample_size", "sample_size_error"))
            k = I.known_elems(b["criterion_codes"], st) if "criterion_codes" in b else None
            cs = [x.const()[1] for x in k] if k is not None and all(x.const()[0] for x in k) else None
            if cs is None:
                self.unknown.add("codes")
                return unk()
            self.same_size(b.get("sample_size"), str(S), "sample size", at)
            self.same_size(b.get("sample_size_error", const(0)), str(ERR), "sample size error", at)
            self.log.append((w, m, cs, at))
            oid = I.fresh()
            st.heap[oid] = Obj("list", elems=tuple(have[c] for c in dict.fromkeys(cs) if c in have), f=Facets(rank=1), roots=frozenset({oid}))
            return AV(frozenset({("r", oid)}))
        if m in ("insert_data", "insert_bulk_data"):
            b = bound(rec, ("data" if m == "insert_data" else "models",))
            v = next(iter(b.values()), None)
            k = [v] if m == "insert_data" else (I.known_elems(v, st) if v is not None else None)
            cs = []
            for x in k or []:
                c = I.getattr(x, "criterion_code", node, st, fr)
                ok, c = c.const() if c is not None else (False, None)
                if not ok:
                    k = None
                    break
                cs.append((c, x))
            if k is None:
                self.unknown.add("inserted data")
                return const(None)
            self.log.append((w, m, [c for c, _ in cs], at))
            for c, x in cs:
                have[c] = x
            return const(None)
        if m in ("init",):
            return const(None)
        self.unknown.add(m)
        return unk()

    def called(self, w, what):
        return [x for x in self.log if x[0] == w and x[1].startswith(what)]


def subsets(xs):
    for r in range(len(xs) + 1):
        yield from itertools.combinations(xs, r)


@check("P20", "abstract interpretation over modelled storages",
       "The loader is interpreted against a local and a remote storage known through their interface, for every way three criteria can be cached or not, "
       "available remotely or not, with and without a remote storage, and with each storage operation failing: what it reports must be what the local "
       "cache holds afterwards, the remote is asked only for what is missing, with the requested size and size error, and nothing cached is replaced.",
       "Up to three criteria per request (the loader treats codes independently); one failing storage operation at a time.")
def p20(rep, root, tier):
    I = new_interp(root)
    rep.rule = "reported cached == cached locally afterwards; remote requests == missing codes, same size and error; counts add up"
    s0 = Session(I, "loader")
    cls = s0.cls(s0.get(LOADER))
    for local, remote in itertools.product(("", CODES[0]), repeat=2):
        for fault in (None, ("local", "insert_data"), ("remote", "get_data_for_cv"), ("local", "get_data_for_cv")):
            for rem in (True, False):
                if not rem and (remote or fault == ("remote", "get_data_for_cv")):
                    continue
                single(rep, I, cls, [local] * bool(local), [remote] * bool(remote), fault, rem)
    asked = [CODES] if tier == "quick" else [CODES, CODES[::-1], CODES[:2], CODES[:1]]
    for codes in asked + [()]:
        for local in subsets(codes):
            for remote in subsets(codes):
                for fault in (None, ("local", "insert_bulk_data"), ("remote", "get_bulk_data")):
                    bulk(rep, I, cls, codes, local, remote, fault)
            bulk(rep, I, cls, codes, local, None, None)


class ready:
    def __init__(self, I, label, local, remote, fault):
        self.I = I
        s = Session(I, label)
        self.x = Storages(s, local, remote or (), fault)

    def __enter__(self):
        self.h, self.c = hooked(self.I, self.x), concretely(self.I)
        self.h.__enter__()
        self.c.__enter__()
        self.I.order = Valued([dict(p) for p in BASE])
        self.forks0 = self.I.forks
        return self.x

    def __exit__(self, *a):
        self.c.__exit__()
        self.h.__exit__()
        return False

    def sure(self):
        return not self.x.unknown and self.I.forks == self.forks0

    def why(self):
        return ", ".join(sorted(self.x.unknown)) or "a branch depends on values that are not known"


def name(cs):
    return f"{len(cs)} code(s)" if len(cs) != 1 else "a code"


def single(rep, I, cls, local, remote, fault, rem):
    what = ("cached" if local else "not cached") + ", " + ("no remote storage" if not rem else "available remotely" if remote else "not available remotely") + \
        (f", {fault[0]} {fault[1]} failing" if fault else "")
    site = func_site(I, cls, "load")
    R = ready(I, f"load/{what}", local, remote, fault)
    with R as x:
        s = x.s
        o = s.new(cls, x.ext["local"], x.ext["remote"] if rem else const(None))
        v = s.meth(o, "load", const(CODES[0]), x.size, x.err) if o is not None else None
        before = dict(x.have["remote"])
        rep.count("single loads")
        if not R.sure():
            rep.unsure("load", f"{what}: {R.why()}")
            return
        failed = any(y[1].endswith(" fails") for y in x.log)
        if v is None:
            if failed:
                rep.ok()
            else:
                rep.violation("load:raises", f"load raises for a criterion {what}", last_site(s) or site)
            return
        t = I.truth(v, s.st)
        have = CODES[0] in x.have["local"]
        good = True
        if t is None:
            rep.unsure("load", f"{what}: the result is not known")
            return
        if t and not have:
            rep.violation("load:reported", f"load reports success for a criterion {what}, but it is not cached afterwards", site)
            good = False
        if not t and have and rem:
            rep.violation("load:missed", f"load reports failure for a criterion {what} that is cached afterwards", site)
            good = False
        if rem and remote and not local and not failed and not have:
            rep.violation("load:not-cached", f"load does not cache a criterion {what}", site)
            good = False
        good = common(rep, x, "load", local, what, site) and good
        if before.keys() != x.have["remote"].keys():
            rep.violation("load:remote-write", f"load writes to the remote storage ({what})", site)
            good = False
        if good:
            rep.ok(f"load: {what}")


def common(rep, x, op, local, what, site):
    good = True
    for w, m, cs, at in x.log:
        if w == "?":
            rep.violation(f"{op}:{m}", f"{op} {m} ({what})", at)
            good = False
        if w == "remote" and m.startswith("insert"):
            rep.violation(f"{op}:remote-write", f"{op} writes to the remote storage ({what})", at)
            good = False
        if w == "remote" and m.startswith("get") and set(cs) & set(local):
            rep.violation(f"{op}:remote-asked", f"{op} asks the remote storage for a criterion that is cached ({what})", at)
            good = False
        if w == "local" and m.startswith("insert") and set(cs) & set(local):
            rep.violation(f"{op}:replaced", f"{op} stores a criterion again that is already cached ({what})", at)
            good = False
    return good


def bulk(rep, I, cls, codes, local, remote, fault):
    what = f"{len(codes)} asked, {len(local)} cached, " + ("no remote storage" if remote is None else f"{len(remote)} available remotely") + \
        (f", {fault[0]} {fault[1]} failing" if fault else "")
    site = func_site(I, cls, "load_bulk")
    R = ready(I, "bulk", local, remote, fault)
    with R as x:
        s = x.s
        o = s.new(cls, x.ext["local"], x.ext["remote"] if remote is not None else const(None))
        v = s.meth(o, "load_bulk", heap_list(s, [const(c) for c in codes]), x.size, x.err) if o is not None else None
        rep.count("bulk loads")
        if not R.sure():
            rep.unsure("load_bulk", f"{what}: {R.why()}")
            return
        failed = next((y[3] for y in x.log if y[1].endswith(" fails")), None)
        if v is None:
            if failed:
                rep.ok()
            else:
                rep.violation("load_bulk:raises", f"load_bulk raises ({what})", last_site(s) or site)
            return
        f = {n: s.attr(v, n) for n in ("requested_count", "already_cached_count", "newly_cached_count", "not_found_codes")}
        k = I.known_elems(f["not_found_codes"], s.st) if f["not_found_codes"] is not None else None
        nf = [y.const()[1] for y in k] if k is not None and all(y.const()[0] for y in k) else None
        cnt = {n: (y.const()[1] if y is not None and y.const()[0] else None) for n, y in f.items() if n != "not_found_codes"}
        if nf is None or None in cnt.values():
            rep.unsure("load_bulk", f"{what}: the result is not known")
            return
        have = set(x.have["local"])
        new = have - set(local)
        missing = [c for c in codes if c not in local]
        good = True

        def bad(key, msg):
            nonlocal good
            good = False
            rep.violation(f"load_bulk:{key}", f"load_bulk {msg} ({what})", failed or site)

        if cnt["requested_count"] != len(codes):
            bad("requested", f"reports {cnt['requested_count']} requested criteria instead of {len(codes)}")
        if cnt["newly_cached_count"] != len(new):
            bad("newly", f"reports {cnt['newly_cached_count']} newly cached criteria, but {len(new)} were added to the cache")
        if remote is not None:
            if cnt["already_cached_count"] != len(local):
                bad("already", f"reports {cnt['already_cached_count']} criteria as already cached instead of {len(local)}")
            gone = [c for c in missing if c not in remote]
            if fault is None:
                if sorted(nf) != sorted(gone):
                    bad("not-found", f"reports {len(nf)} criteria as not found instead of {len(gone)}" if len(nf) != len(gone) else "reports the wrong criteria as not found")
                if new != set(missing) & set(remote):
                    bad("cached", f"caches {len(new)} criteria instead of {len(set(missing) & set(remote))}")
            elif not set(gone) <= set(nf) or not set(nf) <= set(missing):
                bad("not-found", "reports the wrong criteria as not found")
        good = common(rep, x, "load_bulk", local, what, site) and good
        if good:
            rep.ok(f"load_bulk: {what}")
