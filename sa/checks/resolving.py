"""Null distributions: Monte-Carlo simulation and stored distributions (P14)."""
from __future__ import annotations

import ast

import sympy

from .. import laws, models
from ..drive import INF, PKG, Session, new_interp
from ..interp import AnalysisBroken
from ..values import AV, Facets, Obj, const, num, unk
from .registry import check
from .testing import PT, bound, func_site, heap_list, hooked, last_site

HT = "hypothesis_testing.limit_distribution.base."
Q = "persistence.models.limit_distribution."


def some_order(a, b):
    """Numbers by size, simulated values in the reverse order of their creation: one possible run."""
    if a == b:
        return 0
    a, b = sympy.sympify(a), sympy.sympify(b)
    if a.is_number and b.is_number:
        if a is sympy.nan or b is sympy.nan:
            return None
        return -1 if a < b else 1
    x, y = (next((int(str(v)[4:]) for v in t.free_symbols if str(v).startswith("draw")), None) for t in (a, b))
    return None if x is None or y is None or x == y else (1 if x < y else -1)


class concretely:
    """Interpretation of a run on known inputs: explicit raises only, arrays of known length keep their elements."""

    def __init__(self, I):
        self.I = I

    def __enter__(self):
        self.I.known_run = self.I.exact_raises = True
        self.I.order = some_order

    def __exit__(self, *a):
        self.I.known_run = self.I.exact_raises = False
        self.I.order = None
        return False


class Simulated:
    """A criterion and a generator known through their interfaces; every draw is a sample of its own."""

    def __init__(self, s):
        self.s, self.I = s, s.I
        self.log = []
        self.values = None    # what the criterion evaluates to, when it is to be known
        self.draws = {}       # object id of a sample -> its number
        self.evaluated = []   # numbers of the samples evaluated
        self.requests = []    # (distribution, parameters, site)

    def ext(self, st, name, **attrs):
        oid = self.I.fresh()
        st.heap[oid] = Obj("ext", extra=name, f=Facets(deps=frozenset({f"param:{name}"})), roots=frozenset({oid}), attrs=attrs)
        return AV(frozenset({("r", oid)}))

    def statistic(self):
        return self.ext(self.s.st, "stage.statistic")

    def generator(self, I, f, args, kwargs, st, fr, node):
        self.requests.append((args, kwargs, I.site(node, fr)))
        return self.ext(st, "stage.generator")

    def __call__(self, I, kind, name, recv, args, kwargs, st, fr, node):
        if kind == "getattr" and name in ("params", "distribution"):
            os_ = I.objs(recv, st)
            if len(os_) == 1 and os_[0][1].extra == "stage.hypothesis":
                return self.ext(st, f"stage.hypothesis.{name}")
        if kind != "call" or not name.startswith("stage."):
            return None
        self.log.append((name, list(args), dict(kwargs), I.site(node, fr)))
        if name == "stage.statistic.hypothesis":
            return self.ext(st, "stage.hypothesis")
        if name == "stage.statistic.distribution":
            return self.ext(st, "stage.distribution")
        if name == "stage.statistic.code":
            return self.ext(st, "stage.code")
        if name == "stage.hypothesis.parameters":
            return self.ext(st, "stage.parameters")
        if name == "stage.generator.generate":
            k = len(self.draws) + 1
            oid = I.fresh()
            size = bound(self.log[-1], ("size",)).get("size")
            st.heap[oid] = Obj("array", elem=num(Facets(deps=frozenset({"draw"}), ord="I", rank=0, term=sympy.Symbol(f"draw{k}"))),
                               f=Facets(deps=frozenset({"draw"}), rank=1, term=sympy.Symbol(f"draw{k}")), roots=frozenset({oid}),
                               attrs={"len": size} if size is not None else {})
            self.draws[oid] = k
            return AV(frozenset({("r", oid)}), st.heap[oid].f)
        if name == "stage.statistic.execute_statistic":
            x = bound(self.log[-1], ("rvs",)).get("rvs")
            e = I.elem_of(x, st) if x is not None else None
            t = e.f.term if e is not None else None
            self.evaluated.append((t, models.length(I, x, st) if x is not None else None, self.log[-1][3]))
            if self.values is not None:
                return const(self.values[len(self.evaluated) - 1]) if len(self.evaluated) <= len(self.values) else const(0.125)
            return num(Facets(deps=frozenset({"statistic"}), rank=0, term=sympy.Function("T")(t) if t is not None else None))
        return None

    def only(self, v, name, st=None):
        """The value is the object that stands for the name: True / False / None."""
        if v is None:
            return None
        os_ = self.I.objs(v, st or self.s.st)
        if len(os_) == 1 and len(v.atoms) == 1 and os_[0][1].kind == "ext":
            return os_[0][1].extra == name
        return None


def generator_lookup(I):
    s = Session(I, "lookup")
    v = s.get("utils.generator.get_available_generator")
    fs = [a[1] for a in v.atoms if a[0] == "f"] if v is not None else []
    if len(fs) != 1:
        raise AnalysisBroken("utils.generator.get_available_generator is not a function")
    return fs[0]


MOD = HT[:-1]


def numbers_in(I):
    """The numbers the resolvers are written with."""
    tree = I.p.tree(f"{PKG}.{MOD}") if f"{PKG}.{MOD}" in I.p.sources else ast.Module([], [])
    return {n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and type(n.value) in (int, float) and abs(n.value) < 1e300}


def extremes(I):
    """Values on both sides of every number the resolvers are written with."""
    return [x for c in sorted(numbers_in(I)) for x in (c + abs(c) / 2 + 0.25, -c - abs(c) / 2 - 0.25, c / 2)][:24] + [1.0]


def sizes(I):
    """Sample sizes on both sides of every whole number the resolvers are written with."""
    out = {1, 2, 7, 50, 1234}
    for c in numbers_in(I):
        if c == int(c) and 0 < c < 10 ** 7:
            out |= {int(c) - 1, int(c), int(c) + 1, 3 * int(c) + 17}
    return sorted(x for x in out if x > 0)[:20]


class looked_up:
    def __init__(self, I, f, h):
        self.I, self.q, self.h = I, f.qualname, h

    def __enter__(self):
        self.saved = dict(self.I.func_hooks)
        self.I.func_hooks[self.q] = self.h

    def __exit__(self, *a):
        self.I.func_hooks.clear()
        self.I.func_hooks.update(self.saved)
        return False


@check("P14", "abstract interpretation of unrolled simulations",
       "The Monte-Carlo resolver is interpreted for an arbitrary criterion and sample size and every simulation count from 1 to 6: it must return "
       "exactly that many values, each the criterion evaluated on a draw of its own of the requested size, from the generator of the criterion's "
       "distribution and hypothesis parameters; counts and sizes that are not positive must raise. The storage resolver's query must carry the "
       "criterion's code, its hypothesis parameters and the sample size, and its answer must be the stored values or None.",
       "Simulation counts 1-6 stand for all (the loop body is the same); criterion, generator and storage are known through their interfaces.")
def p14(rep, root, tier):
    I = new_interp(root)
    rep.rule = "n results == T(draw_1..draw_n), draws distinct, of the requested size, from generator(distribution, hypothesis parameters)"
    lookup = generator_lookup(I)
    s0 = Session(I, "mc-class")
    cls = s0.cls(s0.get(HT + "MonteCarloLimitDistributionResolver"))
    site = func_site(I, cls, "resolve")
    size_t = PT("sample_size")
    size = lambda iv=(1, INF, False): num(Facets(deps=frozenset({"param:sample_size"}), rank=0, term=size_t, iv=iv, py=True))  # noqa: E731
    for count in range(1, 7 if tier == "quick" else 41):
        s = Session(I, f"mc/{count}")
        sim = Simulated(s)
        stat = sim.statistic()
        with hooked(I, sim), looked_up(I, lookup, sim.generator), concretely(I):
            r = s.new(cls, const(count))
            v = s.meth(r, "resolve", stat, size()) if r is not None else None
        rep.count("simulation counts")
        if v is None:
            rep.violation("mc:raises", f"the Monte-Carlo resolver cannot simulate {count} value(s)", last_site(s) or site)
            continue
        k = I.known_elems(v, s.st)
        if k is None:
            ln = models.length(I, v, s.st)
            if ln is not None and ln.const()[0] and ln.const()[1] != count:
                rep.violation("mc:count", f"{ln.const()[1]} values are returned for {count} simulations", site)
            else:
                rep.unsure("Monte-Carlo", "the returned values are not known one by one")
            continue
        if len(k) != count:
            rep.violation("mc:count", f"{len(k)} values are returned for {count} simulations", site)
            continue
        ts = [I.eff(x, s.st).term for x in k]
        ok = True
        if any(t is None for t in ts):
            rep.unsure("Monte-Carlo", "a returned value has no closed form")
            ok = None
        else:
            want = {sympy.Function("T")(sympy.Symbol(f"draw{i}")) for i in range(1, len(sim.draws) + 1)}
            if len(set(ts)) != count:
                rep.violation("mc:draws", f"{count} simulated values come from {len(set(ts))} draw(s): {', '.join(map(str, ts))}", site)
                ok = False
            elif not set(ts) <= want:
                rep.violation("mc:value", f"a simulated value is {', '.join(str(t) for t in ts if t not in want)}, not the criterion of one draw", site)
                ok = False
        for x in sim.log:
            if x[0] == "stage.generator.generate":
                b = bound(x, ("size",)).get("size")
                t = b.f.term if b is not None else None
                if t is None:
                    ok = None
                elif laws.equal(t, size_t) is False:
                    rep.violation("mc:size", f"samples of size {t} are drawn instead of the requested size", x[3])
                    ok = False
        for t, ln, at in sim.evaluated:
            lt = ln.f.term if ln is not None else None
            if lt is not None and laws.equal(lt, size_t) is False:
                rep.violation("mc:size", f"the criterion is evaluated on {lt} values instead of the requested size", at)
                ok = False
        if not sim.requests:
            rep.unsure("Monte-Carlo", "the generator lookup is not used")
            ok = None
        for args, kwargs, at in sim.requests:
            b = bound((None, args, kwargs), ("distribution", "params"))
            d, p = b.get("distribution"), b.get("params")
            okd, okp = sim.only(d, "stage.distribution", s.st), sim.only(p, "stage.hypothesis.params", s.st)
            if okd is None and d is not None:
                okd = None
            if okd is False:
                rep.violation("mc:distribution", "the generator is not looked up for the criterion's distribution", at)
                ok = False
            if okp is False or (p is not None and p.const()[0]):
                rep.violation("mc:parameters", "the generator is not given the parameters of the criterion's hypothesis", at)
                ok = False
            elif okp is None:
                ok = None if ok else ok
            if okd is None:
                ok = None if ok else ok
        if ok:
            rep.ok(f"Monte-Carlo: {count}")
        elif ok is None:
            rep.unsure("Monte-Carlo", f"count {count} is not decided")
    plain = None    # evaluations beyond the count when the values are ordinary
    for vals in ([1.5, 2.5, 0.5], [2.0, 1.0, 2.0, 2.0, -1.0], [0.5, INF, 0.5, -INF], [0.0, float("nan"), 0.0], [3.0, 1e7, -1e12, 1e300, -1e-12, 5e-324, 0.0],
                 extremes(I)):
        s = Session(I, f"mc-values/{vals}")
        sim = Simulated(s)
        sim.values = vals
        stat = sim.statistic()
        with hooked(I, sim), looked_up(I, lookup, sim.generator), concretely(I):
            r = s.new(cls, const(len(vals)))
            v = s.meth(r, "resolve", stat, size()) if r is not None else None
        rep.count("value patterns")
        k = I.known_elems(v, s.st) if v is not None else None
        if plain is None and v is not None:
            plain = len(sim.evaluated) - len(vals)
        if v is None:
            if any(x != x for x in vals):
                rep.ok()    # refusing a non-number is as good
            else:
                rep.violation("mc:raises", f"the Monte-Carlo resolver raises when the criterion's values are {vals}", last_site(s) or site)
        elif k is None:
            rep.unsure("Monte-Carlo", f"the result for the criterion's values {vals} is not known")
        elif len(k) != len(vals):
            rep.violation("mc:count", f"{len(k)} values are returned for {len(vals)} simulations when the criterion's values are {vals}", site)
        elif plain == 0 and len(sim.evaluated) > len(vals):
            rep.violation("mc:value", f"of the simulated values {vals} some are replaced by values of further draws", site)
        elif all(x.const()[0] for x in k) and sorted(map(str, (float(x.const()[1]) for x in k))) != sorted(map(str, vals)):
            rep.violation("mc:value", f"the simulated values {vals} are returned as {[x.const()[1] for x in k]}", site)
        else:
            rep.ok()
    # domains
    for what, mk in (("negative", lambda: (const(-3), size())), ("zero", lambda: (const(0), size())),
                     ("size zero", lambda: (const(2), const(0))), ("size negative", lambda: (const(2), size((-INF, -1, False)))),
                     ("any negative count", lambda: (num(Facets(deps=frozenset({"param:count"}), rank=0, term=PT("count"), iv=(-INF, -1, False), py=True)), size()))):
        s = Session(I, f"mc-bad/{what}")
        sim = Simulated(s)
        stat = sim.statistic()
        c, n = mk()
        with hooked(I, sim), looked_up(I, lookup, sim.generator), concretely(I):
            r = s.new(cls, c)
            v = s.meth(r, "resolve", stat, n) if r is not None else None
        rep.count("invalid counts and sizes")
        if v is None:
            rep.ok()
        elif not s.raises:
            rep.violation(f"mc:accepts:{what}", f"the Monte-Carlo resolver accepts a {what if what.startswith('size') else what + ' simulation count'}", site)
        else:
            rep.unsure("Monte-Carlo", f"may accept: {what}")
    several(rep, I, lookup, cls, site)
    stored(rep, I)


SEVERAL = ("statistics.goodness_of_fit.normal.KolmogorovSmirnovNormalityGofStatistic", ({"mean": 0.0, "var": 1.0}, {"mean": 5.0, "var": 1.0}))


def several(rep, I, lookup, cls, site):
    """One process resolves several null distributions one after the other: each is simulated for its own criterion parameters, sample
    size and count, whatever was resolved before."""
    s = Session(I, "mc-several")
    c = s.cls(s.get(SEVERAL[0]))
    _, av = c.lookup("execute_statistic")
    fns = [a[1] for a in (av.atoms if av is not None else ()) if hasattr(a[1], "qualname")]
    if len(fns) != 1:
        rep.unsure("several distributions", "execute_statistic of the example criterion is not a plain method")
        return
    sim = Simulated(s)
    made = {}      # draw number -> (parameter values, size)

    def values(av, st):
        for _, o in I.objs(av, st) if av is not None else ():
            if o.kind == "dict":
                return {k.v: v.const()[1] for k, v in o.attrs.items() if v.const()[0]}
        return None

    def generator(I2, f, args, kwargs, st, fr, node):
        b = bound((None, args, kwargs), ("distribution", "params"))
        g = sim.generator(I2, f, args, kwargs, st, fr, node)
        for oid, o in I.objs(g, st):
            st.heap[oid] = o.but(attrs={"law": const(repr(values(b.get("params"), st)))})
        return g

    def draws(I2, kind, name, recv, args, kwargs, st, fr, node):
        r = sim(I2, kind, name, recv, args, kwargs, st, fr, node)
        if kind == "call" and name == "stage.generator.generate":
            os_ = I.objs(recv, st) if recv is not None else []
            n = bound((None, args, kwargs), ("size",)).get("size")
            made[len(sim.draws)] = (os_[0][1].attrs.get("law").const()[1] if len(os_) == 1 else None, n.const()[1] if n is not None and n.const()[0] else None)
        return r

    def evaluate(I2, f, args, kwargs, st, fr, node):
        x = kwargs.get("rvs") or args[-1]
        e = I.elem_of(x, st)
        t = e.f.term if e is not None else None
        return num(Facets(deps=frozenset({"statistic"}), rank=0, term=sympy.Function("T")(t) if t is not None else None))
    saved = dict(I.func_hooks)
    I.func_hooks[fns[0].qualname] = evaluate
    try:
        with hooked(I, draws), looked_up(I, lookup, generator), concretely(I):
            stats = [s.new(c, **{k: const(v) for k, v in p.items()}) for p in SEVERAL[1]]
            rs = [s.new(cls, const(3)), s.new(cls, const(5))]
            if None in stats or None in rs:
                rep.unsure("several distributions", "the example criterion or resolver cannot be built")
                return
            for r, count, i, size in ((0, 3, 0, 10), (0, 3, 1, 10), (0, 3, 0, 20), (1, 5, 0, 10), (0, 3, 1, 20)):
                v = s.meth(rs[r], "resolve", stats[i], const(size))
                rep.count("null distributions in one process")
                what = f"after others, the null distribution of {count} values for {SEVERAL[1][i]}, size {size},"
                k = I.known_elems(v, s.st) if v is not None else None
                if v is None:
                    rep.violation("mc:several-raises", f"{what} cannot be simulated", last_site(s) or site)
                    return
                if k is None:
                    rep.unsure("several distributions", "the returned values are not known one by one")
                    return
                if len(k) != count:
                    rep.violation("mc:several", f"{what} has {len(k)} values", site)
                    return
                for x in k:
                    t = I.eff(x, s.st).term
                    d = [int(str(z)[4:]) for z in t.free_symbols if str(z).startswith("draw")] if t is not None else []
                    if len(d) != 1 or d[0] not in made or None in made[d[0]]:
                        rep.unsure("several distributions", "the origin of a value is not known")
                        return
                    law, n = made[d[0]]
                    if law != repr(SEVERAL[1][i]) and eval(law, {}) is not None:
                        rep.violation("mc:several", f"{what} is simulated for {law}: another criterion's values are returned", site)
                        return
                    if n != size:
                        rep.violation("mc:several", f"{what} is simulated with samples of {n}", site)
                        return
                rep.ok()
    finally:
        I.func_hooks.clear()
        I.func_hooks.update(saved)


class Stored(Simulated):
    def __init__(self, s, answer):
        super().__init__(s)
        self.answer = answer

    def __call__(self, I, kind, name, recv, args, kwargs, st, fr, node):
        r = super().__call__(I, kind, name, recv, args, kwargs, st, fr, node)
        if kind == "call" and name.startswith("stage.storage."):
            return self.answer
        return r


def elsewhere(rep, I, cls, site):
    """Nothing is stored for the criterion, its parameters and the sample size, but something is for every other query: the answer is None."""
    for n in sizes(I):
        s = Session(I, f"stored-elsewhere/{n}")
        model = s.cls(s.get(Q + "LimitDistributionModel"))
        asked = []

        class Other(Simulated):
            def __call__(self, I2, kind, name, recv, args, kwargs, st, fr, node):
                r = super().__call__(I2, kind, name, recv, args, kwargs, st, fr, node)
                if kind == "call" and name.startswith("stage.storage."):
                    q = args[0] if args else kwargs.get("query")
                    os_ = I2.objs(q, st) if q is not None else []
                    f = dict(os_[0][1].attrs) if len(os_) == 1 else {}
                    z = f.get("sample_size")
                    exact = (z is not None and z.const() == (True, n) and self.only(f.get("criterion_code"), "stage.code", st) is True
                             and (name.endswith("_for_cv") or self.only(f.get("criterion_parameters"), "stage.parameters", st) is True))
                    asked.append(exact)
                    return const(None) if exact else answer
                return r
        sim = Other(s)
        vals = [num(Facets(rank=0, term=sympy.Symbol(f"stored{i}"), py=True)) for i in (1, 2, 3)]
        answer = s.new(model, experiment_id=const(1), criterion_code=sim.ext(s.st, "stage.code"), criterion_parameters=sim.ext(s.st, "stage.parameters"),
                       sample_size=const(n), monte_carlo_count=const(3), results_statistics=heap_list(s, vals))
        stat, sto = sim.statistic(), sim.ext(s.st, "stage.storage")
        with hooked(I, sim), concretely(I):
            r = s.new(cls, sto)
            v = s.meth(r, "resolve", stat, const(n)) if r is not None else None
        rep.count("sample sizes stored elsewhere only")
        if v is None:
            rep.violation("stored:raises", f"the storage resolver raises when nothing is stored for sample size {n}", last_site(s) or site)
        elif v.const() == (True, None):
            rep.ok()
        elif I.known_elems(v, s.st) is not None and asked:
            rep.violation("stored:missing", f"for sample size {n}, for which nothing is stored, the storage resolver answers with another distribution", site)
        else:
            rep.unsure("storage", f"the answer for sample size {n} is not known")


def stored(rep, I):
    s0 = Session(I, "st-class")
    cls = s0.cls(s0.get(HT + "StorageLimitDistributionResolver"))
    site = func_site(I, cls, "resolve")
    size_t = PT("sample_size")
    elsewhere(rep, I, cls, site)
    for found in (True, False):
        s = Session(I, f"stored/{found}")
        sim = Stored(s, const(None))
        vals = [num(Facets(rank=0, term=sympy.Symbol(f"stored{i}"), py=True)) for i in (1, 2, 3)]
        if found:
            model = s.cls(s.get(Q + "LimitDistributionModel"))
            sim.answer = s.new(model, experiment_id=const(1), criterion_code=sim.ext(s.st, "stage.code"),
                               criterion_parameters=sim.ext(s.st, "stage.parameters"), sample_size=num(Facets(rank=0, term=size_t, py=True)),
                               monte_carlo_count=const(3), results_statistics=heap_list(s, vals))
            if sim.answer is None:
                raise AnalysisBroken("LimitDistributionModel cannot be built")
        stat, sto = sim.statistic(), sim.ext(s.st, "stage.storage")
        with hooked(I, sim), concretely(I):
            r = s.new(cls, sto)
            v = s.meth(r, "resolve", stat, num(Facets(deps=frozenset({"param:sample_size"}), rank=0, term=size_t, iv=(1, INF, False), py=True))) \
                if r is not None else None
        rep.count("stored lookups")
        if v is None:
            rep.violation("stored:raises", "the storage resolver raises when the distribution is " + ("stored" if found else "not stored"), last_site(s) or site)
            continue
        asked = [x for x in sim.log if x[0].startswith("stage.storage.")]
        if not asked:
            rep.unsure("storage", "the storage is not asked")
            continue
        if not found:
            if v.const() == (True, None):
                rep.ok()
            elif v.atoms and not any(a[0] in ("u", "xb") for a in v.atoms) and not any(a[0] == "c" and a[1].v is None for a in v.atoms):
                rep.violation("stored:missing", "the storage resolver answers although nothing is stored", site)
            else:
                rep.unsure("storage", "the answer for a missing distribution is not known")
        else:
            k = I.known_elems(v, s.st)
            ts = [I.eff(x, s.st).term for x in k] if k is not None else None
            if ts is None:
                if v.const() == (True, None):
                    rep.violation("stored:lost", "the storage resolver returns None for a stored distribution", site)
                else:
                    rep.unsure("storage", "the returned values are not known")
            elif all(t is not None for t in ts) and set(ts) != {x.f.term for x in vals} or len(ts) != 3:
                rep.violation("stored:values", f"the storage resolver returns {', '.join(map(str, ts))} instead of the stored values", site)
            elif all(t is not None for t in ts):
                rep.ok()
            else:
                rep.unsure("storage", "the returned values are not known")
        for name, args, kwargs, at in asked:
            if name not in ("stage.storage.get_data", "stage.storage.get_data_for_cv"):
                rep.unsure("storage", f"asks through {name}")
                continue
            q = args[0] if args else kwargs.get("query")
            if q is None:
                continue
            fields = {n: s.attr(q, n) for n in ("criterion_code", "criterion_parameters", "sample_size", "monte_carlo_count")} \
                if name == "stage.storage.get_data" else {n: s.attr(q, n) for n in ("criterion_code", "sample_size")}
            if name == "stage.storage.get_data_for_cv":
                rep.violation("stored:parameters", "the stored distribution is looked up without the hypothesis parameters", at)
            for n, want in (("criterion_code", "stage.code"), ("criterion_parameters", "stage.parameters")):
                if n not in fields:
                    continue
                o = sim.only(fields[n], want, s.st)
                if o is True:
                    rep.ok()
                elif o is False or (fields[n] is not None and fields[n].const()[0]):
                    rep.violation(f"stored:{n}", f"the stored distribution is looked up with another {n.replace('_', ' ')}", at)
                else:
                    rep.unsure("storage", f"the {n} of the query is not known")
            t = fields["sample_size"].f.term if fields["sample_size"] is not None else None
            if t is not None and laws.equal(t, size_t) is False or (fields["sample_size"] is not None and fields["sample_size"].const()[0]):
                rep.violation("stored:sample_size", f"the stored distribution is looked up for sample size {t}", at)
            elif t is None:
                rep.unsure("storage", "the sample size of the query is not known")
            else:
                rep.ok()
            m = fields.get("monte_carlo_count")
            if m is not None and m.const()[0] and m.const()[1] is not None:
                rep.violation("stored:monte-carlo-count", f"only distributions of exactly {m.const()[1]} simulation(s) are looked up", at)
