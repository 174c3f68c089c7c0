"""Hypothesis testing: p-values, critical values, decisions, Monte-Carlo distributions, multiple testing."""
from __future__ import annotations

import ast
import itertools

import sympy

from .. import laws, models, order
from ..drive import INF, PKG, Session, new_interp, sym
from ..interp import AnalysisBroken
from ..values import AV, C, Facets, Obj, const, num
from .registry import check

HT = "hypothesis_testing."
PT = models.param_term


def heap_list(s, elems=None, elem=None, length=None, kind="list", label=None):
    """A list object: of known elements, or of any length."""
    oid = s.I.fresh()
    f = Facets(deps=frozenset({f"param:{label}"}) if label else frozenset(), rank=1, term=elem.f.term if elem is not None else None)
    s.st.heap[oid] = Obj(kind, elems=tuple(elems) if elems is not None else None, elem=elem, f=f, roots=frozenset({oid}),
                         attrs={"len": length} if length is not None else {})
    return AV(frozenset({("r", oid)}), f)


def pnum(term, name, iv=(0, 1, True)):
    return num(Facets(deps=frozenset({f"param:{name}"}), rank=0, term=term, iv=iv, py=True))


# ---------------------------------------------------------------- multiple testing
EXPECTED_METHODS = ("BonferroniMultipleTesting", "SidakMultipleTesting", "Holm", "SidakHolm", "BenjaminiYekutieli")


def methods(I):
    base = next((c for c in I.classes if c.name == "AbstractMultipleTesting"), None)
    if base is None:
        raise AnalysisBroken("AbstractMultipleTesting does not exist")
    cs = [c for c in I.classes if base in c.mro and c is not base and not c.is_abstract()]
    if len(cs) < 5:
        raise AnalysisBroken("multiple-testing methods not found")
    return base, cs


def harmonic(n):
    return sum(sympy.Rational(1, i) for i in range(1, n + 1))


def terms_of(method, p):
    """The quantities the documented procedure compares, and the procedure over an order oracle."""
    n = len(p)
    one = sympy.Integer(1)

    def ranked(cmp, factor, running):
        idx = list(range(n))
        for i in range(1, n):           # insertion sort by the oracle
            j = i
            while j > 0 and cmp(p[idx[j - 1]], p[idx[j]]) > 0:
                idx[j - 1], idx[j] = idx[j], idx[j - 1]
                j -= 1
        raw = [factor(p[i], r) for r, i in enumerate(idx)]
        raw = [one if cmp(x, one) > 0 else x for x in raw]
        if running == "max":
            for k in range(1, n):
                if cmp(raw[k - 1], raw[k]) > 0:
                    raw[k] = raw[k - 1]
        elif running == "min":
            for k in range(n - 2, -1, -1):
                if cmp(raw[k + 1], raw[k]) < 0:
                    raw[k] = raw[k + 1]
        out = [None] * n
        for r, i in enumerate(idx):
            out[i] = raw[r]
        return out
    if method == "BonferroniMultipleTesting":
        return [n * x for x in p], lambda cmp: [one if cmp(n * x, one) > 0 else n * x for x in p]
    if method == "Holm":
        return [(n - k) * x for x in p for k in range(n)], lambda cmp: ranked(cmp, lambda x, r: (n - r) * x, "max")
    if method == "BenjaminiYekutieli":
        h = harmonic(n) if n else 0
        return [x * n * h / (k + 1) for x in p for k in range(n)], lambda cmp: ranked(cmp, lambda x, r: x * n * h / (r + 1), "min")
    if method == "SidakMultipleTesting":
        return [], lambda cmp: [1 - (1 - x) ** n for x in p]
    if method == "SidakHolm":
        def sh(cmp):
            idx = sorted(range(n), key=lambda i: [cmp(p[i], q) for q in p].count(1))
            raw = [1 - (1 - p[i]) ** (n - r) for r, i in enumerate(idx)]
            return raw, idx
        return [], sh
    return None, None


def variants_of(method, p):
    """What the recorded findings compute instead."""
    n = len(p)
    one = sympy.Integer(1)
    if method == "Holm":
        def f(cmp):
            idx = sorted(range(n), key=lambda i: [cmp(p[i], q) for q in p].count(1))
            raw = [(n - r) * p[i] for r, i in enumerate(idx)]
            raw = [one if cmp(x, one) > 0 else x for x in raw]
            for k in range(n - 2, -1, -1):
                if cmp(raw[k + 1], raw[k]) < 0:
                    raw[k] = raw[k + 1]
            out = [None] * n
            for r, i in enumerate(idx):
                out[i] = raw[r]
            return out
        return "step-up", f
    if method == "SidakHolm":
        return "single-step", lambda cmp: [1 - (1 - x) ** n for x in p]
    return None, None


def sidak_holm(p, cmp):
    """Step-down: the running maximum over ranks; adjusted values compare as their p-values only within a rank, so the
    maximum is kept as a set of terms."""
    n = len(p)
    idx = sorted(range(n), key=lambda i: [cmp(p[i], q) for q in p].count(1))
    out = [None] * n
    run = None
    for r, i in enumerate(idx):
        t = 1 - (1 - p[i]) ** (n - r)
        run = t if run is None else sympy.Max(run, t)
        out[i] = run
    return out


def points(n, tier):
    grid = [sympy.Rational(a, 60) for a in ((0, 6, 13, 22, 33, 47, 60) if n <= 3 else (0, 3, 8, 17, 29, 60))]
    if n <= 2:
        grid = [sympy.Rational(a, 60) for a in range(0, 61, 2)]
    if n <= 3:
        return itertools.product(grid, repeat=n)
    return [p for i, p in enumerate(itertools.product(grid, repeat=n)) if i % (1 if tier == "thorough" else 43) == 0]


_UNIT = {}


def unit_equal(a, b, syms):
    """Equality of two terms for inputs strictly between 0 and 1."""
    key = (a, b, tuple(syms))
    if key not in _UNIT:
        _UNIT[key] = _unit_equal(a, b, syms)
    return _UNIT[key]


def _unit_equal(a, b, syms):
    q = {x: 1 / (1 + sympy.Symbol(f"q_{x}", positive=True)) for x in syms}
    return laws.equal(sympy.sympify(a).subs(q, simultaneous=True), sympy.sympify(b).subs(q, simultaneous=True))


def adjust_cell(I, c, n, syms, cell, label):
    I.order = cell
    try:
        s = Session(I, label)
        els = [pnum(x, str(x)) for x in syms]
        if n == 2:      # whatever was adjusted before
            for xs in ((0.0625,), (0.125, 0.25, 0.5)):
                s.meth(AV(frozenset({("k", c)})), "adjust", heap_list(s, [const(x) for x in xs]))
        lst = heap_list(s, els)
        v = s.meth(AV(frozenset({("k", c)})), "adjust", lst)
        if v is None:
            return s, None, None
        k = I.known_elems(v, s.st)
        return s, v, [I.eff(x, s.st).term for x in k] if k is not None else None
    finally:
        I.order = None


def func_site(I, c, name):
    d, av = c.lookup(name)
    for a in (av.atoms if av is not None else ()):
        if a[0] in ("f", "b", "cm", "sm"):
            f = a[1]
            if hasattr(f, "node"):
                return (I.rel(f.module.path), f.node.lineno, f.qualname)
    return None


@check("P15", "abstract interpretation over order cells",
       "Every multiple-testing method is interpreted on lists of 0 to 4 symbolic p-values, once per possible order of the "
       "quantities its documented procedure compares (the cells of a hyperplane arrangement); in every cell the result must be, "
       "term by term, the documented adjustment in the caller's order. Rejection, validation and the single-step methods are "
       "decided for every length.",
       "Comparisons that the documented procedure does not make are left open and reported as undecided. The large-number "
       "approximation of Benjamini-Yekutieli (more than 10000 hypotheses) is not covered.")
def p15(rep, root, tier):
    I = new_interp(root)
    rep.rule = "adjust(p) equals the documented adjustment in every order cell; reject exactly below the threshold; only [0,1] is accepted"
    base, cs = methods(I)
    rep.count("methods", len(cs))
    have = {c.name for c in cs}
    for n in EXPECTED_METHODS:
        if n not in have:
            raise AnalysisBroken(f"{n} does not exist")
    sizes = (0, 1, 2, 3, 4)
    for c in cs:
        site = func_site(I, c, "adjust")
        bad = set()
        open_ = 0
        cells = 0
        for n in sizes:
            syms = sympy.symbols(f"p1:{n + 1}", positive=True) if n else ()
            T, spec = terms_of(c.name, list(syms))
            if spec is None:
                rep.unsure(c.name, "no documented procedure is known for it")
                break
            arr = order.Arrangement(syms, list(T) + list(syms) + [sympy.Integer(0), sympy.Integer(1)])
            for cell in arr.cells([dict(zip(syms, p)) for p in points(n, tier)]):
                cells += 1
                s, v, got = adjust_cell(I, c, n, syms, cell, f"adjust/{c.name}/{n}/{cells}")
                if v is not None and (got is None or any(t is None for t in got)) and n <= 3:
                    # the code compares something else: one point of the cell
                    rep.count("points of order cells")
                    s, v, got = adjust_cell(I, c, n, syms, order.Valuation(cell.example), f"adjust/{c.name}/{n}/{cells}/point")
                    if got is not None and len(got) == n and None not in got:
                        want = sidak_holm(list(syms), cell) if c.name == "SidakHolm" else spec(cell)
                        if same_list(got, want, cell, syms) is not False:
                            got = None
                if v is None:
                    bad.add("raises")
                    rep.violation(f"{c.name}:adjust-raises", f"{c.name}.adjust raises for {n} valid p-values ({cell.text()})",
                                  s.last_raises[0][2] if s.last_raises else site)
                    continue
                if got is None or any(t is None for t in got):
                    ln = models.length(I, v, s.st)
                    if ln is not None and ln.const()[0] and ln.const()[1] != n:
                        bad.add("length")
                        rep.violation(f"{c.name}:length", f"{c.name}.adjust returns {ln.const()[1]} values for {n} p-values", site)
                    else:
                        open_ += 1
                    continue
                if len(got) != n:
                    bad.add("length")
                    rep.violation(f"{c.name}:length", f"{c.name}.adjust returns {len(got)} values for {n} p-values", site)
                    continue
                want = sidak_holm(list(syms), cell) if c.name == "SidakHolm" else spec(cell)
                r = same_list(got, want, cell, syms)
                if r is False:
                    key, alt = variants_of(c.name, list(syms))
                    if alt is not None and same_list(got, alt(cell), cell, syms) is True:
                        bad.add(key)
                        rep.violation(f"{c.name}:adjust:{key}", f"{c.name}.adjust computes the {key} adjustment, not the documented step-down one "
                                      f"(for {cell.text()}: {', '.join(map(str, got))} instead of {', '.join(map(str, want))})", site)
                    else:
                        bad.add("value")
                        rep.violation(f"{c.name}:adjust", f"{c.name}.adjust: for {cell.text()} the adjusted values are "
                                      f"{', '.join(map(str, got))}, not {', '.join(map(str, want))}", site,
                                      {"cell": cell.text(), "got": list(map(str, got)), "want": list(map(str, want))})
                elif r is None:
                    open_ += 1
        close_values(rep, I, c, site, bad)
        rep.count("order cells", cells)
        if open_:
            rep.unsure(f"{c.name}.adjust", f"{open_} of {cells} order cells are open")
        elif not bad:
            rep.ok(f"{c.name}.adjust: {cells} cells")
        generic_length(rep, I, c, site)
        validation(rep, I, c, site)
        rejection(rep, I, c)


def close_values(rep, I, c, site, bad):
    """p-values that are almost, but not quite, the same (or almost 0 or 1)."""
    e = sympy.Rational(1, 10 ** 10)
    for n in (2, 3):
        syms = sympy.symbols(f"p1:{n + 1}", positive=True)
        T, spec = terms_of(c.name, list(syms))
        if spec is None:
            return
        for x in (sympy.Rational(1, 17), sympy.Rational(2, 5), e, 1 - 3 * e):
            for perm in itertools.permutations(range(n)):
                cell = order.Valuation({s: x + e * k for s, k in zip(syms, perm)})
                cell.example = cell.values
                rep.count("close p-values")
                s, v, got = adjust_cell(I, c, n, syms, cell, f"adjust/{c.name}/{n}/close/{x}/{perm}")
                if v is None or got is None or len(got) != n or None in got:
                    continue
                want = sidak_holm(list(syms), cell) if c.name == "SidakHolm" else spec(cell)
                if far(got, want, cell) is not True:
                    continue
                key, alt = variants_of(c.name, list(syms))
                if alt is not None and far(got, alt(cell), cell) is False:
                    continue
                bad.add("value")
                rep.violation(f"{c.name}:adjust", f"{c.name}.adjust: for the almost equal p-values {', '.join(f'{k}={float(w)!r}' for k, w in cell.values.items())} the adjusted "
                              f"values are {', '.join(map(str, got))}, not {', '.join(map(str, want))}", site)
                return


def far(got, want, cell):
    """The lists differ at this point; None when a value is not known."""
    for a, b in zip(got, want):
        x, y = cell.value(a), cell.value(b)
        if x is None or y is None:
            return None
        if abs(x - y) > 1e-18:
            return True
    return False


def same_list(got, want, cell, syms):
    out = True
    for a, b in zip(got, want):
        if a == b:
            continue
        r = cell(a, b)
        if r is None:
            if sympy.sympify(b).has(sympy.Max) or sympy.sympify(a).has(sympy.Max):
                va, vb = (sympy.sympify(t).subs(cell.example).evalf(30) for t in (a, b))
                if abs(va - vb) > 1e-12:
                    return False
                continue
            e = unit_equal(a, b, syms)
            # a maximum of terms is decided where the cell is a single point of the boundary only by value
            if e is None:
                out = None
                continue
            if e is False and (sympy.sympify(b).has(sympy.Max) or sympy.sympify(a).has(sympy.Max, sympy.Min)):
                va, vb = (sympy.sympify(t).subs(cell.example).evalf(30) for t in (a, b))
                if abs(va - vb) > 1e-12:
                    return False
                continue
            if e is False:
                va, vb = (sympy.sympify(t).subs(cell.example).evalf(30) for t in (a, b))
                if abs(va - vb) > 1e-12:
                    return False
            continue
        if r != 0:
            return False
    return out


def generic_length(rep, I, c, site):
    """Single-step methods: the adjustment of one p-value among n, for every n."""
    spec = {"BonferroniMultipleTesting": lambda p, n: sympy.Min(1, n * p), "SidakMultipleTesting": lambda p, n: 1 - (1 - p) ** n}.get(c.name)
    if spec is None:
        return
    s = Session(I, f"generic/{c.name}")
    p = sympy.Symbol("p", positive=True)
    n = models.N_SYM
    lst = heap_list(s, elem=pnum(p, "p"), length=num(Facets(deps=frozenset({"param:n"}), rank=0, term=n, iv=(1, INF, False), py=True)))
    v = s.meth(AV(frozenset({("k", c)})), "adjust", lst)
    if v is None:
        return
    e = I.elem_of(v, s.st)
    t = e.f.term if e is not None else None
    want = spec(p, n)
    if t is None:
        rep.unsure(f"{c.name}: any number of hypotheses", "the adjusted value has no closed form")
        return
    r = unit_equal(t, want, [p])
    if r is False:
        rep.violation(f"{c.name}:adjust", f"{c.name}.adjust: a p-value p among n is adjusted to {t}, not {want}", site)
    elif r is None:
        rep.unsure(f"{c.name}: any number of hypotheses", "the terms cannot be compared")
    else:
        rep.ok(f"{c.name}: {t}")


def validation(rep, I, c, site):
    k = AV(frozenset({("k", c)}))
    regions = [("negative", (-INF, -1e-300, True), False), ("above 1", (1.0000000001, INF, True), False), ("0", None, True), ("1", None, True),
               ("between 0 and 1", (0.0, 1.0, True), True)]
    for meth in ("adjust", "test"):
        for what, iv, okay in regions:
            for pos in (0, 1, 2):
                s = Session(I, f"valid/{c.name}/{meth}/{what}/{pos}")
                x = const(float(what)) if iv is None else pnum(PT("bad"), "bad", iv=iv)
                els = [pnum(PT(f"p{i}"), f"p{i}") if i != pos else x for i in range(3)]
                n0 = len(s.raises)
                v = s.meth(k, meth, heap_list(s, els))
                rep.count("validation cases")
                if okay:
                    # only a raise on every path is certain; a raise on some path may be unreachable
                    if v is None:
                        rep.violation(f"{c.name}:{meth}-rejects-valid", f"{c.name}.{meth} raises for a p-value that is {what}",
                                      s.raises[n0][2] if len(s.raises) > n0 else site)
                    else:
                        rep.ok()
                else:
                    if v is None:
                        rep.ok()
                    elif not s.raises[n0:]:
                        rep.violation(f"{c.name}:{meth}-accepts-invalid", f"{c.name}.{meth} accepts a p-value that is {what}", func_site(I, c, meth))
                    else:
                        rep.unsure(f"{c.name}.{meth}", f"may accept a p-value that is {what}")


def rejection(rep, I, c):
    """test() rejects exactly where the adjusted value is below the threshold and returns the adjusted values."""
    k = AV(frozenset({("k", c)}))
    a = sympy.Symbol("alpha", positive=True)
    adj = sympy.symbols("a1:4", positive=True)
    d, av = c.lookup("adjust")
    fn = [x[1] for x in av.atoms if hasattr(x[1], "qualname")]
    if not fn:
        rep.unsure(f"{c.name}.test", "adjust is not a plain function")
        return
    p = sympy.symbols("p1:4", positive=True)
    seen = []

    def hook(I2, f, args, kwargs, st, fr, node):
        seen.append([I2.eff(x, st).term for x in I2.known_elems(args[-1], st) or []] if args else None)
        return hook.value
    # below, equal, above in every position
    for perm in itertools.permutations((-1, 0, 1)):
        s = Session(I, f"reject/{c.name}/{perm}")
        sign = dict(zip(adj, perm))

        def cmp(x, y):
            if x in sign and y == a:
                return sign[x]
            if y in sign and x == a:
                return -sign[y]
            if x == y:
                return 0
            return None
        hook.value = heap_list(s, [pnum(t, str(t)) for t in adj])
        saved = dict(I.func_hooks)
        I.func_hooks[fn[0].qualname] = hook
        I.order = cmp
        del seen[:]
        try:
            lst = heap_list(s, [pnum(t, str(t)) for t in p])
            v = s.meth(k, "test", lst, pnum(a, "threshold"))
        finally:
            I.order = None
            I.func_hooks.clear()
            I.func_hooks.update(saved)
        rep.count("rejection cases")
        tup = v.single() if v is not None else None
        if tup is None or tup[0] != "t" or len(tup[1]) != 2:
            rep.unsure(f"{c.name}.test", "does not return a pair on one path")
            return
        rj = I.known_elems(tup[1][0], s.st)
        ad = I.known_elems(tup[1][1], s.st)
        want = [x < 0 for x in perm]
        if not seen:
            rep.unsure(f"{c.name}.test", "does not use adjust")
            return
        if seen[-1] and all(t is not None for t in seen[-1]) and list(seen[-1]) != list(p):
            rep.violation(f"{c.name}:test-input", f"{c.name}.test adjusts {seen[-1]} instead of the p-values it was given", func_site(I, c, "test"))
            return
        if ad is not None and all(I.eff(x, s.st).term is not None for x in ad) and [I.eff(x, s.st).term for x in ad] != list(adj):
            rep.violation(f"{c.name}:test-adjusted", f"{c.name}.test does not return the adjusted values", func_site(I, c, "test"))
            return
        if rj is None or any(I.truth(x, s.st) is None for x in rj):
            rep.unsure(f"{c.name}.test", "the rejections are not known")
            return
        got = [I.truth(x, s.st) for x in rj]
        if got != want:
            rep.violation(f"{c.name}:rejection", f"{c.name}.test: adjusted values {['below', 'equal to', 'above'][perm[0] + 1]}, "
                          f"{['below', 'equal to', 'above'][perm[1] + 1]} and {['below', 'equal to', 'above'][perm[2] + 1]} the threshold give {got}",
                          func_site(I, c, "test"))
            return
        if ad is None:
            rep.unsure(f"{c.name}.test", "the returned adjusted values are not known")
            return
    rep.ok(f"{c.name}.test")


# ---------------------------------------------------------------- p-values and critical values
D_SYM = sympy.Symbol("d", real=True)            # an arbitrary simulated value
LIM_N = sympy.Symbol("N", positive=True, integer=True)   # how many there are
S_SYM = sympy.Symbol("s", real=True)
A_SYM = sympy.Symbol("alpha", positive=True)
F, FL, Q, QU = (sympy.Function(n) for n in ("F", "Fl", "Q", "Qdistinct"))


def limit_list(s, term=None):
    return heap_list(s, elem=num(Facets(deps=frozenset({"param:limit"}), ord="I", rank=0, term=term or D_SYM, py=True)),
                     length=num(Facets(deps=frozenset({"param:limit"}), rank=0, term=LIM_N, iv=(1, INF, False), py=True)), label="limit")


class Distribution:
    """Hooks that name what library calls compute from the simulated values: F(x) their distribution function, Fl(x)
    its left limit, Q(q) the quantile."""

    def __init__(self, I):
        self.I = I

    def whole(self, v, st):
        """The value holds every simulated value, unchanged: True; something else: False; not known: None."""
        if v is None or len(v.atoms) != 1:
            return None
        ln = models.length(self.I, v, st)
        if ln is not None and ln.f.term is not None and laws.equal(ln.f.term, LIM_N) is False:
            return False
        e = self.I.elem_of(v, st)
        if e is None or ln is None:
            return None
        t = self.I.eff(e, st).term
        if t is None or ln.f.term is None:
            return None
        return t == D_SYM and ln.f.term == LIM_N

    def new(self, st, kind, **kw):
        oid = self.I.fresh()
        st.heap[oid] = Obj(kind, roots=frozenset({oid}), **kw)
        return AV(frozenset({("r", oid)}), kw["f"])

    def num(self, term, args, st, iv=(0, 1, True)):
        deps = frozenset().union(*[self.I.eff_deps(a, st) for a in args]) if args else frozenset()
        return num(Facets(deps=deps, rank=0, term=term, iv=iv))

    def rel(self, t):
        """(F-expression) of the share of simulated values for which the relation holds."""
        if not isinstance(t, sympy.core.relational.Relational):
            return None
        l, r = t.lhs, t.rhs
        op = t.rel_op
        if l == D_SYM and not r.has(D_SYM):
            x = r
        elif r == D_SYM and not l.has(D_SYM):
            x = l
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        else:
            return None
        return {"<=": F(x), "<": FL(x), ">": 1 - F(x), ">=": 1 - FL(x), "==": F(x) - FL(x)}.get(op)

    def __call__(self, I, kind, name, recv, args, kwargs, st, fr, node):
        if kind != "call":
            return None
        name = models.canon(name)
        if name == "scipy.stats.ecdf":
            smp = args[0] if args else kwargs.get("sample")
            w = self.whole(smp, st)
            f = Facets(deps=I.eff_deps(smp, st))
            if w is not True:
                nm = "unknown" if w is None else "changed"
                cdf, sf = (self.new(st, "ext", f=f, extra=f"{nm}.{x}") for x in ("cdf", "sf"))
                return self.new(st, "ext", f=f, extra=nm, attrs={"cdf": cdf, "sf": sf})
            dq = self.new(st, "array", f=f.but(rank=1), elem=num(f.but(rank=0, term=sympy.Symbol("d_distinct"))), extra="distinct")
            cdf = self.new(st, "ext", f=f, extra="simulated.cdf", attrs={"quantiles": dq})
            sf = self.new(st, "ext", f=f, extra="simulated.sf", attrs={"quantiles": dq})
            return self.new(st, "ext", f=f, extra="simulated", attrs={"cdf": cdf, "sf": sf})
        if name in ("simulated.cdf.evaluate", "simulated.sf.evaluate"):
            x = (args[0] if args else kwargs.get("x"))
            t = I.eff(x, st).term if x is not None else None
            if t is None:
                return self.num(None, args, st)
            return self.num(F(t) if ".cdf." in name else 1 - F(t), args, st)
        if name.startswith(("unknown.", "changed.")) and name.endswith(".evaluate"):
            t = I.eff(args[0], st).term if args and name.startswith("changed.") else None
            return self.num(sympy.Function("F_of_other_values")(t) if t is not None else None, args, st)
        leaf = name.rsplit(".", 1)[-1]
        if name.startswith("numpy.") and leaf in ("quantile", "percentile") and not (set(kwargs) - {"q", "a", "method", "interpolation"}) and len(args) <= 2:
            way = kwargs.get("method", kwargs.get("interpolation"))
            known, way = way.const() if way is not None else (True, "linear")
            if not known or not isinstance(way, str):
                return None
            a = args[0] if args else kwargs.get("a")
            q = args[1] if len(args) > 1 else kwargs.get("q")
            if a is None or q is None:
                return None
            qt = I.eff(q, st).term
            os_ = I.objs(a, st)
            distinct = len(os_) == 1 and os_[0][1].extra == "distinct"
            w = True if distinct else self.whole(a, st)
            k = I.known_elems(q, st)
            if w is None or (qt is None and k is None):
                return None
            other = sympy.Function("Q_of_other_values")

            def one(t):
                if way != "linear":
                    return self.num(sympy.Function(f"Q_{way}")(t), [a, q], st, iv=(-INF, INF, False))
                return self.num(other(t) if w is False else sympy.Symbol("distinct") * QU(t) if distinct else Q(t), [a, q], st, iv=(-INF, INF, False))
            if leaf == "percentile" and qt is not None:
                qt = qt / 100
            if k is not None:
                ts = [I.eff(x, st).term for x in k]
                if any(t is None for t in ts):
                    return None
                return self.new(st, "array", f=Facets(deps=I.eff_deps(a, st), rank=1),
                                elems=tuple(one(t / 100 if leaf == "percentile" else t) for t in ts))
            return one(qt)
        if name.startswith("numpy.") and leaf in ("mean", "sum", "count_nonzero", "average") and len(args) == 1 and not kwargs:
            t = self.rel(I.eff(args[0], st).term)
            ln = models.length(I, args[0], st)
            if t is not None and (ln is None or ln.f.term == LIM_N):
                return self.num(t if leaf in ("mean", "average") else LIM_N * t, args, st, iv=(0, INF, False))
        if name in ("builtins.sum", "builtins.len") and len(args) == 1:
            os_ = I.objs(args[0], st)
            flt = os_[0][1].attrs.get("filter") if len(os_) == 1 and len(args[0].atoms) == 1 else None
            if flt is not None:
                t = self.rel(flt[0])
                e = I.elem_of(args[0], st)
                if t is not None and flt[1].f.term == LIM_N and (name == "builtins.len" or (e is not None and e.const() == (True, 1))):
                    return self.num(LIM_N * t, args, st, iv=(0, INF, False))
                return None
        if name == "builtins.sum" and len(args) == 1:
            e = I.elem_of(args[0], st)
            t = self.rel(I.eff(e, st).term) if e is not None else None
            ln = models.length(I, args[0], st)
            if t is not None and ln is not None and ln.f.term == LIM_N:
                return self.num(LIM_N * t, args, st, iv=(0, INF, False))
        if name == "numpy.searchsorted" and len(args) >= 2 and self.whole(args[0], st):
            side = kwargs.get("side") or (args[2] if len(args) > 2 else None)
            sd = side.const()[1] if side is not None and side.const()[0] else ("left" if side is None else None)
            t = I.eff(args[1], st).term
            if t is not None and sd in ("left", "right") and I.eff(args[0], st).ord in ("P", "I"):
                return self.num(LIM_N * (F(t) if sd == "right" else FL(t)), args, st, iv=(0, INF, False))
        return None


F_GRID = [sympy.Rational(k, 200) for k in (0, 1, 3, 21, 67, 99, 100, 101, 140, 183, 199, 200)] + \
    [sympy.Rational(*x) for x in ((1, 7), (3, 7), (10, 21), (11, 21), (13, 17), (30, 31))]
NONSMOOTH = (sympy.Min, sympy.Max, sympy.Abs, sympy.Piecewise, sympy.floor, sympy.ceiling, sympy.sign)
_DIST = {}


def dist_equal(a, b, cell=None):
    """Equality of terms over F, Fl (in the unit interval, Fl at most F) and Q (any value); with a cell, for the values of
    F(s) it stands for (a predicate)."""
    key = (a, b, cell)
    if key not in _DIST:
        _DIST[key] = _dist_equal(sympy.sympify(a), sympy.sympify(b), cell)
    return _DIST[key]


def _dist_equal(a, b, cell):
    if a == b:
        return True
    d = a - b
    fns = sorted(d.atoms(sympy.core.function.AppliedUndef), key=str)
    free = sorted(d.free_symbols | set(), key=str)
    if not d.has(*NONSMOOTH) and cell is None:
        rep = {}
        for fn in fns:
            nm = sympy.Symbol(f"q_{fn.func.__name__}_{len(rep)}", positive=True)
            rep[fn] = 1 / (1 + nm) if fn.func in (F, FL) else sympy.log(nm)
        # arguments first compared structurally: F(s) and F(-s) become different symbols
        q = 1 / (1 + sympy.Symbol("q_alpha", positive=True))
        return laws.equal(a.xreplace(rep).subs(A_SYM, q), b.xreplace(rep).subs(A_SYM, q))
    # a rounded s can lie below s with simulated values between them
    near_s = {fn: isinstance(fn.args[0], (laws.Single, laws.Round)) and fn.args[0].args[0] == S_SYM for fn in fns if fn.func in (F, FL)}
    args = {fn.args for fn in near_s if not near_s[fn]}
    if len(args) > 1 or (any(near_s.values()) and args - {(S_SYM,)}):
        return None
    same = True
    tried = 0
    for f in F_GRID:
        if cell is not None and not cell(f):
            continue
        for l in (0, sympy.Rational(1, 3), 1):
            for k, n in enumerate((2, 5, 40, 1000)):
                val = {}
                for fn in fns:
                    val[fn] = f * l if near_s.get(fn) else f if fn.func == F else f * l if fn.func == FL else sympy.Rational(17 + 13 * len(val), 10) * (-1) ** k
                e = d.xreplace(val)
                rest = {}
                for i, x in enumerate(sorted(e.free_symbols, key=str)):
                    rest[x] = sympy.Integer(n) if x == LIM_N else (sympy.Rational(1, 1000), sympy.Rational(1, 20), sympy.Rational(3, 10), sympy.Rational(9, 10))[k] \
                        if x == A_SYM else sympy.Rational(7 + 3 * i, 5)
                try:
                    v = complex(e.subs(rest).evalf(30))
                except Exception:
                    return None
                tried += 1
                if abs(v) > 1e-14:
                    return False
    return same if tried else None


def half_cells():
    """The positions of F(s) relative to its complement and to the ends of the unit interval."""
    f = sympy.Symbol("f", real=True)
    one = sympy.Integer(1)
    terms = [f, 1 - f, 2 * f, 2 * (1 - f), one / 2, one * 0, one]
    arr = order.Arrangement([f], terms)
    cells = arr.cells([{f: x} for x in F_GRID])

    def oracle(cell):
        def cmp(a, b):
            a, b = (sympy.sympify(t).xreplace({F(S_SYM): f}) for t in (a, b))
            return cell(a, b)
        return cmp
    for c in cells:
        yield c, oracle(c), (lambda x, c=c: arr.cell({f: x}) == c.signs)


def alternative_members(I):
    s = Session(I, "alternatives")
    ms = s.cls(s.get("statistics.alternative.AlternativeType")).members
    if {m.name for m in ms} != {"LEFT", "RIGHT", "TWO_TAILED"}:
        raise AnalysisBroken("AlternativeType has other members")
    return ms


PVALUE = {"LEFT": F(S_SYM), "RIGHT": 1 - F(S_SYM), "TWO_TAILED": 2 * sympy.Min(F(S_SYM), 1 - F(S_SYM))}
CRITICAL = {"LEFT": (Q(A_SYM),), "RIGHT": (Q(1 - A_SYM),), "TWO_TAILED": (Q(A_SYM / 2), Q(1 - A_SYM / 2))}
SV = lambda: num(Facets(deps=frozenset({"param:statistic"}), rank=0, term=S_SYM, py=True))  # noqa: E731
AVL = lambda: num(Facets(deps=frozenset({"param:alpha"}), rank=0, term=A_SYM, iv=(0, 1, True), py=True))  # noqa: E731


def factory(s, m):
    return s.call("hypothesis_testing.alternative_factory.alternative_factories.AbstractAlternativeFactory.get_concrete_factory",
                  AV(frozenset({("c", C(m))})))


def counts_around(I, *mods):
    """Numbers of simulated values on every side of the whole numbers these modules are written with."""
    ks = {0, 1, 2}
    for mod in mods:
        for n in ast.walk(I.p.tree(f"{PKG}.{mod}")) if f"{PKG}.{mod}" in I.p.sources else ():
            if isinstance(n, ast.Constant) and type(n.value) is int and 2 < n.value < 10 ** 9:
                ks.add(n.value)
    out = {1, max(ks) * 3 + 7}
    for k in ks:
        out |= {k + 1, k, k - 1}
    return sorted(x for x in out if x > 0)[:30]


def with_count(cmp, n):
    """The order cmp, for n simulated values."""
    if n is None:
        return cmp
    v = order.Valuation({LIM_N: sympy.Integer(n)})

    def both(a, b):
        x, y = sympy.sympify(a), sympy.sympify(b)
        if (x - y).free_symbols == {LIM_N}:
            return v(x, y)
        if cmp is not None:
            return cmp(a, b)
        return None
    return both


class hooked:
    def __init__(self, I, *hooks):
        self.I, self.hooks = I, hooks

    def __enter__(self):
        self.I.hooks.extend(self.hooks)
        self.I.rel_terms = True
        return self

    def __exit__(self, *a):
        for h in self.hooks:
            self.I.hooks.remove(h)
        self.I.rel_terms = False
        return False


def last_site(s, what=None):
    for r in s.last_raises or []:
        return r[2]
    return None


def class_site(s, v, meth):
    for _, o in s.objs(v):
        if o.cls is not None:
            return func_site(s.I, o.cls, meth)
    return None


@check("P11", "abstract interpretation with distribution terms",
       "For each alternative the p-value calculator is obtained through the factory and interpreted on an arbitrary simulated "
       "distribution and an arbitrary statistic value; empirical distribution functions, counts and searches over the simulated values become the "
       "terms F and its left limit, and the result must be F(s), 1-F(s) or 2*min(F(s), 1-F(s)).",
       "Every distribution and statistic value at once, by term equality over F in [0,1]. A computation that the "
       "terms cannot express is undecided.")
def p11(rep, root, tier):
    I = new_interp(root)
    rep.rule = "p-value term == F(s) (left), 1-F(s) (right), 2*min(F(s),1-F(s)) (two-sided)"
    for m in alternative_members(I):
        rep.count("alternatives")
        what, text = p_value_of(rep, I, m, None)
        if what == "open":      # perhaps decided for each number of simulated values
            for n in counts_around(I, PVMOD):
                if p_value_of(rep, I, m, n)[0] == "bad":
                    what = "bad"
                    break
        if what == "open":
            few_values(rep, I, m, text)
        elif what == "ok":
            rep.ok(f"{m.name}: {text}")


PVMOD = "hypothesis_testing.p_value.calculator.p_value_calculator"
CVMOD = "hypothesis_testing.critical_values.calculator.critical_value_calculator"


def p_value_of(rep, I, m, n):
    """('bad', _) after reporting a violation, ('open', why) or ('ok', term): the p-value for every position of F(s)."""
    opened = None
    shown = None
    few = f" for {n} simulated values" if n is not None else ""
    for cell, oracle, inside in half_cells():
        s = Session(I, f"pvalue/{m.name}/{cell.text()}/{n}")
        I.order = with_count(oracle, n)
        try:
            with hooked(I, Distribution(I)):
                fac = factory(s, m)
                calc = s.meth(fac, "get_p_value_calculator") if fac is not None else None
                # whatever was asked before: another distribution of the same size, another statistic
                if calc is not None:
                    s.meth(calc, "calculate", limit_list(s, sympy.Symbol("d_before", real=True)), pnum(sympy.Symbol("s_before", real=True), "before", iv=(-INF, INF, True)))
                lim = limit_list(s)
                v = s.meth(calc, "calculate", lim, SV()) if calc is not None else None
        finally:
            I.order = None
        rep.count("order cells")
        site = class_site(s, calc, "calculate") if calc is not None else None
        if v is None:
            rep.violation(f"{m.name}:raises", f"no p-value can be computed for the {m.name} alternative (F(s) = {cell.text()[4:]}){few}", last_site(s))
            return "bad", None
        t = I.eff(v, s.st).term
        if t is None:
            opened = "the p-value has no closed form over the simulated distribution"
            continue
        e = dist_equal(t, PVALUE[m.name], inside)
        if e is False:
            rep.violation(f"{m.name}:p-value", f"the {m.name} p-value of s is {t}, not {PVALUE[m.name]}{few} (F: distribution function of the "
                          f"simulated values, Fl: its left limit; {cell.text().replace('f=', 'F(s) = ')})", site, {"got": str(t), "want": str(PVALUE[m.name])})
            return "bad", None
        if e is None:
            opened = "the terms cannot be compared"
        shown = t
    return ("open", opened) if opened else ("ok", shown)


def few_values(rep, I, m, opened):
    """Three simulated values in every position around the statistic: for code that walks over them."""
    ds = sympy.symbols("d1:4", real=True)
    n = len(ds)
    for signs in itertools.product((-1, 0, 1), repeat=n):
        sg = dict(zip(ds, signs))

        def cmp(a, b):
            if a == b:
                return 0
            if a in sg and b == S_SYM:
                return sg[a]
            if b in sg and a == S_SYM:
                return -sg[b]
            if a in sg and b in sg:
                if sg[a] != sg[b]:
                    return -1 if sg[a] < sg[b] else 1
                if sg[a] == 0:
                    return 0
                return -1 if ds.index(a) < ds.index(b) else 1
            if not (a - b).free_symbols:
                return 0 if a == b else (-1 if a < b else 1)
            return None

        def ecdf(I2, kind, name, recv, args, kwargs, st, fr, node):
            if kind != "call":
                return None
            name = models.canon(name)
            if name == "scipy.stats.ecdf":
                k = I2.known_elems(args[0], st) if args else None
                ts = [I2.eff(x, st).term for x in k] if k is not None else [None]
                if sorted(map(str, ts)) != sorted(map(str, ds)):
                    return None
                mk = lambda x, **kw: Distribution(I2).new(st, "ext", f=Facets(), extra=f"three{x}", **kw)  # noqa: E731
                return mk("", attrs={"cdf": mk(".cdf"), "sf": mk(".sf")})
            if name in ("three.cdf.evaluate", "three.sf.evaluate") and args and I2.eff(args[0], st).term == S_SYM:
                c = sum(1 for x in signs if x <= 0)
                return const(c / n if ".cdf." in name else 1 - c / n)
            leaf = name.rsplit(".", 1)[-1]
            if leaf in ("searchsorted", "bisect", "bisect_left", "bisect_right") and name.startswith(("numpy.", "bisect.")) and len(args) >= 2:
                k = I2.known_elems(args[0], st)
                ts = [I2.eff(x, st).term for x in k] if k is not None else [None]
                side = kwargs.get("side") or (args[2] if len(args) > 2 and leaf == "searchsorted" else None)
                right = leaf in ("bisect", "bisect_right") or (side is not None and side.const() == (True, "right"))
                if I2.eff(args[1], st).term == S_SYM and all(t in sg for t in ts) and [sg[t] for t in ts] == sorted(sg[t] for t in ts):
                    return const(sum(1 for t in ts if sg[t] < 0 or (right and sg[t] == 0)))
            return None
        s = Session(I, f"three/{m.name}/{signs}")
        I.order = cmp
        try:
            with hooked(I, ecdf):
                fac = factory(s, m)
                calc = s.meth(fac, "get_p_value_calculator") if fac is not None else None
                v = s.meth(calc, "calculate", heap_list(s, [num(Facets(rank=0, term=d, py=True)) for d in ds]), SV()) if calc is not None else None
        finally:
            I.order = None
        rep.count("positions of three simulated values")
        site = class_site(s, calc, "calculate") if calc is not None else None
        if v is None:
            rep.violation(f"{m.name}:raises", f"no p-value can be computed for the {m.name} alternative", last_site(s))
            return
        ok, c = v.const()
        t = I.eff(v, s.st).term
        if not ok and t is not None and not t.free_symbols:
            ok, c = True, float(t)
        if not ok:
            rep.unsure(m.name, opened)
            return
        f = sum(1 for x in signs if x <= 0) / n
        want = {"LEFT": f, "RIGHT": 1 - f, "TWO_TAILED": 2 * min(f, 1 - f)}[m.name]
        if abs(c - want) > 1e-9:
            rep.violation(f"{m.name}:p-value", f"the {m.name} p-value of s is {c:.6g}, not {want:.6g}, when of three simulated values "
                          f"{sum(x < 0 for x in signs)} are below s and {sum(x == 0 for x in signs)} equal to it", site)
            return
    rep.ok(f"{m.name}: three simulated values in every position")


def cv_terms(I, s, v):
    if v is None:
        return None
    k = I.known_elems(v, s.st) if not (NUMBER(v)) else None
    if k is not None:
        return tuple(I.eff(x, s.st).term for x in k)
    return (I.eff(v, s.st).term,)


def NUMBER(v):
    return v.single() == ("n",)


@check("P12", "abstract interpretation with distribution terms and order cells",
       "For each alternative the critical-value calculator is interpreted on an arbitrary simulated distribution and level and must "
       "yield the quantile(s) of all simulated values at the level of its tail; the acceptance region built from the critical value(s) is then "
       "interpreted for every position of a statistic value relative to them.",
       "Every distribution and level at once; region membership in all 3 (one-sided) or 5 (two-sided) positions.")
def p12(rep, root, tier):
    I = new_interp(root)
    rep.rule = "critical value == Q(alpha), Q(1-alpha) or (Q(alpha/2), Q(1-alpha/2)); region accepts exactly the closed interval towards the bulk"
    for m in alternative_members(I):
        rep.count("alternatives")
        what, text = critical_of(rep, I, m, None)
        if what == "open":
            for n in counts_around(I, CVMOD):
                what2, t2 = critical_of(rep, I, m, n)
                if what2 == "bad":
                    what = "bad"
                    break
        if what == "open":
            rep.unsure(f"{m.name}: critical value", text)
        elif what == "ok":
            rep.ok(f"{m.name}: {text}")
        region(rep, I, m)


def critical_of(rep, I, m, n):
    s = Session(I, f"critical/{m.name}/{n}")
    few = f" for {n} simulated values" if n is not None else ""
    I.order = with_count(None, n) if n is not None else None
    try:
        with hooked(I, Distribution(I)):
            fac = factory(s, m)
            calc = s.meth(fac, "get_critical_value_calculator") if fac is not None else None
            if calc is not None:     # whatever was asked before
                s.meth(calc, "calculate", limit_list(s, sympy.Symbol("d_before", real=True)), AVL())
            v = s.meth(calc, "calculate", limit_list(s), AVL()) if calc is not None else None
    finally:
        I.order = None
    if v is None:
        rep.violation(f"{m.name}:raises", f"no critical value can be computed for the {m.name} alternative{few}", last_site(s))
        return "bad", None
    got = cv_terms(I, s, v)
    want = CRITICAL[m.name]
    if got is None or any(t is None for t in got):
        return "open", "it has no closed form over the simulated distribution"
    if len(got) != len(want):
        rep.violation(f"{m.name}:critical-value", f"the {m.name} calculator yields {len(got)} critical values", class_site(s, calc, "calculate"))
        return "bad", None
    es = [dist_equal(a, b) for a, b in zip(got, want)]
    if False in es:
        rep.violation(f"{m.name}:critical-value", f"the {m.name} critical value is {', '.join(map(str, got))}, not {', '.join(map(str, want))}{few} "
                      "(Q: quantile of all simulated values)", class_site(s, calc, "calculate"), {"got": list(map(str, got))})
        return "bad", None
    if None in es:
        return "open", "the terms cannot be compared"
    return "ok", ", ".join(map(str, got))


NEAR = [sympy.Rational(3, 10) * sympy.Rational(1, 10) ** k for k in (0, 1, 2, 3, 4, 6, 8, 10, 12)]   # distances from a threshold


def region(rep, I, m):
    lo, hi = sympy.symbols("c_low c_high", real=True)
    two = m.name == "TWO_TAILED"
    if two:
        positions = [("below both", -1, -1), ("at the lower", 0, -1), ("between", 1, -1), ("at the upper", 1, 0), ("above both", 1, 1)]
        acc = [False, True, True, True, False]
    else:
        positions = [("below", -1, None), ("at", 0, None), ("above", 1, None)]
        acc = [False, True, True] if m.name == "LEFT" else [True, True, False]

    def member(cmp, label):
        s = Session(I, f"region/{m.name}/{label}")
        fac = factory(s, m)
        mk = lambda t: num(Facets(deps=frozenset({f"param:{t}"}), rank=0, term=t, py=True))  # noqa: E731
        cv = AV(frozenset({("t", (mk(lo), mk(hi)))})) if two else mk(lo)
        area = s.meth(fac, "get_critical_area", cv) if fac is not None else None
        I.order = cmp
        try:
            r = s.meth(area, "contains", SV()) if area is not None else None
        finally:
            I.order = None
        return s, area, r
    for (what, c1, c2), want in zip(positions, acc):
        def cmp(a, b, c1=c1, c2=c2):
            t = {(S_SYM, lo): c1, (S_SYM, hi): c2, (lo, hi): -1}
            if a == b:
                return 0
            if (a, b) in t:
                return t[a, b]
            if (b, a) in t and t[b, a] is not None:
                return -t[b, a]
            return None
        s, area, r = member(cmp, what)
        rep.count("positions")
        if r is None:
            rep.violation(f"{m.name}:region-raises", f"the {m.name} region cannot be used", last_site(s))
            continue
        t = I.truth(r, s.st)
        if t is None:
            # the code compares something else: one point of every distance from the critical values
            for v in near(S_SYM, lo, hi, c1, c2 if two else None):
                s, area, r = member(order.Valuation(v), f"{what}/{v[S_SYM]}/{v[lo]}/{v[hi]}")
                rep.count("points near the critical values")
                tt = I.truth(r, s.st) if r is not None else None
                if tt is not None and tt is not want:
                    rep.violation(f"{m.name}:region", f"the {m.name} acceptance region {'contains' if tt else 'excludes'} a value {what} the critical "
                                  f"value(s) (value {float(v[S_SYM]):.12g}, critical {', '.join(f'{float(v[x]):.12g}' for x in ((lo, hi) if two else (lo,)))})",
                                  class_site(s, area, "contains"))
                    break
            else:
                rep.unsure(f"{m.name}: region", f"membership of a value {what} is not known")
        elif t is not want:
            rep.violation(f"{m.name}:region", f"the {m.name} acceptance region {'contains' if t else 'excludes'} a value {what} the critical value(s)",
                          class_site(s, area, "contains"))
        else:
            rep.ok()


def near(x, lo, hi, c1, c2):
    """Rational points with x in the given position relative to lo (and hi), at every order of distance."""
    for base in (0, 2, -3):
        for d in NEAR:
            for w in NEAR[:6]:
                if c2 is None:
                    yield {x: base + c1 * d, lo: sympy.Integer(base), hi: base + w}
                    break
                if (c1, c2) == (-1, -1):
                    yield {x: base - d, lo: sympy.Integer(base), hi: base + w}
                elif (c1, c2) == (0, -1):
                    yield {x: sympy.Integer(base), lo: sympy.Integer(base), hi: base + w}
                elif (c1, c2) == (1, -1) and d < w:
                    yield {x: base + d, lo: sympy.Integer(base), hi: base + w}
                    yield {x: base + w - d, lo: sympy.Integer(base), hi: base + w}
                elif (c1, c2) == (1, 0):
                    yield {x: base + w, lo: sympy.Integer(base), hi: base + w}
                elif (c1, c2) == (1, 1):
                    yield {x: base + w + d, lo: sympy.Integer(base), hi: base + w}


# ---------------------------------------------------------------- decisions
class Stage:
    """A statistic, a resolver and a decision method known only through their interface."""

    def __init__(self, s, member=None, limit=None):
        self.s, self.I = s, s.I
        self.log = []
        self.member, self.limit = member, limit

    def obj(self, name):
        oid = self.I.fresh()
        self.s.st.heap[oid] = Obj("ext", extra=name, f=Facets(deps=frozenset({f"param:{name}"})), roots=frozenset({oid}))
        return AV(frozenset({("r", oid)}))

    def __call__(self, I, kind, name, recv, args, kwargs, st, fr, node):
        if kind != "call" or not name.startswith("stage."):
            return None
        self.log.append((name, list(args), dict(kwargs), I.site(node, fr)))
        if name == "stage.statistic.alternative":
            return self.obj_in(st, "stage.alternative")
        if name == "stage.alternative.type":
            return AV(frozenset({("c", C(self.member))}))
        if name == "stage.resolver.resolve":
            return self.limit
        if name == "stage.statistic.execute_statistic":
            return SV()
        return None

    def obj_in(self, st, name):
        oid = self.I.fresh()
        st.heap[oid] = Obj("ext", extra=name, f=Facets(deps=frozenset({f"param:{name}"})), roots=frozenset({oid}))
        return AV(frozenset({("r", oid)}))

    def called(self, name):
        return [x for x in self.log if x[0] == name]


def bound(rec, names):
    """Arguments of a recorded call by name."""
    out = dict(zip(names, rec[1]))
    out.update(rec[2])
    return out


GOFT = "hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test."


@check("P13", "abstract interpretation over order cells",
       "Both decision methods are interpreted with an arbitrary criterion, an arbitrary simulated distribution and every order of the p-value "
       "and the level (or of the statistic and the critical values); the outcome must reject exactly when the p-value is at most the level "
       "(or the statistic lies outside the acceptance region), for the alternative the criterion declares, and the record must carry the "
       "statistic, level, p-value or critical value that were used. The test front end must evaluate the criterion on the caller's sample and pass its size.",
       "Every criterion, distribution, level and sample at once, through the interfaces; all order positions.")
def p13(rep, root, tier):
    I = new_interp(root)
    rep.rule = "rejected == (p <= alpha), or statistic outside the acceptance region; the record repeats its inputs"
    n = num(Facets(deps=frozenset({"param:sample_size"}), rank=0, term=PT("sample_size"), iv=(1, INF, False), py=True))
    for m in alternative_members(I):
        want_p = PVALUE[m.name]
        for pos in (-1, 0, 1):
            def cmp(a, b, pos=pos):
                if a == b:
                    return 0
                if b == A_SYM and a.has(F) and dist_equal(a, want_p):
                    return pos
                if a == A_SYM and b.has(F) and dist_equal(b, want_p):
                    return -pos
                return None
            decide(rep, I, "PValueDecisionMethod", m, n, cmp, pos <= 0, {-1: "below", 0: "equal to", 1: "above"}[pos], "p", list(p_points(m, pos)))
        for pt, rej in end_points(m):
            at_end(rep, I, m, n, pt, rej)
        want_c = CRITICAL[m.name]
        if m.name == "TWO_TAILED":
            table = [(-1, -1, True), (0, -1, False), (1, -1, False), (1, 0, False), (1, 1, True)]
        elif m.name == "LEFT":
            table = [(-1, None, True), (0, None, False), (1, None, False)]
        else:
            table = [(-1, None, False), (0, None, False), (1, None, True)]
        for c1, c2, rej in table:
            def cmp(a, b, c1=c1, c2=c2):
                def which(t):
                    if t == S_SYM:
                        return "s"
                    for i, w in enumerate(want_c):
                        if t.has(Q) and dist_equal(t, w):
                            return i
                    return None
                x, y = which(a), which(b)
                if x is None or y is None:
                    return None
                if x == y:
                    return 0
                t = {("s", 0): c1, ("s", 1): c2, (0, 1): -1}
                return t[x, y] if (x, y) in t else -t[y, x]
            pts = [{S_SYM: v[S_SYM], A_SYM: sympy.Rational(1, 20), **dict(zip(want_c, (v["lo"], v["hi"])))} for v in near(S_SYM, "lo", "hi", c1, c2)]
            decide(rep, I, "CriticalValueDecisionMethod", m, n, cmp, rej, f"in position {c1},{c2} to", "c", pts)
    front_end(rep, I, n)


def p_points(m, pos):
    """Rational points with the p-value in the given position relative to the level, at every order of distance."""
    for a in (sympy.Rational(1, 20), sympy.Rational(1, 100), sympy.Rational(3, 10)):
        for d in NEAR:
            p = a + pos * d
            if 0 <= p <= 1:
                f = {"LEFT": p, "RIGHT": 1 - p, "TWO_TAILED": p / 2}[m.name]
                yield {F(S_SYM): f, FL(S_SYM): f, A_SYM: a}


def end_points(m):
    """Points with the p-value at the ends of the unit interval, for few and for many simulated values."""
    for p in (0, 1):
        for count in (4, 3000):
            for a in (sympy.Rational(1, 20), sympy.Rational(1, 1000)):
                fs = {"LEFT": [p], "RIGHT": [1 - p], "TWO_TAILED": [0, 1] if p == 0 else [sympy.Rational(1, 2)]}[m.name]
                for f in fs:
                    yield {F(S_SYM): sympy.sympify(f), FL(S_SYM): sympy.sympify(f), A_SYM: a, LIM_N: sympy.Integer(count)}, p == 0


def at_end(rep, I, m, n, pt, rej):
    """A p-value of exactly 0 or 1 is a p-value like every other: compared and recorded as it is."""
    cname = "PValueDecisionMethod"
    p = 0 if rej else 1
    v1 = order.Valuation(pt)

    def cmp(a, b):
        return v1(*(x.xreplace({S_SYM: sympy.Symbol("s_other")}) if not x.has(F, FL) else x for x in (a, b)))
    s, v, stage, stat, site = _decide(I, cname, m, n, cmp, f"end/{m.name}/{p}/{pt}")
    rep.count("p-values at the ends of the unit interval")
    if v is None:
        rep.violation(f"{cname}:{m.name}:raises", f"{cname} cannot decide for the {m.name} alternative when the p-value is {p}", last_site(s) or site)
        return
    r = s.attr(v, "rejected")
    t = I.truth(r, s.st) if r is not None else None
    if t is not None and t is not rej:
        rep.violation(f"{cname}:{m.name}:decision", f"{cname}: for the {m.name} alternative a p-value of exactly {p} at level {float(pt[A_SYM]):g} is "
                      f"{'rejected' if t else 'accepted'} ({pt[LIM_N]} simulated values)", site)
    x = s.attr(v, "p_value")
    ts = cv_terms(I, s, x) if x is not None else None
    if ts and len(ts) == 1 and ts[0] is not None:
        d = ts[0].xreplace(pt) if hasattr(ts[0], "xreplace") else ts[0]
        if not d.free_symbols and abs(float(d) - p) > 1e-12:
            rep.violation(f"{cname}:p_value", f"{cname} ({m.name}): a p-value of exactly {p} is recorded as {ts[0]} ({pt[LIM_N]} simulated values)", site)


def decide(rep, I, cname, m, n, cmp, want, what, kind, points=()):
    if points is None:
        s, v, stage, stat, site = _decide(I, cname, m, n, cmp, f"{cname}/{m.name}/{what}/point")
        rep.count("points near the level")
        r = s.attr(v, "rejected") if v is not None else None
        return I.truth(r, s.st) if r is not None else None
    s, v, stage, stat, site = _decide(I, cname, m, n, cmp, f"{cname}/{m.name}/{what}")
    _judge(rep, I, cname, m, n, s, v, stage, stat, site, want, what, kind, points)


def _decide(I, cname, m, n, cmp, label):
    s = Session(I, f"decide/{label}")
    lim = limit_list(s)
    stage = Stage(s, m, lim)
    stat, res = stage.obj("stage.statistic"), stage.obj("stage.resolver")
    cls = s.cls(s.get(GOFT + cname))
    site = func_site(I, cls, "decide")
    with hooked(I, stage, Distribution(I)):
        I.order = cmp
        try:
            d = s.new(cls, res)
            if d is not None and I.order is not None and not isinstance(cmp, order.Valuation):     # whatever was decided before
                stage.limit = limit_list(s, sympy.Symbol("d_before", real=True))
                s.meth(d, "decide", stat, pnum(sympy.Symbol("s_before", real=True), "before", iv=(-INF, INF, True)), AVL(), n)
                stage.limit = lim
                stage.log.clear()
            v = s.meth(d, "decide", stat, SV(), AVL(), n) if d is not None else None
        finally:
            I.order = None
    return s, v, stage, stat, site


def _judge(rep, I, cname, m, n, s, v, stage, stat, site, want, what, kind, points):
    rep.count("decisions")
    key = f"{cname}:{m.name}"
    if v is None:
        rep.violation(f"{key}:raises", f"{cname} cannot decide for the {m.name} alternative", last_site(s) or site)
        return
    rs = stage.called("stage.resolver.resolve")
    if len(rs) != 1:
        rep.unsure(key, f"the distribution is resolved {len(rs)} times")
    else:
        b = bound(rs[0], ("statistic", "sample_size"))
        if b.get("statistic") is None or not (b["statistic"].atoms & stat.atoms):
            rep.violation(f"{key}:resolve", f"{cname} resolves the distribution of another criterion", rs[0][3])
        t = b["sample_size"].f.term if b.get("sample_size") is not None else None
        if t is not None and laws.equal(t, PT("sample_size")) is False:
            rep.violation(f"{key}:resolve", f"{cname} resolves the distribution for sample size {t}", rs[0][3])
    fields = {f: s.attr(v, f) for f in ("statistic", "p_value", "critical_value", "rejected", "significance_level")}
    exp = {"statistic": (S_SYM,), "significance_level": (A_SYM,)}
    exp["p_value"] = (PVALUE[m.name],) if kind == "p" else None
    exp["critical_value"] = CRITICAL[m.name] if kind == "c" else None
    ok = True
    for f, e in exp.items():
        x = fields[f]
        if x is None:
            rep.violation(f"{cname}:{f}", f"{cname}: the record has no {f}", site)
            return
        if e is None:
            if x.const() != (True, None) and not any(a[0] == "c" and a[1].v is None for a in x.atoms) and x.atoms:
                rep.violation(f"{cname}:{f}", f"{cname}: the record carries a {f} it did not use", site)
                ok = False
            continue
        ts = cv_terms(I, s, x)
        if ts is None or any(t is None for t in ts):
            ok = None if ok else ok
            continue
        if len(ts) != len(e) or any(dist_equal(a, b) is False for a, b in zip(ts, e)):
            rep.violation(f"{cname}:{f}", f"{cname} ({m.name}): the recorded {f} is {', '.join(map(str, ts))}, not {', '.join(map(str, e))}", site)
            ok = False
    t = I.truth(fields["rejected"], s.st) if fields["rejected"] is not None else None
    if t is None:
        # the code compares something else: one point of every distance between the compared values
        for pt in points:
            t = decide(rep, I, cname, m, n, order.Valuation(pt), want, what, kind, None)
            if t is not None and t is not want:
                break
        else:
            rep.unsure(key, "the decision is not known in every position")
            return
    if t is not want:
        w = f"a p-value {what} the level" if kind == "p" else f"a statistic {what} the critical value(s)"
        rep.violation(f"{key}:decision", f"{cname}: for the {m.name} alternative {w} is {'rejected' if t else 'accepted'}", site)
        return
    if ok:
        rep.ok(f"{key} {what}")
    elif ok is None:
        rep.unsure(key, "a recorded value has no closed form")


def front_end(rep, I, n):
    s = Session(I, "test")
    stage = Stage(s)
    stat, meth = stage.obj("stage.statistic"), stage.obj("stage.method")
    cls = s.cls(s.get(GOFT + "GoodnessOfFitTest"))
    site = func_site(I, cls, "test")
    rv = heap_list(s, elem=num(Facets(deps=frozenset({"sample"}), rank=0, term=models.X_SYM, py=True)),
                   length=num(Facets(deps=frozenset({"sample"}), rank=0, term=models.N_SYM, iv=(0, INF, False), py=True)), label="rvs")
    with hooked(I, stage):
        t = s.new(cls, stat)
        v = s.meth(t, "test", rv, AVL(), meth) if t is not None else None
    if v is None:
        rep.violation("test:raises", "GoodnessOfFitTest.test raises", last_site(s) or site)
        return
    ex, de = stage.called("stage.statistic.execute_statistic"), stage.called("stage.method.decide")
    if len(ex) != 1 or len(de) != 1:
        rep.unsure("test", f"evaluates the criterion {len(ex)} times and decides {len(de)} times")
        return
    x = bound(ex[0], ("rvs",)).get("rvs")
    if x is None or len(x.atoms) != 1:
        rep.unsure("test", "the evaluated sample is not known")
    else:
        e, ln = I.elem_of(x, s.st), models.length(I, x, s.st)
        if (e is not None and e.f.term is not None and e.f.term != models.X_SYM) or (
                ln is not None and ln.f.term is not None and laws.equal(ln.f.term, models.N_SYM) is False):
            rep.violation("test:sample", "GoodnessOfFitTest.test evaluates the criterion on another sample", ex[0][3])
        else:
            rep.ok()
    b = bound(de[0], ("statistic", "statistic_value", "significance_level", "sample_size"))
    for name, want in (("statistic_value", S_SYM), ("significance_level", A_SYM), ("sample_size", models.N_SYM)):
        a = b.get(name)
        tt = I.eff(a, s.st).term if a is not None else None
        if tt is None:
            rep.unsure("test", f"the {name} passed on is not known")
        elif laws.equal(tt, want) is False:
            rep.violation(f"test:{name}", f"GoodnessOfFitTest.test passes {tt} as {name}", de[0][3])
        else:
            rep.ok()
    if b.get("statistic") is None or not (b["statistic"].atoms & stat.atoms):
        rep.violation("test:statistic", "GoodnessOfFitTest.test decides for another criterion", de[0][3])
    else:
        rep.ok()
    # without a distribution there is no decision
    for cname in ("PValueDecisionMethod", "CriticalValueDecisionMethod"):
        for m in alternative_members(I):
            s = Session(I, f"nolimit/{cname}/{m.name}")
            stage = Stage(s, m, const(None))
            stat, res = stage.obj("stage.statistic"), stage.obj("stage.resolver")
            cls = s.cls(s.get(GOFT + cname))
            with hooked(I, stage, Distribution(I)):
                d = s.new(cls, res)
                v = s.meth(d, "decide", stat, SV(), AVL(), n) if d is not None else None
            if v is None:
                rep.ok()
            elif not s.last_raises:
                rep.violation(f"{cname}:no-distribution", f"{cname} decides although no distribution is available", func_site(I, cls, "decide"))
            else:
                rep.unsure(cname, "may decide without a distribution")
