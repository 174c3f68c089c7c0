"""How a value changes when the observations are measured in another unit or from another origin.

The observations x (and the location and scale parameters of the hypothesis with them) are replaced by d*x + c.  A value then is
    D(p, w)   d^p times the old value, plus w*c*d^(p-1), where w is
                  an expression in n and the hypothesis's parameters      exactly that shift (nought: the origin does not matter)
                  MOVES    it certainly changes with the origin, every element of an array in the same way or not linearly
                  FIRM     it moves, and no other moving value can cancel that
                  UNEVEN   most elements of an array do, but a sum of them need not
                  LINEAR   the elements of an array move linearly, not all by the same amount
                  SQUARED  functions of such elements that are not linear: their sum moves
                  None     not known
    G(q, s)   the old value plus q * log d (s: the origin does not matter)
    E(p)      in the power group (the observations x are replaced by x^d): the value's logarithm is multiplied by d^p
    ZERO      the constant nought, which has every weight
    X(why)    certainly neither: two quantities of different units were added or compared, or a function that needs a
              pure number was applied to one that is not
    None      not known"""
from __future__ import annotations

import ast
from fractions import Fraction

import sympy

from . import laws, models, values
from .values import AV, NUM, const

ONE = Fraction(1)
NIL = Fraction(0)
W0, W1 = values.D_PURE[2], sympy.Integer(1)
MOVES, FIRM, UNEVEN, LINEAR, SQUARED = "moves", "firm", "uneven", "linear", "squared"
ZERO, PURE = values.D_ZERO, values.D_PURE
X1 = ("D", ONE, W1)
PARTIAL = (UNEVEN, LINEAR, SQUARED)
FIXED = sympy.Symbol("fixed")       # numbers that do not depend on the sample, times different functions of its elements
_CANCEL = {}


def tidy(e):
    if e not in _CANCEL:
        _CANCEL[e] = sympy.cancel(sympy.together(e))
    return _CANCEL[e]


def D(p, w=W0):
    return ("D", p, w)


def exact(w):
    return isinstance(w, sympy.Basic)


def still(a):
    """The origin does not matter."""
    return a is not None and (a[0] in ("0", "E") or (a[0] == "D" and a[2] == 0) or (a[0] == "G" and a[2]))


def G(q, s=True):
    return ("G", q, s) if q is None or q != 0 else D(NIL, W0 if s else None)


def E(p):
    return ("E", p) if p != 0 else PURE


def X(why, site=None):
    return ("X", why, site)


def isD(a, p=None):
    return a is not None and a[0] == "D" and (p is None or a[1] == p)


def pure(a):
    return a is not None and (a[0] == "0" or (a[0] == "D" and a[1] == 0 and a[2] == 0))


def scale_free(a):
    """Unchanged by the unit (perhaps not by the origin)."""
    return a is not None and (a[0] == "0" or (a[0] == "D" and a[1] == 0))


def broken(*xs):
    for x in xs:
        if x is not None and x[0] == "X":
            return x
    return None


def text(a):
    if a is None:
        return "unknown"
    if a[0] == "0":
        return "nought"
    if a[0] == "D":
        u = "a pure number" if a[1] == 0 else "the unit of the observations" if a[1] == 1 else f"the unit to the power {a[1]}"
        return u
    if a[0] == "G":
        return "a logarithm of the unit"
    if a[0] == "E":
        return "a power of the observations"
    return a[1]


def join_dim(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return broken(a, b)
    if a[0] == "0":
        return b
    if b[0] == "0":
        return a
    x = broken(a, b)
    if x is not None:
        return x
    if a[0] == "D" and b[0] == "D" and a[1] == b[1]:
        return D(a[1], None)
    if a[0] == "G" and b[0] == "G":
        return G(None, a[2] and b[2])
    for g, o in ((a, b), (b, a)):
        if g[0] == "G" and scale_free(o):
            return G(None, g[2] and pure(o))
    return None


def moved(w):
    """The shift of a function that is not linear."""
    if w is None or w == 0:
        return w
    return MOVES if exact(w) else SQUARED if w == LINEAR else w


def add_w(v, w, sub):
    if w is None or v is None:
        return None
    if w == 0:
        return v
    if v == 0:
        return -w if exact(w) and sub else w
    if exact(v) and exact(w):
        return tidy(v - w if sub else v + w)
    if LINEAR in (v, w) and (exact(v) or exact(w)):
        return LINEAR
    return FIRM if FIRM in (v, w) else None


def add(a, b, sub=False, site=None):
    """a + b or a - b."""
    x = broken(a, b)
    if x is not None:
        return x
    if a is None or b is None:
        return None
    if a[0] == "0":
        if b[0] == "D" and sub:
            return D(b[1], add_w(W0, b[2], True))
        if b[0] == "G" and sub and b[1] is not None:
            return G(-b[1], b[2])
        return None if b[0] == "E" and sub else b
    if b[0] == "0":
        return a
    if a[0] == "D" and b[0] == "D":
        if a[1] != b[1]:
            return X(f"{text(a)} and {text(b)} are {'subtracted' if sub else 'added'}", site)
        return D(a[1], add_w(a[2], b[2], sub))
    if a[0] == "G" and b[0] == "G":
        s = a[2] and b[2]
        if a[1] is None or b[1] is None:
            return G(None, s)
        return G(tidy(a[1] - b[1] if sub else a[1] + b[1]), s)
    if "E" in (a[0], b[0]):
        return None
    g, o = (a, b) if a[0] == "G" else (b, a)
    if scale_free(o):
        s = g[2] and pure(o)
        return G(g[1] if g[1] is None or not (g is b and sub) else -g[1], s)
    if o[0] == "D" and o[1] != 0:
        return X(f"{text(o)} and a logarithm are {'subtracted' if sub else 'added'}", site)
    return None


def strung(ds):
    """Values of these kinds one after the other."""
    out = ds[0]
    for d in ds[1:]:
        out = join_dim(out, d)
    if isD(out) and out[2] is None and all(d is not None and (d[0] == "0" or (isD(d) and (exact(d[2]) or d[2] == LINEAR))) for d in ds):
        return D(out[1], LINEAR)
    if isD(out) and exact(out[2]) and out[2] != 0 and any(d[0] == "0" for d in ds):
        return D(out[1], LINEAR)        # nought does not move with the others
    return out


def neg(a):
    return add(ZERO, a, True)


def scaled_w(w, t, div):
    """The shift of a value times a factor t that does not move (None: not one known number)."""
    if w is None or w == 0:
        return w
    if t is not None and t == 0:
        return None
    if t is FIXED:
        if w in (MOVES, FIRM):
            return w
        t = None
    if exact(w) and t is not None:
        return tidy(w / t if div else w * t)
    if not exact(w) and w != UNEVEN and t is not None:
        return w
    return LINEAR if exact(w) or w == LINEAR else None if w == SQUARED else UNEVEN


def mul(a, b, div=False, ta=None, tb=None):
    """a * b or a / b; ta, tb: the operand's value when it is one known number."""
    x = broken(a, b)
    if x is not None:
        return x
    if a is None or b is None:
        return None
    if a[0] == "0":
        return a
    if b[0] == "0":
        return None if div else b
    if a[0] == "D" and b[0] == "D":
        p = a[1] - b[1] if div else a[1] + b[1]
        if a[2] is None or b[2] is None:
            return D(p, None)
        if b[2] == 0:
            return D(p, scaled_w(a[2], tb, div))
        if a[2] == 0:
            if div:
                return D(p, None if b[2] in PARTIAL else MOVES if ta is not None and ta is not FIXED else LINEAR if exact(b[2]) else UNEVEN)
            return D(p, scaled_w(b[2], ta, False))
        return D(p, None if {LINEAR, SQUARED} & {a[2], b[2]} else UNEVEN if UNEVEN in (a[2], b[2]) else MOVES if exact(a[2]) and exact(b[2]) else None)
    if a[0] == "E" and b[0] == "E":
        return a if a == b else None
    if "E" in (a[0], b[0]):
        return (a if tb == 1 else None) if a[0] == "E" else None
    if a[0] == "G" and isD(b, 0):
        s = a[2] and b[2] == 0
        if tb is not None and tb != 0 and tb is not FIXED and a[1] is not None:
            return G(tidy(a[1] / tb if div else a[1] * tb), s)
        return G(None, s)
    if b[0] == "G" and not div and a[0] == "D":
        return mul(b, a, False, tb, ta)
    return None


def power(a, c, e, site=None):
    """a ** e, with c the exponent's value when it is a literal."""
    x = broken(a, e)
    if x is not None:
        return x
    if a is None or e is None:
        return None
    if a[0] == "0":
        return a if c is not None and c > 0 else None
    if a[0] == "E":
        return E(a[1] + e[1]) if isD(e) and e[2] == 0 else None
    if a[0] == "D":
        if c is not None:
            if c == 1:
                return a
            if c == 0:
                return PURE
            f = Fraction(c).limit_denominator(10 ** 6)
            return D(a[1] * f, moved(a[2]))
        if pure(a) and pure(e):
            return PURE
        if scale_free(a) and scale_free(e):
            return D(NIL, None)
        if pure(a) and isD(e) and e[1] != 0:
            return X(f"a power with an exponent in {text(e)}", site)
        return None
    return None


def firm(w):
    w = moved(w)
    return FIRM if w == MOVES else w


def log(a, site=None):
    x = broken(a)
    if x is not None:
        return x
    if a is None or a[0] in ("0", "G"):
        return None
    if a[0] == "E":
        return D(a[1])
    if a[1] == 0:
        return D(NIL, firm(a[2]))
    return G(sympy.Rational(a[1].numerator, a[1].denominator), a[2] == 0)


def exp(a, site=None, power_group=False):
    x = broken(a)
    if x is not None:
        return x
    if a is None:
        return None
    if a[0] == "0":
        return PURE
    if a[0] == "G":
        if a[1] is None:
            return None
        # a power of the unit that depends on the sample size stays an expression
        return D(Fraction(int(a[1].p), int(a[1].q)) if a[1].is_Rational else a[1], W0 if a[2] else None)
    if power_group and a[0] == "D" and a[2] == 0:
        return E(a[1])
    return func(a, "exp", site)


def func(a, name, site=None):
    """A function that needs a pure number."""
    x = broken(a)
    if x is not None:
        return x
    if a is None or a[0] == "G":
        return None
    if a[0] == "0":
        return PURE
    if a[0] == "D" and a[1] == 0:
        return D(NIL, moved(a[2]) if name == "exp" else firm(a[2]))
    return X(f"{name} of {text(a)}", site)


def addition(s):
    """(name, +/-, what is added) of a statement that adds to a name."""
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)):
        return s.target.id, s.op, s.value
    if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, (ast.Add, ast.Sub)):
        t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else getattr(s, "target", None)
        b = s.value
        if isinstance(t, ast.Name):
            if isinstance(b.left, ast.Name) and b.left.id == t.id:
                return t.id, b.op, b.right
            if isinstance(b.right, ast.Name) and b.right.id == t.id and isinstance(b.op, ast.Add):
                return t.id, b.op, b.left
    return None, None, None


def same_units(a, b, what, site=None):
    """Comparison, searching: a pure outcome when both sides have the same unit."""
    x = broken(a, b)
    if x is not None:
        return x
    if a is None or b is None:
        return None
    if a[0] == "0" or b[0] == "0":
        o = b if a[0] == "0" else a
        return PURE if o[0] in ("0", "E") or (o[0] == "D" and o[2] == 0) else D(NIL, None) if o[0] == "D" else None
    if a[0] == "D" and b[0] == "D":
        if a[1] != b[1]:
            return X(f"{text(a)} and {text(b)} are {what}", site)
        if a[2] is None or b[2] is None:
            return D(NIL, None)
        if exact(a[2]) and exact(b[2]):
            return PURE if tidy(a[2] - b[2]) == 0 else D(NIL, MOVES)
        return D(NIL, None)
    if a[0] == "G" and b[0] == "G" and a[1] is not None and b[1] is not None and tidy(a[1] - b[1]) == 0:
        return PURE if a[2] and b[2] else D(NIL, None)
    if a[0] == "E" and a == b:
        return PURE
    return None


# ---- the transfer functions of the interpreter's operations
KEEP_SAME = {"asarray", "array", "asanyarray", "sort", "sorted", "copy", "ravel", "flatten", "reshape", "squeeze", "unique", "flip", "roll", "transpose",
             "atleast_1d", "ascontiguousarray", "astype", "float64", "float", "tolist", "item", "mean", "median", "average", "max", "min", "amax", "amin", "nanmean",
             "quantile", "percentile", "nanmax", "nanmin", "tmean", "trim_mean", "mode", "broadcast_to", "take", "view", "compress", "delete", "trim1", "trimboth",
             "partition", "maximum.reduce", "minimum.reduce", "maximum.accumulate", "minimum.accumulate", "repeat", "tile", "expand_dims", "nan_to_num", "real", "cummax"}
STRUCTURE = {"enumerate", "zip", "reversed", "list", "tuple", "iter", "next", "map", "filter", "range", "set", "frozenset", "dict", "append", "extend", "insert", "pop",
             "accumulate", "combinations", "product", "permutations", "chain", "pairwise", "islice", "isinstance", "type", "hasattr", "getattr", "setattr", "callable",
             "print", "super", "count", "items", "keys", "values", "get", "__init__", "meshgrid", "str", "repr", "format"}
SHIFT_FREE = {"std": ONE, "nanstd": ONE, "tstd": ONE, "sem": ONE, "ptp": ONE, "iqr": ONE, "median_abs_deviation": ONE, "median_absolute_deviation": ONE,
              "var": Fraction(2), "nanvar": Fraction(2), "tvar": Fraction(2)}
STANDARD = {"skew", "kurtosis", "zscore", "skewtest", "kurtosistest", "normaltest", "shapiro", "jarque_bera", "variation"}
ELEMENT = {"sin", "cos", "tan", "arcsin", "arccos", "arctan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "arctanh", "atanh", "expm1", "log1p", "erf", "erfc", "gamma", "gammaln",
           "lgamma", "loggamma", "digamma", "psi", "ndtr", "ndtri", "log_ndtr", "expit", "logit", "i0", "gammainc", "gammaincc", "betainc", "factorial", "comb",
           "floor", "ceil", "round", "rint", "trunc", "int", "fix", "exp2"}
CHOOSING = {"mean", "median", "average", "max", "min", "amax", "amin", "nanmean", "quantile", "percentile", "nanmax", "nanmin", "tmean", "trim_mean", "mode", "take",
            "compress", "delete", "trim1", "trimboth", "maximum.reduce", "minimum.reduce", "item", "float", "float64"}
CHOPPING = {"floor", "ceil", "round", "rint", "trunc", "int", "fix"}
COUNTING = {"len", "argsort", "argmax", "argmin", "rankdata", "isnan", "isfinite", "isinf", "any", "all", "count_nonzero", "nonzero", "sign", "shape", "size", "ndim"}
DIST_METHODS = {"cdf": NIL, "sf": NIL, "logcdf": NIL, "logsf": NIL, "pdf": -ONE, "logpdf": NIL, "ppf": ONE, "isf": ONE}


class Dims:
    def __init__(self, I, sources, power_group=False, plain=()):
        self.I = I
        self.power_group = power_group
        self.sources = frozenset(sources) | {"sought"}      # dependency labels whose values carry units
        self.plain = {s[6:] for s in self.sources if s.startswith("param:")} | set(plain)
        self.tally = {}
        self.trace = None
        self.count = 0
        self.added = {}        # augmented assignment -> what it adds
        self.open = []         # branches on a condition about which nothing is known
        self.conds = []        # branches taken on a comparison of different units

    def cond(self, v, st, site):
        d = self.of(v, st)
        if d is not None and d[0] == "X" and all(x[0] != d for x in self.conds):
            self.conds.append((d, site))
        elif d is None and site not in self.open and self.I.truth(v, st) is None:
            self.open.append(site)

    # -- reading and writing
    def of(self, v, st, depth=0):
        if v is None or depth > 6:
            return None
        out = None
        first = True
        for a in v.atoms:
            d = self.of_atom(a, v, st, depth)
            out = d if first else join_dim(out, d)
            first = False
        return out

    def of_atom(self, a, v, st, depth):
        if a[0] == "c":
            x = a[1].v
            if isinstance(x, (int, float)) and not isinstance(x, bool) and (x == 0 or abs(x) == float("inf")):
                return ZERO
            if x is None:
                return ZERO
            return v.f.dim if v.f.dim is not None else PURE
        if a[0] == "t":
            return self.all([self.of(x, st, depth + 1) for x in a[1]])
        if a[0] == "r":
            o = st.heap.get(a[1])
            if o is None:
                return None
            if o.kind in ("list", "array", "sample", "set", "gen", "range"):
                if o.elems is not None:
                    return self.all([self.of(x, st, depth + 1) for x in o.elems])
                if o.elem is not None and o.kind != "array":
                    return self.of(o.elem, st, depth + 1)
            if o.f.dim is not None:
                return o.f.dim
            return PURE if self.independent(v, st) else None
        if v.f.dim is not None:
            return v.f.dim
        return PURE if self.independent(v, st) else None

    def all(self, ds):
        out = None
        for i, d in enumerate(ds):
            out = d if i == 0 else join_dim(out, d)
        return out if ds else ZERO

    def independent(self, v, st):
        return not (self.I.eff_deps(v, st) & self.sources)

    def put(self, v, d, st):
        """The value with this behaviour."""
        if v is None:
            return v
        for a in v.atoms:
            if a[0] == "r":
                o = st.heap.get(a[1])
                if o is None or o.kind in ("inst", "env", "dict", "class", "sample"):
                    continue
                kw = {"f": o.f.but(dim=d)}
                if o.elems is not None:
                    kw["elems"] = tuple(self.put(x, d, st) for x in o.elems)
                if isinstance(o.elem, AV):
                    kw["elem"] = self.put(o.elem, d, st)
                st.heap[a[1]] = o.but(**kw)
        if any(a[0] == "t" for a in v.atoms):
            v = AV(frozenset(("t", tuple(self.put(x, d, st) for x in a[1])) if a[0] == "t" else a for a in v.atoms), v.f)
        if v.const()[0]:
            return v
        return v.but(dim=d)

    def after_loop(self, s, it, entry, out, fr):
        """Sums kept by hand: a total to which every turn of a loop over the whole sample adds once."""
        if any(isinstance(x, (ast.Continue, ast.Break, ast.Return)) for x in ast.walk(s)) or not models.is_full(self.I, it, entry):
            return
        stores = {}
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                stores[x.id] = stores.get(x.id, 0) + 1
        o = out.heap.get(fr.env)
        e0 = entry.heap.get(fr.env)
        for x in s.body:
            n, op, e = addition(x)
            if n is None or stores.get(n) != 1:
                continue
            v, v0, d = o.attrs.get(n), e0.attrs.get(n), self.added.get(id(e))
            if v is None or v0 is None or d is None or v.atoms - {NUM} or any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(e)):
                continue
            t = add(self.of(v0, entry), self.summed(d[0], models.N_SYM), isinstance(op, ast.Sub))
            if t is not None:
                o = o.but(attrs={**o.attrs, n: v.but(dim=t)})
                out.heap[fr.env] = o

    def stored(self, oid, v, st):
        return join_dim(self.of(AV(frozenset({("r", oid)})), st), self.of(v, st))

    def lit(self, v):
        ok, c = v.const()
        if ok and isinstance(c, (int, float)) and not isinstance(c, bool) and c == c and abs(c) not in (float("inf"),):
            return c
        return None

    def generic(self, op, vs, ds):
        """A parameter of the hypothesis, or a measurement, compared with a literal: they have no special values."""
        for v, d, o in ((vs[0], ds[0], vs[1]), (vs[1], ds[1], vs[0])):
            if self.lit(o) is not None and v.f.term is not None and v.f.term.is_Symbol and v.single() == ("n",) and v.f.deps & self.sources \
                    and d is not None and d[0] in ("D", "E") and d != PURE:
                return const(op == "NotEq")
            if self.lit(o) is not None and v.single() == ("n",) and v.f.rank in (0, None) and "sample" in v.f.deps and isD(d) and d[1] != 0:
                return const(op == "NotEq")
        return None

    def number(self, v, st, other=None):
        """The value as an expression in the sample size and the parameters, when it is one number that does not vary."""
        ok, c = v.const()
        if ok:
            if isinstance(c, (int, float)) and not isinstance(c, bool) and c == c and abs(c) != float("inf"):
                f = Fraction(c).limit_denominator(10 ** 9)
                return sympy.Rational(f.numerator, f.denominator)
            return None
        if other is not None and v.f.rank == 1 and "sample" not in self.I.eff_deps(v, st) and other.f.rank == 1 and "sample" in self.I.eff_deps(other, st):
            return FIXED
        t = v.f.term
        if t is None or v.f.rank != 0 or v.f.ax or v.f.idx is not None or not v.atoms <= {NUM}:
            return None
        return t if all(x == models.N_SYM or x.name in self.plain for x in t.free_symbols) else None

    def weightless(self, v, d):
        """Added to or compared with a measurement, a literal below rounding error and an infinite one are as good as nought."""
        ok, c = v.const()
        if ok and isinstance(c, float) and (abs(c) <= 1e-14 or abs(c) == float("inf")):
            return ZERO
        return ZERO if v.single() is not None and v.single()[0] == "x" and v.single()[1] in ("numpy.inf", "math.inf") else d

    # -- operations
    def op(self, I, op, vs, r, node, st, fr, ds=None):
        if r is None:
            return r
        site = I.site(node, fr)
        ds = ds or [self.of(v, st) for v in vs]
        if op in ("Add", "Sub"):
            if any(o.kind in ("list", "sample") and (o.kind == "list" or o.extra == "list") for v in vs for _, o in I.objs(v, st)) and op == "Add" and \
                    all(I.objs(v, st) or any(a[0] == "t" for a in v.atoms) for v in vs):
                return self.put(r, join_dim(*ds), st)
            d = add(*map(self.weightless, vs, ds), op == "Sub", site)
        elif op in ("Mult", "Div"):
            if op == "Mult" and any(o.kind == "list" for v in vs for _, o in I.objs(v, st)):
                return r
            d = mul(ds[0], ds[1], op == "Div", self.number(vs[0], st, vs[1]), self.number(vs[1], st, vs[0]))
        elif op == "Pow":
            d = power(ds[0], self.lit(vs[1]), ds[1], site)
        elif op == "MatMult":
            d = self.summed(mul(ds[0], ds[1]), models.length(I, vs[0], st))
        elif op in ("FloorDiv", "Mod"):
            d = PURE if all(pure(x) for x in ds) else broken(*ds)
        elif op == "USub":
            d = neg(ds[0])
        elif op in ("UAdd",):
            d = ds[0]
        elif op in ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq"):
            if op in ("Eq", "NotEq"):
                g = self.generic(op, vs, ds)
                if g is not None:
                    return g
            d = same_units(*map(self.weightless, vs, ds), "compared", site)
        elif op == "Subscript":
            bs = vs[0]
            if any(o.kind in ("array", "sample") or (o.kind == "list" and o.elems is None) for _, o in I.objs(bs, st)):
                d = D(ds[0][1], None) if isD(ds[0]) and ds[0][2] in PARTIAL else ds[0]
                if len(ds) > 1 and ds[1] is not None and ds[1][0] == "X" and d is not None:
                    d = ds[1]
            else:
                return r
        elif op in ("BitAnd", "BitOr", "BitXor", "Invert", "Not", "And", "Or"):
            d = broken(*ds) or (PURE if all(pure(x) for x in ds) else None)
        else:
            return r
        self.note(op, ds, d, site)
        return self.put(r, d, st)

    def note(self, what, ds, d, site):
        self.count += 1
        if self.trace is not None and all(x is not None for x in ds) and (d is None or (isD(d) and d[2] is None and all(x[2] is not None for x in ds if x[0] == "D"))):
            self.trace.append((what, [x[1:] if x[0] == "D" else x for x in ds], d, site))

    def summed(self, d, ln=None):
        """A sum of ln such values."""
        if d is None or d[0] in ("0", "X"):
            return d
        if d[0] == "E":
            return None
        t = None
        if isinstance(ln, sympy.Basic):
            t = ln
        elif ln is not None:
            ok, c = ln.const()
            t = sympy.Integer(c) if ok and isinstance(c, int) else ln.f.term if ln.f.term is not None and ln.f.term.free_symbols <= {models.N_SYM} else None
        if d[0] == "D":
            if exact(d[2]) and d[2] != 0:
                return D(d[1], tidy(d[2] * t) if t is not None and t != 0 else None)
            return D(d[1], None if d[2] in (UNEVEN, LINEAR) else MOVES if d[2] == SQUARED else d[2])
        return G(tidy(d[1] * t) if d[1] is not None and t is not None else None, d[2])

    def attr(self, I, name, v, r, st):
        if name in ("size", "shape", "ndim"):
            return self.put(r, PURE, st)
        return r

    def before(self, name, recv, args, kwargs, st):
        """The behaviour of the operands, before the call changes any of them."""
        return {id(v): self.of(v, st) for v in ([recv] if recv is not None else []) + list(args) + list(kwargs.values())}

    def call(self, I, name, recv, args, kwargs, pre, r, node, st, fr):
        if r is None:
            return r
        name = models.canon(name)
        leaf = name.rsplit(".", 1)[-1]
        mod = name.rsplit(".", 1)[0]
        site = I.site(node, fr)
        method = recv is not None and not name.startswith(("numpy.", "scipy.", "math."))
        vs = ([recv] if method else []) + list(args)
        if any("%frozen" in o.attrs for _, o in I.objs(r, st) if o.kind == "ext"):
            return r
        if recv is not None and leaf in DIST_METHODS:
            for _, o in I.objs(recv, st):
                if o.kind == "ext" and "%frozen" in o.attrs:
                    (given,) = o.attrs["%frozen"].atoms
                    vs = list(args) + list(given[1])
                    kwargs = {**kwargs, **{k[3:]: v for k, v in o.attrs.items() if k.startswith("%k:")}}
                    pre = {**pre, **{id(v): self.of(v, st) for v in list(given[1]) + list(kwargs.values()) if id(v) not in pre}}
        if leaf == "fit" and mod.startswith("scipy.stats."):
            return self.fitted(mod.rsplit(".", 1)[-1], vs, kwargs, r, st)
        if leaf in STRUCTURE and not (leaf in ("product",) and not name.startswith("itertools")):
            return r
        d = self.rule(I, name, mod, leaf, vs, kwargs, pre, st, site)
        self.note(name, [pre[id(v)] for v in vs], None if isinstance(d, tuple) and d and not isinstance(d[0], str) else d, site)
        if d == "keep":
            return r
        if leaf == "histogram" and d is not None:      # (counts, edges)
            out = set()
            for a in r.atoms:
                if a[0] == "t" and len(a[1]) == 2:
                    out.add(("t", (self.put(a[1][0], d[0], st), self.put(a[1][1], d[1], st))))
                else:
                    return self.put(r, None, st)
            return AV(frozenset(out), r.f)
        return self.put(r, d, st)

    def rule(self, I, name, mod, leaf, vs, kwargs, pre, st, site):
        ds = [pre[id(v)] for v in vs]
        kd = {k: pre[id(v)] for k, v in kwargs.items()}
        x = broken(*ds, *kd.values())
        if x is not None:
            return x
        if mod.startswith("scipy.stats") and leaf in DIST_METHODS and mod != "scipy.stats":
            return self.distribution(mod, leaf, vs, kwargs, st, site)
        first = ds[0] if ds else None
        if name in ("builtins.max", "builtins.min", "numpy.maximum", "numpy.minimum", "numpy.fmax", "numpy.fmin", "numpy.clip", "numpy.hypot"):
            if len(ds) == 1:
                return first
            ds = [self.weightless(v, e) for v, e in zip(vs, ds)]
            d = ds[0]
            for e in ds[1:]:
                s = same_units(d, e, "compared", site)
                if s is None or s[0] == "X":
                    return s
                d = join_dim(d, e)
            return d
        if leaf in ("sum", "fsum", "nansum"):
            ln = models.length(self.I, vs[0], st)
            if name == "builtins.sum" and len(ds) > 1:
                return add(self.summed(first, ln), ds[1], False, site)
            return self.summed(first, ln if not (kwargs or len(vs) > 1) else None)
        if leaf == "cumsum":
            return None if first is None or first[0] == "E" else (D(first[1], W0 if first[2] == 0 else None) if first[0] == "D" else first if first[0] == "0" else G(None, first[2]) if first[0] == "G" else first)
        if leaf in ("mean", "average") and "weights" in kwargs:
            return first if pure(kd["weights"]) else None
        if leaf in KEEP_SAME or name == "builtins.abs" and first is not None and first[0] == "0":
            if first is not None and first[0] == "E" and leaf in ("mean", "average", "nanmean", "tmean", "trim_mean", "median", "quantile", "percentile"):
                return None
            if isD(first) and first[2] in PARTIAL and leaf in CHOOSING:
                return D(first[1], MOVES if first[2] == SQUARED and leaf in ("mean", "average") and len(vs) == 1 and not kwargs else None)
            return first
        if leaf in ("abs", "absolute", "fabs", "negative", "diff", "ediff1d", "square", "sqrt", "reciprocal", "cbrt"):
            if first is None:
                return None
            if leaf == "negative":
                return neg(first)
            if leaf in ("abs", "absolute", "fabs"):
                return D(first[1], moved(first[2])) if first[0] == "D" else first if first[0] in ("0", "E") else None
            if leaf in ("diff", "ediff1d"):
                if len(vs) > 1 or kwargs:
                    return None
                return D(first[1], W0 if exact(first[2]) else LINEAR if first[2] == LINEAR else None) if first[0] == "D" else D(NIL, W0 if first[2] else None) if first[0] == "G" and first[1] is not None \
                    else None if first[0] in ("E", "G") else first
            return power(first, {"square": 2, "sqrt": Fraction(1, 2), "reciprocal": -1, "cbrt": Fraction(1, 3)}[leaf], PURE, site)
        if leaf in ("power", "pow") and len(ds) == 2:
            return power(ds[0], self.lit(vs[1]), ds[1], site)
        if leaf in ("add", "subtract") and len(ds) == 2:
            return add(ds[0], ds[1], leaf == "subtract", site)
        if leaf in ("multiply", "divide", "true_divide") and len(ds) == 2:
            return mul(ds[0], ds[1], leaf != "multiply", self.number(vs[0], st, vs[1]), self.number(vs[1], st, vs[0]))
        if leaf in ("outer", "subtract.outer", "add.outer"):
            if "subtract" in name or "add" in name:
                return add(ds[0], ds[1], "subtract" in name, site)
            return mul(ds[0], ds[1])
        if leaf in ("dot", "inner", "vdot", "matmul", "convolve", "correlate") and len(ds) == 2:
            return self.summed(mul(ds[0], ds[1]), models.length(self.I, vs[0], st))
        if leaf in ("log", "log2", "log10"):
            return log(first, site) if len(ds) == 1 else None
        if leaf == "exp":
            return exp(first, site, self.power_group)
        if leaf in ("prod", "nanprod"):
            if pure(first):
                return PURE
            n = models.length(self.I, vs[0], st)
            n = n if isinstance(n, sympy.Basic) else n.f.term if n is not None else None
            return D(first[1] * n) if isD(first) and first[2] == 0 and n is not None and len(vs) == 1 and not kwargs else None
        if leaf in SHIFT_FREE:
            if first is not None and first[0] == "D":
                return D(first[1] * SHIFT_FREE[leaf], W0 if exact(first[2]) else None)
            return D(NIL, W0 if first[2] else None) if first is not None and first[0] == "G" and first[1] is not None else None
        if leaf in ("moment",):
            k = self.lit(vs[1]) if len(vs) > 1 else self.lit(next(iter(kwargs.values()))) if kwargs else None
            if isD(first) and k is not None:
                return D(first[1] * Fraction(k), W0 if exact(first[2]) else None)
            return None
        if leaf in STANDARD:
            return PURE if isD(first) and exact(first[2]) else (D(NIL, W0 if first[2] else None) if first is not None and first[0] == "G" and first[1] is not None else None)
        if leaf in ("pearsonr", "spearmanr", "corrcoef", "kendalltau"):
            ok = all(d is not None and (d[0] == "0" or (d[0] == "D" and exact(d[2])) or (d[0] == "G" and d[1] is not None and d[2])) for d in ds)
            return PURE if ok else None
        if leaf == "cov" and len(ds) == 2:
            return mul(D(ds[0][1]), D(ds[1][1])) if isD(ds[0]) and isD(ds[1]) and exact(ds[0][2]) and exact(ds[1][2]) else None
        if leaf in ("searchsorted", "bisect_left", "bisect_right", "bisect") and len(ds) >= 2:
            return same_units(ds[0], ds[1], "compared", site)
        if leaf == "where" and len(ds) == 3:
            return join_dim(ds[1], ds[2]) if ds[0] is None or ds[0][0] != "X" else ds[0]
        if leaf in ("concatenate", "hstack", "vstack", "column_stack", "stack", "r_", "append", "block"):
            if leaf == "append" and len(ds) == 2:
                return strung(ds)
            ks = self.I.known_elems(vs[0], st) if vs else None
            return strung([self.of(k, st) for k in ks]) if ks else first
        if leaf in ("full", "full_like"):
            return ds[1] if len(ds) > 1 else kd.get("fill_value")
        if leaf in ("zeros", "zeros_like"):
            return ZERO
        if leaf in ("ones", "ones_like", "empty", "empty_like", "eye", "identity"):
            return PURE if leaf not in ("empty", "empty_like") else ZERO
        if leaf in ("arange", "linspace"):
            if all(pure(d) for d in ds + list(kd.values())):
                return PURE
            if leaf == "linspace" and len(ds) >= 2:
                return join_dim(ds[0], ds[1]) if ds[0] is not None and ds[1] is not None and ds[0][:2] == ds[1][:2] else None
            return None
        if leaf in ("isclose", "allclose") and len(ds) >= 2:
            at = kwargs.get("atol", kwargs.get("abs_tol", vs[3] if len(vs) > 3 and mod == "numpy" else None))
            if at is None and mod == "math" or at is not None and self.lit(at) == 0:
                return same_units(ds[0], ds[1], "compared", site)
            ds = [self.weightless(v, d) for v, d in zip(vs[:2], ds)]
            if any(isD(d) and d[1] != 0 for d in ds) and all(isD(d) or d == ZERO for d in ds) and (at is None or self.lit(at) is not None):
                return X(f"{text(next(d for d in ds if d != ZERO))} is compared with an absolute tolerance", site)
            return same_units(ds[0], ds[1], "compared", site) if all(pure(d) for d in ds) else None
        if leaf in COUNTING:
            return PURE if leaf not in ("sign",) or (first is not None and (first[0] == "0" or isD(first) and first[2] == 0)) else None
        if leaf == "histogram":
            if set(kwargs) - {"bins", "range", "density"} or len(vs) > 3:
                return None
            e = ds[1] if len(vs) > 1 else kd.get("bins", PURE)
            r = ds[2] if len(vs) > 2 else kd.get("range", first)
            whole = not I.objs(vs[1] if len(vs) > 1 else kwargs["bins"], st) if len(vs) > 1 or "bins" in kwargs else True
            if first is None or e is None or r is None or "density" in kwargs:
                return None
            if whole:       # a number of bins
                return (same_units(first, r, "compared", site), r) if pure(e) else None
            return same_units(first, e, "compared", site), e
        if leaf in ("xlogy", "xlog1py") and len(ds) == 2:
            return mul(ds[0], log(ds[1], site)) if leaf == "xlogy" else None
        if leaf in ELEMENT:
            es = [func(d, leaf, site) for d in ds]
            for e in es:
                if e is None or e[0] == "X":
                    return e
            return es[0] if len(es) == 1 and leaf not in CHOPPING else PURE if all(pure(d) for d in ds) else D(NIL, None)
        if leaf in ("polyval",) and len(ds) == 2:
            return PURE if all(pure(d) for d in ds) else (func(ds[1], "a polynomial", site) if pure(ds[0]) else None)
        if all(pure(d) for d in ds) and all(pure(d) for d in kd.values()):
            return PURE
        return None

    def distribution(self, mod, leaf, vs, kwargs, st, site):
        fam = mod.rsplit(".", 1)[-1]
        b = laws.bind_scipy(fam, leaf, vs, kwargs)
        if b is None:
            return None
        p, x, _ = b
        d = {k: self.of(v, st) for k, v in p.items()}
        y = self.of(x, st)
        if y is not None and y[0] == "E" and fam in ("exponweib", "weibull_min"):
            if not pure(d.get("a", PURE)):
                return func(d["a"], f"the parameter a of {fam}", site)
            if any(n in p and self.lit(p[n]) != c for n, c in (("loc", 0), ("scale", 1))) or leaf not in ("cdf", "sf", "logcdf", "logsf") or not isD(d.get("c")):
                return None
            if d["c"][1] != -y[1]:
                return X(f"the {leaf} of {fam} with a shape that is {text(d['c'])} and not an inverse power of the observations", site)
            return PURE
        if y is not None and y[0] == "E" and fam == "lognorm" and isD(d.get("s")):
            sc = d.get("scale", PURE)
            if any(n in p and self.lit(p[n]) != 0 for n in ("loc",)) or leaf not in ("cdf", "sf", "logcdf", "logsf"):
                return None
            if d["s"] != D(y[1]) or sc != y:
                return X(f"the {leaf} of lognorm with a shape or a scale of another power than the observations", site) if sc[0] in ("E", "D") else None
            return PURE
        for s, v in d.items():
            if s not in ("loc", "scale") and not pure(v):
                return func(v, f"the parameter {s} of {fam}", site)
        loc, scale, x = d.get("loc", ZERO), d.get("scale", PURE), y
        if leaf in ("ppf", "isf"):
            q = func(x, "quantiles", site)
            if q is None or q[0] == "X":
                return q
            return add(loc, mul(scale, PURE), False, site)
        one = sympy.Integer(1)
        z = mul(add(x, loc, True, site), scale, True, None, self.number(p["scale"], st) if "scale" in p else one)
        e = func(z, f"the {leaf} of {fam}", site)
        if e is None or e[0] == "X":
            return e
        if leaf == "pdf":
            return mul(e, scale, True, None, self.number(p["scale"], st) if "scale" in p else sympy.Integer(1))
        if leaf == "logpdf":
            return add(e, log(scale, site), True, site) if scale != PURE else e
        return e

    def fitted(self, fam, vs, kwargs, r, st):
        """Parameters fitted to observations: shapes are pure, location and scale are measured as the observations are."""
        names = laws.parameters(fam)
        x = self.of(vs[0], st) if vs else None
        if names is None or not isD(x):
            return self.put(r, None, st)
        free = "floc" not in kwargs or x[2] == 0 and self.lit(kwargs["floc"]) == 0
        out = set()
        for a in r.atoms:
            if a[0] != "t" or len(a[1]) != len(names):
                return self.put(r, None, st)
            d = [(x if n == "loc" else D(x[1]) if n == "scale" else PURE) if free and "fscale" not in kwargs else None for n in names]
            out.add(("t", tuple(v if v.const()[0] else self.put(v, e, st) for v, e in zip(a[1], d))))
        return AV(frozenset(out), r.f)


values.DIM_JOIN = join_dim
