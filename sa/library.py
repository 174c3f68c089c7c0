"""What the functions of the libraries compute, as closed forms (for sa.summary)."""
from __future__ import annotations

import ast

import sympy

from . import closed as cl
from . import laws
from .closed import Eq0, Ite, MaxF, Mx, Pd, Sg, neg
from .models import canon
from .summary import (I0, I1, Arr, Cls, Ext, Fn, Frozen, Inst, Meth, Nest, Partial, Raised, Sel, Text, Unknown, dummy, fixed, is_cond,
                      is_num, number)

HALF = sympy.Rational(1, 2)
TYPES = {"builtins.float", "builtins.int", "builtins.bool", "numpy.float64", "numpy.float32", "numpy.int64", "numpy.intp", "numpy.floating", "numpy.integer"}


def ext_attr(w, name, nm):
    full = canon(f"{name}.{nm}")
    c = {"numpy.pi": sympy.pi, "math.pi": sympy.pi, "numpy.e": sympy.E, "math.e": sympy.E, "numpy.inf": sympy.oo, "math.inf": sympy.oo,
         "numpy.nan": sympy.nan, "math.nan": sympy.nan, "numpy.euler_gamma": sympy.EulerGamma, "numpy.newaxis": None}.get(full)
    if c is not None:
        return c
    if full == "numpy.newaxis":
        return None
    return Ext(full)


def take(kwargs, args, names, fn):
    """Arguments by name; unknown ones make the call unknown."""
    out = dict(zip(names, args))
    if len(args) > len(names):
        raise Unknown(f"{fn}: arguments")
    for k, v in kwargs.items():
        if k not in names:
            raise Unknown(f"{fn}: argument {k}")
        out[k] = v
    return out


def seq(w, v):
    if isinstance(v, Nest):
        raise Unknown("nested comprehension")
    return w.as_seq(v)


def nd(w, v):
    if isinstance(v, Sel):
        return v.copy("nd")
    if isinstance(v, (Arr, tuple)):
        s = w.as_seq(v)
        return w.born(Arr([(a, b, nd(w, c) if isinstance(c, (Arr, tuple)) else c) for a, b, c in s.segs], "nd"))
    return v


def total(w, v, start=I0):
    if isinstance(v, Nest):
        r = start
        for g in v.segs:
            if g[0] == "nest":
                _, ln, k, inner = g
                s = total(w, inner)
                if k is None:
                    r = r + s
                else:
                    r = r + Sg(s, k, I0, sympy.expand(ln - 1))
            else:
                r = r + (number(g[2]) if g[1] is None else Sg(number(g[2]), g[1], I0, sympy.expand(g[0] - 1)))
        return r
    if is_num(v):
        return number(v) + start
    t = w.total(w.as_seq(v))
    return t if start == 0 else w.binary(ast.Add, t, start)


def product(w, v):
    a = w.as_seq(v)
    r = I1
    for x in w.reduce(a, number, lambda b, k, lo, hi: Pd(number(b), k, lo, hi)):
        r = r * x
    return r


def any_of(w, v):
    if is_cond(v):
        return v
    a = w.as_seq(v)
    out = []
    for ln, k, body in a.segs:
        c = w.truth(body)
        if c is False:
            continue
        if k is None or c is True or (not c.has(k)):
            out.append(c)
        else:
            out.append(cl.Any(c, k, I0, sympy.expand(ln - 1)))
    return w.disj(out)


def all_of(w, v):
    if is_cond(v):
        return v
    return neg(any_of(w, w.map(lambda x: neg(w.truth(x)), w.as_seq(v))))


def absolute(x):
    x = number(x)
    return abs(x) if x.is_Rational else sympy.Abs(x)


def median(w, a):
    s = w.sorted(a)
    L = s.length
    i, j = cl.Fl((L - 1) / 2), cl.Fl(L / 2)
    return (pick(w, s, i) + pick(w, s, j)) / 2


def pick(w, s, i):
    if len(s.segs) == 1 and s.segs[0][1] is not None:
        return number(w.put(s.segs[0][2], s.segs[0][1], i))
    return number(w.elem(s, i))


def quantile(w, a, q):
    s = w.sorted(a)
    at = sympy.expand((s.length - 1) * q)
    lo, hi = cl.Fl(at), -cl.Fl(-at)
    x, y = pick(w, s, lo), pick(w, s, hi)
    return x + (at - lo) * (y - x)


def indices(w, args):
    if len(args) == 1:
        lo, hi, st = I0, number(args[0]), I1
    elif len(args) == 2:
        lo, hi, st = number(args[0]), number(args[1]), I1
    else:
        lo, hi, st = (number(x) for x in args)
    if not st.is_Integer or st == 0:
        raise Unknown("range step")
    L = sympy.expand((hi - lo) if st == 1 else (lo - hi) if st == -1 else (hi - lo) / st)
    if abs(st) != 1:
        if not L.is_Rational:
            raise Unknown("range step")
        L = sympy.ceiling(L)
    if L.is_Rational and not L.is_Integer:
        L = sympy.ceiling(L)
    if L.is_Integer and L <= 64:
        return Arr([(I1, None, sympy.expand(lo + st * i)) for i in range(max(0, int(L)))], "list")
    if w.ge(L, I0) is False:
        return Arr([], "list")
    if w.ge(L, I0) is None:
        raise Unknown("a range of unknown direction")
    k = dummy()
    return Arr([(L, k, sympy.expand(lo + st * k))], "list")


def fill(w, args, kwargs, value, fn):
    d = take(kwargs, args, ["shape", "dtype"], fn)
    L = d["shape"]
    if isinstance(L, tuple):
        if len(L) == 1:
            L = L[0]
        else:
            raise Unknown("a matrix")
    L = sympy.expand(number(L))
    return w.born(Arr([(L, dummy(), value)] if L != 1 else [(I1, None, value)], "nd"))


def sort(w, a, kind="nd"):
    s = w.sorted(a)
    return w.born(Arr(s.segs, kind))


def histogram(w, a, bins, span):
    """Counts of the observations in half-open bins (the last one closed), and the edges of the bins."""
    if isinstance(bins, Arr) or isinstance(bins, tuple):
        e = w.as_seq(bins)
        n = sympy.sympify(e.length)
        if not n.is_Integer or not 2 <= n <= 80:
            raise Unknown("numpy.histogram with an unknown number of edges")
        n = int(n) - 1
    else:
        n = number(bins)
        if span is not None:
            lo, hi = (number(w.item(span, sympy.Integer(j))) for j in (0, 1))
        else:
            lo, hi = w.minimum(a), w.maximum(a)
        k = dummy()
        e = Arr([(n + 1, k, lo + k * (hi - lo) / n)], "nd")

    def count(i, last=False):
        lo, hi = number(w.item(e, i)), number(w.item(e, i + 1))

        def inside(x):
            x = number(x)
            return number(w.conj([w.greater(x, lo, False), w.greater(hi, x, False) if last else w.greater(hi, x)]))
        return w.total(w.map(inside, a))
    if isinstance(n, int):
        c = Arr([(I1, None, count(sympy.Integer(i), i == n - 1)) for i in range(n)], "nd")
    else:
        k = dummy()
        w.ranges[k] = (I0, n - 2)
        try:
            c = Arr([(n - 1, k, count(k)), (I1, None, count(n - 1, True))], "nd")
        finally:
            del w.ranges[k]
    return (w.born(c), w.born(e))


def diff(w, a):
    L = a.length
    lead, tail = w.slice(a, None, sympy.expand(L - 1), None), w.slice(a, I1, None, None)
    return w.born(w.elementwise(lambda x, y: number(y) - number(x), lead, tail))


UNARY = {
    "log": lambda x: sympy.log(x), "log2": lambda x: sympy.log(x) / sympy.log(2), "log10": lambda x: sympy.log(x) / sympy.log(10),
    "log1p": lambda x: sympy.log(1 + x), "exp": lambda x: sympy.exp(x), "expm1": lambda x: sympy.exp(x) - 1, "sqrt": lambda x: sympy.sqrt(x),
    "square": lambda x: x ** 2, "abs": absolute, "absolute": absolute, "fabs": absolute, "sign": lambda x: cl.Sgn(x), "floor": lambda x: cl.Fl(x),
    "ceil": lambda x: -cl.Fl(-x), "negative": lambda x: -x, "reciprocal": lambda x: 1 / x, "arcsin": sympy.asin, "arccos": sympy.acos,
    "arctan": sympy.atan, "sin": sympy.sin, "cos": sympy.cos, "tan": sympy.tan, "sinh": sympy.sinh, "cosh": sympy.cosh, "tanh": sympy.tanh,
    "arcsinh": sympy.asinh, "asinh": sympy.asinh, "asin": sympy.asin, "acos": sympy.acos, "atan": sympy.atan, "cbrt": lambda x: cl.Fun(sympy.Symbol("cbrt"), x),
    "rint": lambda x: cl.Rnd(x), "trunc": lambda x: cl.Fl(x),
}
BINARY = {
    "add": lambda x, y: x + y, "subtract": lambda x, y: x - y, "multiply": lambda x, y: x * y, "divide": lambda x, y: x / y,
    "true_divide": lambda x, y: x / y, "power": lambda x, y: x ** y, "float_power": lambda x, y: x ** y,
    "maximum": lambda x, y: MaxF(x, y), "minimum": lambda x, y: -MaxF(-x, -y), "fmax": lambda x, y: MaxF(x, y), "fmin": lambda x, y: -MaxF(-x, -y),
}
SPECIAL = {
    "gamma": lambda x: cl.Gam(x), "gammaln": lambda x: cl.Lg(x), "digamma": lambda x: cl.Psi(x), "psi": lambda x: cl.Psi(x), "ndtr": lambda x: cl.Phi(x),
    "ndtri": lambda x: cl.Pinv(x), "log_ndtr": lambda x: sympy.log(cl.Phi(x)), "xlogy": lambda x, y: I0 if x == 0 else Ite(Eq0(x), I0, x * sympy.log(y)), "xlog1py": lambda x, y: x * sympy.log(1 + y),
    "betaln": lambda a, b: cl.Lg(a) + cl.Lg(b) - cl.Lg(a + b), "beta": lambda a, b: cl.Gam(a) * cl.Gam(b) / cl.Gam(a + b),
    "gammainc": lambda a, x: cl.Law(sympy.Symbol("cdf"), sympy.Symbol("gamma"), x, a), "erf": lambda x: 2 * cl.Phi(sympy.sqrt(2) * x) - 1,
    "gammaincc": lambda a, x: 1 - cl.Law(sympy.Symbol("cdf"), sympy.Symbol("gamma"), x, a),
    "betainc": lambda a, b, x: cl.Law(sympy.Symbol("cdf"), sympy.Symbol("beta"), x, a, b),
    "erfc": lambda x: 2 - 2 * cl.Phi(sympy.sqrt(2) * x), "comb": lambda n, k: cl.Bin(n, k), "binom": lambda n, k: cl.Bin(n, k), "factorial": lambda n: cl.Fact(n),
    "expit": lambda x: 1 / (1 + sympy.exp(-x)), "logit": lambda x: sympy.log(x / (1 - x)), "eval_legendre": lambda j, x: cl.Leg(j, x),
}


def fitted(e):
    """A number out of a float-typed library call."""
    return e


def ext_call(w, name, args, kwargs):
    name = canon(name)
    pkg, _, fn = name.rpartition(".")
    args = list(args)
    kwargs = dict(kwargs)
    if pkg == "builtins":
        return builtin(w, fn, args, kwargs)
    if pkg in ("math", "numpy", "scipy.special", "cmath") and fn in ("isfinite",) and len(args) == 1 and not kwargs:
        return w.map(lambda x: True, args[0])
    if pkg in ("math", "numpy") and fn in ("isnan", "isinf") and len(args) == 1 and not kwargs:
        def odd(x):
            x = number(x)
            return x is sympy.nan if fn == "isnan" else x in (sympy.oo, -sympy.oo)
        return w.map(odd, args[0])
    if pkg == "math":
        return maths(w, fn, args, kwargs)
    if pkg == "numpy":
        return numpy(w, fn, args, kwargs)
    if pkg == "numpy.linalg" and fn == "norm" and len(args) == 1 and not kwargs:
        return sympy.sqrt(w.total(w.map(lambda x: number(x) ** 2, w.as_seq(args[0]))))
    if pkg == "scipy.special":
        if fn == "legendre" and len(args) == 1:
            return Partial(Ext("scipy.special.eval_legendre"), [args[0]], {})
        if fn in SPECIAL and fn in ("comb",):
            kwargs.pop("exact", None)
        if fn in SPECIAL and not kwargs:
            return w.elementwise(lambda *a: SPECIAL[fn](*[number(x) for x in a]), *[nd(w, a) for a in args])
        if fn in UNARY and not kwargs:
            return w.map(lambda x: UNARY[fn](number(x)), nd(w, args[0]))
        raise Unknown(name)
    if pkg == "numpy.ma" and fn == "asarray":
        return nd(w, args[0])
    if name in ("copy.copy", "copy.deepcopy") and isinstance(args[0], Arr):
        return w.born(args[0].copy())
    if name == "functools.partial":
        return Partial(args[0], args[1:], kwargs)
    if name == "object.__init__" or name.startswith("warnings."):
        return None
    if name in ("typing.cast",):
        return args[1]
    if pkg == "itertools" and fn == "combinations" and len(args) == 2 and args[1] == 2:
        a = w.as_seq(args[0])
        return pairs(w, a)
    if pkg.startswith("scipy.stats") or name.startswith("scipy.stats"):
        return stats(w, name, args, kwargs)
    for u in ("maximum", "minimum", "add", "multiply"):
        if pkg == f"numpy.{u}":
            if fn == "reduce" and len(args) == 1:
                a = args[0]
                if isinstance(a, tuple) or (isinstance(a, Arr) and all(s[1] is None for s in a.segs)):
                    xs = [s[2] for s in w.as_seq(a).segs]
                    r = xs[0]
                    for x in xs[1:]:
                        r = w.elementwise(lambda p, q: BINARY[u](number(p), number(q)), r, x)
                    return r
                return {"maximum": w.maximum, "minimum": w.minimum, "add": w.total, "multiply": lambda q: product(w, q)}[u](w.as_seq(a))
            if fn == "accumulate" and u == "add":
                return w.cumulated(w.as_seq(args[0]))
    if w.strict and name in ("scipy.optimize.root_scalar", "scipy.optimize.minimize_scalar", "scipy.optimize.brentq", "scipy.optimize.bisect"):
        return w.solve(fn, args, kwargs)
    raise Unknown(name)


def pairs(w, a):
    """The unordered pairs of a sequence, for sums of symmetric expressions over them."""
    if len(a.segs) != 1 or a.segs[0][1] is None:
        raise Unknown("pairs")
    ln, k, body = a.segs[0]
    i, j = dummy(), dummy()
    w.ranges[i] = (I0, sympy.expand(ln - 2))
    w.ranges[j] = (I0, sympy.expand(ln - 2 - i))
    inner = Arr([(sympy.expand(ln - 1 - i), j, (w.put(body, k, i), w.put(body, k, i + 1 + j)))], "list")
    return Nest([("nest", sympy.expand(ln - 1), i, inner)])


def builtin(w, fn, args, kwargs):
    if fn == "len":
        v = args[0]
        if isinstance(v, Arr):
            return v.length
        if isinstance(v, (tuple, dict, str)):
            return sympy.Integer(len(v))
        raise Unknown("len")
    if fn == "range":
        return indices(w, args)
    if fn == "sum":
        d = take(kwargs, args, ["iterable", "start"], "sum")
        return total(w, d["iterable"], d.get("start", I0))
    if fn in ("max", "min"):
        if kwargs:
            raise Unknown("max with a key")
        vals = w.as_seq(args[0]) if len(args) == 1 else fixed(args)
        return w.maximum(vals) if fn == "max" else w.minimum(vals)
    if fn == "abs":
        return w.map(absolute, args[0])
    if fn == "round":
        x = number(args[0])
        return cl.Rnd(x, number(args[1])) if len(args) > 1 and args[1] is not None else cl.Rnd(x)
    if fn == "int":
        x = args[0]
        if isinstance(x, str):
            raise Unknown("int of text")
        x = number(x)
        if x.is_integer or isinstance(x, (cl.Fl, cl.Arg)) or (isinstance(x, cl.Rnd) and len(x.args) == 1):
            return x
        if x.is_Rational:
            return sympy.Integer(int(x))
        if w.ge(x, I0):
            return cl.Fl(sympy.expand(x))
        if w.observed(x):
            return cl.Sgn(x) * cl.Fl(sympy.Abs(x))
        raise Unknown("truncation")
    if fn == "float":
        if isinstance(args[0], str):
            s = args[0].lower()
            if s in ("inf", "infinity"):
                return sympy.oo
            if s == "-inf":
                return -sympy.oo
            raise Unknown("float of text")
        if isinstance(args[0], Arr) and args[0].length == 1:
            return number(w.elem(args[0], I0))
        return number(args[0])
    if fn == "bool":
        return w.truth(args[0])
    if fn == "str" and isinstance(args[0], str):
        return args[0]
    if fn in ("str", "repr", "format"):
        return Text()
    if fn == "print":
        return None
    if fn == "enumerate":
        d = take(kwargs, args, ["iterable", "start"], fn)
        a, st = w.iterate(d["iterable"]), number(d.get("start", I0))
        out, off = [], st
        for ln, k, body in a.segs:
            out.append((ln, k, (off if k is None else off + k, body)))
            off = off + ln
        return Arr(out, "list")
    if fn == "zip":
        kwargs.pop("strict", None)
        seqs = [w.iterate(a) for a in args]
        if not seqs:
            return Arr([], "list")
        m = seqs[0].length
        for s in seqs[1:]:
            if w.ge(m, s.length):
                m = s.length
            elif not w.ge(s.length, m):
                raise Unknown("zip of sequences of unordered lengths")
        rows = w.align([w.slice(s, None, m, None) if s.stores is None else s for s in seqs])
        out = []
        for ln, row in rows:
            k = dummy() if ln != 1 else None
            out.append((ln, k, tuple(b if q is None else w.put(b, q, k if k is not None else I0) for q, b in row)))
        return Arr(out, "list")
    if fn == "sorted":
        rev = kwargs.pop("reverse", False)
        if kwargs or is_cond(rev) and not isinstance(rev, bool):
            raise Unknown("sorted")
        s = w.sorted(w.as_seq(args[0]))
        return w.born(Arr((w.reverse(s) if rev else s).segs, "list"))
    if fn == "reversed":
        return w.reverse(w.as_seq(args[0]))
    if fn in ("list", "tuple"):
        if not args:
            return w.born(Arr([], "list")) if fn == "list" else ()
        if isinstance(args[0], Nest):
            return args[0]
        a = w.iterate(args[0])
        if fn == "tuple" and all(s[1] is None for s in a.segs):
            return tuple(s[2] for s in a.segs)
        return w.born(Arr(a.segs, "list"))
    if fn == "dict" and not args:
        return dict(kwargs)
    if fn == "map":
        f = args[0]
        seqs = [w.iterate(a) for a in args[1:]]
        out = []
        for ln, row in w.align(seqs):
            k = dummy() if ln != 1 else None
            if k is not None:
                w.ranges[k] = (I0, sympy.expand(ln - 1))
            out.append((ln, k, w.call(f, [b if q is None else w.put(b, q, k if k is not None else I0) for q, b in row], {})))
        return Arr(out, "list")
    if fn == "pow" and len(args) == 2:
        return number(args[0]) ** number(args[1])
    if fn == "divmod" and len(args) == 2:
        a, b = number(args[0]), number(args[1])
        q = cl.Fl(sympy.expand(a / b))
        return (q, a - b * q)
    if fn == "any":
        return any_of(w, args[0])
    if fn == "all":
        return all_of(w, args[0])
    if fn in ("isinstance", "issubclass", "callable", "hasattr", "type"):
        return reflect(w, fn, args)
    if fn == "getattr":
        try:
            return w.attr(args[0], args[1])
        except Unknown:
            if len(args) > 2 and isinstance(args[0], Inst) and args[1] not in args[0].attrs:
                return args[2]
            raise
    if fn == "super":
        raise Unknown("super")
    if fn == "slice":
        raise Unknown("slice object")
    if fn == "iter":
        return args[0]
    if fn == "property" or fn == "object":
        raise Unknown(fn)
    raise Unknown(f"builtins.{fn}")


def reflect(w, fn, args):
    if fn == "callable":
        return isinstance(args[0], (Fn, Cls, Ext, Partial, Meth))
    if fn == "isinstance":
        v, ts = args[0], args[1] if isinstance(args[1], tuple) else (args[1],)
        out = []
        for t in ts:
            if isinstance(t, Cls):
                if isinstance(v, Inst):
                    out.append(t.c in v.c.mro)
                else:
                    out.append(False)
            elif isinstance(t, Ext):
                if isinstance(v, Arr):
                    if t.name in ("builtins.list",):
                        out.append(v.kind == "list")
                    elif t.name in ("numpy.ndarray",):
                        out.append(v.kind == "nd")
                    elif t.name in TYPES or t.name in ("builtins.str", "builtins.dict", "builtins.tuple"):
                        out.append(False)
                    else:
                        raise Unknown("isinstance")
                elif isinstance(v, str):
                    out.append(t.name == "builtins.str")
                elif isinstance(v, sympy.Basic) and not is_cond(v):
                    if t.name in ("builtins.str", "builtins.list", "builtins.tuple", "numpy.ndarray", "builtins.dict", "builtins.bool"):
                        out.append(False)
                    elif t.name in ("builtins.float",) and not v.is_integer:
                        out.append(True)
                    elif t.name in ("builtins.int",) and v.is_integer:
                        out.append(True)
                    else:
                        raise Unknown("isinstance of a number")
                elif v is None:
                    out.append(False)
                else:
                    raise Unknown("isinstance")
            else:
                raise Unknown("isinstance")
        return any(out)
    raise Unknown(fn)


def held_as_float(e):
    """A value of the data that nothing has turned into an integer."""
    if isinstance(e, (cl.Fl, cl.Rnd, cl.Sgn)):
        return False
    if isinstance(e, cl.OBS):
        return True
    return any(held_as_float(x) for x in e.args)


def maths(w, fn, args, kwargs):
    if kwargs:
        raise Unknown(f"math.{fn}: keywords")
    a = [number(x) for x in args] if fn not in ("fsum", "prod") else args
    if w.strict:
        if fn == "log" and len(a) == 1 and isinstance(a[0], cl.Fact):
            return cl.Lg(a[0].args[0] + 1)          # an integer of any size
        if fn in ("log", "exp") and len(a) == 1:
            return getattr(sympy, fn)(a[0]) if not a[0].free_symbols - {cl.N} and not a[0].atoms(*cl.OBS) else cl.Fun(sympy.Symbol(f"math.{fn}"), a[0])
        if fn in ("log2", "log10", "log1p", "sqrt", "expm1", "pow"):
            raise Unknown(f"math.{fn}")
        if fn in ("factorial", "comb") and any(held_as_float(x) for x in a):
            return cl.Fun(sympy.Symbol("raised"))
    if fn in UNARY and len(a) == 1:
        return UNARY[fn](a[0])
    if fn == "log" and len(a) == 2:
        return sympy.log(a[0]) / sympy.log(a[1])
    if fn == "pow":
        return a[0] ** a[1]
    if fn == "comb":
        return cl.Bin(*a)
    if fn == "factorial":
        return cl.Fact(*a)
    if fn == "gamma":
        return cl.Gam(*a)
    if fn == "lgamma":
        return cl.Lg(*a)
    if fn == "erf":
        return SPECIAL["erf"](*a)
    if fn == "erfc":
        return SPECIAL["erfc"](*a)
    if fn == "fsum":
        return total(w, a[0])
    if fn == "prod":
        return product(w, a[0])
    if fn == "hypot":
        return sympy.sqrt(a[0] ** 2 + a[1] ** 2)
    raise Unknown(f"math.{fn}")


def flat_axis(d):
    ax = d.get("axis")
    if ax is None or ax == 0 or ax == -1:
        return ax
    raise Unknown("axis")


def plain(v):
    return isinstance(v, Sel) or not (isinstance(v, Arr) and any(isinstance(s[2], Arr) for s in v.segs))


def numpy(w, fn, args, kwargs):
    kwargs.pop("dtype", None) if fn not in ("zeros", "ones", "empty", "full", "asarray", "array") else None
    if fn in ("array", "asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "copy", "ravel", "squeeze"):
        d = take(kwargs, args, ["a", "dtype", "copy", "order"], fn)
        dt = d.get("dtype")
        if dt is not None and not (isinstance(dt, Ext) and dt.name in ("builtins.float", "numpy.float64")):
            raise Unknown("dtype")
        v = d["a"]
        if is_num(v):
            return nd(w, (v,)) if fn == "atleast_1d" else v
        if isinstance(v, Nest):
            raise Unknown("nested comprehension")
        if isinstance(v, Arr) and fn.startswith("as") and v.kind == "nd":
            return v
        return nd(w, v)
    if fn in ("float64", "float32", "int64", "double"):
        if fn == "int64":
            return builtin(w, "int", args, kwargs)
        return number(args[0])
    if fn == "arange":
        a = indices(w, args + ([kwargs["stop"]] if "stop" in kwargs else []))
        return w.born(Arr(a.segs, "nd"))
    if fn == "histogram":
        d = take(kwargs, args, ["a", "bins", "range", "density", "weights"], fn)
        if d.get("weights") is not None or d.get("density") not in (None, False):
            raise Unknown("a weighted histogram")
        return histogram(w, w.as_seq(d["a"]), d.get("bins", sympy.Integer(10)), d.get("range"))
    if fn == "linspace":
        d = take(kwargs, args, ["start", "stop", "num", "endpoint"], fn)
        n = number(d.get("num", sympy.Integer(50)))
        lo, hi = number(d["start"]), number(d["stop"])
        if d.get("endpoint", True) is True:
            step = (hi - lo) / (n - 1)
        else:
            step = (hi - lo) / n
        k = dummy()
        return w.born(Arr([(n, k, lo + k * step)], "nd"))
    if fn in ("zeros", "empty", "ones"):
        return fill(w, args, kwargs, I1 if fn == "ones" else I0, fn)
    if fn == "full":
        d = take(kwargs, args, ["shape", "fill_value", "dtype"], fn)
        return fill(w, [d["shape"]], {}, d["fill_value"], fn)
    if fn in ("zeros_like", "ones_like", "empty_like", "full_like"):
        d = take(kwargs, args, ["a", "fill_value"] if fn == "full_like" else ["a"], fn)
        return fill(w, [w.as_seq(d["a"]).length], {}, d.get("fill_value", I1 if fn == "ones_like" else I0), fn)
    if fn in UNARY and len(args) == 1 and not kwargs:
        return w.map(lambda x: UNARY[fn](number(x)), nd(w, args[0]))
    if fn in BINARY and len(args) == 2 and not kwargs:
        return w.elementwise(lambda x, y: BINARY[fn](number(x), number(y)), nd(w, args[0]), nd(w, args[1]))
    if fn == "isin" and len(args) == 2 and not kwargs:
        ys = w.as_seq(args[1])
        if any(g[1] is not None for g in ys.segs):
            raise Unknown("numpy.isin")
        return w.map(lambda x: w.disj([w.equal(number(x), g[2]) for g in ys.segs]), nd(w, args[0]))
    if fn in ("mod", "remainder") and len(args) == 2 and not kwargs:
        return w.elementwise(lambda x, y: number(x) - number(y) * cl.Fl(number(x) / number(y)), nd(w, args[0]), nd(w, args[1]))
    if fn in ("round", "around"):
        d = take(kwargs, args, ["a", "decimals"], fn)
        dec = d.get("decimals", I0)
        return w.map(lambda x: cl.Rnd(number(x), dec) if dec != 0 else cl.Rnd(number(x)), d["a"])
    if fn == "clip":
        d = take(kwargs, args, ["a", "a_min", "a_max"], fn)
        lo, hi = d.get("a_min"), d.get("a_max")

        def clip(x):
            x = number(x)
            if lo is not None:
                x = MaxF(x, number(lo))
            if hi is not None:
                x = -MaxF(-x, -number(hi))
            return x
        return w.map(clip, d["a"])
    if fn in ("sum", "nansum"):
        d = take(kwargs, args, ["a", "axis", "keepdims"], fn)
        if d.get("axis") is not None and not plain(d["a"]):
            return axis_total(w, d["a"], d["axis"])
        return full_total(w, d["a"])
    if fn in ("mean", "nanmean", "average"):
        d = take(kwargs, args, ["a", "axis", "weights"] if fn == "average" else ["a", "axis", "keepdims"], fn)
        flat_axis(d)
        keep = d.get("keepdims", False)
        if not isinstance(keep, bool):
            raise Unknown("keepdims")
        a = w.as_seq(d["a"])
        if d.get("weights") is not None:
            ws = w.as_seq(d["weights"])
            return w.dot(a, ws) / w.total(ws)
        if not plain(a):
            raise Unknown("mean of a matrix")
        return fixed((w.mean(a),), "nd") if keep else w.mean(a)
    if fn in ("var", "std", "nanvar", "nanstd"):
        d = take(kwargs, args, ["a", "axis", "ddof", "correction"], fn)
        flat_axis(d)
        v = w.variance(w.as_seq(d["a"]), number(d.get("ddof", d.get("correction", I0))))
        return v if fn.endswith("var") else sympy.sqrt(v)
    if fn in ("max", "amax", "nanmax", "min", "amin", "nanmin"):
        d = take(kwargs, args, ["a", "axis"], fn)
        flat_axis(d)
        a = w.as_seq(d["a"])
        return w.maximum(a) if "max" in fn else w.minimum(a)
    if fn == "ptp":
        a = w.as_seq(args[0])
        return w.maximum(a) - w.minimum(a)
    if fn == "prod":
        return product(w, args[0])
    if fn == "median":
        return median(w, w.as_seq(args[0]))
    if fn in ("quantile", "percentile"):
        d = take(kwargs, args, ["a", "q"], fn)
        one = lambda q: quantile(w, w.as_seq(d["a"]), number(q) if fn == "quantile" else number(q) / 100)
        return w.map(one, d["q"]) if isinstance(d["q"], Arr) else nd(w, tuple(one(q) for q in d["q"])) if isinstance(d["q"], tuple) else one(d["q"])
    if fn in ("sort", "msort"):
        if kwargs.get("axis", -1) not in (-1, 0, None):
            raise Unknown("sort axis")
        return sort(w, w.as_seq(args[0]))
    if fn == "argsort":
        a = w.as_seq(args[0])
        k = dummy()
        r = Arr([(a.length, k, cl.Fun(sympy.Symbol("order"), k))], "nd")
        r.order_of = a
        return r
    if fn in ("argmax", "argmin"):
        a = w.as_seq(args[0])
        if len(a.segs) != 1 or a.segs[0][1] is None:
            raise Unknown("argmax")
        ln, k, b = a.segs[0]
        return cl.Arg(number(b) if fn == "argmax" else -number(b), k, I0, sympy.expand(ln - 1))
    if fn in ("concatenate", "hstack"):
        d = take(kwargs, args, ["arrays", "axis"], fn)
        return w.born(w.concat([nd(w, s[2]) if isinstance(s[2], tuple) else s[2] for s in w.as_seq(d["arrays"]).segs]))
    if fn == "append":
        return w.born(w.concat([w.as_seq(args[0]), args[1]]))
    if fn == "insert" and len(args) == 3 and isinstance(args[1], sympy.Integer):
        a = w.as_seq(args[0])
        head, tail = w.split(a, args[1] if args[1] >= 0 else a.length + args[1])
        mid = w.concat([args[2]])
        return w.born(Arr(head + mid.segs + tail, "nd"))
    if fn == "diff":
        d = take(kwargs, args, ["a", "n", "axis", "prepend", "append"], fn)
        a = w.as_seq(d["a"])
        if d.get("n", I1) != 1:
            raise Unknown("higher differences")
        parts = ([d["prepend"]] if "prepend" in d else []) + [a] + ([d["append"]] if "append" in d else [])
        return diff(w, w.concat(parts))
    if fn == "ediff1d" and len(args) == 1 and not kwargs:
        return diff(w, w.as_seq(args[0]))
    if fn == "cumsum":
        return w.born(w.cumulated(w.as_seq(args[0])))
    if fn in ("flip", "flipud", "fliplr"):
        return w.born(w.reverse(w.as_seq(args[0])))
    if fn in ("dot", "inner", "vdot", "matmul"):
        a, b = args
        if is_num(a) or is_num(b):
            return w.binary(ast.Mult, a, b)
        return w.dot(w.as_seq(a), w.as_seq(b))
    if fn == "where" and len(args) == 3:
        return w.elementwise(lambda c, x, y: w.either(w.truth(c), number(x), number(y)), nd(w, args[0]), nd(w, args[1]), nd(w, args[2]))
    if fn == "any":
        return any_of(w, args[0])
    if fn == "all":
        return all_of(w, args[0])
    if fn == "count_nonzero":
        return w.total(w.map(lambda x: w.truth(x), w.as_seq(args[0])))
    if fn in ("logical_and", "logical_or"):
        g = w.conj if fn == "logical_and" else w.disj
        return w.elementwise(lambda x, y: g([w.truth(x), w.truth(y)]), args[0], args[1])
    if fn == "logical_not":
        return w.map(lambda x: neg(w.truth(x)), args[0])
    if fn in ("greater", "less", "greater_equal", "less_equal", "equal", "not_equal"):
        op = {"greater": ast.Gt, "less": ast.Lt, "greater_equal": ast.GtE, "less_equal": ast.LtE, "equal": ast.Eq, "not_equal": ast.NotEq}[fn]
        return w.compare(op, nd(w, args[0]), nd(w, args[1]))
    if fn == "polyval":
        cs = [s[2] for s in w.as_seq(args[0]).segs]
        if any(s[1] is not None for s in w.as_seq(args[0]).segs):
            raise Unknown("polyval")

        def poly(x):
            r = I0
            for c in cs:
                r = r * number(x) + number(c)
            return r
        return w.map(poly, args[1])
    if fn == "size":
        return w.as_seq(args[0]).length
    if fn == "corrcoef" and len(args) == 2:
        r = correlation(w, w.as_seq(args[0]), w.as_seq(args[1]))
        return (fixed((I1, r)), fixed((r, I1)))
    if fn in ("isscalar",):
        return is_num(args[0])
    if fn == "outer" and len(args) == 2:
        return outer(w, w.as_seq(args[0]), w.as_seq(args[1]), lambda x, y: x * y)
    if fn == "nan_to_num":
        return args[0]
    if fn == "isclose":
        raise Unknown("isclose")
    raise Unknown(f"numpy.{fn}")


def outer(w, a, b, f):
    out = []
    for ln, k, x in a.segs:
        if k is not None:
            w.ranges[k] = (I0, sympy.expand(ln - 1))
        out.append((ln, k, w.map(lambda y: f(number(x), number(y)), b)))
    return Arr(out, "nd")


def full_total(w, v):
    if isinstance(v, Arr) and not plain(v):
        r = I0
        for ln, k, row in v.segs:
            t = full_total(w, row)
            r = r + (t if k is None else Sg(t, k, I0, sympy.expand(ln - 1)))
        return r
    return total(w, v)


def axis_total(w, v, ax):
    if ax in (I1, -I1):
        return Arr([(ln, k, full_total(w, row)) for ln, k, row in v.segs], "nd")
    raise Unknown("axis")


def correlation(w, x, y):
    mx, my = w.mean(x), w.mean(y)
    dx, dy = w.map(lambda v: number(v) - mx, x), w.map(lambda v: number(v) - my, y)
    return w.dot(dx, dy) / sympy.sqrt(w.dot(dx, dx) * w.dot(dy, dy))


def closed_law(kind, fam, z, shapes):
    """Value of a standardised distribution's function, or None without a closed form."""
    e = sympy.exp
    if kind == "sf":
        c = closed_law("cdf", fam, z, shapes)
        return None if c is None else 1 - c
    if kind in ("logcdf", "logsf", "logpdf"):
        c = closed_law(kind[3:], fam, z, shapes)
        return None if c is None else sympy.log(c)
    if fam == "norm":
        return {"cdf": lambda: cl.Phi(z), "ppf": lambda: cl.Pinv(z), "isf": lambda: cl.Pinv(1 - z), "pdf": lambda: e(-z ** 2 / 2) / sympy.sqrt(2 * sympy.pi)}.get(kind, lambda: None)()
    if fam == "expon":
        return {"cdf": lambda: 1 - e(-z), "ppf": lambda: -sympy.log(1 - z), "pdf": lambda: e(-z)}.get(kind, lambda: None)()
    if fam == "uniform":
        return {"cdf": lambda: z, "ppf": lambda: z, "pdf": lambda: I1}.get(kind, lambda: None)()
    if fam == "weibull_min":
        c, = shapes
        return {"cdf": lambda: 1 - e(-z ** c), "ppf": lambda: (-sympy.log(1 - z)) ** (1 / c), "pdf": lambda: c * z ** (c - 1) * e(-z ** c)}.get(kind, lambda: None)()
    if fam == "exponweib":
        a, c = shapes
        return {"cdf": lambda: (1 - e(-z ** c)) ** a, "ppf": lambda: (-sympy.log(1 - z ** (1 / a))) ** (1 / c),
                "pdf": lambda: a * c * (1 - e(-z ** c)) ** (a - 1) * e(-z ** c) * z ** (c - 1)}.get(kind, lambda: None)()
    if fam == "lognorm":
        s, = shapes
        return {"cdf": lambda: cl.Phi(sympy.log(z) / s), "ppf": lambda: e(s * cl.Pinv(z)),
                "pdf": lambda: e(-sympy.log(z) ** 2 / (2 * s ** 2)) / (s * z * sympy.sqrt(2 * sympy.pi))}.get(kind, lambda: None)()
    if fam == "gumbel_l":
        return {"cdf": lambda: 1 - e(-e(z)), "ppf": lambda: sympy.log(-sympy.log(1 - z))}.get(kind, lambda: None)()
    if fam == "gumbel_r":
        return {"cdf": lambda: e(-e(-z)), "ppf": lambda: -sympy.log(-sympy.log(z))}.get(kind, lambda: None)()
    if fam == "logistic":
        return {"cdf": lambda: 1 / (1 + e(-z)), "ppf": lambda: sympy.log(z / (1 - z))}.get(kind, lambda: None)()
    return None


def law(w, fam, kind, p, x):
    loc, scale = number(p.get("loc", I0)), number(p.get("scale", I1))
    shapes = [number(p[s]) for s in laws.FAMILIES.get(fam, []) if s in p]
    if kind in ("cdf", "sf", "logcdf", "logsf", "pdf", "logpdf"):
        def f(v):
            z = (number(v) - loc) / scale
            r = closed_law(kind, fam, z, shapes)
            if r is None:
                base = kind[3:] if kind.startswith("log") else kind
                if base == "sf":
                    r = 1 - cl.Law(sympy.Symbol("cdf"), sympy.Symbol(fam), z, *shapes)
                else:
                    r = cl.Law(sympy.Symbol(base), sympy.Symbol(fam), z, *shapes)
                if kind.startswith("log"):
                    r = sympy.log(r)
                    if base == "pdf":
                        r = r - sympy.log(scale)
                elif base == "pdf":
                    r = r / scale
            elif kind == "pdf":
                r = r / scale
            elif kind == "logpdf":
                r = r - sympy.log(scale)
            return r
        return w.map(f, nd(w, x))
    if kind in ("ppf", "isf"):
        def g(v):
            v = number(v)
            r = closed_law("ppf", fam, v if kind == "ppf" else 1 - v, shapes)
            if r is None:
                r = cl.Law(sympy.Symbol("ppf"), sympy.Symbol(fam), v if kind == "ppf" else 1 - v, *shapes)
            return loc + scale * r
        return w.map(g, nd(w, x))
    raise Unknown(f"scipy.stats.{fam}.{kind}")


def stats(w, name, args, kwargs):
    parts = name.split(".")[2:]
    if len(parts) == 1:
        fn = parts[0]
        kwargs.pop("_no_deco", None)
        if fn in ("skew", "kurtosis"):
            d = take(kwargs, args, ["a", "axis", "fisher", "bias", "nan_policy"] if fn == "kurtosis" else ["a", "axis", "bias", "nan_policy"], fn)
            a = w.as_seq(d["a"])
            if d.get("bias", True) is not True:
                n = a.length
                m2 = w.central(a, 2)
                if fn == "skew":
                    return sympy.sqrt((n - 1) * n) / (n - 2) * w.central(a, 3) / m2 ** sympy.Rational(3, 2)
                g = 1 / (n - 2) / (n - 3) * ((n ** 2 - 1) * w.central(a, 4) / m2 ** 2 - 3 * (n - 1) ** 2)
                return g if d.get("fisher", True) is True else g + 3
            m2 = w.central(a, 2)
            if fn == "skew":
                return w.central(a, 3) / m2 ** sympy.Rational(3, 2)
            k = w.central(a, 4) / m2 ** 2
            f = d.get("fisher", True)
            if not isinstance(f, bool):
                raise Unknown("fisher")
            return k - 3 if f else k
        if fn == "moment":
            d = take(kwargs, args, ["a", "order", "moment"], fn)
            r = d.get("order", d.get("moment", I1))
            return w.central(w.as_seq(d["a"]), int(r))
        if fn == "pearsonr":
            r = correlation(w, nd(w, args[0]), nd(w, args[1]))
            return (r, sympy.nan)
        if fn == "zscore":
            d = take(kwargs, args, ["a", "axis", "ddof"], fn)
            a = w.as_seq(d["a"])
            m, s = w.mean(a), sympy.sqrt(w.variance(a, number(d.get("ddof", I0))))
            return w.map(lambda x: (number(x) - m) / s, a)
        if fn == "iqr" and len(args) == 1 and not kwargs:
            a = w.as_seq(args[0])
            return quantile(w, a, sympy.Rational(3, 4)) - quantile(w, a, sympy.Rational(1, 4))
        if fn in laws.FAMILIES or fn in ("norm", "expon", "uniform"):
            p, x, size = laws.bind_scipy(fn, "pdf", [I0] + list(args), kwargs)
            return Frozen(fn, p)
        raise Unknown(name)
    if len(parts) == 2:
        fam, kind = parts
        if kind in ("cdf", "sf", "logcdf", "logsf", "pdf", "logpdf", "ppf", "isf"):
            p, x, size = laws.bind_scipy(fam, kind, args, kwargs)
            return law(w, fam, kind, p, x)
        if kind == "fit" and w.strict:
            return fit(w, fam, args, kwargs)
    raise Unknown(name)


def fit(w, fam, args, kwargs):
    """The tuple of fitted parameters: what is held fixed, and a name for each of the others."""
    if len(args) != 1 or fam not in laws.FAMILIES or not w.is_data(args[0]):
        raise Unknown(f"scipy.stats.{fam}.fit")
    names = list(laws.FAMILIES[fam]) + ["loc", "scale"]
    out = []
    for i, n in enumerate(names):
        f = {k: kwargs[k] for k in ("f" + n, f"fix_{n}", f"f{i}") if k in kwargs and (k != f"f{i}" or i < len(names) - 2)}
        out.append(number(next(iter(f.values()))) if f else w.unknown(f"{fam}.{n}"))
        w.held[f"{fam}.{n}"] = out[-1]
        for k in f:
            kwargs.pop(k)
    if kwargs:
        raise Unknown(f"scipy.stats.{fam}.fit with {sorted(kwargs)}")
    loc, scale = out[-2], out[-1]
    bad = []
    if fam in ("gamma", "rayleigh", "beta") and loc.is_Number:           # these fits refuse data outside the open support
        bad.append(any_of(w, w.map(lambda x: w.greater(loc, number(x), False), w.as_seq(args[0]))))
        if fam == "beta" and scale.is_Number:
            bad.append(any_of(w, w.map(lambda x: w.greater(number(x), loc + scale, False), w.as_seq(args[0]))))
        c = w.disj(bad)
        out = [x if x.is_Number else cl.ite(c, cl.Fun(sympy.Symbol("raised")), x) for x in out]
    return tuple(out)


def method(w, v, nm, args, kwargs):
    kwargs = dict(kwargs)
    if isinstance(v, Frozen):
        return law(w, v.family, nm, v.p, args[0])
    if isinstance(v, str):
        if nm in ("upper", "lower", "strip", "title"):
            return getattr(v, nm)()
        if nm in ("startswith", "endswith") and isinstance(args[0], str):
            return getattr(v, nm)(args[0])
        if nm == "format":
            return Text()
        raise Unknown(f"str.{nm}")
    if isinstance(v, dict):
        if nm == "get":
            return v.get(args[0], args[1] if len(args) > 1 else None)
        if nm == "items":
            return fixed([(k, x) for k, x in v.items()])
        if nm == "values":
            return fixed(list(v.values()))
        if nm == "keys":
            return fixed(list(v))
        raise Unknown(f"dict.{nm}")
    if isinstance(v, Arr):
        if v.kind == "list":
            if nm == "append":
                w.append(v, args[0])
                return None
            if nm == "extend":
                w.extend(v, w.as_seq(args[0]))
                return None
            if nm == "sort":
                rev = kwargs.pop("reverse", False)
                if kwargs or not isinstance(rev, bool) or len(w.loops) > v.born:
                    raise Unknown("list.sort")
                s = w.sorted(v)
                v.segs = (w.reverse(s) if rev else s).segs
                return None
            if nm == "reverse" and len(w.loops) <= v.born:
                v.segs = w.reverse(v).segs
                return None
            if nm == "copy":
                return w.born(v.copy())
            if nm == "insert" and isinstance(args[0], sympy.Integer) and args[0] == 0 and len(w.loops) <= v.born:
                v.segs = [(I1, None, args[1])] + list(v.segs)
                return None
            raise Unknown(f"list.{nm}")
        if nm in ("sum", "mean", "std", "var", "max", "min", "argmax", "argmin", "argsort", "cumsum", "prod", "any", "all", "dot", "round", "clip", "ptp"):
            return numpy(w, nm, [v] + list(args), kwargs)
        if nm in ("copy", "flatten"):
            return w.born(v.copy())
        if nm in ("ravel", "squeeze"):
            return v
        if nm == "tolist":
            return w.born(v.copy("list"))
        if nm == "astype":
            t = args[0]
            if isinstance(t, Ext) and t.name in ("builtins.float", "numpy.float64"):
                return w.born(w.map(number, v))
            if isinstance(t, Ext) and t.name in ("builtins.int", "numpy.int64"):
                return w.map(lambda x: builtin(w, "int", [x], {}), v)
            bits = {f"numpy.{s}int{b}": (b, s == "") for s in ("", "u") for b in (8, 16, 32, 64)}.get(t.name) if isinstance(t, Ext) else None
            if bits is not None and w.strict:
                m, low = sympy.Integer(2) ** bits[0], sympy.Integer(2) ** (bits[0] - 1) if bits[1] else I0

                def wrapped(x):
                    x = builtin(w, "int", [x], {}) + low
                    return x - m * cl.Fl(x / m) - low
                return w.map(wrapped, v)
            raise Unknown("astype")
        if nm == "sort":
            if len(w.loops) > v.born:
                raise Unknown("sorted in a loop")
            v.segs = w.sorted(v).segs
            return None
        if nm == "item" and not args:
            return w.elem(v, I0)
        raise Unknown(f"ndarray.{nm}")
    if isinstance(v, tuple):
        if nm in ("index", "count"):
            raise Unknown(f"tuple.{nm}")
    if isinstance(v, sympy.Basic):
        if nm in ("item", "conjugate"):
            return v
        if nm in ("mean", "sum", "max", "min"):
            return v
        if nm == "is_integer":
            return bool(v.is_integer)
        if nm == "any" or nm == "all":
            return w.truth(v)
        if nm == "astype":
            return v
    raise Unknown(f"method {nm}")
