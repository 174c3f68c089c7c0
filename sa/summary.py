"""Closed-form summaries of functions of a sample.

The statements of a function are translated, in the order in which they take effect, into expressions of sa.closed:
arrays are families of expressions over an index, reductions and accumulating loops become binders, conditions that
depend on the data become conditional expressions.  Nothing is run; a construct without a translation makes the
summary unknown (Unknown).
"""
from __future__ import annotations

import ast
import math

import sympy

from . import closed as cl
from . import laws
from .closed import N, Arg, AndF, Any, Eq0, Ge0, Gt0, Ite, MaxF, Mx, NotF, OrF, Pd, Sg, ite, neg
from .values import EnumMember

I0, I1 = sympy.Integer(0), sympy.Integer(1)
CONDS = cl.CONDS


class Unknown(Exception):
    pass


class Raised(Exception):
    """The code raises on every path considered."""


class Ext:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


class Fn:
    def __init__(self, func, self_=None, env=None, node=None, module=None, cls=None):
        self.func, self.self_, self.env = func, self_, env           # env: local scopes of a nested function
        self.node = node or func.node
        self.module = module or func.module
        self.cls = cls if cls is not None else (func.cls if func is not None else None)


class Cls:
    def __init__(self, c):
        self.c = c


class Mod:
    def __init__(self, m):
        self.m = m


class Inst:
    def __init__(self, c):
        self.c, self.attrs = c, {}


class Sup:
    def __init__(self, inst, cls):
        self.inst, self.cls = inst, cls


class Meth:
    """A method of a value of the library."""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Frozen:
    def __init__(self, family, p):
        self.family, self.p = family, p


class Text:
    """A text which is not known."""


class Partial:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Arr:
    """A sequence: segments (length, index symbol, expression); a segment of one element has index symbol None."""

    def __init__(self, segs, kind="nd"):
        self.segs, self.kind = list(segs), kind
        self.stores = None           # while a loop is summarised: (index, value) it stores
        self.born = 0

    def copy(self, kind=None):
        return Arr(self.segs, kind or self.kind)

    @property
    def length(self):
        return sympy.expand(sum((s[0] for s in self.segs), I0))


class Sel(Arr):
    """The elements of a sequence where a condition holds: the whole sequence, the conditions and their number."""

    def __init__(self, whole_, mask, count, kind="nd"):
        self.whole, self.mask, self.count, self.kind = whole_, mask, count, kind
        self.stores, self.born = None, 0

    def copy(self, kind=None):
        return Sel(self.whole, self.mask, self.count, kind or self.kind)

    @property
    def segs(self):
        raise Unknown("the positions of a selection")

    @property
    def length(self):
        return self.count


class Poison:
    """A value that an earlier turn of a loop left behind."""


POISON = Poison()
NOTSET = object()


def dummy():
    return sympy.Dummy("k", integer=True, nonnegative=True)


def whole(length, body_of, kind="nd"):
    k = dummy()
    return Arr([(sympy.sympify(length), k, body_of(k))], kind)


def fixed(items, kind="list"):
    return Arr([(I1, None, x) for x in items], kind)


def is_num(v):
    return isinstance(v, sympy.Basic) or isinstance(v, bool)


def is_cond(v):
    return isinstance(v, bool) or isinstance(v, CONDS)


def number(v):
    """A truth value used as a number is 0 or 1."""
    if isinstance(v, bool):
        return sympy.Integer(int(v))
    if isinstance(v, CONDS):
        return Ite(v, I1, I0)
    if isinstance(v, sympy.Basic):
        return v
    if v is POISON:
        raise Unknown("a value carried from one turn of a loop to the next")
    raise Unknown(f"{type(v).__name__} used as a number")


def const_term(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return sympy.Integer(v)
    if isinstance(v, float):
        if v != v:
            return sympy.nan
        if math.isinf(v):
            return sympy.oo if v > 0 else -sympy.oo
        return sympy.Rational(repr(v))
    return v


LIMIT = 4000
SIZES = (cl.NMIN, cl.NMIN + 1, cl.NMIN + 2, cl.NMIN + 3, 29, 50, 111, 1000, 100003)


class Walker:
    def __init__(self, I, points, positive=True, sizes=None):
        self.I = I
        self.sizes = sizes or SIZES      # sample sizes for which a sign has to be the same
        self.points = points             # sample points at which signs are looked up
        self.ranges = {}                 # index symbol -> (lo, hi)
        self.loops = []
        self.depth = 0
        self.steps = 0
        self.Rf = cl.Rp if positive else cl.R
        self.Of = cl.Op if positive else cl.O
        self.heap = []                   # every Arr and Inst, for taking branches apart
        self.trace = []
        self.module_frames = {}
        self.funcs = set()
        self.strict = False              # what raises is part of the value

    # ---- signs and orders
    def sgn(self, e):
        """-1, 0, 1 when the sign of an expression over the size and indices is the same for all of them."""
        e = sympy.expand(e)
        if e.is_Number:
            return int(sympy.sign(e))
        fs = e.free_symbols
        for k in fs:
            if k in self.ranges:
                lo, hi = self.ranges[k]
                a, b = self.sgn(e.xreplace({k: lo})), self.sgn(e.xreplace({k: hi}))
                if e.is_polynomial(k) and sympy.degree(e, k) == 1 or a == b:
                    if a is not None and b is not None and a == b:
                        return a
                    if a is not None and b is not None and a * b >= 0 and (a or b):
                        return None if a != b else a
                return None
        if fs - {N}:
            return None
        vals = set()
        for n in self.sizes:
            try:
                v = e.xreplace({N: sympy.Integer(n)})
                v = float(v)
            except (TypeError, ValueError):
                p = cl.Point([0.0], {})
                p.env[N] = n
                try:
                    v = float(cl.value(e, p, {}))
                except Exception:
                    return None
            vals.add(0 if abs(v) < 1e-9 else (1 if v > 0 else -1))
        return vals.pop() if len(vals) == 1 else None

    def ge(self, a, b):
        """a >= b: True, False or None (also over the ranges of indices)."""
        e = sympy.expand(a - b)
        los = [e]
        for k in [k for k in e.free_symbols if k in self.ranges]:
            lo, hi = self.ranges[k]
            los = [x.xreplace({k: y}) for x in los for y in (lo, hi)]
        for _ in range(3):
            if not any(k in self.ranges for x in los for k in x.free_symbols):
                break
            nxt = []
            for x in los:
                ks = [k for k in x.free_symbols if k in self.ranges]
                if ks:
                    lo, hi = self.ranges[ks[0]]
                    nxt += [x.xreplace({ks[0]: lo}), x.xreplace({ks[0]: hi})]
                else:
                    nxt.append(x)
            los = nxt
        ss = [self.sgn0(x) for x in los]
        if all(s is not None and s >= 0 for s in ss):
            return True
        if all(s == -1 for s in ss):
            return False
        return None

    def sgn0(self, e):
        """Sign with 0 and 1 mixed counting as 0."""
        e = sympy.expand(e)
        if e.is_Number:
            return int(sympy.sign(e))
        if e.free_symbols - {N}:
            return None
        out = set()
        for n in self.sizes:
            p = cl.Point([0.0], {})
            p.env[N] = n
            try:
                v = float(cl.value(e, p, {}))
            except Exception:
                return None
            out.add(0 if abs(v) < 1e-9 else (1 if v > 0 else -1))
        if out <= {0, 1}:
            return 1 if out == {1} else 0
        return -1 if out == {-1} else None

    def observed(self, e):
        return bool(e.atoms(*cl.OBS))

    # ---- comparisons
    def less(self, a, b):
        """a < b"""
        return self.greater(b, a)

    def greater(self, a, b, strict=True):
        a, b = number(a), number(b)
        if a is sympy.oo or b is -sympy.oo:
            return a != b
        if a is -sympy.oo or b is sympy.oo:
            return False
        if sympy.nan in (a, b):
            return False
        d = sympy.expand(a - b)
        if d.is_Number:
            return bool(d > 0) if strict else bool(d >= 0)
        if not self.observed(d):
            if strict:
                r = self.ge(d, I1) if d.is_integer else None
                if r is None and d.is_integer is not True:
                    s = self.sgn(d)
                    r = None if s is None else s > 0
                if r:
                    return True
                if self.ge(-d, I0):
                    return False
            else:
                if self.ge(d, I0):
                    return True
                s = self.sgn(d)
                if s == -1 or (d.is_integer and self.ge(-d, I1)):
                    return False
        else:
            s = self.general(d)
            if s is not None:
                return s > 0
        return Gt0(d) if strict else Ge0(d)

    def general(self, d):
        """The sign of a quantity that is nought or of one sign by its form: a square, a sum of squares, a spread."""
        if d.is_positive or self.shape_positive(d):
            return 1
        if d.is_negative or self.shape_positive(-d):
            return -1
        return None

    def shape_positive(self, e):
        """A non-negative form which samples in general position make positive."""
        if e.is_positive:
            return True
        if e.func in (Sg, Mx) and self.shape_positive(e.args[0]):
            return True
        if e.is_Pow:
            if e.args[1].is_Rational and e.args[1].p % 2 == 0:
                return True
            return self.shape_positive(e.args[0])
        if e.func is sympy.Abs or e.func is sympy.exp:
            return True
        if e.is_Mul or e.is_Add:
            return all(self.shape_positive(a) for a in e.args)
        return False

    def equal(self, a, b):
        if a is b and not isinstance(a, Text):
            return True
        if isinstance(a, Text) or isinstance(b, Text):
            raise Unknown("comparison of a text")
        if isinstance(a, (str, EnumMember, type(None))) or isinstance(b, (str, EnumMember, type(None))):
            if isinstance(a, Fn) or isinstance(b, Fn):
                raise Unknown("comparison of functions")
            if isinstance(a, sympy.Symbol) and isinstance(b, str) or isinstance(b, sympy.Symbol) and isinstance(a, str):
                return False
            return a == b if type(a) is type(b) else False
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.elementwise(self.equal, a, b)
        a, b = number(a), number(b)
        d = sympy.expand(a - b)
        if d == 0:
            return True
        if d.is_Number:
            return False
        if self.observed(d):
            if self.general(d) is not None:
                return False
            if d.has(Ite):
                return Eq0(d)
            ks = [k for k in d.free_symbols if k in self.ranges]
            return Eq0(d) if len(ks) > 1 else False      # observations differ; a quantity of one index is not exactly a number
        s = self.sgn(d)
        if s in (1, -1):
            return False
        if s == 0:
            return True
        if self.ge(d, I1) or self.ge(-d, I1):
            return False
        return Eq0(d)

    def conj(self, cs):
        if any(c is False for c in cs):
            return False
        cs = [c for c in cs if c is not True]
        return True if not cs else (cs[0] if len(cs) == 1 else AndF(*cs))

    def disj(self, cs):
        if any(c is True for c in cs):
            return True
        cs = [c for c in cs if c is not False]
        return False if not cs else (cs[0] if len(cs) == 1 else OrF(*cs))

    def truth(self, v):
        if is_cond(v):
            return v
        if v is None:
            return False
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, sympy.Basic):
            e = self.equal(v, I0)
            return (not e) if isinstance(e, bool) else neg(e)
        if isinstance(v, Arr):
            if v.kind == "list":
                return self.truth(v.length)
            if len(v.segs) == 1 and v.segs[0][0] == 1:
                return self.truth(self.elem(v, I0))
            raise Unknown("the truth value of an array")
        if isinstance(v, (tuple, dict)):
            return bool(v)
        if isinstance(v, (Fn, Cls, Ext, Inst, EnumMember)):
            return True
        raise Unknown("truth value")

    # ---- sequences
    def elem(self, a, j, quiet=False):
        """The element at a position."""
        j = sympy.expand(number(j))
        if a.stores is not None and not quiet:
            for i, v in reversed(a.stores):
                if sympy.expand(i - j) == 0:
                    return v
            a.reads.append(j)
        L = a.length
        if self.ge(j, I0) is False:
            j = sympy.expand(j + L)
        if len(a.segs) == 1:
            ln, k, body = a.segs[0]
            return body if k is None else self.put(body, k, j)
        off = I0
        parts = []
        for ln, k, body in a.segs:
            rel = sympy.expand(j - off)
            v = body if k is None else self.put(body, k, rel)
            here = self.ge(ln - 1, rel)
            if here is True and not parts:
                if self.ge(rel, I0) is False:
                    raise Unknown("position outside a sequence")
                return v
            if here is not False:
                parts.append((Ge0(sympy.expand(ln - 1 - rel)), v))
            off = sympy.expand(off + ln)
        if not parts:
            raise Unknown("position in a sequence")
        r = number(parts[-1][1])
        for c, v in reversed(parts[:-1]):
            r = ite(c, number(v), r)
        return r

    def put(self, body, k, j):
        if isinstance(body, Arr):
            return Arr([(ln.xreplace({k: j}), q, self.put(b, k, j)) for ln, q, b in body.segs], body.kind)
        if isinstance(body, tuple):
            return tuple(self.put(b, k, j) for b in body)
        if isinstance(body, sympy.Basic):
            return body.xreplace({k: j})
        return body

    def split(self, a, at):
        """The segments before and from a position."""
        at = sympy.expand(at)
        out, off = [], I0
        segs = list(a.segs)
        for i, (ln, k, body) in enumerate(segs):
            end = sympy.expand(off + ln)
            if sympy.expand(at - off) == 0:
                return out, segs[i:]
            if sympy.expand(at - end) == 0:
                return out + [segs[i]], segs[i + 1:]
            if self.ge(at, end):
                out.append(segs[i])
                off = end
                continue
            if self.ge(end, at) and self.ge(at, off):
                m = sympy.expand(at - off)
                k2 = dummy()
                return out + [self.one(m, k, body)], [self.one(sympy.expand(ln - m), k2, self.put(body, k, k2 + m))] + segs[i + 1:]
            raise Unknown("a slice bound that is not ordered with the parts of a sequence")
        return out, []

    def one(self, ln, k, body):
        return (ln, None, self.put(body, k, I0)) if ln == 1 and k is not None else (ln, k, body)

    def slice(self, a, lo, hi, step):
        L = a.length
        if a.stores is not None:
            raise Unknown("a slice of an array a loop is filling")
        st = 1
        if step is not None:
            if not (isinstance(step, sympy.Integer)) or step not in (1, -1):
                raise Unknown("slice step")
            st = int(step)

        def bound(b, dflt):
            if b is None:
                return dflt
            b = sympy.expand(number(b))
            if self.ge(b, I0) is False:
                return sympy.expand(L + b)
            if self.ge(b, I0) is None:
                raise Unknown("slice bound of unknown sign")
            return L if self.ge(L, b) is False else b
        if st == -1:
            if lo is not None or hi is not None:
                raise Unknown("a slice with bounds and a step")
            return self.reverse(a)
        lo, hi = bound(lo, I0), bound(hi, L)
        if self.ge(hi, lo) is False:
            return Arr([], a.kind)
        head, _ = self.split(a, hi)
        _, mid = self.split(Arr(head, a.kind), lo)
        return Arr([s for s in mid if s[0] != 0], a.kind)

    def reverse(self, a):
        out = []
        for ln, k, body in reversed(a.segs):
            if k is None:
                out.append((ln, None, body))
            else:
                k2 = dummy()
                out.append((ln, k2, self.put(body, k, sympy.expand(ln - 1) - k2)))
        return Arr(out, a.kind)

    def align(self, arrs):
        """The same sequences cut into segments of common lengths."""
        todo = [list(a.segs) for a in arrs]
        out = []
        for _ in range(40):
            todo_left = [t for t in todo if t]
            if not todo_left:
                return out
            if len(todo_left) != len(todo):
                raise Unknown("sequences of different lengths")
            first = [t[0][0] for t in todo]
            m = first[0]
            for x in first[1:]:
                if sympy.expand(x - m) == 0:
                    continue
                if self.ge(x, m):
                    continue
                if self.ge(m, x):
                    m = x
                    continue
                raise Unknown("sequences whose lengths are not ordered")
            row = []
            for i, t in enumerate(todo):
                ln, k, body = t[0]
                if sympy.expand(ln - m) == 0:
                    row.append((k, body))
                    todo[i] = t[1:]
                else:
                    a, b = self.split(Arr([t[0]]), m)
                    row.append((a[0][1], a[0][2]))
                    todo[i] = b + t[1:]
            out.append((m, row))
        raise Unknown("too many parts")

    def select(self, a, mask, kind="nd"):
        """The elements of a where mask holds."""
        if a.length != mask.length:
            raise Unknown("a mask of another length")
        if not any(isinstance(s[2], CONDS) for s in mask.segs) and all(s[1] is None for s in mask.segs) and len(a.segs) == len(mask.segs):
            return Arr([s for s, m in zip(a.segs, mask.segs) if m[2]], kind)
        return Sel(a, mask, self.total(mask), kind)

    def chosen(self, f, vs):
        """elementwise() on selections by one condition."""
        first = next(v for v in vs if isinstance(v, Sel))
        for v in vs:
            if isinstance(v, Arr) and not (isinstance(v, Sel) and self.same_mask(v.mask, first.mask)):
                raise Unknown("a selection with another sequence")
        return Sel(self.elementwise(f, *[v.whole if isinstance(v, Sel) else v for v in vs]), first.mask, first.count)

    def same_mask(self, a, b):
        if a is b:
            return True
        if len(a.segs) != len(b.segs):
            return False
        for (l1, k1, b1), (l2, k2, b2) in zip(a.segs, b.segs):
            if l1 != l2 or (k1 is None) != (k2 is None):
                return False
            if k1 is not None and isinstance(b1, sympy.Basic) and isinstance(b2, sympy.Basic):
                b2 = self.put(b2, k2, k1)
            if b1 != b2:
                return False
        return True

    def elementwise(self, f, *vs):
        if any(isinstance(v, Sel) for v in vs):
            return self.chosen(f, vs)
        arrs = [v for v in vs if isinstance(v, Arr)]
        if not arrs:
            return f(*vs)
        for a in arrs:
            if a.stores is not None and (a.stores or True):
                raise Unknown("an array used as a whole while a loop is filling it")
        L = None
        for a in arrs:
            if a.length != 1 or L is None:
                L = a.length if L is None or L == 1 else L
        vs = [(self.elem(v, I0) if isinstance(v, Arr) and v.length == 1 and L != 1 else v) for v in vs]
        arrs = [v for v in vs if isinstance(v, Arr)]
        out = []
        for m, row in self.align(arrs):
            k = dummy() if m != 1 else None
            if k is not None:
                self.ranges[k] = (I0, sympy.expand(m - 1))
            it = iter(row)
            args = []
            for v in vs:
                if isinstance(v, Arr):
                    k0, body = next(it)
                    args.append(body if k0 is None else self.put(body, k0, k if k is not None else I0))
                else:
                    args.append(v)
            out.append((m, k, f(*args)))
        return Arr(out, "nd")

    def map(self, f, v):
        return self.elementwise(f, v)

    def reduce(self, a, one, many):
        """Fold the segments of a sequence: one(value) for single elements, many(body, k, lo, hi) for the rest."""
        out = []
        if a.stores is not None:
            raise Unknown("an array reduced while a loop is filling it")
        for ln, k, body in a.segs:
            if k is None:
                out.append(one(body))
            else:
                out.append(many(body, k, I0, sympy.expand(ln - 1)))
        return out

    def total(self, a):
        if not isinstance(a, Arr):
            raise Unknown("a sum of something else")
        if isinstance(a, Sel):
            return self.total(self.elementwise(lambda x, c: self.kept(c, x, I0), a.whole, a.mask))
        if any(isinstance(s[2], Arr) for s in a.segs):
            if all(s[1] is None for s in a.segs):
                r = None
                for s in a.segs:
                    r = s[2] if r is None else self.binary(ast.Add, r, s[2])
                return r
            raise Unknown("a sum over a matrix")
        return sum(self.reduce(a, number, lambda b, k, lo, hi: Sg(number(b), k, lo, hi)), I0)

    def kept(self, c, x, other):
        c = self.truth(c)
        return number(x) if c is True else (other if c is False else Ite(c, number(x), other))

    def mean(self, a):
        return self.div(self.total(a), a.length)

    def central(self, a, r):
        m = self.mean(a)
        return self.total(self.map(lambda x: (number(x) - m) ** r, a)) / a.length

    def variance(self, a, ddof=I0):
        m = self.mean(a)
        return self.total(self.map(lambda x: (number(x) - m) ** 2, a)) / (a.length - ddof)

    def maximum(self, a):
        if isinstance(a, Sel):
            return self.maximum(self.elementwise(lambda x, c: self.kept(c, x, -sympy.oo), a.whole, a.mask))
        if any(isinstance(s[2], Arr) for s in a.segs):
            raise Unknown("a maximum over a matrix")
        xs = self.reduce(a, number, lambda b, k, lo, hi: Mx(number(b), k, lo, hi))
        if not xs:
            raise Unknown("maximum of nothing")
        return self.largest(xs)

    def largest(self, xs):
        """The maximum of a few numbers; those which are never the largest for any size are left out."""
        for x in xs:
            if not x.free_symbols - {N} and len(xs) > 1:
                rest = [y for y in xs if y is not x]
                if all(not y.free_symbols - {N} and self.ge(y, x) for y in rest[:1]):
                    return self.largest(rest)
                if all(not y.free_symbols - {N} and self.ge(x, y) for y in rest):
                    return x
        return xs[0] if len(xs) == 1 else MaxF(*xs)

    def minimum(self, a):
        return -self.maximum(self.map(lambda x: -number(x), a))

    def sorted(self, a):
        """The sequence in ascending order."""
        L = a.length
        if all(s[1] is None for s in a.segs) and len(a.segs) <= 1:
            return a.copy()
        swap = {}
        ok = True
        for ln, k, body in a.segs:
            if isinstance(body, (Arr, tuple)):
                raise Unknown("sorting of sequences")
            body = number(body)
            if k is not None and body.has(self.Rf(k)) and not body.xreplace({self.Rf(k): sympy.Symbol("_z")}).has(k) \
                    and sympy.expand(ln - N) == 0:
                swap[id(body)] = True
        segs = []
        for ln, k, body in a.segs:
            b = number(body)
            if k is not None and b.has(self.Rf(k)):
                if b.xreplace({self.Rf(k): sympy.Symbol("_z")}).has(k) or sympy.expand(ln - N) != 0:
                    ok = False
                b = b.xreplace({self.Rf(k): self.Of(k)})
            segs.append((ln, k, b))
        if ok:
            s = Arr(segs, a.kind)
            d = self.direction(s)
            if d == 1:
                return s
            if d == -1:
                return self.reverse(s)
            if len(segs) == 2 and segs[0][0] == 1 or len(segs) == 2 and segs[1][0] == 1:
                t = Arr([segs[1], segs[0]], a.kind)
                d = self.direction(t)
                if d == 1:
                    return t
                if d == -1:
                    return self.reverse(t)
        if len(a.segs) != 1:
            raise Unknown("sorting a joined sequence")
        ln, k, body = a.segs[0]
        j = dummy()
        return Arr([(ln, j, cl.Ost(number(body), k, I0, sympy.expand(ln - 1), j))], a.kind)

    def direction(self, a):
        """1 when ascending at every sample point, -1 when descending."""
        import numpy as np
        ds = set()
        for p in self.points[:4]:
            vals = []
            try:
                for ln, k, body in a.segs:
                    if k is None:
                        vals.append(float(p.at(body)))
                    else:
                        m = int(p.at(ln))
                        v = p.at(body, {k: np.arange(m)})
                        vals += list(np.broadcast_to(np.asarray(v, dtype=float), (m,)))
            except cl.NoValue as e:
                raise Unknown(f"order not known: {e}")
            d = np.diff(vals)
            ds.add(1 if np.all(d >= 0) else (-1 if np.all(d <= 0) else 0))
        return ds.pop() if len(ds) == 1 else 0

    def concat(self, parts, kind="nd"):
        out = []
        for p in parts:
            if isinstance(p, Arr):
                if p.stores is not None:
                    raise Unknown("joined while filled")
                out += p.segs
            elif isinstance(p, tuple):
                out += [(I1, None, x) for x in p]
            else:
                out.append((I1, None, p))
        return Arr(out, kind)

    def cumulated(self, a):
        if len(a.segs) != 1 or a.segs[0][1] is None:
            raise Unknown("cumulative sum")
        ln, k, body = a.segs[0]
        j = dummy()
        return Arr([(ln, j, Sg(number(body), k, I0, j))], "nd")

    def as_seq(self, v):
        if isinstance(v, Arr):
            return v
        if isinstance(v, tuple):
            return fixed(v)
        raise Unknown(f"iteration over {type(v).__name__}")

    # ---- names
    def av(self, v, what=""):
        """A value of the program outside functions."""
        a = v.single()
        if a is None:
            raise Unknown(f"{what}: more than one value")
        if a[0] == "c":
            return const_term(a[1].v)
        if a[0] == "f":
            return Fn(a[1])
        if a[0] == "k":
            return Cls(a[1])
        if a[0] == "m":
            return Mod(a[1])
        if a[0] == "x":
            return Ext(a[1])
        if a[0] == "t":
            return tuple(self.av(x, what) for x in a[1])
        if a[0] == "r":
            o = self.I.g.heap.get(a[1])
            if o is not None and o.kind in ("list", "array"):
                xs = self.I.known_elems(v, self.I.g) if hasattr(self.I, "known_elems") else None
                if xs is not None:
                    return fixed([self.av(x, what) for x in xs], "list" if o.kind == "list" else "nd")
        if a[0] == "n" and v.f.term is not None and not v.f.term.free_symbols:
            return v.f.term
        raise Unknown(f"{what}: a value that is not constant")

    def name(self, nm, fr):
        for e in fr.scopes:
            if nm in e:
                v = e[nm]
                if v is NOTSET:
                    raise Unknown(f"{nm} is not set")
                return v
        for oid in fr.closure:
            o = self.I.g.heap.get(oid)
            if o is not None and nm in o.attrs:
                return self.av(o.attrs[nm], nm)
        import builtins
        if hasattr(builtins, nm):
            return {"True": True, "False": False, "None": None}.get(nm, Ext("builtins." + nm)) if nm in ("True", "False", "None") else Ext("builtins." + nm)
        raise Unknown(f"name {nm}")

    # ---- functions
    def call_fn(self, f, args, kwargs):
        self.depth += 1
        if self.depth > 40:
            raise Unknown("recursion")
        try:
            node = f.node
            if isinstance(node, ast.AsyncFunctionDef) or (f.func is not None and f.func.is_gen):
                raise Unknown("generator function")
            if f.func is not None:
                self.funcs.add(f.func.qualname)
            fr = FrameS(f)
            a = node.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            args = list(args)
            if f.self_ is not None:
                args.insert(0, f.self_)
            loc = fr.scopes[0]
            for nm, v in zip(pos, args):
                loc[nm] = v
            extra = args[len(pos):]
            if extra and a.vararg is None:
                raise Raised()
            if a.vararg is not None:
                loc[a.vararg.arg] = tuple(extra)
            rest = {}
            for k, v in kwargs.items():
                if k in loc and k in pos:
                    raise Raised()
                if k in pos or k in [x.arg for x in a.kwonlyargs]:
                    loc[k] = v
                else:
                    rest[k] = v
            if rest and a.kwarg is None:
                raise Raised()
            if a.kwarg is not None:
                loc[a.kwarg.arg] = rest
            dn = pos[len(pos) - len(a.defaults):]
            for i, nm in enumerate(dn):
                if nm not in loc:
                    loc[nm] = self.default(f, i, a.defaults[i], fr)
            for i, x in enumerate(a.kwonlyargs):
                if x.arg not in loc:
                    if a.kw_defaults[i] is None:
                        raise Raised()
                    loc[x.arg] = self.av(f.func.kwdefaults[i]) if f.func is not None else self.eval(a.kw_defaults[i], fr)
            for nm in pos:
                if nm not in loc:
                    raise Raised()
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            r = self.block(node.body, fr)
            if r[0] == "ret":
                return r[1]
            if r[0] == "raise":
                raise Raised()
            return None
        finally:
            self.depth -= 1

    def default(self, f, i, node, fr):
        if f.func is not None:
            return self.av(f.func.defaults[i], "a default")
        return self.eval(node, FrameS(f))

    def instantiate(self, c, args, kwargs):
        inst = Inst(c)
        self.heap.append(inst)
        d, init = c.lookup("__init__")
        if init is not None:
            f = next((a[1] for a in init.atoms if a[0] == "f"), None)
            if f is None:
                raise Unknown("constructor")
            self.call_fn(Fn(f, inst), args, kwargs)
        elif c.is_enum:
            raise Unknown("enumeration constructor")
        return inst

    def call(self, f, args, kwargs):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f.c, args, kwargs)
        if isinstance(f, Partial):
            return self.call(f.fn, list(f.args) + list(args), {**f.kwargs, **kwargs})
        if isinstance(f, Ext):
            from .library import ext_call
            return ext_call(self, f.name, args, kwargs)
        if isinstance(f, Meth):
            from .library import method
            return method(self, f.recv, f.name, args, kwargs)
        if isinstance(f, Frozen):
            raise Unknown("call of a frozen distribution")
        raise Unknown(f"call of {type(f).__name__}")

    # ---- attributes
    def bind(self, av, self_, owner, holder):
        a = av.single()
        if a is not None and a[0] == "f":
            if a[1].kind == "static":
                return Fn(a[1])
            if a[1].kind == "class":
                return Fn(a[1], Cls(holder))
            return Fn(a[1], self_)
        if a is not None and a[0] == "p":
            return self.call_fn(Fn(a[1], self_), [], {})
        return self.av(av, "a class attribute")

    def attr(self, v, nm):
        if isinstance(v, Inst):
            if nm in v.attrs:
                x = v.attrs[nm]
                if x is NOTSET:
                    raise Unknown(f"attribute {nm}")
                return x
            if nm == "__class__":
                return Cls(v.c)
            d, av = v.c.find(nm, self.I.g)
            if av is None:
                raise Unknown(f"attribute {nm}")
            return self.bind(av, v, d, v.c)
        if isinstance(v, Cls):
            if nm in ("__name__", "__qualname__"):
                return v.c.name
            d, av = v.c.find(nm, self.I.g)
            if av is None:
                if nm == "__init__":
                    return Ext("object.__init__")
                raise Unknown(f"class attribute {nm}")
            a = av.single()
            if a is not None and a[0] == "f":
                return Fn(a[1], Cls(v.c)) if a[1].kind == "class" else Fn(a[1])
            return self.av(av, nm)
        if isinstance(v, Sup):
            mro = v.inst.c.mro
            for c in mro[mro.index(v.cls) + 1:]:
                if nm in c.ns:
                    return self.bind(c.ns[nm], v.inst, c, v.inst.c)
            if nm == "__init__":
                return Ext("object.__init__")
            raise Unknown(f"super().{nm}")
        if isinstance(v, Mod):
            o = self.I.g.heap.get(v.m.env)
            if o is not None and nm in o.attrs:
                return self.av(o.attrs[nm], nm)
            raise Unknown(f"module attribute {nm}")
        if isinstance(v, EnumMember):
            if nm == "value":
                return self.av(v.value, nm)
            if nm == "name":
                return v.name
        if isinstance(v, Ext):
            from .library import ext_attr
            return ext_attr(self, v.name, nm)
        if isinstance(v, Arr):
            if nm == "size":
                return v.length
            if nm == "shape":
                return (v.length,)
            if nm == "ndim":
                return I1
            if nm == "T" or nm == "real" or nm == "values":
                return v
            return Meth(v, nm)
        if isinstance(v, tuple) and nm in ("statistic", "correlation") and v:
            return v[0]
        if isinstance(v, sympy.Basic) and nm in ("real", "T"):
            return v
        if isinstance(v, (sympy.Basic, str, dict, Frozen, tuple)) or is_cond(v):
            return Meth(v, nm)
        raise Unknown(f"attribute {nm} of {type(v).__name__}")

    # ---- expressions
    def eval(self, e, fr):
        self.steps += 1
        if self.steps > 60000:
            raise Unknown("too long")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unknown(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return const_term(e.value) if not isinstance(e.value, (str, bytes)) and e.value is not None and e.value is not ... else e.value

    def e_Name(self, e, fr):
        v = self.name(e.id, fr)
        return v

    def e_Attribute(self, e, fr):
        nm = e.attr
        if nm.startswith("__") and not nm.endswith("__") and fr.cls is not None:
            nm = f"_{fr.cls.name.lstrip('_')}{nm}"
        return self.attr(self.eval(e.value, fr), nm)

    def e_JoinedStr(self, e, fr):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(x.value)
                continue
            try:
                v = self.eval(x.value, fr)
            except (Unknown, Raised):
                return Text()
            if isinstance(v, sympy.Integer):
                v = str(v)
            if not isinstance(v, str) or x.format_spec is not None or x.conversion != -1:
                return Text()
            out.append(v)
        return "".join(out)

    def e_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.as_seq(self.eval(x.value, fr))
                if any(s[1] is not None for s in v.segs):
                    raise Unknown("unpacking")
                out += [s[2] for s in v.segs]
            else:
                out.append(self.eval(x, fr))
        return tuple(out)

    def e_List(self, e, fr):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts += self.as_seq(self.eval(x.value, fr)).segs
            else:
                parts.append((I1, None, self.eval(x, fr)))
        return self.born(Arr(parts, "list"))

    def born(self, a):
        a.born = len(self.loops)
        self.heap.append(a)
        return a

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unknown("dict unpacking")
            key = self.eval(k, fr)
            if not isinstance(key, (str, sympy.Integer, EnumMember)):
                raise Unknown("dict key")
            d[key] = self.eval(v, fr)
        return d

    def e_Lambda(self, e, fr):
        return Fn(None, None, fr.scopes, e, fr.module, fr.cls).of(fr)

    def e_IfExp(self, e, fr):
        c = self.truth(self.eval(e.test, fr))
        if c is True:
            return self.eval(e.body, fr)
        if c is False:
            return self.eval(e.orelse, fr)
        try:
            a = self.eval(e.body, fr)
        except Raised:
            return self.eval(e.orelse, fr)
        try:
            b = self.eval(e.orelse, fr)
        except Raised:
            return a
        return self.either(c, a, b)

    def either(self, c, a, b):
        if a is b:
            return a
        if is_num(a) and is_num(b):
            if is_cond(a) and is_cond(b):
                return self.disj([self.conj([c, a]), self.conj([neg(c), b])])
            return ite(c, number(a), number(b))
        if isinstance(a, Arr) and isinstance(b, Arr):
            try:
                return Arr(self.elementwise(lambda x, y: self.either(c, x, y), a, b).segs, a.kind)
            except Unknown:
                return NOTSET
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.either(c, x, y) for x, y in zip(a, b))
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
            return {k: self.either(c, a[k], b[k]) for k in a}
        if isinstance(a, (Cls, Ext, Mod)) and type(a) is type(b) and a.__dict__ == b.__dict__:
            return a
        return NOTSET

    def e_BoolOp(self, e, fr):
        out = []
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            c = self.truth(v)
            if isinstance(e.op, ast.And) and c is False or isinstance(e.op, ast.Or) and c is True:
                if not out:
                    return v
                return (self.conj if isinstance(e.op, ast.And) else self.disj)(out + [c])
            if c is True or c is False:
                if i == len(e.values) - 1 and not out:
                    return v
                continue
            out.append(c)
        return self.conj(out) if isinstance(e.op, ast.And) else self.disj(out)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return neg(self.truth(v))
        if isinstance(e.op, ast.USub):
            return self.map(lambda x: -number(x), v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.map(lambda x: neg(x) if is_cond(x) else self.no("inversion of a number"), v)

    def no(self, msg):
        raise Unknown(msg)

    def e_BinOp(self, e, fr):
        return self.binary(type(e.op), self.eval(e.left, fr), self.eval(e.right, fr))

    def binary(self, op, a, b):
        if isinstance(a, Arr) and a.kind == "list" or isinstance(b, Arr) and b.kind == "list" or isinstance(a, tuple) or isinstance(b, tuple):
            if op is ast.Add and isinstance(a, (Arr, tuple)) and isinstance(b, (Arr, tuple)) and getattr(a, "kind", "list") == getattr(b, "kind", "list") == "list":
                if isinstance(a, tuple) and isinstance(b, tuple):
                    return a + b
                return self.born(self.concat([a, b], "list"))
            if op is ast.Mult:
                s, m = (a, b) if isinstance(a, (Arr, tuple)) else (b, a)
                if getattr(s, "kind", "list") == "list" and isinstance(m, sympy.Basic):
                    s = self.as_seq(s)
                    if len(s.segs) == 1 and s.segs[0][0] == 1:
                        return self.born(Arr([(m, dummy(), s.segs[0][2])], "list"))
                    if m.is_Integer:
                        return self.born(Arr(s.segs * int(m), "list"))
                    raise Unknown("repetition of a list")
            if not any(isinstance(x, Arr) and x.kind == "nd" for x in (a, b)) and not all(isinstance(x, (Arr, tuple)) for x in (a, b)):
                # a list with a number: only a numpy number makes an array of it
                other = b if isinstance(a, (Arr, tuple)) else a
                if not isinstance(other, sympy.Basic) or not self.observed(other):
                    raise Unknown("arithmetic of a list")
            a, b = (self.as_seq(x) if isinstance(x, tuple) else x for x in (a, b))
        if isinstance(a, str) or isinstance(b, str):
            if op is ast.Add and isinstance(a, str) and isinstance(b, str):
                return a + b
            if op in (ast.Add, ast.Mod):
                return Text()
            raise Unknown("text arithmetic")
        f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.Div: self.div,
             ast.Pow: self.pow, ast.FloorDiv: lambda x, y: cl.Fl(sympy.expand(self.div(x, y))), ast.Mod: lambda x, y: x - y * cl.Fl(sympy.expand(self.div(x, y))),
             ast.BitAnd: None, ast.BitOr: None}.get(op)
        if op in (ast.BitAnd, ast.BitOr):
            g = self.conj if op is ast.BitAnd else self.disj

            def f2(x, y):
                if is_cond(x) and is_cond(y):
                    return g([x, y])
                raise Unknown("bit operation")
            return self.elementwise(f2, a, b)
        if f is None:
            if op is ast.MatMult:
                return self.dot(a, b)
            raise Unknown(f"operator {op.__name__}")
        return self.elementwise(lambda x, y: f(number(x), number(y)), a, b)

    def dot(self, a, b):
        return self.total(self.elementwise(lambda x, y: number(x) * number(y), a, b))

    def div(self, a, b):
        if b == 0:
            raise Unknown("division by nought")
        return a / b

    def pow(self, a, b):
        return a ** b

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            out.append(self.compare(type(op), left, right))
            left = right
        if len(out) == 1:
            return out[0]
        return self.conj([self.truth(x) for x in out])

    def compare(self, op, a, b):
        if op in (ast.Is, ast.IsNot):
            if a is None or b is None or isinstance(a, (bool, EnumMember)) or isinstance(b, (bool, EnumMember)):
                r = a is b
            elif isinstance(a, Cls) and isinstance(b, Cls):
                r = a.c is b.c
            else:
                raise Unknown("identity")
            return r if op is ast.Is else not r
        if op in (ast.In, ast.NotIn):
            if isinstance(b, dict):
                r = a in b
            else:
                b = self.as_seq(b)
                if any(s[1] is not None for s in b.segs):
                    raise Unknown("membership")
                r = self.disj([self.equal(a, s[2]) for s in b.segs])
            return r if op is ast.In else neg(r)
        if op is ast.Eq:
            return self.equal(a, b)
        if op is ast.NotEq:
            r = self.equal(a, b)
            return self.map(neg, r) if isinstance(r, Arr) else neg(r)
        f = {ast.Gt: self.greater, ast.Lt: self.less, ast.GtE: lambda x, y: self.greater(x, y, False),
             ast.LtE: lambda x, y: self.greater(y, x, False)}[op]
        return self.elementwise(f, a, b)

    def e_Subscript(self, e, fr):
        b = self.eval(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            lo, hi, st = (self.eval(x, fr) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step))
            if isinstance(b, tuple):
                xs = [None if x is None else int(x) for x in (lo, hi, st)]
                return b[slice(*xs)]
            if isinstance(b, Arr):
                return self.born(self.slice(b, lo, hi, st))
            raise Unknown("slice")
        i = self.eval(e.slice, fr)
        return self.item(b, i)

    def item(self, b, i):
        if isinstance(b, dict):
            if i in b:
                return b[i]
            raise Raised()
        if isinstance(b, tuple):
            if isinstance(i, sympy.Integer):
                if not -len(b) <= int(i) < len(b):
                    raise Raised()
                return b[int(i)]
            b = fixed(b)
        if isinstance(b, Arr):
            if isinstance(i, tuple):
                if len(i) == 1:
                    i = i[0]
                else:
                    raise Unknown("index of several dimensions")
            if isinstance(i, Arr):
                if b.stores is not None:
                    raise Unknown("indices into an array a loop is filling")
                if not isinstance(i, Sel) and i.segs and all(is_cond(s[2]) for s in i.segs):
                    return self.select(b, i)
                if isinstance(getattr(i, "order_of", None), Arr):
                    return self.by_order(b, i.order_of)
                return self.map(lambda j: self.elem(b, j), i)
            if isinstance(i, bool) or is_cond(i):
                raise Unknown("selection by a condition")
            i = number(i)
            if isinstance(i, Arg):
                if len(b.segs) == 1 and b.segs[0][1] is not None and sympy.expand(self.put(b.segs[0][2], b.segs[0][1], i.args[1]) - i.args[0]) == 0:
                    return Mx(i.args[0], i.args[1], i.args[2], i.args[3])
                if len(b.segs) == 1 and b.segs[0][1] is not None:
                    return self.put(b.segs[0][2], b.segs[0][1], i)
            if not i.is_integer and not i.has(cl.Fl, cl.Rnd, Arg):
                if i.is_Rational:
                    raise Raised()
                if i.is_integer is False:
                    raise Unknown("an index that is not an integer")
            return self.elem(b, i)
        raise Unknown(f"subscript of {type(b).__name__}")

    def by_order(self, b, key):
        """b taken in the ascending order of key."""
        if len(b.segs) == 1 == len(key.segs):
            s = self.sorted(key)
            kb = key.segs[0]
            if kb[2] == self.put(b.segs[0][2], b.segs[0][1], kb[1]):
                return s
            if kb[2] == self.Rf(kb[1]):
                body = b.segs[0][2]
                k = b.segs[0][1]
                if not body.xreplace({self.Rf(k): sympy.Symbol("_z")}).has(k):
                    return Arr([(b.segs[0][0], k, body.xreplace({self.Rf(k): self.Of(k)}))], "nd")
        raise Unknown("indirect order")

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and isinstance(self.name("super", fr), Ext):
            if e.args:
                c = self.eval(e.args[0], fr)
                o = self.eval(e.args[1], fr)
                if isinstance(c, Cls) and isinstance(o, Inst):
                    return Sup(o, c.c)
                raise Unknown("super")
            s = fr.scopes[-1] if False else None
            for sc in fr.scopes:
                if fr.first in sc:
                    s = sc[fr.first]
                    break
            if isinstance(s, Inst) and fr.cls is not None:
                return Sup(s, fr.cls)
            raise Unknown("super")
        f = self.eval(e.func, fr)
        args, kwargs = [], {}
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.as_seq(self.eval(x.value, fr))
                if any(s[1] is not None for s in v.segs):
                    raise Unknown("unpacking")
                args += [s[2] for s in v.segs]
            elif isinstance(x, ast.GeneratorExp):
                args.append(self.comprehension(x, fr))
            else:
                args.append(self.eval(x, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if not isinstance(d, dict):
                    raise Unknown("keyword unpacking")
                kwargs.update(d)
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kwargs)

    def e_ListComp(self, e, fr):
        return self.comprehension(e, fr)

    e_GeneratorExp = e_ListComp

    def comprehension(self, e, fr):
        a = self.gen(e.elt, list(e.generators), fr.inner())
        if isinstance(a, Sel):
            return a
        return self.born(Arr(a.segs, "list"))

    def gen(self, elt, gens, fr):
        g = gens[0]
        seq = self.iterate(self.eval(g.iter, fr))
        segs = []
        for ln, k, body in seq.segs:
            f2 = fr
            if k is not None:
                self.ranges[k] = (I0, sympy.expand(ln - 1))
            self.assign(g.target, body, f2)
            conds = [self.truth(self.eval(c, f2)) for c in g.ifs]
            c = self.conj(conds)
            if c is False:
                continue
            if len(gens) > 1:
                inner = self.gen(elt, gens[1:], f2)
                if k is None and c is True:
                    segs += inner.segs
                    continue
                if c is not True:
                    raise Unknown("a filtered comprehension")
                segs.append(("nest", ln, k, inner))
                continue
            v = self.eval(elt, f2)
            if c is not True:
                if len(seq.segs) > 1 or k is None or isinstance(v, (Arr, tuple)):
                    raise Unknown("a filtered comprehension")
                return self.select(Arr([(ln, k, v)], "list"), Arr([(ln, k, c)], "list"), "list")
            segs.append((ln, k, v))
        if any(s[0] == "nest" for s in segs):
            return Nest(segs)
        return Arr(segs, "list")

    def iterate(self, v):
        if isinstance(v, dict):
            return fixed(list(v))
        if isinstance(v, str):
            return fixed(list(v))
        return self.as_seq(v)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    # ---- statements
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.scopes[0][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Arr):
                if any(s[1] is not None for s in v.segs):
                    if all(not isinstance(x, ast.Starred) for x in t.elts):
                        v = tuple(self.elem(v, sympy.Integer(i)) for i in range(len(t.elts)))
                else:
                    v = tuple(s[2] for s in v.segs)
            if not isinstance(v, tuple) or len(v) != len(t.elts) or any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unknown("unpacking")
            for x, y in zip(t.elts, v):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            if not isinstance(o, Inst):
                raise Unknown("attribute assignment")
            nm = t.attr
            if nm.startswith("__") and not nm.endswith("__") and fr.cls is not None:
                nm = f"_{fr.cls.name.lstrip('_')}{nm}"
            if self.loops:
                raise Unknown("attribute assignment in a loop")
            o.attrs[nm] = v
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, fr)
            if isinstance(b, dict):
                k = self.eval(t.slice, fr)
                if self.loops or not isinstance(k, (str, sympy.Integer)):
                    raise Unknown("dict store")
                b[k] = v
                return
            if not isinstance(b, Arr):
                raise Unknown("store")
            if isinstance(t.slice, ast.Slice):
                lo, hi, st = (self.eval(x, fr) if x is not None else None for x in (t.slice.lower, t.slice.upper, t.slice.step))
                self.store_slice(b, lo, hi, st, v)
                return
            i = self.eval(t.slice, fr)
            if isinstance(i, Arr) and not isinstance(i, Sel) and not isinstance(v, (Arr, tuple)) and i.length == b.length and len(self.loops) <= b.born \
                    and not isinstance(b, Sel) and i.segs and all(is_cond(x[2]) for x in i.segs):
                b.segs = self.elementwise(lambda x, c: self.kept(c, number(v), number(x)), b, i).segs
                return
            if isinstance(v, Sel) and isinstance(i, Arr) and not isinstance(i, Sel) and not isinstance(b, Sel) and len(self.loops) <= b.born \
                    and self.same_mask(i, v.mask):
                b.segs = self.elementwise(lambda x, c, y: self.kept(c, number(y), number(x)), b, i, v.whole).segs
                return
            if isinstance(i, (Arr, tuple)) or is_cond(i):
                raise Unknown("store by an array")
            self.store(b, number(i), v)
        else:
            raise Unknown("assignment target")

    def store(self, a, i, v):
        i = sympy.expand(i)
        if self.ge(i, I0) is False:
            i = sympy.expand(i + a.length)
        if len(self.loops) > a.born:
            if a.born != len(self.loops) - 1:
                raise Unknown("a store into an array of an outer loop")
            lp = self.loops[-1]
            if a.stores is None:
                a.stores, a.reads = [], []
                lp.filled.append(a)
            for j, (q, _) in enumerate(a.stores):
                if sympy.expand(q - i) == 0:
                    a.stores[j] = (i, v)
                    return
            if i in a.reads:
                pass
            a.stores.append((i, v))
            return
        before, after = self.split(a, i)
        _, after = self.split(Arr(after), I1)
        a.segs = [s for s in before if s[0] != 0] + [(I1, None, v)] + [s for s in after if s[0] != 0]

    def store_slice(self, a, lo, hi, st, v):
        if len(self.loops) > a.born:
            raise Unknown("slice store in a loop")
        if st is not None:
            raise Unknown("slice store with a step")
        L = a.length
        lo = I0 if lo is None else sympy.expand(number(lo))
        hi = L if hi is None else sympy.expand(number(hi))
        if self.ge(lo, I0) is False:
            lo = sympy.expand(lo + L)
        if self.ge(hi, I0) is False:
            hi = sympy.expand(hi + L)
        before, rest = self.split(a, lo)
        _, after = self.split(Arr(rest), sympy.expand(hi - lo))
        if isinstance(v, (Arr, tuple)):
            mid = self.as_seq(v)
            if sympy.expand(mid.length - (hi - lo)) != 0:
                raise Unknown("slice store of another length")
            segs = mid.segs
        else:
            segs = [(sympy.expand(hi - lo), dummy(), v)]
        a.segs = [s for s in before + segs + after if s[0] != 0]

    def block(self, stmts, fr):
        """("fall",), ("ret", value) or ("raise",)."""
        for i, s in enumerate(stmts):
            self.steps += 1
            if self.steps > 60000:
                raise Unknown("too long")
            if isinstance(s, ast.If):
                r = self.branch(s, stmts[i + 1:], fr)
                if r is None:
                    continue
                return r
            if isinstance(s, ast.Return):
                try:
                    return ("ret", self.eval(s.value, fr) if s.value is not None else None)
                except Raised:
                    return ("raise",)
            if isinstance(s, ast.Raise):
                return ("raise",)
            if isinstance(s, ast.Continue):
                return ("cont",)
            if isinstance(s, (ast.With, ast.AsyncWith)):
                for it in s.items:
                    self.ignorable(it.context_expr)
                r = self.block(list(s.body) + list(stmts[i + 1:]), fr)
                return r
            if isinstance(s, ast.Try):
                if s.handlers and not s.finalbody and not s.orelse:
                    r = self.block(list(s.body) + list(stmts[i + 1:]), fr)
                    return r
                raise Unknown("try")
            try:
                self.stmt(s, fr)
            except Raised:
                return ("raise",)
        return ("fall",)

    def ignorable(self, e):
        t = ast.unparse(e)
        if "errstate" in t or "catch_warnings" in t:
            return
        raise Unknown("with")

    def branch(self, s, rest, fr):
        c = self.truth(self.eval(s.test, fr))
        if c is True or c is False:
            body = s.body if c is True else s.orelse
            if leaves(body):
                return self.block(list(body) + list(rest), fr)
            r = self.block(body, fr)
            return None if r[0] == "fall" else r
        if leaves(s.body) or leaves(s.orelse):
            ra, rb = list(s.body) + list(rest), list(s.orelse) + list(rest)
            final = True
        else:
            ra, rb = s.body, s.orelse
            final = False
        s0 = self.save(fr)
        x = self.block(ra, fr)
        s1 = self.save(fr)
        self.restore(s0, fr)
        y = self.block(rb, fr)
        if self.strict and "raise" in (x[0], y[0]) and x[0] != y[0]:
            if {x[0], y[0]} != {"raise", "ret"}:
                raise Unknown("a path that raises")
            gone = cl.Fun(sympy.Symbol("raised"))
            v = self.either(c, gone if x[0] == "raise" else x[1], gone if y[0] == "raise" else y[1])
            if v is NOTSET:
                raise Unknown("two results of different kinds")
            return ("ret", v)
        if x[0] == "raise":
            return y if final or y[0] != "fall" else None
        if y[0] == "raise":
            self.restore(s1, fr)
            return x if final or x[0] != "fall" else None
        if x[0] == "ret" and y[0] == "ret":
            v = self.either(c, x[1], y[1])
            if v is NOTSET:
                raise Unknown("two results of different kinds")
            self.merge(c, s1, fr)
            return ("ret", v)
        if x[0] in ("fall", "cont") and y[0] in ("fall", "cont"):
            self.merge(c, s1, fr)
            return ("fall",) if final else None
        raise Unknown("a path that returns and one that does not")

    def save(self, fr):
        return ([dict(sc) for sc in fr.scopes], [(o, list(o.segs), list(o.stores) if o.stores is not None else None, list(getattr(o, "reads", ()))) if isinstance(o, Arr)
                                                 else (o, dict(o.attrs)) for o in self.heap], [list(lp.filled) for lp in self.loops])

    def restore(self, s, fr):
        for sc, old in zip(fr.scopes, s[0]):
            sc.clear()
            sc.update(old)
        for x in s[1]:
            if isinstance(x[0], Arr):
                x[0].segs = list(x[1])
                x[0].stores = list(x[2]) if x[2] is not None else None
                x[0].reads = list(x[3])
            else:
                x[0].attrs = dict(x[1])
        for lp, f in zip(self.loops, s[2]):
            lp.filled = list(f)

    def merge(self, c, s1, fr):
        """The state after a branch: s1 where c holds, the present state where not."""
        for sc, old in zip(fr.scopes, s1[0]):
            for k in set(sc) | set(old):
                if k in sc and k in old:
                    sc[k] = self.either(c, old[k], sc[k])
                else:
                    sc[k] = NOTSET if k not in sc else sc[k]
                    if k in old and sc[k] is NOTSET:
                        sc[k] = old[k] if False else NOTSET
        seen = {id(x[0]): x for x in s1[1]}
        for o in self.heap:
            x = seen.get(id(o))
            if x is None:
                continue
            if isinstance(o, Arr):
                if o.segs != x[1]:
                    o.segs = self.elementwise(lambda p, q: self.either(c, p, q), Arr(x[1]), Arr(o.segs)).segs
                a, b = o.stores, x[2]
                if a != b:
                    ia = {i for i, _ in a or ()}
                    ib = {i for i, _ in b or ()}
                    da, db = dict(a or ()), dict(b or ())
                    out = []
                    lp = self.loops[-1]
                    for i in sorted(ia | ib, key=sympy.default_sort_key):
                        old = lambda: self.elem(o, i, True)
                        out.append((i, self.either(c, db[i] if i in db else old(), da[i] if i in da else old())))
                    o.stores = out
                    o.reads = list(set(getattr(o, "reads", [])) | set(x[3]))
                    if o not in lp.filled:
                        lp.filled.append(o)
            else:
                for k in set(o.attrs) | set(x[1]):
                    if k in o.attrs and k in x[1]:
                        o.attrs[k] = self.either(c, x[1][k], o.attrs[k])
                    else:
                        o.attrs[k] = NOTSET

    def stmt(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unknown(f"statement {type(s).__name__}")
        return m(s, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Assert(self, s, fr):
        pass

    def s_Global(self, s, fr):
        raise Unknown("global")

    s_Nonlocal = s_Global

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        if isinstance(s.target, ast.Subscript) and isinstance(s.target.slice, ast.Slice):
            raise Unknown("augmented slice store")
        load = ast.copy_location(_load(s.target), s.target)
        old = self.eval(load, fr)
        new = self.eval(s.value, fr)
        if isinstance(old, Arr) and isinstance(s.target, (ast.Name, ast.Attribute)):
            if old.kind == "list" and isinstance(s.op, ast.Add):
                self.extend(old, self.as_seq(new))
                return
            if len(self.loops) > old.born:
                raise Unknown("in-place arithmetic in a loop")
            r = self.binary(type(s.op), old, new)
            if isinstance(old, Sel) or isinstance(r, Sel):
                if not (isinstance(old, Sel) and isinstance(r, Sel)):
                    raise Unknown("in-place arithmetic with a selection")
                old.whole, old.mask, old.count = r.whole, r.mask, r.count
                return
            old.segs = r.segs
            return
        self.assign(s.target, self.binary(type(s.op), old, new), fr)

    def extend(self, a, b):
        if len(self.loops) > a.born:
            raise Unknown("a list extended in a loop")
        a.segs = list(a.segs) + list(b.segs)

    def append(self, a, v):
        if len(self.loops) > a.born:
            if a.born != len(self.loops) - 1:
                raise Unknown("append in an inner loop")
            lp = self.loops[-1]
            for x, _ in lp.appended:
                if x is a:
                    raise Unknown("several appends in one turn")
            lp.appended.append((a, v))
            return
        a.segs = list(a.segs) + [(I1, None, v)]

    def s_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unknown("decorated nested function")
        fr.scopes[0][s.name] = Fn(None, None, fr.scopes, s, fr.module, fr.cls).of(fr)

    def s_Import(self, s, fr):
        for a in s.names:
            from .models import canon
            if a.asname:
                fr.scopes[0][a.asname] = Ext(canon(a.name))
            else:
                fr.scopes[0][a.name.split(".")[0]] = Ext(canon(a.name.split(".")[0]))

    def s_ImportFrom(self, s, fr):
        from .models import canon
        if s.level or (s.module or "").startswith(self.I.p.package):
            raise Unknown("import of the package in a function")
        for a in s.names:
            fr.scopes[0][a.asname or a.name] = Ext(canon(f"{s.module}.{a.name}"))

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.scopes[0].pop(t.id, None)

    def s_While(self, s, fr):
        if s.orelse:
            raise Unknown("while-else")
        for _ in range(60):
            c = self.truth(self.eval(s.test, fr))
            if c is False:
                return
            if c is not True:
                raise Unknown("a while loop that depends on the data")
            if leaves(s.body) or breaks(s.body):
                raise Unknown("leaving a while loop")
            r = self.block(s.body, fr)
            if r[0] != "fall":
                raise Unknown("leaving a while loop")
        raise Unknown("a long while loop")

    def s_For(self, s, fr):
        if s.orelse or breaks(s.body) or returns(s.body):
            raise Unknown("a loop that is left early")
        it = self.eval(s.iter, fr)
        seq = self.iterate(it)
        if all(g[1] is None or (g[0].is_Integer and g[0] <= 40) for g in seq.segs):
            n = seq.length
            if n > 64:
                raise Unknown("a long loop")
            for i in range(int(n)):
                self.assign(s.target, self.elem(seq, sympy.Integer(i)), fr)
                r = self.block(s.body, fr)
                if r[0] not in ("fall", "cont"):
                    if r[0] == "raise":
                        raise Raised()
                    raise Unknown("leaving a loop")
            return
        for ln, k, body in list(seq.segs):
            if k is None:
                self.assign(s.target, body, fr)
                r = self.block(s.body, fr)
                if r[0] not in ("fall", "cont"):
                    raise Unknown("leaving a loop")
                continue
            self.loop(s, ln, k, body, fr)

    def loop(self, s, ln, k, item, fr):
        hi = sympy.expand(ln - 1)
        self.ranges[k] = (I0, hi)
        names = assigned(s.body) | assigned([ast.Assign(targets=[s.target], value=ast.Constant(0))])
        loc = fr.scopes[0]
        acc, before = {}, {}
        for nm in names:
            if nm in loc:
                before[nm] = loc[nm]
                if isinstance(loc[nm], sympy.Basic) and not is_cond(loc[nm]):
                    acc[nm] = sympy.Dummy(nm, real=True)
                    loc[nm] = acc[nm]
                elif isinstance(loc[nm], Arr) or loc[nm] is None or isinstance(loc[nm], (str, bool, tuple)):
                    loc[nm] = NOTSET
        lp = LoopS(k)
        self.loops.append(lp)
        try:
            self.assign(s.target, item, fr)
            r = self.block(s.body, fr)
        finally:
            self.loops.pop()
        if r[0] == "raise":
            raise Raised()
        if r[0] not in ("fall", "cont"):
            raise Unknown("leaving a loop")
        accs = set(acc.values())
        nonempty = self.ge(ln, I1)

        def clean(v):
            return not (isinstance(v, sympy.Basic) and v.free_symbols & accs)
        prefix, final = {}, {}
        todo = {nm: loc.get(nm, NOTSET) for nm in names}
        for _ in range(len(todo) + 2):
            moved = False
            for nm in list(todo):
                v = todo[nm]
                if isinstance(v, sympy.Basic) and prefix:
                    v = v.xreplace({acc[m]: prefix[m] for m in prefix if m != nm})
                if nm in acc and v == acc[nm]:
                    final[nm] = before[nm]
                    prefix[nm] = before[nm]
                elif nm in acc and isinstance(v, sympy.Basic) and v.has(acc[nm]):
                    A = acc[nm]
                    d = self.step(v, A)
                    if d is not None and clean(d):
                        final[nm] = before[nm] + Sg(d, k, I0, hi)
                        k2 = dummy()
                        prefix[nm] = before[nm] + Sg(d.xreplace({k: k2}), k2, I0, k - 1)
                    else:
                        q = self.factor(v, A)
                        m = self.larger(v, A)
                        if q is not None and clean(q):
                            final[nm] = before[nm] * Pd(q, k, I0, hi)
                        elif m is not None and clean(m[1]):
                            b = before[nm]
                            mx = Mx(m[1] if m[0] > 0 else -m[1], k, I0, hi)
                            if b in (-sympy.oo, sympy.oo):
                                final[nm] = mx if m[0] > 0 else -mx
                            else:
                                final[nm] = MaxF(b, mx) if m[0] > 0 else -MaxF(-b, mx)
                        else:
                            continue
                elif clean(v) and not isinstance(v, Arr) and not (isinstance(v, tuple) and any(not clean(x) for x in v)):
                    if v is NOTSET:
                        final[nm] = NOTSET
                    elif isinstance(v, sympy.Basic):
                        final[nm] = v.xreplace({k: hi}) if nonempty else NOTSET
                    elif isinstance(v, (bool, str, type(None), Fn, Cls, Ext, EnumMember)):
                        final[nm] = v if nonempty else NOTSET
                    else:
                        final[nm] = NOTSET
                elif isinstance(v, Arr):
                    final[nm] = NOTSET
                else:
                    continue
                del todo[nm]
                moved = True
            if not todo or not moved:
                break
        for nm in todo:
            final[nm] = NOTSET

        def resolve(v):
            if isinstance(v, sympy.Basic) and v.free_symbols & accs:
                v = v.xreplace({acc[m]: prefix[m] for m in prefix})
                if v.free_symbols & accs:
                    raise Unknown("a recurrence")
            return v
        for a in lp.filled:
            stores, reads = a.stores, a.reads
            a.stores = None
            if len(stores) != 1:
                pos = [sympy.expand(i - k) for i, _ in stores]
                raise Unknown("a loop that stores several elements in one turn")
            i, v = stores[0]
            v = resolve(v)
            off = sympy.expand(i - k)
            rev = sympy.expand(i + k)
            if off.has(k) and rev.has(k) or any(x in off.free_symbols for x in accs):
                raise Unknown("a store at a computed position")
            for q in reads:
                if sympy.expand(q - i) != 0:
                    raise Unknown("a loop that reads what it stored")
            k2 = dummy()
            if not off.has(k):
                lo = off
                seg = (ln, k2, self.put(v, k, k2))
            else:
                lo = sympy.expand(rev - hi)
                seg = (ln, k2, self.put(v, k, hi - k2))
            head, rest = self.split(a, lo)
            _, tail = self.split(Arr(rest), ln)
            a.segs = [g for g in head if g[0] != 0] + [seg] + [g for g in tail if g[0] != 0]
        for a, v in lp.appended:
            k2 = dummy()
            a.segs = list(a.segs) + [(ln, k2, self.put(resolve(v), k, k2))]
        for nm in names:
            if nm in final:
                loc[nm] = final[nm]
        for nm in before:
            if loc.get(nm) is NOTSET and nm not in stored_names(s.body) and not isinstance(before[nm], sympy.Basic):
                loc[nm] = before[nm]

    def step(self, v, A):
        """v = A + step: the step."""
        if v == A:
            return I0
        if v.func is Ite and not v.args[0].has(A):
            a, b = self.step(v.args[1], A), self.step(v.args[2], A)
            return None if a is None or b is None else ite(v.args[0], a, b)
        d = sympy.expand(v - A)
        if not d.has(A):
            return d
        if v.is_Add:
            rest = [x for x in v.args if x.has(A)]
            if len(rest) == 1:
                s = self.step(rest[0], A)
                if s is not None:
                    return sympy.Add(*[x for x in v.args if x is not rest[0]]) + s
        return None

    def factor(self, v, A):
        q = sympy.expand(v / A)
        return q if not q.has(A) else None

    def larger(self, v, A):
        if v.func is MaxF and A in v.args:
            rest = [x for x in v.args if x != A]
            return (1, rest[0] if len(rest) == 1 else MaxF(*rest))
        w = sympy.expand(-v)
        if w.func is MaxF and -A in w.args:
            rest = [x for x in w.args if x != -A]
            return (-1, -(rest[0] if len(rest) == 1 else MaxF(*rest)))
        return None


class Nest:
    pass


class LoopS:
    def __init__(self, k):
        self.k, self.filled, self.appended = k, [], []


class FrameS:
    def __init__(self, f):
        self.scopes = [{}] + (list(f.env) if f.env else [])
        self.closure = f.func.closure if f.func is not None else f.closure
        self.module, self.cls = f.module, f.cls
        a = f.node.args.posonlyargs + f.node.args.args
        self.first = a[0].arg if a and f.env is None else getattr(f, "first", None)

    def inner(self):
        x = object.__new__(FrameS)
        x.scopes = [{}] + self.scopes
        x.closure, x.module, x.cls, x.first = self.closure, self.module, self.cls, self.first
        return x


def _of(self, fr):
    self.closure, self.first = fr.closure, fr.first
    return self


Fn.of = _of


def _load(t):
    import copy
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return t


def walk_own(stmts, into_loops=True):
    """The nodes of statements without the bodies of nested functions."""
    todo = list(stmts)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if not into_loops and isinstance(x, (ast.For, ast.While)):
            continue
        todo += list(ast.iter_child_nodes(x))


def leaves(stmts):
    return any(isinstance(x, (ast.Return, ast.Raise)) for x in walk_own(stmts)) or any(isinstance(x, (ast.Continue, ast.Break)) for x in walk_own(stmts, False))


def breaks(stmts):
    return any(isinstance(x, ast.Break) for x in walk_own(stmts, False))


def returns(stmts):
    return any(isinstance(x, ast.Return) for x in walk_own(stmts))


def assigned(stmts):
    out = set()
    for x in walk_own(stmts):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        elif isinstance(x, (ast.Assign, ast.AnnAssign)):
            for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                for y in ast.walk(t):
                    if isinstance(y, ast.Name) and not isinstance(t, (ast.Subscript, ast.Attribute)):
                        out.add(y.id)
        elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            out.add(x.target.id)
    return out


stored_names = assigned
