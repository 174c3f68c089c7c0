"""When two closed forms are equal although their normal forms are written differently.

Both expressions are rewritten bottom-up into one vocabulary: sums of powers become central moments, radicals and
logarithms are split along the factors of their base, and a subterm is replaced by an equal one met before (equality
of the arguments decided by clearing denominators and reducing radicals). What is left is a polynomial identity.
Every step is an identity of real numbers wherever both sides have a value.
"""
from __future__ import annotations

import math
import time

import sympy

from . import closed as cl
from .closed import N, NMIN, OBS, Fl, Ite, MaxF, Phi, Pinv, Sg

ZERO, ONE = sympy.Integer(0), sympy.Integer(1)
ODD = {sympy.sign, cl.Sgn, sympy.asinh, sympy.sinh, sympy.tanh, sympy.atan, sympy.asin}


def expand(e):
    """Numerators multiplied out; functions, radicals and denominators left as they are."""
    for _ in range(4):
        if not (e.is_Add or e.is_Mul or e.is_Pow):
            return e
        table = {}
        f = _shield(e, table)
        g = sympy.expand(f)
        r = g.xreplace({t: (k[1] ** k[2] if isinstance(k, tuple) else k) for k, t in table.items()})
        if r == e:
            return r
        e = r
    return e


def _shield(e, table):
    if e.is_Number or e.is_Symbol:
        return e
    if e.is_Add or e.is_Mul:
        return e.func(*[_shield(a, table) for a in e.args])
    if e.is_Pow and e.args[1].is_Integer and e.args[1] > 0:
        return _shield(e.args[0], table) ** e.args[1]
    if e.is_Pow and e.args[1].is_Rational and e.args[0].is_Add:
        x = e.args[1]
        u = sympy.Rational(1, x.q) * (1 if x > 0 else -1)
        key = ("^", e.args[0], u)
        if key not in table:
            table[key] = sympy.Dummy("t", positive=True)
        return table[key] ** abs(x.p)
    if e.is_Pow and (e.args[0].is_Symbol or e.args[0].is_Number) and e.args[1].is_Rational:
        return e
    if e not in table:
        table[e] = sympy.Dummy("f", real=True)
    return table[e]


def is_index(x):
    return isinstance(x, sympy.Dummy) or x.name.startswith("_i")


class Congruence:
    def __init__(self, points, size=N, least=NMIN, total=N, polynomials=False):
        self.polynomials = polynomials      # binomial coefficients multiplied out
        self.points = points
        self.size, self.least, self.total = size, least, total     # n as a term of a symbol that is at least so much
        self.seen = {}            # head -> [(hash, kernel)]
        self.memo = {}
        self.moments = {}         # (first moment, order) -> symbol
        self.values = {}          # moment symbol -> defining term
        self.zeros = {}
        self.until = math.inf
        self.ranges = {}          # index -> its bounds

    # ---- signs
    def positive(self, e):
        if e.is_positive:
            return True
        if e.free_symbols == {self.size} and not e.atoms(sympy.Function):
            try:
                p = sympy.Poly(sympy.expand(e.xreplace({self.size: self.size + self.least})), self.size)
                return all(c >= 0 for c in p.all_coeffs()) and p.eval(0) > 0
            except (sympy.PolynomialError, TypeError):
                return False
        if e.is_Pow or e.is_Mul:
            return all(self.positive(a) for a in (e.args if e.is_Mul else e.args[:1]))
        if isinstance(e, (cl.Gam, sympy.exp, Phi)):
            return True
        return False

    # ---- numeric fingerprints only decide which equalities are worth proving
    def mark(self, e):
        out = []
        for p in self.points:
            env = {}
            for j, s in enumerate(sorted((x for x in e.free_symbols if x not in p.env), key=str)):
                if s in self.values:
                    try:
                        p.env[s] = p.at(self.values[s])
                    except cl.NoValue:
                        return None
                else:
                    env[s] = 5 + 2 * j
            try:
                v = p.at(e, env)
            except (cl.NoValue, IndexError, ValueError, OverflowError, ZeroDivisionError, TypeError):
                return None
            if isinstance(v, bool) or not math.isfinite(float(v)):
                return None
            out.append(float(v))
        return out

    @staticmethod
    def near(a, b):
        if a is None or b is None:
            return a is b
        return all(math.isclose(x, y, rel_tol=1e-7, abs_tol=1e-10) for x, y in zip(a, b))

    # ---- arithmetic
    def kernels(self, e, table):
        """e with its non-arithmetic subterms and radicals replaced by symbols."""
        if e.is_Number or e.is_Symbol:
            return e
        if e.is_Add or e.is_Mul:
            return e.func(*[self.kernels(a, table) for a in e.args])
        if e.is_Pow and e.args[1].is_Rational:
            b, x = e.args
            if x.is_Integer:
                return self.kernels(b, table) ** x
            key = ("root", b, x.q)
            if key not in table:
                table[key] = sympy.Dummy("t", positive=True)
            return table[key] ** x.p
        if e not in table:
            table[e] = sympy.Dummy("f", real=True)
        return table[e]

    def zero(self, e):
        if e == 0:
            return True
        r = self.zeros.get(e)
        if r is None:
            r = self.zeros[e] = self._zero(e)
        return r

    def _zero(self, e):
        table = {}
        f = self.kernels(e, table)
        num = expand(sympy.fraction(sympy.together(f))[0])
        roots = {t: (k[1], k[2]) for k, t in table.items() if isinstance(k, tuple)}
        for _ in range(6):
            if num == 0:
                return True
            changed = False
            for t, (b, q) in roots.items():
                if num.has(t):
                    p = sympy.Poly(num, t)
                    if p.degree() >= q:
                        base = self.kernels(b, table)
                        num = sum(c * base ** (m[0] // q) * t ** (m[0] % q) for m, c in p.terms())
                        num = expand(sympy.fraction(sympy.together(num))[0])
                        changed = True
            if not changed:
                break
        return num == 0

    def equal(self, a, b):
        return a == b or self.zero(a - b)

    def factors(self, e):
        """(constant, [(factor, exponent)]) of an arithmetic term."""
        table = {}
        f = sympy.factor(sympy.together(self.kernels(e, table)))
        back = {t: (k[1] ** sympy.Rational(1, k[2]) if isinstance(k, tuple) else k) for k, t in table.items()}
        c, out = ONE, []
        for x in sympy.Mul.make_args(f):
            b, p = x.as_base_exp()
            if b.is_Number:
                c = c * x
            else:
                out.append((expand(b.xreplace(back)), p))
        return c, out

    def root(self, b, x):
        """b ** x for a fraction x."""
        c, fs = self.factors(b)
        q = x.q
        out, rest = ONE, (ONE if c > 0 else -ONE)
        out *= abs(c) ** x
        for f, p in fs:
            if self.positive(f):
                out *= self.same("base", f) ** (p * x)
            elif self.positive(-f):
                out *= self.same("base", -f) ** (p * x)
                rest *= -ONE if p % 2 else ONE
            elif p % 2 == 0 and q == 2:
                out *= self.absolute(f) ** (p * x)
            else:
                rest *= f ** p
        if rest == 1:
            return out
        if rest.is_Number:
            return b ** x
        # what remains is not negative where the value is real
        if all(g.as_base_exp()[1].is_negative for g in sympy.Mul.make_args(rest) if not g.is_Number):
            rest, x = 1 / rest, -x
        rest = expand(rest)
        bb, p = rest.as_base_exp()
        if bb.is_Add or p == 1:
            return out * self.same("base", rest) ** x
        return out * rest ** x

    def absolute(self, e):
        if self.positive(e):
            return e
        if self.positive(-e):
            return -e
        c, fs = self.factors(e)
        out = abs(c)
        rest = ONE
        for f, p in fs:
            if self.positive(f):
                out *= f ** p
            elif self.positive(-f):
                out *= (-f) ** p
            else:
                rest *= f ** p
        if rest == 1:
            return out
        rest = self.same("abs", expand(rest), even=True)
        return out * sympy.Abs(rest)

    def renamed(self, e, how=0):
        """e with its free indices in a fixed vocabulary, and the way back."""
        free = sorted((x for x in e.free_symbols if is_index(x) and x not in cl.bound_inside(e)), key=lambda x: x.name)
        if how and len(free) == 2:
            free.reverse()
        to = {x: sympy.Symbol(f"_j{j}", integer=True, nonnegative=True) for j, x in enumerate(free)}
        return e.xreplace(to), {v: k for k, v in to.items()}, len(free)

    def same(self, head, e, even=False):
        """The first term seen in this place that is equal to e (or to -e)."""
        if e.is_Number:
            return e
        row = self.seen.setdefault(head, [])
        for how in (0, 1):
            f, back, count = self.renamed(e, how)
            for g, k in row:
                if k == f or even and -k == f:
                    return k.xreplace(back)
            h = self.mark(f)
            for g, k in row:
                if self.near(h, g) and self.zero(k - f):
                    return k.xreplace(back)
                if even and h is not None and g is not None and self.near([-x for x in h], g) and self.zero(k + f):
                    return k.xreplace(back)
            if count != 2:
                break
        f, back, _ = self.renamed(e)
        row.append((self.mark(f), f))
        return e

    # ---- rewriting
    def form(self, e):
        if time.monotonic() > self.until:
            raise Late()
        r = self.memo.get(e)
        if r is None:
            r = self.memo[e] = self._form(e)
        return r

    def _form(self, e):
        if e.is_Atom or not e.args:
            return e
        f = e.func
        if f in cl.BINDERS:
            return self.binder(e)
        a = [self.form(x) for x in e.args]
        if f is sympy.Add or f is sympy.Mul:
            return expand(f(*a))
        if f is sympy.Pow:
            b, x = a
            if x.is_Rational and not x.is_Integer:
                return self.root(b, x)
            if x.is_Integer:
                if b.is_Add and x < 0:
                    c, fs = self.factors(b)
                    return expand(c ** x * sympy.Mul(*[(g if self.positive(g) else self.same("base", g, False)) ** (p * x) for g, p in fs]))
                return expand(b ** x) if not (x > 4 and b.is_Add and len(b.args) > 6) else b ** x
            return self.same("pow", b, False) ** self.same("exponent", x)
        if f is sympy.Abs:
            return self.absolute(a[0])
        if f is sympy.log:
            c, fs = self.factors(a[0])
            out, rest = ZERO, (ONE if c > 0 else -ONE)
            out += sympy.log(abs(c))
            for g, p in fs:
                if self.positive(g):
                    out += p * self.log(g)
                elif self.positive(-g):
                    out += p * self.log(-g)
                    rest *= -ONE if p % 2 else ONE
                else:
                    rest *= g ** p
            if rest != 1:
                b, p = rest.as_base_exp()
                if p.is_Rational and p != 1 and (not p.is_Integer or p % 2):
                    out += p * self.form(sympy.log(b))
                elif p == 1 and not rest.is_Number:
                    out += self.log(b)
                else:
                    out += sympy.log(self.same("log", expand(rest)))
            return expand(out)
        if f is Phi:
            x = expand(a[0])
            m = self.same("Phi", x, even=True)
            return Phi(x) if m == x else (Phi(m) if self.zero(m - x) else 1 - Phi(m))
        if f is Pinv:
            x = expand(a[0] - sympy.Rational(1, 2))
            m = self.same("Pinv", x, even=True)
            return Pinv(m + sympy.Rational(1, 2)) if m == x or self.zero(m - x) else -Pinv(m + sympy.Rational(1, 2))
        if f in ODD:
            x = expand(a[0])
            m = self.same(f.__name__, x, even=True)
            return f(m) if m == x or self.zero(m - x) else -f(m)
        if f is cl.Bin and a[1].is_Integer and 0 <= a[1] <= (8 if self.polynomials else 1):
            low = self.least_of(a[0])
            if low is not None and low >= 0:
                return expand(sympy.Mul(*[a[0] - j for j in range(int(a[1]))]) / sympy.factorial(a[1]))
        if f is sympy.exp:
            return sympy.Mul(*[self.power_of_e(t) for t in sympy.Add.make_args(expand(a[0]))])
        if f is Ite:
            return self.case(*a)
        if f is MaxF:
            return self.largest(a)
        if f in (cl.Gt0, cl.Ge0, cl.Eq0):
            return f(self.same(f.__name__, expand(a[0])))
        if f in (cl.AndF, cl.OrF):
            return f(*sorted(a, key=sympy.default_sort_key))
        if f in (cl.Law, cl.Fun):
            return f(a[0], *[self.same((f.__name__, str(a[0]), j), expand(x)) for j, x in enumerate(a[1:])])
        return f(*[self.same((f.__name__, j), expand(x)) if not (f in OBS) else expand(x) for j, x in enumerate(a)])

    def power_of_e(self, t):
        if isinstance(t, sympy.log):
            return t.args[0]
        c, r = t.as_coeff_Mul()
        return sympy.exp(c * self.same("exp", r))

    def log(self, g):
        if g.is_Pow and g.args[1].is_Rational:
            return g.args[1] * self.log(g.args[0])
        if isinstance(g, sympy.exp):
            return g.args[0]
        return sympy.log(self.same("log", g))

    def case(self, c, a, b):
        while isinstance(c, cl.NotF):
            c, a, b = c.args[0], b, a
        if c in (sympy.true, sympy.false):
            return a if c == sympy.true else b
        if isinstance(c, (cl.Gt0, cl.Ge0)):
            if self.ordered(c.args[0]):
                return a
            if self.ordered(expand(-c.args[0])):
                return b
        if self.improbable(c):
            return b
        if self.improbable(cl.neg(c)) :
            return a
        a, b = self.given(a, c), self.given(b, cl.neg(c))
        by_size = self.by_size(Ite(c, a, b))
        if by_size is not None:
            return by_size
        for d, x, y in ((c, b, a), (cl.neg(c), a, b)):
            # where d holds the symbols have these values: the other case may cover it
            eqs = self.equations(d)
            if eqs is not None and self.equal(y.xreplace(eqs), x.xreplace(eqs)):
                return x
        return cl.ite(c, a, b)

    def by_size(self, e):
        """A chain of cases by the size, in a fixed order."""
        limits, leaves = set(), 0

        def limit(c):
            """The least size from which the condition changes, or None."""
            if not isinstance(c, (cl.Gt0, cl.Ge0)):
                return None
            x = sympy.expand(c.args[0])
            m = x.coeff(self.size, 1)
            r = sympy.expand(x - m * self.size)
            if m == 0 or not m.is_Rational or not r.is_Rational:
                return None
            z = -r / m
            f = sympy.floor(z)
            return (f + 1) if isinstance(c, cl.Gt0) == (m > 0) or z != f else f

        def holds(c, n):
            if isinstance(c, cl.NotF):
                return not holds(c.args[0], n)
            if isinstance(c, cl.AndF):
                return all(holds(x, n) for x in c.args)
            if isinstance(c, cl.OrF):
                return any(holds(x, n) for x in c.args)
            v = c.args[0].xreplace({self.size: n})
            return bool(v > 0 if isinstance(c, cl.Gt0) else v >= 0)

        def conds(c):
            if isinstance(c, (cl.NotF, cl.AndF, cl.OrF)):
                return all(conds(x) for x in c.args)
            t = limit(c)
            if t is None:
                return False
            limits.add(int(t))
            return True

        def scan(x):
            if isinstance(x, Ite) and conds(x.args[0]):
                scan(x.args[1])
                scan(x.args[2])

        def leaf(x, n):
            while isinstance(x, Ite) and conds(x.args[0]):
                x = x.args[1] if holds(x.args[0], n) else x.args[2]
            return x
        if not conds(e.args[0]):
            return None
        scan(e)
        out = None
        for t in [self.least] + sorted(x for x in limits if x > self.least):
            v = leaf(e, sympy.Integer(t))
            if out is None:
                out = [(t, v)]
            elif out[-1][1] != v:
                out.append((t, v))
        r = out[0][1]
        for t, v in out[1:]:
            r = Ite(cl.Ge0(self.size - t), v, r)
        return r

    def given(self, e, c):
        """e where c holds."""
        if not isinstance(e, sympy.Basic) or not e.atoms(*cl.CONDS):
            return e
        n = cl.neg(c)
        known = {c: sympy.true, n: sympy.false}

        def go(x):
            if x in known:
                return known[x]
            if not x.args or not x.atoms(*cl.CONDS):
                return x
            a = [go(y) for y in x.args]
            if x.func is cl.AndF:
                a = [y for y in a if y != sympy.true]
                return sympy.false if sympy.false in a else sympy.true if not a else a[0] if len(a) == 1 else cl.AndF(*a)
            if x.func is cl.OrF:
                a = [y for y in a if y != sympy.false]
                return sympy.true if sympy.true in a else sympy.false if not a else a[0] if len(a) == 1 else cl.OrF(*a)
            if x.func is Ite and a[0] in (sympy.true, sympy.false):
                return a[1] if a[0] == sympy.true else a[2]
            if x.func is cl.NotF and a[0] in (sympy.true, sympy.false):
                return sympy.false if a[0] == sympy.true else sympy.true
            return x.func(*a)
        return go(e)

    def least_of(self, e):
        """A lower bound of an integer term, or None."""
        e = sympy.expand(e)
        for m in e.atoms(MaxF):
            c = e.coeff(m, 1)
            rest = expand(e - c * m)
            if rest.has(m) or not c.is_number:
                return None
            alts = [self.least_of(rest + c * x) for x in m.args]
            if any(x is None for x in alts):
                # with a positive coefficient one large alternative is enough
                alts = [x for x in alts if x is not None]
                return max(alts) if alts and c > 0 else None
            return max(alts) if c > 0 else min(alts)
        for _ in range(4):
            for x in list(e.atoms(Fl)):
                c = e.coeff(x, 1)
                if not c.is_number or expand(e - c * x).has(x):
                    return None
                den = sympy.fraction(sympy.together(x.args[0]))[1]
                low = x.args[0] - 1 + 1 / den if den.is_Integer else x.args[0] - 1
                e = sympy.expand(e - c * x + c * (low if c > 0 else x.args[0]))
            for k in [k for k in e.free_symbols if k in self.ranges]:
                c = e.coeff(k, 1)
                if not c.is_number or expand(e - c * k).has(k):
                    return None
                e = sympy.expand(e - c * k + c * self.ranges[k][0 if c > 0 else 1])
        if e.is_number:
            return e
        c = e.coeff(self.size, 1)
        r = sympy.expand(e - c * self.size)
        return c * self.least + r if r.is_number and c.is_number and c >= 0 else None

    def ordered(self, e):
        """Whether e is the difference of two observations, the larger less the smaller."""
        a = sympy.Add.make_args(e)
        if len(a) != 2:
            return False
        for x, y in (a, a[::-1]):
            if x.func in (cl.O, cl.Op, cl.CO, cl.CLO) and -y == x.func(*(-y).args) and (-y).func is x.func:
                d = self.least_of(x.args[0] - (-y).args[0])
                if d is not None and d > 0:
                    return True
        return False

    def improbable(self, c):
        """An equation a continuous function of the observations satisfies for almost no sample."""
        if isinstance(c, cl.Eq0):
            e = c.args[0]
            return bool(e.atoms(*OBS) or e.free_symbols & set(self.values)) and not e.atoms(Fl, cl.Rnd, cl.Any, cl.Arg, Ite, cl.Sgn, cl.Gt0, cl.Ge0, MaxF, cl.Ost, sympy.Abs)
        if isinstance(c, cl.AndF):
            return any(self.improbable(x) for x in c.args)
        if isinstance(c, cl.OrF):
            return all(self.improbable(x) for x in c.args)
        return False

    def equations(self, c):
        if isinstance(c, cl.NotF):
            if isinstance(c.args[0], cl.OrF):
                c = cl.AndF(*[cl.neg(x) for x in c.args[0].args])
            else:
                return None
        out = {}
        for d in (c.args if isinstance(c, cl.AndF) else [c]):
            while isinstance(d, cl.NotF) and isinstance(d.args[0], cl.NotF):
                d = d.args[0].args[0]
            if not isinstance(d, cl.Eq0):
                return None
            e = d.args[0]
            s = list(e.free_symbols - {self.size})
            if len(s) != 1 or e.atoms(sympy.Function):
                return None
            m = expand(e).coeff(s[0], 1)
            r = expand(e - m * s[0])
            if m == 0 or r.has(s[0]):
                return None
            out[s[0]] = -r / m
        return out

    def largest(self, a):
        flat = []
        for x in a:
            flat += list(x.args) if x.func is MaxF else [expand(x)]
        common = set(sympy.Add.make_args(flat[0]))
        for x in flat[1:]:
            common &= set(sympy.Add.make_args(x))
        common.discard(ZERO)
        if common:
            m = sympy.Add(*common)
            return expand(m + self.largest([expand(x - m) for x in flat]))
        if len(flat) == 1:
            return flat[0]
        # the first or the last value of a longer maximum
        for m in list(flat):
            c, b = (m, None) if m.func is cl.Mx else m.as_independent(cl.Mx)
            for x in list(flat):
                if m.func is cl.Mx and x is not m:
                    body, k, lo, hi = m.args
                    before, after = body.xreplace({k: lo - 1}), body.xreplace({k: hi + 1})
                    r = None
                    if not before.has(sympy.nan) and self.equal(self.form(before), x):
                        r = cl.Mx(body.xreplace({k: k - 1}), k, lo, hi + 1)
                    elif self.equal(self.form(after), x):
                        r = cl.Mx(body, k, lo, hi + 1)
                    if r is not None:
                        flat.remove(m)
                        flat.remove(x)
                        flat.append(self.form(r))
                        return self.largest(flat)
        flat = [expand(x) for x in flat]
        # a positive factor shared by all
        common = set(sympy.Mul.make_args(flat[0]))
        for x in flat[1:]:
            common &= set(sympy.Mul.make_args(x))
        common = [x for x in common if self.positive(x)]
        if common:
            m = sympy.Mul(*common)
            return expand(m * self.largest([x / m for x in flat]))
        flat.sort(key=sympy.default_sort_key)
        ints = [sum((t for t in sympy.Add.make_args(x) if t.is_Number), ZERO) for x in flat]
        z = min(ints)
        return expand(z + cl.norm_maxf([x - z for x in flat])) if z != 0 else cl.norm_maxf(flat)

    def binder(self, e):
        f = e.func
        body, k, lo, hi, *more = e.args
        lo, hi = self.form(lo), self.form(hi)
        self.ranges[k] = (lo, hi)
        body = self.form(body)
        more = [self.form(x) for x in more]
        if f is Sg:
            return self.sums(body, k, lo, hi)
        if f is cl.Mx:
            r = self.maximum(body, k, lo, hi)
        else:
            if f in (cl.Pd, cl.Ost):
                body, hi = self.shifted(body, k, lo, hi)
                lo = ZERO
            r = cl.named(f, body, k, lo, hi, *more)
        return self.bound(r)

    def shifted(self, body, k, lo, hi):
        if lo != 0:
            body = self.form(body.xreplace({k: k + lo}))
            hi = expand(hi - lo)
        idx = [o.args[0] for o in body.atoms(*OBS) if o.args[0].has(k)]
        cs = {expand(i).coeff(k, 1) for i in idx}
        if cs == {-ONE}:
            body = self.form(body.xreplace({k: hi - k}))
        return self.symmetric(expand(body), k, hi), hi

    def symmetric(self, body, k, hi):
        if sympy.expand(hi - self.total + 1) != 0:
            return body
        for r, o in ((cl.R, cl.O), (cl.Rp, cl.Op), (cl.CR, cl.CO), (cl.CLR, cl.CLO)):
            if body.has(r(k)) and not body.xreplace({r(k): sympy.Symbol("_z")}).has(k):
                return body.xreplace({r(k): o(k)})
        return body

    def maximum(self, body, k, lo, hi):
        body, hi = self.shifted(body, k, lo, hi)
        c, b = expand(body).as_independent(k, as_Add=True)
        if b == 0:
            return c
        m = ONE
        if b.is_Mul:
            m, b = b.as_independent(k, as_Add=False)
            if not self.positive(m):
                if self.positive(-m):
                    m, b = -m, -b
                else:
                    m, b = ONE, m * b
        # a maximum of the ordered sample itself
        for o in b.atoms(cl.O, cl.Op, cl.CO, cl.CLO):
            if o.args[0] == k:
                for g in (o, sympy.log(o)):
                    if b == g:
                        return expand(c + m * g.xreplace({k: hi}))
                    if b == -g:
                        return expand(c - m * g.xreplace({k: ZERO}))
        return expand(c + m * cl.named(cl.Mx, b, k, ZERO, hi))

    def bound(self, r):
        """Each binder in r replaced by one met before with the same bounds and an equal body."""
        for b in [x for x in sympy.preorder_traversal(r) if x.func in (cl.Mx, cl.Pd, cl.Ost, cl.Arg)][:1]:
            body, k, lo, hi, *more = b.args
            row = self.seen.setdefault(b.func.__name__, [])
            for o in row:
                if o == b:
                    return r
                ob, ok, olo, ohi, *omore = o.args
                if len(omore) == len(more) and all(self.equal(x, y) for x, y in zip([lo, hi] + more, [olo, ohi] + omore)) and self.equal(body, ob.xreplace({ok: k})):
                    return r.xreplace({b: o})
            row.append(b)
        return r

    def sums(self, body, k, lo, hi):
        k0 = sympy.Dummy("k", integer=True, nonnegative=True)
        body = body.xreplace({k: k0})
        if lo != 0:
            body = self.form(body.xreplace({k0: k0 + lo}))
            hi, lo = expand(hi - lo), ZERO
        if expand(hi).is_Integer and hi < 12:
            return expand(sympy.Add(*[self.form(body.xreplace({k0: sympy.Integer(j)})) for j in range(int(hi) + 1)]))
        if body.has(cl.Bin):
            # terms that vanish at the ends
            for _ in range(12):
                if expand(hi).is_number or self.form(body.xreplace({k0: ZERO})) != 0:
                    break
                body, hi = self.form(body.xreplace({k0: k0 + 1})), expand(hi - 1)
            for _ in range(12):
                if expand(hi).is_number or self.form(body.xreplace({k0: hi})) != 0:
                    break
                hi = expand(hi - 1)
        out = ZERO
        for t in sympy.Add.make_args(expand(body)):
            c, b = t.as_independent(k0, as_Add=False)
            if b == 1:
                out += c * (hi + 1)
                continue
            if b.is_polynomial(k0):
                out += c * sympy.expand(sympy.summation(b, (k0, 0, hi)))
                continue
            idx = [o.args[0] for o in b.atoms(*OBS) if o.args[0].has(k0)]
            if {expand(i).coeff(k0, 1) for i in idx} == {-ONE}:
                nb = expand(self.form(b.xreplace({k0: hi - k0})))
                if len(sympy.Add.make_args(nb)) > 1 or nb.as_independent(k0, as_Add=False)[0] != 1:
                    out += c * self.sums(nb, k0, ZERO, hi)
                    continue
                b = nb
            at = self.offset(b, k0, hi)
            if at:
                # a polynomial times one of the last observations: over all of them less the first ones
                nb = expand(self.form(b.xreplace({k0: k0 - at})))
                out += c * self.sums(nb, k0, ZERO, expand(hi + at))
                out -= c * sympy.Add(*[self.form(nb.xreplace({k0: sympy.Integer(j)})) for j in range(int(at))])
                continue
            out += c * self.single(cl.named(Sg, self.symmetric(b, k0, hi), k0, ZERO, hi))
        return expand(out)

    def offset(self, b, k, hi):
        obs = [o for o in b.atoms(*OBS) if o.args[0].has(k)]
        if len(obs) != 1 or not b.xreplace({obs[0]: sympy.Symbol("_o")}).is_polynomial(k):
            return 0
        at = expand(obs[0].args[0] - k)
        return at if at.is_Integer and 0 < at < 12 and expand(hi + at - self.total + 1) == 0 else 0

    def single(self, s):
        """One sum: equal to one met before, or a central moment."""
        body, k, lo, hi = s.args
        if body.func in (cl.CO, cl.CLO) and body.args[0] == k and sympy.expand(hi - self.total + 1) == 0:
            return ZERO
        if not any(is_index(x) for x in s.free_symbols - {k} - cl.bound_inside(s)):
            r = self.power(body)
            if r is not None:
                b, m = r
                first = self.sums(b, k, lo, hi)
                n = hi + 1
                out = ZERO
                for j in range(m + 1):
                    out += sympy.binomial(m, j) * self.moment(first, b, k, hi, m - j) * (first / n) ** j
                return expand(n * out)
        row = self.seen.setdefault("sum", [])
        s2, back, _ = self.renamed(s)
        for o, _ in row:
            if o == s2:
                return s
        body, k, lo, hi = s2.args
        h = self.mark(s2)
        for o, g in row:
            ob, ok, _, ohi = o.args
            if (h is None or self.near(h, g)) and self.equal(ohi, hi) and self.equal(body, ob.xreplace({ok: k})):
                return o.xreplace(back)
        row.append((s2, h))
        return s

    @staticmethod
    def power(body):
        g = 0
        for x in sympy.Mul.make_args(body):
            b, p = x.as_base_exp()
            if isinstance(x, sympy.exp) or not p.is_Integer or p < 0:
                return None
            g = math.gcd(g, int(p))
        if g < 2:
            return None
        return sympy.Mul(*[x.as_base_exp()[0] ** (x.as_base_exp()[1] / g) for x in sympy.Mul.make_args(body)]), g

    def moment(self, first, b, k, hi, m):
        if m < 2:
            return ONE if m == 0 else ZERO
        key = (b.xreplace({k: sympy.Symbol("_k")}), hi, m)
        s = self.moments.get(key)
        if s is None:
            for (ob, ohi, om), o in self.moments.items():
                if om == m and self.equal(ohi, hi) and self.equal(ob, key[0]):
                    s = o
                    break
            else:
                s = sympy.Symbol(f"m{m}_{len(self.moments)}", real=True, positive=True if m % 2 == 0 else None)
                self.values[s] = Sg((b - first / (hi + 1)) ** m, k, ZERO, hi) / (hi + 1)
            self.moments[key] = s
        return s


HALF = sympy.Symbol("h", positive=True, integer=True)


def halves(e, odd):
    """e for the sizes n = 2 h or 2 h + 1."""
    r = e.xreplace({N: 2 * HALF + odd})
    for _ in range(4):
        known = {}
        for f in r.atoms(Fl, cl.Eq0):
            x = sympy.expand(f.args[0])
            if x.free_symbols <= {HALF}:
                c = x.coeff(HALF, 1)
                d = sympy.expand(x - c * HALF)
                if isinstance(f, Fl) and c.is_Integer and d.is_Rational:
                    known[f] = c * HALF + sympy.floor(d)
                elif isinstance(f, cl.Eq0) and x.is_Number:
                    known[f] = sympy.true if x == 0 else sympy.false
        if not known:
            break
        r = r.xreplace(known)
    return r


MU = sympy.Symbol("mu_", real=True)


def centred(e):
    """e over the observations less their mean (of their logarithms, where only these occur)."""
    logs = e.atoms(cl.Rp, cl.Op)
    if logs:
        e2 = e.replace(lambda x: isinstance(x, sympy.log) and x.args[0].func in (cl.Rp, cl.Op),
                       lambda x: (cl.CLR if x.args[0].func is cl.Rp else cl.CLO)(x.args[0].args[0]) + MU)
        return None if e2.atoms(cl.Rp, cl.Op) else e2
    return e.replace(lambda x: x.func in (cl.R, cl.O), lambda x: (cl.CR if x.func is cl.R else cl.CO)(x.args[0]) + MU)


def congruent(a, b, points, seconds=60):
    """Whether a and b are equal, provably: over all sizes, or over the even and the odd ones."""
    a, b = sympy.sympify(a), sympy.sympify(b)
    if over(a, b, points, seconds / 4):
        return True
    if (a - b).has(cl.Bin) and over(a, b, points, seconds / 4, True):
        return True
    c, d = centred(a), centred(b)
    if c is None or d is None:
        return False
    import numpy as np
    for p in points:
        p.env[MU] = float(np.mean(np.log(p.raw) if (c - d).atoms(cl.CLR, cl.CLO) else p.raw))
    return over(c, d, points, seconds)


def over(a, b, points, seconds, polynomials=False):
    half = any(sympy.expand(2 * f.args[0]).coeff(N, 1) == 1 for f in (a - b).atoms(Fl))
    until = time.monotonic() + seconds

    def same(g, a, b):
        g.until = until
        return g.zero(expand(g.form(a) - g.form(b)))
    try:
        if not half:
            return cl.within(seconds, same, Congruence(points, polynomials=polynomials), a, b)
        for odd in (0, 1):
            mine = []
            for p in points:
                if p.n % 2 == odd:
                    p.env[HALF] = p.n // 2
                    mine.append(p)
            g = Congruence(mine, HALF, NMIN // 2, 2 * HALF + odd, polynomials)
            if not cl.within(max(until - time.monotonic(), .1), same, g, halves(a, odd), halves(b, odd)):
                return False
        return True
    except (cl.Slow, Late, RecursionError):
        return False
    except (sympy.PolynomialError, sympy.CoercionFailed, TypeError, ValueError, AttributeError, KeyError, ZeroDivisionError, OverflowError):
        return False             # a term the algebra does not cope with proves nothing


class Late(Exception):
    pass
