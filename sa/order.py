"""Orders of symbolic quantities: the cells of a hyperplane arrangement.

A program that only compares the quantities T = {t1..tk} (linear in the inputs) behaves the same on all inputs for which
the quantities are ordered in the same way.  A cell is one such order; comparisons of differences that are not of
the arrangement are left open."""
from __future__ import annotations

import itertools

import sympy


def linear(t, syms):
    """Coefficients (floats) of a linear expression, the constant last; None when it is not linear."""
    try:
        t = sympy.expand(t)
        if t.free_symbols - set(syms):
            return None
        out = []
        rest = t
        for s in syms:
            k = t.coeff(s, 1)
            if k.free_symbols:
                return None
            out.append(float(k))
            rest = rest - k * s
        rest = sympy.expand(rest)
        if rest.free_symbols:
            return None
        out.append(float(rest))
        return tuple(out)
    except Exception:
        return None


def norm(v):
    """A hyperplane up to scale and sign: (key, sign); key None for the zero form."""
    m = max(abs(x) for x in v)
    if m < 1e-9:
        return None, 0
    for x in v:
        if abs(x) > 1e-9 * max(1, m):
            s = 1 if x > 0 else -1
            d = abs(x)
            break
    return tuple(round(x / d * s, 6) + 0.0 for x in v), s


class Arrangement:
    def __init__(self, syms, terms, pinned=()):
        self.syms = list(syms)
        self.planes = {}
        for a, b in itertools.combinations(list(terms), 2):
            v = linear(a - b, self.syms)
            if v is None:
                continue
            k, s = norm(v)
            if k is not None and any(abs(x) > 1e-9 for x in v[:-1]):
                self.planes.setdefault(k, v)

    def cell(self, point):
        """The cell (sign of every plane) a rational point lies in."""
        out = {}
        for k in self.planes:
            x = sum(c * float(point[s]) for c, s in zip(k, self.syms)) + k[-1]
            out[k] = 0 if abs(x) < 1e-9 else (1 if x > 0 else -1)
        return out

    def cells(self, points):
        seen = {}
        for p in points:
            c = self.cell(p)
            key = tuple(sorted(c.items()))
            if key not in seen:
                seen[key] = Cell(self, c, p)
        return list(seen.values())


class Cell:
    def __init__(self, arr, signs, example):
        self.arr, self.signs, self.example = arr, signs, example

    def __call__(self, a, b):
        v = linear(a - b, self.arr.syms)
        if v is None:
            return None
        if all(abs(x) < 1e-9 for x in v[:-1]):
            return 0 if abs(v[-1]) < 1e-9 else (1 if v[-1] > 0 else -1)
        k, s = norm(v)
        sg = self.signs.get(k)
        return None if sg is None else sg * s

    def text(self):
        return ", ".join(f"{k}={v}" for k, v in self.example.items())


class Valuation:
    """Orders given by one rational point of a cell: decides every comparison of terms over it."""

    def __init__(self, values, prep=None):
        self.values, self.prep = values, prep
        self.memo = {}

    def value(self, t):
        if t not in self.memo:
            self.memo[t] = self._value(t)
        return self.memo[t]

    def _value(self, t):
        try:
            t = sympy.sympify(t)
            if self.prep is not None:
                t = self.prep(t)
            t = sympy.nsimplify(t, rational=True) if t.has(sympy.Float) else t
            t = t.xreplace(self.values)
            t = t.doit()
            if t.free_symbols or t.atoms(sympy.core.function.AppliedUndef):
                return None
            return t if t.is_Rational else sympy.Rational(str(t.evalf(30)))
        except Exception:
            return None

    def __call__(self, a, b):
        x, y = self.value(a), self.value(b)
        if x is None or y is None:
            return None
        return int(bool(x > y)) - int(bool(x < y))
