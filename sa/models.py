"""What the analyser knows about Python's builtins, numpy, scipy and the other libraries used.

Each entry says how a library operation propagates the facets of abstract values; none of it is
run.  An operation that is not listed keeps data dependence and gives up everything else.
"""
from __future__ import annotations

import importlib.util
import math
import re
import string as string_module
import struct

import sympy

from . import laws
from .values import (KV, NO_AX, ax_get, ax_merge, ax_sum, AV, BOOL, BYTES, C, F0, INF, NONE, NUM, STR, TOP_IV, UNK, EnumMember, Facets, Obj, OrdVal,
                     boolean, comb_ord, const, join, join_facets, join_ord, num, set_term_const, string, unk)

N_SYM = sympy.Symbol("n", positive=True, integer=True)
X_SYM = sympy.Symbol("x", real=True)
EDGE_SYM = sympy.Symbol("x_edge", real=True)   # a position on the axis of the observations (bin edges)
F_SYM = sympy.Symbol("F", nonnegative=True)

_CONST_CACHE = {}


def _term_const(v):
    k = (type(v), v)
    t = _CONST_CACHE.get(k)
    if t is None:
        try:
            if isinstance(v, int):
                t = sympy.Integer(v)
            elif math.isfinite(v):
                t = sympy.Rational(repr(v))
            else:
                t = sympy.oo if v > 0 else (-sympy.oo if v < 0 else sympy.nan)
        except Exception:
            t = None
        _CONST_CACHE[k] = t
    return t


set_term_const(_term_const)


# every observation compared with one of them: whether all are equal does not depend on which one
EQUALS_ONE, DIFFERS_FROM_ONE = sympy.Symbol("equals_one"), sympy.Symbol("differs_from_one")


def param_term(name):
    return sympy.Symbol(name, positive=True)


# ---------------------------------------------------------------------- names
_ALIAS = {
    "np": "numpy", "scipy.stats.distributions": "scipy.stats", "scipy.stats._continuous_distns": "scipy.stats",
    "scipy.special.psi": "scipy.special.digamma", "numpy.core": "numpy",
    "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs",
    "numpy.round_": "numpy.round", "numpy.around": "numpy.round", "builtins.round": "builtins.round",
    "numpy.true_divide": "numpy.divide", "numpy.asanyarray": "numpy.asarray", "numpy.asfarray": "numpy.asarray",
    "numpy.ascontiguousarray": "numpy.asarray", "numpy.float_power": "numpy.power", "numpy.float_": "numpy.float64",
    "scipy.stats.moment": "scipy.stats.moment",
}


def canon(d):
    if d in _ALIAS:
        return _ALIAS[d]
    for k, v in _ALIAS.items():
        if d.startswith(k + "."):
            return canon(v + d[len(k):]) if v + d[len(k):] != d else d
    return d


_EXT_CONST = {
    "numpy.pi": (math.pi, sympy.pi), "math.pi": (math.pi, sympy.pi), "numpy.e": (math.e, sympy.E),
    "math.e": (math.e, sympy.E), "numpy.inf": (math.inf, None), "math.inf": (math.inf, None),
    "numpy.nan": (math.nan, None), "math.nan": (math.nan, None), "numpy.euler_gamma": (0.5772156649015329, None),
    "numpy.newaxis": (None, None), "math.tau": (math.tau, 2 * sympy.pi), "sys.maxsize": (2 ** 63 - 1, None),
    "numpy.Inf": (math.inf, None), "scipy.pi": (math.pi, sympy.pi),
}


def ext_value(d):
    d = canon(d)
    c = _EXT_CONST.get(d)
    if c is not None:
        v = const(c[0])
        return v.but(term=c[1]) if c[1] is not None else v
    return AV(frozenset({("x", d)}))


def is_installed(name):
    try:
        return importlib.util.find_spec(name) is not None or name in (
            "numpy", "scipy", "pandas", "sqlalchemy", "dotenv", "zstandard", "typing_extensions", "networkx")
    except Exception:
        return False


def t_neg(t):
    return None if t is None else -t


# ---------------------------------------------------------------------- helpers
ARR = ("array", "sample", "list", "range", "gen", "set", "zip", "enumerate")
DROP = ("none-return", "none-fall", "exc")


def clean(facts):
    if not facts:
        return facts
    return frozenset(x for x in facts if x[0] not in DROP)


def is_list(I, v, st):
    return I.list_operand(v, st)


def is_arr(I, v, st):
    return any(o.kind in ARR for _, o in I.objs(v, st)) or v.has("t")


def maybe_arr(I, v, st):
    return is_arr(I, v, st) or UNK in v.atoms or (v.f.rank is None and NUM in v.atoms and False)


def length(I, v, st):
    """The length of an array-like value as an abstract number, or None."""
    os_ = I.objs(v, st)
    if len(os_) == 1 and len(v.atoms) == 1:
        o = os_[0][1]
        if o.elems is not None and o.kind in ("list", "array", "set", "gen", "range", "dict"):
            return const(len(o.elems))
        if o.kind == "dict" and o.extra == "closed" and o.elem is None and not any(("missing",) in x.atoms for x in o.attrs.values()):
            return const(len(o.attrs))
        if "len" in o.attrs and o.kind in ARR:
            return o.attrs["len"]
        if o.kind == "sample" or (o.f.ord in ("E", "M", "R") and o.kind in ("array",) and o.f.rank == 1):
            return num(Facets(deps=frozenset({"sample-size"}) if "sample" in o.f.deps else o.f.deps, rank=0,
                              term=N_SYM, iv=(0, INF, False), py=True))
    if len(v.atoms) == 1 and v.has("t"):
        return const(len(v.single()[1]))
    return None


def combine(I, avs, st, node=None, fr=None, what="an elementwise operation"):
    """Facets of an elementwise combination."""
    f = None
    py = True
    facts = frozenset()
    ax = NO_AX
    own = None          # behaviour along the common axis of the array operands
    loose = "I"         # scalars that vary with a loop nobody tracks
    vague = False
    wit = None
    rank = 0
    deps = frozenset()
    bad = None
    for v in avs:
        x = I.eff(v, st)
        isarr = is_arr(I, v, st)
        py = py and x.py and not isarr
        deps |= I.eff_deps(v, st) if isarr else x.deps
        facts |= clean(x.facts)
        wit = wit or x.wit
        rank = None if (rank is None or x.rank is None) else max(rank, x.rank)
        f = f or x
        if x.ord in ("X", "U"):
            bad = "X" if "X" in (bad, x.ord) else "U"
        n = ax_merge(ax, x.ax, comb_ord)
        if any(o == "X" for _, o in n) and not any(o == "X" for _, o in ax) and not any(o == "X" for _, o in x.ax):
            wit = (f"{what} pairs values in the caller's order with values by position",
                   I.site(node, fr) if node is not None else None)
            bad = "X"
        ax = n
        if isarr or (x.rank != 0 and UNK in v.atoms):
            if x.rank is None or x.rank >= 2:
                vague = True
            if own is None:
                own = x.ord
            else:
                o = comb_ord(own, x.ord)
                if o == "X" and "X" not in (own, x.ord):
                    if vague:
                        o = "U"
                    else:
                        wit = (f"{what} pairs values in the caller's order with values by position",
                               I.site(node, fr) if node is not None else None)
                own = o
        elif not x.ax and x.ord != "I":
            o = comb_ord(loose, x.ord)
            loose = "U" if o == "X" and "X" not in (loose, x.ord) else o
    if f is None:
        return F0
    if bad == "X" or own == "X":
        o = "X"
    elif bad == "U" or own == "U":
        o = "U"
    else:
        base = own if own is not None else ax_sum(ax)
        o = comb_ord(base, loose) if loose != "I" else base
        if o == "X" and base != "X":
            o = "U"
    return Facets(deps=deps, ord=o, rank=rank, facts=facts, wit=wit, py=py, ax=ax)


def arr(I, node, fr, st, f, length_=None, tag="", elems=None, roots=frozenset(), elem=None):
    attrs = {"len": length_} if length_ is not None else {}
    return I.new("array", node, fr, st, f=f.but(idx=None, py=False, rank=f.rank if f.rank else 1), attrs=attrs,
                 tag="array" + tag, elems=elems, roots=roots, elem=elem)


def ewise(I, avs, st, node, fr, what="an elementwise operation", term=None, iv=TOP_IV, boolres=False, py=None):
    """Result value of an elementwise operation over avs."""
    f = combine(I, avs, st, node, fr, what)
    f = f.but(term=term, iv=iv)
    if any(is_arr(I, v, st) for v in avs):
        ln = None
        for v in avs:
            if is_arr(I, v, st):
                x = length(I, v, st)
                if x is not None and (ln is None or ln == x):
                    ln = x
        return arr(I, node, fr, st, f, ln)
    if any(UNK in v.atoms or v.has("xb") for v in avs):
        return unk(f.but(py=False))
    f = f.but(py=f.py if py is None else py)
    if boolres:
        return boolean(f)
    return num(f)


def reduce_(I, v, st, node, fr, iv=TOP_IV, axis=False, py=False, what="reduction", boolres=False):
    """A symmetric reduction (sum, mean, max, ...)."""
    f = I.eff(v, st)
    deps = I.eff_deps(v, st)
    o = f.ord
    two = f.rank is not None and f.rank >= 2
    if (is_arr(I, v, st) or (f.rank != 0 and v.atoms & {UNK, NUM})) and o in ("I", "E", "P", "M", "R"):
        o = ax_sum(f.ax)
    nf = Facets(ax=f.ax, deps=deps, ord=o, rank=0, facts=clean(f.facts) - {("pair",)}, wit=f.wit, iv=iv, py=py)
    if axis and two:
        nf = nf.but(ord="U" if f.ord not in ("I", "X") else f.ord, rank=None)
        return arr(I, node, fr, st, nf.but(rank=1))
    if axis and f.rank is None:
        return unk(nf.but(ord="U" if f.ord not in ("I", "X") else f.ord, rank=None))
    return boolean(nf) if boolres else num(nf)


def constant_sample(I, v, leaf, st):
    """all(x == x[0]) or any(x != x[0])."""
    t = EQUALS_ONE if leaf == "all" else DIFFERS_FROM_ONE if leaf == "any" else None
    e = I.elem_of(v, st)
    return t is not None and (I.eff(v, st).term == t or e is not None and e.f.term == t)


def fail(I, kind, msg, node, fr, st, exc="builtins.TypeError", key=None, definite=True):
    I.issue(kind, msg, node, fr, key=key or f"{msg} in {fr.name}", definite=definite)
    I.do_raise(AV(frozenset({("x", exc)})), st, node, fr)
    from .interp import Dead
    raise Dead()


def raise_quiet(I, exc, node, fr, st):
    I.do_raise(AV(frozenset({("x", exc)})), st, node, fr)
    from .interp import Dead
    raise Dead()


# ---------------------------------------------------------------------- operators
def _iv_mul(a, b):
    xs = []
    for x in a[:2]:
        for y in b[:2]:
            if (x == 0 and math.isinf(y)) or (y == 0 and math.isinf(x)):
                xs.append(0)
            else:
                xs.append(x * y)
    return min(xs), max(xs)


def iv_op(op, a, b, indep):
    t = a[2] and b[2] and indep
    try:
        if op == "Add":
            lo, hi = a[0] + b[0], a[1] + b[1]
        elif op == "Sub":
            lo, hi = a[0] - b[1], a[1] - b[0]
        elif op == "Mult":
            lo, hi = _iv_mul(a, b)
        elif op == "Div":
            if b[0] > 0 or b[1] < 0:
                r = (1 / b[1] if b[1] and not math.isinf(b[1]) else 0.0, 1 / b[0] if not math.isinf(b[0]) else 0.0)
                lo, hi = _iv_mul(a, (min(r), max(r)))
            else:
                return TOP_IV
        elif op == "Pow":
            if a[0] >= 0 and a[1] <= 1 and b[0] >= 0:
                return (0 if b[1] > 0 else 1, 1, t and b[0] > 0)
            if a[0] >= 0:
                return (0, INF, False)
            if b[0] == b[1] == 2:
                return (0, INF, False)
            return TOP_IV
        elif op == "Mod":
            if b[0] > 0:
                return (0, b[1], False)
            return TOP_IV
        elif op == "FloorDiv":
            if a[0] >= 0 and b[0] > 0:
                return (0, INF, False)
            return TOP_IV
        else:
            return TOP_IV
    except (OverflowError, ZeroDivisionError):
        return TOP_IV
    if lo != lo or hi != hi:
        return TOP_IV
    return (lo, hi, bool(t))


def term_op(op, a, b):
    if a is None or b is None:
        return None
    try:
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "Div":
            if b == 0:
                return None
            return a / b
        if op == "Pow":
            if b.is_number and (abs(b) > 64):
                return None
            return a ** b
    except Exception:
        return None
    return None


_PYOP = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "Div": lambda a, b: a / b,
    "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b, "Pow": lambda a, b: a ** b,
    "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b,
    "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b,
}


def pyscalar(I, v, st):
    """Certainly a plain Python number."""
    return bool(v.atoms) and all(
        (a[0] == "c" and isinstance(a[1].v, (int, float))) or a[0] in ("n", "B") for a in v.atoms) and v.f.py


def nonnone(v):
    """Drop None (an operation on it raises)."""
    if len(v.atoms) > 1:
        keep = frozenset(a for a in v.atoms if not (a[0] == "c" and a[1].v is None) and a[0] != "missing")
        if keep and keep != v.atoms:
            return AV(keep, v.f)
    return v


def formatted(I, text, given, vs, st, percent=False):
    """"...".format(...) and "..." % ...: the text when it and what is put in are known."""
    deps, facts = frozenset(), frozenset()
    for v in vs:
        deps |= I.eff_deps(v, st)
        facts |= I.eff_facts(v, st)
    f = Facets(deps=deps, facts=facts, rank=0)

    def shown(v, spec="", conv="s"):
        c, x = v.const()
        if not c or not isinstance(x, (str, int, float, EnumMember)):
            return None
        try:
            if percent:
                return spec % x if spec != "%s" else str(x)
            if not spec:
                return repr(x) if conv == "r" else str(x)
            return format(x, spec) if not isinstance(x, EnumMember) and "{" not in spec and conv in (None, "") else None
        except (ValueError, TypeError):
            return None
    out, at = [], 0
    if given is None:
        return string(f)
    if percent:
        for i, part in enumerate(re.split(r"(%%|%[-+ 0#]*\d*(?:\.\d+)?[sdfgGeExr])", text)):
            if i % 2 == 0:
                if "%" in part:
                    return string(f)
                out.append(part)
            elif part == "%%":
                out.append("%")
            else:
                x = shown(given[at], part) if at in given else None
                if x is None:
                    return string(f)
                out.append(x)
                at += 1
    else:
        try:
            fields = list(string_module.Formatter().parse(text))
        except ValueError:
            return string(f)
        for lit, name, spec, conv in fields:
            out.append(lit)
            if name is None:
                continue
            if name == "":
                name, at = at, at + 1
            elif name.isdigit():
                name = int(name)
            x = shown(given[name], spec, conv) if name in given and conv in (None, "s", "r") else None
            if x is None:
                return string(f)
            out.append(x)
    return AV(frozenset({("c", C("".join(out)))}), f)


def binop(I, op, a, b, node, st, fr):
    a, b = nonnone(a), nonnone(b)
    ca, va = a.const()
    cb, vb = b.const()
    if ca and cb:
        if va is None or vb is None:
            fail(I, "type-error", f"operation {op} on None", node, fr, st)
        if isinstance(va, (int, float)) and isinstance(vb, (int, float)):
            big = op in ("Pow", "LShift") and (abs(vb) > 200 or abs(va) > 10 ** 6)
            if not big:
                try:
                    r = _PYOP[op](va, vb)
                    if not isinstance(r, complex):
                        out = const(r)
                        if isinstance(r, float):
                            t = term_op(op, a.f.term, b.f.term)
                            if t is not None:
                                out = out.but(term=t)
                        return out.but(deps=a.f.deps | b.f.deps, facts=clean(a.f.facts | b.f.facts))
                except ZeroDivisionError:
                    fail(I, "zero-division", "division by a constant zero", node, fr, st, "builtins.ZeroDivisionError")
                except Exception:
                    pass
        if isinstance(va, str) and isinstance(vb, str) and op == "Add":
            return AV(frozenset({("c", C(va + vb))}), Facets(rank=0, deps=a.f.deps | b.f.deps))
        if isinstance(va, str) and op == "Mult" and isinstance(vb, int) and abs(vb) < 100:
            return const(va * vb)
    # strings
    if op == "Mod" and ca and isinstance(va, str):
        items = I.known_elems(b, st) if any(x[0] == "t" for x in b.atoms) else [b]
        return formatted(I, va, None if items is None else {i: x for i, x in enumerate(items)}, [b], st, percent=True)
    if a.has("s") or (ca and isinstance(va, str)) or b.has("s") or (cb and isinstance(vb, str)):
        f = Facets(deps=I.eff_deps(a, st) | I.eff_deps(b, st), facts=clean(I.eff_facts(a, st) | I.eff_facts(b, st)), rank=0)
        astr = a.has("s") or (ca and isinstance(va, str))
        bstr = b.has("s") or (cb and isinstance(vb, str))
        if op == "Add" and ((astr and pyscalar(I, b, st)) or (bstr and pyscalar(I, a, st))):
            fail(I, "type-error", "string concatenated with a number", node, fr, st)
        return string(f)
    # tuples and lists
    ta, tb = a.single(), b.single()
    if op == "Add" and ta and tb and ta[0] == "t" and tb[0] == "t":
        return AV(frozenset({("t", ta[1] + tb[1])}), join_facets(a.f, b.f))
    if op == "Mult" and ta and ta[0] == "t" and cb and isinstance(vb, int) and 0 <= vb * len(ta[1]) <= 200:
        return AV(frozenset({("t", ta[1] * vb)}), a.f)
    la, lb = is_list(I, a, st), is_list(I, b, st)
    if op == "Add" and la and lb:
        ka, kb = I.known_elems(a, st), I.known_elems(b, st)
        fa, fb = I.eff(a, st), I.eff(b, st)
        o = concat_ord([fa.ord, fb.ord])
        f = fa.but(deps=fa.deps | fb.deps, ord=o, facts=clean(fa.facts | fb.facts), wit=fa.wit or fb.wit, term=None, iv=join_iv(fa, fb))
        if ka is not None and kb is not None:
            return I.new("list", node, fr, st, f=f, elems=tuple(ka + kb))
        return I.new("list", node, fr, st, f=f, elem=join(I.elem_of(a, st), I.elem_of(b, st)))
    for l, other, lv, ov in ((la, lb, a, b), (lb, la, b, a)):
        if l and op == "Mult" and not other and (pyscalar(I, ov, st) or ov.f.py):
            cc, n = ov.const()
            if cc and isinstance(n, float):
                fail(I, "type-error", "a list is multiplied by a float", node, fr, st)
            fl = I.eff(lv, st)
            k = I.known_elems(lv, st)
            if k is not None and cc and isinstance(n, int) and 0 <= len(k) * n <= 400:
                return I.new("list", node, fr, st, f=fl, elems=tuple(k * n))
            if any(o.kind == "sample" for _, o in I.objs(lv, st)):
                fl = fl.but(ord="U")
            f = fl.but(deps=fl.deps | ov.f.deps)
            ln = ov if k is not None and len(k) == 1 else None
            return I.new("list", node, fr, st, f=f, elem=I.elem_of(lv, st), attrs={"len": ln} if ln is not None else {})
        if l and not other and op in ("Sub", "Div", "Pow", "FloorDiv", "Add", "Mod") and pyscalar(I, ov, st):
            fail(I, "type-error", f"a list is combined with a number by {op}", node, fr, st,
                 key=f"list {op} number in {fr.name}")
    if la and lb and op in ("Sub", "Div", "Pow", "FloorDiv", "Mult", "Mod"):
        fail(I, "type-error", f"two lists are combined by {op}", node, fr, st, key=f"list {op} list in {fr.name}")
    # dict | dict, set ops
    da = [o for _, o in I.objs(a, st) if o.kind in ("dict", "set")]
    db = [o for _, o in I.objs(b, st) if o.kind in ("dict", "set")]
    if da and db and op in ("BitOr", "BitAnd", "Sub", "BitXor"):
        if da[0].kind == "dict":
            return I.new("dict", node, fr, st, f=join_facets(da[0].f, db[0].f), attrs={**da[0].attrs, **db[0].attrs},
                         elem=join(da[0].elem, db[0].elem), extra=da[0].extra if da[0].extra == db[0].extra else unk())
        r = set_op(op, I.known_elems(a, st), I.known_elems(b, st))
        if r is not None:
            return I.new("set", node, fr, st, f=join_facets(I.eff(a, st), I.eff(b, st)), elems=tuple(r))
        return I.new("set", node, fr, st, f=join_facets(I.eff(a, st), I.eff(b, st)), elem=join(I.elem_of(a, st), I.elem_of(b, st)))
    # enum / class type unions in annotations
    if op == "BitOr" and (a.has("k") or b.has("k") or a.has("x") or b.has("x")):
        return AV(frozenset({("t", (a, b))}))
    # user-defined operators
    for x, y, meth in ((a, b, _DUNDER.get(op)), (b, a, _RDUNDER.get(op))):
        if meth is None:
            continue
        for oid, o in I.objs(x, st):
            if o.kind == "inst":
                c, m = o.cls.lookup(meth)
                if m is not None:
                    return I.call(I.bind(m, AV(frozenset({("r", oid)})), c, o.cls), [y], {}, st, fr, node)
    # numbers
    if op == "MatMult":
        return dot(I, a, b, st, node, fr)
    fa, fb = a.f, b.f
    if I.objs(a, st):
        fa = I.eff(a, st)
    if I.objs(b, st):
        fb = I.eff(b, st)
    iv = iv_op(op, fa.iv, fb.iv, not (fa.deps & fb.deps) and fa.term != fb.term)
    if op == "Mult" and fa.term is not None and fa.term == fb.term and iv[0] < 0:
        iv = (0, iv[1], False)
    t = term_op(op, fa.term, fb.term)
    if (t is not None and t.is_number and not is_arr(I, a, st) and not is_arr(I, b, st) and UNK not in a.atoms | b.atoms):
        if t.is_Integer:
            iv = (int(t), int(t), True)
    if op in ("BitAnd", "BitOr", "BitXor") and (a.has("B") or b.has("B")) and not is_arr(I, a, st) and not is_arr(I, b, st):
        return boolean(combine(I, [a, b], st, node, fr))
    if op == "Div":
        cc, n = b.const()
        if cc and n == 0 and pyscalar(I, a, st) and b.f.py:
            fail(I, "zero-division", "division by a constant zero", node, fr, st, "builtins.ZeroDivisionError")
    return ewise(I, [a, b], st, node, fr, f"the arithmetic operation {op}", term=t, iv=iv)


def join_iv(a, b):
    return (min(a.iv[0], b.iv[0]), max(a.iv[1], b.iv[1]), False)


_DUNDER = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "Pow": "__pow__",
           "BitOr": "__or__", "BitAnd": "__and__"}
_RDUNDER = {"Add": "__radd__", "Sub": "__rsub__", "Mult": "__rmul__", "Div": "__rtruediv__"}


def concat_ord(ords):
    if "X" in ords:
        return "X"
    if "U" in ords or "M" in ords:
        return "U"
    if "E" in ords:
        return "E" if "P" not in ords and "R" not in ords else "U"
    if "R" in ords:
        return "U"
    return "P"


def dot(I, a, b, st, node, fr):
    f = combine(I, [a, b], st, node, fr, "a product by position")
    fa, fb = I.eff(a, st), I.eff(b, st)
    if fa.rank == 1 and fb.rank == 1:
        o = "I" if f.ord in ("E", "P", "M", "R") else f.ord
        return num(f.but(ord=o, rank=0, py=False))
    o = "U" if f.ord not in ("I", "P") else "P"
    if f.ord == "X" and fa.ord != "X" and fb.ord != "X":
        o = "U"
    return unk(f.but(ord=o, rank=None, py=False))


_CMP = {"Eq": lambda a, b: a == b, "NotEq": lambda a, b: a != b, "Lt": lambda a, b: a < b, "LtE": lambda a, b: a <= b,
        "Gt": lambda a, b: a > b, "GtE": lambda a, b: a >= b}
_FLIP = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE", "Eq": "Eq", "NotEq": "NotEq"}


def _kconst(v):
    return AV(frozenset({("c", C(bool(v)))}), Facets(rank=0, py=True))


def cols(v):
    return [x for x in v.f.facts if x[0] == "col"]


def term_cmp(I, a, b, st):
    """-1, 0 or 1 when the scenario fixes the order of the two values, else None."""
    if I.order is None:
        return None
    fa, fb = I.eff(a, st), I.eff(b, st)
    if fa.term is None or fb.term is None or is_arr(I, a, st) or is_arr(I, b, st):
        return None
    return I.order(fa.term, fb.term)


def order_cmp(I, a, b, st):
    """Sign of a - b for numbers, strings and tuples of them, as far as the scenario fixes it."""
    ca, va = a.const()
    cb, vb = b.const()
    if ca and cb and isinstance(va, (int, float, str)) and isinstance(vb, (int, float, str)) and isinstance(va, str) == isinstance(vb, str):
        return (va > vb) - (va < vb) if va == va and vb == vb else None
    sa, sb = a.single(), b.single()
    if sa and sb and sa[0] == "t" and sb[0] == "t":
        for x, y in zip(sa[1], sb[1]):
            c = order_cmp(I, x, y, st)
            if c != 0:
                return c
        return (len(sa[1]) > len(sb[1])) - (len(sa[1]) < len(sb[1]))
    return term_cmp(I, a, b, st)


def same_value(I, a, b, st):
    """Equality of two values (numbers, strings, None, sequences of them): True / False / None."""
    ca, va = a.const()
    cb, vb = b.const()
    if ca and cb:
        if isinstance(va, OrdVal) or isinstance(vb, OrdVal):
            return None
        return _enum_eq(va, vb)
    sa, sb = a.single(), b.single()
    if sa and sb and sa[0] == "t" and sb[0] == "t":
        ka, kb = sa[1], sb[1]
    elif sa and sb and sa[0] == "r" and sb[0] == "r":
        oa, ob = st.heap.get(sa[1]), st.heap.get(sb[1])
        if sa[1] == sb[1]:
            return True
        if oa is None or ob is None or oa.kind != ob.kind or oa.kind not in ("list", "set"):
            return None
        ka, kb = I.known_elems(a, st), I.known_elems(b, st)
        if ka is None or kb is None:
            return None
        if oa.kind == "set":
            r = []
            for xs, ys in ((ka, kb), (kb, ka)):
                for x in xs:
                    e = [same_value(I, x, y, st) for y in ys]
                    r.append(True if any(z is True for z in e) else (False if all(z is False for z in e) else None))
            return False if False in r else (None if None in r else True)
    else:
        for x, v, y in ((ca, va, b), (cb, vb, a)):
            if x and (v is None or isinstance(v, str)) and y.f.term is not None and len(y.atoms) == 1 and NUM in y.atoms:
                return False
        c = term_cmp(I, a, b, st)
        return None if c is None else c == 0
    if len(ka) != len(kb):
        return False
    r = [same_value(I, x, y, st) for x, y in zip(ka, kb)]
    return False if False in r else (None if None in r else True)


def key_const(I, v, st):
    """v as a dictionary key: constants, and in a run on known inputs tuples and ordered terms."""
    ok, k = v.const()
    if ok or not I.known_run:
        return ok, k
    k = _keyval(I, v, st)
    return (True, KV(k, v)) if k is not None else (False, None)


def _keyval(I, v, st):
    ok, k = v.const()
    if ok:
        return ("c", type(k).__name__, k) if getattr(type(k), "__hash__", None) else None
    s = v.single()
    if s and s[0] == "t":
        r = tuple(_keyval(I, x, st) for x in s[1])
        return None if None in r else ("t", r)
    if s and v.f.term is not None and NUM in v.atoms and hasattr(I.order, "value"):
        x = I.order.value(v.f.term)
        return None if x is None else ("n", x)
    return None


def key_av(k):
    """The value a dictionary key stands for."""
    if isinstance(k.v, KV):
        return k.v.av
    return const(k.v) if not isinstance(k.v, EnumMember) else AV(frozenset({("c", k)}), Facets(rank=0))


def order_sorted(I, items, keys, st):
    """items in increasing order of their keys (stable), or None when some order is not known."""
    out = []
    for it, k in zip(items, keys):
        pos = len(out)
        while pos > 0:
            c = order_cmp(I, out[pos - 1][1], k, st)
            if c is None:
                return None
            if c <= 0:
                break
            pos -= 1
        out.insert(pos, (it, k))
    return [x for x, _ in out]


def order_pick(I, items, kind, st, keys=None):
    keys = items if keys is None else keys
    best = 0
    for i in range(1, len(items)):
        c = order_cmp(I, keys[i], keys[best], st)
        if c is None:
            return None
        if (c > 0) if kind == "max" else (c < 0):
            best = i
    return items[best]


def compare(I, op, a, b, node, st, fr):
    ca, va = a.const()
    cb, vb = b.const()
    deps = I.eff_deps(a, st) | I.eff_deps(b, st)
    if cols(a) or cols(b):
        c, o = (a, b) if cols(a) else (b, a)
        oo = op if cols(a) else _FLIP.get(op, op)
        preds = frozenset(("pred", x[1], oo, I.eff_deps(o, st)) for x in cols(c))
        other = frozenset(x for x in I.eff_facts(a, st) | I.eff_facts(b, st) if x[0] == "pred")
        f = Facets(deps=deps, facts=preds | other)
        return I.new("ext", node, fr, st, f=f, extra="sqlalchemy.predicate")

    def ret(v):
        r = _kconst(v)
        return r.plus(deps=deps) if deps else r

    if op in ("Is", "IsNot"):
        r = _identity(I, a, b, st)
        if r is not None:
            return ret(r if op == "Is" else not r)
        return boolean(Facets(deps=deps, ord=comb_ord(scal(I.eff(a, st).ord), scal(I.eff(b, st).ord)), rank=0))
    if op in ("In", "NotIn"):
        r = _member(I, a, b, st)
        if r is not None:
            return ret(r if op == "In" else not r)
        for oid, o in I.objs(b, st):
            if o.kind == "inst":
                c, m = o.cls.lookup("__contains__")
                if m is not None:
                    v = I.call(I.bind(m, AV(frozenset({("r", oid)})), c, o.cls), [a], {}, st, fr, node)
                    t = I.truth(v, st)
                    if t is not None:
                        return ret(t if op == "In" else not t)
        fb = I.eff(b, st)
        o = fb.ord if fb.ord in ("X", "U") else "I"
        return boolean(Facets(deps=deps, ord=comb_ord(I.eff(a, st).ord, o), rank=0))
    a2, b2 = nonnone(a), nonnone(b)
    if op in ("Eq", "NotEq"):
        a2, b2 = a, b
    if ca and cb:
        if isinstance(va, OrdVal) and isinstance(vb, OrdVal):
            return ret(_CMP[op](va.rank, vb.rank))
        if op in ("Eq", "NotEq"):
            if isinstance(va, OrdVal) or isinstance(vb, OrdVal):
                if va is None or vb is None or isinstance(va, (str, EnumMember)) or isinstance(vb, (str, EnumMember)):
                    return ret(op == "NotEq")
                return boolean(Facets(deps=deps, rank=0))
            return ret((_enum_eq(va, vb)) == (op == "Eq"))
        if isinstance(va, (int, float, str)) and isinstance(vb, (int, float, str)) and isinstance(va, str) == isinstance(vb, str):
            return ret(_CMP[op](va, vb))
        if va is None or vb is None:
            fail(I, "type-error", "an order comparison with None", node, fr, st)
    if op in ("Eq", "NotEq") and I.known_run and (ca and isinstance(va, (int, float)) or cb and isinstance(vb, (int, float))):
        o = b if ca else a      # a sequence of Python never equals a number
        if not (ca and cb) and all(x[0] in "rt" for x in o.atoms) and all(ob.kind in ("list", "dict", "set") for _, ob in I.objs(o, st)):
            return ret(op == "NotEq")
    if op in ("Eq", "NotEq") and I.known_run and not (ca and cb):
        r = same_value(I, a, b, st)
        if r is not None:
            return ret(r == (op == "Eq"))
    if op in ("Eq", "NotEq"):
        if (ca and va is None) or (cb and vb is None):
            o = b if ca and va is None else a
            if not any(x[0] in ("u", "missing") or (x[0] == "c" and x[1].v is None) or x[0] == "xb" for x in o.atoms) and not any(
                    ob.kind in ("ext",) or ob.kind in ("array", "sample") for _, ob in I.objs(o, st)):
                return ret(op == "NotEq")
        # disjoint constant sets
        ka = [x[1].v for x in a.atoms if x[0] == "c"]
        kb = [x[1].v for x in b.atoms if x[0] == "c"]
        if len(ka) == len(a.atoms) and len(kb) == len(b.atoms) and ka and kb and not any(isinstance(x, OrdVal) for x in ka + kb):
            if not any(_enum_eq(x, y) for x in ka for y in kb):
                return ret(op == "NotEq")
        sa = a.has("s") or any(isinstance(x, str) for x in ka)
        na = NUM in a.atoms
        if (sa and NUM in b.atoms and len(a.atoms) == len(b.atoms) == 1) or (na and b.has("s") and len(a.atoms) == len(b.atoms) == 1):
            return ret(op == "NotEq")
        for x, y in ((a, b), (b, a)):
            for oid, o in I.objs(x, st):
                if o.kind == "inst":
                    c, m = o.cls.lookup("__eq__")
                    if m is not None:
                        return I.call(I.bind(m, AV(frozenset({("r", oid)})), c, o.cls), [y], {}, st, fr, node)
    else:
        # list against a number, element-wise comparison of a list
        for x, y in ((a2, b2), (b2, a2)):
            if is_list(I, x, st) and pyscalar(I, y, st):
                fail(I, "type-error", f"a list is compared with a number by {op}", node, fr, st,
                     key=f"list {op} number in {fr.name}")
    tc = term_cmp(I, a2, b2, st) if I.order is not None and op in _CMP else None
    if tc is not None:
        return ret(_CMP[op](tc, 0))
    ia, ib = I.eff(a2, st).iv, I.eff(b2, st).iv
    scalar = not is_arr(I, a2, st) and not is_arr(I, b2, st) and UNK not in (a2.atoms | b2.atoms)
    if scalar and op in _CMP and (ia != TOP_IV or ib != TOP_IV) and not any(
            x[0] == "c" and isinstance(x[1].v, (OrdVal, EnumMember, str)) for x in a2.atoms | b2.atoms):
        r = None
        if op == "Lt":
            r = True if ia[1] < ib[0] else (False if ia[0] >= ib[1] else None)
        elif op == "LtE":
            r = True if ia[1] <= ib[0] else (False if ia[0] > ib[1] else None)
        elif op == "Gt":
            r = True if ia[0] > ib[1] else (False if ia[1] <= ib[0] else None)
        elif op == "GtE":
            r = True if ia[0] >= ib[1] else (False if ia[1] < ib[0] else None)
        elif op in ("Eq", "NotEq"):
            if ia[1] < ib[0] or ib[1] < ia[0]:
                r = op == "NotEq"
        if r is not None:
            return ret(r)
    ta, tb = I.eff(a2, st).term, I.eff(b2, st).term
    if scalar and ta is not None and ta == tb and not ta.free_symbols & {X_SYM, EDGE_SYM}:
        if op in ("Eq", "LtE", "GtE"):
            return ret(True)
        if op in ("NotEq", "Lt", "Gt"):
            return ret(False)
    fa2, fb2 = I.eff(a2, st), I.eff(b2, st)
    if scalar and fa2.ord == fb2.ord == "P" and fa2.ax and fb2.ax and fa2.ax != fb2.ax:
        # two positions compared: equality treats all positions alike, an order picks pairs
        if fa2.idx is not None and fb2.idx is not None and op in ("Eq", "NotEq"):
            return boolean(Facets(deps=deps, rank=0))
        return boolean(Facets(deps=deps, rank=0, ord="U", ax=frozenset((l, "U") for l, _ in fa2.ax | fb2.ax)))
    if op in ("Eq", "NotEq") and (a.has("t") or b.has("t")):
        return boolean(combine(I, [a, b], st, node, fr).but(rank=0))
    r = ewise(I, [a2, b2], st, node, fr, f"the comparison {op}", boolres=True)
    if op in ("Eq", "NotEq") and ta is not None and ta == tb == X_SYM and {fa2.ord, fb2.ord} == {"E", "X"}:
        r = with_term(I, r, EQUALS_ONE if op == "Eq" else DIFFERS_FROM_ONE, st)
    if I.rel_terms and op in _REL:
        tx, ty = I.eff(a2, st).term, I.eff(b2, st).term
        if tx is not None and ty is not None:
            try:
                return with_term(I, r, _REL[op](tx, ty), st)
            except TypeError:
                pass
    return r


_REL = {"Lt": sympy.StrictLessThan, "LtE": sympy.LessThan, "Gt": sympy.StrictGreaterThan, "GtE": sympy.GreaterThan, "Eq": sympy.Eq}


def with_term(I, v, t, st):
    for oid, o in I.objs(v, st):
        st.heap[oid] = o.but(f=o.f.but(term=t))
    return v.but(term=t)


def scal(o):
    return o


def _enum_eq(a, b):
    if isinstance(a, EnumMember) or isinstance(b, EnumMember):
        if isinstance(a, EnumMember) and isinstance(b, EnumMember):
            return a is b or (a.cls is b.cls and a.value == b.value)
        e, o = (a, b) if isinstance(a, EnumMember) else (b, a)
        ok, v = e.value.const()
        return ok and any("str" in x for k in e.cls.mro for x in k.ext_bases) and v == o
    if type(a) is not type(b) and (isinstance(a, str) or isinstance(b, str)):
        return False
    return a == b


def _identity(I, a, b, st):
    ca, va = a.const()
    cb, vb = b.const()
    for x, y in ((a, b), (b, a)):
        c, v = x.const()
        if c and (v is None or isinstance(v, bool)):
            res = set()
            for t in y.atoms:
                if t[0] == "c":
                    res.add(t[1].v is v)
                elif t[0] in ("u", "xb", "missing"):
                    res.add(None)
                elif t[0] == "r" and st.heap.get(t[1]) is not None and st.heap[t[1]].kind == "ext" and v is None:
                    res.add(None if st.heap[t[1]].extra in MAYBE_NONE else False)
                elif t[0] == "B" and isinstance(v, bool):
                    res.add(None)
                else:
                    res.add(False)
            if res == {True}:
                return True
            if res == {False}:
                return False
            return None
    if ca and cb:
        if isinstance(va, EnumMember) or isinstance(vb, EnumMember):
            return va is vb
        return None
    sa, sb = a.single(), b.single()
    if sa and sb and sa[0] == sb[0] and sa[0] in ("k", "f", "m", "x"):
        return sa[1] is sb[1] or sa[1] == sb[1]
    if sa and sb and {sa[0], sb[0]} <= {"k", "f", "m", "x"}:
        return False
    ka = [x for x in a.atoms if x[0] == "k"]
    kb = [x for x in b.atoms if x[0] == "k"]
    if len(ka) == len(a.atoms) and len(kb) == len(b.atoms) and ka and kb:
        if not set(id(x[1]) for x in ka) & set(id(x[1]) for x in kb):
            return False
    return None


MAYBE_NONE = set()


def _member(I, a, b, st):
    ca, va = a.const()
    if not ca and I.known_run:
        ok, kv = key_const(I, a, st)
        if ok and len(b.atoms) == 1:
            for _, o in I.objs(b, st):
                if o.kind == "dict" and o.elem is None and o.extra == "closed":
                    return C(kv) in o.attrs
        k = I.known_elems(b, st)
        if k is not None:
            r = [same_value(I, a, x, st) for x in k]
            return True if True in r else (None if None in r else False)
    if not ca:
        sa = a.single()
        if sa and sa[0] == "k":
            k = I.known_elems(b, st)
            if k is not None:
                r = [_identity(I, a, x, st) for x in k]
                if any(x is True for x in r):
                    return True
                if all(x is False for x in r):
                    return False
        k = I.known_elems(b, st)
        if k is not None and len(k) == 0:
            return False
        return None
    cb, vb = b.const()
    if cb and isinstance(va, str) and isinstance(vb, str):
        return va in vb
    for _, o in I.objs(b, st):
        if o.kind == "dict" and len(b.atoms) == 1:
            try:
                ks = [k.v for k in o.attrs if isinstance(k, C)]
            except Exception:
                return None
            if any(_enum_eq(k, va) for k in ks):
                return True
            if o.elem is None and o.extra == "closed":
                return False
            return None
    k = I.known_elems(b, st)
    if k is None:
        return None
    unknown = False
    for x in k:
        c, v = x.const()
        if c and not isinstance(v, OrdVal) and not isinstance(va, OrdVal):
            if _enum_eq(v, va):
                return True
        else:
            unknown = True
    return None if unknown else False


# ---------------------------------------------------------------------- subscripts
def subscript(I, b, idx, node, st, fr):
    res = None
    b = nonnone(b)
    dead = 0
    from .interp import Dead
    for a in sorted(b.atoms, key=lambda x: str(x[0])):
        try:
            r = sub_atom(I, a, b, idx, node, st, fr)
        except Dead:
            dead += 1
            continue
        res = join(res, r)
    if res is None:
        raise Dead()
    return res


def index_shape(I, idx, st):
    if isinstance(idx, AV) and idx.has("slice"):
        return "slice"
    if idx.has("t") and len(idx.atoms) == 1:
        return "tuple"
    if is_arr(I, idx, st):
        return "array"
    return "scalar"


def sub_atom(I, a, b, idx, node, st, fr):
    k = a[0]
    ci, vi = idx.const()
    if k == "c":
        v = a[1].v
        if v is None:
            fail(I, "type-error", "None is subscripted", node, fr, st)
        if isinstance(v, str) and ci and isinstance(vi, int):
            try:
                return const(v[vi])
            except IndexError:
                fail(I, "index-error", "string index out of range", node, fr, st, "builtins.IndexError")
        if isinstance(v, str):
            return string(Facets(deps=idx.f.deps))
        return unk(b.f.but(deps=b.f.deps | idx.f.deps))
    if k == "s":
        return string(Facets(deps=b.f.deps | idx.f.deps, facts=b.f.facts))
    if k == "k":
        if a[1].is_enum and ci and isinstance(vi, str):
            c, v = a[1].lookup(vi)
            if v is None:
                fail(I, "key-error", f"{a[1].name} has no member {vi!r}", node, fr, st, "builtins.KeyError")
            return v
        if a[1].is_enum:
            return AV(frozenset(("c", C(m)) for m in a[1].members), idx.f.but(rank=0))
        return AV(frozenset({a}), b.f)
    if k == "x":
        if a[1] == "sys.modules" and ci and isinstance(vi, str):
            m = I.load_from(vi, st)
            if m is not None:
                return AV(frozenset({("m", m)}))
        return AV(frozenset({a}), b.f)
    if k == "t":
        elems = a[1]
        if ci and isinstance(vi, int):
            if -len(elems) <= vi < len(elems):
                return elems[vi].plus(deps=b.f.deps)
            fail(I, "index-error", f"tuple index {vi} out of range", node, fr, st, "builtins.IndexError")
        if idx.has("slice"):
            s = const_slice(idx)
            if s is not None:
                return AV(frozenset({("t", elems[s])}), b.f)
        r = None
        for x in elems:
            r = join(r, x)
        return (r or unk()).plus(deps=idx.f.deps)
    if k == "r":
        o = st.heap.get(a[1])
        if o is None:
            return unk()
        if o.kind == "dict":
            return dict_get(I, o, idx, node, st, fr, None)
        if o.kind == "inst":
            c, m = o.cls.lookup("__getitem__")
            if m is not None:
                return I.call(I.bind(m, AV(frozenset({a}), o.f), c, o.cls), [idx], {}, st, fr, node)
            if not o.cls.opaque():
                fail(I, "type-error", f"'{o.cls.name}' object is not subscriptable", node, fr, st)
            return unk(Facets(deps=I.eff_deps(AV(frozenset({a})), st) | idx.f.deps))
        if o.kind == "ext":
            return I.call_ext(f"{o.extra}.__getitem__", AV(frozenset({a}), o.f), [idx], {}, st, fr, node)
        if o.kind in ("gen", "set", "zip", "enumerate"):
            fail(I, "type-error", f"'{o.kind}' object is not subscriptable", node, fr, st)
        return seq_sub(I, a, o, b, idx, node, st, fr)
    if k == "n" and b.f.rank == 0 and b.f.py:
        fail(I, "type-error", "a number is subscripted", node, fr, st)
    f = b.f.but(deps=b.f.deps | I.eff_deps(idx, st), idx=None, term=None, iv=TOP_IV, py=False,
                ord="U" if b.f.ord not in ("I", "X") else b.f.ord, rank=None)
    return unk(f)


def const_slice(idx):
    parts = idx.single()[1]
    out = []
    for p in parts:
        if p is None:
            out.append(None)
            continue
        c, v = p.const()
        if not c or not (v is None or isinstance(v, int)):
            return None
        out.append(v)
    return slice(*out)


def dict_get(I, o, idx, node, st, fr, default):
    ci, vi = key_const(I, idx, st)
    deps = idx.f.deps
    if ci:
        try:
            key = C(vi)
            if key in o.attrs:
                v = o.attrs[key]
                if ("missing",) in v.atoms:
                    rest = frozenset(x for x in v.atoms if x != ("missing",))
                    v = AV(rest, v.f)
                    if default is not None:
                        v = join(v, default)
                return v.plus(deps=deps)
            if isinstance(vi, EnumMember):
                pass
        except TypeError:
            pass
        if o.elem is None and o.extra == "closed":
            if default is not None:
                return default.plus(deps=deps)
            fail(I, "key-error", f"key {vi!r} is not in the dictionary", node, fr, st, "builtins.KeyError")
        r = o.elem if o.elem is not None else unk(o.f)
        if default is not None:
            r = join(r, default)
        return r.plus(deps=deps | o.f.deps)
    ks = [x[1].v for x in idx.atoms if x[0] == "c"]
    r = None
    if ks and len(ks) == len(idx.atoms) and o.elem is None:
        for kx in ks:
            if C(kx) in o.attrs:
                r = join(r, o.attrs[C(kx)])
        if default is not None:
            r = join(r, default)
        if r is not None:
            return r.plus(deps=deps)
    for v in o.attrs.values():
        r = join(r, v)
    if o.elem is not None:
        r = join(r, o.elem)
    if default is not None:
        r = join(r, default)
    if r is None:
        r = unk()
    return r.plus(deps=deps | o.f.deps)


def seq_sub(I, a, o, b, idx, node, st, fr):
    ci, vi = idx.const()
    shape = index_shape(I, idx, st)
    f = o.f
    fi = I.eff(idx, st)
    if o.kind == "range":
        if shape == "slice":
            return arr(I, node, fr, st, f)
        return num(Facets(deps=f.deps | fi.deps, ord=fi.ord if fi.ord != "I" else "I", rank=0, py=True, iv=f.iv))
    deps = f.deps | fi.deps | I.eff_deps(idx, st)
    facts = clean(f.facts) | (clean(fi.facts) & {("pair",)})
    py = (o.kind == "list" and True) or (o.kind == "sample" and o.extra == "list")
    if o.elems is not None:
        if ci and isinstance(vi, int) and not isinstance(vi, bool):
            if -len(o.elems) <= vi < len(o.elems):
                return o.elems[vi].plus(deps=f.deps if o.kind == "array" else frozenset())
            fail(I, "index-error", f"index {vi} out of range of a sequence of {len(o.elems)}", node, fr, st, "builtins.IndexError")
        if shape == "slice":
            s = const_slice(idx)
            if s is not None:
                return I.new("list" if o.kind == "list" else "array", node, fr, st, f=f, elems=tuple(o.elems[s]),
                             roots=o.roots if o.kind != "list" else frozenset())
    if o.kind in ("list",) and (shape == "array" or shape == "tuple") or (o.kind == "sample" and o.extra == "list" and shape in ("array", "tuple")):
        fail(I, "type-error", "a list is indexed by an array or a tuple", node, fr, st, key=f"list indexed by array in {fr.name}")
    if shape == "slice":
        return slice_of(I, a, o, idx, node, st, fr, deps)
    two = f.rank is not None and f.rank >= 2
    if shape == "tuple":
        # multi-dimensional indexing
        parts = idx.single()[1]
        o2 = f.ord if f.ord in ("I", "X") else "U"
        new = any(p.const() == (True, None) for p in parts)
        if new:
            return arr(I, node, fr, st, f.but(deps=deps, rank=2), roots=o.roots)
        if f.ord == "P" and all(I.eff(p, st).ord in ("I", "P") for p in parts if not p.has("slice")):
            o2 = "P"
        nf = f.but(deps=deps, ord=o2, idx=None, term=None, rank=None, py=False, facts=facts)
        if two and not any(p.has("slice") for p in parts) and len(parts) == 2:
            return num(nf.but(rank=0))
        if any(p.has("slice") for p in parts):
            return arr(I, node, fr, st, nf.but(rank=1), roots=o.roots)
        return unk(nf)
    wit = f.wit or fi.wit
    site = I.site(node, fr)
    od, io = f.ord, fi.ord
    if shape == "array":
        isbool = ("mask",) in fi.facts
        if "X" in (od, io):
            r = "X"
        elif "U" in (od, io):
            r = "U"
        elif od == "E":
            if io == "E":
                r = "E"
            elif io == "M":
                r = "P"
            elif io == "P":
                r, wit = ("U", wit)
            else:
                r = "U"
        elif od == "P":
            r = {"I": "P", "P": "P", "E": "E", "M": "U", "R": "U"}[io]
        elif od == "I":
            r = {"I": "I", "P": "P", "E": "E", "M": "E", "R": "U"}[io]
        elif od == "R":
            r = "U"
        else:
            r = "U"
        return arr(I, node, fr, st, f.but(deps=deps, ord=r, facts=facts, wit=wit, term=f.term, rank=f.rank))
    # a scalar index
    if two:
        r = f.ord
        if f.ord == "P":
            r = "P"
        elif f.ord == "E":
            r = "E" if fi.idx is not None else "U"
        return arr(I, node, fr, st, f.but(deps=deps, ord=r, idx=None, rank=f.rank - 1 if f.rank else None, facts=facts, wit=wit), roots=o.roots)
    if "X" in (od, io):
        r = "X"
    elif "U" in (od, io):
        r = "U"
    elif od == "E":
        if io == "P":
            if ("pair",) in fi.facts:
                r = "U"
            elif fi.idx is not None:
                r = "E"
            else:
                r = "X"
                wit = ("an element of the caller's sample is picked by a shifted position", site)
        elif io == "I":
            r = "X"
            wit = ("an element of the caller's sample is picked by its position", site)
            if ("cumulative",) in f.facts and ci and vi == -1:
                r = "I"
        elif io == "M":
            r = "I" if fi.rank == 0 and ("perm-scalar",) in fi.facts else "P"
        else:
            r = "U"
    elif od == "R":
        r = "U"
    elif od == "P":
        r = {"I": "I", "P": "P", "E": "E", "M": "U", "R": "U"}.get(io, "U")
    elif od == "M":
        r = {"P": "M", "I": "U"}.get(io, "U")
    else:
        r = io if io in ("P", "E", "I") else "U"
        if r == "P":
            r = "I" if ("uniform",) in f.facts else "P"
    ax = NO_AX
    if fi.ax and r != "I":
        ax = frozenset((l, x) for l, x in fi.ax if x == "I")
        live = [l for l, x in fi.ax if x != "I"]
        ax = frozenset((l, r if len(live) == 1 or r in ("P", "X", "U") else "U") for l in live)
        if len(live) > 1 and r not in ("P", "X", "U"):
            r = "U"
    if f.ax:
        ax = ax_merge(ax, f.ax, comb_ord)
        if r in ("I", "P", "E", "M"):
            r = ax_sum(ax) if r == "I" or fi.ax else r
    nf = f.but(deps=deps, ord=r, idx=None, rank=0 if f.rank == 1 else None, term=f.term, facts=facts, wit=wit, py=py, ax=ax)
    if o.elem is not None or o.elems is not None:
        e = I.elem_of(AV(frozenset({a}), f), st)
        e = lift_elem(e, ax, r)
        return AV(e.atoms, e.f.but(deps=e.f.deps | deps, ord=r if e.f.ord in ("I", "P", "E", "M") else e.f.ord, idx=None, ax=ax,
                                   facts=e.f.facts | facts, wit=wit or e.f.wit))
    if f.rank == 1 or o.kind == "sample":
        return num(nf.but(rank=0))
    return unk(nf)


def lift_elem(e, ax, r):
    """An element taken out of a sequence: parts of a tuple vary with the loops the index varies with."""
    ts = e.of("t")
    if not ts:
        return e
    atoms = set(e.atoms)
    for t in ts:
        atoms.discard(t)
        xs = []
        for x in t[1]:
            x = lift_elem(x, ax, r)
            o = x.f.ord
            if o in ("E", "P", "M", "R") and not x.f.ax:
                x = x.but(ax=frozenset((l, o) for l, _ in ax) if len(ax) == 1 else NO_AX)
            xs.append(x)
        atoms.add(("t", tuple(xs)))
    return AV(frozenset(atoms), e.f)


def sink_elem(e, lids):
    """An element put into a sequence built by the given loops."""
    ts = e.of("t")
    atoms = e.atoms
    if ts:
        atoms = set(e.atoms)
        for t in ts:
            atoms.discard(t)
            xs = []
            for x in t[1]:
                if x.f.ax:
                    own, rest = ax_get(x.f.ax, lids)
                    x = x.but(ax=NO_AX, ord=x.f.ord if x.f.ord in ("X", "U") else ((own or "I") if not rest else "U"), idx=None)
                xs.append(sink_elem(x, lids))
            atoms.add(("t", tuple(xs)))
        atoms = frozenset(atoms)
    f = e.f
    if f.ax or f.idx is not None:
        own, rest = ax_get(f.ax, lids)
        f = f.but(ax=NO_AX, idx=None, ord=f.ord if f.ord in ("X", "U") else (own or f.ord))
    return AV(atoms, f) if (atoms is not e.atoms or f is not e.f) else e


def is_full(I, v, st):
    """The sequence has one item per element of the sample."""
    obs = I.objs(v, st)
    if not obs or len(obs) != len(v.atoms):
        return False
    for _, o in obs:
        if o.kind == "range":
            if o.extra != "full":
                return False
        elif o.kind in ("enumerate",):
            if not is_full(I, o.extra, st):
                return False
        elif o.kind == "zip":
            if not any(is_full(I, x, st) for x in o.extra):
                return False
        elif o.kind == "sample":
            continue
        else:
            ln = length(I, v, st)
            if ln is None or ln.f.term != N_SYM:
                return False
    return True


def own_ord(vf, lids):
    """(behaviour along the positions the given loops run over, what is left pending)."""
    if vf.ord in ("X", "U") or not vf.ax:
        return vf.ord, vf.ax
    own, rest = ax_get(vf.ax, lids)
    return own or "I", rest


def slice_of(I, a, o, idx, node, st, fr, deps):
    parts = idx.single()[1] if idx.single() and idx.single()[0] == "slice" else next(x for x in idx.atoms if x[0] == "slice")[1]
    f = o.f
    step = parts[2]
    full = parts[0] is None and parts[1] is None
    zero_start = parts[0] is None or parts[0].const() == (True, 0)
    if zero_start and parts[1] is not None:
        n = length(I, AV(frozenset({a}), f), st)
        if n is not None and n.f.term is not None and parts[1].f.term is not None and n.f.term == parts[1].f.term:
            full = True
    cs, vs = step.const() if step is not None else (True, None)
    r, wit = f.ord, f.wit
    site = I.site(node, fr)
    if f.ord in ("E", "R"):
        if full and (step is None or vs in (None, 1)):
            r = f.ord
        elif full and vs == -1:
            r = "R" if f.ord == "E" else "U"
        else:
            undecided = any(p is not None and (I.eff(p, st).ord != "I") for p in parts)
            if undecided or f.ord == "R":
                r = "U"
            elif ("cumulative",) in f.facts:
                r = "U"
            else:
                r = "X"
                wit = ("part of the caller's sample is taken by position", site)
    elif f.ord == "P":
        r = "P"
        if any(p is not None and I.eff(p, st).ord in ("E", "X", "U") for p in parts):
            r = "U"
    elif f.ord == "M":
        r = "U" if not full else "M"
    elif f.ord == "I":
        r = "I"
        for p in parts:
            if p is not None:
                r = join_ord(r, I.eff(p, st).ord) if I.eff(p, st).ord in ("X", "U") else r
    pdeps = frozenset()
    for p in parts:
        if p is not None:
            pdeps |= I.eff_deps(p, st)
    nf = f.but(deps=f.deps | pdeps, ord=r, wit=wit)
    copy = o.kind == "list" or (o.kind == "sample" and o.extra == "list")
    e = o.elem
    if o.elems is not None:
        e = I.elem_of(AV(frozenset({a}), f), st)
    ln = length(I, AV(frozenset({a}), f), st) if full else slice_len(I, parts, length(I, AV(frozenset({a}), f), st))
    attrs = {"len": ln} if ln is not None else {}
    if copy:
        return I.new("list", node, fr, st, f=nf, elem=e if e is not None else I.elem_of(AV(frozenset({a}), f), st).but(ord=r), attrs=attrs)
    return I.new("array", node, fr, st, f=nf.but(py=False), elem=e, roots=o.roots, attrs=attrs)


def slice_len(I, parts, n):
    """The length of a part taken between constant positions (of a sequence long enough for them)."""
    if not (I.rel_terms or I.post is not None) or n is None or n.f.term is None or n.const()[0]:
        return None
    if parts[2] is not None and parts[2].const() not in ((True, None), (True, 1)):
        return None
    k = []
    for p in parts[:2]:
        ok, v = p.const() if p is not None else (True, None)
        if not ok and I.post is not None and p.f.term is not None and p.f.term.free_symbols <= {N_SYM}:
            v = sympy.expand(p.f.term - n.f.term)       # counted from the end
            if not (v.is_Integer and v <= 0):
                return None
            v = int(v) or None
        elif not ok or not (v is None or (isinstance(v, int) and not isinstance(v, bool))):
            return None
        k.append(v)
    lo, hi = k
    if not parts[0] is None and lo is None and parts[0].const() != (True, None):
        return None
    t = n.f.term
    start = sympy.Integer(0) if lo is None else (sympy.Integer(lo) if lo >= 0 else t + lo)
    stop = t if hi is None else (sympy.Integer(hi) if hi >= 0 else t + hi)
    return num(Facets(deps=n.f.deps, rank=0, term=sympy.expand(stop - start), iv=(0, INF, False), py=True))


# ---------------------------------------------------------------------- attributes of sequences
ARRAY_ATTRS = {
    "size", "shape", "T", "dtype", "ndim", "nbytes", "itemsize", "real", "imag", "flat", "base", "flags", "strides",
    "sort", "argsort", "sum", "mean", "std", "var", "min", "max", "argmin", "argmax", "cumsum", "cumprod", "copy",
    "astype", "reshape", "ravel", "flatten", "tolist", "dot", "all", "any", "prod", "round", "clip", "transpose",
    "searchsorted", "nonzero", "repeat", "take", "squeeze", "item", "fill", "resize", "put", "partition",
    "argpartition", "tobytes", "view", "trace", "diagonal", "conj", "swapaxes", "byteswap", "compress", "choose",
    "setflags", "tofile", "dump", "dumps", "getfield", "setfield", "itemset", "ptp", "newbyteorder", "conjugate",
    "__len__", "__iter__", "__getitem__", "__setitem__", "__contains__", "__class__", "__array__",
}
LIST_ATTRS = set(dir([]))
VIEW_METHODS = {"reshape", "ravel", "transpose", "squeeze", "view", "swapaxes", "diagonal"}


def obj_attr(I, selfav, o, name, node, st, fr):
    kind = o.kind
    if kind == "sample":
        kind = o.extra if o.extra in ("list", "array") else "array"
    if kind == "list":
        if name not in LIST_ATTRS:
            return None
        return AV(frozenset({("xb", f"list.{name}", selfav)}), o.f)
    if kind == "dict":
        if name not in dir({}):
            return None
        return AV(frozenset({("xb", f"dict.{name}", selfav)}), o.f)
    if kind == "set":
        return AV(frozenset({("xb", f"set.{name}", selfav)}), o.f) if hasattr(set, name) else None
    if kind in ("gen", "zip", "enumerate", "range"):
        return AV(frozenset({("xb", f"{kind}.{name}", selfav)}), o.f)
    if kind == "array":
        if name == "size" or name == "shape":
            ln = length(I, selfav, st)
            if ln is None:
                ln = num(Facets(deps=frozenset(d for d in o.f.deps), rank=0, iv=(0, INF, False), py=True,
                                ord=o.f.ord if o.f.ord in ("X", "U") else "I"))
            if name == "size" and (o.f.rank in (None, 1)):
                return ln
            if name == "size":
                return num(ln.f.but(term=None))
            if o.f.rank == 1:
                return AV(frozenset({("t", (ln,))}))
            if o.f.rank == 2:
                return AV(frozenset({("t", (num(ln.f.but(term=None)), num(ln.f.but(term=None))))}))
            return unk(ln.f.but(term=None))
        if name == "ndim":
            return const(o.f.rank) if o.f.rank in (1,) else num(Facets(rank=0, iv=(0, INF, False), py=True))
        if name == "T":
            return I.new("array", node, fr, st, f=o.f, elem=o.elem, roots=o.roots, attrs=o.attrs, tag="T")
        if name == "real":
            return selfav
        if name in ("dtype", "flags", "strides", "base", "itemsize", "nbytes", "flat", "imag"):
            return unk(Facets(deps=o.f.deps))
        if name in ARRAY_ATTRS:
            return AV(frozenset({("xb", f"ndarray.{name}", selfav)}), o.f)
        return None
    if kind == "env":
        return unk()
    return unk(o.f)


# ---------------------------------------------------------------------- calls
EW = set("""abs sqrt cbrt exp exp2 log log1p expm1 log2 log10 sin cos tan arcsin arccos arctan arctan2 sinh cosh tanh
arcsinh arccosh arctanh square power add subtract multiply divide maximum minimum fmax fmin floor ceil round rint fix
trunc sign isnan isfinite isinf isposinf logical_and logical_or logical_not logical_xor where clip mod remainder less
less_equal greater greater_equal equal not_equal float64 float32 int64 int32 negative positive reciprocal hypot
floor_divide fmod heaviside nan_to_num real_if_close isclose sinc i0 degrees radians deg2rad rad2deg bitwise_and
bitwise_or invert angle real imag conj select copysign signbit bool_""".split())
MASKS = set("isnan isfinite isinf logical_and logical_or logical_not less less_equal greater greater_equal equal not_equal isclose isin".split())
RED = set("""sum mean median std var max min prod any all ptp percentile quantile nansum nanmean nanstd nanvar nanmax
nanmin nanmedian count_nonzero average nanpercentile nanquantile nanprod""".split())
POSITIONAL = set("diff cumsum cumprod ediff1d gradient convolve correlate roll nancumsum trapz trapezoid flip flipud rot90".split())
PY_ELEM = {"exp", "log", "sqrt", "sin"}
DIST_METHODS = {"pdf", "cdf", "sf", "ppf", "isf", "logpdf", "logcdf", "logsf", "pmf", "logpmf"}
DIST_STATS = {"mean", "var", "std", "median", "entropy", "moment", "stats", "expect", "interval", "support"}
STAT_RED = set("""skew kurtosis moment iqr trim_mean kstest ks_1samp ks_2samp anderson shapiro normaltest jarque_bera
kurtosistest skewtest gmean hmean tmean tstd tvar tmin tmax sem variation mode describe anderson_ksamp cramervonmises
median_abs_deviation median_absolute_deviation entropy differential_entropy ttest_1samp zscore_ kstat kstatvar""".split())

_TERM_FN = {"sqrt": sympy.sqrt, "exp": sympy.exp, "log": sympy.log, "abs": sympy.Abs, "sin": sympy.sin, "cos": sympy.cos,
            "gamma": sympy.gamma, "fabs": sympy.Abs}


def fn_term(name, t):
    if t is None:
        return None
    if name == "square":
        return t ** 2
    f = _TERM_FN.get(name)
    if f is None:
        return None
    try:
        return f(t)
    except Exception:
        return None


def round_term(t, digits):
    """The term of round(x) or round(x, k)."""
    if t is None:
        return None
    ok, k = digits[0].const() if digits else (True, 0)
    if not ok or not (k is None or isinstance(k, int)):
        return None
    return laws.Round(t, sympy.Integer(k or 0))


def fn_iv(name, iv):
    lo, hi, t = iv
    try:
        if name == "abs" or name == "fabs":
            if lo >= 0:
                return iv
            return (0, max(abs(lo), abs(hi)), False)
        if name in ("sqrt",):
            return (math.sqrt(max(lo, 0)) if lo != INF else INF, math.sqrt(hi) if 0 <= hi < INF else INF, t and lo >= 0)
        if name == "exp":
            return (0.0 if lo < -700 else math.exp(min(lo, 700)), math.exp(hi) if hi < 700 else INF, False)
        if name == "square":
            return (0, INF, False)
        if name in ("sin", "cos", "tanh", "erf"):
            return (-1, 1, False)
        if name in ("floor", "ceil", "round", "rint"):
            return (math.floor(lo) if lo > -INF else lo, math.ceil(hi) if hi < INF else hi, False)
        if name in ("expit",):
            return (0, 1, False)
    except (OverflowError, ValueError):
        pass
    return TOP_IV


def call(I, name, recv, args, kwargs, st, fr, node, star=None, kwstar=None):
    name = canon(name)
    args = [a for a in args]
    # keyword/positional normalisation happens per function
    top, _, leaf = name.rpartition(".")
    h = SPECIAL.get(name)
    if h is None and recv is not None:
        h = METHOD.get(name)
    if h is not None:
        ctx = Ctx(I, name, leaf, recv, args, kwargs, st, fr, node, star, kwstar)
        r = h(ctx)
        if r is not NotImplemented:
            return r
    c = Ctx(I, name, leaf, recv, args, kwargs, st, fr, node, star, kwstar)
    if top in ("numpy", "numpy.ma"):
        r = numpy_call(c)
        if r is not NotImplemented:
            return r
    elif top.startswith("numpy.random") or name.startswith("numpy.random"):
        return rng_call(c)
    elif top == "math" or top == "cmath":
        return math_call(c)
    elif top == "scipy.special":
        return c.ew(args)
    elif top.startswith("scipy.stats"):
        r = stats_call(c) if recv is None else frozen_method(c)
        if r is not NotImplemented:
            return r
    elif name.startswith("random.") or name.startswith("secrets.") or name == "os.urandom" or name.startswith("uuid."):
        I.event("rng", name, node, fr)
        return c.default()
    elif name.startswith("time.") or name.startswith("datetime.datetime.now") or name.startswith("datetime.date.today"):
        I.event("clock", name, node, fr)
        return c.default()
    elif name.startswith("numpy.linalg") or name.startswith("scipy.linalg"):
        f = c.facets()
        return unk(f.but(ord=f.ord if f.ord in ("I", "P", "X") else "U", rank=None))
    elif recv is not None:
        if top == "ndarray" or leaf in () :
            r = nd_method(c)
            if r is not NotImplemented:
                return r
        if top == "list":
            r = list_method(c)
            if r is not NotImplemented:
                return r
        if top == "dict":
            r = dict_method(c)
            if r is not NotImplemented:
                return r
        if top == "set":
            r = set_method(c)
            if r is not NotImplemented:
                return r
        if top == "str":
            return str_method(c)
        if top == "bytes":
            if leaf == "decode":
                return string(c.facets().but(ord="I"))
            return c.default()
        if top == "num":
            return num_method(c)
        if top in ("?",):
            return nd_or_unknown(c)
        if top in ("tuple", "range"):
            if leaf == "index" or leaf == "count":
                return num(c.facets().but(rank=0, py=True))
        if top == "gen" and leaf == "__next__":
            return I.elem_of(recv, st)
    if top == "builtins" and recv is None and (leaf.endswith("Error") or leaf.endswith("Exception") or leaf.endswith("Warning") or leaf in ("StopIteration", "KeyboardInterrupt")):
        f = Facets(deps=frozenset().union(*[I.eff_deps(a, st) for a in args]) if args else frozenset(),
                   facts=frozenset().union(*[I.eff_facts(a, st) for a in args], {("exc-class", leaf)}))
        return I.new("ext", node, fr, st, f=f, extra=name, attrs={"args": AV(frozenset({("t", tuple(args))}))}, tag="exc")
    if leaf[:1].isupper() or name in EXT_FACTORIES:
        return c.ext()
    return c.default()


EXT_FACTORIES = {"sqlalchemy.create_engine", "sqlalchemy.orm.sessionmaker", "sqlalchemy.select", "sqlalchemy.orm.mapped_column",
                 "sqlalchemy.orm.declarative_base", "sqlalchemy.desc", "dataclasses.field", "scipy.stats.ecdf",
                 "pathlib.Path", "logging.getLogger", "scipy.stats.gaussian_kde", "sqlalchemy.and_", "sqlalchemy.or_",
                 "sqlalchemy.delete", "sqlalchemy.update", "sqlalchemy.insert"}


class Ctx:
    __slots__ = ("I", "name", "leaf", "recv", "args", "kwargs", "st", "fr", "node", "star", "kwstar")

    def __init__(self, *a):
        (self.I, self.name, self.leaf, self.recv, self.args, self.kwargs, self.st, self.fr, self.node, self.star,
         self.kwstar) = a

    def arg(self, i, kw=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        if kw is not None and kw in self.kwargs:
            return self.kwargs[kw]
        return default

    def all(self):
        return ([self.recv] if self.recv is not None else []) + self.args + list(self.kwargs.values())

    def facets(self):
        f = self.I.args_facets(self.all(), {}, self.st, self.star, self.kwstar)
        return f.but(idx=None, term=None, iv=TOP_IV, rank=None, py=False, facts=clean(f.facts))

    def default(self):
        f = self.facets()
        return unk(f.but(ord=f.ord if f.ord in ("I", "X") else "U"))

    def ext(self):
        f = self.facets()
        facts = frozenset().union(*[self.I.eff_facts(a, self.st) for a in self.all()]) if self.all() else frozenset()
        attrs = dict(self.kwargs) if self.name == "dataclasses.field" else {}
        return self.I.new("ext", self.node, self.fr, self.st, f=f.but(facts=f.facts | facts, ord=f.ord if f.ord in ("I", "X") else "U"),
                          extra=self.name, attrs=attrs)

    def eff(self, v):
        return self.I.eff(v, self.st)

    def ew(self, args, term=None, iv=TOP_IV, py=False, boolres=False):
        if self.star is not None:
            return self.default()
        return ewise(self.I, args, self.st, self.node, self.fr, f"{self.name}()", term=term, iv=iv, py=py, boolres=boolres)

    def red(self, v, **kw):
        return reduce_(self.I, v, self.st, self.node, self.fr, **kw)

    def arr(self, f, length_=None, tag="", **kw):
        return arr(self.I, self.node, self.fr, self.st, f, length_, tag, **kw)

    def list(self, f, tag="", **kw):
        return self.I.new("list", self.node, self.fr, self.st, f=f, tag="list" + tag, **kw)

    def isarr(self, v):
        return is_arr(self.I, v, self.st)

    def len(self, v):
        return length(self.I, v, self.st)

    def check_out(self):
        o = self.kwargs.get("out")
        if o is not None:
            self.I.mutate(o, f"out= of {self.name}", self.node, self.st, self.fr)
            for oid, ob in self.I.objs(o, self.st):
                f = self.facets()
                self.st.heap[oid] = ob.but(f=f.but(rank=ob.f.rank), elems=None)
        for k in ("overwrite_input", "overwrite_a", "overwrite_b", "overwrite_x"):
            v = self.kwargs.get(k)
            if v is not None and self.I.truth(v, self.st) is not False and self.args:
                self.I.mutate(self.args[0], f"{k} of {self.name}", self.node, self.st, self.fr)


def known_term(I, x, st):
    t = I.eff(x, st).term
    if t is None:
        ok, c = x.const()
        if ok and isinstance(c, (int, float)) and not isinstance(c, bool):
            t = sympy.Integer(c) if isinstance(c, int) else sympy.Rational(str(c))
    return t


def known_reduction(I, v, leaf, ddof, st):
    """A reduction of a sequence of known terms as a term."""
    k = I.known_elems(v, st)
    ts = [known_term(I, x, st) for x in k] if k else [None]
    d = ddof.const() if ddof is not None else (True, 0)
    if any(t is None for t in ts) or not d[0]:
        return None
    if leaf in ("max", "min"):
        p = order_pick(I, k, leaf, st)
        return I.eff(p, st).term if p is not None else None
    n = len(ts)
    if leaf == "sum":
        return sum(ts)
    m = sum(ts) / n
    if leaf == "mean":
        return m
    return sum((t - m) ** 2 for t in ts) / (n - d[1]) if n > d[1] else None


def numpy_call(c):
    I, leaf, args, st, fr, node = c.I, c.leaf, c.args, c.st, c.fr, c.node
    c.check_out()
    if leaf in EW:
        ops = [a for a in args] + [v for k, v in c.kwargs.items() if k in ("x", "a_min", "a_max", "min", "max", "x1", "x2", "a", "decimals")]
        if leaf == "where" and len(ops) == 1:
            f = c.eff(ops[0])
            o = {"E": "M", "P": "P", "I": "I"}.get(f.ord, "U")
            return AV(frozenset({("t", (c.arr(f.but(ord=o, rank=1, facts=frozenset(), term=None)),))}))
        t = fn_term(leaf, c.eff(ops[0]).term) if len(ops) == 1 else None
        iv = fn_iv(leaf, c.eff(ops[0]).iv) if len(ops) == 1 else TOP_IV
        if leaf in ("float64", "float32", "negative", "positive", "real"):
            f0 = c.eff(ops[0]) if ops else F0
            if leaf == "negative":
                t, iv = t_neg(f0.term), (-f0.iv[1], -f0.iv[0], f0.iv[2])
            else:
                t, iv = laws.Single(f0.term) if leaf == "float32" and f0.term is not None else f0.term, f0.iv
        if leaf in ("round", "around", "round_", "float32") and args and not c.isarr(args[0]):
            cs = [x.const() for x in args[:2] + [c.kwargs[k] for k in ("decimals",) if k in c.kwargs]]
            if all(ok and type(x) in (int, float) for ok, x in cs) and len(cs) == (1 if leaf == "float32" else len(cs)):
                return const(struct.unpack("f", struct.pack("f", cs[0][1]))[0] if leaf == "float32" else round(*[x for _, x in cs]) if len(cs) > 1 else float(round(cs[0][1]))).plus(deps=c.eff(args[0]).deps)
        if leaf in ("round", "around", "round_") and args and c.isarr(args[0]) and len(args) < 3:
            k = I.known_elems(args[0], st)
            nd = (args[1:2] or [c.kwargs[k2] for k2 in ("decimals",) if k2 in c.kwargs] or [const(0)])[0].const()
            if k is not None and nd[0] and all(x.const()[0] and type(x.const()[1]) in (int, float) for x in k):
                return c.arr(c.facets().but(rank=1, term=None), elems=tuple(const(round(x.const()[1], nd[1])) for x in k))
        if leaf in ("round", "around", "round_") and args:
            t = round_term(c.eff(args[0]).term, args[1:2] or [c.kwargs[k] for k in ("decimals",) if k in c.kwargs])
        if leaf == "isclose" and hasattr(I.order, "value") and len(args) == 2 and not any(c.isarr(x) for x in args):
            r = close(I, args, c.kwargs, 1e-5, 1e-8, st, asym=True)
            if r is not None:
                return const(r)
        two = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "power": "Pow"}
        if leaf in two and len(ops) == 2:
            fa, fb = c.eff(ops[0]), c.eff(ops[1])
            t = term_op(two[leaf], fa.term, fb.term)
            iv = iv_op(two[leaf], fa.iv, fb.iv, not (fa.deps & fb.deps))
        if leaf in ("maximum", "minimum", "fmax", "fmin") and len(ops) == 2:
            p = order_pick(I, ops, "max" if "max" in leaf else "min", st) if I.order is not None else None
            if p is not None:
                return p
            t, iv = minmax(leaf[-3:] if leaf.startswith("f") else leaf[:3], [c.eff(o) for o in ops])
        if leaf == "clip":
            iv, t = clip_iv(c, ops)
        if leaf == "where" and len(ops) == 3:
            ia, ib = c.eff(ops[1]).iv, c.eff(ops[2]).iv
            iv = (min(ia[0], ib[0]), max(ia[1], ib[1]), False)
        if leaf in ("isnan", "isinf", "isfinite") and I.known_run and len(ops) == 1:
            ok, v = ops[0].const()
            if ok and isinstance(v, (int, float)):
                return const({"isnan": math.isnan, "isinf": math.isinf, "isfinite": math.isfinite}[leaf](v))
        r = c.ew(ops, term=t, iv=iv, boolres=leaf in MASKS)
        if leaf in MASKS:
            mark_mask(c, r)
        return r
    if leaf in RED:
        v = c.arg(0, "a")
        if v is None:
            return c.default()
        if leaf == "average" and ("weights" in c.kwargs or len(args) > 2):
            w = c.kwargs.get("weights") or args[2]
            return c.red(c.ew([v, w]), axis="axis" in c.kwargs)
        axis = ("axis" in c.kwargs and c.kwargs["axis"].const() != (True, None)) or (len(args) > 1 and leaf not in ("percentile", "quantile", "average", "nanpercentile", "nanquantile"))
        iv = TOP_IV
        f = c.eff(v)
        if leaf in ("max", "min", "median", "mean", "percentile", "quantile"):
            iv = (f.iv[0], f.iv[1], False)
        elif leaf in ("std", "var", "ptp", "count_nonzero"):
            iv = (0, INF, False)
        elif leaf == "sum" and f.iv[0] >= 0:
            iv = (0, INF, False)
        r = c.red(v, axis=axis, iv=iv, boolres=leaf in ("any", "all"))
        if not axis and constant_sample(I, v, leaf, st):
            return boolean(r.f.but(ord="I", wit=None))
        if I.known_run and hasattr(I.order, "value") and not axis and leaf in ("sum", "mean", "var", "max", "min") and len(args) == 1 and not set(c.kwargs) - {"ddof"}:
            t = known_reduction(I, v, leaf, c.kwargs.get("ddof"), st)
            if t is not None:
                return r.but(term=t)
        if leaf in ("percentile", "quantile") and len(args) > 1:
            q = args[1]
            r = r.plus(deps=I.eff_deps(q, st))
            if c.isarr(q):
                return c.arr(r.f.but(rank=1, ord=join_ord(r.f.ord, c.eff(q).ord)))
        return r
    if leaf in ("sort", "unique", "sort_complex", "partition", "msort"):
        v = c.arg(0, "a") or c.arg(None, "ar")
        f = c.eff(v)
        deps = I.eff_deps(v, st)
        if I.order is not None and leaf in ("sort", "unique") and not (set(c.kwargs) - {"a", "ar"}):
            k = I.known_elems(v, st)
            k = order_sorted(I, k, k, st) if k is not None else None
            if k is not None:
                if leaf == "unique":
                    k = [x for i, x in enumerate(k) if i == 0 or term_cmp(I, k[i - 1], x, st) != 0]
                return I.new("array", node, fr, st, f=f.but(deps=deps, rank=1), elems=tuple(k))
        o = {"E": "P", "P": "P", "I": "I", "R": "P", "M": "U"}.get(f.ord, f.ord)
        if f.rank is not None and f.rank >= 2:
            o = "U" if f.ord not in ("I", "X", "P") else f.ord
        if leaf == "partition":
            o = {"P": "P"}.get(o, "U")
        nf = f.but(deps=deps, ord=o, rank=f.rank or 1, facts=clean(f.facts))
        if leaf == "unique":
            flags = [k for k in ("return_index", "return_inverse", "return_counts") if k in c.kwargs and I.truth(c.kwargs[k], st) is not False]
            out = c.arr(nf, distinct_length(c.len(v)))
            if flags:
                parts = [out]
                for k in flags:
                    oo = {"return_index": "M", "return_inverse": f.ord if f.ord in ("E", "P", "I", "X") else "U", "return_counts": "P"}[k]
                    parts.append(c.arr(Facets(deps=deps, ord=oo, rank=1), tag=k))
                return AV(frozenset({("t", tuple(parts))}))
            return out
        return c.arr(nf, c.len(v))
    if leaf in ("argsort", "lexsort"):
        f = c.eff(args[0] if args else c.arg(None, "a"))
        deps = I.eff_deps(args[0], st) if args else f.deps
        if I.order is not None and leaf == "argsort" and args:
            k = I.known_elems(args[0], st)
            p = order_sorted(I, [const(i) for i in range(len(k))], k, st) if k is not None else None
            if p is not None:
                return I.new("array", node, fr, st, f=f.but(deps=deps, rank=1), elems=tuple(p))
        o = {"E": "M", "P": "P", "I": "I", "M": "E"}.get(f.ord, "X" if f.ord == "X" else "U")
        return c.arr(Facets(deps=deps, ord=o, rank=1, iv=(0, INF, False)), c.len(args[0]) if args else None)
    if leaf in ("argmax", "argmin", "nanargmax", "nanargmin"):
        f = c.eff(args[0])
        o = {"E": "M", "P": "I", "I": "I"}.get(f.ord, "X" if f.ord == "X" else "U")
        return num(Facets(deps=I.eff_deps(args[0], st), ord=o, rank=0, iv=(0, INF, False), facts=frozenset({("perm-scalar",)})))
    if leaf in POSITIONAL:
        v = args[0] if args else c.arg(None, "a")
        f = combine(I, args[:1] if leaf not in ("convolve", "correlate", "trapz", "trapezoid") else args[:2], st, node, fr)
        o, wit = f.ord, f.wit
        if o in ("E", "R"):
            if leaf in ("flip", "flipud", "rot90"):
                o = "R" if o == "E" else "U"
            else:
                o = "X" if o == "E" else "U"
                wit = (f"{leaf}() works on neighbouring positions of the caller's sample", I.site(node, fr))
        elif o == "I":
            o = "P"
        elif o == "M":
            o = "U"
        nf = f.but(ord=o, wit=wit, rank=1)
        if leaf in ("cumsum", "cumprod") and o == "X" and f.ord == "E":
            nf = nf.but(ord="E" if False else "X")
        if leaf.startswith("trap"):
            return num(nf.but(rank=0, ord="I" if o == "P" else o))
        return c.arr(nf)
    if leaf in ("array", "asarray", "copy", "atleast_1d", "fromiter", "require", "float128", "asarray_chkfinite"):
        return as_array(c, leaf)
    if leaf in ("zeros", "ones", "empty", "full", "identity", "eye"):
        sh = c.arg(0, "shape")
        rank = 2 if leaf in ("identity", "eye") else 1
        ln = None
        if sh is not None and (sh.has("t")):
            rank = max(len(x[1]) for x in sh.of("t"))
            if rank == 1:
                ln = sh.of("t")[0][1][0]
        elif sh is not None and is_list(I, sh, st):
            k = I.known_elems(sh, st)
            rank = len(k) if k else None
        elif sh is not None:
            ln = sh
        f = Facets(deps=I.eff_deps(sh, st) if sh is not None else frozenset(), ord="P" if leaf in ("identity", "eye") else "I", rank=rank,
                   facts=frozenset())
        if leaf == "full":
            v = c.arg(1, "fill_value", unk())
            vf = c.eff(v)
            f = f.but(deps=f.deps | vf.deps, ord=vf.ord, iv=vf.iv)
        elif leaf == "zeros":
            f = f.but(iv=(0, 0, True))
        elif leaf == "ones":
            f = f.but(iv=(1, 1, True))
        cn, vn = ln.const() if ln is not None else (False, None)
        if I.known_run and cn and isinstance(vn, int) and 0 <= vn <= 600 and rank == 1:
            e = {"zeros": const(0.0), "ones": const(1.0)}.get(leaf) or (c.arg(1, "fill_value") if leaf == "full" else None) or num(Facets(rank=0, term=sympy.Symbol("uninitialised")))
            return c.arr(f, ln, elems=(e,) * vn)
        return c.arr(f, ln)
    if leaf in ("zeros_like", "ones_like", "empty_like", "full_like"):
        f = c.eff(args[0])
        return c.arr(Facets(deps=f.deps, ord="I", rank=f.rank or 1), c.len(args[0]))
    if leaf in ("arange", "linspace", "logspace", "geomspace"):
        f = c.facets()
        ln = None
        if leaf == "arange":
            if len(args) == 1:
                ln = args[0]
            elif len(args) == 2:
                lt = term_op("Sub", args[1].f.term, args[0].f.term)
                if lt is not None:
                    ln = num(Facets(deps=f.deps, term=sympy.expand(lt), rank=0, iv=(0, INF, False)))
        elif len(args) > 2 or "num" in c.kwargs:
            ln = c.arg(2, "num")
        o = "P" if f.ord == "I" else ("U" if f.ord not in ("X",) else "X")
        return c.arr(f.but(ord=o, rank=1), ln)
    if leaf in ("concatenate", "hstack", "vstack", "stack", "append", "column_stack", "r_", "insert", "tile", "repeat", "pad"):
        parts = []
        if leaf in ("append", "insert", "tile", "repeat", "pad"):
            parts = args
        else:
            k = I.known_elems(args[0], st) if args else None
            parts = k if k is not None else args
        if I.known_run and parts and (leaf in ("concatenate", "hstack") and len(args) == 1 and set(c.kwargs) <= {"axis"} or leaf == "append" and len(args) == 2 and not c.kwargs):
            ks = [I.known_elems(p, st) if is_arr(I, p, st) else [p] if p.f.rank == 0 and leaf != "concatenate" else None for p in parts]
            if None not in ks and not any(is_arr(I, x, st) for k in ks for x in k):
                fs = [c.eff(p) for p in parts]
                deps = frozenset().union(*[I.eff_deps(p, st) for p in parts])
                return I.new("array", node, fr, st, f=fs[0].but(deps=deps, rank=1, term=None), elems=tuple(x for k in ks for x in k))
        fs = [c.eff(p) for p in parts]
        deps = frozenset().union(*[I.eff_deps(p, st) for p in parts]) if parts else frozenset()
        if leaf in ("tile", "repeat", "pad"):
            o = fs[0].ord if fs[0].ord in ("I", "P", "X") else "U"
        else:
            o = concat_ord([x.ord for x in fs])
        wit = next((x.wit for x in fs if x.wit), None)
        rank = 1
        if leaf in ("vstack", "stack", "column_stack"):
            rank = 2
        if any(x.rank is None for x in fs):
            rank = None if rank == 1 and any(x.rank is None and not x.py for x in fs) and False else rank
        iv = TOP_IV
        if fs:
            iv = (min(x.iv[0] for x in fs), max(x.iv[1] for x in fs), False)
        el = None
        ln = None
        if I.post is not None and leaf == "concatenate" and len(args) == 1 and not c.kwargs and k is not None:
            ls = [length(I, p, st) for p in parts]
            if parts and all(x is not None and x.f.term is not None for x in ls):
                ln = num(Facets(rank=0, term=sympy.expand(sum(x.f.term for x in ls)), iv=(0, INF, False), py=True))
        return c.arr(Facets(deps=deps, ord=o, rank=rank, wit=wit, iv=iv, facts=frozenset().union(*[clean(x.facts) for x in fs]) if fs else frozenset()), ln)
    if leaf == "histogram":
        f = combine(I, args[:1], st)
        o = "P" if f.ord in ("E", "P", "I", "R") else f.ord
        te = c.eff(args[0]).term if args else None
        te = te.subs(X_SYM, EDGE_SYM) if te is not None and te.has(X_SYM) else None
        f = f.but(ord=o, rank=1, deps=c.facets().deps, term=None)
        return AV(frozenset({("t", (c.arr(f.but(iv=(0, INF, False)), tag="h"), c.arr(f.but(term=te), tag="e")))}))
    if leaf in ("searchsorted", "digitize"):
        a0, a1 = (args[0], args[1]) if leaf == "searchsorted" else (args[1], args[0])
        f0, f1 = c.eff(a0), c.eff(a1)
        o = f1.ord if f0.ord in ("I", "P") else "U"
        nf = Facets(deps=I.eff_deps(a0, st) | I.eff_deps(a1, st), ord=o, rank=f1.rank, iv=(0, INF, False), facts=clean(f1.facts))
        return c.arr(nf, c.len(a1)) if c.isarr(a1) else (num(nf.but(rank=0)) if UNK not in a1.atoms else unk(nf))
    if leaf == "bincount":
        f = c.eff(args[0])
        return c.arr(Facets(deps=c.facets().deps, ord="P" if f.ord in ("E", "P", "I") and len(args) == 1 else "U", rank=1))
    if leaf == "interp":
        f = [c.eff(a) for a in args[:3]]
        o = f[0].ord if all(x.ord in ("I", "P") for x in f[1:]) else "U"
        nf = Facets(deps=c.facets().deps, ord=o, rank=f[0].rank)
        return c.arr(nf) if c.isarr(args[0]) else num(nf)
    if leaf in ("dot", "vdot", "inner", "matmul"):
        if len(args) >= 2:
            return dot(I, args[0], args[1], st, node, fr)
        return c.default()
    if leaf == "outer":
        f = [c.eff(a) for a in args[:2]]
        o = "E" if all(x.ord in ("E", "I") for x in f) and any(x.ord == "E" for x in f) else ("P" if all(x.ord in ("I", "P") for x in f) else "U")
        return c.arr(Facets(deps=c.facets().deps, ord=o, rank=2))
    if leaf in ("corrcoef", "cov"):
        f = combine(I, args[:2], st, node, fr, f"{leaf}()")
        o = {"E": "P", "P": "P", "I": "P", "M": "P"}.get(f.ord, f.ord)
        if len(args) == 1:
            o = "U"
        return c.arr(f.but(ord=o, rank=2))
    if leaf in ("polyfit",):
        f = combine(I, args[:2], st, node, fr, "polyfit()")
        return c.arr(f.but(ord={"E": "P", "P": "P", "I": "P", "M": "P"}.get(f.ord, f.ord), rank=1))
    if leaf == "polyval":
        f = c.eff(args[1])
        f0 = c.eff(args[0])
        nf = Facets(deps=c.facets().deps, ord=f.ord if f0.ord in ("I", "P") else "U", rank=f.rank, facts=clean(f.facts))
        return c.arr(nf) if c.isarr(args[1]) else (num(nf) if UNK not in args[1].atoms else unk(nf))
    if leaf == "isin":
        f0, f1 = c.eff(args[0]), c.eff(args[1])
        o = f0.ord if f1.ord in ("I", "P", "E", "R") else f1.ord
        r = c.arr(Facets(deps=c.facets().deps, ord=o, rank=1)) if c.isarr(args[0]) else boolean(Facets(deps=c.facets().deps, ord=o, rank=0))
        mark_mask(c, r)
        return r
    if leaf in ("put", "copyto", "place", "putmask", "fill_diagonal"):
        I.mutate(args[0], f"numpy.{leaf}", node, st, fr)
        for oid, o in I.objs(args[0], st):
            st.heap[oid] = o.but(f=o.f.but(ord="U" if o.f.ord not in ("I",) else "P", deps=o.f.deps | c.facets().deps), elems=None)
        return NONE
    if leaf in ("reshape", "ravel", "squeeze", "transpose", "atleast_2d", "expand_dims"):
        f = c.eff(args[0])
        roots = frozenset().union(*[o.roots for _, o in I.objs(args[0], st)]) if I.objs(args[0], st) else frozenset()
        rank = {"ravel": 1, "atleast_2d": 2, "expand_dims": 2}.get(leaf, f.rank if leaf in ("squeeze", "transpose") else None)
        return I.new("array", node, fr, st, f=f.but(rank=rank, py=False), roots=roots)
    if leaf in ("meshgrid",):
        return c.default()
    if leaf in ("triu", "tril", "diag", "delete", "extract", "compress", "take", "broadcast_to", "cross", "split", "array_split"):
        f = c.eff(args[0])
        return c.arr(Facets(deps=c.facets().deps, ord=f.ord if f.ord in ("I", "P", "X") else "U", rank=None, wit=f.wit))
    if leaf in ("array_equal", "allclose", "issubdtype", "isscalar", "iscomplexobj", "ndim", "shares_memory", "may_share_memory"):
        if leaf == "ndim":
            return num(Facets(rank=0, py=True, iv=(0, INF, False)))
        f = combine(I, args[:2], st, node, fr)
        return boolean(Facets(deps=c.facets().deps, ord={"E": "I", "P": "I", "M": "I"}.get(f.ord, f.ord), rank=0))
    if leaf in ("size", "shape"):
        ln = c.len(args[0])
        if ln is None:
            ln = num(Facets(deps=c.eff(args[0]).deps, rank=0, py=True, iv=(0, INF, False)))
        return ln if leaf == "size" else AV(frozenset({("t", (ln,))}))
    if leaf in ("errstate", "printoptions"):
        return c.ext()
    if leaf in ("seterr", "set_printoptions", "seterrcall"):
        I.event("global-write", f"numpy.{leaf}", node, fr)
        return unk()
    if leaf in ("save", "savetxt", "load", "loadtxt", "savez", "fromfile", "genfromtxt"):
        I.event("io", c.name, node, fr)
        return c.default()
    if leaf in ("finfo", "iinfo"):
        return c.ext()
    if leaf == "frombuffer":
        f = c.facets()
        return c.arr(f.but(rank=1, ord="U" if f.ord != "I" else "I"))
    if leaf in ("vectorize",):
        if args:
            return AV(frozenset({("xb", "numpy.vectorize.__call__", args[0])}))
    if leaf == "apply_along_axis":
        return c.default()
    if leaf in ("nonzero", "flatnonzero", "argwhere"):
        f = c.eff(args[0])
        o = {"E": "M", "P": "P", "I": "I"}.get(f.ord, "U")
        a = c.arr(f.but(ord=o, rank=1, facts=frozenset(), term=None))
        return AV(frozenset({("t", (a,))})) if leaf == "nonzero" else a
    return NotImplemented


def clip_iv(c, ops):
    lo, hi = None, None
    x = ops[0]
    if len(ops) >= 2:
        lo = ops[1]
    if len(ops) >= 3:
        hi = ops[2]
    for k in ("a_min", "min"):
        if k in c.kwargs:
            lo = c.kwargs[k]
    for k in ("a_max", "max"):
        if k in c.kwargs:
            hi = c.kwargs[k]
    iv = c.eff(x).iv
    l, h, t = iv
    if lo is not None and lo.const() != (True, None):
        l = max(l, c.eff(lo).iv[0])
        h = max(h, c.eff(lo).iv[0])
    if hi is not None and hi.const() != (True, None):
        h = min(h, c.eff(hi).iv[1])
        l = min(l, c.eff(hi).iv[1])
    term = c.eff(x).term
    if term is not None:
        try:
            if lo is not None and lo.const() != (True, None):
                term = sympy.Max(term, c.eff(lo).term) if c.eff(lo).term is not None else None
            if term is not None and hi is not None and hi.const() != (True, None):
                term = sympy.Min(term, c.eff(hi).term) if c.eff(hi).term is not None else None
        except Exception:
            term = None
    return (l, h, t), term


def minmax(kind, fs):
    terms = [f.term for f in fs]
    t = None
    if all(x is not None for x in terms):
        try:
            t = sympy.Max(*terms) if kind == "max" else sympy.Min(*terms)
        except Exception:
            t = None
    if kind == "max":
        iv = (max(f.iv[0] for f in fs), max(f.iv[1] for f in fs), all(f.iv[2] for f in fs))
    else:
        iv = (min(f.iv[0] for f in fs), min(f.iv[1] for f in fs), all(f.iv[2] for f in fs))
    return t, iv


def mark_mask(c, r):
    for oid, o in c.I.objs(r, c.st):
        c.st.heap[oid] = o.but(f=o.f.but(facts=o.f.facts | {("mask",)}))


def as_array(c, leaf):
    I, st, fr, node = c.I, c.st, c.fr, c.node
    v = c.arg(0, "object") or c.arg(None, "a")
    if v is None:
        return c.default()
    v = nonnone(v)
    copy = leaf in ("array", "copy", "fromiter")
    if "copy" in c.kwargs and I.truth(c.kwargs["copy"], st) is not True:
        copy = False
    if v.has("t") and len(v.atoms) == 1:
        k = list(v.single()[1])
        f = Facets(rank=1, ord=I.seq_ord(k, st), deps=I.eff_deps(v, st))
        if any(is_arr(I, x, st) for x in k):
            return c.arr(f.but(rank=2, ord=f.ord if f.ord in ("I", "P", "X") else "U"))
        return c.arr(f, elems=tuple(k))
    os_ = I.objs(v, st)
    if len(os_) == len(v.atoms) and os_:
        res = None
        for i, (oid, o) in enumerate(os_):
            if not copy and (o.kind == "array" or (o.kind == "sample" and o.extra == "array")):
                res = join(res, AV(frozenset({("r", oid)}), o.f))
                continue
            rank = o.f.rank if o.f.rank else 1
            e = o.elem
            elems = o.elems if o.kind in ("list", "array", "gen", "range") else None
            if elems is not None and any(is_arr(I, x, st) for x in elems):
                rank, elems, e = 2, None, None
            elif e is not None and is_arr(I, e, st):
                rank, e = 2, None
            elif elems is None and e is not None and not (e.atoms <= {NUM, BOOL} or all(x[0] == "c" for x in e.atoms)):
                rank = rank if NUM in e.atoms else None
                e = None
            elif elems is None:
                e = None
            of = o.f
            if o.elem is not None:
                of = of.but(deps=of.deps | o.elem.f.deps)
            ln = length(I, AV(frozenset({("r", oid)}), o.f), st)
            if o.kind in ("set", "dict") or o.kind not in ARR + ("ext", "inst"):
                r = unk(of)
            elif o.kind in ("ext", "inst"):
                r = unk(of.but(deps=I.eff_deps(AV(frozenset({("r", oid)})), st)))
            else:
                nf = of.but(rank=rank, deps=I.eff_deps(AV(frozenset({("r", oid)}), of), st))
                if rank == 2 and nf.ord in ("E",) and False:
                    nf = nf.but(ord="U")
                r = c.arr(nf if rank else nf.but(rank=None), ln, tag=str(i), elems=elems)
            res = join(res, r)
        return res
    f = combine(I, [v], st)
    if v.atoms <= {NUM, BOOL} or all(a[0] == "c" for a in v.atoms):
        return num(f.but(term=v.f.term, iv=v.f.iv, py=False)) if leaf != "atleast_1d" else c.arr(f.but(rank=1))
    if os_:
        # mixture of arrays and something else
        roots = frozenset().union(*[o.roots for _, o in os_]) if not copy else frozenset()
        return I.new("array", node, fr, st, f=f, roots=roots)
    return unk(f)


def close(I, args, kwargs, rel, tol, st, asym=False):
    """math.isclose / numpy.isclose where the scenario gives the values."""
    names = {"rel_tol": "r", "abs_tol": "a", "rtol": "r", "atol": "a"}
    opt = {"r": rel, "a": tol}
    for k, v in kwargs.items():
        ok, x = v.const()
        if k not in names or not ok:
            return None
        opt[names[k]] = x
    vs = []
    for a in args:
        ok, x = a.const()
        t = I.eff(a, st).term
        x = sympy.Rational(str(x)) if ok and isinstance(x, (int, float)) and x == x and abs(x) != INF else I.order.value(t) if t is not None else None
        if x is None:
            return None
        vs.append(x)
    big = abs(vs[1]) if asym else max(abs(vs[0]), abs(vs[1]))
    d = abs(vs[0] - vs[1])
    return bool(d <= opt["a"] + opt["r"] * big if asym else d <= max(opt["r"] * big, opt["a"]))


def math_call(c):
    I, leaf, args, st, fr, node = c.I, c.leaf, c.args, c.st, c.fr, c.node
    if leaf in ("fsum", "prod"):
        return c.red(args[0], py=True)
    if leaf in ("isnan", "isinf", "isfinite") and I.known_run and len(args) == 1:
        ok, v = args[0].const()
        if ok and isinstance(v, (int, float)):
            return const({"isnan": math.isnan, "isinf": math.isinf, "isfinite": math.isfinite}[leaf](v))
    if leaf == "isclose" and hasattr(I.order, "value") and len(args) == 2:
        r = close(I, args, c.kwargs, 1e-9, 0, st)
        if r is not None:
            return const(r)
    if leaf in ("isclose", "isnan", "isinf", "isfinite"):
        return boolean(combine(I, args, st).but(rank=0, py=True))
    for a in args:
        lists = is_list(I, a, st)
        if lists or (any(o.kind == "sample" for _, o in I.objs(a, st)) and len(a.atoms) == 1):
            fail(I, "type-error", f"math.{leaf} of a whole sample or list", node, fr, st, key=f"math.{leaf} of sequence in {fr.name}")
    consts = [a.const() for a in args]
    if consts and all(x[0] and isinstance(x[1], (int, float)) for x in consts) and hasattr(math, leaf):
        try:
            if not any(isinstance(x[1], (int, float)) and abs(x[1]) > 500 for x in consts):
                return const(getattr(math, leaf)(*[x[1] for x in consts])).plus(deps=c.facets().deps)
        except (ValueError, OverflowError, TypeError, ZeroDivisionError):
            fail(I, "value-error", f"math.{leaf} is called outside its domain with constants", node, fr, st, "builtins.ValueError")
    f = combine(I, args, st, node, fr)
    t = fn_term(leaf, args[0].f.term) if len(args) == 1 else None
    if leaf == "pow" and len(args) == 2:
        t = term_op("Pow", args[0].f.term, args[1].f.term)
    iv = fn_iv(leaf, args[0].f.iv) if len(args) == 1 else TOP_IV
    if leaf in ("comb", "factorial", "perm", "gamma"):
        iv = (0, INF, False)
    return num(f.but(rank=0, py=True, term=t, iv=iv))


def law_of(I, family, params, st):
    """The law with the terms of its parameters."""
    return laws.Law(family, {n: laws.term_of(v) if v.f.rank in (0, None) or v.const()[0] else None for n, v in params.items()})


def note_law(c, family, method, args, kwargs):
    """Record the use of a scipy.stats law; the law with its parameter terms, or None."""
    if c.star is not None or c.kwstar is not None:
        return None
    b = laws.bind_scipy(family, method, args, kwargs)
    if b is None:
        return None
    p, x, size = b
    L = law_of(c.I, family, p, c.st)
    deps = frozenset().union(*[c.I.eff_deps(v, c.st) for v in p.values()]) if p else frozenset()
    c.I.law_uses.append(laws.Use(method, L, laws.term_of(x), size, c.I.site(c.node, c.fr), c.node, deps,
                                 c.I.eff_deps(x, c.st) if x is not None else frozenset()))
    return L


def draw_term(c, L):
    """The symbol standing for the values drawn at this call."""
    key = (id(c.node), c.fr.ctx if hasattr(c.fr, "ctx") else id(c.fr.func) if hasattr(c.fr, "func") else None)
    s = c.I.draw_syms.get(key)
    if s is None:
        s = sympy.Symbol(f"draw{len(c.I.draw_syms)}", real=True)
        c.I.draw_syms[key] = s
    c.I.draws[s] = L
    return s


def split_draw(c, L, sz, nf):
    """Each drawn value as a symbol of its own, while a run on a known size is followed; None otherwise."""
    I = c.I
    if not I.split_draws or L is None:
        return None

    def one():
        s = sympy.Symbol(f"draw{len(I.draws)}_{I.fresh()}", real=True)
        I.draws[s] = L
        I.split_order.append(s)
        return num(nf.but(rank=0, term=s))
    if sz is None or sz.const() == (True, None):
        return one()
    ok, k = sz.const()
    if ok and isinstance(k, int) and 0 <= k <= 64:
        return I.new("array", c.node, c.fr, c.st, f=nf.but(rank=1), elems=tuple(one() for _ in range(k)))
    return None


def frozen_method(c):
    """A method of a frozen distribution: the same call on the family."""
    os_ = c.I.objs(c.recv, c.st)
    if len(os_) != 1 or len(c.recv.atoms) != 1:
        return NotImplemented
    o = os_[0][1]
    if o.kind != "ext" or "%frozen" not in o.attrs:
        return NotImplemented
    fam = o.extra.split(".")[2]
    fa = list(o.attrs["%frozen"].single()[1])
    fk = {k[3:]: v for k, v in o.attrs.items() if k.startswith("%k:")}
    if c.leaf == "rvs":
        kw = dict(fk)
        if c.args:
            kw["size"] = c.args[0]
        kw.update(c.kwargs)
        args = fa
    elif c.leaf in DIST_METHODS:
        args, kw = list(c.args) + fa, {**fk, **c.kwargs}
    elif c.leaf in DIST_STATS:
        args, kw = fa, fk
    else:
        return NotImplemented
    return stats_call(Ctx(c.I, f"scipy.stats.{fam}.{c.leaf}", c.leaf, None, args, kw, c.st, c.fr, c.node, c.star, c.kwstar))


def known_law(c, family, L, iv):
    """A law's function at each element of a sequence of known terms."""
    I, st = c.I, c.st
    if L is None or not c.args:
        return None
    x = c.args[0]
    ps = [L.p[k] for k in sorted(L.p)]
    k = I.known_elems(x, st) if is_arr(I, x, st) else None
    if k is None or any(p is None for p in ps):
        return None
    ts = [known_term(I, e, st) for e in k]
    if any(t is None for t in ts):
        return None
    F = sympy.Function(f"law_{family}_{c.leaf}", real=True)
    f = c.facets()
    return I.new("array", c.node, c.fr, st, f=f.but(rank=1, iv=iv), elems=tuple(num(f.but(rank=0, iv=iv, term=F(t, *ps), py=None)) for t in ts))


def stats_call(c):
    I, leaf, args, st, fr, node = c.I, c.leaf, c.args, c.st, c.fr, c.node
    parts = c.name.split(".")
    if len(parts) >= 4:
        m = leaf
        L = note_law(c, parts[2], m, args, c.kwargs) if m in DIST_METHODS or m == "rvs" else None
        if m in DIST_METHODS:
            iv = (0, 1, False) if m in ("cdf", "sf") else ((0, INF, False) if m == "pdf" else TOP_IV)
            each = known_law(c, parts[2], L, iv) if I.known_run and hasattr(I.order, "value") else None
            if each is not None:
                return each
            return c.ew(args + list(c.kwargs.values()), iv=iv)
        if m == "rvs":
            I.event("rng", c.name, node, fr)
            f = c.facets()
            b = laws.bind_scipy(parts[2], m, args, c.kwargs)
            sz = b[2] if b is not None else c.kwargs.get("size")
            t = draw_term(c, L) if L is not None else None
            nf = f.but(ord="U" if f.ord != "I" else "I", facts=f.facts | {("random",)}, term=t)
            sp = split_draw(c, L, sz, nf)
            if sp is not None:
                return sp
            if sz is None and not any(is_arr(I, v, st) for v in args + list(c.kwargs.values())):
                return num(nf.but(rank=0))
            if sz is not None and sz.const()[0] and sz.const()[1] is None:
                return num(nf.but(rank=0))
            return c.arr(nf.but(rank=1), sz)
        if m in ("fit", "nnlf", "fit_loc_scale"):
            f = c.eff(args[0]) if args else F0
            o = {"E": "I", "P": "I"}.get(f.ord, f.ord)
            ff = Facets(deps=c.facets().deps, ord=o, rank=0)
            if m == "nnlf" and len(args) > 1:
                f = c.eff(args[1])
                o = {"E": "I", "P": "I"}.get(f.ord, f.ord)
                return num(ff.but(ord=o))
            names = laws.parameters(parts[2]) if m == "fit" and not c.star and not c.kwstar else None
            if names is not None:
                out = []
                for i, n in enumerate(names):
                    given = next((c.kwargs[k] for k in ({"loc": ("floc",), "scale": ("fscale",)}.get(n) or (f"f{i}", f"f{n}", f"fix_{n}")) if k in c.kwargs), None)
                    out.append(given if given is not None else num(ff.but(ord=o, term=sympy.Symbol(f"fitted_{parts[2]}_{n}", real=True))))
                return AV(frozenset({("t", tuple(out))}), ff.but(rank=None, ord="P" if o == "I" else o))
            return c.list(ff.but(rank=1, ord="P" if o == "I" else o), elem=num(ff.but(ord=o)))
        if m in DIST_STATS:
            return c.ew(args + list(c.kwargs.values()))
        if m == "freeze":
            return frozen(c, parts[2])
        return c.default()
    if leaf in STAT_RED:
        if not args:
            return c.default()
        f = c.eff(args[0])
        o = {"E": "I", "P": "I", "R": "I"}.get(f.ord, f.ord)
        nf = Facets(deps=c.facets().deps, ord=o, rank=0, wit=f.wit)
        if leaf in ("skew", "kurtosis", "moment", "iqr", "trim_mean", "gmean", "hmean", "tmean", "tstd", "tvar", "tmin", "tmax",
                    "sem", "variation", "median_abs_deviation", "entropy", "kstat", "kstatvar", "differential_entropy"):
            return num(nf)
        return unk(nf)
    if leaf in ("pearsonr", "spearmanr", "kendalltau", "linregress", "probplot", "theilslopes"):
        f = combine(I, args[:2], st, node, fr, f"{leaf}()")
        o = {"E": "I", "P": "I", "M": "I"}.get(f.ord, f.ord)
        nf = f.but(ord=o, rank=0, deps=c.facets().deps)
        if leaf in ("pearsonr", "spearmanr", "kendalltau"):
            return AV(frozenset({("t", (num(nf), num(nf)))}), nf)
        return unk(nf.but(rank=None))
    if leaf == "ecdf":
        f = c.facets()
        return I.new("ext", node, fr, st, f=f.but(ord={"E": "I", "P": "I"}.get(f.ord, f.ord)), extra="scipy.stats.ecdf")
    if leaf in ("zscore", "rankdata"):
        return c.ew(args[:1])
    if leaf == "gaussian_kde":
        f = c.facets()
        return I.new("ext", node, fr, st, f=f.but(ord={"E": "I", "P": "I"}.get(f.ord, f.ord)), extra="scipy.stats.gaussian_kde")
    if len(parts) == 3 and leaf.islower():
        return frozen(c, leaf)
    return NotImplemented


def frozen(c, family):
    v = c.ext()
    a = v.single()
    if a is None or c.star is not None or c.kwstar is not None or family not in laws.FAMILIES:
        return v
    o = c.st.heap[a[1]]
    c.st.heap[a[1]] = o.but(extra=f"scipy.stats.{family}", attrs={**o.attrs, "%frozen": AV(frozenset({("t", tuple(c.args))})),
                                                                 **{"%k:" + k: x for k, x in c.kwargs.items()}})
    return v


def rng_law(c):
    """The law of a numpy.random draw and its size argument."""
    spec = laws.RANDOM.get(c.leaf)
    if spec is None or c.star is not None or c.kwstar is not None:
        return None, c.kwargs.get("size")
    names, dflt, build = spec
    p = {k: sympy.Integer(v) for k, v in dflt.items()}
    args = list(c.args)
    for n, v in zip(names, args):
        p[n] = laws.term_of(v)
    for n, v in c.kwargs.items():
        if n in names:
            p[n] = laws.term_of(v)
    sz = c.kwargs.get("size")
    if len(args) > len(names):
        sz = args[len(names)]
    if any(p.get(n) is None for n in names):
        return None, sz
    fam, q = build(p)
    return laws.Law(fam, q), sz


def rng_call(c):
    c.I.event("rng", c.name, c.node, c.fr)
    f = c.facets()
    if c.leaf in ("shuffle",):
        if c.args:
            c.I.mutate(c.args[0], "random shuffle", c.node, c.st, c.fr)
        return NONE
    if c.leaf in ("seed", "set_state"):
        c.I.event("global-write", c.name, c.node, c.fr)
        return NONE
    if c.leaf in ("default_rng", "RandomState", "Generator", "SeedSequence"):
        return c.ext()
    L, sz = rng_law(c)
    nf = f.but(ord="I", facts=f.facts | {("random",)}, term=draw_term(c, L) if L is not None else None)
    if L is not None:
        c.I.law_uses.append(laws.Use("rvs", L, None, sz, c.I.site(c.node, c.fr), c.node, f.deps, frozenset()))
    if c.leaf == "permutation":
        return c.arr(nf.but(rank=1))
    sp = split_draw(c, L, sz, nf)
    if sp is not None:
        return sp
    if sz is None and c.leaf in ("choice", "normal", "uniform", "randint", "rand", "random", "exponential", "standard_normal"):
        pos = {"normal": 2, "uniform": 2, "choice": 1, "exponential": 1, "random": 0, "rand": 0, "standard_normal": 0, "randint": 2}[c.leaf]
        if len(c.args) > pos:
            sz = c.args[pos]
    if sz is not None:
        return c.arr(nf.but(rank=1), sz)
    return num(nf.but(rank=0))


# -- methods
def nd_method(c):
    I, leaf, recv, args, st, fr, node = c.I, c.leaf, c.recv, c.args, c.st, c.fr, c.node
    f = c.eff(recv)
    if leaf in RED:
        return numpy_call(Ctx(I, f"numpy.{leaf}", leaf, None, [recv] + args, c.kwargs, st, fr, node, c.star, c.kwstar))
    if leaf in ("sort", "partition"):
        I.mutate(recv, f"in-place .{leaf}()", node, st, fr)
        k = I.known_elems(recv, st) if I.order is not None and leaf == "sort" and not args and not c.kwargs else None
        k = order_sorted(I, k, k, st) if k is not None else None
        if k is not None and len(I.objs(recv, st)) == 1:
            oid, o = I.objs(recv, st)[0]
            st.heap[oid] = o.but(elems=tuple(k))
            return NONE
        for oid, o in I.objs(recv, st):
            no = {"E": "P", "R": "P", "P": "P", "I": "I"}.get(o.f.ord, o.f.ord)
            if leaf == "partition" and o.f.ord == "E":
                no = "U"
            st.heap[oid] = o.but(f=o.f.but(ord=no, wit=None if no == "P" else o.f.wit), elems=None, elem=I.elem_of(AV(frozenset({("r", oid)})), st) if o.elems is not None else o.elem)
        return NONE
    if leaf in ("fill", "resize", "put", "itemset", "setfield", "setflags", "byteswap"):
        if leaf == "byteswap" and not args and "inplace" not in c.kwargs:
            return c.arr(f)
        I.mutate(recv, f"in-place .{leaf}()", node, st, fr)
        for oid, o in I.objs(recv, st):
            vf = c.eff(args[0]) if args else F0
            st.heap[oid] = o.but(f=o.f.but(ord=vf.ord if leaf == "fill" else "U", deps=o.f.deps | vf.deps), elems=None)
        return NONE
    if leaf in ("argsort", "argmax", "argmin", "cumsum", "cumprod", "dot", "searchsorted", "round", "clip", "repeat", "take", "nonzero", "ptp"):
        return numpy_call(Ctx(I, f"numpy.{leaf}", leaf, None, [recv] + args, c.kwargs, st, fr, node, c.star, c.kwstar))
    if leaf in ("copy", "astype", "flatten"):
        roots = frozenset()
        if leaf == "astype" and "copy" in c.kwargs and I.truth(c.kwargs["copy"], st) is not True:
            roots = frozenset().union(*[o.roots for _, o in I.objs(recv, st)])
        os_ = I.objs(recv, st)
        elems = os_[0][1].elems if len(os_) == 1 else None
        return I.new("array", node, fr, st, f=f.but(rank=1 if leaf == "flatten" else f.rank), roots=roots, elems=elems if leaf != "flatten" else None,
                     attrs=dict(os_[0][1].attrs) if len(os_) == 1 and os_[0][1].kind == "array" else ({"len": c.len(recv)} if c.len(recv) is not None else {}))
    if leaf in VIEW_METHODS:
        roots = frozenset().union(*[o.roots for _, o in I.objs(recv, st)]) if I.objs(recv, st) else frozenset()
        rank = {"ravel": 1}.get(leaf, f.rank if leaf != "reshape" else None)
        if leaf == "reshape":
            a = args
            if len(a) == 1 and a[0].has("t"):
                a = list(a[0].of("t")[0][1])
            rank = len(a) if a else None
        return I.new("array", node, fr, st, f=f.but(rank=rank), roots=roots)
    if leaf == "tolist":
        k = I.known_elems(recv, st)
        if k is not None:
            return c.list(f.but(rank=1), elems=tuple(x.but(py=True) for x in k))
        return c.list(f.but(rank=1), elem=num(f.but(rank=0, py=True)), attrs={"len": c.len(recv)} if c.len(recv) is not None else {})
    if leaf == "item":
        o = f.ord
        return num(f.but(ord="X" if o == "E" and args else ("U" if o == "E" else ("I" if o == "P" else o)), rank=0, py=True))
    if leaf == "tobytes":
        return AV(frozenset({BYTES}), c.facets())
    return NotImplemented


def nd_or_unknown(c):
    """A method of a value of unknown type: symmetric array methods keep what is known."""
    f = c.facets()
    if c.leaf in RED and c.eff(c.recv).ord in ("I", "E", "P"):
        return unk(f.but(ord="I", rank=None))
    return unk(f.but(ord=f.ord if f.ord in ("I", "X") else "U"))


def list_method(c):
    I, leaf, recv, args, st, fr, node = c.I, c.leaf, c.recv, c.args, c.st, c.fr, c.node
    os_ = I.objs(recv, st)
    if leaf in ("append", "insert", "extend", "__setitem__"):
        v = args[-1] if args else unk()
        I.mutate(recv, f"in-place .{leaf}()", node, st, fr)
        single = len(os_) == 1 and len(recv.atoms) == 1 and not I.summary_depth
        for oid, o in os_:
            vf = c.eff(v)
            vd = I.eff_deps(v, st)
            empty = (o.elems is not None and len(o.elems) == 0)
            known = I.known_elems(v, st) if leaf == "extend" else None
            if single and o.elems is not None and len(o.elems) < 400 and (leaf == "append" or (leaf == "extend" and known is not None) or (leaf == "insert" and args[0].const() == (True, 0))):
                add = tuple(known) if leaf == "extend" else (v,)
                elems = add + o.elems if leaf == "insert" else o.elems + add
                no = I.seq_ord(list(elems), st)
                if vf.ord in ("X", "U"):
                    no = join_ord(no, vf.ord)
                iv = vf.iv if empty else join_iv(o.f, vf)
                st.heap[oid] = o.but(elems=elems, f=o.f.but(deps=o.f.deps | vd, ord=no, facts=o.f.facts | clean(vf.facts), wit=o.f.wit or vf.wit, iv=iv))
                continue
            e = v if leaf != "extend" else I.elem_of(v, st)
            old = I.elem_of(AV(frozenset({("r", oid)})), st) if (o.elems or o.elem is not None) else None
            lids = I.lids[len(I.born.get(oid, ())):]
            cur = o.f.ord
            vo, pend = own_ord(vf, lids) if leaf != "extend" else (vf.ord, vf.ax)
            e = sink_elem(e, lids)
            pend = ax_merge(o.f.ax, pend, join_ord)
            if empty and not I.summary_depth:
                no = vo
            elif cur == vo:
                no = cur
            elif "X" in (cur, vo):
                no = "X"
            elif "U" in (cur, vo):
                no = "U"
            elif cur == "I":
                no = vo if (empty or I.summary_depth) else concat_ord([cur, vo])
            elif vo == "I":
                no = cur
            else:
                no = concat_ord([cur, vo])
            iv = vf.iv if empty else join_iv(o.f, vf)
            st.heap[oid] = o.but(elems=None, elem=join(old, e.but(idx=None)) if old is not None else e.but(idx=None),
                                 f=o.f.but(deps=o.f.deps | vd, ord=no, facts=o.f.facts | clean(vf.facts), wit=o.f.wit or vf.wit, iv=iv, ax=pend),
                                 attrs={k: x for k, x in o.attrs.items() if k != "len"})
        return NONE
    if leaf in ("sort", "reverse"):
        I.mutate(recv, f"in-place .{leaf}()", node, st, fr)
        for oid, o in os_:
            if leaf == "sort":
                no = {"E": "P", "R": "P", "P": "P", "I": "I"}.get(o.f.ord, o.f.ord)
                if "key" in c.kwargs:
                    no = "U" if o.f.ord not in ("I", "P") else "P"
            else:
                no = {"E": "R", "P": "P", "I": "I"}.get(o.f.ord, o.f.ord)
            e = I.elem_of(AV(frozenset({("r", oid)})), st) if (o.elems or o.elem is not None) else o.elem
            if e is not None and e.f.ord in ("E",) and no == "P":
                e = e.but(ord="P")
            keep = o.elems if leaf == "reverse" and o.elems is not None else None
            if leaf == "sort" and I.order is not None and o.elems is not None and len(os_) == 1:
                ks = [I.call(c.kwargs["key"], [x], {}, st, fr, node) for x in o.elems] if "key" in c.kwargs else list(o.elems)
                rev = c.kwargs.get("reverse")
                rev = False if rev is None else rev.const()[1] if rev.const()[0] else None
                got = order_sorted(I, list(o.elems)[::-1] if rev else list(o.elems), ks[::-1] if rev else ks, st) if rev is not None else None
                if got is not None:
                    st.heap[oid] = o.but(elems=tuple(got[::-1] if rev else got))
                    continue
            st.heap[oid] = o.but(f=o.f.but(ord=no, wit=None if no == "P" else o.f.wit), elems=tuple(reversed(keep)) if keep is not None else None, elem=e)
        return NONE
    if leaf in ("pop", "remove", "clear", "__delitem__"):
        I.mutate(recv, f"in-place .{leaf}()", node, st, fr)
        e = I.elem_of(recv, st)
        for oid, o in os_:
            wit = o.f.wit
            no = o.f.ord
            if leaf == "pop" and no == "E":
                no, wit = "X", ("elements are dropped from the caller's order by position", I.site(node, fr))
            if leaf == "clear":
                st.heap[oid] = o.but(elems=() if not I.summary_depth else None, elem=None)
            elif leaf == "pop" and o.elems and len(os_) == 1 and not I.summary_depth and (not args or args[0].const()[0]):
                i = args[0].const()[1] if args else -1
                el = list(o.elems)
                if isinstance(i, int) and -len(el) <= i < len(el):
                    e = el.pop(i)
                    st.heap[oid] = o.but(elems=tuple(el))
            else:
                st.heap[oid] = o.but(elems=None, elem=e, f=o.f.but(ord=no, wit=wit), attrs={k: x for k, x in o.attrs.items() if k != "len"})
        return e if leaf == "pop" else NONE
    if leaf == "copy":
        res = None
        for i, (oid, o) in enumerate(os_):
            ln = length(I, AV(frozenset({("r", oid)})), st)
            res = join(res, c.list(o.f, tag=str(i), elems=o.elems, elem=o.elem if o.kind != "sample" else num(o.f.but(rank=0, py=True)), attrs={"len": ln} if ln is not None else {}))
        return res
    if leaf in ("index", "count"):
        f = c.facets()
        o = c.eff(recv).ord
        if leaf == "index":
            no = {"P": "I", "I": "I", "E": "M"}.get(o, o)
        else:
            no = {"P": "I", "I": "I", "E": "I"}.get(o, o)
        return num(f.but(ord=no, rank=0, py=True, iv=(0, INF, False)))
    return NotImplemented


def dict_method(c):
    I, leaf, recv, args, st, fr, node = c.I, c.leaf, c.recv, c.args, c.st, c.fr, c.node
    os_ = I.objs(recv, st)
    if len(os_) != 1:
        return c.default()
    oid, o = os_[0]
    if leaf == "get":
        return dict_get(I, o, args[0], node, st, fr, args[1] if len(args) > 1 else c.kwargs.get("default", NONE))
    if leaf in ("items", "keys", "values"):
        if o.elem is None and (o.attrs or o.extra == "closed"):
            out = []
            for k, v in o.attrs.items():
                kv = key_av(k)
                out.append({"items": AV(frozenset({("t", (kv, v))})), "keys": kv, "values": v}[leaf])
            return c.list(Facets(rank=1, deps=o.f.deps), elems=tuple(out))
        k = I.elem_of(recv, st)
        v = o.elem
        for x in o.attrs.values():
            v = join(v, x)
        v = v or unk()
        e = {"items": AV(frozenset({("t", (k, v))})), "keys": k, "values": v}[leaf]
        return c.list(o.f.but(rank=1), elem=e)
    if leaf in ("pop", "setdefault", "update", "clear", "popitem", "__setitem__"):
        I.event("obj-write", (oid, "dict"), node, fr)
        I.mutate(recv, f".{leaf}()", node, st, fr)
        if leaf == "update":
            attrs, elem, extra = dict(o.attrs), o.elem, o.extra
            for _, s in (I.objs(args[0], st) if args else []):
                if s.kind == "dict":
                    attrs.update(s.attrs)
                    if s.elem is not None:
                        elem = join(elem, s.elem)
                        extra = join(extra if isinstance(extra, AV) else None, s.extra if isinstance(s.extra, AV) else unk())
                else:
                    elem, extra = join(elem, unk()), unk()
            if args and not I.objs(args[0], st):
                elem, extra = join(elem, unk()), unk()
            for k, v in c.kwargs.items():
                attrs[C(k)] = v
            st.heap[oid] = o.but(attrs=attrs, elem=elem, extra=extra)
            return NONE
        if leaf == "clear":
            st.heap[oid] = o.but(attrs={}, elem=None, extra="closed")
            return NONE
        if leaf == "pop" and args:
            d = args[1] if len(args) > 1 else None
            r = dict_get(I, o, args[0], node, st, fr, d)
            ok, k = key_const(I, args[0], st)
            if ok:
                st.heap[oid] = o.but(attrs={x: v for x, v in o.attrs.items() if x != C(k)})
            return r
        if leaf == "setdefault" and args:
            d = args[1] if len(args) > 1 else NONE
            ok, k = key_const(I, args[0], st)
            if ok:
                if C(k) in o.attrs:
                    return o.attrs[C(k)]
                v = d if o.elem is None and o.extra == "closed" else join(d, o.elem)
                st.heap[oid] = o.but(attrs={**o.attrs, C(k): v})
                return v
            v = join(d, o.elem) if o.elem is not None else d
            for x in o.attrs.values():
                v = join(v, x)
            st.heap[oid] = o.but(elem=v, extra=args[0] if not isinstance(o.extra, AV) else join(o.extra, args[0]))
            return v
        return c.default()
    if leaf == "copy":
        return I.new("dict", node, fr, st, f=o.f, attrs=dict(o.attrs), elem=o.elem, extra=o.extra)
    return NotImplemented


def ident(v):
    """What makes an exactly known value equal to another one, or None when it is not exactly known."""
    ok, k = v.const()
    if ok:
        return ("c", type(k).__name__, k) if getattr(type(k), "__hash__", None) else None
    a = v.single()
    if a is None:
        return None
    if a[0] in ("k", "m", "f", "x"):
        return (a[0], id(a[1]) if a[0] != "x" else a[1])
    if a[0] == "t":
        r = tuple(ident(x) for x in a[1])
        return None if None in r else ("t", r)
    return None


def set_op(op, ka, kb):
    if ka is None or kb is None:
        return None
    da, db = distinct(ka), distinct(kb)
    if da is None or db is None:
        return None
    ia, ib = {ident(x) for x in da}, {ident(x) for x in db}
    if op == "BitOr":
        return da + [x for x in db if ident(x) not in ia]
    if op == "BitAnd":
        return [x for x in da if ident(x) in ib]
    if op == "Sub":
        return [x for x in da if ident(x) not in ib]
    return [x for x in da if ident(x) not in ib] + [x for x in db if ident(x) not in ia]


def distinct(items):
    """Items without repetitions, or None when equality between them is not decided."""
    out, seen = [], set()
    for x in items:
        i = ident(x)
        if i is None:
            return None
        if i not in seen:
            seen.add(i)
            out.append(x)
    return out


def order_distinct(I, items, st):
    """Items without repetitions as far as their order is known; None when it is not."""
    if I.order is None:
        return None
    out = []
    for x in items:
        cs = [order_cmp(I, y, x, st) for y in out]
        if None in cs:
            return None
        if 0 not in cs:
            out.append(x)
    return out


def distinct_length(ln):
    """The number of different values among so many values."""
    if ln is None or ln.const()[0] or ln.f.term is None:
        return None
    return num(ln.f.but(term=laws.Distinct(ln.f.term)))


def set_method(c):
    I, leaf, recv, args, st, fr, node = c.I, c.leaf, c.recv, c.args, c.st, c.fr, c.node
    if leaf in ("add", "discard", "remove", "update", "clear", "pop"):
        I.mutate(recv, f".{leaf}()", node, st, fr)
        for oid, o in I.objs(recv, st):
            old = I.elem_of(AV(frozenset({("r", oid)})), st) if (o.elems or o.elem is not None) else None
            e = old
            f = o.f
            if leaf in ("add", "update") and args:
                v = args[0] if leaf == "add" else I.elem_of(args[0], st)
                e = join(old, v) if old is not None else v
                f = f.but(deps=f.deps | I.eff_deps(args[0], st), ord=join_ord(f.ord, c.eff(args[0]).ord) if c.eff(args[0]).ord in ("X", "U") else f.ord)
                more = [args[0]] if leaf == "add" else I.known_elems(args[0], st)
                if o.elems is not None and more is not None and len(c.I.objs(recv, st)) == 1 and not I.summary_depth and len(o.elems) < 400:
                    d = distinct(list(o.elems) + list(more))
                    if d is not None:
                        st.heap[oid] = o.but(elems=tuple(d), f=f)
                        continue
            st.heap[oid] = o.but(elems=None, elem=e, f=f)
        return I.elem_of(recv, st) if leaf == "pop" else NONE
    f = c.facets()
    if leaf in ("union", "intersection", "difference", "symmetric_difference", "copy"):
        ka, kb = I.known_elems(recv, st), I.known_elems(args[0], st) if args else []
        r = set_op({"union": "BitOr", "intersection": "BitAnd", "difference": "Sub", "symmetric_difference": "BitXor", "copy": "BitOr"}[leaf], ka, kb)
        if r is not None and len(args) <= 1:
            return I.new("set", node, fr, st, f=f, elems=tuple(r))
        return I.new("set", node, fr, st, f=f, elem=I.elem_of(recv, st) if not args else join(I.elem_of(recv, st), I.elem_of(args[0], st)))
    return boolean(f.but(rank=0))


def str_method(c):
    ok, s = c.recv.const()
    f = c.facets()
    cs = [a.const() for a in c.args]
    safe = {"upper", "lower", "strip", "startswith", "endswith", "replace", "title", "capitalize", "removesuffix", "removeprefix",
            "lstrip", "rstrip", "isdigit", "isalpha", "count", "find", "isupper", "islower"}
    if ok and isinstance(s, str) and c.leaf in safe and all(x[0] and isinstance(x[1], (str, int)) for x in cs) and not c.kwargs:
        try:
            return const(getattr(s, c.leaf)(*[x[1] for x in cs])).plus(deps=f.deps)
        except Exception:
            pass
    if ok and isinstance(s, str) and c.leaf in ("split", "rsplit") and all(x[0] for x in cs) and not c.kwargs:
        try:
            return c.list(Facets(rank=1, deps=f.deps, ord="P"), elems=tuple(const(x) for x in getattr(s, c.leaf)(*[x[1] for x in cs])))
        except Exception:
            pass
    if ok and c.leaf == "format" and isinstance(s, str):
        return formatted(c.I, s, {**dict(enumerate(c.args)), **c.kwargs}, list(c.args) + list(c.kwargs.values()), c.st)
    if ok and c.leaf == "join" and c.args:
        k = c.I.known_elems(c.args[0], c.st)
        if k is not None and all(x.const()[0] and isinstance(x.const()[1], str) for x in k):
            return const(s.join(x.const()[1] for x in k)).plus(deps=f.deps)
    if c.leaf in ("startswith", "endswith", "isdigit", "isalpha", "isupper", "islower", "isidentifier"):
        return boolean(f.but(rank=0))
    if c.leaf in ("split", "rsplit", "splitlines"):
        return c.list(f.but(rank=1), elem=string(f))
    if c.leaf in ("count", "find", "index"):
        return num(f.but(rank=0, py=True))
    if c.leaf == "encode":
        return AV(frozenset({BYTES}), f)
    if c.leaf in ("partition", "rpartition"):
        return AV(frozenset({("t", (string(f), string(f), string(f)))}), f)
    return string(f.but(rank=0, facts=f.facts | c.I.eff_facts(c.recv, c.st)))


def num_method(c):
    f = c.facets()
    if c.leaf in ("item", "__float__", "__int__", "conjugate", "copy", "astype", "round", "sum", "mean", "max", "min", "squeeze"):
        rf = c.eff(c.recv)
        return num(rf.but(py=c.leaf in ("item", "__float__", "__int__"), idx=None))
    if c.leaf in ("tolist",):
        return num(c.eff(c.recv).but(py=True, idx=None))
    if c.leaf in ("is_integer", "any", "all"):
        return boolean(f.but(rank=0))
    return c.default()


# -- builtins and library entry points
SPECIAL, METHOD = {}, {}


def special(*names):
    def deco(fn):
        for n in names:
            SPECIAL[n] = fn
        return fn
    return deco


@special("builtins.len")
def _len(c):
    v = c.args[0]
    ln = c.len(v)
    if ln is not None:
        return ln
    ok, s = v.const()
    if ok and isinstance(s, (str, bytes)):
        return const(len(s))
    if v.atoms and all(a[0] in ("n", "B") or (a[0] == "c" and isinstance(a[1].v, (int, float))) for a in v.atoms) and v.f.rank == 0 and v.f.py:
        fail(c.I, "type-error", "len() of a number", c.node, c.fr, c.st)
    if ok and s is None:
        fail(c.I, "type-error", "len() of None", c.node, c.fr, c.st)
    for oid, o in c.I.objs(v, c.st):
        if o.kind == "inst":
            k, m = o.cls.lookup("__len__")
            if m is not None:
                return c.I.call(c.I.bind(m, AV(frozenset({("r", oid)})), k, o.cls), [], {}, c.st, c.fr, c.node)
        if o.kind in ("gen", "zip", "enumerate") and len(v.atoms) == 1:
            fail(c.I, "type-error", f"object of type '{o.kind}' has no len()", c.node, c.fr, c.st)
    f = c.eff(v)
    return num(Facets(deps=c.I.eff_deps(v, c.st), ord=f.ord if f.ord in ("X", "U") else "I", rank=0, py=True, iv=(0, INF, False), wit=f.wit))


@special("builtins.range")
def _range(c):
    I, st = c.I, c.st
    args = c.args
    consts = [a.const() for a in args]
    f = combine(I, args, st)
    o = f.ord
    if all(x[0] and isinstance(x[1], int) for x in consts) and args:
        r = range(*[x[1] for x in consts])
        if len(r) <= 600:
            return I.new("range", c.node, c.fr, st, f=Facets(rank=1, ord="P", py=True, iv=(min(r) if len(r) else 0, max(r) if len(r) else 0, False), deps=f.deps),
                         elems=tuple(const(x) for x in r))
    start = args[0] if len(args) > 1 else const(0)
    stop = args[1] if len(args) > 1 else args[0]
    extra = None
    lo, hi = start.f.iv[0], (stop.f.iv[1] - 1 if stop.f.iv[1] < INF else INF)
    if len(args) == 3:
        lo, hi = min(start.f.iv[0], stop.f.iv[0]), max(start.f.iv[1], stop.f.iv[1])
    facts = frozenset()
    if start.const() == (True, 0) and len(args) < 3 and stop.f.term == N_SYM:
        extra = "full"
    elif o not in ("I",):
        facts = frozenset({("pair",)})
    elif start.const()[0] and stop.f.term is not None and not (len(args) == 3 and args[2].const() not in ((True, 1),)):
        # bounds known relative to the sample size: certainly not the whole of it
        pass
    else:
        facts = frozenset({("pair",)})
    return I.new("range", c.node, c.fr, st, f=Facets(deps=f.deps, rank=1, ord="P" if o in ("I", "P") else ("U" if o != "X" else "X"), py=True, iv=(lo, hi, False), facts=facts, wit=f.wit), extra=extra)


@special("builtins.enumerate")
def _enumerate(c):
    start = c.arg(1, "start")
    zero = start is None or start.const() == (True, 0)
    f = c.eff(c.args[0])
    k = c.I.known_elems(c.args[0], c.st)
    if k is not None and (zero or start.const()[0]):
        s0 = 0 if zero else start.const()[1]
        return c.I.new("gen", c.node, c.fr, c.st, f=f, elems=tuple(AV(frozenset({("t", (const(i + s0), x))})) for i, x in enumerate(k)))
    return c.I.new("enumerate", c.node, c.fr, c.st, f=f.but(deps=c.I.eff_deps(c.args[0], c.st)), extra=c.args[0], elems=None if zero else ())


@special("builtins.zip")
def _zip(c):
    f = combine(c.I, c.args, c.st)
    f = f.but(ord="I" if f.ord == "X" else f.ord)
    ks = [c.I.known_elems(a, c.st) for a in c.args]
    if c.args and all(k is not None for k in ks):
        return c.I.new("gen", c.node, c.fr, c.st, f=f, elems=tuple(AV(frozenset({("t", t)})) for t in zip(*ks)))
    return c.I.new("zip", c.node, c.fr, c.st, f=f, extra=list(c.args))


@special("builtins.sorted")
def _sorted(c):
    v = c.args[0]
    f = c.eff(v)
    I, st = c.I, c.st
    key = c.kwargs.get("key")
    deps = I.eff_deps(v, st)
    if I.order is not None:
        k = I.known_elems(v, st)
        if k is not None:
            ks = [I.call(key, [x], {}, st, c.fr, c.node) for x in k] if key is not None and key.const() != (True, None) else k
            rev = c.kwargs.get("reverse")
            rev = False if rev is None else rev.const()[1] if rev.const()[0] else None
            got = order_sorted(I, k[::-1] if rev else k, ks[::-1] if rev else ks, st) if rev is not None else None
            if got is not None:
                return c.list(f.but(deps=deps, rank=1), elems=tuple(got[::-1] if rev else got))
    e = I.elem_of(v, st)
    o = {"E": "P", "R": "P", "P": "P", "I": "P" if True else "I"}.get(f.ord, f.ord)
    if key is not None:
        try:
            kv = I.call(key, [e], {}, st, c.fr, c.node)
            ko = c.eff(kv).ord
            # positions ordered by sample values: an argsort
            if f.ord == "P" and ko == "E":
                o = "M"
            elif ko in ("X", "U"):
                o = ko
            elif f.ord == "E" and ko == "E":
                o = "P"
        except Exception as ex:
            if type(ex).__name__ == "Dead":
                raise
            o = "U"
    return c.list(f.but(deps=deps, ord=o, rank=1), elem=e.but(ord=o if e.f.ord in ("E", "I", "P", "M") else e.f.ord, idx=None),
                  attrs={"len": c.len(v)} if c.len(v) is not None else {})


@special("builtins.reversed")
def _reversed(c):
    v = c.args[0]
    k = c.I.known_elems(v, c.st)
    f = c.eff(v)
    if k is not None:
        return c.list(f, elems=tuple(reversed(k)))
    o = {"E": "R", "P": "P", "I": "I"}.get(f.ord, f.ord)
    facts = f.facts
    for _, ob in c.I.objs(v, c.st):
        if ob.kind == "range" and ob.extra != "full":
            facts = facts | ob.f.facts
        if ob.kind == "range" and ob.extra == "full":
            return AV(frozenset(v.atoms), f)
    return c.list(f.but(ord=o, facts=facts), elem=c.I.elem_of(v, c.st).but(idx=None))


@special("builtins.sum")
def _sum(c):
    v = c.args[0]
    f = c.eff(v)
    k = c.I.known_elems(v, c.st)
    if k is not None and 0 < len(k) <= 400:
        r = k[0]
        start = c.arg(1, "start")
        for x in k[1:]:
            r = binop(c.I, "Add", r, x, c.node, c.st, c.fr)
        if start is not None:
            r = binop(c.I, "Add", start, r, c.node, c.st, c.fr)
        return r
    iv = (0, INF, False) if f.iv[0] >= 0 else TOP_IV
    return c.red(v, iv=iv, py=is_list(c.I, v, c.st) or any(o.kind == "gen" for _, o in c.I.objs(v, c.st)) and c.I.elem_of(v, c.st).f.py)


@special("builtins.max", "builtins.min")
def _maxmin(c):
    if len(c.args) == 1 and "key" not in c.kwargs:
        v = c.args[0]
        k = c.I.known_elems(v, c.st)
        if k and len(k) <= (600 if c.I.known_run else 40):
            fs = [c.eff(x) for x in k]
            p = order_pick(c.I, k, c.leaf, c.st) if c.I.order is not None else None
            if p is not None:
                return p
            t, iv = minmax(c.leaf, fs)
            return c.ew(k, term=t, iv=iv, py=all(x.py for x in fs))
        f = c.eff(v)
        r = c.red(v, iv=(f.iv[0], f.iv[1], False), py=is_list(c.I, v, c.st))
        if "default" in c.kwargs:
            r = join(r, c.kwargs["default"])
        e = c.I.elem_of(v, c.st) if c.isarr(v) else None
        if e is not None and not (e.atoms & {NUM, UNK}) and not all(a[0] == "c" for a in e.atoms):
            return AV(e.atoms, r.f)
        return r
    if "key" in c.kwargs:
        v = c.args[0]
        k = c.I.known_elems(v, c.st) if c.I.order is not None and len(c.args) == 1 else None
        if k is not None and len(k) <= (600 if c.I.known_run else 40):
            if not k and "default" in c.kwargs:
                return c.kwargs["default"]
            if k:
                p = order_pick(c.I, k, c.leaf, c.st, [c.I.call(c.kwargs["key"], [x], {}, c.st, c.fr, c.node) for x in k])
                if p is not None:
                    return p
        e = c.I.elem_of(v, c.st)
        return AV(e.atoms, e.f.but(ord="U" if c.eff(v).ord not in ("I",) else "I", idx=None))
    fs = [c.eff(x) for x in c.args]
    if any(c.isarr(a) for a in c.args):
        return c.default()
    cs = [a.const() for a in c.args]
    if all(x[0] and isinstance(x[1], (int, float)) for x in cs):
        return const((max if c.leaf == "max" else min)(x[1] for x in cs)).plus(deps=c.facets().deps)
    p = order_pick(c.I, c.args, c.leaf, c.st) if c.I.order is not None else None
    if p is not None:
        return p
    t, iv = minmax(c.leaf, fs)
    return c.ew(c.args, term=t, iv=iv, py=all(x.py for x in fs))


@special("builtins.abs")
def _abs(c):
    v = c.args[0]
    if is_list(c.I, v, c.st):
        fail(c.I, "type-error", "abs() of a list", c.node, c.fr, c.st)
    f = c.eff(v)
    ok, x = v.const()
    if ok and isinstance(x, (int, float)):
        return const(abs(x)).plus(deps=f.deps)
    return c.ew([v], term=fn_term("abs", f.term), iv=fn_iv("abs", f.iv), py=f.py)


@special("builtins.float", "builtins.int", "builtins.round", "builtins.bool")
def _float(c):
    if not c.args:
        return const({"float": 0.0, "int": 0, "bool": False}.get(c.leaf, 0))
    v = nonnone(c.args[0])
    if v.const() == (True, None) and c.leaf != "bool":
        fail(c.I, "type-error", f"{c.leaf}() of None", c.node, c.fr, c.st)
    f = c.eff(v)
    ok, x = v.const()
    if ok and isinstance(x, (int, float)) and x == x and abs(x) != INF and not isinstance(x, OrdVal):
        try:
            nd = [a.const() for a in c.args[1:2] + [c.kwargs[k] for k in ("ndigits",) if k in c.kwargs]]
            if c.leaf == "round" and not all(ok for ok, _ in nd):
                raise ValueError
            cv = {"float": float, "int": int, "bool": bool, "round": round}[c.leaf](x, *[n for _, n in nd if c.leaf == "round"])
            return const(cv).plus(deps=f.deps)
        except Exception:
            pass
    if ok and isinstance(x, str) and c.leaf in ("float", "int"):
        try:
            return const({"float": float, "int": int}[c.leaf](x))
        except ValueError:
            raise_quiet(c.I, "builtins.ValueError", c.node, c.fr, c.st)
    if any(a[0] == "c" and isinstance(a[1].v, OrdVal) for a in v.atoms) and c.leaf == "float":
        return v
    if c.leaf == "bool":
        t = c.I.truth(v, c.st)
        if t is not None:
            return const(t).plus(deps=f.deps)
        return boolean(f.but(rank=0, idx=None, term=None, iv=(0, 1, False)))
    whole = [o for _, o in c.I.objs(v, c.st) if o.kind in ("list",) or (o.kind == "sample")]
    if whole and len(v.atoms) == 1 and c.leaf in ("float", "int"):
        fail(c.I, "type-error", f"{c.leaf}() of a whole sequence", c.node, c.fr, c.st)
    o = f.ord
    if c.isarr(v):
        o = {"E": "X" if False else "U", "P": "I"}.get(o, o)
    term = f.term if c.leaf == "float" else (f.term if f.term is not None and f.term.is_integer else None)
    if c.leaf == "round" and term is None and not c.isarr(v):
        term = round_term(f.term, c.args[1:2] or [c.kwargs[k] for k in ("ndigits",) if k in c.kwargs])
    iv = f.iv
    if c.leaf != "float":
        iv = (math.floor(iv[0]) if iv[0] > -INF else iv[0], math.ceil(iv[1]) if iv[1] < INF else iv[1], False)
    return num(Facets(deps=c.I.eff_deps(v, c.st), ord=o, rank=0, idx=f.idx if c.leaf == "int" else None, term=term, iv=iv,
                      facts=clean(f.facts), wit=f.wit, py=True))


@special("builtins.str", "builtins.repr", "builtins.ascii")
def _str(c):
    if not c.args:
        return const("")
    ok, x = c.args[0].const()
    if ok and isinstance(x, (str, int, float)) and len(c.args) == 1 and c.leaf == "str":
        return const(str(x)).plus(deps=c.args[0].f.deps)
    return string(Facets(deps=c.I.eff_deps(c.args[0], c.st), facts=c.I.eff_facts(c.args[0], c.st), rank=0))


@special("builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "builtins.iter")
def _list(c):
    kind = {"frozenset": "set", "iter": "gen"}.get(c.leaf, c.leaf)
    if not c.args:
        if kind == "tuple":
            return AV(frozenset({("t", ())}))
        return c.I.new(kind, c.node, c.fr, c.st, f=Facets(rank=1), elems=())
    v = nonnone(c.args[0])
    k = c.I.known_elems(v, c.st)
    f = c.eff(v).but(deps=c.I.eff_deps(v, c.st), rank=1, idx=None)
    if k is not None:
        if kind == "tuple":
            return AV(frozenset({("t", tuple(k))}), Facets(rank=1, deps=f.deps))
        if kind == "set":
            ks = distinct(k)
            if ks is None:
                ks = order_distinct(c.I, k, c.st)
            if ks is not None:
                k = ks
            else:
                e = None
                for x in k:
                    e = join(e, x)
                return c.I.new("set", c.node, c.fr, c.st, f=f, elem=e)
        return c.I.new(kind, c.node, c.fr, c.st, f=f, elems=tuple(k))
    e = c.I.elem_of(v, c.st)
    ln = c.len(v)
    if kind == "set":
        f = f.but(ord={"E": "P", "P": "P", "R": "P"}.get(f.ord, f.ord))
        ln = distinct_length(ln)
        return c.I.new("set", c.node, c.fr, c.st, f=f, elem=e, attrs={"len": ln} if ln is not None else {})
    kk = "list" if kind == "tuple" else kind
    zl = [o for _, o in c.I.objs(v, c.st) if o.kind in ("zip", "enumerate")]
    if zl:
        e = c.I.loop_elem(v, c.st, None, c.node, c.fr)
    return c.I.new(kk, c.node, c.fr, c.st, f=f, elem=e.but(idx=None), attrs={"len": ln} if ln is not None and kind != "gen" else {})


@special("builtins.format")
def _format(c):
    spec = c.args[1].const() if len(c.args) > 1 else (True, "")
    if c.args and spec[0] and isinstance(spec[1], str) and not set("{}") & set(spec[1]):
        return formatted(c.I, "{:" + spec[1] + "}" if spec[1] else "{}", {0: c.args[0]}, c.args[:1], c.st)
    return string(c.facets().but(rank=0))


@special("builtins.dict.fromkeys")
def _fromkeys(c):
    k = c.I.known_elems(c.args[0], c.st) if c.args else None
    v = c.args[1] if len(c.args) > 1 else const(None)
    f = Facets(deps=c.I.eff_deps(c.args[0], c.st)) if c.args else F0
    if k is not None and all(x.const()[0] for x in k):
        return c.I.new("dict", c.node, c.fr, c.st, f=f, attrs={C(x.const()[1]): v for x in k}, elem=None, extra="closed")
    e = c.I.elem_of(c.args[0], c.st) if c.args else None
    return c.I.new("dict", c.node, c.fr, c.st, f=f, attrs={}, elem=v, extra=e if e is not None else unk())


@special("builtins.dict")
def _dict(c):
    attrs, elem, extra = {}, None, "closed"
    deps = frozenset()
    if c.args:
        done = False
        for _, o in c.I.objs(c.args[0], c.st):
            if o.kind == "dict":
                attrs.update(o.attrs)
                elem, extra = join(elem, o.elem) if o.elem is not None else elem, o.extra
                done = True
        k = c.I.known_elems(c.args[0], c.st)
        if not done and k is not None:
            for x in k:
                t = x.of("t")
                if t and t[0][1][0].const()[0]:
                    attrs[C(t[0][1][0].const()[1])] = t[0][1][1]
                    done = True
        if not done:
            elem, extra = c.I.elem_of(c.args[0], c.st), unk()
    for n, v in c.kwargs.items():
        attrs[C(n)] = v
    if c.kwstar is not None:
        elem, extra = join(elem, c.kwstar), string()
    return c.I.new("dict", c.node, c.fr, c.st, f=Facets(deps=deps), attrs=attrs, elem=elem, extra=extra)


@special("builtins.isinstance")
def _isinstance(c):
    res = {c.I.isinstance_atom(a, c.args[1], c.st, c.args[0].f) for a in c.args[0].atoms}
    if res == {True}:
        return _kconst(True)
    if res == {False}:
        return _kconst(False)
    return boolean(Facets(rank=0))


@special("builtins.issubclass")
def _issubclass(c):
    a, b = c.args[0].single(), c.args[1].single()
    if a and b and a[0] == "k" and b[0] == "k":
        return _kconst(a[1].is_sub(b[1]))
    if a and b and a[0] == "k" and b[0] == "t":
        ks = [x.single() for x in b[1]]
        if all(x and x[0] == "k" for x in ks):
            return _kconst(any(a[1].is_sub(x[1]) for x in ks))
    if a and b and a[0] == "x" and b[0] == "k":
        return _kconst(False)
    if a and b and a[0] == "k" and b[0] == "x":
        return _kconst(any(b[1] in k.ext_bases for k in a[1].mro) or b[1] == "builtins.object")
    return boolean(Facets(rank=0))


@special("builtins.callable")
def _callable(c):
    if c.args[0].atoms and all(a[0] in ("f", "b", "k", "x") for a in c.args[0].atoms):
        return _kconst(True)
    return boolean(Facets(rank=0))


@special("builtins.getattr")
def _getattr(c):
    ok, n = c.args[1].const()
    if ok and isinstance(n, str):
        return c.I.getattr(c.args[0], n, c.node, c.st, c.fr, default=c.args[2] if len(c.args) > 2 else None)
    return c.default()


@special("builtins.hasattr")
def _hasattr(c):
    ok, n = c.args[1].const()
    if ok and isinstance(n, str):
        res = set()
        for a in c.args[0].atoms:
            c.I.quiet += 1
            try:
                r = c.I.getattr_atom(a, c.args[0], n, c.node, c.st, c.fr)
                if r is None:
                    res.add(False)
                elif a[0] in ("u", "xb", "x") or (a[0] == "r" and c.st.heap[a[1]].kind == "ext"):
                    res.add(None)
                elif a[0] in ("n",):
                    res.add(n in ("real", "imag", "is_integer") or (None if not c.args[0].f.py else False))
                else:
                    res.add(True)
            finally:
                c.I.quiet -= 1
        if len(res) == 1 and None not in res:
            return _kconst(res.pop())
    return boolean(Facets(rank=0))


@special("builtins.setattr", "object.__setattr__")
def _setattr(c):
    if len(c.args) >= 3:
        ok, n = c.args[1].const()
        if ok and isinstance(n, str):
            if c.args[0].single() and c.args[0].single()[0] == "m":
                c.I.set_env(c.args[0].single()[1].env, n, c.args[2], c.st)
            else:
                c.I.store_attr(c.args[0], n, c.args[2], c.node, c.st, c.fr)
    return NONE


@special("builtins.type")
def _type(c):
    if len(c.args) == 3:
        # dynamic class creation
        return make_type(c)
    out = set()
    for a in c.args[0].atoms:
        if a[0] == "r":
            o = c.st.heap.get(a[1])
            if o is not None and o.cls is not None and o.kind == "inst":
                out.add(("k", o.cls))
            elif o is not None:
                out.add(("x", {"list": "builtins.list", "array": "numpy.ndarray", "dict": "builtins.dict", "set": "builtins.set"}.get(
                    o.extra if o.kind == "sample" else o.kind, "builtins.object")))
        elif a[0] == "c" and isinstance(a[1].v, EnumMember):
            out.add(("k", a[1].v.cls))
        elif a[0] == "c":
            out.add(("x", f"builtins.{type(a[1].v).__name__}"))
        elif a[0] == "s":
            out.add(("x", "builtins.str"))
        else:
            return unk(c.args[0].f)
    return AV(frozenset(out), Facets(deps=frozenset()))


def make_type(c):
    from .interp import ClassObj, c3
    ok, name = c.args[0].const()
    bases, ext = [], []
    k = c.I.known_elems(c.args[1], c.st) or []
    for b in k:
        for a in b.atoms:
            if a[0] == "k":
                bases.append(a[1])
            elif a[0] == "x":
                ext.append(a[1])
    ns = {}
    for _, o in c.I.objs(c.args[2], c.st):
        if o.kind == "dict":
            for key, v in o.attrs.items():
                if isinstance(key, C) and isinstance(key.v, str):
                    ns[key.v] = v
    nm = name if ok and isinstance(name, str) else f"<dynamic@{c.node.lineno}>"
    cl = ClassObj(nm, f"{c.fr.module.name}.{nm}", c.fr.module, bases, ns, c.node)
    cl.ext_bases = ext
    cl.mro = c3(cl)
    c.I.classes.append(cl)
    return AV(frozenset({("k", cl)}))


@special("builtins.id", "builtins.hash")
def _hash(c):
    return num(c.facets().but(rank=0, py=True))


@special("builtins.any", "builtins.all")
def _any(c):
    v = c.args[0]
    k = c.I.known_elems(v, c.st)
    if k is not None:
        ts = [c.I.truth(x, c.st) for x in k]
        if c.leaf == "any":
            if any(t is True for t in ts):
                return _kconst(True)
            if all(t is False for t in ts):
                return _kconst(False)
        else:
            if any(t is False for t in ts):
                return _kconst(False)
            if all(t is True for t in ts):
                return _kconst(True)
    r = c.red(v, py=True, boolres=True)
    return boolean(r.f.but(ord="I", wit=None)) if constant_sample(c.I, v, c.leaf, c.st) else r


@special("builtins.map")
def _map(c):
    I, st = c.I, c.st
    k = [I.known_elems(a, st) for a in c.args[1:]]
    if all(x is not None for x in k) and k:
        out = [I.call(c.args[0], list(t), {}, st, c.fr, c.node) for t in zip(*k)]
        return I.new("gen", c.node, c.fr, st, f=Facets(rank=1, ord=I.seq_ord(out, st), deps=frozenset().union(*[I.eff_deps(x, st) for x in out]) if out else frozenset()), elems=tuple(out))
    I.summary_depth += 1
    try:
        els = [I.loop_elem(a, st, ("map", id(c.node)), c.node, c.fr) for a in c.args[1:]]
        r = I.call(c.args[0], els, {}, st, c.fr, c.node)
    finally:
        I.summary_depth -= 1
    f = c.eff(r)
    return I.new("gen", c.node, c.fr, st, f=f.but(rank=1, idx=None, deps=I.eff_deps(r, st)), elem=r.but(idx=None))


@special("builtins.filter")
def _filter(c):
    I, st = c.I, c.st
    v = c.args[1]
    f = c.eff(v)
    e = I.elem_of(v, st)
    return I.new("gen", c.node, c.fr, st, f=f, elem=e)


@special("builtins.next")
def _next(c):
    v = c.args[0]
    k = c.I.known_elems(v, c.st)
    if k:
        r = k[0]
    elif k is not None and len(c.args) == 1:
        fail(c.I, "stop-iteration", "next() of an empty iterator", c.node, c.fr, c.st, "builtins.StopIteration")
    else:
        r = c.I.elem_of(v, c.st) if k is None else None
    f = c.eff(v)
    if r is not None and f.ord == "E":
        r = r.but(ord="X", wit=("the first element in the caller's order is taken", c.I.site(c.node, c.fr)))
    if len(c.args) > 1 and not k:
        r = join(r, c.args[1])
    return r


@special("builtins.print", "builtins.input", "builtins.open", "builtins.exec", "builtins.eval", "builtins.breakpoint")
def _print(c):
    c.I.event("io", c.name, c.node, c.fr)
    return NONE if c.leaf == "print" else c.default()


@special("builtins.pow")
def _pow(c):
    return binop(c.I, "Pow", c.args[0], c.args[1], c.node, c.st, c.fr)


@special("builtins.divmod")
def _divmod(c):
    return AV(frozenset({("t", (binop(c.I, "FloorDiv", c.args[0], c.args[1], c.node, c.st, c.fr),
                                binop(c.I, "Mod", c.args[0], c.args[1], c.node, c.st, c.fr)))}))


@special("builtins.slice")
def _slice(c):
    a = c.args
    parts = (None, a[0], None) if len(a) == 1 else tuple(list(a) + [None] * (3 - len(a)))
    parts = tuple(None if p is not None and p.const() == (True, None) else p for p in parts)
    return AV(frozenset({("slice", parts)}))


@special("builtins.vars", "builtins.locals", "builtins.globals", "builtins.dir")
def _vars(c):
    if c.leaf == "globals":
        return AV(frozenset({("m", c.fr.module)})) if False else unk()
    return unk(c.facets())


@special("object.__init__", "object.__init_subclass__", "object.__post_init__", "object.__new__", "typing.cast", "builtins.super")
def _objinit(c):
    if c.name == "typing.cast":
        return c.args[1] if len(c.args) > 1 else unk()
    return NONE


@special("builtins.object")
def _object(c):
    return c.I.new("ext", c.node, c.fr, c.st, extra="builtins.object")


@special("warnings.warn", "warnings.filterwarnings", "warnings.simplefilter")
def _warn(c):
    if c.leaf != "warn" and not c.I.warn_scope:
        c.I.event("global-write", c.name, c.node, c.fr)
    return NONE


@special("warnings.catch_warnings", "numpy.errstate")
def _scoped(c):
    """A context manager that restores the state changed inside it."""
    return c.I.new("ext", c.node, c.fr, c.st, extra=c.name)


@special("numpy.seterr", "random.seed", "numpy.random.seed", "numpy.random.set_state", "numpy.set_printoptions",
         "locale.setlocale", "os.chdir", "os.putenv", "sys.setrecursionlimit")
def _global_state(c):
    c.I.event("global-write", c.name, c.node, c.fr)
    return unk()


@special("functools.partial")
def _partial(c):
    return AV(frozenset({("xb", "functools.partial.__call__", AV(frozenset({("t", (c.args[0], AV(frozenset({("t", tuple(c.args[1:]))})),
              c.I.new("dict", c.node, c.fr, c.st, attrs={C(k): v for k, v in c.kwargs.items()}, extra="closed", tag="pk")))}), c.facets()))}))


def _partial_call(c):
    t = c.recv.of("t")
    if not t:
        return NotImplemented
    fn, a, k = t[0][1]
    kw = {}
    for _, o in c.I.objs(k, c.st):
        kw = {x.v: v for x, v in o.attrs.items()}
    kw.update(c.kwargs)
    return c.I.call(fn, list(a.of("t")[0][1]) + c.args, kw, c.st, c.fr, c.node)


METHOD["functools.partial.__call__"] = _partial_call


def _vectorize_call(c):
    els = [c.I.elem_of(a, c.st) if c.isarr(a) else a for a in c.args]
    r = c.I.call(c.recv, els, {}, c.st, c.fr, c.node)
    f = combine(c.I, c.args, c.st, c.node, c.fr)
    return c.arr(f.but(deps=f.deps | c.eff(r).deps)) if any(c.isarr(a) for a in c.args) else r


METHOD["numpy.vectorize.__call__"] = _vectorize_call


@special("functools.reduce")
def _reduce(c):
    k = c.I.known_elems(c.args[1], c.st)
    if k is not None:
        xs = ([c.args[2]] if len(c.args) > 2 else []) + list(k)
        if xs:
            r = xs[0]
            for x in xs[1:]:
                r = c.I.call(c.args[0], [r, x], {}, c.st, c.fr, c.node)
            return r
    return c.default()


@special("numpy.maximum.reduce", "numpy.add.reduce", "numpy.minimum.reduce", "numpy.multiply.reduce")
def _ufred(c):
    return c.red(c.args[0])


@special("numpy.maximum.accumulate", "numpy.add.accumulate", "numpy.minimum.accumulate")
def _ufacc(c):
    f = combine(c.I, c.args[:1], c.st)
    o, wit = f.ord, f.wit
    if o == "E":
        o, wit = "X", ("accumulate() works on positions of the caller's sample", c.I.site(c.node, c.fr))
    elif o == "I":
        o = "P"
    return c.arr(f.but(ord=o, wit=wit, rank=1), c.len(c.args[0]))


@special("numpy.subtract.outer", "numpy.add.outer", "numpy.multiply.outer")
def _ufouter(c):
    f = [c.eff(a) for a in c.args[:2]]
    o = "E" if all(x.ord in ("E", "I") for x in f) and any(x.ord == "E" for x in f) else ("P" if all(x.ord in ("I", "P") for x in f) else "U")
    return c.arr(Facets(deps=c.facets().deps, ord=o, rank=2))


@special("statistics.mean", "statistics.fmean", "statistics.median", "statistics.stdev", "statistics.variance", "statistics.pvariance", "statistics.pstdev")
def _stat(c):
    return c.red(c.args[0], py=True)


@special("scipy.integrate.quad")
def _quad(c):
    f = c.facets()
    # the integrand is evaluated at an arbitrary point
    try:
        x = num(Facets(rank=0, py=True))
        extra = []
        a = c.kwargs.get("args") or (c.args[3] if len(c.args) > 3 else None)
        if a is not None:
            extra = c.I.known_elems(a, c.st) or [a]
        r = c.I.call(c.args[0], [x] + extra, {}, c.st, c.fr, c.node)
        rf = c.eff(r)
        f = f.but(deps=(f.deps | rf.deps) - {"sought"}, ord=comb_ord(f.ord, rf.ord), wit=rf.wit)
    except Exception as ex:
        if type(ex).__name__ == "Dead":
            raise
    r = num(f.but(rank=0, ord=f.ord if f.ord in ("I", "X") else "U"))
    return AV(frozenset({("t", (r, r))}), r.f)


@special("scipy.optimize.minimize_scalar", "scipy.optimize.root_scalar", "scipy.optimize.minimize", "scipy.optimize.brentq",
         "scipy.optimize.bisect", "scipy.optimize.fsolve", "scipy.optimize.root", "scipy.optimize.newton", "scipy.optimize.curve_fit")
def _optim(c):
    f = c.facets()
    try:
        ff = Facets(rank=0, deps=frozenset({"sought"}))
        x = num(ff) if c.leaf in ("minimize_scalar", "root_scalar", "brentq", "bisect", "newton") else unk(ff.but(rank=None))
        extra = []
        a = c.kwargs.get("args")
        if a is not None:
            extra = c.I.known_elems(a, c.st) or [a]
        r = c.I.call(c.args[0] if c.args else c.kwargs["fun"], [x] + extra, {}, c.st, c.fr, c.node)
        rf = c.eff(r)
        f = f.but(deps=(f.deps | rf.deps) - {"sought"}, ord=comb_ord(f.ord, rf.ord), wit=rf.wit)
    except Exception as ex:
        if type(ex).__name__ != "Dead":
            raise
    o = "I" if f.ord == "P" else f.ord if f.ord in ("I", "X") else "U"     # brackets and bounds are positions
    if c.leaf in ("brentq", "bisect", "newton"):
        return num(f.but(rank=0, ord=o))
    return c.I.new("ext", c.node, c.fr, c.st, f=f.but(ord=o, rank=None), extra="scipy.optimize.result",
                   attrs={"x": num(f.but(rank=0, ord=o)), "root": num(f.but(rank=0, ord=o)), "fun": num(f.but(rank=0, ord=o)), "success": boolean(f.but(rank=0, ord=o)),
                          "converged": boolean(f.but(rank=0, ord=o))})


@special("inspect.getmembers")
def _getmembers(c):
    I, st = c.I, c.st
    a = c.args[0].single()
    pred = c.args[1] if len(c.args) > 1 else c.kwargs.get("predicate")
    items = None
    if a and a[0] == "m":
        env = st.heap.get(a[1].env) or I.g.heap[a[1].env]
        items = sorted((k, v) for k, v in env.attrs.items() if isinstance(k, str) and ("missing",) not in v.atoms) if False else sorted(
            [(k, v) for k, v in env.attrs.items() if isinstance(k, str)], key=lambda t: t[0])
    elif a and a[0] == "k":
        names = {}
        for k in reversed(a[1].mro):
            names.update(k.ns)
        items = sorted(names.items(), key=lambda t: t[0])
    if items is None:
        return c.default()
    out = []
    for n, v in items:
        if pred is not None:
            t = I.truth(I.call(pred, [v], {}, st, c.fr, c.node), st)
            if t is False:
                continue
            if t is None:
                continue
        out.append(AV(frozenset({("t", (const(n), v))})))
    return c.list(Facets(rank=1, ord="P"), elems=tuple(out))


@special("inspect.signature")
def _signature(c):
    a = c.args[0].single() if c.args else None
    if a is None or a[0] not in ("f", "b") or not hasattr(a[1], "node") or len(c.args) > 1 or c.kwargs:
        return c.default()
    g = a[1].node.args
    names = [x.arg for x in g.posonlyargs + g.args + ([g.vararg] if g.vararg else []) + g.kwonlyargs + ([g.kwarg] if g.kwarg else [])]
    names = names[1:] if a[0] == "b" else names
    oid = c.I.fresh()
    c.st.heap[oid] = Obj("dict", attrs={C(n): c.I.new("ext", c.node, c.fr, c.st, tag=n, extra="inspect.Parameter", attrs={"name": const(n)}) for n in names},
                         extra="closed", roots=frozenset({oid}))
    return c.I.new("ext", c.node, c.fr, c.st, extra="inspect.Signature", attrs={"parameters": AV(frozenset({("r", oid)}))})


@special("inspect.isclass")
def _isclass(c):
    at = c.args[0].atoms
    if at and all(a[0] == "k" or (a[0] == "x" and looks_class(a[1])) for a in at):
        return _kconst(True)
    if at and all(a[0] != "k" and not (a[0] == "x" and looks_class(a[1])) and a[0] not in ("u", "missing") for a in at):
        return _kconst(False)
    return boolean(Facets(rank=0))


def looks_class(d):
    leaf = d.rsplit(".", 1)[-1]
    return leaf[:1].isupper() or d in ("numpy.float64", "numpy.ndarray", "builtins.float", "builtins.int", "builtins.str", "builtins.list", "builtins.dict",
                                       "numpy.number", "datetime.datetime")


@special("inspect.isfunction")
def _isfunction(c):
    at = c.args[0].atoms
    if at and all(a[0] == "f" for a in at):
        return _kconst(True)
    if at and all(a[0] in ("k", "m", "c", "r", "s", "n", "x") for a in at):
        return _kconst(False)
    return boolean(Facets(rank=0))


@special("inspect.isabstract")
def _isabstract(c):
    a = c.args[0].single()
    if a and a[0] == "k":
        return _kconst(a[1].is_abstract())
    if a and a[0] != "u":
        return _kconst(False)
    return boolean(Facets(rank=0))


@special("importlib.import_module")
def _import_module(c):
    ok, n = c.args[0].const()
    if ok and isinstance(n, str):
        if n.startswith("."):
            pk = c.arg(1, "package")
            okp, p = pk.const() if pk is not None else (False, None)
            if okp and isinstance(p, str):
                lv = len(n) - len(n.lstrip("."))
                base = p.split(".")
                base = base[: len(base) - (lv - 1)]
                n = ".".join(base + ([n.lstrip(".")] if n.lstrip(".") else []))
        m = c.I.load_from(n, c.st)
        if m is not None:
            return AV(frozenset({("m", m)}))
        if n.split(".")[0] == c.I.p.package:
            fail(c.I, "import-error", f"module {n} does not exist", c.node, c.fr, c.st, "builtins.ImportError")
    return c.default()


@special("pkgutil.iter_modules", "pkgutil.walk_packages")
def _iter_modules(c):
    I = c.I
    prefix = c.arg(1, "prefix")
    okp, p = prefix.const() if prefix is not None else (True, "")
    path = c.args[0] if c.args else unk()
    pkg = next((f[1] for f in path.f.facts if f[0] == "pkgpath"), None)
    if pkg is None or not okp:
        return c.default()
    out = []
    for n in sorted(I.p.sources):
        if n.startswith(pkg + ".") and (c.leaf == "walk_packages" or "." not in n[len(pkg) + 1:]):
            out.append(AV(frozenset({("t", (unk(), const(p + n[len(pkg) + 1:]), const(I.p.sources[n][1])))})))
    return c.list(Facets(rank=1, ord="P"), elems=tuple(out))


@special("importlib.metadata.version", "typing.TypeVar", "typing.NewType", "typing.ParamSpec")
def _version(c):
    if c.leaf == "version":
        return string()
    return AV(frozenset({("x", f"{c.name}()")}))


@special("class.__subclasses__")
def _subclasses(c):
    k = c.recv.single()
    subs = [x for x in c.I.classes if k[1] in x.bases]
    return c.list(Facets(rank=1, ord="P"), elems=tuple(AV(frozenset({("k", x)})) for x in subs))


@special("scipy.stats.ecdf.cdf.evaluate", "scipy.stats.ecdf.sf.evaluate")
def _ecdf_eval(c):
    f = c.facets()
    t = F_SYM if ".cdf." in c.name else 1 - F_SYM
    return num(f.but(rank=0, term=t, iv=(0, 1, True), ord="I" if f.ord in ("I", "E", "P") else f.ord))


@special("copy.copy", "copy.deepcopy")
def _copy(c):
    v = c.args[0]
    res = None
    for i, (oid, o) in enumerate(c.I.objs(v, c.st)):
        kind = o.kind
        if kind == "sample":
            kind = o.extra
        if kind in ("list", "array", "dict", "set"):
            res = join(res, c.I.new(kind, c.node, c.fr, c.st, f=o.f, tag=f"copy{i}", attrs=dict(o.attrs), elems=o.elems, elem=o.elem,
                                    extra=o.extra if kind == "dict" else None))
        else:
            res = join(res, AV(frozenset({("r", oid)}), o.f))
    rest = frozenset(a for a in v.atoms if a[0] != "r")
    if rest:
        res = join(res, AV(rest, v.f))
    return res or unk()


@special("itertools.combinations", "itertools.product", "itertools.permutations")
def _comb(c):
    f = c.eff(c.args[0])
    e = c.I.elem_of(c.args[0], c.st)
    ok, r = c.args[1].const() if len(c.args) > 1 else (True, len(c.args))
    k = c.I.known_elems(c.args[0], c.st)
    if k is not None and ok and isinstance(r, int) and len(k) <= 8 and c.leaf == "combinations":
        import itertools
        return c.I.new("gen", c.node, c.fr, c.st, f=f, elems=tuple(AV(frozenset({("t", t)})) for t in itertools.combinations(k, r)))
    if ok and isinstance(r, int) and r <= 4:
        o = "U" if f.ord in ("E",) else f.ord
        e2 = e.but(ord=o, idx=None)
        return c.I.new("gen", c.node, c.fr, c.st, f=f.but(ord=o), elem=AV(frozenset({("t", (e2,) * r)})))
    return c.default()


def isinstance_atom(I, a, typeav, st, f=None):
    types = []

    def flat(v):
        for x in v.atoms:
            if x[0] == "t":
                for y in x[1]:
                    flat(y)
            else:
                types.append(x)
    flat(typeav)
    out = set()
    for t in types:
        out.add(_inst1(I, a, t, st, f))
    if True in out:
        return True
    if out == {False}:
        return False
    return None


_PYT = {"builtins.int": int, "builtins.float": float, "builtins.str": str, "builtins.bool": bool, "builtins.bytes": bytes, "builtins.complex": complex}
_ABCSEQ = ("collections.abc.Sequence", "typing.Sequence", "collections.abc.Iterable", "typing.Iterable", "collections.abc.Sized")


def _inst1(I, a, t, st, f):
    if t[0] == "k":
        if a[0] == "r":
            o = st.heap.get(a[1])
            if o is None:
                return None
            if o.kind == "inst":
                return o.cls.is_sub(t[1])
            if o.kind == "ext":
                return None if t[1].opaque() else False
            return False
        if a[0] == "c":
            return isinstance(a[1].v, EnumMember) and a[1].v.cls.is_sub(t[1])
        if a[0] in ("u", "xb", "missing"):
            return None
        return False
    if t[0] != "x":
        return None
    d = t[1]
    if a[0] in ("u", "xb", "missing", "x"):
        return None
    if a[0] == "c":
        v = a[1].v
        if isinstance(v, OrdVal):
            if d in ("builtins.float", "builtins.int", "numbers.Number", "numbers.Real"):
                return True if d != "builtins.int" else None
            return False
        if d in _PYT:
            return isinstance(v, _PYT[d])
        if d in ("numbers.Number", "numbers.Real", "numbers.Integral"):
            return isinstance(v, int) or (isinstance(v, float) and d != "numbers.Integral")
        if isinstance(v, str) and d in _ABCSEQ:
            return True
        return False
    if a[0] == "n":
        if d in ("builtins.str", "builtins.list", "builtins.tuple", "builtins.dict", "numpy.ndarray", "builtins.bytes", "builtins.set"):
            return False
        if d in ("numbers.Number", "numbers.Real"):
            return True
        if d == "builtins.float" and f is not None and ("pyfloat",) in f.facts:
            return True
        if d in ("builtins.int", "builtins.bool") and f is not None and ("pyfloat",) in f.facts:
            return False
        return None
    if a[0] == "s":
        return d in ("builtins.str",) + _ABCSEQ
    if a[0] == "B":
        return True if d in ("builtins.bool", "builtins.int") else (None if d.startswith("numpy") else False)
    if a[0] == "y":
        return d == "builtins.bytes"
    if a[0] == "t":
        return d in ("builtins.tuple",) + _ABCSEQ
    if a[0] == "r":
        o = st.heap.get(a[1])
        if o is None:
            return None
        k = o.extra if o.kind == "sample" else o.kind
        m = {"list": ("builtins.list",) + _ABCSEQ, "array": ("numpy.ndarray", "collections.abc.Iterable", "typing.Iterable", "collections.abc.Sized"),
             "dict": ("builtins.dict", "collections.abc.Mapping", "typing.Mapping"), "set": ("builtins.set",), "gen": ("collections.abc.Iterator", "typing.Iterator", "collections.abc.Generator")}
        if k in m:
            return d in m[k]
        if k == "ext":
            return True if o.extra == d else None
        if k == "inst":
            if any(d in c.ext_bases for c in o.cls.mro):
                return True
            return None if o.cls.opaque() else False
        return None
    return False
