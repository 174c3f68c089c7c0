"""Abstract values, heap objects and lattice operations of the analyser.

An abstract value (AV) is a finite set of *atoms* (what the value may be) plus *facets*
(what is known about it whatever it is):

  deps  - labels of the inputs the value is computed from (data and control dependence)
  ord   - how the value behaves when the caller's sample is permuted:
            'I' invariant, 'P' invariant but position dependent (an invariant array, or a loop
            index), 'E' equivariant (follows the sample's own order), 'R' a fixed rearrangement of the sample's own order, 'M' a permutation that maps
            sorted positions to sample positions (argsort), 'U' not decided, 'X' depends on the
            caller's order
  rank  - 0 scalar, 1 array-like, 2 multi-dimensional, None unknown
  idx   - identity of the loop whose plain index variable this value is (or None)
  term  - closed form over the symbolic inputs (a sympy expression) or None
  py    - certainly a plain Python number (not a numpy scalar)
  iv    - (lo, hi, tight) interval; tight means both ends are attained or approached
  ax    - {loop: behaviour}: how a value made inside loops still running depends on their position
  facts - accumulated facts (query predicates, provenance notes)
"""
from __future__ import annotations

import math
import sympy
from fractions import Fraction


class EnumMember:
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


class OrdVal:
    """A value known only through its position in a total order (compared, never computed with)."""

    __slots__ = ("rank", "label")

    def __init__(self, rank, label):
        self.rank, self.label = rank, label

    def __eq__(self, o):
        return isinstance(o, OrdVal) and (o.rank, o.label) == (self.rank, self.label)

    def __hash__(self):
        return hash((self.rank, self.label))

    def __repr__(self):
        return f"<{self.label}@{self.rank}>"


INF = math.inf
TOP_IV = (-INF, INF, False)

_ORD_JOIN = {}


def join_ord(a, b):
    if a == b:
        return a
    if "X" in (a, b):
        return "X"
    if "U" in (a, b):
        return "U"
    if a == "I":
        return b
    if b == "I":
        return a
    return "U"


def comb_ord(a, b):
    """Elementwise combination of two values of order behaviour a and b."""
    if a == b:
        return a
    if "X" in (a, b):
        return "X"
    if "U" in (a, b):
        return "U"
    if a == "I":
        return b
    if b == "I":
        return a
    s = {a, b}
    if s in ({"P", "E"}, {"R", "E"}, {"R", "P"}):
        return "X"
    if s == {"P", "M"}:
        return "M"
    if s == {"E", "M"}:
        return "U"
    return "U"


NO_AX = frozenset()


def ax_merge(a, b, fn):
    """Merge two per-loop behaviours; a loop missing on one side is invariant there."""
    if not b or a == b:
        return a
    if not a:
        return b
    d = dict(a)
    for k, o in b:
        d[k] = fn(d.get(k, "I"), o)
    return frozenset(d.items())


def ax_get(ax, lids):
    """(behaviour over the given loops, the rest)."""
    o = None
    rest = []
    for k, x in ax:
        if k in lids:
            o = x if o is None else (x if o == x else ("X" if "X" in (o, x) else "U"))
        else:
            rest.append((k, x))
    return o, frozenset(rest)


def ax_sum(ax):
    """Summary of a scalar's per-loop behaviours."""
    os_ = {o for _, o in ax}
    for o in ("X", "U", "M", "R", "E", "P"):
        if o in os_:
            return o
    return "I"


class Facets:
    __slots__ = ("deps", "ord", "rank", "idx", "term", "iv", "facts", "wit", "py", "ax", "dim")

    def __init__(self, deps=frozenset(), ord="I", rank=None, idx=None, term=None, iv=TOP_IV,
                 facts=frozenset(), wit=None, py=False, ax=NO_AX, dim=None):
        self.deps, self.ord, self.rank, self.idx = deps, ord, rank, idx
        self.term, self.iv, self.facts, self.wit, self.py = term, iv, facts, wit, py
        self.ax = ax
        self.dim = dim

    def but(self, **kw):
        f = Facets(self.deps, self.ord, self.rank, self.idx, self.term, self.iv, self.facts, self.wit, self.py, self.ax, self.dim)
        for k, v in kw.items():
            setattr(f, k, v)
        return f

    def key(self):
        return (self.deps, self.ord, self.rank, self.idx, self.term, self.iv, self.facts, self.py, self.ax, self.dim)

    def __eq__(self, o):
        return isinstance(o, Facets) and self.key() == o.key()

    def __hash__(self):
        return hash((self.deps, self.ord, self.rank, self.iv))


D_ZERO = ("0",)                                    # see sa.dims
D_PURE = ("D", Fraction(0), sympy.Integer(0))
F0 = Facets()


def DIM_JOIN(a, b):     # replaced by sa.dims
    return None


def iv_join(a, b):
    if a == b:
        return a
    return (min(a[0], b[0]), max(a[1], b[1]), a[2] and b[2])


def join_facets(a, b):
    if a is b or a == b:
        return a
    return Facets(
        a.deps | b.deps, join_ord(a.ord, b.ord), a.rank if a.rank == b.rank else None,
        a.idx if a.idx == b.idx else None,
        a.term if (a.term is not None and b.term is not None and a.term == b.term) else None,
        iv_join(a.iv, b.iv), a.facts | b.facts, a.wit or b.wit, a.py and b.py, ax_merge(a.ax, b.ax, join_ord),
        a.dim if a.dim == b.dim else DIM_JOIN(a.dim, b.dim))


class AV:
    __slots__ = ("atoms", "f")

    def __init__(self, atoms=frozenset(), f=F0):
        self.atoms = atoms
        self.f = f

    def __eq__(self, o):
        return isinstance(o, AV) and self.atoms == o.atoms and self.f == o.f

    def __hash__(self):
        return hash((self.atoms, self.f))

    def but(self, **kw):
        return AV(self.atoms, self.f.but(**kw))

    def plus(self, deps=frozenset(), facts=frozenset()):
        if deps <= self.f.deps and facts <= self.f.facts:
            return self
        return AV(self.atoms, self.f.but(deps=self.f.deps | deps, facts=self.f.facts | facts))

    def single(self):
        if len(self.atoms) == 1:
            return next(iter(self.atoms))
        return None

    def const(self):
        """(True, v) when this is exactly one known constant."""
        a = self.single()
        if a is not None and a[0] == "c":
            return True, a[1].v
        return False, None

    def of(self, tag):
        return [a for a in self.atoms if a[0] == tag]

    def has(self, tag):
        return any(a[0] == tag for a in self.atoms)

    def __repr__(self):
        return f"AV({sorted(map(str, self.atoms))}, ord={self.f.ord}, deps={sorted(map(str, self.f.deps))})"


class KV:
    """A dictionary key that is known in the scenario at hand: its identity and the value it stands for."""

    __slots__ = ("key", "av")

    def __init__(self, key, av):
        self.key, self.av = key, av

    def __eq__(self, o):
        return isinstance(o, KV) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return repr(self.key)


class C:
    """A hashable constant that keeps 1, 1.0 and True apart."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        if not isinstance(o, C) or type(o.v) is not type(self.v):
            return False
        if isinstance(self.v, float) and self.v != self.v:
            return o.v != o.v
        return o.v == self.v

    def __hash__(self):
        try:
            return hash((type(self.v).__name__, self.v))
        except TypeError:
            return hash(type(self.v).__name__)

    def __repr__(self):
        return repr(self.v)


NUM, STR, BOOL, UNK, BYTES = ("n",), ("s",), ("B",), ("u",), ("y",)
MAX_CONST = 6
MAX_ATOMS = 24


def const(v, **kw):
    rank = 0
    iv = TOP_IV
    term = None
    if isinstance(v, bool):
        iv = (float(v), float(v), True)
    elif isinstance(v, (int, float)):
        if v == v:
            iv = (v, v, True)
        term = _term_of_const(v)
    f = Facets(rank=rank, iv=iv, term=term, py=True, dim=(D_ZERO if v is None or (v == 0 and v is not False) or (isinstance(v, float) and v in (INF, -INF)) else D_PURE)
               if v is None or isinstance(v, (bool, int, float)) else None)
    if kw:
        f = f.but(**kw)
    return AV(frozenset({("c", C(v))}), f)


_TERM_CONST = None


def set_term_const(fn):
    global _TERM_CONST
    _TERM_CONST = fn


def _term_of_const(v):
    return _TERM_CONST(v) if _TERM_CONST else None


NONE = None  # set below


def unk(f=F0):
    return AV(frozenset({UNK}), f)


def num(f=F0):
    return AV(frozenset({NUM}), f)


def boolean(f=F0):
    return AV(frozenset({BOOL}), f)


def string(f=F0):
    return AV(frozenset({STR}), f)


def join(a, b):
    if a is b or a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    atoms = a.atoms | b.atoms
    cs = [x for x in atoms if x[0] == "c"]
    tuples = [x for x in atoms if x[0] == "t"]
    if len(tuples) > 1:
        by = {}
        for x in tuples:
            by.setdefault(len(x[1]), []).append(x)
        rest = frozenset(x for x in atoms if x[0] != "t")
        new = set()
        for n, xs in by.items():
            if len(xs) == 1:
                new.add(xs[0])
            else:
                elems = []
                for i in range(n):
                    e = xs[0][1][i]
                    for x in xs[1:]:
                        e = join(e, x[1][i])
                    elems.append(e)
                new.add(("t", tuple(elems)))
        atoms = rest | new
    if len(cs) > MAX_CONST:
        drop = set()
        add = set()
        for x in cs:
            v = x[1].v
            if isinstance(v, bool):
                drop.add(x), add.add(BOOL)
            elif isinstance(v, (int, float)):
                drop.add(x), add.add(NUM)
            elif isinstance(v, str):
                drop.add(x), add.add(STR)
        atoms = (atoms - drop) | add
    if NUM in atoms:
        atoms = frozenset(x for x in atoms if not (
            x[0] == "c" and isinstance(x[1].v, (int, float)) and not isinstance(x[1].v, bool)))
    if len(atoms) > MAX_ATOMS:
        keep = [x for x in atoms if x[0] == "r"]
        atoms = frozenset(keep[:MAX_ATOMS]) | {UNK}
    return AV(frozenset(atoms), join_facets(a.f, b.f))


class Obj:
    """A heap object; treated as immutable (states replace objects rather than change them)."""

    __slots__ = ("kind", "cls", "attrs", "elems", "elem", "f", "roots", "site", "extra")

    def __init__(self, kind, cls=None, attrs=None, elems=None, elem=None, f=F0, roots=frozenset(),
                 site=None, extra=None):
        self.kind, self.cls = kind, cls
        self.attrs = attrs if attrs is not None else {}
        self.elems, self.elem, self.f, self.roots = elems, elem, f, roots
        self.site, self.extra = site, extra

    def but(self, **kw):
        o = Obj(self.kind, self.cls, self.attrs, self.elems, self.elem, self.f, self.roots, self.site, self.extra)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def same(self, o):
        return (self is o or (self.kind == o.kind and self.cls is o.cls and self.attrs == o.attrs
                              and self.elems == o.elems and self.elem == o.elem and self.f == o.f
                              and self.roots == o.roots))


MISSING = "<missing>"


def join_attrs(a, b):
    if a is b or a == b:
        return a
    out = {}
    for k in a.keys() | b.keys():
        if k in a and k in b:
            out[k] = join(a[k], b[k])
        else:
            v = a.get(k) or b.get(k)
            out[k] = AV(v.atoms | {("missing",)}, v.f)
    return out


def join_obj(a, b):
    if a.same(b):
        return a
    if a.kind != b.kind:
        kind = "array" if {a.kind, b.kind} <= {"array", "list", "sample"} else a.kind
    else:
        kind = a.kind
    elems = None
    if a.elems is not None and b.elems is not None and len(a.elems) == len(b.elems):
        if isinstance(a.elems, tuple):
            elems = tuple(join(x, y) for x, y in zip(a.elems, b.elems))
    elem = None
    for o in (a, b):
        e = o.elem
        if e is None and o.elems:
            for x in o.elems:
                e = join(e, x)
        elem = e if elem is None else (join(elem, e) if e is not None else elem)
    return Obj(kind, a.cls, join_attrs(a.attrs, b.attrs), elems, elem, join_facets(a.f, b.f),
               a.roots | b.roots, a.site or b.site, a.extra if a.extra == b.extra else (a.extra or b.extra))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


class State:
    """heap plus the events that happened on every path (must) and on some path (may)."""

    __slots__ = ("heap", "must", "may", "pc")

    def __init__(self, heap=None, must=frozenset(), may=frozenset(), pc=None):
        self.heap = heap if heap is not None else {}
        self.must, self.may = must, may
        self.pc = pc if pc is not None else (frozenset(), "I")

    def copy(self):
        return State(dict(self.heap), self.must, self.may, self.pc)

    def event(self, e):
        self.must = self.must | {e}
        self.may = self.may | {e}


NOTHING = Obj("class")  # attributes of a class that no path has assigned at run time


def join_state(a, b):
    if a is None:
        return b
    if b is None or a is b:
        return a
    heap = dict(a.heap)
    for k, o in b.heap.items():
        x = heap.get(k)
        if x is None:
            heap[k] = o if o.kind != "class" else join_obj(NOTHING, o)
        elif x is not o:
            heap[k] = join_obj(x, o)
    for k, o in a.heap.items():
        if o.kind == "class" and k not in b.heap:
            heap[k] = join_obj(o, NOTHING)
    pc = (a.pc[0] | b.pc[0], join_ord(a.pc[1], b.pc[1]))
    return State(heap, a.must & b.must, a.may | b.may, pc)


def same_state(a, b):
    if a.must != b.must or a.may != b.may or a.heap.keys() != b.heap.keys():
        return False
    return all(a.heap[k].same(b.heap[k]) for k in a.heap)
