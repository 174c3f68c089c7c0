"""The column type that stores statistic values (P19)."""
from __future__ import annotations

import ast
import json

import sympy

from ..bytesmodel import Codec, Unknown, cast, term_of
from ..drive import PKG, Session, new_interp
from ..interp import AnalysisBroken
from ..values import AV, Facets, const, num
from .registry import check
from .resolving import concretely
from .testing import func_site, heap_list, hooked, last_site

COLUMN = "persistence.sqlalchemy.alchemy_decorator.CompressedFloatArray"
BIG = 1_000_000


SPECIAL = [float("nan"), float("inf"), float("-inf"), -0.0, 1e308, -1e31, 5e-324, 1 / 3, 7.0, 1e-9, 123456789.0123, 7.0, 0.1]


def lengths(I):
    """Numbers of values on both sides of the whole numbers the column type is written with."""
    mod = f"{PKG}.{COLUMN.rsplit('.', 1)[0]}"
    tree = I.p.tree(mod) if mod in I.p.sources else ast.Module([], [])
    ks = {n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and type(n.value) is int and 3 < n.value < 2 ** 30}
    return sorted({x for k in ks for x in (k, k + 1, 3 * k + 2)} | {70_001, 2 ** 24 + 3})[:24]


class Run:
    def __init__(self, I, cls, label):
        self.I, self.cls = I, cls
        self.s = Session(I, label)
        self.K = Codec(I, self.s)

    def __enter__(self):
        self.K.cur = self.s.st
        self.h, self.c = hooked(self.I, self.K), concretely(self.I)
        self.h.__enter__()
        self.c.__enter__()
        self.I.op_hook = self.K.op
        self.forks0 = self.I.forks
        return self

    def __exit__(self, *a):
        self.I.op_hook = None
        self.c.__exit__()
        self.h.__exit__()
        return False

    def sure(self):
        return not self.K.unknown and self.I.forks == self.forks0

    def why(self):
        return ", ".join(sorted(self.K.unknown)) or "a branch depends on values that are not known"

    def codec(self, f32):
        o = self.s.new(self.cls, use_float32=const(f32))
        if o is None:
            raise AnalysisBroken("the column type cannot be built")
        return o

    def write(self, o, v):
        return self.s.meth(o, "process_bind_param", v, const(None))

    def read(self, o, v):
        return self.s.meth(o, "process_result_value", v, const(None))

    def values(self, n):
        s = self.s
        if isinstance(n, list):
            return heap_list(s, [const(x) for x in n]), [term_of(x) for x in n]
        if n is None or n > 3:
            return self.K.ext(s.st, "codec.list", {"elems": sympy.Symbol("x"), "n": n or BIG, "dtype": None}), None
        ts = [sympy.Symbol(f"x{i}") for i in range(n)]
        return heap_list(s, [num(Facets(rank=0, term=t, py=True)) for t in ts]), ts


def compare(rep, R, key, v, want, n, what, site):
    """The value read must be the list of the wanted terms."""
    if not R.sure():
        rep.unsure(key, f"{what}: {R.why()}")
        return
    if v is None:
        rep.violation(f"{key}:raises", f"{what}: raises", last_site(R.s) or site)
        return
    if v.const() == (True, None):
        rep.violation(f"{key}:none", f"{what}: is read back as None", site)
        return
    if v.const()[0] and isinstance(v.const()[1], str):
        rep.violation(f"{key}:type", f"{what}: is read back as text", site)
        return
    d = R.K.m(v, "codec.array")
    if d is not None:
        rep.violation(f"{key}:type", f"{what}: is read back as an array, not a list", site)
        return
    try:
        el, m = R.K.terms(v, R.s.st)
    except Unknown as e:
        rep.unsure(key, f"{what}: {e}")
        return
    got = m if m is not None else len(el)
    exp = n if n is not None else len(want)
    if got != exp:
        rep.violation(f"{key}:count", f"{what}: {exp} value(s) are read back as {got}", site)
        return
    pairs = [(el if m is not None else el[0], want)] if n is not None else list(zip(el, want))
    for a, b in pairs:
        if a != b and sympy.simplify(sympy.nsimplify(a, rational=True) - b) != 0:
            rep.violation(f"{key}:value", f"{what}: {b} is read back as {a}", site)
            return
    rep.ok(what)


@check("P19", "abstract interpretation over modelled byte strings",
       "Writing and reading are interpreted on lists of none, one, three and a million symbolic values, with a model of struct, zstd (and zlib) and numpy that follows "
       "each value through the packed header, the raw array and its compression, for every combination of the writer's and the reader's precision. "
       "What is read must be the written values in order, rounded only when the writer stores single precision; damaged headers must be refused.",
       "Compression is modelled as an exact inverse pair; encodings outside the model leave an obligation undecided.")
def p19(rep, root, tier):
    I = new_interp(root)
    rep.rule = "read(write(x)) == x (rounded to float32 iff the writer says so), for any reader; None <-> None; text accepted; unknown headers raise"
    s0 = Session(I, "codec")
    cls = s0.cls(s0.get(COLUMN))
    ws, rs = func_site(I, cls, "process_bind_param"), func_site(I, cls, "process_result_value")
    more = lengths(I)
    for w in (False, True):
        for r in (False, True):
            both = f"written with {'single' if w else 'double'}, read with {'single' if r else 'double'} precision"
            for n in [0, 1, 3, None, SPECIAL] + more:
                with Run(I, cls, f"codec/{w}{r}{n}") as R:
                    v, ts = R.values(n)
                    b = R.write(R.codec(w), v)
                    rep.count("round trips")
                    what = "special values " + both if n is SPECIAL else f"{BIG if n is None else n} value(s) {both}"
                    if b is None and R.sure():
                        rep.violation("write:raises", f"{what}: writing raises", last_site(R.s) or ws)
                        continue
                    v = R.read(R.codec(r), b) if b is not None else None
                    d = "f4" if w else "f8"
                    compare(rep, R, "round-trip", v, [cast(t, d) for t in ts] if ts is not None else cast(sympy.Symbol("x"), d),
                            (n or BIG) if ts is None else None, what, rs)
        for place, arg in (("written", None), ("read", None), ("written", "[1.5, -2.25]"), ("read", "[1.5, -2.25]"), ("read", "[]")):
            with Run(I, cls, f"codec/{place}{arg}{w}") as R:
                o = R.codec(w)
                v = R.write(o, const(arg)) if place == "written" else R.read(o, const(arg))
                rep.count("special values")
                what = ("None" if arg is None else "JSON text") + f" {place} with {'single' if w else 'double'} precision"
                if arg is None:
                    if not R.sure():
                        rep.unsure("none", f"{what}: {R.why()}")
                    elif v is None or v.const() != (True, None):
                        rep.violation(f"none:{place}", f"{what} does not stay None", ws if place == "written" else rs)
                    else:
                        rep.ok(what)
                    continue
                if place == "written" and v is not None:
                    v = R.read(o, v)
                compare(rep, R, f"text-{place}", v, [cast(sympy.nsimplify(x, rational=True), "f4" if w and place == "written" else "f8") for x in json.loads(arg)], None, what, rs)
    damaged(rep, I, cls, rs)


def head_of(R, o, n=3):
    v, _ = R.values(n)
    b = R.write(o, v)
    m = R.K.m(b, "codec.bytes") if b is not None else None
    return m["segs"] if m is not None and R.sure() and m["segs"] and m["segs"][0][0] == "lit" else None


def damaged(rep, I, cls, rs):
    """Data that this version did not write must be refused, not misread."""
    with Run(I, cls, "codec/sample") as R:
        a = head_of(R, R.codec(False))
        b = head_of(R, R.codec(True))
        n4 = head_of(R, R.codec(False), 1)
        o = R.codec(False)
        ver = R.s.attr(o, "VERSION")
        other = None
        if ver is not None and ver.const()[0] and isinstance(ver.const()[1], int):
            R.s.set(o, "VERSION", const(ver.const()[1] + 1))
            other = head_of(R, o)
    if a is None or b is None or n4 is None:
        rep.unsure("header", "the header is not literal")
        return
    head = a[0][1]
    rest = a[1:]
    cases = [(f"data of {k} byte(s)", [("lit", head[:k])] if k else []) for k in range(len(head))]
    cases.append(("uncompressed data", [("lit", head), ("arr", "f8", tuple(sympy.symbols("x0:3")), None)]))
    if other is not None and other[0][1] != head:
        cases.append(("data of another version", other))
    else:
        rep.unsure("version", "the header does not follow VERSION")
    diff = [i for i in range(min(len(head), len(b[0][1]))) if head[i] != b[0][1][i]]
    if len(diff) == 1 and len(head) == len(b[0][1]):
        i = diff[0]
        for k in (0, 9, 200):
            if k not in (head[i], b[0][1][i]):
                cases.append((f"data of element type {k}", [("lit", head[:i] + bytes([k]) + head[i + 1:]), *rest]))
    else:
        rep.unsure("element type", "no single byte tells the element type")
    for what, data in cases:
        with Run(I, cls, f"codec/{what}") as R:
            v = R.read(R.codec(False), R.K.bytes_(R.s.st, data))
            rep.count("damaged inputs")
            if not R.sure():
                rep.unsure("damaged", f"{what}: {R.why()}")
            elif v is not None:
                kind = "short" if what.startswith("data of ") and what.endswith("byte(s)") else what.rsplit(" ", 1)[0] if "type" in what else what
                rep.violation(f"damaged:{kind}", f"{what} is not refused", rs)
            else:
                rep.ok(f"{what} refused")
