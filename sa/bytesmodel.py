"""A model of binary encodings: byte strings of known and symbolic pieces, packed headers, compression, numeric arrays.

A byte string is a sequence of segments: literal bytes, the raw form of a numeric array, a compressed byte string (of unknown
size), or packed symbolic numbers. Whatever is not modelled marks the run as unknown."""
from __future__ import annotations

import json
import struct

import sympy

from .interp import Dead
from .values import AV, Facets, Obj, const, num, unk

SIZES = {"f8": 8, "f4": 4, "f2": 2, "i8": 8, "i4": 4, "i2": 2, "i1": 1, "u8": 8, "u4": 4, "u2": 2, "u1": 1}
NAMES = {"float64": "f8", "double": "f8", "float32": "f4", "single": "f4", "float16": "f2", "half": "f2", "int64": "i8", "int32": "i4", "int16": "i2", "int8": "i1",
         "uint64": "u8", "uint32": "u4", "uint16": "u2", "uint8": "u1", "float": "f8", "int": "i8", "float_": "f8", "int_": "i8", "intc": "i4", "d": "f8", "f": "f4", "e": "f2"}
PACK = {"d": "f8", "f": "f4", "e": "f2"}
COMPRESS = {"zlib.compress": "zlib", "gzip.compress": "gzip", "bz2.compress": "bz2", "lzma.compress": "lzma", "codec.zc.compress": "zstd", "zstandard.ZstdCompressor.compress": "zstd", "zstandard.compress": "zstd"}
DECOMPRESS = {"zlib.decompress": "zlib", "gzip.decompress": "gzip", "bz2.decompress": "bz2", "lzma.decompress": "lzma", "codec.zd.decompress": "zstd", "zstandard.ZstdDecompressor.decompress": "zstd", "zstandard.decompress": "zstd"}
ERRS = {"zlib": "zlib.error", "zstd": "zstandard.ZstdError", "gzip": "builtins.OSError", "bz2": "builtins.OSError", "lzma": "lzma.LZMAError"}


def cast(t, d):
    """The value a number keeps in an array of this type."""
    d = d.lstrip("<>=")
    if t is None or d == "f8":
        return t
    if getattr(t, "func", None) is not None and getattr(t.func, "__name__", "") == d:
        return t
    return sympy.Function(d)(t)


def one_byte(d):
    return SIZES[d.lstrip("<>=")] == 1


CMP = ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq")
UNSIZED = sympy.Symbol("bytes", integer=True, positive=True)     # size of compressed data beyond its frame


class Unknown(Exception):
    pass


ODD = {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf"), "-0.0": -0.0}     # numbers with no rational value


LIMITS = {sympy.nan: sympy.Symbol("nan"), sympy.oo: sympy.Symbol("inf"), -sympy.oo: sympy.Symbol("-inf")}
TESTS = {"isfinite": lambda k: k not in ("nan", "inf", "-inf"), "isnan": lambda k: k == "nan", "isinf": lambda k: k in ("inf", "-inf")}


def kind(t):
    """Which odd number a term is; "" for a plain number, None if it is not known."""
    if getattr(t, "func", None) is not None and getattr(t.func, "__name__", "") in ("f4", "f2"):
        t = t.args[0]
    return str(t) if str(t) in ODD else "" if t.is_Rational else None


def term_of(c):
    """The term of a known number."""
    if isinstance(c, float) and repr(c) in ODD:
        return sympy.Symbol(repr(c))
    return sympy.Rational(c) if isinstance(c, float) else sympy.sympify(c)


def value_of(t):
    if isinstance(t, sympy.Symbol) and str(t) in ODD:
        return const(ODD[str(t)])
    if getattr(t, "is_Rational", False):
        c = float(t)
        if sympy.Rational(c) == t:
            return const(c)
    return num(Facets(rank=0, term=t))


SAME = {"numpy.asfarray", "numpy.atleast_1d", "numpy.ravel", "numpy.squeeze", "numpy.copy", "numpy.asanyarray"}
PER_VALUE = {"clip", "round", "around", "round_", "abs", "absolute", "fabs", "nan_to_num", "trunc", "rint", "floor", "ceil", "negative", "log1p", "expm1", "sqrt", "exp", "log",
             "sign", "square", "maximum", "minimum", "log10", "log2"}
WHOLE = {"sort", "unique", "flip", "cumsum", "diff", "roll", "argsort"}


class Codec:
    def __init__(self, I, s):
        self.I, self.s = I, s
        self.meta = {}
        self.unknown = set()

    # -- objects
    def ext(self, st, name, meta, elems=None):
        oid = self.I.fresh()
        st.heap[oid] = Obj("ext", extra=name, f=Facets(), roots=frozenset({oid}), elems=elems)
        self.meta[oid] = meta
        return AV(frozenset({("r", oid)}))

    def m(self, v, kind):
        a = v.single() if v is not None else None
        if a is None or a[0] != "r":
            return None
        o = self.s.st.heap.get(a[1]) or self.cur.heap.get(a[1])
        return self.meta.get(a[1]) if o is not None and o.kind == "ext" and o.extra == kind else None

    def bytes_(self, st, segs):
        out = []
        for x in segs:
            if x[0] == "lit" and out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + x[1])
            elif not (x[0] == "lit" and not x[1]):
                out.append(x)
        return self.ext(st, "codec.bytes", {"segs": out})

    def array(self, st, dtype, elems, n=None):
        """elems: terms, or one generic term when n is given."""
        meta = {"dtype": dtype, "elems": elems, "n": n}
        return self.ext(st, "codec.array", meta, None if n is not None else tuple(value_of(t) for t in elems))

    def size(self, seg):
        if seg[0] == "lit":
            return len(seg[1])
        if seg[0] == "arr":
            return SIZES[seg[1].lstrip("<>=")] * (seg[3] if seg[3] is not None else len(seg[2]))
        return None

    def total(self, segs):
        t = [self.size(x) for x in segs]
        return None if None in t else sum(t)

    def segs(self, v, st):
        b = self.m(v, "codec.bytes")
        if b is not None:
            return b["segs"]
        ok, c = v.const()
        if ok and isinstance(c, (bytes, bytearray)):
            return [("lit", bytes(c))] if c else []
        raise Unknown("a byte string that is not known")

    def terms(self, v, st):
        """(terms, n) of a sequence of numbers."""
        for k in ("codec.list", "codec.array"):
            d = self.m(v, k)
            if d is not None:
                return d["elems"], d["n"]
        k = self.I.known_elems(v, st)
        if k is None:
            raise Unknown("a sequence that is not known")
        out = []
        for x in k:
            t = x.f.term
            ok, c = x.const()
            if ok and isinstance(c, (int, float)):
                t = term_of(c)
            if t in LIMITS:
                t = LIMITS[t]
            if t is None:
                raise Unknown("an element that is not known")
            out.append(t)
        return tuple(out), None

    def dtype(self, v, default=None):
        if v is None:
            return default
        ok, c = v.const()
        if ok and c is None:
            return default
        if ok and isinstance(c, str):
            e = c[0] if c[:1] in "<>=|" else ""
            b = c[1:] if e else c
            b = NAMES.get(b, b)
            if b in SIZES:
                return (">" if e == ">" and SIZES[b] > 1 else "") + b
            raise Unknown(f"dtype {c!r}")
        d = self.m(v, "codec.dtype")
        if d is not None:
            return d["dtype"]
        a = v.single()
        if a is not None and a[0] == "x":
            n = a[1].rsplit(".", 1)[-1]
            if n in NAMES:
                return NAMES[n]
        raise Unknown("a dtype that is not known")

    def int_(self, v, default=None):
        if v is None:
            return default
        ok, c = v.const()
        if ok and c is None:
            return default
        if ok and isinstance(c, int):
            return int(c)
        t = v.f.term
        if t is not None and getattr(t, "is_Integer", False):
            return int(t)
        raise Unknown("a number that is not known")

    def lift(self, c, st):
        if isinstance(c, list):
            oid = self.I.fresh()
            st.heap[oid] = Obj("list", elems=tuple(self.lift(x, st) for x in c), f=Facets(rank=1), roots=frozenset({oid}))
            return AV(frozenset({("r", oid)}))
        if isinstance(c, dict):
            raise Unknown("JSON")
        return const(c)

    def fail(self, exc, st, node, fr):
        self.I.do_raise(AV(frozenset({("x", exc)})), st, node, fr)
        raise Dead()

    def cut(self, segs, lo, hi):
        """segs[lo:hi] with known ends (hi None: to the end)."""
        if lo < 0 or (hi is not None and hi < 0):
            t = self.total(segs)
            if t is None:
                raise Unknown("an offset from the end of compressed data")
            lo = max(lo + t, 0) if lo < 0 else lo
            hi = max(hi + t, 0) if hi is not None and hi < 0 else hi
        out, at = [], 0
        for x in segs:
            n = self.size(x)
            if hi is not None and at >= hi:
                return out
            if n is None:
                if lo > at or hi is not None:
                    if lo > at and lo <= at + 4:
                        out.append(("torn", x))
                        return out
                    raise Unknown("a cut through compressed data")
                out.append(x)
                at = None
                continue
            if at is None:
                out.append(x)
                continue
            a, b = max(lo - at, 0), n if hi is None else min(hi - at, n)
            if a < b:
                if x[0] == "lit":
                    out.append(("lit", x[1][a:b]))
                elif a == 0 and b == n:
                    out.append(x)
                else:
                    w = SIZES[x[1].lstrip("<>=")]
                    if a % w or b % w:
                        raise Unknown("a cut through a number")
                    if x[3] is not None:
                        out.append(("arr", x[1], x[2], (b - a) // w))
                    else:
                        out.append(("arr", x[1], x[2][a // w:b // w], None))
            at += n
        return out

    # -- operators
    def op(self, I, op, ops, node, st, fr):
        self.cur = st
        bs = [self.m(v, "codec.bytes") for v in ops]
        if not any(b is not None for b in bs):
            if op in CMP and len(ops) == 2 and any(v.f.term is not None and v.f.term.has(UNSIZED) for v in ops):
                return self.sizes(op, *ops)
            if op == "Subscript" and self.m(ops[0], "codec.array") is not None and ops[1].has("slice"):
                return self.guard("slice of an array", lambda: self.slice_array(ops[0], ops[1], st))
            if op in ("Invert", "Not") and self.m(ops[0], "codec.mask") is not None:
                return self.ext(st, "codec.mask", {"mask": [not x for x in self.m(ops[0], "codec.mask")["mask"]]})
            if op == "Subscript" and self.m(ops[0], "codec.array") is not None and self.m(ops[1], "codec.mask") is not None:
                d, k = self.m(ops[0], "codec.array"), self.m(ops[1], "codec.mask")["mask"]
                if d["n"] is None and len(d["elems"]) == len(k):
                    return self.array(st, d["dtype"], tuple(t for t, x in zip(d["elems"], k) if x))
            if op == "Subscript" and self.m(ops[0], "codec.list") is not None and ops[1].has("slice"):
                return self.guard("slice of a list", lambda: self.slice_array(ops[0], ops[1], st))
            return None
        try:
            if op == "Add":
                return self.bytes_(st, self.segs(ops[0], st) + self.segs(ops[1], st))
            if op == "Subscript":
                segs = self.segs(ops[0], st)
                a = ops[1].single()
                if a is not None and a[0] == "slice":
                    lo, hi, step = a[1]
                    if step is not None and self.int_(step, 1) != 1:
                        raise Unknown("a strided slice")
                    lo = self.int_(lo, 0)
                    hi = self.int_(hi, None) if hi is not None else None
                    return self.bytes_(st, self.cut(segs, lo, hi))
                i = self.int_(ops[1])
                one = self.cut(segs, i, i + 1 if i != -1 else None)
                if not one:
                    if self.total(segs) is None:
                        raise Unknown("an index")
                    self.fail("builtins.IndexError", st, node, fr)
                if len(one) == 1 and one[0][0] == "lit" and len(one[0][1]) == 1:
                    return const(one[0][1][0])
                raise Unknown("a byte of data")
            if op in ("Eq", "NotEq"):
                x, y = self.segs(ops[0], st), self.segs(ops[1], st)
                if all(k[0] == "lit" for k in x + y):
                    return const((x == y) == (op == "Eq"))
            if op == "Not":
                t = self.total(self.segs(ops[0], st))
                if t is not None:
                    return const(t == 0)
                return const(False)
            if op in ("Is", "IsNot"):
                return const(op == "IsNot") if any(v.const() == (True, None) for v in ops) else None
            if op in ("In", "NotIn"):
                raise Unknown("membership in a byte string")
        except Unknown as e:
            self.unknown.add(str(e))
            return unk()
        self.unknown.add(f"operator {op} on a byte string")
        return unk()

    def sizes(self, op, a, b):
        ts = [v.f.term if v.f.term is not None else sympy.sympify(v.const()[1]) if v.const()[0] else None for v in (a, b)]
        if None in ts:
            return None
        d = sympy.expand(ts[0] - ts[1])
        s = 1 if d.is_positive else -1 if d.is_negative else 0 if d == 0 else None
        return None if s is None else const({"Lt": s < 0, "LtE": s <= 0, "Gt": s > 0, "GtE": s >= 0, "Eq": s == 0, "NotEq": s != 0}[op])

    def slice_array(self, v, idx, st):
        lo, hi, step = idx.single()[1]
        if step is not None:
            raise Unknown("a strided slice")
        lo, hi = self.int_(lo, 0), (self.int_(hi, None) if hi is not None else None)
        d = self.m(v, "codec.array") or self.m(v, "codec.list")
        if d["n"] is not None:
            r = range(d["n"])[lo:hi]
            el, n = d["elems"], len(r)
        else:
            el, n = d["elems"][lo:hi], None
        if "dtype" in d and d["dtype"]:
            return self.array(st, d["dtype"], el, n)
        return self.ext(st, "codec.list", {"elems": el, "n": n, "dtype": None}, None)

    def guard(self, what, fn):
        try:
            return fn()
        except Unknown as e:
            self.unknown.add(f"{what}: {e}")
            return unk()

    # -- library calls
    def __call__(self, I, kind, name, recv, args, kwargs, st, fr, node):
        self.cur = st
        if kind == "getattr":
            if self.m(recv, "codec.array") is not None and name in ("nbytes", "itemsize", "size", "dtype", "shape", "ndim"):
                d = self.m(recv, "codec.array")
                n = d["n"] if d["n"] is not None else len(d["elems"])
                w = SIZES[d["dtype"].lstrip("<>=")]
                if name == "dtype":
                    return self.ext(st, "codec.dtype", {"dtype": d["dtype"]})
                return {"nbytes": const(n * w), "itemsize": const(w), "size": const(n), "ndim": const(1)}.get(name) or AV(frozenset({("t", (const(n),))}))
            if name in ("size", "format") and self.struct_fmt(recv) is not None:
                f = self.struct_fmt(recv)
                return f if name == "format" else self.guard("struct", lambda: const(struct.calcsize(self.fmt(f))))
            if self.m(recv, "codec.struct") is not None and name == "size":
                return const(struct.calcsize(self.m(recv, "codec.struct")["fmt"]))
            if self.m(recv, "codec.dtype") is not None and name == "itemsize":
                return const(SIZES[self.m(recv, "codec.dtype")["dtype"].lstrip("<>=")])
            return None
        if kind != "call":
            return None
        return self.guard(name, lambda: self.lib(I, name, recv, args, kwargs, st, fr, node))

    def lib(self, I, name, recv, args, kwargs, st, fr, node):
        if name == "codec.dtype.newbyteorder":
            ok, c = args[0].const() if args else (False, None)
            d = self.m(recv, "codec.dtype")["dtype"].lstrip("<>=")
            if not ok or c not in ("<", ">", "=", "little", "big"):
                raise Unknown("byte order")
            return self.ext(st, "codec.dtype", {"dtype": (">" if c in (">", "big") else "") + d})
        if name == "json.loads" and args:
            ok, c = args[0].const()
            if not ok or not isinstance(c, str):
                raise Unknown("JSON")
            return self.lift(json.loads(c), st)
        if name in ("struct.Struct",):
            return self.ext(st, "codec.struct", {"fmt": self.fmt(args[0])})
        if name.startswith("codec.struct."):
            f = const(self.m(recv, "codec.struct")["fmt"])
            name, args = "struct." + name[len("codec.struct."):], [f, *args]
        if name.startswith("struct.Struct."):
            f = self.struct_fmt(recv)
            if f is None:
                raise Unknown("a struct that is not known")
            name, args = "struct." + name[len("struct.Struct."):], [f, *args]
        if name.startswith("struct."):
            return self.struct(name[7:], args, kwargs, st, fr, node)
        if name.split(".")[0] == "zstandard" and name.endswith(("ZstdCompressor", "ZstdDecompressor")):
            return self.ext(st, "codec.zc" if name.endswith("Compressor") and not name.endswith("Decompressor") else "codec.zd", {})
        if name in COMPRESS:
            segs = self.segs(args[0], st) if self.m(args[0], "codec.array") is None else self.raw(args[0], st)
            return self.bytes_(st, [("cmp", COMPRESS[name], tuple(segs))])
        if name in DECOMPRESS:
            segs = self.segs(args[0], st)
            if len(segs) >= 1 and segs[0][0] == "cmp" and segs[0][1] == DECOMPRESS[name]:
                return self.bytes_(st, list(segs[0][2]))
            self.fail(ERRS[DECOMPRESS[name]], st, node, fr)
        if name.startswith(("codec.zc.", "codec.zd.", "zstandard.", "zlib.", "gzip.", "bz2.", "lzma.")):
            raise Unknown("compression")
        if name in ("numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.fromiter"):
            d = self.dtype(kwargs.get("dtype") or (args[1] if len(args) > 1 else None))
            el, n = self.terms(args[0], st)
            src = self.m(args[0], "codec.array")
            d = d or (src["dtype"] if src else "f8")
            return self.array(st, d, cast(el, d) if n is not None else tuple(cast(t, d) for t in el), n)
        leaf = name.rsplit(".", 1)[-1]
        if name.startswith("numpy.") and leaf in TESTS and len(args) == 1 and not kwargs:
            el, n = self.terms(args[0], st)
            ks = [kind(t) for t in el] if n is None else [None]
            if None in ks:
                raise Unknown(leaf)
            return self.ext(st, "codec.mask", {"mask": [TESTS[leaf](k) for k in ks]})
        if name in SAME and len(args) == 1 and not kwargs and self.m(args[0], "codec.array") is not None:
            return args[0]
        src = recv if name.startswith("codec.array.") else args[0] if name.startswith("numpy.") and args else None
        if src is not None and leaf in PER_VALUE | WHOLE and (name.startswith("codec.array.") or self.m(src, "codec.array") is not None):
            # a function of each value (or of its place), other than the value itself
            rest = [x.const() for x in (args[1:] if src is not recv else args)] + [x.const() for _, x in sorted(kwargs.items())]
            if not all(ok for ok, _ in rest):
                raise Unknown(leaf)
            d = self.m(src, "codec.array")
            h = sympy.Function("_".join([leaf, *(str(c) for _, c in rest)]))
            return self.array(st, d["dtype"], h(d["elems"]) if d["n"] is not None else tuple(h(t) if leaf in PER_VALUE or len(d["elems"]) < 2 else h(t, i) for i, t in enumerate(d["elems"]))
                              if leaf in PER_VALUE or len(d["elems"]) > 1 else d["elems"], d["n"])
        if name in ("array.array",):
            ok, c = args[0].const()
            if not ok or c not in PACK:
                raise Unknown("array type")
            if len(args) < 2:
                return self.array(st, PACK[c], (), None)
            if self.m(args[1], "codec.bytes") is not None:
                return self.frombuffer(args[1], PACK[c], -1, 0, st, node, fr)
            el, n = self.terms(args[1], st)
            return self.array(st, PACK[c], cast(el, PACK[c]) if n is not None else tuple(cast(t, PACK[c]) for t in el), n)
        if name == "codec.array.frombytes":
            v = self.frombuffer(args[0], self.m(recv, "codec.array")["dtype"], -1, 0, st, node, fr)
            a = recv.single()[1]
            self.meta[a] = self.m(v, "codec.array")
            st.heap[a] = st.heap[v.single()[1]]
            return const(None)
        if name == "numpy.dtype":
            return self.ext(st, "codec.dtype", {"dtype": self.dtype(args[0])})
        if name in NAMES_CALL and len(args) == 1:
            d = NAMES_CALL[name]
            if self.m(args[0], "codec.array") is not None or self.m(args[0], "codec.list") is not None:
                el, n = self.terms(args[0], st)
                return self.array(st, d, cast(el, d) if n is not None else tuple(cast(t, d) for t in el), n)
            return None
        if name in ("codec.array.tobytes", "codec.array.tostring"):
            return self.bytes_(st, self.raw(recv, st))
        if name == "codec.array.astype":
            d = self.dtype(args[0] if args else kwargs.get("dtype"))
            el, n = self.terms(recv, st)
            return self.array(st, d, cast(el, d) if n is not None else tuple(cast(t, d) for t in el), n)
        if name in ("codec.array.tolist", "builtins.list", "builtins.tuple", "codec.list.copy"):
            src = recv if name.startswith("codec.") else (args[0] if args else None)
            d = self.m(src, "codec.array") or self.m(src, "codec.list")
            if d is None:
                return None
            if d["n"] is not None:
                return self.ext(st, "codec.list", {"elems": d["elems"], "n": d["n"], "dtype": None})
            oid = I.fresh()
            st.heap[oid] = Obj("list", elems=tuple(value_of(t) for t in d["elems"]), f=Facets(rank=1), roots=frozenset({oid}))
            return AV(frozenset({("r", oid)}))
        if name in ("codec.array.copy", "codec.array.ravel", "codec.array.flatten"):
            return recv
        if name in ("codec.array.byteswap",):
            d = self.m(recv, "codec.array")
            return self.array(st, d["dtype"], cast(d["elems"], "swap") if d["n"] is not None else tuple(sympy.Function("swap")(t) for t in d["elems"]), d["n"])
        if name == "numpy.frombuffer":
            pos = list(args)
            d = self.dtype(kwargs.get("dtype") or (pos[1] if len(pos) > 1 else None), "f8")
            count = self.int_(kwargs.get("count") or (pos[2] if len(pos) > 2 else None), -1)
            off = self.int_(kwargs.get("offset") or (pos[3] if len(pos) > 3 else None), 0)
            return self.frombuffer(pos[0] if pos else kwargs["buffer"], d, count, off, st, node, fr)
        if name == "builtins.len" and args:
            b = self.m(args[0], "codec.bytes")
            if b is not None:
                t = self.total(b["segs"])
                if t is not None:
                    return const(t)
                lo = sum(self.size(x) or 0 for x in b["segs"])
                return num(Facets(rank=0, term=UNSIZED + 9 + lo, py=True, facts=frozenset({("int",)}), iv=(lo + 1, float("inf"), False)))
            d = self.m(args[0], "codec.array") or self.m(args[0], "codec.list")
            if d is not None:
                return const(d["n"] if d["n"] is not None else len(d["elems"]))
            return None
        if name in ("builtins.bytes", "builtins.bytearray", "builtins.memoryview"):
            if args and self.m(args[0], "codec.bytes") is not None:
                return args[0]
            if args and self.m(args[0], "codec.array") is not None:
                return self.bytes_(st, self.raw(args[0], st))
            k = I.known_elems(args[0], st) if args else []
            if k is not None:
                xs = [self.int_(x) for x in k]
                if any(not 0 <= x < 256 for x in xs):
                    self.fail("builtins.ValueError", st, node, fr)
                return self.bytes_(st, [("lit", bytes(xs))])
            return None
        if name == "builtins.isinstance" and len(args) == 2:
            got = next((t for k, t in (("codec.bytes", "bytes"), ("codec.array", "ndarray"), ("codec.list", "list")) if self.m(args[0], k) is not None), None)
            if got is None:
                return None
            t = args[1].single()
            alts = t[1] if t is not None and t[0] == "t" else (args[1],)
            names = [a[1].rsplit(".", 1)[-1] if a is not None and a[0] == "x" and isinstance(a[1], str) else None for a in (x.single() for x in alts)]
            if None in names:
                raise Unknown("isinstance")
            return const(got in names or (got == "list" and "Sequence" in names) or "object" in names)
        if name == "builtins.int.from_bytes" or name == "int.from_bytes":
            segs = self.segs(args[0], st)
            ok, order = (args[1] if len(args) > 1 else kwargs.get("byteorder", const("big"))).const()
            okS, signed = kwargs.get("signed", const(False)).const()
            if ok and okS and all(x[0] == "lit" for x in segs):
                return const(int.from_bytes(b"".join(x[1] for x in segs), order, signed=signed))
            raise Unknown("int.from_bytes")
        if name.endswith(".to_bytes"):
            x = self.int_(recv)
            n = self.int_(args[0] if args else kwargs.get("length"), 1)
            ok, order = (args[1] if len(args) > 1 else kwargs.get("byteorder", const("big"))).const()
            okS, signed = kwargs.get("signed", const(False)).const()
            if not (ok and okS):
                raise Unknown("to_bytes")
            try:
                return self.bytes_(st, [("lit", x.to_bytes(n, order, signed=signed))])
            except OverflowError:
                self.fail("builtins.OverflowError", st, node, fr)
        if name == "bytes.join" or name.endswith("str.join") or name == "codec.bytes.join":
            k = I.known_elems(args[0], st)
            try:
                sep = self.segs(recv, st) if recv is not None else []
            except Unknown:
                return None
            if k is None:
                raise Unknown("join")
            out = []
            for i, x in enumerate(k):
                out += (sep if i else []) + self.segs(x, st)
            return self.bytes_(st, out)
        if name == "codec.bytes.startswith":
            segs, pre = self.segs(recv, st), self.segs(args[0], st)
            p = b"".join(x[1] for x in pre) if all(x[0] == "lit" for x in pre) else None
            head = segs[0][1] if segs and segs[0][0] == "lit" else b""
            if p is not None and len(head) >= len(p):
                return const(head.startswith(p))
            raise Unknown("startswith")
        if name in ("codec.bytes.tobytes",):
            return recv
        if name.startswith("codec.") and not name.endswith("__init__"):
            raise Unknown(name[6:])
        if any(self.m(a, k) is not None for a in list(args) + list(kwargs.values()) + ([recv] if recv is not None else []) for k in ("codec.bytes", "codec.array", "codec.list")):
            if name.startswith(("logging.", "builtins.print")) or ".debug" in name:
                return None
            raise Unknown("not modelled")
        return None

    def raw(self, v, st):
        d = self.m(v, "codec.array")
        if d["n"] is not None:
            return [("arr", d["dtype"], d["elems"], d["n"])]
        return [("arr", d["dtype"], tuple(d["elems"]), None)] if d["elems"] else []

    def frombuffer(self, v, d, count, off, st, node, fr):
        segs = self.cut(self.segs(v, st), off, None)
        t = self.total(segs)
        if t is None:
            if segs and segs[0][0] in ("cmp", "torn"):
                return self.array(st, d, (sympy.Symbol("garbage"),), None)
            raise Unknown("frombuffer")
        w = SIZES[d.lstrip("<>=")]
        if count < 0:
            if t % w:
                self.fail("builtins.ValueError", st, node, fr)
            count = t // w
        if count * w > t or (t == 0 and off == 0 and False):
            self.fail("builtins.ValueError", st, node, fr)
        if count == 0:
            return self.array(st, d, (), None)
        segs = self.cut(segs, 0, count * w)
        if len(segs) == 1 and segs[0][0] == "arr" and segs[0][1] == d:
            return self.array(st, d, segs[0][2], segs[0][3])
        if all(x[0] == "arr" for x in segs) and all(x[1] == d and x[3] is None for x in segs):
            return self.array(st, d, tuple(t for x in segs for t in x[2]), None)
        g = sympy.Function("reinterpreted")
        return self.array(st, d, tuple(g(i) for i in range(count)) if count < 64 else g(0), None if count < 64 else count)

    def fmt(self, v):
        ok, c = v.const()
        if not ok or not isinstance(c, (str, bytes)):
            raise Unknown("a struct format that is not known")
        return c if isinstance(c, str) else c.decode()

    def struct_fmt(self, v):
        """Format of a Struct made outside the scenario (at import)."""
        return next((c[1][0] for c in self.I.calls if c[0] == "struct.Struct" and c[1] and c[4] is not None and v is not None and c[4].atoms == v.atoms), None)

    def struct(self, op, args, kwargs, st, fr, node):
        if op == "calcsize":
            return const(struct.calcsize(self.fmt(args[0])))
        if op == "pack":
            f = self.fmt(args[0])
            vals = list(args[1:])
            cs = [v.const() for v in vals]
            if all(ok for ok, _ in cs):
                try:
                    return self.bytes_(st, [("lit", struct.pack(f, *[c for _, c in cs]))])
                except struct.error:
                    self.fail("struct.error", st, node, fr)
            e, body = (f[0], f[1:]) if f[:1] in "<>=!@" else ("@", f)
            kinds = set(body) - set("0123456789 ")
            if len(kinds) == 1 and next(iter(kinds)) in PACK:
                d = PACK[next(iter(kinds))]
                want = struct.calcsize("<" + body) // SIZES[d]
                if want != len(vals):
                    self.fail("struct.error", st, node, fr)
                ts = []
                for v in vals:
                    if v.f.term is None:
                        raise Unknown("a packed value")
                    ts.append(cast(v.f.term, d))
                return self.bytes_(st, [("arr", (">" if e in "!>" else "") + d, tuple(ts), None)])
            raise Unknown("packed symbols")
        if op in ("unpack", "unpack_from"):
            f = self.fmt(args[0])
            n = struct.calcsize(f)
            segs = self.segs(args[1], st)
            off = self.int_(args[2] if len(args) > 2 else kwargs.get("offset"), 0) if op == "unpack_from" else 0
            t = self.total(segs)
            if op == "unpack_from":
                if t is not None and t < off + n:
                    self.fail("struct.error", st, node, fr)
                segs = self.cut(segs, off, off + n)
            elif t is not None and t != n:
                self.fail("struct.error", st, node, fr)
            elif t is None:
                raise Unknown("unpacking compressed data")
            if all(x[0] == "lit" for x in segs):
                return AV(frozenset({("t", tuple(const(x) for x in struct.unpack(f, b"".join(x[1] for x in segs))))}))
            e, body = (f[0], f[1:]) if f[:1] in "<>=!@" else ("@", f)
            kinds = set(body) - set("0123456789 ")
            if len(kinds) == 1 and next(iter(kinds)) in PACK and len(segs) == 1 and segs[0][0] == "arr" and segs[0][3] is None and \
                    segs[0][1] == (">" if e in "!>" else "") + PACK[next(iter(kinds))]:
                return AV(frozenset({("t", tuple(value_of(t) for t in segs[0][2]))}))
            raise Unknown("unpacking data")
        raise Unknown(f"struct.{op}")


NAMES_CALL = {f"numpy.{k}": v for k, v in NAMES.items()}
