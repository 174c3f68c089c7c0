"""refactor.py [NAME...]: behaviour-preserving rewrites of the whole package, one kind at a time.

Each kind is applied to a copy of /repo; the copy's tests have to pass (the rewrite preserves behaviour) and every
check has to stay quiet on it, with no more undecided obligations than on the original.  Development tool, no check
uses it.
"""
import ast
import copy
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "src/pysatl_criterion"
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {a.arg for a in ast.walk(n) if isinstance(a, ast.arg)}


def load(x):
    return ast.Name(x, ast.Load())


def assign(x, v):
    return ast.Assign([ast.Name(x, ast.Store())], v)


class Blocks(ast.NodeTransformer):
    """Rewrites statement lists: subclass gives stmt(s, fn) -> list or None."""
    def __init__(self):
        self.fn = []
        self.k = itertools.count(1)

    def fresh(self, stem="tmp"):
        return f"{stem}_{next(self.k)}"

    def stmt(self, s):
        return None

    def do(self, body):
        out = []
        for s in body:
            s = self.generic_visit(s) if not isinstance(s, FN) else self.visit(s)
            r = self.stmt(s) if self.fn or isinstance(s, FN) else None
            out += [s] if r is None else r
        return out

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                setattr(n, f, self.do(b))
        for h in getattr(n, "handlers", []):
            h.body = self.do(h.body)
        return n

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        n = self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_Module(self, n):
        return self.generic_visit(n)


class ReturnTemp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            t = self.fresh("outcome")
            return [assign(t, s.value), ast.Return(load(t))]


class CallArgs(Blocks):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call) and not any(isinstance(a, ast.Starred) for a in s.value.args):
            pre = []
            c = s.value
            if isinstance(c.func, ast.Attribute) and not isinstance(c.func.value, (ast.Name, ast.Attribute)):
                return None
            if isinstance(c.func, ast.Name) and c.func.id in ("super", "cast"):
                return None
            for i, a in enumerate(c.args):
                if not isinstance(a, (ast.Name, ast.Constant, ast.Lambda, ast.GeneratorExp)):
                    t = self.fresh("arg")
                    pre.append(assign(t, a))
                    c.args[i] = load(t)
            for k in c.keywords:
                if k.arg and not isinstance(k.value, (ast.Name, ast.Constant, ast.Lambda)):
                    t = self.fresh("arg")
                    pre.append(assign(t, k.value))
                    k.value = load(t)
            return pre + [s] if pre else None


class BinTemps(Blocks):
    """x = a op b -> t = a; x = t op b."""
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.BinOp):
            b, pre = s.value, []
            for f in ("left", "right"):
                v = getattr(b, f)
                if not isinstance(v, (ast.Name, ast.Constant)):
                    t = self.fresh("part")
                    pre.append(assign(t, v))
                    setattr(b, f, load(t))
            return pre + [s] if pre else None


class CompToLoop(Blocks):
    def stmt(self, s):
        v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
        if isinstance(v, ast.Call) and len(v.args) == 1 and isinstance(v.args[0], (ast.ListComp, ast.GeneratorExp)) and not v.keywords and isinstance(v.func, (ast.Name, ast.Attribute)) and ast.unparse(v.func) in ("sum", "np.sum", "np.array", "max", "min", "list"):
            if isinstance(v.args[0], ast.GeneratorExp) and ast.unparse(v.func) == "np.sum":
                return None
            t = self.fresh("items")
            r = self.loop(v.args[0], t)
            v.args[0] = load(t)
            return r + [s]
        if isinstance(v, ast.ListComp):
            t = self.fresh("items")
            r = self.loop(v, t)
            s.value = load(t)
            return r + [s]

    def loop(self, c, t):
        ren = {}
        c = copy.deepcopy(c)
        for g in c.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    ren[n.id] = f"{n.id}_each"
        first = c.generators[0].iter
        for n in ast.walk(c):
            if isinstance(n, ast.Name) and n.id in ren and not any(n is m for m in ast.walk(first)):
                n.id = ren[n.id]
        body = [ast.Expr(ast.Call(ast.Attribute(load(t), "append", ast.Load()), [c.elt], []))]
        for g in reversed(c.generators):
            for i in reversed(g.ifs):
                body = [ast.If(i, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        return [assign(t, ast.List([], ast.Load()))] + body


class IfSwap(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)]


class IfExpToIf(Blocks):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = s.value.body, s.value.orelse
            return [ast.If(s.value.test, [a], [b])]


class ElseAfterReturn(Blocks):
    """if c: ...return; rest -> if c: ... else: rest."""
    def do(self, body):
        body = super().do(body)
        for i, s in enumerate(body):
            if self.fn and isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(body):
                s.orelse = self.do2(body[i + 1:])
                return body[:i + 1]
        return body

    def do2(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(body):
                s.orelse = self.do2(body[i + 1:])
                return body[:i + 1]
        return body


class SingleReturn(Blocks):
    """if c: return A; return B -> if c: r = A else: r = B; return r."""
    def do(self, body):
        body = super().do(body)
        if self.fn and len(body) >= 2 and isinstance(body[-1], ast.Return) and body[-1].value is not None and isinstance(body[-2], ast.If) and not body[-2].orelse and len(body[-2].body) == 1 and isinstance(body[-2].body[0], ast.Return) and body[-2].body[0].value is not None:
            i = body[-2]
            return body[:-2] + [ast.If(i.test, [assign("chosen", i.body[0].value)], [assign("chosen", body[-1].value)]), ast.Return(load("chosen"))]
        return body


class RangeToWhile(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) == "range" and isinstance(s.target, ast.Name) and not s.orelse and not s.iter.keywords:
            if any(isinstance(n, (ast.Continue, ast.Break)) for n in ast.walk(s)) or len(s.iter.args) > 2:
                return None
            a = s.iter.args
            lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
            h, c = self.fresh("stop"), self.fresh("at")
            return [assign(c, lo), assign(h, hi), ast.While(ast.Compare(load(c), [ast.Lt()], [load(h)]), [assign(s.target.id, load(c))] + s.body + [ast.AugAssign(ast.Name(c, ast.Store()), ast.Add(), ast.Constant(1))], [])]


class ForToEnumerate(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Name) and isinstance(s.target, (ast.Name, ast.Tuple)) and not s.orelse:
            return [ast.For(ast.Tuple([ast.Name(self.fresh("_pos"), ast.Store()), s.target], ast.Store()), ast.Call(load("enumerate"), [s.iter], []), s.body, [])]


class AugToPlain(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            return [assign(s.target.id, ast.BinOp(load(s.target.id), s.op, s.value))]


class NoOps(Blocks):
    def do(self, body):
        body = super().do(body)
        if not self.fn or not body:
            return body
        i = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
        if any(isinstance(s, (ast.Global, ast.Nonlocal)) for s in body):
            return body
        return body[:i] + [assign(self.fresh("_unused"), ast.Constant(0)), ast.Pass()] + body[i:]


class IfTrue(Blocks):
    def visit_FunctionDef(self, n):
        n = super().visit_FunctionDef(n)
        d = [n.body[0]] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        rest = n.body[len(d):]
        if rest and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            n.body = d + [ast.If(ast.Constant(True), rest, [])]
        return n


class TryReraise(Blocks):
    def visit_FunctionDef(self, n):
        n = super().visit_FunctionDef(n)
        d = [n.body[0]] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        rest = n.body[len(d):]
        if rest and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.FunctionDef)) for x in ast.walk(ast.Module(n.body, []))):
            n.body = d + [ast.Try(rest, [ast.ExceptHandler(load("Exception"), None, [ast.Raise()])], [], [])]
        return n


class RenameLocals(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        params = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        out = {x for s in ast.walk(n) if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names}
        inner = [f for f in ast.walk(n) if f is not n and isinstance(f, FN + (ast.Lambda, ast.ClassDef))]
        if any(isinstance(f, FN + (ast.ClassDef,)) for f in inner):
            return n
        lp = {a.arg for f in inner for a in ast.walk(f.args) if isinstance(a, ast.arg)}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params - out - lp
        imp = {(a.asname or a.name).split(".")[0] for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        loc -= imp
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = f"{x.id}_local"
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name = f"{x.name}_local"
        return n


class RenameParams(ast.NodeTransformer):
    """Parameters reassigned under a new name at the start."""
    def visit_FunctionDef(self, n):
        ps = [a.arg for a in n.args.args if a.arg not in ("self", "cls")]
        if any(isinstance(f, FN + (ast.ClassDef, ast.Lambda)) for f in ast.walk(n) if f is not n) or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            return n
        d = [n.body[0]] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        rest = n.body[len(d):]
        if not rest or not ps or any(isinstance(x, ast.Call) and ast.unparse(x.func) in ("locals", "vars") for x in ast.walk(n)):
            return n
        for s in rest:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in ps:
                    x.id = f"{x.id}_given"
        n.body = d + [assign(f"{p}_given", load(p)) for p in ps] + rest
        return n


class ExtractMethod(ast.NodeTransformer):
    def visit_ClassDef(self, c):
        out = []
        for m in c.body:
            out.append(m)
            if isinstance(m, ast.FunctionDef):
                e = self.extract(m, c)
                if e is not None:
                    out.append(e)
        c.body = out
        return c

    def extract(self, m, c):
        deco = [ast.unparse(d) for d in m.decorator_list]
        if any(d not in ("staticmethod", "classmethod", "override") for d in deco) or m.name.startswith("__") and m.name != "__init__":
            return None
        if m.args.kwonlyargs or m.args.posonlyargs:
            return None
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(m)):
            return None
        d = [m.body[0]] if isinstance(m.body[0], ast.Expr) and isinstance(m.body[0].value, ast.Constant) else []
        rest = m.body[len(d):]
        if not rest or isinstance(rest[0], (ast.Pass, ast.Raise)):
            return None
        a = copy.deepcopy(m.args)
        a.defaults = []
        for x in ast.walk(a):
            if isinstance(x, ast.arg):
                x.annotation = None
        name = f"_{m.name.strip(chr(95))}{chr(95) * (m.name.count(chr(95) * 2) // 2)}_body_of_{c.name.strip(chr(95))}"
        static, cm = "staticmethod" in deco, "classmethod" in deco
        args = m.args.args if static else m.args.args[1:]
        recv = load(c.name) if static else load(m.args.args[0].arg)
        call = ast.Call(ast.Attribute(recv, name, ast.Load()), [load(x.arg) for x in args], [])
        if m.args.vararg:
            call.args.append(ast.Starred(load(m.args.vararg.arg), ast.Load()))
        if m.args.kwarg:
            call.keywords.append(ast.keyword(None, load(m.args.kwarg.arg)))
        m.body = d + [ast.Return(call) if m.name != "__init__" else ast.Expr(call)]
        return ast.FunctionDef(name, a, rest, [load("staticmethod")] if static else [load("classmethod")] if cm else [], None, None, type_params=[])


class ExtractFunction(ast.NodeTransformer):
    """execute_statistic and the like become module functions that get the object."""
    def visit_Module(self, mod):
        out = []
        for c in mod.body:
            if isinstance(c, ast.ClassDef):
                for m in c.body:
                    if isinstance(m, ast.FunctionDef) and not m.name.startswith("__") and [ast.unparse(d) for d in m.decorator_list] in ([], ["override"]):
                        f = self.extract(m, c)
                        if f is not None:
                            out.append(f)
            out.append(c)
        # functions refer to nothing at definition time, but imports have to come first
        i = max([i + 1 for i, s in enumerate(mod.body) if isinstance(s, (ast.Import, ast.ImportFrom))] or [0])
        mod.body = out
        return mod

    def extract(self, m, c):
        src = ast.unparse(m)
        if "super()" in src or re.search(r"\.__[a-z]\w*[a-z]\b(?!__)", src) or re.search(r"\b__[a-z]\w*\b", src) or m.args.kwonlyargs or m.args.vararg:
            return None
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(m)):
            return None
        d = [m.body[0]] if isinstance(m.body[0], ast.Expr) and isinstance(m.body[0].value, ast.Constant) else []
        rest = m.body[len(d):]
        if not rest or isinstance(rest[0], (ast.Pass, ast.Raise)):
            return None
        a = copy.deepcopy(m.args)
        a.defaults = []
        for x in ast.walk(a):
            if isinstance(x, ast.arg):
                x.annotation = None
        name = f"_{m.name.strip('_')}_of_{c.name.strip('_')}".lower()
        call = ast.Call(load(name), [load(x.arg) for x in m.args.args], [ast.keyword(None, load(m.args.kwarg.arg))] if m.args.kwarg else [])
        m.body = d + [ast.Return(call)]
        return ast.FunctionDef(name, a, rest, [], None, None, type_params=[])


class CompareFlip(ast.NodeTransformer):
    OPS = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.OPS:
            return ast.Compare(n.comparators[0], [self.OPS[type(n.ops[0])]()], [n.left])
        return n


class ChainSplit(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 2 and isinstance(n.comparators[0], (ast.Name, ast.Constant)):
            return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(n.comparators[0], [n.ops[1]], [n.comparators[1]])])
        return n


class MulSwap(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult):
            return ast.BinOp(n.right, n.op, n.left)
        return n


class AddSwap(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Add) and not any(isinstance(x, (ast.JoinedStr, ast.List)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n)):
            return ast.BinOp(n.right, n.op, n.left)
        return n


class SquareToProduct(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute)):
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        return n


class FormatStrings(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion != -1) for v in n.values):
            return n
        f = "".join("{}" if isinstance(v, ast.FormattedValue) else v.value.replace("{", "{{").replace("}", "}}") for v in n.values)
        return ast.Call(ast.Attribute(ast.Constant(f), "format", ast.Load()), [v.value for v in n.values if isinstance(v, ast.FormattedValue)], [])


class PercentStrings(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion != -1) for v in n.values):
            return n
        f = "".join("%s" if isinstance(v, ast.FormattedValue) else v.value.replace("%", "%%") for v in n.values)
        return ast.BinOp(ast.Constant(f), ast.Mod(), ast.Tuple([v.value for v in n.values if isinstance(v, ast.FormattedValue)], ast.Load()))


class NumpyFull(ast.NodeTransformer):
    """import numpy as np -> import numpy."""
    def visit_Import(self, n):
        for a in n.names:
            if a.name == "numpy" and a.asname == "np":
                a.asname = None
        return n

    def visit_Name(self, n):
        return ast.Name("numpy", n.ctx) if n.id == "np" else n


class NumpyFrom(ast.NodeTransformer):
    """np.f(...) -> from numpy import f as _np_f."""
    def visit_Module(self, m):
        self.used = set()
        self.generic_visit(m)
        if not self.used:
            return m
        i = next(i for i, s in enumerate(m.body) if isinstance(s, ast.Import) and any(a.name == "numpy" for a in s.names))
        m.body.insert(i + 1, ast.ImportFrom("numpy", [ast.alias(x, f"_np_{x}") for x in sorted(self.used)], 0))
        return m

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "np":
            self.used.add(n.func.attr)
            n.func = load(f"_np_{n.func.attr}")
        return n


class Literals(ast.NodeTransformer):
    """Numeric literals inside functions become module constants."""
    def visit_Module(self, m):
        self.c, self.depth = {}, 0
        self.generic_visit(m)
        i = max([i + 1 for i, s in enumerate(m.body) if isinstance(s, (ast.Import, ast.ImportFrom))] or [0])
        m.body[i:i] = [assign(k, ast.Constant(v)) for v, k in self.c.items()]
        return m

    def visit_FunctionDef(self, n):
        self.depth += 1
        n.body = [self.visit(s) for s in n.body]
        self.depth -= 1
        return n

    def visit_Constant(self, n):
        if self.depth and isinstance(n.value, float):
            return load(self.c.setdefault(n.value, f"_CONST_{len(self.c)}"))
        return n


class SelfLocals(ast.NodeTransformer):
    """self.x read once at the start of execute_statistic."""
    def visit_FunctionDef(self, n):
        if n.name not in ("execute_statistic", "calculate_p_value", "calculate_critical_values", "test", "contains", "rvs", "resolve"):
            return n
        stores = {x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        called = {id(x.func) for x in ast.walk(n) if isinstance(x, ast.Call)}
        at = {}
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and id(x) not in called and not x.attr.startswith("__") and x.attr not in stores:
                at[x.attr] = 1

        class R(ast.NodeTransformer):
            def visit_Attribute(s, x):
                s.generic_visit(x)
                if isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in at and id(x) not in called:
                    return load(f"own_{x.attr}")
                return x
        d = [n.body[0]] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        rest = n.body[len(d):]
        n.body = d + [assign(f"own_{a}", ast.Attribute(load("self"), a, ast.Load())) for a in at] + [R().visit(s) for s in rest]
        return n


class ReverseMethods(ast.NodeTransformer):
    def visit_ClassDef(self, c):
        fs = [s for s in c.body if isinstance(s, ast.FunctionDef)]
        if any(any(ast.unparse(d).endswith((".setter", ".getter")) or ast.unparse(d) == "overload" for d in f.decorator_list) for f in fs):
            return c
        it = iter(reversed(fs))
        c.body = [next(it) if isinstance(s, ast.FunctionDef) else s for s in c.body]
        return c


class TupleSplit(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.targets[0].elts) == len(s.value.elts) and all(isinstance(t, ast.Name) for t in s.targets[0].elts):
            ts = [self.fresh("each") for _ in s.value.elts]
            return [assign(t, v) for t, v in zip(ts, s.value.elts)] + [ast.Assign([t], load(x)) for t, x in zip(s.targets[0].elts, ts)]


class DecoratedTypes(ast.NodeTransformer):
    """Annotations removed."""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.returns = None
        return n

    def visit_arg(self, a):
        a.annotation = None
        return a


class AnnotatedLocals(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            return [ast.AnnAssign(s.targets[0], load("object"), s.value, 1)]


class Walrus(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Return) and isinstance(s.value, (ast.BinOp, ast.Call)):
            return [ast.Return(ast.NamedExpr(ast.Name(self.fresh("found"), ast.Store()), s.value))]


class ConditionTemp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
            t = self.fresh("holds")
            return [assign(t, s.test), ast.If(load(t), s.body, s.orelse)]


class SumMethods(ast.NodeTransformer):
    """np.sum(x), np.mean(x) of a local array -> x.sum() is not always the same; np.add.reduce(x) is."""
    def visit_Call(self, n):
        self.generic_visit(n)
        if ast.unparse(n.func) == "np.sum" and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
            return ast.Call(ast.Attribute(ast.Call(ast.parse("np.asarray", mode="eval").body, n.args, []), "sum", ast.Load()), [], [])
        return n


class LenSize(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        if n.name != "execute_statistic" or not any(a.arg == "rvs" for a in n.args.args):
            return n
        d = [n.body[0]] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        rest = n.body[len(d):]

        class R(ast.NodeTransformer):
            def visit_Call(s, c):
                s.generic_visit(c)
                if ast.unparse(c) == "len(rvs)":
                    return ast.parse("np.size(rvs)", mode="eval").body
                return c
        n.body = d + [R().visit(s) for s in rest]
        return n


class AsArrayFirst(ast.NodeTransformer):
    """The sample becomes a float array on entry."""
    def visit_FunctionDef(self, n):
        if n.name != "execute_statistic" or not any(a.arg == "rvs" for a in n.args.args):
            return n
        d = [n.body[0]] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        if len(n.body) == len(d) or "np" not in NP_FILES.get("now", ()):
            return n
        n.body = d + [ast.parse("rvs = np.asarray(rvs, dtype=float)").body[0]] + n.body[len(d):]
        return n


class CopyFirst(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        if n.name != "execute_statistic" or not any(a.arg == "rvs" for a in n.args.args):
            return n
        d = [n.body[0]] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        if len(n.body) == len(d) or "np" not in NP_FILES.get("now", ()):
            return n
        n.body = d + [ast.parse("rvs = np.array(rvs, copy=True)").body[0]] + n.body[len(d):]
        return n


class MapLambda(ast.NodeTransformer):
    """[f(x) for x in it] -> list(map(lambda x: f(x), it))."""
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and isinstance(n.generators[0].target, ast.Name):
            g = n.generators[0]
            return ast.Call(load("list"), [ast.Call(load("map"), [ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt), g.iter], [])], [])
        return n


class KwToPos(ast.NodeTransformer):
    """scipy's loc/scale given by position."""
    def visit_Call(self, n):
        self.generic_visit(n)
        f = ast.unparse(n.func)
        if re.search(r"(norm|uniform|expon)\.(cdf|sf|pdf|logcdf|logsf|ppf)$", f) and n.keywords and len(n.args) == 1:
            k = {x.arg: x.value for x in n.keywords}
            if set(k) <= {"loc", "scale"} and None not in k:
                n.args += [k.get("loc", ast.Constant(0)), k.get("scale", ast.Constant(1))]
                n.keywords = []
        return n


class FrozenLaw(ast.NodeTransformer):
    """law.cdf(x, **p) -> law(**p).cdf(x)."""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("cdf", "sf", "pdf", "logcdf", "logsf", "ppf") and re.search(r"(scipy_stats|stats)\.\w+$", ast.unparse(n.func.value)) and n.args:
            return ast.Call(ast.Attribute(ast.Call(n.func.value, n.args[1:], n.keywords), n.func.attr, ast.Load()), n.args[:1], [])
        return n


class PositionalToKw(ast.NodeTransformer):
    """Constructor arguments of the package's own dataclasses stay; self-calls by keyword are covered elsewhere."""


class RangeLen(Blocks):
    """for x in xs -> for i in range(len(xs)): x = xs[i]."""
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Name) and not s.orelse and s.iter.id in ("rvs", "p_values", "x", "xs", "criteria", "codes", "rvs_sorted", "limit_distributions", "distributions"):
            i = self.fresh("index")
            return [ast.For(ast.Name(i, ast.Store()), ast.parse(f"range(len({s.iter.id}))", mode="eval").body, [ast.Assign([s.target], ast.Subscript(s.iter, load(i), ast.Load()))] + s.body, [])]


class LoopToComp(Blocks):
    """xs = []; for v in it: xs.append(e) -> xs = [e for v in it]."""
    def do(self, body):
        body = super().do(body)
        out = []
        for s in body:
            p = out[-1] if out else None
            if (self.fn and isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call)
                    and isinstance(s.body[0].value.func, ast.Attribute) and s.body[0].value.func.attr == "append" and isinstance(p, ast.Assign)
                    and isinstance(p.value, ast.List) and not p.value.elts and ast.unparse(p.targets[0]) == ast.unparse(s.body[0].value.func.value)):
                p.value = ast.ListComp(s.body[0].value.args[0], [ast.comprehension(s.target, s.iter, [], 0)])
                continue
            out.append(s)
        return out


class LoopToSum(Blocks):
    """for v in it: acc += e -> acc += sum([e for v in it])."""
    kind = "sum"

    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.AugAssign) and isinstance(s.body[0].op, ast.Add) and isinstance(s.body[0].target, ast.Name):
            a = s.body[0]
            if a.target.id in names(a.value) | names(s.iter):
                return None
            c = ast.ListComp(a.value, [ast.comprehension(s.target, s.iter, [], 0)])
            return [ast.AugAssign(a.target, ast.Add(), ast.Call(ast.parse(self.kind, mode="eval").body, [c], []))]


class LoopToNpSum(LoopToSum):
    kind = "np.sum"


class LoopToGenSum(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.AugAssign) and isinstance(s.body[0].op, ast.Add) and isinstance(s.body[0].target, ast.Name):
            a = s.body[0]
            if a.target.id in names(a.value) | names(s.iter):
                return None
            c = ast.GeneratorExp(a.value, [ast.comprehension(s.target, s.iter, [], 0)])
            return [assign(a.target.id, ast.Call(load("sum"), [c, load(a.target.id)], []))]


class Vectorise(Blocks):
    """for i in range(a, b): acc += e(i) -> i = np.arange(a, b); acc += np.sum(e(i)), where e is arithmetic only."""
    def stmt(self, s):
        if (isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.AugAssign) and isinstance(s.body[0].op, ast.Add) and isinstance(s.body[0].target, ast.Name)
                and isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) == "range" and isinstance(s.target, ast.Name)):
            a = s.body[0]
            ok = all(isinstance(x, (ast.BinOp, ast.operator, ast.Name, ast.Constant, ast.expr_context, ast.Subscript, ast.UnaryOp, ast.unaryop)) or isinstance(x, (ast.Call, ast.Attribute)) and ast.unparse(x).startswith(("np.", "scipy_stats.")) for x in ast.walk(a.value))
            if not ok or s.target.id not in names(a.value) or a.target.id in names(a.value):
                return None
            return [assign(s.target.id, ast.Call(ast.parse("np.arange", mode="eval").body, s.iter.args, [])), ast.AugAssign(a.target, ast.Add(), ast.Call(ast.parse("np.sum", mode="eval").body, [a.value], []))]


class InlineTemp(Blocks):
    """x = e; s(x) -> s(e) when that is the only use of x."""
    def do(self, body):
        body = super().do(body)
        if not self.fn:
            return body
        uses = {}
        for x in ast.walk(self.fn[0]):
            if isinstance(x, ast.Name):
                uses[x.id] = uses.get(x.id, 0) + 1
        i = 0
        while i + 1 < len(body):
            s, t = body[i], body[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, (ast.Assign, ast.Return, ast.Expr)) and uses.get(s.targets[0].id) == 2 and t.value is not None:
                n = s.targets[0].id
                first = [x for x in ast.walk(t.value) if isinstance(x, (ast.Name, ast.Call))]
                hit = [x for x in ast.walk(t.value) if isinstance(x, ast.Name) and x.id == n]
                lam = any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.IfExp, ast.BoolOp)) for x in ast.walk(t.value))
                pure = not any(isinstance(x, ast.Call) for x in ast.walk(s.value)) or not any(isinstance(x, ast.Call) and not ast.unparse(x.func).startswith(("np.", "math.", "len", "float", "scipy_stats.", "int", "abs")) for x in ast.walk(t.value))
                if len(hit) == 1 and not lam and pure:
                    v = s.value

                    class R(ast.NodeTransformer):
                        def visit_Name(q, x):
                            return v if x.id == n else x
                    t.value = R().visit(t.value)
                    del body[i]
                    continue
            i += 1
        return body


class SwapNeighbours(Blocks):
    """Two independent neighbouring assignments change places."""
    PURE = ("np.", "len", "float", "int", "abs", "math.", "scipy_stats.norm.", "sum", "min", "max", "sorted", "range")

    def ok(self, s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and all(not isinstance(x, ast.Call) or ast.unparse(x.func).startswith(self.PURE) and "random" not in ast.unparse(x.func) for x in ast.walk(s.value)) and not any(isinstance(x, (ast.Await, ast.Yield, ast.NamedExpr)) for x in ast.walk(s.value))

    def do(self, body):
        body = super().do(body)
        if not self.fn:
            return body
        i = 0
        while i + 1 < len(body):
            s, t = body[i], body[i + 1]
            if self.ok(s) and self.ok(t) and s.targets[0].id not in names(t) and t.targets[0].id not in names(s):
                body[i], body[i + 1] = t, s
                i += 2
            else:
                i += 1
        return body


class ExplicitSuper(ast.NodeTransformer):
    """super().m(...) -> Base.m(self, ...) where the base is written in the class line and is the only one."""
    def visit_ClassDef(self, c):
        bs = [b for b in c.bases if isinstance(b, ast.Name) and b.id != "ABC"]
        if len(bs) != 1:
            return c
        for m in c.body:
            if isinstance(m, ast.FunctionDef) and not any(ast.unparse(d) in ("staticmethod", "classmethod") for d in m.decorator_list) and m.args.args:
                for x in ast.walk(m):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and ast.unparse(x.func.value) == "super()" and x.func.attr == "__init__":
                        x.func.value = load(bs[0].id)
                        x.args.insert(0, load(m.args.args[0].arg))
        return c


class LongSuper(ast.NodeTransformer):
    def visit_ClassDef(self, c):
        for m in c.body:
            if isinstance(m, ast.FunctionDef) and m.args.args and not any(ast.unparse(d) == "staticmethod" for d in m.decorator_list):
                for x in ast.walk(m):
                    if isinstance(x, ast.Call) and ast.unparse(x) == "super()":
                        x.args = [load(c.name), load(m.args.args[0].arg)]
        return c


class CallRewrite(ast.NodeTransformer):
    RULES = {}

    def visit_Call(self, n):
        self.generic_visit(n)
        f = ast.unparse(n.func)
        if f in self.RULES and n.args and not any(isinstance(a, ast.Starred) for a in n.args):
            r = self.RULES[f](n)
            if r is not None:
                return r
        return n


def expr(t, **kw):
    e = ast.parse(t, mode="eval").body

    class R(ast.NodeTransformer):
        def visit_Name(s, x):
            return copy.deepcopy(kw[x.id]) if x.id in kw else x
    return R().visit(e)


class Arange(CallRewrite):
    RULES = {"np.arange": lambda n: expr("np.array(range(0))") and ast.Call(expr("np.array"), [ast.Call(load("range"), n.args, [])], []) if not n.keywords and all(not (isinstance(x, ast.Constant) and isinstance(x.value, float)) for a in n.args for x in ast.walk(a)) else None}


class MeanToSum(CallRewrite):
    RULES = {"np.mean": lambda n: expr("np.sum(A) / np.size(A)", A=n.args[0]) if len(n.args) == 1 and not n.keywords and isinstance(n.args[0], ast.Name) else None}


class MeanMethod(CallRewrite):
    RULES = {"np.mean": lambda n: expr("np.asarray(A).mean()", A=n.args[0]) if len(n.args) == 1 and not n.keywords else None,
             "np.max": lambda n: expr("np.asarray(A).max()", A=n.args[0]) if len(n.args) == 1 and not n.keywords else None,
             "np.min": lambda n: expr("np.asarray(A).min()", A=n.args[0]) if len(n.args) == 1 and not n.keywords else None,
             "np.sort": lambda n: expr("np.array(sorted(A))", A=n.args[0]) if len(n.args) == 1 and not n.keywords else None}


class SortedToSort(CallRewrite):
    RULES = {"sorted": lambda n: expr("np.sort(A)", A=n.args[0]) if len(n.args) == 1 and not n.keywords else None}

    def visit_Module(self, m):
        return self.generic_visit(m) if NP_FILES["now"] and "goodness_of_fit" in NP_FILES["path"] else m


class SortInPlace(Blocks):
    """y = np.sort(x) -> y = np.array(x); y.sort()."""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("np.sort", "sorted") and len(s.value.args) == 1 and not s.value.keywords:
            y = s.targets[0].id
            c = "np.array" if ast.unparse(s.value.func) == "np.sort" else "list"
            return [assign(y, ast.Call(expr(c), s.value.args, [])), ast.Expr(expr(f"{y}.sort()"))]


class SfToCdf(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "sf":
            n.func.attr = "cdf"
            return ast.BinOp(ast.Constant(1), ast.Sub(), n)
        return n


class LogcdfToLog(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("logcdf", "logsf", "logpdf") and NP_FILES["now"]:
            n.func.attr = n.func.attr[3:]
            return ast.Call(expr("np.log"), [n], [])
        return n


class PowerCalls(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and NP_FILES["now"] and isinstance(n.right.value, int) and "goodness" in NP_FILES["path"]:
            if isinstance(n.left, (ast.Name,)) and n.left.id == "n":
                return n
            return ast.Call(expr("np.square"), [n.left], []) if n.right.value == 2 else ast.Call(expr("np.power"), [n.left, ast.Constant(float(n.right.value))], [])
        return n


class SqrtPower(CallRewrite):
    RULES = {"np.sqrt": lambda n: ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5)), "math.sqrt": lambda n: ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5))}


class LambdaDef(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Lambda):
            return [ast.FunctionDef(s.targets[0].id, s.value.args, [ast.Return(s.value.body)], [], None, None, type_params=[])]


class MaxIf(CallRewrite):
    RULES = {"max": lambda n: expr("A if A >= B else B", A=n.args[0], B=n.args[1]) if len(n.args) == 2 and all(isinstance(a, (ast.Name, ast.Constant)) for a in n.args) else None,
             "min": lambda n: expr("A if A <= B else B", A=n.args[0], B=n.args[1]) if len(n.args) == 2 and all(isinstance(a, (ast.Name, ast.Constant)) for a in n.args) else None}


class WithToTry(Blocks):
    """with self.Session() as s: ... -> s = self.Session(); try: ... finally: s.close()."""
    def stmt(self, s):
        if isinstance(s, ast.With) and len(s.items) == 1 and "Session" in ast.unparse(s.items[0].context_expr) and isinstance(s.items[0].optional_vars, ast.Name):
            v = s.items[0].optional_vars.id
            return [assign(v, s.items[0].context_expr), ast.Try(s.body, [], [], [ast.Expr(expr(f"{v}.close()"))])]


class ExtractWith(ast.NodeTransformer):
    """The body of a with statement becomes a method."""
    def visit_ClassDef(self, c):
        out, k = [], 0
        for m in c.body:
            out.append(m)
            if isinstance(m, ast.FunctionDef) and not m.decorator_list or isinstance(m, ast.FunctionDef) and [ast.unparse(d) for d in m.decorator_list] == ["override"]:
                ws = [(b, i) for n in ast.walk(m) for f in ("body", "orelse") for b in [getattr(n, f, None)] if isinstance(b, list) for i, s in enumerate(b) if isinstance(s, ast.With)]
                if len(ws) != 1 or not m.args.args or m.args.args[0].arg != "self":
                    continue
                b, i = ws[0]
                w = b[i]
                stored = {x.id for s in w.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                inside = {id(x) for x in ast.walk(w)}
                after = {x.id for x in ast.walk(m) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside}
                returns = any(isinstance(x, ast.Return) for s in w.body for x in ast.walk(s))
                ends = isinstance(w.body[-1], ast.Return)
                if stored & after or returns and not ends or any(isinstance(x, (ast.Yield, ast.Break, ast.Continue)) for x in ast.walk(w)):
                    continue
                local = {a.arg for a in m.args.args[1:]} | {x.id for x in ast.walk(m) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and (id(x) not in inside or any(x is y for it in w.items for y in ast.walk(it)))}
                used = sorted({x.id for s in w.body for x in ast.walk(s) if isinstance(x, ast.Name)} & local)
                name = f"_{m.name.strip('_')}_within"
                call = ast.Call(ast.Attribute(load("self"), name, ast.Load()), [load(u) for u in used], [])
                out.append(ast.FunctionDef(name, ast.arguments([], [ast.arg("self")] + [ast.arg(u) for u in used], None, [], [], None, []), w.body, [], None, None, type_params=[]))
                w.body = [ast.Return(call)] if ends else [ast.Expr(call)]
        c.body = out
        return c


class NestedIf(Blocks):
    """if a and b: -> if a: if b:."""
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and len(s.test.values) == 2:
            return [ast.If(s.test.values[0], [ast.If(s.test.values[1], s.body, [])], [])]


class SplitOr(Blocks):
    """if a or b: raise -> if a: raise; if b: raise."""
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and isinstance(s.body[-1], (ast.Raise, ast.Return)) and len(s.body) == 1:
            return [ast.If(v, copy.deepcopy(s.body), []) for v in s.test.values]


class ScipyFrom(ast.NodeTransformer):
    def visit_Import(self, n):
        if len(n.names) == 1 and n.names[0].asname and "." in n.names[0].name:
            a, b = n.names[0].name.rsplit(".", 1)
            return ast.ImportFrom(a, [ast.alias(b, n.names[0].asname)], 0)
        return n

    def visit_ImportFrom(self, n):
        return n


class LocalImports(ast.NodeTransformer):
    """scipy imported inside the functions that use it."""
    def visit_Module(self, m):
        al = {}
        for s in list(m.body):
            if isinstance(s, ast.Import) and len(s.names) == 1 and s.names[0].name.startswith("scipy") and s.names[0].asname:
                al[s.names[0].asname] = s
                m.body.remove(s)
        if not al:
            return m
        at_top = {x.id for s in m.body if not isinstance(s, FN + (ast.ClassDef,)) for x in ast.walk(s) if isinstance(x, ast.Name)}
        at_cls = {x.id for c in m.body if isinstance(c, ast.ClassDef) for s in c.body if not isinstance(s, FN) for x in ast.walk(s) if isinstance(x, ast.Name)}
        keep = [s for a, s in al.items() if a in at_top | at_cls]
        m.body[1:1] = keep
        for f in ast.walk(m):
            if isinstance(f, FN):
                used = {x.id for s in f.body for x in ast.walk(s) if isinstance(x, ast.Name)} & set(al)
                d = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
                f.body[d:d] = [copy.deepcopy(al[u]) for u in sorted(used) if al[u] not in keep]
        return m



KINDS = {k: v for k, v in list(globals().items()) if isinstance(v, type) and issubclass(v, ast.NodeTransformer) and k not in ("Blocks", "PositionalToKw", "CallRewrite")}
NP_FILES = {}


def apply(kind, root):
    n = 0
    for d, _, fs in os.walk(os.path.join(root, PKG)):
        for f in fs:
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            s = open(p).read()
            NP_FILES["path"] = p
            NP_FILES["now"] = ("np",) if re.search(r"^import numpy as np", s, re.M) else ()
            t = ast.parse(s)
            before = ast.unparse(t)
            t = KINDS[kind]().visit(t)
            ast.fix_missing_locations(t)
            after = ast.unparse(t)
            if after != before:
                compile(after, p, "exec")
                open(p, "w").write(after + "\n")
                n += 1
    return n


def counts(text):
    m = re.search(r"(\d+) obligations discharged, (\d+) violated \((\d+) known\), (\d+) undecided", text)
    return tuple(map(int, m.groups())) if m else None


def checks(src, ev, only):
    out = {}
    for p in only:
        r = subprocess.run(["timeout", "900", "python3-vt", f"{HERE}/check.py", p, "quick"], env={**os.environ, "PYSATL_SRC": src, "VERIF_EVID": ev}, capture_output=True, text=True)
        lines = r.stdout.strip().splitlines()
        out[p] = r.returncode, counts(r.stdout), next((x for x in lines if x.startswith(p + ":") and " at " in x), "") or (r.stderr.strip().splitlines() or [""])[-1]
    return out


def main():
    kinds = [a for a in sys.argv[1:] if a in KINDS] or list(KINDS)
    only = [a for a in sys.argv[1:] if a not in KINDS] or [json.loads(x)["id"] for x in open(f"{HERE}/properties.jsonl")]
    base = checks("/repo/src", "/tmp/refac.base.ev", only)

    def job(kind):
        d = f"/tmp/refac.{kind}"
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        for x in ("src", "tests"):
            shutil.copytree(f"/repo/{x}", f"{d}/{x}", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copy("/repo/pyproject.toml", d)
        try:
            n = apply(kind, d)
        except SyntaxError as e:
            return f"?? {kind}: {e}"
        env = {**os.environ, "PYTHONPATH": d + "/src", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1"}
        r = subprocess.run(["timeout", "300", "/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider"], cwd=d, env=env, capture_output=True, text=True)
        res = [f"{kind}: {n} files, tests {'pass' if r.returncode == 0 else 'FAIL ' + ' '.join(r.stdout.strip().splitlines()[-2:])[:300]}"]
        for p, (rc, c, why) in checks(d + "/src", d + "/ev", only).items():
            if rc != 0 or c != base[p][1]:
                res.append(f"   {p} rc={rc} {c} (was {base[p][1]}) {why[:260] if rc else ''}")
        if not os.environ.get("KEEP"):
            shutil.rmtree(d, ignore_errors=True)
        return "\n".join(res)
    with ThreadPoolExecutor(7) as ex:
        for r in ex.map(job, kinds):
            print(r, flush=True)


main()
