#!/usr/bin/env python3
"""Development aid: behaviour-preserving rewrites of the whole source tree, used to measure that
the checks stay quiet on them.
usage: refactors.py KIND OUTDIR [seed]     (KIND 'all' lists the kinds)"""
import ast, copy, os, random, shutil, sys

SRC = os.environ.get("SA_REPO", "/repo")
RND = random.Random(0)
P = 1.0
COUNT = 0


def hit():
    return RND.random() < P


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def fix(n, like):
    ast.copy_location(n, like)
    ast.fix_missing_locations(n)
    return n


def simple_iter(e):
    return isinstance(e, (ast.Name, ast.Attribute)) and not isinstance(e, ast.Call)


class Base(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.fn = []

    def fresh(self, s="tmp"):
        global COUNT
        COUNT += 1
        return f"_{s}_{COUNT}"

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_ClassDef(self, n):
        f, self.fn = self.fn, []
        self.generic_visit(n)
        self.fn = f
        return n

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.stmt(s) if self.fn else None
            out.extend(r if r is not None else [s])
        return out

    def stmt(self, s):
        return None

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.body(b))
        return n


def is_gen(fn):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn))


class RetTemp(Base):
    """return e  ->  result = e; return result"""
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)) and hit():
            v = self.fresh("result")
            return [fix(ast.Assign([ast.Name(v, ast.Store())], s.value), s), fix(ast.Return(ast.Name(v, ast.Load())), s)]


class InvertIf(Base):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and hit():
            t = s.test.operand if isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) else ast.UnaryOp(ast.Not(), s.test)
            return [fix(ast.If(t, s.orelse, s.body), s)]

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return fix(ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body), n)


def ends(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue))


class EarlyToElse(Base):
    """if c: return a ; rest -> if c: return a else: rest"""
    def body(self, stmts):
        if not self.fn:
            return stmts
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(stmts) and hit():
                rest = self.body(stmts[i + 1:])
                return stmts[:i] + [fix(ast.If(s.test, s.body, rest), s)]
        return stmts


class ElseToEarly(Base):
    def body(self, stmts):
        if not self.fn:
            return stmts
        out = []
        for s in stmts:
            if isinstance(s, ast.If) and s.orelse and ends(s.body) and hit():
                out.append(fix(ast.If(s.test, s.body, []), s))
                out.extend(self.body(s.orelse))
            else:
                out.append(s)
        return out


class CompToLoop(Base):
    """x = [e for v in it if c] / return [..] / return {k: v ...} -> explicit loop"""
    def stmt(self, s):
        if isinstance(s, ast.Return) and isinstance(s.value, (ast.ListComp, ast.DictComp, ast.SetComp)):
            tgt = self.fresh("acc")
            comp = s.value
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.ListComp, ast.DictComp, ast.SetComp)):
            tgt = s.targets[0].id
            comp = s.value
            if tgt in names(comp):
                return None
        else:
            return None
        if not hit():
            return None
        # comprehension variables must not clash with names of the function
        bound = set()
        for g in comp.generators:
            bound |= names(g.target)
        ren = {b: self.fresh(b) for b in bound}

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in ren:
                    n.id = ren[n.id]
                return n
        first = comp.generators[0].iter
        comp = R().visit(copy.deepcopy(comp))
        comp.generators[0].iter = first
        T = ast.Name(tgt, ast.Load())
        if isinstance(comp, ast.ListComp):
            init = ast.List([], ast.Load())
            inner = ast.Expr(ast.Call(ast.Attribute(T, "append", ast.Load()), [comp.elt], []))
        elif isinstance(comp, ast.SetComp):
            init = ast.Call(ast.Name("set", ast.Load()), [], [])
            inner = ast.Expr(ast.Call(ast.Attribute(T, "add", ast.Load()), [comp.elt], []))
        else:
            init = ast.Dict([], [])
            inner = ast.Assign([ast.Subscript(T, comp.key, ast.Store())], comp.value)
        b = [inner]
        for g in reversed(comp.generators):
            for c in reversed(g.ifs):
                b = [ast.If(c, b, [])]
            b = [ast.For(g.target, g.iter, b, [])]
        out = [ast.Assign([ast.Name(tgt, ast.Store())], init)] + b
        if isinstance(s, ast.Return):
            out.append(ast.Return(ast.Name(tgt, ast.Load())))
        return [fix(x, s) for x in out]


class LoopToComp(Base):
    """acc = []; for v in it: acc.append(e)  ->  acc = [e for v in it]"""
    def body(self, stmts):
        if not self.fn:
            return stmts
        out = []
        i = 0
        while i < len(stmts):
            s = stmts[i]
            n = stmts[i + 1] if i + 1 < len(stmts) else None
            if (isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List) and not s.value.elts
                    and isinstance(n, ast.For) and not n.orelse):
                a = s.targets[0].id
                ifs = []
                b = n.body
                while len(b) == 1 and isinstance(b[0], ast.If) and not b[0].orelse:
                    ifs.append(b[0].test)
                    b = b[0].body
                if len(b) == 1 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Call) and isinstance(
                        b[0].value.func, ast.Attribute) and b[0].value.func.attr == "append" and isinstance(
                        b[0].value.func.value, ast.Name) and b[0].value.func.value.id == a and a not in names(n.iter) and a not in names(b[0].value.args[0]):
                    out.append(fix(ast.Assign([ast.Name(a, ast.Store())], ast.ListComp(b[0].value.args[0], [ast.comprehension(n.target, n.iter, ifs, 0)])), s))
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out


class IndexLoop(Base):
    """for x in xs -> for i in range(len(xs)): x = xs[i]   (xs a list-like name annotated as such)"""
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, (ast.Name, ast.Attribute)) and self.islist(s.iter) and hit():
            i = self.fresh("i")
            load = ast.Subscript(copy.deepcopy(s.iter), ast.Name(i, ast.Load()), ast.Load())
            return [fix(ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [copy.deepcopy(s.iter)], [])], []),
                                [ast.Assign([s.target], load)] + s.body, s.orelse), s)]

    def islist(self, e):
        if isinstance(e, ast.Attribute):
            return e.attr in ("operations", "bitstrings", "params", "qubit_indices", "_operations")
        fn = self.fn[-1]
        for a in fn.args.args + fn.args.kwonlyargs:
            if a.arg == e.id and a.annotation is not None:
                t = ast.unparse(a.annotation)
                return t.startswith(("List", "Sequence", "Tuple", "list", "typing.List"))
        return any(isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == e.id and isinstance(x.value, (ast.List, ast.ListComp)) for x in ast.walk(fn))


class EnumLoop(Base):
    """for x in it -> for _i, x in enumerate(it)"""
    def stmt(self, s):
        if isinstance(s, ast.For) and hit():
            return [fix(ast.For(ast.Tuple([ast.Name(self.fresh("i"), ast.Store()), s.target], ast.Store()),
                                ast.Call(ast.Name("enumerate", ast.Load()), [s.iter], []), s.body, s.orelse), s)]


class NoOps(Base):
    def stmt(self, s):
        if isinstance(s, (ast.Return, ast.Assign, ast.For, ast.If)) and hit():
            return [fix(ast.Assign([ast.Name(self.fresh("unused"), ast.Store())], ast.Constant(None)), s), fix(ast.Pass(), s), s]


class AugExpand(Base):
    """x += e -> x = x + e for local number-like accumulators (started from a literal number)"""
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and hit():
            t = s.target.id
            ok = any(isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == t and isinstance(x.value, ast.Constant)
                     for x in ast.walk(self.fn[-1]))
            if ok:
                return [fix(ast.Assign([ast.Name(t, ast.Store())], ast.BinOp(ast.Name(t, ast.Load()), s.op, s.value)), s)]


class DeMorgan(Base):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def stmt(self, s):
        if isinstance(s, (ast.If, ast.While)) and isinstance(s.test, ast.BoolOp) and hit():
            op = ast.Or() if isinstance(s.test.op, ast.And) else ast.And()
            s.test = fix(ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in s.test.values])), s.test)
        return None


class NestIf(Base):
    """if a and b: X -> if a: if b: X"""
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and hit():
            b = s.body
            for v in reversed(s.test.values):
                b = [fix(ast.If(v, b, []), s)]
            return b


class Ternary(Base):
    """if c: x = a else: x = b  <->  x = a if c else b"""
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == 1 == len(s.orelse) and hit():
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and isinstance(a.targets[0], ast.Name):
                return [fix(ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value)), s)]
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value is not None and b.value is not None:
                return [fix(ast.Return(ast.IfExp(s.test, a.value, b.value)), s)]


class UnTernary(Base):
    def stmt(self, s):
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp) and hit():
            v = s.value
            return [fix(ast.If(v.test, [ast.Return(v.body)], []), s), fix(ast.Return(v.orelse), s)]
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and isinstance(s.targets[0], ast.Name) and hit():
            v = s.value
            return [fix(ast.If(v.test, [ast.Assign(copy.deepcopy(s.targets), v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)]), s)]


class ArgTemps(Base):
    """pull the (call) arguments of a call statement into temporaries, in evaluation order"""
    def stmt(self, s):
        if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call) and hit():
            c = s.value
            if any(isinstance(a, ast.Starred) for a in c.args) or not c.args and not c.keywords:
                return None
            if isinstance(c.func, ast.Name) and c.func.id in ("super", "cast", "TypeVar", "field", "isinstance"):
                return None
            if not isinstance(c.func, (ast.Name, ast.Attribute)) or any(isinstance(x, ast.Call) for x in ast.walk(c.func)):
                return None
            pre = []
            for j, a in enumerate(c.args):
                if not isinstance(a, (ast.Name, ast.Constant, ast.Lambda)):
                    v = self.fresh("arg")
                    pre.append(fix(ast.Assign([ast.Name(v, ast.Store())], a), s))
                    c.args[j] = fix(ast.Name(v, ast.Load()), s)
            for kw in c.keywords:
                if kw.arg and not isinstance(kw.value, (ast.Name, ast.Constant, ast.Lambda)):
                    v = self.fresh("arg")
                    pre.append(fix(ast.Assign([ast.Name(v, ast.Store())], kw.value), s))
                    kw.value = fix(ast.Name(v, ast.Load()), s)
            return pre + [s]


class RenameLocals(Base):
    def visit_FunctionDef(self, n):
        if self.fn:
            return n
        if any(isinstance(x, (ast.Nonlocal, ast.Global)) for x in ast.walk(n)):
            return n
        params = set()
        for x in ast.walk(n):
            if isinstance(x, ast.arguments):
                params |= {a.arg for a in x.args + x.kwonlyargs + x.posonlyargs}
                params |= {a.arg for a in (x.vararg, x.kwarg) if a}
        inner = {x.name for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not n}
        handlers = {x.name for x in ast.walk(n) if isinstance(x, ast.ExceptHandler) and x.name}
        imported = {(a.asname or a.name).split(".")[0] for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        loc = names(n, ast.Store) - params - inner - handlers - imported
        ren = {x: x + "_renamed" for x in loc}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id = ren[x.id]
        return n


class ExtractRet(Base):
    """return e  ->  return _helper(free names)"""
    def __init__(self):
        super().__init__()
        self.new = []

    def visit_Module(self, n):
        self.globals = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not isinstance(s, (ast.FunctionDef, ast.ClassDef))}
        self.generic_visit(n)
        n.body.extend(self.new)
        return n

    def locs(self):
        out = set()
        for f in self.fn:
            out |= names(f, ast.Store)
            for x in ast.walk(f):
                if isinstance(x, ast.arguments):
                    out |= {a.arg for a in x.args + x.kwonlyargs + x.posonlyargs}
                    out |= {a.arg for a in (x.vararg, x.kwarg) if a}
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not f:
                    out.add(x.name)
                if isinstance(x, ast.ExceptHandler) and x.name:
                    out.add(x.name)
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    out |= {(a.asname or a.name).split(".")[0] for a in x.names}
        return out

    def usable(self, e):
        return not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) or isinstance(x, ast.Name) and x.id in ("super", "__class__", "locals", "globals")
                       or isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__")
                       for x in ast.walk(e))

    def bound_in(self, e):
        b = set()
        for x in ast.walk(e):
            if isinstance(x, ast.comprehension):
                b |= names(x.target)
            if isinstance(x, ast.Lambda):
                b |= {a.arg for a in x.args.args}
        return b

    def helper(self, e, like):
        free = sorted((names(e, ast.Load) & self.locs()) - self.bound_in(e))
        h = self.fresh("extracted")
        f = ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in free], None, [], [], None, []), [ast.Return(e)], [], None)
        self.new.append(fix(f, like))
        return fix(ast.Call(ast.Name(h, ast.Load()), [ast.Name(a, ast.Load()) for a in free], []), like)

    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)) and self.usable(s.value) and hit():
            return [fix(ast.Return(self.helper(s.value, s)), s)]


class ExtractAssign(ExtractRet):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and not isinstance(s.value, (ast.Name, ast.Constant)) and self.usable(s.value) and hit():
            return [fix(ast.Assign(s.targets, self.helper(s.value, s)), s)]


class ExtractCond(ExtractRet):
    def stmt(self, s):
        if isinstance(s, (ast.If,)) and not isinstance(s.test, (ast.Name, ast.Constant)) and self.usable(s.test) and hit():
            s.test = self.helper(s.test, s)
        return None


class ExtractLoopBody(ExtractRet):
    """for v in it: S...  ->  for v in it: _helper(v, free)   when the body assigns no names and has no control transfer"""
    def stmt(self, s):
        if isinstance(s, ast.For) and hit():
            if any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.Raise, ast.AugAssign, ast.Delete, ast.FunctionDef)) for b in s.body for x in ast.walk(b)):
                return None
            m = ast.Module(s.body, [])
            if not self.usable(m):
                return None
            st = names(m, ast.Store) - self.bound_in(m)
            if st:
                return None
            free = sorted((names(m, ast.Load) & self.locs()) - self.bound_in(m))
            h = self.fresh("extracted")
            self.new.append(fix(ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in free], None, [], [], None, []), s.body, [], None), s))
            s.body = [fix(ast.Expr(ast.Call(ast.Name(h, ast.Load()), [ast.Name(a, ast.Load()) for a in free], [])), s)]
        return None


class ExtractWhole(ExtractRet):
    """def f(a, b): BODY -> def f(a, b): return _impl(a, b); module functions and methods"""
    def visit_FunctionDef(self, n):
        super().visit_FunctionDef(n)
        if self.fn or is_gen(n) or n.args.vararg or n.args.kwarg or not hit():
            return n
        b = n.body
        doc = []
        if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
            doc, b = b[:1], b[1:]
        if len(b) < 2 or not self.usable(ast.Module(b, [])):
            return n
        if n.decorator_list and any(not (isinstance(d, ast.Name) and d.id in ("property", "staticmethod", "classmethod")) for d in n.decorator_list):
            return n
        a = n.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        h = self.fresh("extracted")
        # local variables keep the docstring-less body
        aa = []
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            aa.append(ast.arg(x.arg, copy.deepcopy(x.annotation)))
        self.new.append(fix(ast.FunctionDef(h, ast.arguments([], aa, None, [], [], None, []), b, [], copy.deepcopy(n.returns)), n))
        n.body = doc + [fix(ast.Return(ast.Call(ast.Name(h, ast.Load()), [ast.Name(x, ast.Load()) for x in ps], [])), n)]
        return n


class ExtractTail(ExtractRet):
    """the second half of a body moves into a helper taking the live names"""
    def visit_FunctionDef(self, n):
        super().visit_FunctionDef(n)
        if self.fn or is_gen(n) or not hit():
            return n
        b = n.body
        k = max(1, len(b) // 2)
        head, tail = b[:k], b[k:]
        if not tail or not self.usable(ast.Module(tail, [])) or any(isinstance(x, ast.FunctionDef) for t in tail for x in ast.walk(t)):
            return n
        self.fn.append(n)
        loc = self.locs()
        self.fn.pop()
        m = ast.Module(tail, [])
        free = sorted(names(m, ast.Load) & loc)
        # names must be definitely assigned by the head
        sure = {x.arg for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs} | {x.arg for x in (n.args.vararg, n.args.kwarg) if x}
        for s in head:
            if isinstance(s, ast.Assign):
                sure |= names(s, ast.Store)
            if isinstance(s, ast.AnnAssign) and s.value is not None:
                sure |= names(s, ast.Store)
        bound = self.bound_in(m)
        def_in_tail = names(m, ast.Store)
        use = [x for x in free if x in sure]
        if any(x not in sure and x not in def_in_tail and x not in bound for x in free):
            return n
        h = self.fresh("extracted")
        self.new.append(fix(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in use], None, [], [], None, []), tail, [], None), n))
        n.body = head + [fix(ast.Return(ast.Call(ast.Name(h, ast.Load()), [ast.Name(x, ast.Load()) for x in use], [])), n)]
        return n


class Reorder(Base):
    """swap adjacent independent assignments of simple locals (no calls on either side)"""
    def body(self, stmts):
        if not self.fn:
            return stmts
        i = 0
        out = list(stmts)
        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 for x in (a, b)) and hit():
                pure = all(not any(isinstance(y, (ast.Call, ast.Yield)) for y in ast.walk(x)) for x in (a, b))
                sa, sb = names(a, ast.Store), names(b, ast.Store)
                if pure and all(isinstance(x.targets[0], (ast.Name, ast.Attribute)) for x in (a, b)) and not (sa & names(b)) and not (sb & names(a)) \
                        and not (isinstance(a.targets[0], ast.Attribute) and a.targets[0].attr in ast.unparse(b.value)) \
                        and not (isinstance(b.targets[0], ast.Attribute) and b.targets[0].attr in ast.unparse(a.value)):
                    out[i], out[i + 1] = b, a
                    i += 2
                    continue
            i += 1
        return out


class LenTruth(Base):
    """len(x) == 0 -> not len(x) ; len(x) > 0 -> len(x) != 0"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and n.left.func.id == "len" and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value == 0:
            if isinstance(n.ops[0], ast.Eq):
                return fix(ast.Compare(n.left, [ast.Lt()], [ast.Constant(1)]), n)
            if isinstance(n.ops[0], (ast.Gt, ast.NotEq)):
                return fix(ast.Compare(n.left, [ast.GtE()], [ast.Constant(1)]), n)
        return n


class FlipCmp(Base):
    """a < b -> b > a ; a == b -> b == a ; a != b -> not a == b"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if not self.fn or len(n.ops) != 1 or not hit():
            return n
        if type(n.ops[0]) in self.M and not (isinstance(n.ops[0], ast.Eq) and not isinstance(n.left, (ast.Constant, ast.Call)) and not isinstance(n.comparators[0], (ast.Constant,))):
            return fix(ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left]), n)
        if isinstance(n.ops[0], ast.NotEq):
            return fix(ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Eq()], n.comparators)), n)
        if isinstance(n.ops[0], ast.NotIn):
            return fix(ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators)), n)
        if isinstance(n.ops[0], ast.IsNot):
            return fix(ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators)), n)
        return n


class MapLambda(Base):
    """[f(x) for x in it] -> list(map(lambda x: f(x), it)) (single generator, no ifs, name target)"""
    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators
        if self.fn and len(g) == 1 and not g[0].ifs and isinstance(g[0].target, ast.Name) and hit():
            lam = ast.Lambda(ast.arguments([], [ast.arg(g[0].target.id)], None, [], [], None, []), n.elt)
            return fix(ast.Call(ast.Name("list", ast.Load()), [ast.Call(ast.Name("map", ast.Load()), [lam, g[0].iter], [])], []), n)
        return n


class GenToList(Base):
    """f(x for x in it) -> f([x for x in it]) for all/any/sum/tuple/list/set/dict/join"""
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, "attr", "")
        if len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) and f in ("sum", "tuple", "list", "set", "join", "max", "min", "sorted", "array"):
            n.args[0] = fix(ast.ListComp(n.args[0].elt, n.args[0].generators), n)
        return n


class DictSteps(Base):
    """x = {k: v, ...} / return {...} -> x = {}; x[k] = v; ..."""
    def stmt(self, s):
        v = getattr(s, "value", None)
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(v, ast.Dict) and v.keys and all(k is not None for k in v.keys) and hit():
            if isinstance(s, ast.Assign) and not (len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                return None
            t = self.fresh("d") if isinstance(s, ast.Return) else s.targets[0].id
            if t in names(v):
                return None
            out = [ast.Assign([ast.Name(t, ast.Store())], ast.Dict([], []))]
            for k, x in zip(v.keys, v.values):
                out.append(ast.Assign([ast.Subscript(ast.Name(t, ast.Load()), k, ast.Store())], x))
            if isinstance(s, ast.Return):
                out.append(ast.Return(ast.Name(t, ast.Load())))
            return [fix(x, s) for x in out]


class WhileLoop(Base):
    """for x in xs -> it = iter(xs)... as an index while loop for list-like names"""
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, (ast.Name, ast.Attribute)) and IndexLoop.islist(self, s.iter) and not s.orelse and hit():
            if any(isinstance(x, ast.Continue) for x in ast.walk(s)):
                return None
            i = self.fresh("i")
            load = ast.Subscript(copy.deepcopy(s.iter), ast.Name(i, ast.Load()), ast.Load())
            return [fix(x, s) for x in (
                ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)),
                ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Call(ast.Name("len", ast.Load()), [copy.deepcopy(s.iter)], [])]),
                          [ast.Assign([s.target], load), ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))] + s.body, []))]


class IfGuardContinue(Base):
    """for v in it: if c: BODY  ->  for v in it: if not c: continue; BODY"""
    def stmt(self, s):
        if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and hit():
            i = s.body[0]
            s.body = [fix(ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], []), i)] + i.body
        return None


class Commute(Base):
    """a + 1 -> 1 + a, 2 * x -> x * 2, x - 1 -> x + -1 on int-literal arithmetic"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if self.fn and isinstance(n.op, (ast.Add, ast.Mult)) and any(isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) for x in (n.left, n.right)) \
                and not any(isinstance(x, (ast.List, ast.Constant)) and isinstance(getattr(x, "value", None), str) or isinstance(x, (ast.List, ast.Tuple)) for x in (n.left, n.right)) and hit():
            return fix(ast.BinOp(n.right, n.op, n.left), n)
        return n


class ModConst(Base):
    """string / number literals in functions become module constants"""
    def __init__(self):
        super().__init__()
        self.new = {}

    def visit_Module(self, n):
        self.generic_visit(n)
        i = 0
        while i < len(n.body) and (isinstance(n.body[i], (ast.Import, ast.ImportFrom)) or isinstance(n.body[i], ast.Expr)):
            i += 1
        n.body[i:i] = [fix(ast.Assign([ast.Name(v, ast.Store())], ast.Constant(k[1])), n.body[0]) for k, v in self.new.items()]
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_arguments(self, n):
        return n

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return n
        return self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "cast":
            n.args[1:] = [self.visit(x) for x in n.args[1:]]
            return n
        return self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        n.body = [self.visit(s) for s in n.body]
        self.fn.pop()
        return n

    def visit_Constant(self, n):
        if self.fn and isinstance(n.value, (str, int, float)) and not isinstance(n.value, bool) and n.value not in (0, 1, -1, "") and hit():
            v = self.new.setdefault((type(n.value), n.value), self.fresh("CONST"))
            return fix(ast.Name(v, ast.Load()), n)
        return n


class AliasSelf(Base):
    """self.x read repeatedly -> local alias at function start is not safe in general; only: e = self.x at the statement using it"""
    def stmt(self, s):
        if isinstance(s, (ast.Return, ast.Assign)) and s.value is not None and hit():
            at = [x for x in ast.walk(s.value) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == "self"]
            par = {id(x.func) for x in ast.walk(s.value) if isinstance(x, ast.Call)}
            at = [x for x in at if id(x) not in par]
            if not at or any(isinstance(x, (ast.Lambda, ast.IfExp, ast.BoolOp, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) for x in ast.walk(s.value)):
                return None
            v = self.fresh("attr")
            a0 = ast.dump(at[0])

            class R(ast.NodeTransformer):
                def visit_Attribute(self, n):
                    self.generic_visit(n)
                    if ast.dump(n) == a0:
                        return ast.copy_location(ast.Name(v, ast.Load()), n)
                    return n
            pre = fix(ast.Assign([ast.Name(v, ast.Store())], at[0]), s)
            s.value = R().visit(s.value)
            return [pre, s]


class Isinst(Base):
    """isinstance(x, (A, B)) -> isinstance(x, A) or isinstance(x, B)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], (ast.Name, ast.Attribute)):
            return fix(ast.BoolOp(ast.Or(), [ast.Call(ast.Name("isinstance", ast.Load()), [copy.deepcopy(n.args[0]), e], []) for e in n.args[1].elts]), n)
        return n


class KwToPos(Base):
    pass


class UnpackTuple(Base):
    """for (a, b) in it: -> for pair in it: a, b = pair"""
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple) and hit():
            v = self.fresh("pair")
            s.body = [fix(ast.Assign([s.target], ast.Name(v, ast.Load())), s)] + s.body
            s.target = fix(ast.Name(v, ast.Store()), s)
        return None


class WithToTry(Base):
    pass


class InlineTemp(Base):
    """x = e; return f(x)  -> return f(e) when x is used exactly once, directly in the next statement"""
    def body(self, stmts):
        if not self.fn:
            return stmts
        out = []
        i = 0
        while i < len(stmts):
            s = stmts[i]
            n = stmts[i + 1] if i + 1 < len(stmts) else None
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(n, (ast.Return, ast.Assign)) and n.value is not None and hit():
                v = s.targets[0].id
                uses = [x for x in ast.walk(self.fn[-1]) if isinstance(x, ast.Name) and x.id == v]
                inn = [x for x in ast.walk(n.value) if isinstance(x, ast.Name) and x.id == v]
                lam = any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.IfExp, ast.BoolOp)) for x in ast.walk(n.value))
                calls = any(isinstance(x, (ast.Call,)) for x in ast.walk(s.value)) and sum(isinstance(x, ast.Call) for x in ast.walk(n.value)) > 1
                if len(uses) == 2 and len(inn) == 1 and not lam and not calls:
                    class R(ast.NodeTransformer):
                        def visit_Name(self, m):
                            return s.value if m.id == v else m
                    n.value = R().visit(n.value)
                    i += 1
                    continue
            out.append(s)
            i += 1
        return out


class LocalFn(Base):
    """return [e for x in it] -> def inner(x): return e ; return [inner(x) for x in it]"""
    def stmt(self, s):
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, (ast.ListComp,)) and len(s.value.generators) == 1 and isinstance(s.value.generators[0].target, ast.Name) and hit():
            c = s.value
            v = c.generators[0].target.id
            f = self.fresh("inner")
            d = ast.FunctionDef(f, ast.arguments([], [ast.arg(v)], None, [], [], None, []), [ast.Return(c.elt)], [], None)
            c.elt = ast.Call(ast.Name(f, ast.Load()), [ast.Name(v, ast.Load())], [])
            return [fix(d, s), fix(s, s)]


class FormatStr(Base):
    """f"..{x}.." -> "..{}..".format(x)"""
    def visit_JoinedStr(self, n):
        if not self.fn or not hit():
            return n
        s, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                s += v.value.replace("{", "{{").replace("}", "}}")
            elif v.conversion == -1 and v.format_spec is None:
                s += "{}"
                args.append(v.value)
            else:
                return n
        return fix(ast.Call(ast.Attribute(ast.Constant(s), "format", ast.Load()), args, []), n)


KINDS = {k.__name__: k for k in (RetTemp, InvertIf, EarlyToElse, ElseToEarly, CompToLoop, LoopToComp, IndexLoop, EnumLoop, NoOps, AugExpand,
    DeMorgan, NestIf, Ternary, UnTernary, ArgTemps, RenameLocals, ExtractRet, ExtractAssign, ExtractCond, ExtractLoopBody, ExtractWhole, ExtractTail, Reorder,
    LenTruth, FlipCmp, MapLambda, GenToList, DictSteps, WhileLoop, IfGuardContinue, Commute, ModConst, AliasSelf, Isinst, UnpackTuple, InlineTemp, LocalFn, FormatStr)}


def main():
    kind, out = sys.argv[1], sys.argv[2]
    if kind == "all":
        print(" ".join(KINDS))
        return
    global P
    if len(sys.argv) > 3:
        RND.seed(int(sys.argv[3]))
        P = 0.5
    for base in ("src/python", "steps"):
        for d, _, fs in os.walk(os.path.join(SRC, base)):
            for f in fs:
                if not f.endswith(".py"):
                    continue
                s = os.path.join(d, f)
                t = os.path.join(out, os.path.relpath(s, SRC))
                os.makedirs(os.path.dirname(t), exist_ok=True)
                src = open(s).read()
                tree = ast.parse(src)
                if kind == "mix":
                    ks = RND.sample(list(KINDS), 4)
                else:
                    ks = kind.split("+")
                for k in ks:
                    tree = KINDS[k]().visit(tree)
                    ast.fix_missing_locations(tree)
                    tree = ast.parse(ast.unparse(tree))
                open(t, "w").write(ast.unparse(tree) + "\n")
    print("ok")


main()
