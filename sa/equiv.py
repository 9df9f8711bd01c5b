"""Semantic comparison of a function with its reference model.

Both versions are analysed by the same value-flow engine; the normalised result terms,
raised exceptions and effects are compared.  Callees that exist on both sides are
compared on their own and stay uninterpreted here (function-wise regression
verification); helpers that exist on one side only are inlined.

A difference counts as definite only if it can be pinned on corresponding places of two
terms of equal shape (another constant, operator, field, argument, an item more or less,
an added guard with a different outcome ...).  Differences of shape that the
normalisation cannot explain leave the obligation undecided.
"""
import ast
import itertools
import os
import re

from .perm import permuted
from . import core, facts
from .core import PROVED, UNKNOWN, VIOLATED, ob
from .interp import Interp
from .judge import definite, peel as bare
from .model import AnalysisBroken, FuncInfo, Program
from .types import members
from .terms import (FALSE, NONE, T, TRUE, Term, children, conj, const, contains, disj, is_const, isbool,
                    ite, neg, show, simplify, subterms)

REF = os.path.join(core.VERIF, "ref")
_REFPROG = None


def ref_program():
    global _REFPROG
    if _REFPROG is None:
        _REFPROG = Program(REF)
    return _REFPROG


SYN = {"math.pi": "numpy.pi", "math.sqrt": "numpy.sqrt", "math.log2": "numpy.log2",
       "math.exp": "numpy.exp", "math.cos": "numpy.cos", "math.sin": "numpy.sin",
       "math.log": "numpy.log", "math.log10": "numpy.log10", "math.tan": "numpy.tan",
       "math.inf": "numpy.inf", "math.e": "numpy.e", "numpy.conjugate": "numpy.conj",
       "numpy.absolute": "abs", "numpy.abs": "abs", "numpy.amax": "numpy.max",
       "numpy.amin": "numpy.min", "numpy.asarray": "numpy.array",
       "numpy.complex_": "numpy.complex128", "numpy.float_": "numpy.float64",
       "collections.OrderedDict": "dict", "numpy.product": "numpy.prod"}
DTYPES = {"complex": "numpy.complex128", "float": "numpy.float64", "int": "numpy.int64",
          "bool": "numpy.bool_"}
METHODS = {"conj": "numpy.conj", "conjugate": "numpy.conj", "sum": "numpy.sum",
           "max": "numpy.max", "min": "numpy.min", "mean": "numpy.mean", "prod": "numpy.prod",
           "round": "numpy.round", "dot": "numpy.dot", "argsort": "numpy.argsort",
           "std": "numpy.std", "var": "numpy.var", "trace": "numpy.trace", "any": "numpy.any",
           "all": "numpy.all", "cumsum": "numpy.cumsum", "nonzero": "numpy.nonzero"}
COERCE = {"list", "tuple", "iter", "int", "float", "str", "bool", "numpy.array",
          "numpy.asarray", "set", "dict", "complex", "numpy.atleast_1d"}
# calls that only consume their argument: a list does as well as a generator
EATERS = {"sum": 0, "max": 0, "min": 0, "sorted": 0, "any": 0, "all": 0, "set": 0, "frozenset": 0,
          "dict": 0, "dict.fromkeys": 0, "functools.reduce": 1, "collections.Counter": 0,
          "enumerate": 0, "zip": 0, "math.prod": 0}
OPERATORS = {"operator.add": "+", "operator.sub": "-", "operator.mul": "*", "operator.truediv": "/",
             "operator.matmul": "@", "operator.pow": "**", "operator.floordiv": "//",
             "operator.mod": "%", "operator.xor": "^", "operator.and_": "&", "operator.or_": "|"}
SIMPLE = {"const", "param", "func", "cls", "ext", "modconst", "classconst", "module", "larg",
          "attr", "item", "elem", "idx", "missing", "undefname"}


# ------------------------------------------------------------- sizes, policy
def _size(fi):
    n = getattr(fi, "_sz", None)
    if n is None:
        n = sum(1 for x in ast.walk(fi.node) if isinstance(x, ast.stmt)) - 1
        body = fi.node.body
        if isinstance(body, list) and body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant):
            n -= 1
        if any(isinstance(x, (ast.For, ast.While, ast.Try)) for x in ast.walk(fi.node)):
            n += 20
        fi._sz = n
    return n


def _abstract(fi):
    b = fi.node.body
    if not isinstance(b, list):
        return False
    b = [x for x in b if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    if len(b) == 1 and isinstance(b[0], ast.Raise) and b[0].exc is not None:
        e = b[0].exc
        e = e.func if isinstance(e, ast.Call) else e
        return isinstance(e, ast.Name) and e.id == "NotImplementedError"
    return False


def _hook(fi):
    """A method doing nothing on its own: there to be overridden by subclasses."""
    b = fi.node.body
    if fi.cls is None or not isinstance(b, list) or fi.is_static or fi.is_property:
        return False
    b = [x for x in b if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    return not b or len(b) == 1 and (isinstance(b[0], ast.Pass) or isinstance(
        b[0], ast.Return) and isinstance(b[0].value, ast.Name) and b[0].value.id in [
            p[0] for p in fi.params()[1:]])


def _sig(fi):
    return tuple((n, k, ast.dump(d) if d is not None else None) for n, _, d, k in fi.params())


def common(p, r):
    c = p.__dict__.get("_common")
    if c is None:
        c = {q for q, f in p.funcs.items() if q in r.funcs and _sig(f) == _sig(r.funcs[q])}
        p._common = c
    return c


def policy(p, r):
    com = common(p, r)

    def no_inline(fi):
        if fi.qualname not in com:
            return False
        if fi.cls is not None and (_abstract(p.funcs[fi.qualname])
                                   or _abstract(r.funcs[fi.qualname])):
            return True
        if _hook(p.funcs[fi.qualname]) and _hook(r.funcs[fi.qualname]):
            return True
        if fi.name in ("__init__", "__post_init__") and fi.cls is not None:
            return max(_size(p.funcs[fi.qualname]), _size(r.funcs[fi.qualname])) > 12
        if fi.is_property:
            return False
        a, b = p.funcs.get(fi.qualname), r.funcs.get(fi.qualname)
        return max(_size(a), _size(b)) > 2
    return no_inline


def _fields(prog, c):
    """Names of the attributes a class (or its bases) stores on its instances."""
    if c is None:
        return frozenset()
    memo = prog.__dict__.setdefault("_fieldnames", {})
    if c.qualname not in memo:
        import ast
        out = set()
        for k in prog.mro(c):
            out |= set(k.annotations)
            for fi in k.methods.values():
                ps = fi.params()
                if not ps:
                    continue
                for x in ast.walk(fi.node):
                    if isinstance(x, ast.Attribute) and isinstance(
                            x.value, ast.Name) and x.value.id == ps[0][0] and isinstance(
                            x.ctx, ast.Store):
                        out.add(x.attr)
        memo[c.qualname] = frozenset(out)
    return memo[c.qualname]


def _stores(prog, f):
    """Attribute names stored by the function or by anything it may call in its class."""
    import ast
    if f.cls is None:
        return set()
    todo, seen, out = [f], set(), set()
    while todo:
        g = todo.pop()
        if g.qualname in seen:
            continue
        seen.add(g.qualname)
        for x in ast.walk(g.node):
            if isinstance(x, ast.Attribute):
                if isinstance(x.ctx, (ast.Store, ast.Del)):
                    out.add(x.attr)
                m = prog.find_method(f.cls, x.attr)
                if m is not None:
                    todo.append(m)
            elif isinstance(x, ast.Name):
                m = f.module.bindings.get(x.id)
                if isinstance(m, FuncInfo):
                    todo.append(m)
    return out


# --------------------------------------------------------------- summarising
class Summary:
    __slots__ = ("value", "raises", "post", "calls", "truncated", "asserts", "deep",
                 "facts", "typeof")


def _close(i, t, st, fr, node, depth=0, base=0):
    """Replace closures by lambda terms (their body applied to fresh arguments)."""
    if depth > 4:
        return t
    cls = [x for x in subterms(t) if x.kind == "closure"]
    m = {}
    for c in cls:
        f, pfr = i.closures.get(c.args[0], (None, None))
        if f is None:
            continue
        ps = f.params()
        args = [T("larg", base, k) for k, p in enumerate(ps) if p[3] == "pos"]
        kw = [(p[0], T("larg", base, f"{p[0]}")) for p in ps if p[3] == "kwonly"]
        if any(p[3] == "vararg" for p in ps):
            args.append(T("star", T("larg", base, "*")))
        if any(p[3] == "kwarg" for p in ps):
            kw.append(("**", T("larg", base, "**")))
        from . import types as ty
        for k, a in enumerate(x for x in ps if x[3] == "pos"):
            tt = ty.from_ann(i.prog, f.module, a[1]) if a[1] is not None else None
            if tt is not None:
                i.larg_types[T("larg", base, k)] = tt
        work = st.copy()
        prev, i.app = i.app, i.fresh()
        try:
            v = i.apply(c, list(args), kw, work, fr, node)
        except Exception:
            continue
        finally:
            i.app = prev
        v = i.freeze(v, work)
        left = tuple(T("left", i.freeze(b, work), how, k if isinstance(k, str) else
                       i.freeze(k, work), i.freeze(x, work))
                     for (b, how, k), x in work.over.items() if st.over.get((b, how, k)) is not x)
        # what only changes an array made and dropped inside is nobody's business
        left = tuple(x for x in left if x.args[0].kind != "copied" or contains(v, x.args[0])
                     or any(y is not x and contains(y, x.args[0]) for y in left))
        if left:
            v = T("leaving", v, left)
        m[c] = T("lambda", len(args) + len(kw), _close(i, v, work, fr, node, depth + 1, base + 1))
    if not m:
        return t
    from .terms import subst
    return subst(t, m)


def _with_steps(i, t):
    """The term together with what each loop iteration does to the loop-carried values."""
    done, steps, todo = set(), [], [t]
    while todo:
        x = todo.pop(0)
        have = {(y.args[0], y.args[1]) for y in subterms(x) if y.kind == "loopres"}
        marks = []
        _order(x, marks, set())
        for m in marks:
            key = (m.args[0], m.args[1]) if m.kind == "loopvar" else m
            if key in done:
                continue
            done.add(key)
            if key in have:
                continue
            v = i.steps_.get(key)
            if v is None:
                continue
            val, st = v
            if isinstance(val, tuple):
                val = T("tuple", *[i._fseg(y, st, ()) for y in val])
            else:
                val = i.freeze(val, st)
            steps.append(T("step", m, val))
            todo.append(val)
        if len(steps) > 40:
            break
    return T("with", t, tuple(steps)) if steps else t


def _order(t, out, seen):
    if t in seen:
        return
    seen.add(t)
    if t.kind in ("loopvar", "sofar"):
        out.append(t)
    for c in children(t):
        _order(c, out, seen)


def _conjuncts(c, p):
    """Atoms (with truth value) that together say that c is p."""
    if c.kind == "not":
        return _conjuncts(c.args[0], not p)
    if c.kind in ("and", "or") and (c.kind == "and") == p:
        return [y for x in c.args for y in _conjuncts(x, p)]
    return [(c, p)]


def summarise(prog, f, noin):
    i = Interp(prog, max_depth=9, budget=40000, no_inline=noin)
    i.objectish = i.objectish_params(f)
    r = i.run(f)
    s = Summary()
    s.truncated = i.truncated
    s.deep = i.deep
    fr = i.entry
    if r.state is None:
        s.value = T("noreturn")
    else:
        v = r.frozen()
        s.value = _with_steps(i, _close(i, v, r.state, fr, f.node))
        # events inside returned closures are part of what the function does
    evs = r.events if len(r.events) >= len(i.log) else i.log
    s.typeof = lambda t: i.typeof(t, r.state, fr) if r.state is not None else None
    s.facts = facts.collect(i, f, list(evs), skey, _fields(prog, f.cls),
                            common(core.program(), ref_program()))
    blockers = set()
    for x in i.raises:
        pcs = x[0]
        if pcs:
            c, p = pcs[-1]
            if c.kind != "iter":
                blockers.update(_conjuncts(c, not p))
    s.raises = []

    def pc(pcs):
        return conj(*[c if p else neg(c) for c, p in pcs
                      if c.kind not in ("iter", "noreturn", "while")
                      and not all(x in blockers for x in _conjuncts(c, p))])

    def fz(t, st):
        return _with_steps(i, _close(i, i.freeze(t, st), st, fr, f.node) if st is not None else t)

    final = r.state
    s.calls = {}
    s.asserts = []
    for e in evs:
        if e.kind == "raise":
            s.raises.append((str(e.d["exc"]), pc(e.pc)))
        elif e.kind == "call" and not e.d.get("inlined"):
            fn = e.d["func"]
            kind = fn.kind
            if kind == "ext" and fn.args[0] in PURE:
                continue
            t = e.d.get("result")
            if not isinstance(t, Term) or t.kind != "call":
                t = T("call", fn, tuple(e.d["args"]), tuple(e.d["kwargs"]))
            nm = callname(fn)
            if nm == "next" and e.d["args"] and i.freeze(e.d["args"][0], final or e.d.get(
                    "state")).kind in ("gen", "list") if final is not None else False:
                continue
            if nm in SKIPCALL or (fn.kind == "ext" and nm.split(".")[-1][:1].isupper()
                                  and nm.endswith(("Error", "Warning", "Exception"))):
                continue
            s.calls.setdefault(nm, set()).add((fz(t, final), fz(pc(e.pc), final)))
        elif e.kind == "mutate":
            roots = i.roots(e.d["target"]) or _opaque(e.d["target"])
            if roots and not str(e.d["how"]).startswith("passed to"):
                s.calls.setdefault("<mutate>", set()).add(
                    (T("mut", fz(e.d["target"], final), str(e.d["how"]),
                       tuple(fz(x, final) for x in e.d.get("args") or ())), fz(pc(e.pc), final)))
        elif e.kind in ("setitem", "delitem", "append"):
            if i.roots(e.d["base"]) or e.kind == "delitem" and _opaque(e.d["base"]):
                s.calls.setdefault("<" + e.kind + ">", set()).add(
                    (T(e.kind, fz(e.d["base"], final), fz(e.d.get("key", NONE), final),
                       fz(e.d.get("value", NONE), final)), fz(pc(e.pc), final)))
        elif e.kind == "assert":
            s.calls.setdefault("<assert>", set()).add((fz(e.d["cond"], final),
                                                       fz(pc(e.pc), final)))
        elif e.kind == "break":
            s.calls.setdefault("<break>", set()).add((T("break"), fz(pc(e.pc), final)))
    s.post = {}
    if final is not None:
        left = tuple(T("left", i.freeze(b, final), how, k if isinstance(k, str) else
                       i.freeze(k, final), i.freeze(x, final))
                     for (b, how, k), x in final.over.items() if b.kind == "copied")
        if left:
            left = tuple(x for x in left if contains(s.value, x.args[0]))
        if left:
            s.value = T("leaving", s.value, left)
        for (b, how, k), v in final.over.items():
            s.post[(fz(b, final), how, k if isinstance(k, str) else fz(k, final))] = fz(v, final)
    s.raises = [(n, _close(i, i.freeze(c, final), final, fr, f.node)
                 if final is not None else c) for n, c in s.raises]
    return s


def _opaque(t):
    """A local object of which the state is not modelled: a copy, or a call's result."""
    while t.kind in ("attr", "item", "elem"):
        t = t.args[0]
    return t.kind in ("copied", "call")


PURE = {"len", "range", "zip", "enumerate", "list", "tuple", "set", "dict", "sorted", "reversed",
        "isinstance", "type", "getattr", "hasattr", "int", "float", "str", "bool", "max", "min",
        "sum", "abs", "map", "filter", "any", "all", "iter", "super", "complex", "repr", "round",
        "callable", "id", "frozenset", "issubclass", "slice", "format", "pow", "divmod"}
SKIPCALL = {"append", "extend", "items", "keys", "values", "get", "format", "join", "copy",
            "update", "add", "setdefault", "astype", "startswith", "split", "strip", "lower",
            "union", "intersection", "difference", "symmetric_difference", "issubset",
            "issuperset", "isdisjoint", "endswith", "upper", "lstrip", "rstrip", "replace",
            "count", "splitlines", "partition", "rpartition", "zfill", "isdigit"}


def callname(fn):
    if fn.kind == "attr":
        return fn.args[1]
    if fn.kind == "bound":
        return fn.args[1].split(".")[-1]
    if fn.kind in ("func", "cls", "ext", "localfunc"):
        return str(fn.args[0])
    return "<" + fn.kind + ">"


# ------------------------------------------------------------ canonical form
class Canon:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def __call__(self, t):
        if not isinstance(t, Term):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.go(t)
            self.memo[t] = r
        return r

    def tup(self, a):
        if isinstance(a, Term):
            return self(a)
        if isinstance(a, tuple):
            return tuple(self.tup(x) for x in a)
        return a

    def go(self, t):
        k = t.kind
        if k == "ext" and t.args[0] in SYN:
            return T("ext", SYN[t.args[0]])
        if not t.args:
            return t
        a = tuple(self.tup(x) for x in t.args)
        if k == "const":
            return t
        if k == "bound":
            return T("attr", a[0], a[1].split(".")[-1])
        if k in ("and", "or"):
            xs = [_under(x, [y for y in a if y is not x], k == "and") for x in a]
            xs = sorted(dict.fromkeys(xs), key=lambda x: skey(x))
            return simplify(T(k, *xs))
        if k == "loopres":
            r = self.fold(*a)
            if r is not None:
                return r
        if k == "ite":
            p, q = _under(a[1], [a[0]], True), _under(a[2], [a[0]], False)
            if a[0].kind == "cmp" and _singleton(a[0]):
                p = _replaced(p, a[0].args[1], a[0].args[2])
            elif a[0].kind == "not" and a[0].args[0].kind == "cmp" and _singleton(a[0].args[0]):
                q = _replaced(q, *a[0].args[0].args[1:])
            if _alike(p, q):
                return p
            return _larger(a[0], p, q) or simplify(T(k, a[0], p, q))
        if k in ("call", "attr", "item") and a[0].kind == "ite" and NONE in a[0].args[1:]:
            # None cannot be called and has neither attributes nor items
            a = (a[0].args[1] if a[0].args[2] is NONE else a[0].args[2],) + a[1:]
        if k == "call":
            return self.call(*a)
        if k == "item" and a[1] is const(0) and a[0].kind == "attr" and a[0].args[1] == "shape":
            return T("call", T("ext", "len"), (a[0].args[0],), ())
        if k == "cmp" and a[0] == "==" and skey(a[1]) > skey(a[2]):
            return T("cmp", "==", a[2], a[1])
        if k == "fstr" or k in ("bin", "inplace") and a[0] == "+" and any(
                x.kind == "const" and isinstance(x.args[0], str) or x.kind == "fstr"
                for x in a[1:]):
            return _text(T(k, *a))
        if k in ("list", "tuple", "set", "dict", "gen"):
            return self.container(k, a)
        if k == "each":
            return T(k, a[0], _peel(a[1]), a[2])
        if k == "leaving":
            return T(k, a[0], tuple(sorted(a[1], key=lambda x: skey(alpha(x)))))
        if k == "elem":
            return T(k, _peel(a[0]), *a[1:])
        if k == "item" and a[1].kind == "tuple" and len(a[1].args) > 1 and all(
                x.kind == "slice" and all(is_const(y, None) for y in x.args)
                for x in a[1].args):
            return a[0]
        if k == "item" and a[1].kind == "slice":
            if len(a[1].args) == 3 and is_const(a[1].args[2], -1) and is_const(
                    a[1].args[0], None) and is_const(a[1].args[1], None):
                return T("reversed", _peel(a[0]))
            return T(k, _peel(a[0]), a[1])
        if k == "item" and a[0].kind == "call" and a[0].args[0].kind == "ext" and \
                a[0].args[0].args[0] == "divmod" and is_const(a[1], 0, 1):
            return T("bin", "//" if a[1].args[0] == 0 else "%", *a[0].args[1])
        if k == "cmp" and a[0] == "in" and a[2].kind in ("list", "tuple", "set") and all(
                x.kind not in ("each", "splat", "segcond", "ext", "star") for x in a[2].args):
            return self.go(T("or", *[self.go(T("cmp", "==", a[1], x)) for x in a[2].args])) \
                if len(a[2].args) > 1 else simplify(T("cmp", "==", a[1], a[2].args[0])) \
                if a[2].args else FALSE
        if k == "cmp" and a[0] == "in":
            y = _peel(a[2])
            if y is not a[2]:
                return self.go(T(k, "in", a[1], y))
        if k == "cmp" and a[0] == "is" and a[2] is NONE:
            r = self.isnone(a[1])
            if r is not None:
                return r
        if k == "bin" and a[0] == "*" and any(x.kind in ("tuple", "list") for x in a[1:]):
            r = simplify(T(k, *a))
            if r.kind != k:
                return r
        if k == "bin" and a[0] in ("+", "*", "-") and _numeric(t):
            return _linear(T(k, *a))
        return simplify(T(k, *a))

    def isnone(self, x):
        if x.kind == "ite":
            p, q = self.isnone(x.args[1]), self.isnone(x.args[2])
            if p is not None and q is not None:
                return simplify(T("ite", x.args[0], p, q))
        if x is NONE:
            return TRUE
        if x.kind == "call" and x.args[0].kind == "ext" and x.args[0].args[0] == "next" and len(
                x.args[1]) == 1:
            return FALSE
        return None

    def segs(self, k, a):
        out = []
        for x in a:
            if x.kind == "segcond":
                p, q = self.segs(k, x.args[1]), self.segs(k, x.args[2])
                if len(p) == len(q) and all(
                        y.kind == z.kind == "kv" and y.args[0] is z.args[0] or k != "set" and
                        not {y.kind, z.kind} & SEGS for y, z in zip(p, q)):
                    out.extend(T("kv", y.args[0], self.go(T("ite", x.args[0], y.args[1],
                                                            z.args[1])))
                               if y.kind == "kv" else self.go(T("ite", x.args[0], y, z))
                               for y, z in zip(p, q))
                    continue
                x = T("segcond", x.args[0], p, q)
            elif x.kind == "each":
                x = T("each", x.args[0], x.args[1], self.segs(k, x.args[2]))
            if x.kind == "each" and len(x.args[2]) == 1 and x.args[2][0].kind == "elem" and \
                    x.args[2][0].args[0] is x.args[1]:
                x = T("splat", x.args[1])
            elif k == "dict" and x.kind in ("splat", "ext"):
                y = self.ext("dict", (x.args[0],), ())
                if y is not None and y.kind == "dict":
                    out.extend(y.args)
                    continue
            elif k == "set" and x.kind in ("splat", "ext") and x.args[0].kind in (
                    "gen", "list", "tuple", "set"):
                out.extend(self.segs(k, x.args[0].args))
                continue
            if x.kind == "splat":
                x = T("splat", _peel(x.args[0]))
            out.append(x)
        return tuple(out)

    def container(self, k, a):
        out = []
        a = self.segs(k, a)
        for x in a:
            if x.kind in ("splat", "star") and x.args[0].kind in ("list", "tuple", "gen") and \
                    k in ("list", "tuple", "gen"):
                out.extend(x.args[0].args)
            elif x.kind == "each" and len(x.args[2]) == 1 and x.args[2][0].kind == "elem" and \
                    x.args[2][0].args[0] is x.args[1] and k in ("list", "tuple", "gen"):
                out.append(T("splat", x.args[1]))
            else:
                out.append(x)
        return T(k, *out)

    def fold(self, site, name, over, init, step):
        """Accumulation of numbers, sequences and strings: the sum, sequence or string."""
        lv = T("loopvar", site, name)

        def own(x):
            return x.kind == "loopvar" and x.args[:2] == (site, name)

        def free(*xs):
            return not any(own(y) for x in xs for y in subterms(x))

        def pieces(x):
            nonlocal mode
            if own(x):
                return ()
            if x.kind == "ite" and free(x.args[0]):
                p, q = pieces(x.args[1]), pieces(x.args[2])
                return None if p is None or q is None else (T("segcond", x.args[0], p, q),)
            if mode == "num" and x.kind in ("bin", "inplace") and x.args[0] == "+":
                used.add("+")
                for u, v in (x.args[1:], x.args[:0:-1]):
                    if own(u) and free(v):
                        return (v,)
                if free(x.args[2]):
                    u = pieces(x.args[1])
                    if u is not None and len(u) == 1 and u[0].kind != "segcond":
                        return (T("bin", "+", u[0], x.args[2]),)
            if mode == "seq" and x.kind in ("list", "tuple") and x.args and \
                    x.args[0].kind == "splat" and own(x.args[0].args[0]) and free(*x.args[1:]):
                return x.args[1:]
            if mode == "str" and x.kind == "fstr" and x.args[0].kind == "fmt" and \
                    own(x.args[0].args[0]) and free(*x.args[1:]):
                return (_text(T("fstr", *x.args[1:])),)
            if x.kind == "call" and x.args[0].kind == "ext" and x.args[0].args[0] in (
                    "max", "min") and len(x.args[1]) == 2 and not x.args[2] and mode in (
                        "num", x.args[0].args[0]):
                mode = x.args[0].args[0]
                used.add(mode)
                for u, v in (x.args[1], x.args[1][::-1]):
                    if own(u) and free(v):
                        return (v,)
            return None

        if is_const(init) and isinstance(init.args[0], (int, float)) and not isinstance(
                init.args[0], bool):
            mode = "num"
        elif init.kind in ("list", "tuple"):
            mode = "seq"
        elif is_const(init) and isinstance(init.args[0], str):
            mode = "str"
        else:
            return None
        if over.kind in ("iter", "while") or own(step):
            return None
        used = set()
        ps = pieces(step)
        if not ps or len(used) > 1:
            return None
        each = T("each", site, _peel(over), ps)
        if mode == "seq":
            return self.container("list", init.args + (each,))
        g = self.container("gen", (each,))
        if mode in ("max", "min"):
            return self.call(T("ext", mode), (init, T("star", g)), ())
        if mode == "num":
            r = self.call(T("ext", "sum"), (g,), ())
            return r if init.args[0] == 0 else self.go(T("bin", "+", r, init))
        r = T("call", T("attr", const(""), "join"), (g,), ())
        return _text(T("bin", "+", init, r)) if init.args[0] else r

    def call(self, f, args, kw):
        if f.kind == "attr" and f.args[1] == "get" and 1 <= len(args) <= 2 and not kw and not any(
                x.kind == "star" for x in args):
            return self.go(T("ite", self.go(T("cmp", "in", args[0], f.args[0])),
                             self.go(T("item", f.args[0], args[0])),
                             args[1] if len(args) == 2 else NONE))
        if f.kind == "attr" and f.args[1] in SETOPS and len(args) == 1 and not kw and \
                args[0].kind != "star" and _isset(f.args[0]):
            y = args[0] if _isset(args[0]) else self.go(T(
                "call", T("ext", "set"), (_peel(args[0]),), ()))
            return self.go(T("bin", SETOPS[f.args[1]], f.args[0], y))
        if f.kind == "ext" and f.args[0] in ("max", "min") and len(args) > 1 and not kw and \
                not any(x.kind == "star" for x in args):
            args = tuple(sorted(args, key=skey))
        if f.kind == "func" and not any(x.kind == "star" for x in args) and not any(
                n == "**" for n, _ in kw):
            fi = self.prog.funcs.get(f.args[0])
            if fi is not None:
                args, kw = self._bind(fi, fi.params(), args, kw)
        elif f.kind == "cls":
            ci = self.prog.classes.get(f.args[0])
            init = self.prog.find_method(ci, "__init__") if ci is not None else None
            if init is not None and not any(x.kind == "star" for x in args) and not any(
                    n == "**" for n, _ in kw):
                args, kw = self._bind(init, init.params()[1:], args, kw)
        elif f.kind == "attr" and kw:
            # the same method called with names: order by name of any repo method with it
            for fi in self.prog.funcs.values():
                if fi.name == f.args[1] and fi.cls is not None and not any(
                        x.kind == "star" for x in args) and not any(n == "**" for n, _ in kw):
                    ps = fi.params()[0 if fi.is_static else 1:]
                    names = [p[0] for p in ps]
                    if all(n in names for n, _ in kw) and len(args) <= len(names):
                        args, kw = self._bind(fi, ps, args, kw)
                        break
        if f.kind == "attr" and not (f.args[0].kind == "attr" and f.args[0].args[1] in (
                "random",)):
            m, o = f.args[1], f.args[0]
            if m in ("transpose",) and not args and not kw:
                return T("attr", o, "T")
            if m == "get" and len(args) == 2 and args[1] is NONE:
                args = args[:1]
            if m in METHODS and not any(x.name == m for x in self.prog.funcs.values()):
                return self.call(T("ext", METHODS[m]), (o,) + tuple(args), kw)
        if f.kind == "ext":
            if f.args[0] == "numpy.transpose" and len(args) == 1 and not kw:
                return T("attr", args[0], "T")
            if f.args[0] in ("numpy.real", "numpy.imag") and len(args) == 1 and not kw:
                return T("attr", args[0], f.args[0][6:])
            if f.args[0] == "numpy.sqrt" and len(args) == 1 and not kw:
                return self.go(T("bin", "**", args[0], const(0.5)))
            if f.args[0] == "numpy.array" and any(n == "dtype" for n, _ in kw):
                kw = tuple((n, T("ext", DTYPES[v.args[0]]) if n == "dtype" and v.kind == "ext"
                            and v.args[0] in DTYPES else v) for n, v in kw)
            if f.args[0] in EATERS and len(args) > EATERS[f.args[0]] and args[
                    EATERS[f.args[0]]].kind == "ite":
                j = EATERS[f.args[0]]
                args = args[:j] + (_genleaves(args[j]),) + tuple(args[j + 1:])
            r = self.ext(f.args[0], args, kw)
            if r is not None:
                return r
            if f.args[0] in EATERS:
                args = tuple(T("gen", *x.args) if x.kind == "list" and j == EATERS[f.args[0]]
                             else x for j, x in enumerate(args))
            if f.args[0] in ("sorted", "max", "min", "map", "filter", "functools.reduce"):
                args = tuple(self.fn(x) if x.kind in ("ext", "call") else x for x in args)
                kw = [(k, self.fn(v) if k == "key" else v) for k, v in kw]
        return T("call", f, tuple(args), tuple(sorted(kw, key=lambda x: x[0])))

    def fn(self, f):
        """Functions of the operator module as the lambdas they stand for."""
        a, b = T("larg", 0, 0), T("larg", 0, 1)
        if f.kind == "ext" and f.args[0] in OPERATORS:
            return T("lambda", 2, T("bin", OPERATORS[f.args[0]], a, b))
        if f.kind == "call" and f.args[0].kind == "ext" and len(f.args[1]) == 1 and is_const(
                f.args[1][0]):
            k = f.args[1][0]
            if f.args[0].args[0] == "operator.attrgetter" and isinstance(k.args[0], str) and \
                    "." not in k.args[0]:
                return T("lambda", 1, T("attr", a, k.args[0]))
            if f.args[0].args[0] == "operator.itemgetter":
                return T("lambda", 1, T("item", a, k))
        return f

    def ext(self, n, args, kw):
        """Different spellings of the same library operation."""
        if n in ("list", "tuple") and len(args) == 1 and not kw and args[0].kind in (
                "list", "gen", "tuple"):
            return T("list", *args[0].args)
        if n in ("any", "all") and len(args) == 1 and not kw and args[0].kind in (
                "gen", "list", "tuple", "set"):
            neg_ = n == "all"
            out = [self._some(x, neg_) for x in args[0].args]
            if all(x is not None for x in out):
                c = simplify(T("or", *out)) if out else FALSE
                return neg(c) if neg_ else c
        if n in ("set", "frozenset") and len(args) == 1 and not kw and args[0].kind in (
                "gen", "list", "tuple", "set"):
            return self.container("set", args[0].args)
        if n == "next" and not kw and args and args[0].kind == "gen" and len(
                args[0].args) == 1 and args[0].args[0].kind == "each":
            site, src, body = args[0].args[0].args
            c = TRUE
            while len(body) == 1 and body[0].kind == "segcond" and body[0].args[1] and not \
                    body[0].args[2]:
                c = simplify(T("and", c, body[0].args[0]))
                body = body[0].args[1]
            if len(body) == 1 and body[0].kind not in ("segcond", "each", "splat", "ext") and \
                    c is not TRUE:
                m = {}
                for x in subterms(body[0]):
                    if x.kind in ("elem", "idx") and x.args[-1] == site:
                        m[x] = T("call", T("ext", "next"), (T("gen", T("each", site, src, (T(
                            "segcond", c, (x,), ()),))),), ())
                from .terms import subst
                v = subst(body[0], m)
                if len(args) > 1:
                    v = ite(self.ext("any", (T("gen", T("each", site, src, (c,))),), ()), v, args[1])
                return v
        if n in ("numpy.multiply", "numpy.add", "numpy.subtract", "numpy.divide",
                 "numpy.true_divide", "numpy.matmul", "numpy.power") and len(args) == 2 and not kw:
            return self.go(T("bin", {"multiply": "*", "add": "+", "subtract": "-", "divide": "/",
                                     "true_divide": "/", "matmul": "@", "power": "**"}[
                                         n.split(".")[1]], *args))
        if n in OPERATORS and len(args) == 2 and not kw:
            return self.go(T("bin", OPERATORS[n], *args))
        if n == "operator.neg" and len(args) == 1:
            return T("un", "-", args[0])
        if n == "dict" and len(args) == 1 and not kw:
            x = args[0]
            if x.kind == "list" and len(x.args) == 1 and x.args[0].kind == "splat":
                x = x.args[0].args[0]
            if x.kind == "call" and x.args[0].kind == "ext" and x.args[0].args[0] == "zip" and len(
                    x.args[1]) == 2 and not x.args[2]:
                a, b = (_peel(y) for y in x.args[1])
                return T("dict", T("each", "zip", T("zip", a, b), (T(
                    "kv", T("elem", a, "zip"), T("elem", b, "zip")),)))
            if x.kind in ("gen", "list") and len(x.args) == 1 and x.args[0].kind == "each":
                y = x.args[0]
                body = tuple(self._kv(z) for z in y.args[2])
                if all(z is not None for z in body):
                    return T("dict", T("each", y.args[0], y.args[1], body))
        if n == "functools.reduce" and len(args) in (2, 3) and not kw and args[1].kind in (
                "list", "tuple", "gen") and args[1].args and all(
                    x.kind not in ("each", "splat", "segcond", "ext", "star") for x in args[1].args):
            xs = ([args[2]] if len(args) > 2 else []) + list(args[1].args)
            if len(xs) <= 6:
                v = xs[0]
                for x in xs[1:]:
                    v = self.apply2(args[0], v, x)
                return v
        if n == "reversed" and len(args) == 1 and not kw:
            return T("reversed", _peel(args[0]))
        return None

    def apply2(self, f, x, y):
        if f.kind == "ext" and f.args[0] in OPERATORS:
            return self.go(T("bin", OPERATORS[f.args[0]], x, y))
        return self.call(f, (x, y), ())

    def _kv(self, z):
        if z.kind == "segcond":
            a = tuple(self._kv(y) for y in z.args[1])
            b = tuple(self._kv(y) for y in z.args[2])
            return T("segcond", z.args[0], a, b) if all(a + b) else None
        if z.kind == "tuple" and len(z.args) == 2:
            return T("kv", *z.args)
        return None

    def _some(self, x, neg_):
        """The condition that some element listed by x is true (false)."""
        if x.kind == "each":
            inner = [self._some(y, neg_) for y in x.args[2]]
            if any(y is None for y in inner):
                return None
            c = simplify(T("or", *inner)) if inner else FALSE
            return T("call", T("ext", "any"), (T("gen", T("each", x.args[0], x.args[1], (c,))),), ())
        if x.kind == "segcond":
            a = [self._some(y, neg_) for y in x.args[1]]
            b = [self._some(y, neg_) for y in x.args[2]]
            if any(y is None for y in a + b):
                return None
            alt = [simplify(T("and", x.args[0], y)) for y in a] + [
                simplify(T("and", neg(x.args[0]), y)) for y in b]
            return simplify(T("or", *alt)) if alt else FALSE
        if x.kind in ("splat", "ext", "star", "kv"):
            if x.args[0].kind in ("call", "param", "attr", "item", "elem"):
                n = T("call", T("ext", "all" if neg_ else "any"), (x.args[0],), ())
                return neg(n) if neg_ else n
            return None
        return neg(x) if neg_ else x

    def _bind(self, fi, ps, args, kw):
        pos = [p[0] for p in ps if p[3] == "pos"]
        args, kw = list(args), dict(kw)
        for n in pos[len(args):]:
            if n in kw:
                args.append(kw.pop(n))
                continue
            d = [p[2] for p in ps if p[0] == n][0]
            if not isinstance(d, ast.Constant):
                break
            args.append(const(d.value))
        while args and pos[:len(args)] and len(args) <= len(pos):
            # defaults spelled out are dropped again
            d = [p[2] for p in ps if p[0] == pos[len(args) - 1]][0]
            if not isinstance(d, ast.Constant) or args[-1] is not const(d.value) or kw:
                break
            args.pop()
        return tuple(args), list(kw.items())


def _singleton(c):
    """A comparison that, when true, makes its sides the same object."""
    return c.args[0] == "is" and (c.args[2].kind == "const" or c.args[2].kind == "ext" and
                                  c.args[2].args[0] == "NotImplemented") or \
        c.args[0] == "==" and any(is_const(x) and isinstance(x.args[0], str) for x in c.args[1:])


def _replaced(t, x, y):
    if x.kind == "const" and y.kind != "const":
        x, y = y, x
    if not contains(t, x):
        return t
    from .terms import subst
    return subst(t, {x: y})


SEGS = {"each", "splat", "segcond", "ext", "star", "kv", "segmut"}
STRM = {"format", "join", "strip", "lower", "upper", "replace", "__str__", "__repr__", "lstrip",
        "rstrip", "title"}
SETOPS = {"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^"}


def _isset(t):
    return t.kind == "set" or t.kind == "call" and t.args[0].kind in ("ext", "cls") and \
        t.args[0].args[0] in ("set", "frozenset") or t.kind == "bin" and \
        t.args[0] in ("|", "&", "-", "^") and _isset(t.args[1])


def _text(t):
    """String built from pieces: adjacent literals merged, `+` and f-strings alike."""
    parts = []

    def lit(x):
        if parts and parts[-1].kind == "const":
            x = const(parts.pop().args[0] + x.args[0])
        if x.args[0]:
            parts.append(x)

    def go(x, piece):
        if x.kind == "const" and (isinstance(x.args[0], str) or piece and isinstance(
                x.args[0], int)):
            lit(const(str(x.args[0])))
        elif x.kind == "fstr":
            for y in x.args:
                if y.kind == "fmt" and y.args[1] in (-1, ord("s")) and not y.args[2]:
                    go(y.args[0], True)
                elif y.kind == "const":
                    lit(y)
                else:
                    parts.append(y)
        elif not piece and x.kind in ("bin", "inplace") and x.args[0] == "+":
            go(x.args[1], False)
            go(x.args[2], False)
        elif x.kind == "call" and x.args[0].kind in ("ext", "cls") and \
                x.args[0].args[0] == "str" and len(x.args[1]) == 1 and not x.args[2]:
            go(x.args[1][0], True)
        else:
            parts.append(T("fmt", x, -1, ""))
    go(t, False)
    if not parts:
        return const("")
    if len(parts) == 1 and parts[0].kind == "const":
        return parts[0]
    if len(parts) == 1 and parts[0].args[1] == -1 and not parts[0].args[2]:
        x = parts[0].args[0]
        if x.kind == "call" and x.args[0].kind == "attr" and x.args[0].args[1] in STRM:
            return x
    return T("fstr", *parts)


def _genleaves(t):
    if t.kind == "ite":
        return T("ite", t.args[0], _genleaves(t.args[1]), _genleaves(t.args[2]))
    return T("gen", *t.args) if t.kind == "list" else t


def _literals(c, v, m):
    """Boolean terms decided by c being v."""
    if c.kind == "not":
        _literals(c.args[0], not v, m)
    elif c.kind in ("and", "or"):
        if v == (c.kind == "and"):
            for x in c.args:
                _literals(x, v, m)
    elif c.kind in ("isinstance", "nonempty") or c.kind == "cmp":
        m[c] = TRUE if v else FALSE


def _under(t, conds, v):
    """t simplified inside the context where all conds are v."""
    if t.kind in ("const", "param", "attr") or not t.args:
        return t
    subs = None
    m = {}
    for c in conds:
        _literals(c, v, m)
    if not m:
        return t
    subs = set(subterms(t))
    m = {k: x for k, x in m.items() if k in subs and k is not t}
    if not m or not any(x.kind in ("ite", "segcond") for x in subs):
        return t
    from .terms import subst
    return subst(t, m)


def _peel(t):
    while True:
        if t.kind in ("list", "tuple", "gen") and len(t.args) == 1 and t.args[0].kind == "splat":
            t = t.args[0].args[0]
        elif t.kind == "call" and t.args[0].kind == "ext" and t.args[0].args[0] in (
                "list", "tuple", "iter") and len(t.args[1]) == 1:
            t = t.args[1][0]
        elif t.kind == "call" and t.args[0].kind == "attr" and t.args[0].args[1] == "keys" and \
                not t.args[1] and not t.args[2]:
            t = t.args[0].args[0]
        else:
            return t


_SK = {}


def skey(t):
    """Structural key ignoring loop sites, for ordering only."""
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ",".join(skey(x) for x in t) + ")"
        return repr(t)
    r = _SK.get(t)
    if r is None:
        a = t.args
        if t.kind in ("elem", "idx"):
            a = a[:1]
        elif t.kind in ("each", "iter", "while"):
            a = a[1:]
        elif t.kind in ("loopvar", "loopres"):
            a = a[2:]
        elif t.kind == "sofar":
            a = ()
        r = t.kind + "<" + ",".join(skey(x) for x in a) + ">"
        if len(r) > 400:
            import hashlib
            r = t.kind + hashlib.md5(r.encode()).hexdigest()
        _SK[t] = r
    return r


def _numeric(t):
    """Arithmetic that certainly concerns numbers: a numeric literal takes part."""
    return any(x.kind == "const" and isinstance(x.args[0], (int, float, complex))
               and not isinstance(x.args[0], bool) for x in (t.args[1], t.args[2])) or any(
        x.kind == "bin" and x.args[0] in ("+", "-", "*") and _numeric(x)
        for x in (t.args[1], t.args[2]))


def _linear(t):
    from .rules.util import lin
    d = lin(t)
    if t.args[0] == "*":
        # keep products unless one side is constant
        if len(d) == 1 and t in d:
            return t
    items = sorted(d.items(), key=lambda x: skey(x[0]) if x[0] is not None else "")
    if not items:
        return const(0)
    out = None
    for m, c in items:
        x = const(c) if m is None else (m if c == 1 else T("bin", "*", const(c), m))
        out = x if out is None else T("bin", "+", out, x)
    return out


def alpha(t, env=None):
    """Rename loop sites, loop variables and references by order of appearance."""
    env = {} if env is None else env
    memo = {}

    def nm(kind, key):
        k = (kind, key)
        if k not in env:
            env[k] = len([1 for x in env if x[0] == kind])
        return env[k]

    def rec(a):
        if isinstance(a, Term):
            return go(a)
        if isinstance(a, tuple):
            return tuple(rec(x) for x in a)
        return a

    def go(t):
        if t in memo:
            return memo[t]
        k, a = t.kind, t.args
        if k in ("elem", "idx"):
            s = rec(a[0])
            r = T(k, s, nm("s", a[1]) if len(a) > 1 else 0)
        elif k == "each":
            n = nm("s", a[0])
            r = T(k, n, rec(a[1]), rec(a[2]))
        elif k == "loopvar":
            r = T(k, nm("s", a[0]), nm("v", (a[0], a[1])), rec(a[2]))
        elif k == "loopres":
            n = nm("s", a[0])
            v = nm("v", (a[0], a[1]))
            r = T(k, n, v, *[rec(x) for x in a[2:]])
        elif k in ("iter", "while"):
            r = T(k, nm("s", a[0]), *[rec(x) for x in a[1:]])
        elif k == "sofar":
            r = T(k, nm("s", a[0]), nm("o", a[1]))
        elif k == "objref":
            r = T(k, nm("o", a[0]))
        elif k == "copied":
            r = T(k, a[0], rec(a[1]), nm("cp", a[2]) if len(a) > 2 else 0)
        elif k == "closure":
            r = T(k, nm("c", a[0]))
        elif k in ("exc", "loopmut") and a and isinstance(a[0], int):
            r = T(k, nm("s", a[0]), *[rec(x) for x in a[1:]])
        elif k == "const":
            r = t
        else:
            r = T(k, *[rec(x) for x in a])
        memo[t] = r
        return r

    return go(t)


def _sites(t):
    """(loop sites bound inside the term, all loop sites it mentions)."""
    bound, every = set(), set()
    for x in subterms(t):
        if x.kind in ("each", "loopres", "iter", "while"):
            bound.add(x.args[0])
            every.add(x.args[0])
        elif x.kind in ("loopvar", "sofar"):
            every.add(x.args[0])
        elif x.kind in ("elem", "idx") and len(x.args) > 1:
            every.add(x.args[1])
        elif x.kind in HAZYK or x.kind == "copied":
            return None
    return bound, every


def _alike(p, q):
    """The same value up to the names of loops both run inside."""
    if p is q:
        return True
    if p.kind != q.kind or skey(p) != skey(q) or alpha(p) is not alpha(q):
        return False
    u, v = _sites(p), _sites(q)
    return u is not None and v is not None and u[1] - u[0] == v[1] - v[0]


# ------------------------------------------------------------------- diffing
DEF, HAZE, STRONG, EDGE = "definite", "hazy", "strong", "special case"
HAZYK = {"closure", "unknown", "objref", "loopmut", "undef", "opq", "exc", "iter", "while"}


class Diff(list):
    pass


def _partial(t):
    """A callee that never returns normally takes part (an abstract method, say)."""
    if t.kind == "noreturn":
        return False
    r = _PART.get(t)
    if r is None:
        leaves, todo, r = [], [t], False
        while todo:
            x = todo.pop()
            if x.kind == "ite":
                leaves.append(x.args[0])
                todo.extend(x.args[1:])
            elif x.kind == "with":
                todo.append(x.args[0])
                leaves.extend(x.args[1])
            elif x.kind != "noreturn":
                leaves.append(x)
        r = any(x.kind == "noreturn" for y in leaves for x in subterms(y))
        _PART[t] = r
    return r


_PART = {}


def sites_erased(t):
    return skey(t)


def same(a, b):
    return a is b or skey(a) == skey(b)


BOOLK = ("ite", "and", "or", "not", "cmp", "isinstance", "nonempty")


def diff(a, b, out, path="", depth=0):
    """Append (class, path, current, reference) for every minimal difference."""
    if a is b or skey(a) == skey(b):
        return
    if not isinstance(a, Term) or not isinstance(b, Term):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return seqdiff(a, b, out, path, depth)
        out.append((DEF, path, a, b))
        return
    if depth > 60 or len(out) > 14 or _partial(a) or _partial(b):
        out.append((HAZE, path, a, b))
        return
    ka, kb = a.kind, b.kind
    if ka in HAZYK or kb in HAZYK:
        out.append((HAZE, path, a, b))
        return
    if ka == "with" or kb == "with":
        return withdiff(a, b, out, path, depth)
    if ka in BOOLK or kb in BOOLK:
        sub = decide(a, b, path, depth)
        if sub is not None:
            out.extend(sub)
            return
    if _arith(a) or _arith(b):
        sub = arith(a, b, path, depth)
        if sub is not None:
            out.extend(sub)
            return
    for x, y in ((a, b), (b, a)):
        if x.kind == "loopvar" and y.kind != "loopvar" and same(x.args[2], y):
            # the running value of the loop against the value it started with
            out.append((DEF, path + "/running value", a, b))
            return
    if ka == kb:
        return samekind(a, b, out, path, depth)
    if "noreturn" in (ka, kb):
        out.append((DEF, path, a, b))
        return
    if kb == "copied" and ka in ("param", "attr", "item", "elem", "larg") and same(
            b.args[1], a) and not _immutable(a):
        out.append((DEF if _escapes(path) else HAZE, path + "/copy", a, b))
        return
    for x, y in ((a, b), (b, a)):
        if wraps(x, y):
            out.append((DEF, path + "/extra operation", a, b))
            return
        if x.kind == "loopres" and same(x.args[3], y):
            out.append((DEF, path + "/loop without effect", a, b))
            return
        if x.kind == "each" and same(x.args[1], y):
            out.append((HAZE, path, a, b))
            return
    if {ka, kb} == {"segcond", ka if ka != "segcond" else kb}:
        x, y = (a, b) if ka == "segcond" else (b, a)
        if any(len(z) == 1 and same(z[0], y) for z in x.args[1:]):
            out.append((DEF, path + "/filter", a, b))
            return
    if ka in SIMPLE and kb in SIMPLE:
        # different leaves; fields and items may alias each other, so require leaves of
        # clearly different meaning
        out.append((DEF if _leafdiff(a, b) else judge(a, b), path, a, b))
        return
    if {ka, kb} <= {"const", "list", "dict", "tuple", "inst", "lambda", "fstr", "set", "bin",
                    "cmp"} and not ({ka, kb} <= {"list", "tuple", "gen", "set"}):
        if "const" in (ka, kb) and not _empties(a, b):
            out.append((DEF, path, a, b))
            return
    out.append((judge(a, b), path, a, b))


def _escapes(path):
    """The place holds an object that outlives the call (a result, a field, a stored item), and
    not an operand that is only read."""
    p = re.sub(r"^call of <\w+>", "", path)
    return not re.search(r"#| of |receiver|callee|/left|/right|/source|/cond|/over|/init|/step"
                         r"|/each|/item|/bin|/cmp|/loop", p)


def _immutable(t):
    return t.kind == "attr" and t.args[1].startswith(("n_", "num_", "number", "name", "call_number"))


def judge(a, b):
    why = definite(a, b, same)
    return STRONG if why in ("another element type", "a given function is not applied") else (
        DEF if why else HAZE)


def withdiff(a, b, out, path, depth):
    ca, sa = (a.args[0], a.args[1]) if a.kind == "with" else (a, ())
    cb, sb = (b.args[0], b.args[1]) if b.kind == "with" else (b, ())
    n = len(out)
    diff(ca, cb, out, path, depth + 1)
    if len(sa) == len(sb):
        for x, y in zip(sa, sb):
            diff(x.args[1], y.args[1], out, path + "/loop step", depth + 1)
    elif len(out) == n:
        out.append((HAZE, path + "/loop state", a, b))


# --------------------------------------------------- conditions and decisions
def _atom(t):
    """(key term, polarity) of an atomic condition."""
    if t.kind == "nonempty":
        return _peel(t.args[0]), True
    if t.kind == "call" and callname(t.args[0]) == "len" and len(t.args[1]) == 1:
        return _peel(t.args[1][0]), True
    if t.kind == "bin" and t.args[0] in ("%", "//") and not is_const(t.args[1]):
        key, pol = _atom(T("cmp", "==", t, const(0)))
        return key, not pol
    if t.kind == "cmp":
        op, x, y = t.args
        for u, v, sw in ((x, y, False), (y, x, True)):
            if u.kind == "call" and callname(u.args[0]) == "len" and is_const(v, 0) and u.args[1]:
                tgt = _peel(u.args[1][0])
                if op == "==":
                    return tgt, False
                if op == "<" and sw:      # 0 < len
                    return tgt, True
                if op == "<=" and not sw:  # len <= 0
                    return tgt, False
        if op in ("<", "<=", "==") and (_arith(x) or _arith(y)):
            from .rules.util import lin
            d = lin(T("bin", "-", x, y))
            items = sorted(((skey(m) if m is not None else "", m, c) for m, c in d.items()),
                           key=lambda z: z[0])
            if items and all(isinstance(c, (int, float)) for _, _, c in items):
                pol = True
                sign = 1
                if items[-1][2] < 0:
                    sign = -1
                if op == "==":
                    op2 = "=="
                elif sign > 0:
                    op2 = op
                else:  # -(e) < 0  <=>  not (e <= 0)
                    op2, pol = ("<=", False) if op == "<" else ("<", False)
                return T("lincmp", op2, tuple((m if m is not None else NONE, const(c * sign))
                                              for _, m, c in items)), pol
        if op == "<=":
            return T("cmp", "<", y, x), False
    return t, True


def _xor(t):
    """An exclusive or of conditions, as a decision."""
    if t.kind == "bin" and t.args[0] == "^" and isbool(t.args[1]) and isbool(t.args[2]):
        return T("ite", t.args[1], neg(t.args[2]), t.args[2])
    if t.kind == "cmp" and t.args[0] == "==" and all(
            x.kind in ("cmp", "not", "and", "or", "isinstance") for x in t.args[1:]):
        return T("ite", t.args[1], t.args[2], neg(t.args[2]))
    return t


def _atoms(t, acc, value=True):
    """Atomic conditions of a decision term."""
    t = _xor(t)
    k = t.kind
    if k == "const":
        return
    if k == "ite":
        _atoms(t.args[0], acc, False)
        _atoms(t.args[1], acc, value)
        _atoms(t.args[2], acc, value)
    elif k in ("and", "or"):
        for x in t.args:
            _atoms(x, acc, False)
    elif k == "not":
        _atoms(t.args[0], acc, False)
    elif not value or k in BOOLK:
        key, _ = _atom(t)
        acc.setdefault(skey(key), (key, t))


def _truth(t, env):
    t = _xor(t)
    k = t.kind
    if k == "const":
        return bool(t.args[0])
    if k == "ite":
        return _truth(t.args[1] if _truth(t.args[0], env) else t.args[2], env)
    if k == "and":
        return all(_truth(x, env) for x in t.args)
    if k == "or":
        return any(_truth(x, env) for x in t.args)
    if k == "not":
        return not _truth(t.args[0], env)
    key, pol = _atom(t)
    return env[skey(key)] == pol


def _leaf(t, env):
    """Value of a decision term under an assignment of its atoms."""
    k = t.kind
    if k == "ite":
        return _leaf(t.args[1] if _truth(t.args[0], env) else t.args[2], env)
    if k in ("cmp", "isinstance", "not", "nonempty"):
        return const(_truth(t, env))
    if k in ("and", "or"):
        for x in t.args[:-1]:
            if _truth(x, env) != (k == "and"):
                return _leaf(x, env) if x.kind in BOOLK else x
        return _leaf(t.args[-1], env) if t.args[-1].kind in BOOLK else t.args[-1]
    return t


def _decided(c, m):
    """A condition with some atoms decided (its truth only matters)."""
    if c.kind in ("and", "or"):
        xs = [_decided(x, m) for x in c.args]
        return conj(*xs) if c.kind == "and" else disj(*xs)
    if c.kind == "not":
        return neg(_decided(c.args[0], m))
    if c.kind in ("const", "ite"):
        return _restrict(c, m)
    key, pol = _atom(c)
    if skey(key) in m:
        return TRUE if m[skey(key)] == pol else FALSE
    return c


def _deep(t, env, memo=None):
    """The term with the conditions inside it decided by an assignment."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    k = t.kind

    def rec(a):
        if isinstance(a, Term):
            return _deep(a, env, memo)
        if isinstance(a, tuple):
            out = []
            for y in a:
                if isinstance(y, Term) and y.kind == "segcond":
                    c = _decided(y.args[0], env)
                    if c is TRUE or c is FALSE:
                        out.extend(rec(y.args[1 if c is TRUE else 2]))
                        continue
                y = rec(y)
                if isinstance(y, Term) and y.kind == "each" and y.args[1].kind in (
                        "list", "tuple", "dict", "set") and not y.args[1].args:
                    continue
                out.append(y)
            return tuple(out)
        return a

    if k in ("const", "param", "larg", "ext", "func", "cls") or not any(
            x.kind in ("ite", "segcond") for x in subterms(t)):
        r = t
    elif k == "ite":
        c = _decided(t.args[0], env)
        if c is TRUE or c is FALSE:
            r = _deep(t.args[1 if c is TRUE else 2], env, memo)
        else:
            r = simplify(T(k, rec(c), rec(t.args[1]), rec(t.args[2])))
    else:
        new = rec(t.args)
        r = t if new == t.args else simplify(T(k, *new))
    memo[t] = r
    return r


def _innerconds(t):
    """Atoms of the conditions anywhere inside a term."""
    acc = {}
    for x in subterms(t):
        if x.kind in ("ite", "segcond"):
            _atoms(x.args[0], acc, False)
    return acc


def _infeasible(pos):
    """pos: [(atom key term, truth value)]"""
    isnone, eqs = set(), {}
    for k, v in pos:
        if k.kind == "cmp" and k.args[0] == "is" and is_const(k.args[2], None) and v:
            isnone.add(skey(k.args[1]))
        if k.kind == "cmp" and k.args[0] == "==" and v:
            for x, y in ((k.args[1], k.args[2]), (k.args[2], k.args[1])):
                if y.kind == "const":
                    eqs.setdefault(skey(x), set()).add(repr(y.args[0]))
    if any(len(s) > 1 for s in eqs.values()):
        return True
    kinds = [(skey(k.args[0]), k.args[1], v) for k, v in pos
             if k.kind == "isinstance" and isinstance(k.args[1], Term)]
    for x, c, v in kinds:
        if v:
            for y, d, w in kinds:
                if x == y and c is not d and (_disjoint(c, d) if w else _within(c, d)):
                    return True
    for k, v in pos:
        if v and skey(k) in isnone:
            return True
        if v and k.kind == "isinstance" and skey(k.args[0]) in isnone:
            return True
    return False


def _numvar(key):
    """The one quantity a comparison with a number is about."""
    n = _numtest(key)
    return None if n is None else n[0]


_NT = {}


def _numtest(key):
    """(quantity key, quantity, coefficient, constant, operator) of an atom."""
    if key in _NT:
        return _NT[key]
    r = None
    if key.kind == "lincmp":
        ms = [(m, c.args[0]) for m, c in key.args[1] if m is not NONE]
        k = [c.args[0] for m, c in key.args[1] if m is NONE]
        if len(ms) == 1 and all(isinstance(x, (int, float)) for x in [ms[0][1]] + k):
            v = _lenof(bare(ms[0][0]))
            r = skey(v), v, ms[0][1], (k or [0])[0], key.args[0]
    elif key.kind in ("param", "attr", "item", "elem", "each", "list", "dict", "set", "call",
                      "tuple", "gen") and not isbool(key):
        ln = _lenof(T("call", T("ext", "len"), (key,), ()))
        r = skey(ln), ln, 1, 0, ">"
    _NT[key] = r
    return r


def _lenof(v):
    """len(d.get(k, [])) asks the same as len(d.get(k)) where that is something."""
    if v.kind == "call" and callname(v.args[0]) == "len" and len(v.args[1]) == 1:
        x = bare(v.args[1][0])
        if x.kind == "call" and x.args[0].kind == "attr" and x.args[0].args[1] == "get" and len(
                x.args[1]) == 2 and _empties(x.args[1][1], x.args[1][1]):
            x = T("call", x.args[0], x.args[1][:1], ())
        return T("call", v.args[0], (x,), ())
    return v


def _natural(v):
    return v.kind == "call" and callname(v.args[0]).split(".")[-1] in (
        "len", "count", "bit_length", "abs", "size", "count_nonzero")


def _numfeasible(pos):
    """0: no number satisfies the comparisons; 1: only negative ones do; 2: some do."""
    g = {}
    for k, v in pos:
        n = _numtest(k)
        if n is not None:
            g.setdefault(n[0], []).append((n, v))
    res = 2
    for ts in g.values():
        if len(ts) < 2:
            continue
        var = ts[0][0][1]
        th = sorted({-n[3] / n[2] for n, _ in ts})
        pts = {t + d for t in th for d in (-1, 0, 1)}
        if any(t != int(t) for t in th):
            pts |= {t + d for t in th for d in (-0.5, 0.5)}
        ok = set()
        for x in pts:
            if _natural(var) and x < 0:
                continue
            if all({"<": n[2] * x + n[3] < 0, "<=": n[2] * x + n[3] <= 0,
                    "==": n[2] * x + n[3] == 0, ">": n[2] * x + n[3] > 0}[n[4]] == v
                   for n, v in ts):
                ok.add(x)
        if not ok:
            return 0
        if all(x < 0 for x in ok) and var.kind != "param" and th[0] >= 0:
            res = 1
    return res


BUILTIN = {"str", "int", "float", "complex", "dict", "list", "tuple", "set", "bytes", "frozenset",
           "bool", "NoneType"}
WITHIN = {("bool", "int"), ("int", "numbers.Number"), ("float", "numbers.Number"),
          ("complex", "numbers.Number"), ("bool", "numbers.Number")}


def _within(c, d):
    """Every instance of c is an instance of d."""
    if c.kind == d.kind == "ext":
        return (c.args[0], d.args[0]) in WITHIN
    if c.kind == d.kind == "cls":
        p = core.program()
        x, y = p.classes.get(c.args[0]), p.classes.get(d.args[0])
        return x is not None and y is not None and p.is_subclass(x, y)
    return False


def _disjoint(c, d):
    """No object is an instance of both."""
    if _within(c, d) or _within(d, c):
        return False
    if c.kind == d.kind == "ext":
        return c.args[0] in BUILTIN and (
            d.args[0] in BUILTIN or d.args[0].startswith("sympy.")
            or d.args[0] == "numpy.ndarray") or d.args[0] in BUILTIN and (
            c.args[0].startswith("sympy.") or c.args[0] == "numpy.ndarray")
    p = core.program()
    if c.kind == d.kind == "cls":
        x, y = p.classes.get(c.args[0]), p.classes.get(d.args[0])
        if x is None or y is None or any("Protocol" in p.ext_bases(z) for z in (x, y)):
            return False
        return not set([x] + list(p.subclasses(x))) & set([y] + list(p.subclasses(y)))
    if {c.kind, d.kind} == {"cls", "ext"}:
        k, e = (c, d) if c.kind == "cls" else (d, c)
        x = p.classes.get(k.args[0])
        if x is None or e.args[0] not in BUILTIN:
            return False
        return not any(p.ext_bases(z) - {"object", "ABC", "Generic", "Enum"}
                       for z in [x] + list(p.subclasses(x)))
    return False


def _implied(c, v):
    """Truth values of atoms that follow from the condition c being v."""
    if c.kind == "not":
        return _implied(c.args[0], not v)
    if c.kind in ("and", "or"):
        if v == (c.kind == "and"):
            m = {}
            for x in c.args:
                m.update(_implied(x, v))
            return m
        return {}
    if c.kind in ("const", "ite"):
        return {}
    key, pol = _atom(c)
    return {skey(key): v == pol}


def _restrict(t, m):
    """The decision term with some atoms decided."""
    k = t.kind
    if not m or k == "const":
        return t
    if k == "ite":
        c = _restrict(t.args[0], m)
        if c is TRUE:
            return _restrict(t.args[1], m)
        if c is FALSE:
            return _restrict(t.args[2], m)
        return T("ite", c, _restrict(t.args[1], m), _restrict(t.args[2], m))
    if k in ("and", "or"):
        xs = [_restrict(x, m) for x in t.args]
        return conj(*xs) if k == "and" else disj(*xs)
    if k == "not":
        return neg(_restrict(t.args[0], m))
    key, pol = _atom(t)
    if k in BOOLK and skey(key) in m:
        return TRUE if m[skey(key)] == pol else FALSE
    return t


def conddiff(a, b, out, path, depth=0, context=()):
    """Differences of two terms of which only the truth value counts; the context is what
    they decide about."""
    if same(a, b):
        return
    if any(x.kind in HAZYK or x.kind == "with" or _partial(x) for x in (a, b)):
        x, y = (a, b) if a.kind in ("and", "or") else (b, a)
        if x.kind not in ("and", "or") or not any(same(y, z) for z in x.args) or _partial(x):
            return diff(a, b, out, path, depth)
    sub = decide(a, b, path, depth, True, context)
    if sub is None:
        return diff(a, b, out, path, depth)
    out.extend(sub)


def decide(a, b, path, depth, boolean=False, context=()):
    """Differences of two decision terms, as functions of their atomic conditions."""
    A, B = {}, {}
    _atoms(a, A, not boolean)
    _atoms(b, B, not boolean)
    ua = [k for k in A if k not in B]
    ub = [k for k in B if k not in A]
    va, vb = {_numvar(x[0]) for x in A.values()}, {_numvar(x[0]) for x in B.values()}
    na = [k for k in ua if _numvar(A[k][0]) and _numvar(A[k][0]) in vb]
    nb = [k for k in ub if _numvar(B[k][0]) and _numvar(B[k][0]) in va]
    ua, ub = [k for k in ua if k not in na], [k for k in ub if k not in nb]
    out = []
    ident = {}
    boolish = boolean or a.kind in (
        "and", "or", "not", "cmp", "isinstance", "nonempty") and b.kind in (
        "and", "or", "not", "cmp", "isinstance", "nonempty")
    if ua and ub:
        if a.kind in ("cmp", "isinstance", "nonempty") and b.kind == a.kind:
            return None  # structural comparison of the two atoms
        if len(ua) != len(ub):
            return [(HAZE, path + "/conditions", a, b)]
        left = list(ub)
        for k in ua:
            best = None
            for j in left:
                sub = []
                samekind_or_diff(A[k][1], B[j][1], sub, path + "/cond", depth + 1)
                score = (any(x[0] == HAZE for x in sub), len(sub))
                if best is None or score < best[0]:
                    best = (score, j, sub)
            left.remove(best[1])
            ident[k] = best[1]
            out.extend(best[2])
            if not best[2]:
                pass
    union = dict(B)
    ua, ub = ua + na, ub + nb
    for k in ua:
        if k not in ident:
            union[k] = A[k]
    keys = list(union)
    if len(keys) > 13:
        if ident:
            return None
        if a.kind == b.kind == "ite" and same(a.args[0], b.args[0]):
            for j, v in ((1, True), (2, False)):
                m = _implied(a.args[0], v)
                diff(simplify(_restrict(a.args[j], m)), simplify(_restrict(b.args[j], m)), out,
                     path + "/ite", depth + 1)
            return out
        return [(HAZE, path + "/many conditions", a, b)]
    pairs, la, lb = {}, {}, {}
    for m in range(1 << len(keys)):
        env = {k: bool(m >> j & 1) for j, k in enumerate(keys)}
        pos = [(union[k][0], env[k]) for k in keys]
        if _infeasible(pos):
            continue
        fe = _numfeasible(pos)
        if not fe:
            continue
        enva = dict(env)
        for k, j in ident.items():
            pk = _atom(A[k][1])[1] == _atom(B[j][1])[1]
            enva[k] = env[j] if pk else not env[j]
        x, y = _deep(_leaf(a, enva), enva), _deep(_leaf(b, env), env)
        if boolish:
            x, y = const(_truth(a, enva)), const(_truth(b, env))
        else:
            x, y = _known(x, enva, A), _known(y, env, B)
        la[skey(x)] = x
        lb[skey(y)] = y
        if skey(x) != skey(y) and x.kind != "noreturn" and y.kind != "noreturn":
            kk = (skey(x), skey(y))
            if kk not in pairs or pairs[kk][3] and fe == 2:
                pairs[kk] = (x, y, env, fe == 1)
    ua, ub = [k for k in ua if k not in na], [k for k in ub if k not in nb]
    paired = any(x[0] == HAZE for x in out)
    extra = []
    if not ident:
        inner = _innerconds(b if ua else a)
        extra = [union[k][1] for k in (ua or ub) if k not in inner]
    others = [union[k][1] for k in keys if k not in (ua or ub)]
    telling = bool(extra) and all(_nonezero(c, others + extra) for c in extra)
    certain = False
    if extra and len(pairs) > 1:
        for x, y, env, weak in pairs.values():
            sub = []
            if not weak and len(pairs) < 9:
                diff(x, y, sub, path, depth + 1)
            certain = certain or bool(sub) and all(z[0] in (DEF, STRONG) for z in sub)
    for (kx, ky), (x, y, env, weak) in pairs.items():
        if _asbool(x, env) is not None and _asbool(x, env) == _asbool(y, env) and (
                x.kind != "const" or y.kind != "const"):
            if all(z.kind == "const" or _predicate(z) for z in (x, y)):
                continue
            out.append((HAZE, path + "/truth value", x, y))
            continue
        if x.kind == "const" and y.kind == "const":
            cl = DEF
            if path.startswith("condition of ") and "error" not in path and extra and all(
                    _several(c) for c in extra):
                pass
            elif extra and not telling and all(_trivialcond(c) for c in extra) and any(
                    _degenerate(c, env) and _concerns(c, others + list(context)) for c in extra):
                cl = EDGE
            if weak or paired:
                cl = HAZE
            out.append((cl, path + "/condition", a, b))
            continue
        if kx in lb and ky in la and not ident:
            out.append((DEF, path + "/branches", a, b))
            continue
        if extra:
            flip = {k: not v if any(union[k][1] is c for c in extra) else v
                    for k, v in env.items()}
            if skey(_deep(_leaf(a, flip), flip)) != skey(_deep(_leaf(b, flip), flip)):
                # not this case alone: the values differ without it as well
                sub = []
                diff(x, y, sub, path + "/case", depth + 1)
                if any(z[0] == HAZE for z in sub) and not certain:
                    out.extend(sub)
                    continue
        if extra:
            # a case added or lost
            if weak or any(_hazy(c) for c in extra):
                out.append((HAZE, path + "/case", x, y))
                continue
            triv = not telling and all(_trivialcond(c) for c in extra) and any(
                _degenerate(c, env) and _concerns(c, [x, y] + others) for c in extra)
            cl = DEF if _apart(x, y) else None
            for other, keep in ((x, y), (y, x)) if cl is None else ():
                if _trivialval(other):
                    cl = EDGE if triv else cl
            if any(p.kind == "const" and p.args[0] and not isinstance(p.args[0], bool)
                   and env.get(skey(_atom(q)[0])) is False for p, q in ((x, y), (y, x))):
                cl = DEF  # a value known to be falsy against one that is not
            if any(p.kind in ("dict", "list", "tuple") and not p.args and q.kind == "call"
                   and callname(q.args[0]) in ("get", "pop") and (
                       len(q.args[1]) == 1 or is_const(q.args[1][1], None))
                   for p, q in ((x, y), (y, x))):
                cl = DEF  # nothing found against an empty container
            if cl is None:
                sub = []
                diff(x, y, sub, path + "/case", depth + 1)
                if not sub:
                    continue
                cl = HAZE if any(z[0] == HAZE for z in sub) and (
                    triv or _hazy(x) or _hazy(y) or any(
                        z.kind in ("loopres", "loopvar") for z in subterms(x))) else DEF
            out.append((cl, path + "/case", x, y))
            continue
        diff(x, y, out, path + "/case", depth + 1)
        if len(out) > 14:
            break
    if any(x[0] == DEF for x in out):
        # the generic case differs; the special one adds nothing
        out = [x for x in out if x[0] != EDGE]
    return [(HAZE if x[0] == EDGE else x[0],) + x[1:] for x in out]


def _several(c):
    """A test for more than one element."""
    x, pol = _atom(c)
    if x.kind == "lincmp":
        ms = {m: k.args[0] for m, k in x.args[1]}
        return len(ms) == 2 and abs(ms.pop(NONE, 0)) >= 1 and all(
            m.kind == "call" and callname(m.args[0]) == "len" for m in ms)
    return x.kind == "cmp" and x.args[0] == "<" and any(
        is_const(u) and u.args[0] in (1, 2) and callname(v.args[0]) == "len"
        for u, v in (x.args[1:], x.args[:0:-1]) if v.kind == "call")


def _known(x, env, atoms):
    """A value that the tested conditions fix."""
    if x.kind not in ("param", "attr", "larg", "item", "elem"):
        return x
    k = skey(x)
    for key, v in env.items():
        if v and key in atoms:
            c = atoms[key][0]
            if c.kind == "cmp" and c.args[0] in ("is", "==") and k in (
                    skey(c.args[1]), skey(c.args[2])):
                o = c.args[2] if skey(c.args[1]) == k else c.args[1]
                if is_const(o, None, 0):
                    return o
    return x


def _nonezero(c, others):
    """A test of a number for None where the other side tests it for zero, or vice versa."""
    def parts(x):
        if x.kind == "not":
            x = x.args[0]
        if x.kind == "cmp" and x.args[0] in ("is", "=="):
            for y, z in (x.args[1:], x.args[:0:-1]):
                if is_const(z, None, 0):
                    return skey(y), z.args[0]
        return None
    p = parts(c)
    return p is not None and any(q is not None and q[0] == p[0] and q[1] != p[1]
                                 for q in map(parts, others))


def _concerns(c, ts):
    """The tested thing takes part in the given terms."""
    k, _ = _atom(c)
    n = _numtest(k)
    if n is not None:
        k = n[1]
    todo, subj = [k], []
    while todo:
        x = bare(todo.pop())
        if x.kind == "cmp":
            todo += [z for z in x.args[1:] if z.kind != "const"]
        elif x.kind == "lincmp":
            todo += [m for m, _ in x.args[1] if m is not NONE]
        elif x.kind == "call" and callname(x.args[0]) == "len" and x.args[1]:
            todo.append(x.args[1][0])
        elif x.kind in ("not", "nonempty"):
            todo.append(x.args[0])
        else:
            subj.append(x)
    if any(x.kind not in ("param", "attr", "item", "elem", "each") for x in subj):
        return True
    keys = {skey(x) for x in subj}
    return any(skey(z) in keys for t in ts for z in subterms(t))


def _predicate(t):
    """A term whose value is a truth value."""
    if isbool(t):
        return True
    if t.kind == "call" and t.args[0].kind == "func":
        n = t.args[0].args[0].split(".")[-1].lstrip("_")
        fi = core.program().funcs.get(t.args[0].args[0]) or ref_program().funcs.get(
            t.args[0].args[0])
        r = getattr(fi.node, "returns", None) if fi is not None else None
        return n.startswith(("is_", "are_", "has_", "all_", "any_")) or (
            isinstance(r, ast.Name) and r.id == "bool")
    return False


def _asbool(x, env):
    if x.kind == "const":
        return x.args[0] if isinstance(x.args[0], bool) else None
    key, pol = _atom(x)
    v = env.get(skey(key))
    return None if v is None else v == pol


def samekind_or_diff(a, b, out, path, depth):
    if a.kind == b.kind:
        samekind(a, b, out, path, depth)
    elif {a.kind, b.kind} <= {"nonempty", "param", "attr", "cmp", "isinstance", "call"}:
        out.append((judge(a, b), path, a, b))
    else:
        diff(a, b, out, path, depth)


def _trivialcond(c):
    """Conditions under which an early exit usually changes nothing (emptiness, None)."""
    k, _ = _atom(c)
    if c.kind in ("nonempty", "param", "attr") or k.kind in ("list", "dict", "set", "gen"):
        return True
    if k is not c and k.kind not in ("cmp", "lincmp"):
        return True
    if c.kind == "cmp":
        return any(is_const(x, 0, 1, None, 0.0, 1.0) for x in c.args[1:])
    return c.kind in ("call", "item", "elem")


def _degenerate(c, env):
    """The condition is on the side where a special case may agree with the general one."""
    if not _trivialcond(c):
        return False
    k, pol = _atom(c)
    v = env.get(skey(k))
    if v is None:
        return True
    v = v == pol
    if c.kind == "nonempty":
        return not v
    if c.kind == "cmp" and c.args[0] in ("==", "is"):
        return v
    if c.kind == "cmp":
        # small values are the special ones
        x, y = c.args[1], c.args[2]
        if x.kind == "const" and v or y.kind == "const" and not v:
            return False
        return True
    if c.kind in ("param", "attr", "item", "elem"):
        return not v
    return True


def _trivialval(v):
    return v.kind in ("list", "dict", "tuple", "set") and not v.args or v.kind in (
        "const", "param", "attr", "undef")


# ----------------------------------------------------------------- arithmetic
def _arith(t):
    return (t.kind in ("bin", "inplace") and t.args[0] in ("+", "-", "*", "/", "**")) or (
        t.kind == "un" and t.args[0] in ("-", "+")) or (
        t.kind == "const" and isinstance(t.args[0], (int, float, complex))
        and not isinstance(t.args[0], bool))


class _Big(Exception):
    pass


def _pmul(p, q):
    if len(p) * len(q) > 400:
        raise _Big
    out = {}
    for m, c in p.items():
        for n, d in q.items():
            e = dict(m)
            for k, x in n:
                e[k] = e.get(k, 0) + x
            key = tuple(sorted((k, x) for k, x in e.items() if x))
            out[key] = out.get(key, 0) + c * d
    return {m: c for m, c in out.items() if abs(c) > 1e-12}


def _padd(p, q, s=1):
    out = dict(p)
    for m, c in q.items():
        out[m] = out.get(m, 0) + s * c
    return {m: c for m, c in out.items() if abs(c) > 1e-12}


def _rat(t, atoms, ren):
    """(numerator, denominator) polynomials over atoms."""
    k = t.kind
    if k == "const" and _arith(t):
        return ({(): t.args[0]} if t.args[0] else {}), {(): 1}
    if k == "un" and t.args[0] in "+-":
        n, d = _rat(t.args[1], atoms, ren)
        return ({m: -c for m, c in n.items()} if t.args[0] == "-" else n), d
    if k in ("bin", "inplace"):
        op = t.args[0]
        if op in ("+", "-"):
            (n1, d1), (n2, d2) = _rat(t.args[1], atoms, ren), _rat(t.args[2], atoms, ren)
            if d1 == d2:
                return _padd(n1, n2, 1 if op == "+" else -1), d1
            return _padd(_pmul(n1, d2), _pmul(n2, d1), 1 if op == "+" else -1), _pmul(d1, d2)
        if op == "*":
            (n1, d1), (n2, d2) = _rat(t.args[1], atoms, ren), _rat(t.args[2], atoms, ren)
            return _pmul(n1, n2), _pmul(d1, d2)
        if op == "/":
            (n1, d1), (n2, d2) = _rat(t.args[1], atoms, ren), _rat(t.args[2], atoms, ren)
            return _pmul(n1, d2), _pmul(d1, n2)
        if op == "**" and t.args[2].kind == "const" and isinstance(
                t.args[2].args[0], int) and 0 <= t.args[2].args[0] <= 4 and                 t.args[1].kind != "const":
            n, d = {(): 1}, {(): 1}
            n1, d1 = _rat(t.args[1], atoms, ren)
            for _ in range(t.args[2].args[0]):
                n, d = _pmul(n, n1), _pmul(d, d1)
            return n, d
    key = skey(t)
    key = ren.get(key, key)
    atoms[key] = t
    return {((key, 1),): 1}, {(): 1}


def arith(a, b, path, depth):
    try:
        A, B = {}, {}
        ra, rb = _rat(a, A, {}), _rat(b, B, {})
        ua = [k for k in A if k not in B]
        ub = [k for k in B if k not in A]
        out = []
        ren = {}
        if ua or ub:
            for X, us, t, o in ((A, ua, a, rb), (B, ub, b, ra)):
                for k in us:
                    e = _wrapped(X[k])
                    if e is not None and _samerat(_rat(_put(t, {skey(X[k]): e}, {}), {}, {}), o):
                        return [(DEF, path + "/" + callname(X[k].args[0]), a, b)]
                if us and len(us) <= 3 and all(_either(X[k]) for k in us) and any(
                        _samerat(_rat(_put(t, {skey(X[k]): v for k, v in zip(us, vs)}, {}), {}, {}),
                                 o) for vs in itertools.product(*(_either(X[k]) for k in us))):
                    return [(DEF, path + "/max", a, b)]
        if ua and ub:
            if len(ua) != len(ub):
                return [(judge(a, b), path, a, b)]
            if len(ua) == 1 and A[ua[0]] is a and B[ub[0]] is b:
                return None
            left = list(ub)
            for k in ua:
                best = None
                for j in left:
                    x, y = A[k], B[j]
                    sub = []
                    if x.kind == y.kind:
                        samekind(x, y, sub, path, depth + 1)
                    else:
                        diff(x, y, sub, path, depth + 1)
                    score = (any(z[0] == HAZE for z in sub), len(sub))
                    if best is None or score < best[0]:
                        best = (score, j, sub)
                left.remove(best[1])
                ren[k] = best[1]
                out.extend(best[2])
            if any(x[0] == HAZE for x in out):
                return out
            ra = _rat(a, {}, ren)
        elif ua or ub:
            extra = [A[k] for k in ua] + [B[k] for k in ub]
            return [(HAZE if any(_hazy(x) for x in extra) else DEF, path, a, b)]
        l, r = _pmul(ra[0], rb[1]), _pmul(rb[0], ra[1])
        d = _padd(l, r, -1)
        if d:
            out.append((DEF, path, a, b))
            return out
        if out:
            return out
        if any(_seqsum(t) for t in (a, b)) and _summands(a) != _summands(b) and sorted(
                _summands(a)) == sorted(_summands(b)):
            return out + [(DEF, path + "/operand order", a, b)]
        if _commutes(a) and _commutes(b):
            return out
        return out + [(HAZE, path + "/operand order", a, b)]
    except (_Big, OverflowError):
        return None


def _wrapped(t):
    """The operand of a function that changes numbers."""
    if t.kind == "call" and t.args[0].kind == "ext" and len(t.args[1]) == 1 and not t.args[
            2] and callname(t.args[0]).split(".")[-1] in (
                "abs", "sqrt", "exp", "log", "log2", "log10", "sin", "cos"):
        return t.args[1][0]
    return None


def _either(t):
    """The two numbers, neither of them a constant, of which the larger or smaller is taken."""
    if t.kind == "call" and t.args[0].kind == "ext" and len(t.args[1]) == 2 and not t.args[
            2] and callname(t.args[0]) in ("max", "min") and all(
                x.kind != "const" for x in t.args[1]):
        return t.args[1]
    return ()


def _larger(c, p, q):
    """`p if x < y else q` as the larger or smaller of the two."""
    if c.kind == "not" and c.args[0].kind == "cmp":
        c, p, q = c.args[0], q, p
    if c.kind != "cmp" or c.args[0] not in ("<", "<="):
        return None
    x, y = c.args[1:]
    if is_const(x) and is_const(y):
        return None
    ks = [skey(z) for z in (x, y, p, q)]
    if ks[0] == ks[1] or set(ks[:2]) != set(ks[2:]):
        return None
    return T("call", T("ext", "max" if ks[2] == ks[1] else "min"),
             tuple(sorted((x, y), key=skey)), ())


def _samerat(p, q):
    return not _padd(_pmul(p[0], q[1]), _pmul(q[0], p[1]), -1)


def _apart(a, b):
    """Two numbers that differ by a constant."""
    if not (_arith(a) or _arith(b)):
        return False
    try:
        (n, d), (m, e) = _rat(a, {}, {}), _rat(b, {}, {})
        return d == e == {(): 1} and set(_padd(n, m, -1)) == {()}
    except (_Big, OverflowError):
        return False


def _seqsum(t):
    """A sum in which a list, tuple or string takes part."""
    if t.kind in ("bin", "inplace") and t.args[0] == "+":
        return any(_isseq(x) or _seqsum(x) for x in t.args[1:])
    return False


def _summands(t):
    if t.kind in ("bin", "inplace") and t.args[0] == "+":
        return _summands(t.args[1]) + _summands(t.args[2])
    return [skey(t)]


def _isseq(t):
    ms = members(_type(t)) if t.kind in ("param", "larg", "attr", "item", "elem") else ()
    return bool(ms) and all(m[0] in ("list", "tuple", "vtuple") for m in ms) or t.kind in ("list", "tuple", "fstr") or is_const(t) and isinstance(t.args[0], str) or (
        t.kind == "bin" and t.args[0] == "*" and any(_isseq(x) for x in t.args[1:]))


def _commutes(t):
    """Reordering is harmless: numbers take part, or only sums of calls of numeric functions."""
    return any(x.kind == "const" and _arith(x) for x in subterms(t))


def _empties(a, b):
    return all((x.kind in ("list", "dict", "tuple", "set") and not x.args) or x.kind == "const"
               for x in (a, b))


def _leafdiff(a, b):
    ka, kb = a.kind, b.kind
    if "const" in (ka, kb):
        return True
    if {ka, kb} == {"param", "attr"} or {ka, kb} == {"param", "item"} or {ka, kb} == {
            "param", "elem"}:
        return True
    if {ka, kb} <= {"func", "cls", "ext"}:
        return False
    if {ka, kb} <= {"elem", "item", "idx"}:
        if {ka, kb} == {"elem", "item"}:
            x = a if ka == "item" else b
            return is_const(x.args[1]) and same(bare(a.args[0]), bare(b.args[0]))
        return "idx" in (ka, kb)
    return False


def wraps(x, y):
    """x is y with one more arithmetic/ordering operation applied."""
    if x.kind == "bin" and (same(x.args[1], y) or same(x.args[2], y)):
        return True
    if x.kind == "un" and same(x.args[1], y):
        return True
    if x.kind == "call" and x.args[0].kind == "ext" and x.args[0].args[0] in (
            "reversed", "abs", "sorted", "numpy.abs", "numpy.real", "numpy.conj", "numpy.conjugate",
            "numpy.transpose", "numpy.round", "round", "numpy.flip", "numpy.sort", "numpy.sqrt",
            "numpy.exp", "numpy.log", "set", "numpy.unique", "numpy.imag") and any(
                same(z, y) for z in x.args[1][:1]):
        return True
    if x.kind in ("reversed", "sorted", "filtered") and same(x.args[0], y):
        return True
    if x.kind == "call" and x.args[0].kind == "attr" and same(x.args[0].args[0], y) and \
            x.args[0].args[1] in ("conj", "conjugate", "transpose", "adjoint", "real", "bind",
                                  "dagger", "controlled", "strip", "lower", "upper"):
        return True
    if x.kind == "attr" and x.args[1] in ("T", "real", "imag", "dagger", "H") and same(
            x.args[0], y):
        return True
    if x.kind == "item" and x.args[1].kind == "slice" and same(x.args[0], y):
        return True
    return False


def samekind(a, b, out, path, depth):
    k = a.kind
    A, B = a.args, b.args
    d = depth + 1
    if k == "const":
        if type(A[0]) in (int, float) and type(B[0]) in (int, float) and A[0] == B[0]:
            return
        if isinstance(A[0], str) and isinstance(B[0], str) and path.endswith("/message"):
            return
        out.append((DEF, path, a, b))
        return
    if k in ("param", "larg", "modconst", "classconst"):
        out.append((DEF, path, a, b))
        return
    if k in ("func", "cls", "ext", "module", "missing", "undefname"):
        out.append((DEF, path, a, b))
        return
    if k == "attr":
        if A[1] != B[1]:
            out.append((DEF if same(A[0], B[0]) else judge(a, b), path, a, b))
            return
        return diff(A[0], B[0], out, path + "." + A[1], d)
    if k in ("elem", "idx"):
        return diff(A[0], B[0], out, path + "/each", d)
    if k in ("bin", "cmp", "inplace"):
        ops = A[0] == B[0]
        l, r = same(A[1], B[1]), same(A[2], B[2])
        if not ops and l and r:
            out.append((DEF, path, a, b))
            return
        if ops and not l and not r:
            if same(A[1], B[2]) and same(A[2], B[1]):
                if A[0] in ("-", "/", "//", "%", "**", "@", "<", "<=", "in"):
                    out.append((DEF, path + "/swapped", a, b))
                elif A[0] in ("==", "is"):
                    return
                else:
                    out.append((HAZE, path + "/swapped", a, b))
                return
        if not ops and k == "cmp" and same(A[1], B[2]) and same(A[2], B[1]):
            out.append((DEF, path, a, b))
            return
        if not ops:
            out.append((judge(a, b), path, a, b))
            return
        if k == "cmp" and A[0] in ("==", "is") and (same(A[1], B[2]) or same(A[2], B[1])):
            B = B[0], B[2], B[1]
        diff(A[1], B[1], out, path + "/left", d)
        diff(A[2], B[2], out, path + "/right", d)
        return
    if k == "un":
        if A[0] != B[0]:
            out.append((DEF, path, a, b))
            return
        return diff(A[1], B[1], out, path, d)
    if k in ("and", "or", "ite"):
        if len(A) == len(B):
            for j, (x, y) in enumerate(zip(A, B)):
                if k == "ite" and j == 0:
                    conddiff(x, y, out, path + "/ite", d, A[1:] + B[1:])
                else:
                    diff(x, y, out, path + "/" + k, d)
        else:
            out.append((HAZE, path, a, b))
        return
    if k == "lincmp":
        out.append((DEF, path, a, b))
        return
    if k == "inst":
        if A[0] != B[0]:
            loc = "<locals>" in A[0] or "<locals>" in B[0]
            out.append((HAZE if loc else DEF, path, a, b))
            return
        fa, fb = dict(A[1]), dict(B[1])
        if set(fa) != set(fb):
            out.append((HAZE if len(fa) == len(fb) else DEF, path + "/fields", a, b))
            return
        for n in fa:
            diff(fa[n], fb[n], out, f"{path}.{n}", d)
        return
    if k == "call":
        na, nb = callname(A[0]), callname(B[0])
        if na != nb:
            if A[0].kind == B[0].kind and A[1] and len(A[1]) == len(B[1]) and all(
                    same(x, y) for x, y in zip(A[1], B[1])) and _opposite(na, nb):
                out.append((DEF, path, a, b))
                return
            if A[0].kind == B[0].kind == "ext" and _family(na) and _family(na) == _family(nb):
                out.append((DEF, path, a, b))
                return
            if A[0].kind == "attr" and B[0].kind == "attr" and same(A[0].args[0], B[0].args[0]) \
                    and len(A[1]) == len(B[1]):
                out.append((DEF, path, a, b))
                return
            if A[0].kind == B[0].kind and A[0].kind in ("func", "cls") and len(A[1]) == len(
                    B[1]) and all(same(x, y) for x, y in zip(A[1], B[1])):
                out.append((DEF, path, a, b))
                return
            out.append((judge(a, b), path, a, b))
            return
        if A[0].kind == B[0].kind and A[0].kind == "attr":
            diff(A[0].args[0], B[0].args[0], out, f"{path}/receiver of {na}", d)
        elif not same(A[0], B[0]):
            if A[0].kind == B[0].kind:
                diff(A[0], B[0], out, path + "/callee", d)
            else:
                out.append((judge(a, b), path, a, b))
                return
        if len(A[1]) != len(B[1]) or [n for n, _ in A[2]] != [n for n, _ in B[2]]:
            n = min(len(A[1]), len(B[1]))
            extra = (A[1] + tuple(v for _, v in A[2])), (B[1] + tuple(v for _, v in B[2]))
            if [skey(x) for x in extra[0]] == [skey(x) for x in extra[1]] and len(
                    A[1]) != len(B[1]) and not any(n == "**" for n, _ in A[2] + B[2]):
                return  # same values, some passed by name
            if any(is_const(v) for x in (a, b) for v in
                   (x.args[1][n:] + tuple(w for _, w in x.args[2]))) and A[0].kind != "ext":
                pass
            shared = all(same(x, y) for x, y in zip(A[1], B[1]))
            if na in ("max", "min") and min(len(A[1]), len(B[1])) > 1:
                lo, hi = sorted(([skey(x) for x in A[1]], [skey(x) for x in B[1]]), key=len)
                shared = all(lo.count(x) <= hi.count(x) for x in lo)
            ka, kb = dict(A[2]), dict(B[2])
            shared = shared and all(same(ka[x], kb[x]) for x in ka if x in kb)
            out.append((DEF if shared else HAZE, f"{path}/arguments of {na}", a, b))
            return
        sx, sy = [skey(x) for x in A[1]], [skey(y) for y in B[1]]
        if sx != sy and sorted(sx) == sorted(sy):
            if na.split(".")[-1] not in ("max", "min", "union", "intersection", "gcd", "isclose",
                                         "allclose", "array_equal", "dot"):
                out.append((DEF, f"{path}/arguments of {na} swapped", a, b))
            return
        if na in ("any", "all") and len(A[1]) == 1 == len(B[1]) and all(
                x.kind in ("gen", "list") and len(x.args) == 1 and x.args[0].kind == "each"
                and len(x.args[0].args[2]) == 1 and x.args[0].args[2][0].kind not in (
                    "segcond", "each", "splat") for x in (A[1][0], B[1][0])):
            x, y = A[1][0].args[0], B[1][0].args[0]
            diff(x.args[1], y.args[1], out, f"{path}/{na}/source", d)
            conddiff(x.args[2][0], y.args[2][0], out, f"{path}/{na}", d)
            return
        if na in ORDERLESS and len(A[1]) == 1:
            sub = []
            for (n, x), (_, y) in zip(A[2], B[2]):
                if n == "key" and {x.kind, y.kind} == {"ext", "func"}:
                    out.append((DEF, f"{path}/{na}#{n}", x, y))
                else:
                    diff(x, y, out, f"{path}/{na}#{n}", d)
            diff(A[1][0], B[1][0], sub, f"{path}/{na}#0", d)
            x, y = bare(A[1][0]), bare(B[1][0])
            if same(_unorder(x), _unorder(y)):
                return
            if na == "len" and any(
                    u.kind == "call" and callname(u.args[0]) == "set" and len(u.args[1]) == 1
                    and bare(u.args[1][0]).kind in ("param", "attr", "larg")
                    and v.kind in ("param", "attr", "larg")
                    and not same(bare(u.args[1][0]), v) for u, v in ((A[1][0], B[1][0]),
                                                                     (B[1][0], A[1][0]))):
                out.append((DEF, path + "/distinct elements", a, b))
                return
            if na == "len":
                for u, v in ((x, y), (y, x)):
                    if u.kind in ("dict", "set") and v.kind not in ("dict", "set") and any(
                            same(z, v) for z in subterms(u)):
                        out.append((DEF, path + "/distinct elements", a, b))
                        return
            if na == "len" and any(z.kind in ("item", "reversed", "sorted") or z.kind == "call"
                                   and z.args[0].kind == "ext" for z in (x, y)):
                sub = [(HAZE,) + z[1:] for z in sub]
            out.extend(sub)
            return
        for j, (x, y) in enumerate(zip(A[1], B[1])):
            diff(x, y, out, f"{path}/{na}#{j}", d)
        for (n, x), (_, y) in zip(A[2], B[2]):
            diff(x, y, out, f"{path}/{na}#{n}", d)
        return
    if k in ("list", "tuple", "gen", "set", "dict"):
        return seqdiff(A, B, out, path, d, unordered=k in ("set", "dict"))
    if k == "each":
        if isinstance(A[1], Term) and isinstance(B[1], Term) and len(A[2]) == len(
                B[2]) and _rangediff(A[1], B[1], A[2], B[2]):
            out.append((DEF, path + "/range", A[1], B[1]))
            return
        diff(A[1], B[1], out, path + "/source", d)
        seqdiff(A[2], B[2], out, path + "/body", d)
        return
    if k == "segcond":
        if same(A[0], B[0]):
            seqdiff(A[1], B[1], out, path, d)
            seqdiff(A[2], B[2], out, path, d)
        elif tuple(map(skey, A[1:])) == tuple(map(skey, B[1:])):
            conddiff(A[0], B[0], out, path + "/cond", d, A[1] + A[2] + B[1] + B[2])
        else:
            u, v = _segtree((a,)), _segtree((b,))
            sub = decide(u, v, path, d)
            out.extend([(HAZE, path, a, b)] if sub is None else sub)
        return
    if k == "segs":
        if not A or not B:
            x = A or B
            if all(z.kind not in HAZYK and z.kind not in ("segmut", "each", "splat", "segcond")
                   for z in x):
                out.append((DEF, path + "/filter", a, b))
            else:
                out.append((HAZE, path + "/filter", a, b))
            return
        if len(A) != len(B):
            out.append((HAZE, path, a, b))
            return
        return seqdiff(A, B, out, path, d)
    if k == "loopvar":
        return diff(A[2], B[2], out, path + "/init", d)
    if k == "loopres":
        if same(A[3], B[3]) and isinstance(A[2], Term) and isinstance(
                B[2], Term) and _rangediff(A[2], B[2], A[4:5], B[4:5]):
            out.append((DEF, path + "/range", A[2], B[2]))
            return
        diff(A[2], B[2], out, path + "/over", d)
        if not any(z[3].kind == "undef" and not any(
                w.kind == "loopvar" and w.args[:2] == z[:2] for w in subterms(z[4]))
                for z in (A, B)):
            diff(A[3], B[3], out, path + "/init", d)
        elif same(A[4], B[4]):
            out.append((HAZE, path + "/init", a, b))
        diff(A[4], B[4], out, path + "/step", d)
        return
    if k == "lambda":
        return diff(A[1], B[1], out, path + "/body", d)
    if k == "fstr":
        fa, fb = ([x for x in y if x.kind == "fmt"] for y in (A, B))
        if len(fa) == len(fb) and all(same(x, y) for x, y in zip(fa, fb)):
            out.append((DEF, path + "/text", a, b))
        elif [x.kind == "fmt" or x for x in A] == [x.kind == "fmt" or x for x in B]:
            for x, y in zip(fa, fb):
                diff(x, y, out, path + "/fmt", d)
        else:
            out.append((HAZE, path, a, b))
        return
    if k == "item" and not (same(A[0], B[0]) or same(A[1], B[1])):
        (ba, xa), (bb, xb) = _chain(a), _chain(b)
        if same(ba, bb) and len(xa) != len(xb):
            lo, hi = sorted((xa, xb), key=len)
            it = iter(hi)
            if all(any(x == y for y in it) for x in lo):
                out.append((DEF, path + "/selection", a, b))
                return
    # generic
    if len(A) != len(B):
        out.append((HAZE, path, a, b))
        return
    for x, y in zip(A, B):
        if isinstance(x, (Term, tuple)) and isinstance(y, (Term, tuple)):
            diff(x, y, out, path + "/" + k, d)
        elif x != y and not isinstance(x, int):
            out.append((DEF if isinstance(x, str) else HAZE, path, a, b))


ORDERLESS = {"len", "sum", "max", "min", "set", "sorted", "collections.Counter", "any", "all",
             "frozenset", "math.fsum", "numpy.sum"}


def _segtree(ss):
    """Items that depend on conditions, as a decision between sequences of items."""
    if len(ss) == 1 and ss[0].kind == "segcond":
        c, x, y = ss[0].args
        return T("ite", c, _segtree(x), _segtree(y))
    return T("segs", *ss)


def _rangeof(t):
    """(start, stop, step)"""
    if t.kind == "call" and callname(t.args[0]) == "range" and t.args[0].kind == "ext" and not \
            t.args[2]:
        xs = list(t.args[1])
        if any(x.kind in ("star", "splat") for x in xs):
            return None
        if len(xs) == 1:
            xs.insert(0, ZEROV)
        if len(xs) == 2:
            xs.append(const(1))
        return xs if len(xs) == 3 else None
    return None


def _rangediff(a, b, xa, xb):
    """The loops run over ranges a and b and do the same with the numbers, but the ranges have
    different numbers for certain."""
    from .rules.util import lin
    p, q = _rangeof(a), _rangeof(b)
    if p is None or q is None or any(_hazy(x) for x in p + q):
        return False
    m = {skey(a): b}
    xa = tuple(_put(x, m, {}) for x in xa)
    if any(not same(x, y) for x, y in zip(xa, xb)):
        return False

    def gap(x, y):
        d = lin(T("bin", "-", x, y))
        return not d or set(d) == {None}, d.get(None, 0)

    used = any(z.kind in ("elem", "idx") and same(z.args[0], b) for x in xb for z in subterms(x))
    if used:
        k0, d0 = gap(p[0], q[0])
        k1, d1 = gap(p[1], q[1])
        return k0 and d0 != 0 or same(p[0], q[0]) and same(p[2], q[2]) and k1 and d1 != 0 or \
            p[2].kind == q[2].kind == "const" and p[2] is not q[2] and k0
    if is_const(p[2], 1) and is_const(q[2], 1):
        k, d = gap(T("bin", "-", p[1], p[0]), T("bin", "-", q[1], q[0]))
        return k and d != 0
    return False


def _unorder(t):
    if t.kind == "call" and t.args[0].kind == "ext" and t.args[0].args[0] in (
            "dict.fromkeys", "set", "frozenset") and len(t.args[1]) == 1:
        return T("call", T("ext", "set"), (t.args[1][0],), ())
    while t.kind in ("reversed", "sorted") or t.kind == "call" and t.args[0].kind == "ext" and \
            t.args[0].args[0] in ("reversed", "sorted") and len(t.args[1]) == 1:
        t = bare(t.args[0] if t.kind in ("reversed", "sorted") else t.args[1][0])
    return t


def _chain(t):
    ks = []
    while t.kind == "item":
        ks.insert(0, skey(t.args[1]))
        t = t.args[0]
    return t, ks


def _opposite(a, b):
    return {a, b} in ({"any", "all"}, {"max", "min"}, {"floor", "ceil"}, {"sin", "cos"})


FAMS = [{"any", "all"}, {"max", "min", "sum", "len", "numpy.max", "numpy.min", "numpy.sum",
        "numpy.mean", "numpy.prod"}, {"numpy.cos", "numpy.sin", "numpy.tan"},
        {"sympy.cos", "sympy.sin"}, {"numpy.floor", "numpy.ceil", "numpy.round", "math.floor",
        "math.ceil"}, {"numpy.log", "numpy.log2", "numpy.log10"}, {"numpy.zeros", "numpy.ones"},
        {"operator.add", "operator.sub", "operator.mul", "operator.matmul", "operator.truediv"}]


def _family(n):
    for i, f in enumerate(FAMS):
        if n in f:
            return i + 1
    return None


def seqdiff(a, b, out, path, depth, unordered=False):
    sa, sb = [skey(x) for x in a], [skey(x) for x in b]
    if sa == sb:
        return
    if unordered or True:
        if sorted(sa) == sorted(sb):
            if not unordered and not all(isinstance(x, Term) and x.kind == "left" for x in a + b):
                out.append((DEF, path + "/order", T("tuple", *a), T("tuple", *b)))
            return
    if len(a) == len(b):
        pairs = [(x, y) for x, y in zip(a, b) if skey(x) != skey(y)]
        if unordered or all(isinstance(x, Term) and x.kind == "left" for x in a + b):
            xa = [x for x in a if skey(x) not in sb]
            xb = [y for y in b if skey(y) not in sa]
            if xa and all(isinstance(x, Term) and x.kind == "kv" for x in xa + xb):
                m = {skey(y.args[0]): y for y in xb}
                pairs = [(x, m.get(skey(x.args[0]))) for x in xa]
                if any(p[1] is None for p in pairs):
                    pairs = list(zip(xa, xb))
            else:
                pairs = list(zip(xa, xb))
        for i, (x, y) in enumerate(pairs):
            diff(x, y, out, f"{path}[{i}]" if len(pairs) > 1 else path, depth)
        return
    # one longer: a pure insertion/removal of plain items is definite
    lo, hi = (sa, sb) if len(sa) < len(sb) else (sb, sa)
    src = a if len(sa) > len(sb) else b
    it = iter(hi)
    if all(any(x == y for y in it) for x in lo):
        miss = [x for x in src if skey(x) not in lo]
        if not (all(x.kind == "left" for x in src) or any(x.kind in HAZYK for m in miss for x in subterms(m))):
            out.append((DEF, path + "/items", T("tuple", *a), T("tuple", *b)))
            return
    out.append((HAZE, path, T("tuple", *a), T("tuple", *b)))


# ------------------------------------------------------------------ comparing
_TY = [None]  # types of terms of the function under comparison


def _type(t):
    if _TY[0] is None or not isinstance(t, Term):
        return None
    try:
        return _TY[0](t)
    except (AttributeError, KeyError, IndexError, TypeError, ValueError, RecursionError):
        return None


NUMS = (("prim", "int"), ("prim", "float"), ("prim", "complex"))


def _norm(c, t):
    return alpha(_truthy(c(t), {}))


def _normc(c, t):
    """The same for a condition, of which only the truth counts."""
    return alpha(_truthy(T("ite", c(t), TRUE, FALSE), {}).args[0])


def _truthy(t, memo):
    """Truth tests of optional numbers spelled out: neither None nor zero."""
    if t in memo:
        return memo[t]
    k, a = t.kind, t.args

    def test(x):
        if x.kind in ("and", "or"):
            ys = [test(y) for y in x.args]
            return conj(*ys) if x.kind == "and" else disj(*ys)
        if x.kind == "not":
            return neg(test(x.args[0]))
        if x.kind in ("param", "attr", "larg"):
            ms = members(_type(x))
            if ("prim", "None") in ms and len(ms) > 1 and all(
                    m in NUMS or m == ("prim", "None") for m in ms):
                return conj(neg(T("cmp", "is", x, NONE)), neg(T("cmp", "==", x, ZEROV)))
        return _truthy(x, memo)

    def rec(x):
        if isinstance(x, Term):
            return _truthy(x, memo)
        return tuple(rec(y) for y in x) if isinstance(x, tuple) else x

    if k in ("ite", "segcond"):
        new = (test(a[0]),) + tuple(rec(x) for x in a[1:])
    elif k == "not":
        new = (test(a[0]),)
    elif k in ("and", "or") and all(x.kind in BOOLK or x.kind in ("param", "attr", "larg")
                                    for x in a):
        new = tuple(rec(x) for x in a)
    else:
        new = tuple(rec(x) for x in a)
    r = t if all(x is y for x, y in zip(new, a)) else (
        neg(new[0]) if k == "not" else T(k, *new))
    memo[t] = r
    return r


ZEROV = const(0)


def compare(q, aspects=("value", "raises", "post", "calls"), ignore_msgs=True):
    """(status, detail) of the function's equivalence with its reference."""
    p, r = core.program(), ref_program()
    f, g = p.funcs.get(q), r.funcs.get(q)
    if f is None:
        return UNKNOWN, "not present any more", ""
    if g is None:
        return UNKNOWN, "no reference", ""
    return compare_funcs(p, r, f, g, aspects)


def _differences(p, r, f, g, a, b, ca, cb, aspects):
    out = []
    from . import shape
    dd = shape.decodiff(p, r, f, g)
    if dd:
        out.append((STRONG if dd[0] else HAZE, "decorators", const(str(dd[1])), const(str(dd[2]))))
    if _sig(f) != _sig(g):
        sd = sigdiff(f, g)
        if sd:
            out.append((DEF, "signature", sd[0], sd[1]))
    if "value" in aspects:
        guarded(ca, cb, a.value, b.value, a.raises, b.raises, out, "result")
    if "post" in aspects:
        postdiff(ca, cb, a, b, out)
    if "raises" in aspects:
        raisediff(ca, cb, a.raises, b.raises, out)
    if "calls" in aspects:
        calldiff(ca, cb, a.calls, b.calls, out, bool(out),
                 _quiet(ca, cb, a.raises, b.raises))
    if out or f.node is not g.node:
        for what, x, y in facts.differences(a.facts, b.facts, _fields(r, g.cls), _stores(r, g),
                                            b.facts.writes):
            out.append((STRONG, what, x, y))
    return out


class Patched:
    """Canonical form of the current code with given places put back to the reference."""
    def __init__(self, canon, places):
        self.canon, self.places = canon, places

    def __call__(self, t):
        m = {skey(y): y for _, y in self.places}  # what is right already stays
        m.update((skey(x), y) for x, y in self.places)
        return self.canon(_put(alpha(self.canon(t)), m, {}))


def _put(t, m, memo):
    """Replacement of sub-terms, told apart without regard to loop numbering."""
    if t in memo:
        return memo[t]
    r = m.get(skey(t))
    if r is None:
        def rec(a):
            if isinstance(a, Term):
                return _put(a, m, memo)
            return tuple(rec(x) for x in a) if isinstance(a, tuple) else a
        new = tuple(rec(a) for a in t.args)
        if t.kind in ("and", "or"):
            new = tuple(sorted(dict.fromkeys(new), key=skey))
        elif t.kind == "cmp" and t.args[0] == "==" and skey(new[1]) > skey(new[2]):
            new = new[0], new[2], new[1]
        r = t if all(x is y for x, y in zip(new, t.args)) else T(t.kind, *new)
    memo[t] = r
    return r


def _explained(p, r, f, g, a, b, ca, cb, aspects, defs):
    """With the definitely different places put back, nothing else differs."""
    pairs = [(x, y) for _, path, x, y in defs if isinstance(x, Term) and isinstance(y, Term)
             and not path.startswith("default")]

    def table(ps):
        d = {}
        for x, y in ps:
            if x.kind in ("const", "undef", "tuple") or d.setdefault(x, y) is not y:
                return None
        return list(d.items())

    fwd = table([p for p in pairs if p[0].kind not in ("const", "undef", "tuple")])
    if fwd:
        left = _differences(p, r, f, g, a, b, Patched(ca, fwd), cb, aspects)
        if not any(x[0] == HAZE for x in left):
            return True
    # the other way round: the same changes made to the reference
    back = table([(y, x) for x, y in pairs])
    if not back:
        return False
    left = _differences(p, r, f, g, a, b, ca, Patched(cb, back), aspects)
    gone = {callname(z.args[0]) + " is no longer called" for y, _ in back
            for z in subterms(y) if z.kind == "call"}
    return not any(x[0] == HAZE and not any(
        g.endswith(x[1]) or x[1].endswith(g) for g in gone) for x in left)


def compare_funcs(p, r, f, g, aspects):
    noin = policy(p, r)
    a, b = summarise(p, f, noin), summarise(r, g, noin)
    ca, cb = Canon(p), Canon(r)
    _TY[0] = b.typeof
    out = _differences(p, r, f, g, a, b, ca, cb, aspects)
    if not out:
        if a.truncated or b.truncated:
            return UNKNOWN, "analysis budget exhausted", ""
        return PROVED, "", ""
    defs = [x for x in out if x[0] in (DEF, STRONG)]
    hz = [x for x in out if x[0] == HAZE]
    if defs and not a.truncated and not (a.deep and not b.deep) and (
            not hz or any(x[0] == STRONG for x in defs) or _separate(defs, hz)
            or _explained(p, r, f, g, a, b, ca, cb, aspects, defs)):
        sep = {_observable(z[1]) for z in hz} - {None}
        _, path, x, y = sorted(defs, key=lambda z: (
            z[0] != STRONG, not _clear(_observable(z[1]), sep)))[0]
        return VIOLATED, f"{path}: found `{show(x, 6)}` where the reference has `{show(y, 6)}`", \
            path
    return UNKNOWN, "; ".join(f"{x[0]} {x[1]}: {show(x[2], 4)} / {show(x[3], 4)}"
                              for x in out[:3])[:400], ""


def _observable(path):
    """What a caller can look at on its own: the result, a part of it, an error, a public
    field."""
    m = re.match(r"condition of error \w+|field '\w+'|result(\.[A-Za-z]\w*|\[\d+\])?(?=$|[/.\[])",
                 path)
    return m.group(0) if m else None


def _separate(defs, hz):
    """Some observable differs for certain, whatever the other ones do."""
    hazy = {_observable(x[1]) for x in hz} - {None}
    return any(_clear(_observable(x[1]), hazy) for x in defs)


def _clear(o, hazy):
    return o is not None and not o.startswith(("field '_", "condition")) and not any(
        o.startswith(h) or h.startswith(o) for h in hazy)


def guarded(ca, cb, va, vb, ra, rb, out, path):
    """Difference of two values, which count only where no exception is raised."""
    x, y = _norm(ca, va), _norm(cb, vb)
    sub = []
    diff(x, y, sub, path)
    if not sub and permuted(x, y, skey):
        sub.append((DEF, path + "/which loop an element comes from", x, y))
    if sub and ra and rb:
        g, h = [disj(*[c for _, c in r if not any(z.kind in ("iter", "exc", "while", "noreturn")
                                                  for z in subterms(c))]) for r in (ra, rb)]
        nr = T("noreturn")
        if g is not FALSE and h is not FALSE and g is not TRUE and h is not TRUE:
            s2 = []
            if not any(z.kind in ("each", "elem", "idx", "loopres", "loopvar", "objref", "copied",
                                  "closure", "sofar") for c in (g, h) for z in subterms(c)):
                g = h = disj(g, h)  # values matter where neither of the two raises

            def wrap(c, v):
                return T("with", wrap(c, v.args[0]), v.args[1]) if v.kind == "with" else T(
                    "ite", c, nr, v)
            x, y = _norm(ca, wrap(g, va)), _norm(cb, wrap(h, vb))
            diff(x, y, s2, path)
            if not s2 and not permuted(x, y, skey):
                return
    out.extend(sub)


def postdiff(ca, cb, sa, sb, out):
    """State left behind: fields and items of objects that outlive the call."""
    def table(c, post):
        d = {}
        for (base, how, key), v in post.items():
            # one naming of loops for target, key and value together
            t = _norm(c, T("tuple", base, key if isinstance(key, Term) else const(key), v))
            k = (skey(t.args[0]), how, skey(t.args[1]))
            d.setdefault(k, []).append(t)
        return {k: sorted(v, key=skey) for k, v in d.items()}

    pa, pb = table(ca, sa.post), table(cb, sb.post)
    lost = [k for k in pb if k not in pa]
    new = [k for k in pa if k not in pb]
    for k in sorted(set(pa) & set(pb)):
        x, y = pa[k], pb[k]
        ky = {skey(t) for t in y}
        kx = {skey(t) for t in x}
        x2, y2 = [t for t in x if skey(t) not in ky], [t for t in y if skey(t) not in kx]
        name = show(pb[k][0].args[1], 3)
        if not x2 and not y2:
            if len(x) == len(y) == 1 and permuted(x[0], y[0], skey):
                out.append((DEF, f"field {name}/which loop an element comes from", x[0], y[0]))
            continue
        if len(x2) == len(y2) == 1 and _otherfield(k[1], x2[0].args[2], y2[0].args[2], name):
            out.append((DEF, f"field {name}", x2[0].args[2], y2[0].args[2]))
        elif len(x2) == 1 and len(y2) == 1:
            guarded(ca, cb, x2[0].args[2], y2[0].args[2], sa.raises, sb.raises, out,
                    f"field {name}")
        else:
            z = (x2 or y2)[0].args[2]
            out.append((HAZE, f"field {name}", z, z))
    for k in sorted(lost):
        # the same value stored at another place of the same object
        t = pb[k][0]
        al = [n for n in new if n[:2] == k[:2]]
        if k[1] == "item" and len(al) == 1 and sum(m[:2] == k[:2] for m in lost) == 1 and len(
                pb[k]) == len(pa[al[0]]) == 1:
            u = pa[al[0]][0]
            sub = []
            diff(u.args[1], t.args[1], sub, f"key {show(t.args[1], 3)}")
            if same(u.args[2], t.args[2]) and sub and not any(z[0] == HAZE for z in sub):
                out.extend(sub)
                new.remove(al[0])
                lost.remove(k)
    for k in sorted(lost):
        t = pb[k][0]
        name = show(t.args[1], 3)
        moved = any(n[2] == k[2] or n[1] != k[1] for n in new)
        kept = k[1] == "item" and not any(n[1] == "item" for n in new) and any(
            n[0] == k[0] and n[1] == "item" for n in pa)
        out.append((DEF if kept else HAZE if k[1] == "item" or moved else STRONG,
                    f"field {name} no longer set", NONE, t.args[2]))
    for k in sorted(new):
        t = pa[k][0]
        out.append((HAZE, f"field {show(t.args[1], 3)} newly set", t.args[2], NONE))


def _otherfield(how, x, y, name):
    """A copy of a field that is computed from other fields of the same object now."""
    if y.kind != "attr" or f"'{y.args[1]}'" != name or y.args[0].kind != "param":
        return False
    used = {z.args[1] for z in subterms(x) if z.kind == "attr" and z.args[0] is y.args[0]}
    return bool(used) and y.args[1] not in used and not any(
        z is y.args[0] for w in subterms(x) if w.kind not in ("attr",)
        for z in children(w)) and sum(1 for _ in subterms(x)) < 12


def sigdiff(f, g):
    a, b = f.params(), g.params()
    names = {p[0]: p for p in a}
    for n, _, d, k in b:
        if n.startswith("_"):
            continue
        if n not in names:
            if [x[3] for x in a] == [x[3] for x in b]:
                continue  # a renamed parameter
            return f"parameters {[x[0] for x in a]}", f"parameters {[x[0] for x in b]}"
        d2 = names[n][2]
        if (d is None) != (d2 is None) or d is not None and not _samedefault(d, d2):
            return (f"default of {n}: {ast.unparse(d2) if d2 is not None else 'none'}",
                    f"{ast.unparse(d) if d is not None else 'none'}")
    if [x[0] for x in a][:len(b)] != [x[0] for x in b] and set(x[0] for x in a) == set(
            x[0] for x in b):
        return f"parameters {[x[0] for x in a]}", f"parameters {[x[0] for x in b]}"
    return None


def _samedefault(x, y):
    def val(e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Attribute) and e.attr in ("pi", "inf") and isinstance(
                e.value, ast.Name):
            return {"pi": 3.141592653589793, "inf": float("inf")}[e.attr]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return -val(e.operand)
        if isinstance(e, ast.BinOp):
            l, r = val(e.left), val(e.right)
            for t, f in ((ast.Add, lambda: l + r), (ast.Sub, lambda: l - r),
                         (ast.Mult, lambda: l * r), (ast.Div, lambda: l / r),
                         (ast.Pow, lambda: l ** r)):
                if isinstance(e.op, t):
                    return f()
        raise ValueError
    if ast.dump(x) == ast.dump(y):
        return True
    try:
        a, b = val(x), val(y)
        return a == b and type(a) is type(b)
    except Exception:
        # one name against another (a constant moved, say) cannot be told apart here
        return not (isinstance(x, ast.Constant) or isinstance(y, ast.Constant)) or isinstance(
            x, ast.Name) or isinstance(y, ast.Name)


def raisediff(ca, cb, ra, rb, out):
    A, B = {}, {}
    for src, c, dst in ((ra, ca, A), (rb, cb, B)):
        for n, cond in src:
            dst.setdefault(n, []).append(cond)
    for n in sorted(set(A) | set(B)):
        x = _normc(ca, disj(*A[n])) if n in A else FALSE
        y = _normc(cb, disj(*B[n])) if n in B else FALSE
        if x is y or skey(x) == skey(y):
            if permuted(x, y, skey):
                out.append((DEF, f"condition of error {n}/which loop an element comes from", x, y))
            continue
        if n not in A:
            # another exception under the same condition?
            out.append((STRONG, f"{n} no longer raised", x, y))
        elif n not in B:
            out.append((DEF if not _hazy(x) else HAZE, f"{n} newly raised", x, y))
        else:
            conddiff(x, y, out, f"condition of error {n}")


def _hazy(t):
    return any(x.kind in HAZYK for x in subterms(t))


def _quiet(ca, cb, ra, rb):
    """Where neither of the two raises, as far as it can be said in one condition."""
    if not ra and not rb:
        return None
    cs = [_normc(c, x) for c, r in ((ca, ra), (cb, rb)) for _, x in r]
    cs = [x for x in cs if not any(z.kind in (
        "iter", "exc", "while", "noreturn", "each", "elem", "idx", "loopres", "loopvar", "objref",
        "copied", "closure", "sofar") for z in subterms(x))]
    g = disj(*cs)
    return None if g is FALSE or g is TRUE else neg(g)


def _callcond(x, y, quiet, out, path, context):
    sub = []
    conddiff(x, y, sub, path, 0, context)
    if sub and quiet is not None:
        s2 = []
        conddiff(conj(quiet, x), conj(quiet, y), s2, path, 0, context)
        if not s2:
            return
    out.extend(sub)


def calldiff(ca, cb, A, B, out, already, quiet=None):
    """Effects: only calls that vanished or whose arguments/conditions definitely changed."""
    for n in sorted(set(A) | set(B)):
        if n.split(".")[0] in PURELIBS and "." in n and not _effectful(n):
            continue
        if n in core.program().funcs and n not in impure(core.program()) and n not in impure(
                ref_program()):
            continue
        xa = {(_norm(ca, _under(t, [c], True)), _normc(ca, c)) for t, c in A.get(n, ())}
        xb = {(_norm(cb, _under(t, [c], True)), _normc(cb, c)) for t, c in B.get(n, ())}
        if n == "warnings.warn":
            # how often the same warning is issued does not matter
            xa, xb = ({(t, _normc(k, disj(*[c for u, c in z if u is t]))) for t, _ in z}
                      for k, z in ((ca, xa), (cb, xb)))
        ka = {(skey(t), skey(c)): (t, c) for t, c in xa}
        kb = {(skey(t), skey(c)): (t, c) for t, c in xb}
        oa = [v for k, v in ka.items() if k not in kb]
        obs = [v for k, v in kb.items() if k not in ka]
        if not oa and not obs:
            # with one naming of loops for the call and its condition
            A2, B2 = [[_norm(c, T("tuple", _under(t, [k], True), T("ite", k, TRUE, FALSE)))
                       for t, k in dict.fromkeys(z.get(n, ()))] for c, z in ((ca, A), (cb, B))]
            if len(A2) == len(B2) == 1 and permuted(A2[0], B2[0], skey):
                out.append((DEF, f"call of {n}/which loop an element comes from",
                            A2[0].args[0], B2[0].args[0]))
            continue
        if not ka:
            if not already:
                out.append((HAZE if n in PURE or "." in n and not _effectful(n) else DEF,
                            f"{n} is no longer called", NONE, obs[0][0]))
            continue
        if len(oa) == 1 and len(obs) == 1:
            diff(oa[0][0], obs[0][0], out, f"call of {n}")
            _callcond(oa[0][1], obs[0][1], quiet, out, f"condition of {n}", (oa[0][0], obs[0][0]))
        elif already:
            continue
        elif len(oa) == len(obs) <= 4 and _pairwise(n, oa, obs, out, quiet):
            continue
        elif oa and obs:
            # some pairs share the call and differ in the condition, or vice versa
            out.append((HAZE, f"calls of {n}", oa[0][0], obs[0][0]))
        elif obs:
            out.append((DEF if _effectful(n) else HAZE, f"call of {n} lost", NONE, obs[0][0]))
        else:
            sure = _effectful(n) and all(
                t.kind == "call" and t.args[0].kind == "attr" and t.args[0].args[0].kind == "param"
                and t.args[0].args[0].args[0] not in ("self", "cls") for t, _ in oa)
            out.append((DEF if sure else HAZE, f"call of {n} added", oa[0][0], NONE))


def _pairwise(n, oa, obs, out, quiet):
    """Every call differs for certain from a call of the reference of its own."""
    found, left = [], list(obs)
    for t, c in oa:
        best = None
        for j, (u, d) in enumerate(left):
            sub = []
            diff(t, u, sub, f"call of {n}")
            _callcond(c, d, quiet, sub, f"condition of {n}", (t, u))
            score = (any(x[0] == HAZE for x in sub), len(sub))
            if best is None or score < best[0]:
                best = (score, j, sub)
        if best[0][0]:
            return False
        left.pop(best[1])
        found += best[2]
    out.extend(found)
    return bool(found)


PURELIBS = {"numpy", "sympy", "math", "scipy", "itertools", "functools", "operator", "collections",
            "typing", "re", "copy", "dataclasses", "networkx", "cmath", "string", "numbers",
            "fractions", "decimal"}


MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "add",
       "discard", "setdefault", "popitem", "fill", "itemset", "resize", "put", "write", "dump",
       "writelines", "close", "seed", "shuffle", "save", "savetxt", "tofile", "mkdir", "unlink",
       "makedirs", "print", "open", "warn", "warning", "info", "debug", "error", "exec", "eval",
       "setattr", "delattr", "next", "send", "simplefilter", "filterwarnings"}


def impure(prog):
    """Functions that may have effects besides their result (by name, transitively)."""
    r = prog.__dict__.get("_impure")
    if r is not None:
        return r
    bad, names = set(), {}
    for q, fi in prog.funcs.items():
        names[q] = set()
        ps = {p[0] for p in fi.params()}
        fresh = {fi.params()[0][0]} if fi.name in ("__init__", "__post_init__") and ps else set()
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(
                    x.targets[0], ast.Name) and isinstance(x.value, (
                        ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
                        ) or isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(
                    x.targets[0], ast.Name) and isinstance(x.value, ast.Call) and ast.unparse(
                        x.value.func).split(".")[0] in ("set", "dict", "list", "defaultdict",
                                                        "Counter", "np", "numpy", "collections",
                                                        "OrderedDict", "sympy"):
                fresh.add(x.targets[0].id)
        for x in ast.walk(fi.node):
            tg = []
            if isinstance(x, (ast.Assign, ast.Delete)):
                tg = x.targets
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                tg = [x.target]
            for t in tg:
                while isinstance(t, (ast.Tuple, ast.List)):
                    t = t.elts[0] if t.elts else None
                b = t
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                if b is not t and not (isinstance(b, ast.Name) and b.id in fresh):
                    bad.add(q)
                if isinstance(x, ast.AugAssign) and isinstance(t, ast.Name) and t.id in ps:
                    bad.add(q)
            if isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom)):
                bad.add(q)
            if isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Name):
                    if f.id in ps or f.id in ("open", "print", "next", "setattr", "exec", "eval",
                                              "warn"):
                        bad.add(q)
                    names[q].add(f.id)
                elif isinstance(f, ast.Attribute):
                    names[q].add(f.attr)
                    b = f.value
                    while isinstance(b, (ast.Attribute, ast.Subscript)):
                        b = b.value
                    if f.attr in MUT and not (isinstance(b, ast.Name) and b.id in fresh):
                        bad.add(q)
                    if "random" in ast.unparse(f):
                        bad.add(q)
                else:
                    bad.add(q)
    while True:
        nm = {q.split(".")[-1] for q in bad} | {
            q.split(".")[-2] for q in bad if q.endswith(("__init__", "__post_init__"))}
        more = {q for q in names if q not in bad and names[q] & nm}
        if not more:
            break
        bad |= more
    prog._impure = bad
    return bad


def _effectful(n):
    if ".random" in n and "zquantum" not in n:
        return True
    return n.startswith("<") or n.split(".")[-1] in (
        "dump", "dumps", "write", "close", "open", "run_circuit_and_measure", "save_raw_data",
        "seed", "warn", "run_circuitset_and_measure", "savetxt", "save")


def rule(name, doc, quals, minimum, aspects=("value", "raises", "post", "calls")):
    def one(q):
        st, detail, path = compare(q, aspects)
        f = core.program().funcs.get(q)
        w = f"{f.file}:{f.node.lineno}" if f is not None else ""
        return [ob(name, q.replace("zquantum.core.", "") + (f":{path}" if path else ""), st, w,
                   detail)]

    def run(tier):
        core.program(), ref_program()
        common(core.program(), ref_program())
        qs = list(quals() if callable(quals) else quals)
        if tier == "thorough":
            qs = sorted(core.closure(qs, core.program()) | core.closure(qs, ref_program()))
        return core.pmap(one, qs)
    return {"name": name, "run": run, "min": minimum, "doc": doc}
