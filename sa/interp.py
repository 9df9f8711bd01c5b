"""Gated value-flow engine.

Walks the syntax tree of a function once (twice for loop bodies), in the style of a
gated-SSA value numbering: every local becomes a term over the parameters, branches
are merged with gates, repo helpers are inlined up to a bound, and what the code does
to objects is kept as an abstract heap plus a log of events (calls, stores, mutations,
raises), each with the branch conditions it stands under.  Nothing is executed and no
path is handed to a solver.
"""
import ast
import builtins as _bi

from . import types as ty
from .model import AnalysisBroken, ClassInfo, FuncInfo, dotted, walk_own
from .terms import (FALSE, NONE, T, TRUE, UNDEF, Term, children, cmp, conj, const, disj,
                    is_const, isbool, ite, neg, simplify, subst, subterms)

BUILTINS = set(dir(_bi))

MUTATORS = {
    "append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update",
    "add", "discard", "setdefault", "popitem", "appendleft", "popleft", "extendleft",
    "fill", "resize", "put", "itemset", "partition", "difference_update",
    "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__",
    "__iadd__", "subtract", "rotate", "setflags", "sum_duplicates", "eliminate_zeros",
    "sort_indices", "row_swap", "col_swap", "row_del", "col_del", "zip_row_op",
    "add_edge", "add_node", "add_edges_from", "add_nodes_from", "remove_edge",
    "remove_node", "add_weighted_edges_from", "remove_edges_from", "__setattr__",
    "move_to_end",
}
EXT_MUTATES = {  # external function -> positions of mutated arguments
    "numpy.fill_diagonal": (0,), "numpy.put": (0,), "numpy.place": (0,),
    "numpy.copyto": (0,), "numpy.putmask": (0,), "numpy.random.shuffle": (0,),
    "random.shuffle": (0,), "heapq.heappush": (0,), "heapq.heapify": (0,),
    "heapq.heappop": (0,), "bisect.insort": (0,), "numpy.add.at": (0,),
    "setattr": (0,), "delattr": (0,), "object.__setattr__": (0,),
    "dict.update": (0,), "list.append": (0,), "list.sort": (0,), "list.extend": (0,),
}
EXT_ALIAS = {
    "numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.atleast_2d",
    "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.transpose", "numpy.real",
    "numpy.imag", "numpy.diagonal", "numpy.swapaxes", "numpy.moveaxis", "numpy.expand_dims",
    "numpy.broadcast_to", "numpy.ascontiguousarray", "iter", "typing.cast",
    "reversed", "zip", "enumerate", "filter", "itertools.chain",
    "itertools.islice", "itertools.cycle", "next", "max", "min", "getattr", "numpy.nditer",
    "vars", "numpy.flip", "memoryview", "numpy.array_split", "numpy.split",
}
ALIAS_METHODS = {
    "reshape", "ravel", "view", "transpose", "squeeze", "swapaxes", "values", "items",
    "keys", "get", "pop", "diagonal", "setdefault", "__getitem__", "__iter__", "popitem",
    "elements", "most_common", "flat",
}
PASS_ATTRS = {"T", "real", "imag", "flat"}


class Obj:
    __slots__ = ("oid", "kind", "cls", "fields", "segs", "node", "func")

    def __init__(self, oid, kind, cls=None, fields=None, segs=(), node=None, func=None):
        self.oid = oid
        self.kind = kind
        self.cls = cls
        self.fields = fields or {}
        self.segs = segs
        self.node = node
        self.func = func

    def with_(self, fields=None, segs=None, kind=None):
        return Obj(self.oid, kind or self.kind, self.cls,
                   self.fields if fields is None else fields,
                   self.segs if segs is None else segs, self.node, self.func)


class State:
    __slots__ = ("frames", "heap", "over", "pc")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.over = {}
        self.pc = ()

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.over = dict(self.over)
        s.pc = self.pc
        return s


class Event:
    __slots__ = ("kind", "pc", "node", "func", "stack", "loops", "d", "seq", "app")

    def __init__(self, kind, pc, node, func, stack, loops, d):
        self.kind = kind
        self.pc = pc
        self.node = node
        self.func = func
        self.stack = stack
        self.loops = loops
        self.d = d

    @property
    def where(self):
        f = self.func
        return f"{f.file}:{getattr(self.node, 'lineno', '?')} ({f.qualname.replace('zquantum.core.', '')})"

    def __repr__(self):
        return f"<{self.kind} {self.d} @{self.where}>"


class Frame:
    __slots__ = ("func", "module", "fid", "cls", "selfterm", "returns", "parent", "gen",
                 "loops", "depth", "stack", "captured", "base", "selfcls")

    def __init__(self, **k):
        for n in self.__slots__:
            setattr(self, n, k.get(n))


class Result:
    """What one analysed entry point does."""

    def __init__(self, interp, func, returns, raises, events, final, value):
        self.interp = interp
        self.func = func
        self.returns = returns  # [(pc conds, value term, State)]
        self.raises = raises
        self.events = events
        self.state = final
        self.value = value
        self.truncated = interp.truncated

    def frozen(self, t=None, state=None):
        return self.interp.freeze(self.value if t is None else t, state or self.state)


class Interp:
    def __init__(self, prog, opaque=(), max_depth=7, budget=60000, transparent=(),
                 max_inline_nodes=None, no_inline=None):
        self.prog = prog
        self.opaque = set(opaque)
        self.max_depth = max_depth
        self.budget = budget
        self.steps = 0
        self.truncated = False
        self.deep = False
        self.no_inline = no_inline
        self.larg_types = {}
        self.app = 0
        self.log = []
        self.raises = []
        self.nid = 0
        self.tryctx = []
        self.summaries = {}
        self.modconsts = {}
        self.summary_stack = ()
        self.closures = {}
        self.carried = {}
        self.steps_ = {}
        self.overnames = {}
        self.allocs = {}
        self._tybusy = set()

    # ------------------------------------------------------------------ utils
    def fresh(self):
        self.nid += 1
        return self.nid

    def event(self, kind, st, fr, node, **d):
        e = Event(kind, st.pc, node, fr.func, fr.stack, tuple(fr.loops or ()), d)
        e.seq = len(self.log)
        e.app = self.app
        self.log.append(e)
        return e

    def new_obj(self, st, fr, node, kind, cls=None, fields=None, segs=()):
        oid = self.fresh()
        st.heap[oid] = Obj(oid, kind, cls, dict(fields or {}), tuple(segs), node, fr.func)
        return T("obj", oid)

    def freeze(self, t, st, _seen=()):
        """Snapshot of a term with heap references replaced by their contents."""
        if not isinstance(t, Term):
            return t
        if t.kind == "obj":
            oid = t.args[0]
            if oid in _seen or len(_seen) > 12:
                return T("objref", oid)
            o = st.heap.get(oid)
            if o is None:
                return T("objref", oid)
            s2 = _seen + (oid,)
            if o.kind == "inst":
                return T("inst", o.cls.qualname if o.cls else "?", tuple(
                    (k, self.freeze(v, st, s2)) for k, v in sorted(o.fields.items())))
            return T(o.kind, *[self._fseg(x, st, s2) for x in o.segs])
        if t.kind in ("const", "param", "func", "cls", "ext", "module", "undef"):
            return t
        if not any(x.kind == "obj" for x in subterms(t)):
            return t

        def rec(a):
            if isinstance(a, Term):
                return self.freeze(a, st, _seen)
            if isinstance(a, tuple):
                return tuple(rec(y) for y in a)
            return a

        return simplify(T(t.kind, *[rec(a) for a in t.args]))

    def _fseg(self, x, st, seen):
        if x.kind == "seg_item":
            return self.freeze(x.args[0], st, seen)
        if x.kind == "each":
            return T("each", x.args[0], self.freeze(x.args[1], st, seen),
                     tuple(self._fseg(y, st, seen) for y in x.args[2]))
        if x.kind == "segcond":
            return T("segcond", self.freeze(x.args[0], st, seen),
                     tuple(self._fseg(y, st, seen) for y in x.args[1]),
                     tuple(self._fseg(y, st, seen) for y in x.args[2]))
        if x.kind == "kv":
            return T("kv", self.freeze(x.args[0], st, seen), self.freeze(x.args[1], st, seen))
        if x.kind == "ext":
            return T("splat", self.freeze(x.args[0], st, seen))
        return x

    # --------------------------------------------------------------- top level
    def run(self, func, self_cls=None, args=None):
        self.log, self.raises, self.steps, self.truncated = [], [], 0, False
        st = State()
        fr = Frame(func=func, module=func.module, fid=self.fresh(), cls=func.cls,
                   returns=[], parent=None, loops=[], depth=0, stack=(func.qualname,),
                   captured=False, base=0)
        env = {}
        a = args or {}
        names = [p for p in func.params()]
        for i, (n, ann, dflt, kind) in enumerate(names):
            t = a.get(n) or T("param", n)
            env[n] = t
        if func.cls is not None and not func.is_static and names:
            fr.selfterm = env[names[0][0]]
            fr.selfcls = self_cls or func.cls
            if func.is_class:
                env[names[0][0]] = T("cls", (self_cls or func.cls).qualname)
        st.frames[fr.fid] = env
        self.entry = fr
        self.entry_types = {}
        for n, ann, dflt, kind in names:
            if ann is not None:
                tt = ty.from_ann(self.prog, func.module, ann)
                if kind == "vararg":
                    tt = ("vtuple", tt)
                elif kind == "kwarg":
                    tt = ("dict", ("prim", "str"), tt)
                if tt is not None and dflt is not None and isinstance(
                        dflt, ast.Constant) and dflt.value is None:
                    tt = ty.union([tt, ("prim", "None")])
                self.entry_types[n] = tt
            elif kind == "vararg":
                self.entry_types[n] = ("vtuple", None)
            elif kind == "kwarg":
                self.entry_types[n] = ("dict", ("prim", "str"), None)
            elif isinstance(dflt, ast.Constant) and isinstance(
                    dflt.value, (bool, int, float, str, complex)):
                self.entry_types[n] = ("prim", type(dflt.value).__name__)
        if fr.selfterm is not None and not func.is_class:
            self.entry_types[names[0][0]] = ("cls", fr.selfcls)
        value, final = self._run_body(func, fr, st)
        returns = [(s.pc, v, s) for s, v in fr.returns]
        return Result(self, func, returns, list(self.raises), list(self.log), final, value)

    def _run_body(self, func, fr, st):
        node = func.node
        if func.is_generator:
            fr.gen = self.new_obj(st, fr, node, "gen")
        fr.base = len(st.pc)
        if isinstance(node, ast.Lambda):
            v = self.eval(node.body, st, fr)
            fr.returns.append((st, v))
        else:
            out = self.exec_block(node.body, st, fr)
            if out is not None:
                fr.returns.append((out, NONE))
        if fr.gen is not None:
            fr.returns = [(s, fr.gen) for s, _ in fr.returns]
        if not fr.returns:
            return UNDEF, None
        return self._merge_returns(fr.returns, fr.base)

    def _merge_returns(self, rets, base):
        items = [(s, {"r": v}) for s, v in rets]
        s, ex = self.merge_many(items, base)
        return ex["r"], s

    # ----------------------------------------------------------------- merging
    def merge_many(self, items, base):
        items = list(items)
        if len(items) == 1:
            s, ex = items[0]
            s2 = s.copy()
            return s2, ex
        pcs = [s.pc for s, _ in items]
        acc_s, acc_x = items[-1]
        acc_s = acc_s.copy()
        acc_x = dict(acc_x)
        # conditions that hold in every item need not gate
        common = [c for c in pcs[0][base:] if all(c in p[base:] for p in pcs[1:])]
        cs = set(common)
        for s, ex in reversed(items[:-1]):
            c = conj(*[(x if p else neg(x)) for x, p in s.pc[base:] if (x, p) not in cs])
            if c is TRUE:
                c = T("somepath", self.fresh())
            acc_s, acc_x = self.merge2(c, s, acc_s, ex, acc_x)
        acc_s.pc = pcs[0][:base] + tuple(common)
        return acc_s, acc_x

    def merge2(self, c, a, b, ax=None, bx=None):
        s = State()
        s.pc = a.pc
        for fid in {**a.frames, **b.frames}:
            ea, eb = a.frames.get(fid), b.frames.get(fid)
            if ea is None or eb is None:
                s.frames[fid] = dict(ea if ea is not None else eb)
                continue
            env = {}
            for k in {**ea, **eb}:
                va, vb = ea.get(k, UNDEF), eb.get(k, UNDEF)
                env[k] = va if va is vb else ite(c, va, vb)
            s.frames[fid] = env
        for oid in {**a.heap, **b.heap}:
            oa, ob = a.heap.get(oid), b.heap.get(oid)
            if oa is None or ob is None or oa is ob:
                s.heap[oid] = oa if oa is not None else ob
                continue
            f = {}
            for k in list(oa.fields) + [k for k in ob.fields if k not in oa.fields]:
                va, vb = oa.fields.get(k, UNDEF), ob.fields.get(k, UNDEF)
                f[k] = va if va is vb else ite(c, va, vb)
            sa, sb = oa.segs, ob.segs
            if sa != sb:
                i = 0
                while i < len(sa) and i < len(sb) and sa[i] is sb[i]:
                    i += 1
                sa = sa[:i] + self._segcond(c, sa[i:], sb[i:])
            s.heap[oid] = oa.with_(fields=f, segs=sa)
        for k in {**a.over, **b.over}:
            base, what, name = k
            dflt = T(what, base, name)
            va, vb = a.over.get(k, dflt), b.over.get(k, dflt)
            s.over[k] = va if va is vb else ite(c, va, vb)
        x = {}
        for k in {**(ax or {}), **(bx or {})}:
            x[k] = ite(c, (ax or {}).get(k, UNDEF), (bx or {}).get(k, UNDEF))
        return s, x

    def _segcond(self, c, x, y):
        if c.kind == "const":
            return tuple(x) if c.args[0] else tuple(y)
        if c.kind == "not":
            return self._segcond(c.args[0], y, x)
        if not x and not y:
            return ()
        return (T("segcond", c, tuple(x), tuple(y)),)

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            st = self.exec(s, st, fr)
        return st

    def exec(self, n, st, fr):
        self.steps += 1
        if self.steps > self.budget:
            self.truncated = True
            return st
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None:
            return st
        return m(n, st, fr)

    def x_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return st
        v = self.eval(n.value, st, fr)
        if self._is_exc_value(v, st):
            self.event("discarded_exception", st, fr, n, value=v)
        if v is T("noreturn"):
            return None
        return st

    def _is_exc_value(self, v, st):
        if v.kind == "call" and v.args[0].kind == "ext":
            nm = v.args[0].args[0]
            return nm in BUILTINS and isinstance(getattr(_bi, nm), type) and issubclass(
                getattr(_bi, nm), BaseException)
        if v.kind == "obj":
            o = st.heap.get(v.args[0])
            return o is not None and o.cls is not None and any(
                b.endswith(("Error", "Exception")) for b in self.prog.ext_bases(o.cls))
        return False

    def x_Pass(self, n, st, fr):
        return st

    x_Import = x_Global = x_Nonlocal = x_Pass

    def x_ImportFrom(self, n, st, fr):
        base = self.prog._from_base(fr.module, n)
        for a in n.names:
            if a.name != "*":
                st.frames[fr.fid][a.asname or a.name] = self.entity_term(
                    self.prog.resolve_dotted(f"{base}.{a.name}"), fr)
        return st

    def x_Import(self, n, st, fr):  # noqa: F811
        for a in n.names:
            nm = a.name if a.asname else a.name.split(".")[0]
            st.frames[fr.fid][a.asname or nm] = self.entity_term(
                self.prog.resolve_dotted(nm), fr)
        return st

    def x_FunctionDef(self, n, st, fr):
        f = FuncInfo(f"{fr.func.qualname}.<locals>.{n.name}", fr.module, n)
        st.frames[fr.fid][n.name] = self.closure(f, fr, st)
        return st

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, n, st, fr):
        q = f"{fr.func.qualname}.<locals>.{n.name}"
        c = ClassInfo(q, fr.module, n)
        c.bases = []
        for b in n.bases:
            bn = b.value if isinstance(b, ast.Subscript) else b
            e = None
            if isinstance(bn, ast.Name):
                v = st.frames[fr.fid].get(bn.id)
                if v is not None and v.kind == "cls":
                    e = self.prog.classes.get(v.args[0])
            if e is None:
                e = self.prog.resolve_expr(fr.module, bn)
            c.bases.append(e if isinstance(e, ClassInfo) else ("ext", dotted(bn) or "?"))
        self.prog.classes.setdefault(q, c)
        st.frames[fr.fid][n.name] = T("cls", q)
        return st

    def closure(self, f, fr, st):
        fr.captured = True
        cid = self.fresh()
        self.closures[cid] = (f, fr)
        return T("closure", cid)

    def x_Return(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else NONE
        fr.returns.append((st, v))
        return None

    def x_Raise(self, n, st, fr):
        v = self.eval(n.exc, st, fr) if n.exc is not None else T("reraise")
        self.do_raise(v, st, fr, n)
        return None

    def exc_name(self, v, st):
        if v.kind == "ite":
            return self.exc_name(v.args[1], st)
        if v.kind == "call":
            v = v.args[0]
        if v.kind == "ext":
            return v.args[0].split(".")[-1]
        if v.kind == "cls":
            return v.args[0].split(".")[-1]
        if v.kind == "obj":
            o = st.heap.get(v.args[0])
            if o and o.cls:
                return o.cls.name
        return None

    def do_raise(self, v, st, fr, n):
        name = self.exc_name(v, st)
        for ctx in reversed(self.tryctx):
            if ctx["catches"](name):
                ctx["caught"].append((st.copy(), v, n))
                self.event("raise_caught", st, fr, n, exc=name, value=v)
                return
        self.raises.append((st.pc, name, n, fr.func, v, st))
        self.event("raise", st, fr, n, exc=name, value=v)

    def x_Assert(self, n, st, fr):
        c = self.cond(n.test, st, fr)
        self.event("assert", st, fr, n, cond=c)
        st.pc = st.pc + self._pcitems(c, True)
        return st

    def x_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value, st, fr)
                k = self.eval(t.slice, st, fr)
                self.mutate(b, st, fr, n, "del item", opaque_content=True)
                self.event("delitem", st, fr, n, base=b, key=k)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st, fr)
                self.mutate(b, st, fr, n, "del attr")
            elif isinstance(t, ast.Name):
                st.frames[fr.fid].pop(t.id, None)
        return st

    def x_Assign(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        for t in n.targets:
            self.assign(t, v, st, fr, n)
        return st

    def x_AnnAssign(self, n, st, fr):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st, fr), st, fr, n)
        return st

    def x_AugAssign(self, n, st, fr):
        op = type(n.op).__name__
        if isinstance(n.target, ast.Name):
            cur = self.lookup(n.target.id, st, fr, n)
            rhs = self.eval(n.value, st, fr)
            v = self.inplace(op, cur, rhs, st, fr, n)
            self.set_name(n.target.id, v, st, fr)
        elif isinstance(n.target, ast.Attribute):
            b = self.eval(n.target.value, st, fr)
            cur = self.attr(b, n.target.attr, st, fr, n)
            rhs = self.eval(n.value, st, fr)
            v = self.inplace(op, cur, rhs, st, fr, n)
            self.store_attr(b, n.target.attr, v, st, fr, n, aug=(op, rhs))
        elif isinstance(n.target, ast.Subscript):
            b = self.eval(n.target.value, st, fr)
            k = self.eval(n.target.slice, st, fr)
            cur = self.item(b, k, st, fr, n)
            rhs = self.eval(n.value, st, fr)
            v = self.inplace(op, cur, rhs, st, fr, n)
            self.store_item(b, k, v, st, fr, n, aug=(op, rhs))
        return st

    OPNAME = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%",
              "Pow": "**", "MatMult": "@", "BitAnd": "&", "BitOr": "|", "BitXor": "^",
              "LShift": "<<", "RShift": ">>"}
    IDUNDER = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__",
               "Div": "__itruediv__", "Pow": "__ipow__", "MatMult": "__imatmul__",
               "BitOr": "__ior__", "BitAnd": "__iand__", "BitXor": "__ixor__",
               "Mod": "__imod__", "FloorDiv": "__ifloordiv__"}
    DUNDER = {k: v.replace("__i", "__", 1) for k, v in IDUNDER.items()}

    def inplace(self, op, cur, rhs, st, fr, n):
        self.event("augassign", st, fr, n, target=cur, op=op, value=rhs)
        if cur.kind == "obj":
            o = st.heap.get(cur.args[0])
            if o and o.kind == "list" and op == "Add":
                self.extend_list(cur, rhs, st, fr, n)
                return cur
            if o and o.kind in ("list", "dict", "set", "gen"):
                if op == "BitOr" and o.kind in ("set", "dict"):
                    self.mutate(cur, st, fr, n, op + "=")
                    st.heap[o.oid] = st.heap[o.oid].with_(segs=o.segs + (T("ext", rhs),))
                    return cur
                self.mutate(cur, st, fr, n, op + "=", opaque_content=True)
                return cur
            if o and o.kind == "inst" and o.cls is not None:
                f = self.prog.find_method(o.cls, self.IDUNDER.get(op, ""))
                if f is not None:
                    return self.call_func(f, [cur, rhs], [], st, fr, n, selfcls=o.cls)
                f = self.prog.find_method(o.cls, self.DUNDER.get(op, ""))
                if f is not None:
                    return self.call_func(f, [cur, rhs], [], st, fr, n, selfcls=o.cls)
                self.mutate(cur, st, fr, n, op + "=")
                return cur
        t = self.typeof(cur, st, fr)
        cls = self._one_class(t)
        if cls is not None:
            f = self.prog.find_method(cls, self.IDUNDER.get(op, ""))
            if f is not None:
                return self.call_func(f, [cur, rhs], [], st, fr, n, selfcls=cls)
        # classes without the in-place operator rebind the name
        idun = self.IDUNDER.get(op, "")
        mem = [m for m in ty.members(t) if not (
            m[0] == "cls" and self.prog.find_method(m[1], idun) is None)] if t else None
        if mem is not None and not mem:
            mu = None
        else:
            mu = ty.mutable(self.prog, ty.union(mem) if mem else t)
        if mu is None and mem is None and self._looks_mutable(cur):
            mu = True
        r = T("bin", self.OPNAME.get(op, op), cur, rhs)
        if mu:
            self.mutate(cur, st, fr, n, self.OPNAME.get(op, op) + "=", args=(rhs,))
            r = T("inplace", self.OPNAME.get(op, op), cur, rhs)
        elif mu is None:
            self.event("maybe_mutate", st, fr, n, target=cur, how=op)
        return r

    def _looks_mutable(self, t):
        """Unannotated values the analysed code itself treats as objects."""
        if t.kind == "param" and t.args[0] in getattr(self, "objectish", ()):
            return True
        return False

    # ---------------------------------------------------------------- control
    def _pcitems(self, c, pol):
        if c.kind == "const":
            return ()
        if pol and c.kind == "and":
            return tuple(x for y in c.args for x in self._pcitems(y, True))
        if not pol and c.kind == "or":
            return tuple(x for y in c.args for x in self._pcitems(y, False))
        if c.kind == "not":
            return self._pcitems(c.args[0], not pol)
        return ((c, pol),)

    def known(self, c, st):
        for x, p in st.pc:
            if x is c:
                return p
        if c.kind == "not":
            v = self.known(c.args[0], st)
            return None if v is None else not v
        return None

    def _overname(self, site, k):
        """A name for a loop-carried field or item of an object from outside."""
        base = k[2] if isinstance(k[2], str) else "item"
        d = self.overnames.setdefault((site, base), {})
        n = d.setdefault(k, len(d))
        return base if n == 0 else f"{base}#{n}"

    def x_If(self, n, st, fr):
        c = self.cond(n.test, st, fr)
        return self.branch(c, st, fr,
                           lambda s: self.exec_block(n.body, s, fr),
                           lambda s: self.exec_block(n.orelse, s, fr))

    def branch(self, c, st, fr, fa, fb):
        k = c.args[0] if c.kind == "const" else self.known(c, st)
        if k is not None:
            return fa(st) if k else fb(st)
        base = len(st.pc)
        sa, sb = st.copy(), st.copy()
        sa.pc = sa.pc + self._pcitems(c, True)
        sb.pc = sb.pc + self._pcitems(c, False)
        sa, sb = fa(sa), fb(sb)
        if sa is None:
            return sb
        if sb is None:
            return sa
        pa, pb = sa.pc, sb.pc
        s, _ = self.merge2(c, sa, sb)
        both = tuple(x for x in pa[base:] if x in pb[base:])
        s.pc = st.pc[:base] + both
        ra = [x for x in pa[base:] if x not in both]
        rb = [x for x in pb[base:] if x not in both]
        if (len(pa) - base > len(self._pcitems(c, True)) or len(pb) - base > len(
                self._pcitems(c, False))) and not any(
                x.kind in ("iter", "noreturn", "callback", "exc", "while", "somepath")
                for x, _ in ra + rb):
            # some path left early: what the surviving paths have in common
            d = disj(conj(*[x if p else neg(x) for x, p in ra]),
                     conj(*[x if p else neg(x) for x, p in rb]))
            s.pc = s.pc + self._pcitems(d, True)
        return s

    def eval_branch(self, c, st, fr, fa, fb):
        """Evaluate two expressions under a condition; returns gated value."""
        k = c.args[0] if c.kind == "const" else self.known(c, st)
        if k is not None:
            return fa(st) if k else fb(st)
        sa, sb = st.copy(), st.copy()
        sa.pc = sa.pc + self._pcitems(c, True)
        sb.pc = sb.pc + self._pcitems(c, False)
        va, vb = fa(sa), fb(sb)
        s, _ = self.merge2(c, sa, sb)
        st.frames, st.heap, st.over = s.frames, s.heap, s.over
        return ite(c, va, vb)

    def x_With(self, n, st, fr):
        for it in n.items:
            v = self.eval(it.context_expr, st, fr)
            self.event("with", st, fr, it.context_expr, ctx=v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, T("enter", v), st, fr, n)
        return self.exec_block(n.body, st, fr)

    def _lookup(self, n):
        """`try: ... d[k] / except KeyError: ...` as the test for `k in d` that it is."""
        if len(n.handlers) != 1 or n.orelse or n.finalbody or len(n.body) != 1:
            return None
        h, b = n.handlers[0], n.body[0]
        if h.name or h.type is None or dotted(h.type) != "KeyError" or not isinstance(
                b, (ast.Return, ast.Assign)) or not isinstance(b.value, ast.Subscript):
            return None
        d, k = b.value.value, b.value.slice
        if isinstance(k, ast.Slice) or any(not isinstance(
                x, (ast.Name, ast.Attribute, ast.Constant, ast.Tuple, ast.expr_context))
                for y in (d, k) for x in ast.walk(y)):
            return None
        if isinstance(b, ast.Assign) and not all(isinstance(x, ast.Name) for x in b.targets):
            return None
        t = getattr(n, "_asif", None)
        if t is None:
            t = ast.If(ast.Compare(k, [ast.In()], [d]), n.body, h.body)
            ast.fix_missing_locations(ast.copy_location(t, n))
            n._asif = t
        return t

    def x_Try(self, n, st, fr):
        t = self._lookup(n)
        if t is not None:
            return self.exec(t, st, fr)
        caught = []

        def handler_names(h):
            if h.type is None:
                return None
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            return [(dotted(t) or "?").split(".")[-1] for t in ts]

        names = [handler_names(h) for h in n.handlers]

        def catches(name):
            for hs in names:
                if hs is None:
                    return True
                for h in hs:
                    if h in ("Exception", "BaseException") or h == name:
                        return True
                    if name and name in BUILTINS and h in BUILTINS:
                        a, b = getattr(_bi, name), getattr(_bi, h)
                        if isinstance(a, type) and isinstance(b, type) and issubclass(a, b):
                            return True
            return False

        start = st.copy()
        base = len(st.pc)
        if n.handlers:
            self.tryctx.append({"catches": catches, "caught": caught})
        loglen = len(self.log)
        out = self.exec_block(n.body, st, fr)
        if n.handlers:
            self.tryctx.pop()
        body_state = out
        if out is not None and n.orelse:
            out = self.exec_block(n.orelse, out, fr)
        results = [] if out is None else [out]
        site = self.fresh()
        for i, h in enumerate(n.handlers):
            entry = [c for c, v, _ in caught]
            src = start.copy()
            if body_state is not None:
                src, _ = self.merge2(T("exc_early", site), start, body_state)
            for c in entry:
                src, _ = self.merge2(T("exc_at", self.fresh()), c, src)
            src.pc = start.pc + ((T("exc", site, i, tuple(names[i] or ("*",))), True),)
            if h.name:
                src.frames[fr.fid][h.name] = T("excvar", site, i, tuple(names[i] or ("*",)))
            self.event("except", src, fr, h, names=names[i], body=n,
                       tried=(loglen, len(self.log)))
            o = self.exec_block(h.body, src, fr)
            if o is not None:
                results.append(o)
        if not results:
            if n.finalbody:
                self.exec_block(n.finalbody, start.copy(), fr)
            return None
        # handlers gate first
        items = [(s, {}) for s in results[1:] + results[:1]] if out is not None else [
            (s, {}) for s in results]
        s, _ = self.merge_many(items, base)
        if n.finalbody:
            s = self.exec_block(n.finalbody, s, fr)
        return s

    def x_While(self, n, st, fr):
        return self.loop(n, st, fr, None)

    def x_For(self, n, st, fr):
        it = self.eval(n.iter, st, fr)
        self.event("iterate", st, fr, n, iter=it)
        un = self.unrolled(it, st)
        if un is not None and not any(
                isinstance(x, (ast.Break, ast.Continue)) for b in n.body for x in ast.walk(b)):
            for v in un:
                self.assign(n.target, v, st, fr, n)
                st = self.exec_block(n.body, st, fr)
                if st is None:
                    return None
            return self.exec_block(n.orelse, st, fr)
        return self.loop(n, st, fr, it)

    x_AsyncFor = x_For

    def unrolled(self, it, st):
        if it.kind in ("tuple", "list"):
            xs = it.args
            if len(xs) <= 8 and all(x.kind not in ("each", "splat", "segcond") for x in xs):
                return list(xs)
        if it.kind == "obj":
            o = st.heap.get(it.args[0])
            if o and o.kind in ("list", "gen") and len(o.segs) <= 8 and all(
                    s.kind == "seg_item" for s in o.segs):
                return [s.args[0] for s in o.segs]
        return None

    def loop(self, n, st, fr, it):
        site = self.fresh()
        header = st.copy()
        loglen, raislen, retlen = len(self.log), len(self.raises), len(fr.returns)
        caughtlens = [len(c["caught"]) for c in self.tryctx]
        # pass 1: what changes
        b1, _ = self._loop_body(n, header.copy(), fr, it, site)
        changed_v, changed_f, changed_o = {}, {}, {}  # ordered sets
        if b1 is not None:
            for fid, env in header.frames.items():
                e1 = b1.frames.get(fid, {})
                for k, v in env.items():
                    if e1.get(k, UNDEF) is not v:
                        changed_v[(fid, k)] = 1
            for oid, o in header.heap.items():
                o1 = b1.heap.get(oid)
                if o1 is not None and o1 is not o:
                    for k, v in o.fields.items():
                        if o1.fields.get(k, UNDEF) is not v:
                            changed_f[(oid, k)] = 1
            for k in {**header.over, **b1.over}:
                if header.over.get(k) is not b1.over.get(k):
                    changed_o[k] = 1
        del self.log[loglen:], self.raises[raislen:], fr.returns[retlen:]
        for c, ln in zip(self.tryctx, caughtlens):
            del c["caught"][ln:]
        # pass 2
        if b1 is not None:
            for fid, k in changed_v:
                self.carried[(site, k)] = b1.frames.get(fid, {}).get(k, UNDEF)
            for oid, k in changed_f:
                self.carried[(site, f"{oid}.{k}")] = b1.heap[oid].fields.get(k, UNDEF)
        h2 = header.copy()
        for fid, k in changed_v:
            h2.frames[fid][k] = T("loopvar", site, k, header.frames[fid][k])
        for oid, k in changed_f:
            o = h2.heap[oid]
            f = dict(o.fields)
            f[k] = T("loopvar", site, f"{oid}.{k}", header.heap[oid].fields[k])
            h2.heap[oid] = o.with_(fields=f)
        sofar = {}
        if b1 is not None:
            for oid, o in header.heap.items():
                o1 = b1.heap.get(oid)
                if o1 is not None and o1.segs != o.segs:
                    mark = T("sofar", site, oid)
                    sofar[oid] = mark
                    h2.heap[oid] = h2.heap[oid].with_(segs=o.segs + (mark,))
        for k in changed_o:
            h2.over[k] = T("loopvar", site, self._overname(site, k),
                           header.over.get(k, T(k[1], k[0], k[2])))
        b2, itinfo = self._loop_body(n, h2.copy(), fr, it, site)
        done = self._exits(n, fr, it, site, itinfo, header, h2, loglen, retlen)
        if done is not None:
            return done[0]
        if b2 is None:
            out = header
        else:
            out = b2.copy()
            for fid, k in changed_v:
                self.steps_[(site, k)] = (b2.frames.get(fid, {}).get(k, UNDEF), b2)
            for oid, k in changed_f:
                self.steps_[(site, f"{oid}.{k}")] = (b2.heap[oid].fields.get(k, UNDEF), b2)
            for k in changed_o:
                if k in b2.over:
                    self.steps_[(site, self._overname(site, k))] = (b2.over[k], b2)
            for oid, mark in sofar.items():
                ss = b2.heap[oid].segs if oid in b2.heap else ()
                hs0 = h2.heap[oid].segs
                self.steps_[mark] = (tuple(ss[len(hs0):] if ss[:len(hs0)] == hs0 else ss), b2)
            for fid, env in out.frames.items():
                henv = header.frames.get(fid)
                if henv is None:
                    continue
                for k, v in list(env.items()):
                    if henv.get(k, UNDEF) is not v:
                        env[k] = T("loopres", site, k, itinfo, henv.get(k, UNDEF), v)
            for oid, o in list(out.heap.items()):
                ho = h2.heap.get(oid)
                if ho is None:
                    continue
                if ho is o:
                    if oid in sofar:
                        out.heap[oid] = o.with_(segs=header.heap[oid].segs)
                    continue
                f = dict(o.fields)
                for k, v in f.items():
                    init = header.heap[oid].fields.get(k, UNDEF)
                    if h2.heap[oid].fields.get(k, UNDEF) is not v:
                        f[k] = T("loopres", site, f"{oid}.{k}", itinfo, init, v)
                    else:
                        f[k] = init
                segs = o.segs
                hs = ho.segs
                if segs != hs:
                    base_segs = header.heap[oid].segs
                    if segs[: len(hs)] == hs:
                        segs = base_segs + (T("each", site, itinfo, segs[len(hs):]),)
                    else:
                        segs = (T("loopmut", site, itinfo, hs, segs),)
                elif oid in sofar:
                    segs = header.heap[oid].segs
                out.heap[oid] = o.with_(fields=f, segs=segs)
            for oid, k in changed_f:
                pass
            for k, v in list(out.over.items()):
                if h2.over.get(k) is not v:
                    out.over[k] = T("loopres", site, self._overname(site, k), itinfo,
                                    header.over.get(k, T(k[1], k[0], k[2])), v)
                elif k in changed_o:
                    out.over[k] = header.over.get(k, T(k[1], k[0], k[2]))
        out.pc = header.pc + self._leftearly
        self._leftearly = ()
        if n.orelse:
            out = self.exec_block(n.orelse, out, fr)
        return out

    _leftearly = ()

    def _exits(self, n, fr, it, site, itinfo, header, h2, loglen, retlen):
        """Early exits of a for loop whose condition depends on the element alone: the loop is
        left early exactly if some element satisfies it, and with the first that does."""
        self._leftearly = ()
        normal, breaks = self._lastloop
        if it is None:
            return None
        rets = fr.returns[retlen:]
        raises = [e for e in self.log[loglen:] if e.kind == "raise"]
        if sum(map(bool, (rets, raises, breaks))) != 1:
            return None
        base = len(header.pc)

        def suffix(pc):
            if len(pc) <= base or pc[base][0].kind != "iter" or pc[base][0].args[0] != site:
                return None
            return conj(*[c if p else neg(c) for c, p in pc[base + 1:]])

        def clean(c):
            return not any(x.kind in ("loopvar", "sofar", "loopres") and x.args[0] == site
                           or x.kind in ("iter", "exc", "noreturn", "somepath", "while", "undef",
                                         "callback", "closure") for x in subterms(c))

        items = [(s.pc, s) for s, _ in rets] or [(s.pc, s) for s in breaks] or [
            (e.pc, None) for e in raises]
        cs = [suffix(pc) for pc, _ in items]
        if any(c is None for c in cs):
            return None
        final = normal[0] if normal else header
        cs = [self.freeze(c, s if s is not None else final) for c, (_, s) in zip(cs, items)]
        if not all(clean(c) for c in cs):
            return None

        def some(c):
            return T("call", T("ext", "any"), (T("gen", T("each", site, itinfo, (c,))),), ())

        whole = disj(*cs)
        if whole is TRUE:
            return None
        E = some(whole)
        if raises:
            back = {e.pc: header.pc + ((some(c), True),) for e, c in zip(raises, cs)}
            for e in raises:
                e.pc = back[e.pc]
            self.raises = [(back.get(x[0], x[0]),) + tuple(x[1:]) for x in self.raises]
            self._leftearly = ((E, False),)
            return None
        leaves = {}

        def first(t, s):
            m = {}
            for x in subterms(t):
                if x.kind in ("elem", "idx") and x.args[-1] == site:
                    if x not in leaves:
                        leaves[x] = T("call", T("ext", "next"), (T("gen", T(
                            "each", site, itinfo, (T("segcond", whole, (x,), ()),))),), ())
                    m[x] = leaves[x]
            return subst(t, m) if m else t

        def depends(t):
            return any(x.kind in ("elem", "idx") and x.args[-1] == site for x in subterms(t))

        if rets:
            if len(rets) > 1:
                s, ex = self.merge_many([(s, {"r": v}) for s, v in rets], base + 1)
                v = ex["r"]
            else:
                s, v = rets[0]
                s = s.copy()
            if v.kind == "obj":
                fv = self.freeze(v, s)
                if depends(fv):
                    v = fv
            if any(x.kind == "loopvar" and x.args[0] == site for x in subterms(v)):
                pass
            else:
                v = first(v, s)
            s.pc = header.pc + ((E, True),)
            fr.returns[retlen:] = [(s, v)]
            self._leftearly = ((E, False),)
            return None
        # left by break: nothing may have changed before
        for s in normal:
            for fid, env in h2.frames.items():
                e2 = s.frames.get(fid, {})
                if any(e2.get(k, UNDEF) is not v and not (fid == fr.fid and self._is_target(n, k))
                       for k, v in env.items()):
                    return None
            if any(s.heap.get(oid) is not o for oid, o in h2.heap.items()):
                return None
            if any(h2.over.get(k) is not v for k, v in s.over.items()):
                return None
        # so the first exit starts from the state before the loop
        del self.log[loglen:]
        self._loop_body(n, header.copy(), fr, it, site)
        normal, breaks = self._lastloop
        s, _ = self.merge_many([(b, {}) for b in breaks], base + 1)
        for k, v in s.over.items():
            if header.over.get(k) is not v and any(depends(x) for x in k if isinstance(x, Term)):
                return None
        for fid, env in s.frames.items():
            for k, v in env.items():
                env[k] = first(v, s)
        for oid, o in list(s.heap.items()):
            if o is header.heap.get(oid):
                continue
            s.heap[oid] = o.with_(fields={k: first(v, s) for k, v in o.fields.items()},
                                  segs=tuple(first(x, s) for x in o.segs))
        for k, v in s.over.items():
            s.over[k] = first(v, s)
        s.pc = header.pc + ((E, True),)
        self.log[loglen:] = [e for e in self.log[loglen:] if not (
            e.kind == "break" and len(e.pc) > base and e.pc[base][0].kind == "iter"
            and e.pc[base][0].args[0] == site)]
        rest = header.copy()
        rest.pc = header.pc + ((E, False),)
        if n.orelse:
            rest = self.exec_block(n.orelse, rest, fr)
        if rest is None:
            return (s,)
        out, _ = self.merge2(E, s, rest)
        out.pc = header.pc
        return (out,)

    def _is_target(self, n, k):
        return any(isinstance(x, ast.Name) and x.id == k for x in ast.walk(n.target))

    def _loop_body(self, n, st, fr, it, site):
        base = len(st.pc)
        ctx = {"breaks": [], "continues": [], "site": site}
        if it is None:
            c = self.cond(n.test, st, fr)
            itinfo = T("while", site, c)
            st.pc = st.pc + ((T("iter", site, itinfo), True),) + self._pcitems(c, True)
        else:
            src, val, facts = self.elem_of(it, st, site)
            itinfo = src
            st.pc = st.pc + ((T("iter", site, src), True),) + facts
            self.assign(n.target, val, st, fr, n)
        fr.loops.append((site, itinfo))
        prev = getattr(self, "_loopctx", None)
        self._loopctx = ctx
        out = self.exec_block(n.body, st, fr)
        self._loopctx = prev
        fr.loops.pop()
        ends = ctx["continues"] + ctx["breaks"] + ([out] if out is not None else [])
        self._lastloop = (ctx["continues"] + ([out] if out is not None else []), ctx["breaks"])
        if not ends:
            return None, itinfo
        s, _ = self.merge_many([(e, {}) for e in ends], base)
        return s, itinfo

    def x_Break(self, n, st, fr):
        if self._loopctx is not None:
            self._loopctx["breaks"].append(st)
        self.event("break", st, fr, n)
        return None

    def x_Continue(self, n, st, fr):
        if self._loopctx is not None:
            self._loopctx["continues"].append(st)
        return None

    _loopctx = None

    # ------------------------------------------------------------- iteration
    def elem_of(self, it, st, site):
        """(source term, element term, facts) of iterating `it`."""
        segs = None
        if it.kind == "obj":
            o = st.heap.get(it.args[0])
            if o is not None and o.kind in ("list", "gen", "set", "tuple"):
                segs = o.segs
                if len(segs) == 1 and segs[0].kind == "ext":
                    return self.elem_of(segs[0].args[0], st, site)
        elif it.kind in ("list", "gen", "tuple") and len(it.args) == 1:
            segs = it.args
            if segs[0].kind == "splat":
                return self.elem_of(segs[0].args[0], st, site)
        if segs is not None and len(segs) == 1 and segs[0].kind == "each":
            _, src, inner = segs[0].args
            facts = ()
            while len(inner) == 1 and inner[0].kind == "segcond":
                c, a, b = inner[0].args
                if a and not b:
                    facts += self._pcitems(c, True)
                    inner = a
                elif b and not a:
                    facts += self._pcitems(c, False)
                    inner = b
                else:
                    break
            if len(inner) == 1 and inner[0].kind not in ("segcond", "each", "ext", "splat"):
                v = inner[0]
                if v.kind == "seg_item":
                    v = v.args[0]
                return src, v, facts
        f = self.freeze(it, st)
        if f.kind == "item" and f.args[1].kind == "slice" and len(f.args[1].args) == 3 and is_const(
                f.args[1].args[2], -1) and f.args[1].args[0] is NONE and f.args[1].args[1] is NONE:
            src, v, facts = self.elem_of(f.args[0], st, site)
            return T("reversed", src), v, facts
        if f.kind == "call":
            fn, args, kw = f.args
            nm = fn.args[0] if fn.kind == "ext" else None
            raw = it.args[1] if it.kind == "call" else args
            if nm == "enumerate" and raw:
                src, v, facts = self.elem_of(raw[0], st, site)
                ix = T("idx", src, site)
                if len(raw) > 1 or kw:
                    start = raw[1] if len(raw) > 1 else kw[0][1]
                    if not is_const(start, 0):
                        ix = T("bin", "+", ix, start)
                return src, T("tuple", ix, v), facts
            if nm == "zip" and raw:
                parts = [self.elem_of(a, st, site) for a in raw]
                facts = tuple(x for p in parts for x in p[2])
                return (T("zip", *[p[0] for p in parts]), T("tuple", *[p[1] for p in parts]),
                        facts)
            if nm in ("reversed",) and raw:
                src, v, facts = self.elem_of(raw[0], st, site)
                return T("reversed", src), v, facts
            if nm in ("iter", "list", "tuple") and len(raw) == 1:
                return self.elem_of(raw[0], st, site)
            if nm == "sorted" and raw:
                src, v, facts = self.elem_of(raw[0], st, site)
                return T("sorted", src, kw), v, facts
            if nm == "set" and raw or nm == "frozenset" and raw:
                src, v, facts = self.elem_of(raw[0], st, site)
                return T("unordered", src), v, facts
            if nm == "filter" and len(raw) == 2:
                src, v, facts = self.elem_of(raw[1], st, site)
                return T("filtered", src, args[0]), v, facts
            if fn.kind == "attr" and not args:
                if fn.args[1] == "items":
                    b = fn.args[0]
                    return b, T("tuple", T("elem", b, site), T("item", b, T("elem", b, site))), ()
                if fn.args[1] == "values":
                    b = fn.args[0]
                    return b, T("item", b, T("elem", b, site)), ()
                if fn.args[1] == "keys":
                    b = fn.args[0]
                    return b, T("elem", b, site), ()
        return f, T("elem", f, site), ()

    # ------------------------------------------------------------- assignment
    def set_name(self, name, v, st, fr):
        st.frames[fr.fid][name] = v

    def assign(self, t, v, st, fr, n):
        if isinstance(t, ast.Name):
            # nonlocal write into a closure's parent
            self.set_name(t.id, v, st, fr)
            if fr.parent is not None and self._is_nonlocal(fr, t.id):
                p = fr.parent
                while p is not None:
                    env = st.frames.get(p.fid)
                    if env is not None and t.id in env:
                        env[t.id] = v
                        break
                    p = p.parent
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fr, n)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, n)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st, fr)
            self.store_attr(b, t.attr, v, st, fr, n)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, fr)
            k = self.eval(t.slice, st, fr)
            self.store_item(b, k, v, st, fr, n)

    def _is_nonlocal(self, fr, name):
        return any(isinstance(x, ast.Nonlocal) and name in x.names
                   for x in walk_own(fr.func.node))

    def unpack(self, elts, v, st, fr, n):
        xs = None
        if v.kind in ("tuple", "list") and all(
                x.kind not in ("each", "splat", "segcond") for x in v.args):
            xs = list(v.args)
        elif v.kind == "obj":
            o = st.heap.get(v.args[0])
            if o and o.kind in ("list", "gen") and all(s.kind == "seg_item" for s in o.segs):
                xs = [s.args[0] for s in o.segs]
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if xs is not None and not star and len(xs) == len(elts):
            for e, x in zip(elts, xs):
                self.assign(e, x, st, fr, n)
            return
        if xs is not None and len(star) == 1 and len(xs) >= len(elts) - 1:
            i = star[0]
            k = len(elts) - 1 - i
            for e, x in zip(elts[:i], xs[:i]):
                self.assign(e, x, st, fr, n)
            mid = xs[i: len(xs) - k]
            self.assign(elts[i], self.new_obj(st, fr, n, "list",
                        segs=[T("seg_item", m) for m in mid]), st, fr, n)
            for e, x in zip(elts[i + 1:], xs[len(xs) - k:] if k else []):
                self.assign(e, x, st, fr, n)
            return
        if v.kind == "ite":
            va, vb = v.args[1], v.args[2]
            for i, e in enumerate(elts):
                if isinstance(e, ast.Starred):
                    self.assign(e, T("rest", v, i), st, fr, n)
                else:
                    self.assign(e, ite(v.args[0], self.item(va, const(i), st, fr, n),
                                       self.item(vb, const(i), st, fr, n)), st, fr, n)
            return
        # unpacking a list/generator with one 'each': zip(*...) style values stay opaque
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.assign(e, T("rest", v, i), st, fr, n)
            else:
                j = i if not star or i < star[0] else i - len(elts)
                self.assign(e, self.item(v, const(j), st, fr, n), st, fr, n)

    def store_attr(self, b, name, v, st, fr, n, aug=None):
        self.event("store", st, fr, n, base=b, attr=name, value=v, aug=aug)
        if b.kind == "ite":
            # weak update
            self.mutate(b, st, fr, n, f".{name} =")
            for x in (b.args[1], b.args[2]):
                if x.kind == "obj" and x.args[0] in st.heap:
                    o = st.heap[x.args[0]]
                    f = dict(o.fields)
                    cnd = b.args[0] if x is b.args[1] else neg(b.args[0])
                    f[name] = ite(cnd, v, f.get(name, UNDEF))
                    st.heap[o.oid] = o.with_(fields=f)
            return
        if b.kind == "obj" and b.args[0] in st.heap:
            o = st.heap[b.args[0]]
            if o.cls is not None:
                s = self.prog.find_setter(o.cls, name)
                if s is not None:
                    self.call_func(s, [b, v], [], st, fr, n, selfcls=o.cls)
                    return
            f = dict(o.fields)
            f[name] = v
            st.heap[o.oid] = o.with_(fields=f)
            return
        cls = self._one_class(self.typeof(b, st, fr))
        if cls is not None:
            s = self.prog.find_setter(cls, name)
            if s is not None and s.qualname not in fr.stack:
                self.call_func(s, [b, v], [], st, fr, n, selfcls=cls)
                return
        self.mutate(b, st, fr, n, f".{name} =", attr=name)
        st.over[(b, "attr", name)] = v

    def store_item(self, b, k, v, st, fr, n, aug=None):
        self.event("setitem", st, fr, n, base=b, key=k, value=v, aug=aug)
        cls = None
        if b.kind == "obj" and b.args[0] in st.heap:
            o = st.heap[b.args[0]]
            cls = o.cls
            if o.kind in ("dict", "list", "set", "gen"):
                self.mutate(b, st, fr, n, "[...] =", quiet=True)
                o = st.heap[b.args[0]]
                if o.kind == "list" and is_const(k) and isinstance(k.args[0], int) and all(
                        s.kind == "seg_item" for s in o.segs) and -len(o.segs) <= k.args[0] < len(o.segs):
                    segs = list(o.segs)
                    segs[k.args[0]] = T("seg_item", v)
                    st.heap[o.oid] = o.with_(segs=tuple(segs))
                    return
                st.heap[o.oid] = o.with_(segs=o.segs + (T("kv", k, v),))
                return
        else:
            cls = self._one_class(self.typeof(b, st, fr))
        if cls is not None:
            f = self.prog.find_method(cls, "__setitem__")
            if f is not None:
                self.call_func(f, [b, k, v], [], st, fr, n, selfcls=cls)
                return
        self.mutate(b, st, fr, n, "[...] =")
        fk = self.freeze(k, st)
        st.over[(b, "item", fk)] = v

    def mutate(self, target, st, fr, n, how, attr=None, opaque_content=False, quiet=False,
               args=()):
        self.event("mutate", st, fr, n, target=target, how=how, attr=attr, args=tuple(args))
        if opaque_content and target.kind == "obj" and target.args[0] in st.heap:
            o = st.heap[target.args[0]]
            if o.kind in ("list", "dict", "set", "gen"):
                st.heap[o.oid] = o.with_(segs=o.segs + (T("segmut", how, self.fresh()),))

    # ------------------------------------------------------------ expressions
    def cond(self, n, st, fr):
        return self.truth(self.eval(n, st, fr), st, fr)

    def truth(self, t, st, fr):
        if t.kind == "const":
            return const(bool(t.args[0]))
        if t.kind in ("func", "cls", "closure", "module", "bound"):
            return TRUE
        if t.kind == "tuple":
            return const(bool(t.args))
        if t.kind == "ite":
            a, b = self.truth(t.args[1], st, fr), self.truth(t.args[2], st, fr)
            if a.kind == "const" and b.kind == "const":
                return ite(t.args[0], a, b) if a is b else (
                    t.args[0] if a.args[0] else neg(t.args[0]))
            if a.kind == "const":
                return disj(t.args[0], b) if a.args[0] else conj(neg(t.args[0]), b)
            if b.kind == "const":
                return disj(neg(t.args[0]), a) if b.args[0] else conj(t.args[0], a)
            if a is t.args[0]:
                return disj(a, b)
            if b is t.args[0]:
                return conj(b, a)
            return T("ite", t.args[0], a, b)
        if t.kind == "obj":
            o = st.heap.get(t.args[0])
            if o is not None and o.kind in ("list", "dict", "set"):
                if not o.segs:
                    return FALSE
                if any(s.kind in ("seg_item", "kv") for s in o.segs):
                    return TRUE
                return T("nonempty", self.freeze(t, st))
            if o is not None and o.kind == "inst" and o.cls is not None and not (
                    self.prog.find_method(o.cls, "__bool__")
                    or self.prog.find_method(o.cls, "__len__") or self.prog.ext_bases(o.cls)):
                return TRUE
        if t.kind in ("and",):
            return conj(*[self.truth(x, st, fr) for x in t.args])
        if t.kind in ("or",):
            return disj(*[self.truth(x, st, fr) for x in t.args])
        if t.kind == "not":
            return neg(self.truth(t.args[0], st, fr))
        return t

    def eval(self, n, st, fr):
        self.steps += 1
        if self.steps > self.budget:
            self.truncated = True
            return T("unknown", "budget")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return T("unknown", type(n).__name__)
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        return const(n.value)

    def e_Name(self, n, st, fr):
        return self.lookup(n.id, st, fr, n)

    def lookup(self, name, st, fr, n=None):
        env = st.frames.get(fr.fid)
        if env is not None and name in env:
            return env[name]
        p = fr.parent
        while p is not None:
            env = st.frames.get(p.fid)
            if env is not None and name in env:
                return env[name]
            p = p.parent
        e = self.prog.lookup(fr.module, name)
        if e is None:
            if name in BUILTINS:
                return T("ext", name)
            if name in ("__name__", "__file__"):
                return T("ext", name)
            return T("undefname", name)
        return self.entity_term(e, fr)

    def entity_term(self, e, fr):
        if isinstance(e, FuncInfo):
            return T("func", e.qualname)
        if isinstance(e, ClassInfo):
            return T("cls", e.qualname)
        if e[0] == "module":
            return T("module", e[1])
        if e[0] == "ext":
            return T("ext", e[1])
        if e[0] == "missing":
            return T("missing", e[1])
        if e[0] == "modconst":
            return self.modconst(e)
        if e[0] == "classattr":
            return self.classattr(e[1], e[2])
        return T("unknown", str(e[0]))

    def modconst(self, e):
        q = f"{e[1]}.{e[2]}"
        if e[3] is None:
            return T("modconst", q)
        v = e[3]
        if isinstance(v, ast.Constant):
            return const(v.value)
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(
                v.operand, ast.Constant):
            return const(-v.operand.value)
        if isinstance(v, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_expr(self.prog.modules[e[1]], v)
            if isinstance(r, (FuncInfo, ClassInfo)):
                return self.entity_term(r, None)
            if isinstance(r, tuple) and r[0] in ("ext", "module"):
                return self.entity_term(r, None)
        if isinstance(v, ast.Tuple) and all(isinstance(x, ast.Constant) for x in v.elts):
            return T("tuple", *[const(x.value) for x in v.elts])
        if isinstance(v, ast.Tuple) and all(isinstance(x, ast.Name) for x in v.elts):
            return T("tuple", *[T("ext", x.id) if x.id in BUILTINS else self.entity_term(
                self.prog.lookup(self.prog.modules[e[1]], x.id) or ("ext", x.id), None)
                for x in v.elts])
        return T("modconst", q)

    def classattr(self, c, name):
        for k in self.prog.mro(c):
            if name in k.attrs:
                v = k.attrs[name]
                if isinstance(v, ast.Constant):
                    return const(v.value)
                r = self.prog.resolve_expr(k.module, v) if isinstance(
                    v, (ast.Name, ast.Attribute)) else None
                if isinstance(r, (FuncInfo, ClassInfo)):
                    return self.entity_term(r, None)
                return T("classconst", k.qualname, name)
        return T("attr", T("cls", c.qualname), name)

    def e_Attribute(self, n, st, fr):
        return self.attr(self.eval(n.value, st, fr), n.attr, st, fr, n)

    def _one_class(self, t):
        if t is None:
            return None
        t = ty.without_none(t)
        if t is not None and t[0] == "cls":
            return t[1]
        return None

    def _cls_of(self, b, st, fr):
        if b.kind == "obj":
            o = st.heap.get(b.args[0])
            return o.cls if o is not None and o.kind == "inst" else None
        return self._one_class(self.typeof(b, st, fr))

    def _surely_has(self, b, name, st, fr):
        if b.kind == "obj":
            o = st.heap.get(b.args[0])
            if o is not None and o.kind == "inst" and name in o.fields:
                return True
        c = self._cls_of(b, st, fr)
        return c is not None and (self.prog.find_method(c, name) is not None or any(
            name in k.annotations for k in self.prog.mro(c)))

    def attr(self, b, name, st, fr, n):
        if b.kind == "module":
            return self.entity_term(self.prog.member(("module", b.args[0]), name), fr)
        if b.kind == "cls":
            c = self.prog.classes.get(b.args[0])
            if c is not None:
                f = self.prog.find_method(c, name)
                if f is not None:
                    if f.is_class:
                        return T("bound", b, f.qualname)
                    return T("func", f.qualname)
                if name == "__name__":
                    return const(c.name)
                return self.classattr(c, name)
        if b.kind == "ext":
            return self.entity_term(self.prog.member(("ext", b.args[0]), name), fr)
        if b.kind in ("missing", "undefname"):
            return T("attr", b, name)
        if b.kind == "super":
            c = self.prog.classes.get(b.args[0])
            for k in b.args[2]:
                kk = self.prog.classes.get(k)
                if kk is None:
                    continue
                if name in kk.methods:
                    f = kk.methods[name]
                    if f.is_property:
                        return self.call_func(f, [b.args[1]], [], st, fr, n, selfcls=None)
                    return T("bound", b.args[1], f.qualname)
            return T("attr", b, name)
        if b.kind == "ite" and not (b, "attr", name) in st.over:
            return self.eval_branch(
                b.args[0], st, fr,
                lambda s: self.attr(b.args[1], name, s, fr, n),
                lambda s: self.attr(b.args[2], name, s, fr, n))
        if b.kind == "obj":
            o = st.heap.get(b.args[0])
            if o is not None:
                if name in o.fields:
                    return o.fields[name]
                if o.kind == "inst" and o.cls is not None:
                    if name == "__class__":
                        return T("cls", o.cls.qualname)
                    f = self.prog.find_method(o.cls, name)
                    if f is not None:
                        if f.is_property:
                            return self.call_func(f, [b], [], st, fr, n, selfcls=o.cls,
                                                  prop=True)
                        if f.is_static:
                            return T("func", f.qualname)
                        return T("bound", b, f.qualname)
                    v = self.classattr(o.cls, name)
                    if v.kind != "attr":
                        return v
            return T("attr", b, name)
        if (b, "attr", name) in st.over:
            return st.over[(b, "attr", name)]
        if name == "__class__":
            return T("typeof", b)
        cls = self._one_class(self.typeof(b, st, fr))
        if cls is not None:
            f = self.prog.find_method(cls, name)
            if f is not None:
                over = self._overridden(cls, name, f, b, fr)
                if f.is_property:
                    if over or f.is_abstract or self.prog.is_protocol(f.cls):
                        return T("attr", b, name)
                    return self.call_func(f, [b], [], st, fr, n, selfcls=cls, prop=True)
                if f.is_static:
                    return T("func", f.qualname)
                if over or f.is_abstract or self.prog.is_protocol(f.cls):
                    return T("vmeth", b, f.qualname)
                return T("bound", b, f.qualname)
            v = self.classattr(cls, name)
            if v.kind not in ("attr",) and name not in cls.annotations and name not in \
                    self._inst_attrs(cls):
                return v
        return T("attr", b, name)

    def _inst_attrs(self, cls):
        """Attributes assigned through self anywhere in the class."""
        cache = self.prog.__dict__.setdefault("_instattrs", {})
        if cls.qualname not in cache:
            s = set()
            for k in self.prog.mro(cls):
                for f in list(k.methods.values()) + list(k.setters.values()):
                    for x in ast.walk(f.node):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                            s.add(x.attr)
            cache[cls.qualname] = s
        return cache[cls.qualname]

    def _overridden(self, cls, name, f, b, fr):
        if b is self.entry.selfterm:
            return False  # the entry's own class is analysed as exact
        for s in self.prog.subclasses(cls):
            g = s.methods.get(name)
            if g is not None and g is not f:
                return True
        return False

    def e_Subscript(self, n, st, fr):
        b = self.eval(n.value, st, fr)
        k = self.eval(n.slice, st, fr)
        return self.item(b, k, st, fr, n)

    def e_Slice(self, n, st, fr):
        return T("slice", *[self.eval(x, st, fr) if x is not None else NONE
                            for x in (n.lower, n.upper, n.step)])

    def item(self, b, k, st, fr, n):
        fk = self.freeze(k, st)
        if (b, "item", fk) in st.over:
            return st.over[(b, "item", fk)]
        if b.kind == "ite":
            return ite(b.args[0], self.item(b.args[1], k, st, fr, n),
                       self.item(b.args[2], k, st, fr, n))
        if b.kind == "obj":
            o = st.heap.get(b.args[0])
            if o is not None and o.kind in ("dict",):
                v = self._dict_get(o.segs, fk, st)
                if v is not None:
                    return v
            if o is not None and o.kind in ("list", "gen") and is_const(k) and isinstance(
                    k.args[0], int) and all(s.kind == "seg_item" for s in o.segs):
                i = k.args[0]
                if -len(o.segs) <= i < len(o.segs):
                    return o.segs[i].args[0]
            if o is not None and o.kind == "inst" and o.cls is not None:
                f = self.prog.find_method(o.cls, "__getitem__")
                if f is not None:
                    return self.call_func(f, [b, k], [], st, fr, n, selfcls=o.cls)
            return T("item", self.freeze(b, st), fk)
        cls = self._one_class(self.typeof(b, st, fr)) if b.kind not in ("const", "tuple") else None
        if cls is not None:
            f = self.prog.find_method(cls, "__getitem__")
            if f is not None and not f.is_abstract:
                return self.call_func(f, [b, k], [], st, fr, n, selfcls=cls)
        if b.kind in ("tuple", "list") and k.kind == "slice":
            xs = b.args
            lo, hi, stp = k.args
            if all(is_const(x) for x in (lo, hi, stp)) and all(
                    x.kind not in ("each", "splat", "segcond") for x in xs):
                return T(b.kind, *xs[slice(lo.args[0], hi.args[0], stp.args[0])])
        self.event("getitem", st, fr, n, base=b, key=fk)
        return simplify(T("item", b, fk))

    def _dict_get(self, segs, key, st):
        for s in reversed(segs):
            if s.kind == "kv":
                if self.freeze(s.args[0], st) is key:
                    return s.args[1]
                if s.args[0].kind == "const" and key.kind == "const":
                    continue
                return None
            if s.kind == "segcond":
                a = self._dict_get(s.args[1], key, st)
                b = self._dict_get(s.args[2], key, st)
                if a is None and b is None:
                    if all(x.kind == "kv" and x.args[0].kind == "const"
                           for x in s.args[1] + s.args[2]):
                        continue
                    return None
                return ite(s.args[0], a if a is not None else UNDEF,
                           b if b is not None else UNDEF)
            return None
        return None

    def e_Tuple(self, n, st, fr):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.e_List(n, st, fr)
        return T("tuple", *[self.eval(e, st, fr) for e in n.elts])

    def e_List(self, n, st, fr):
        segs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st, fr)
                segs.extend(self.splat(v, st))
            else:
                segs.append(T("seg_item", self.eval(e, st, fr)))
        return self.new_obj(st, fr, n, "set" if isinstance(n, ast.Set) else "list", segs=segs)

    e_Set = e_List

    def splat(self, v, st):
        if v.kind == "obj":
            o = st.heap.get(v.args[0])
            if o is not None and o.kind in ("list", "gen"):
                return list(o.segs)
        if v.kind == "tuple":
            return [T("seg_item", x) for x in v.args]
        return [T("ext", v)]

    def e_Dict(self, n, st, fr):
        segs = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.eval(v, st, fr)
                if x.kind == "obj" and x.args[0] in st.heap and st.heap[x.args[0]].kind == "dict":
                    segs.extend(st.heap[x.args[0]].segs)
                elif x.kind == "ite":
                    segs.extend(self._dsplat_ite(x, st))
                else:
                    segs.append(T("ext", x))
            else:
                segs.append(T("kv", self.eval(k, st, fr), self.eval(v, st, fr)))
        return self.new_obj(st, fr, n, "dict", segs=segs)

    def _dsplat_ite(self, x, st):
        def one(y):
            if y.kind == "ite":
                return tuple(self._dsplat_ite(y, st))
            if y.kind == "obj" and y.args[0] in st.heap and st.heap[y.args[0]].kind == "dict":
                return tuple(st.heap[y.args[0]].segs)
            return (T("ext", y),)
        return self._segcond(x.args[0], one(x.args[1]), one(x.args[2]))

    def comp(self, n, st, fr, kind, make):
        # comprehension variables live in the current frame; restore shadowed names
        names = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        saved = {k: st.frames[fr.fid].get(k) for k in names}
        base = st.pc

        def gen(i):
            if i == len(n.generators):
                return make(st)
            g = n.generators[i]
            it = self.eval(g.iter, st, fr)
            self.event("iterate", st, fr, g, iter=it)
            un = self.unrolled(it, st)
            if un is not None:
                out = ()
                for v in un:
                    self.assign(g.target, v, st, fr, n)
                    out = out + self._filtered(g, st, fr, lambda: gen(i + 1))
                return out
            site = self.fresh()
            src, val, facts = self.elem_of(it, st, site)
            prev = st.pc
            st.pc = st.pc + ((T("iter", site, src), True),) + facts
            self.assign(g.target, val, st, fr, n)
            fr.loops.append((site, src))
            inner = self._filtered(g, st, fr, lambda: gen(i + 1))
            fr.loops.pop()
            st.pc = prev
            for c, p in reversed(facts):
                inner = self._segcond(c if p else neg(c), inner, ())
            return (T("each", site, src, tuple(inner)),)

        segs = gen(0)
        st.pc = base
        for k, v in saved.items():
            if v is None:
                st.frames[fr.fid].pop(k, None)
            else:
                st.frames[fr.fid][k] = v
        return self.new_obj(st, fr, n, kind, segs=segs)

    def _filtered(self, g, st, fr, body):
        prev = st.pc
        conds = []
        for i in g.ifs:
            c = self.cond(i, st, fr)
            conds.append(c)
            st.pc = st.pc + self._pcitems(c, True)
        inner = tuple(body())
        st.pc = prev
        c = conj(*conds) if conds else TRUE
        return self._segcond(c, inner, ())

    def e_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, "list", lambda s: (T("seg_item", self.eval(n.elt, s, fr)),))

    def e_GeneratorExp(self, n, st, fr):
        return self.comp(n, st, fr, "gen", lambda s: (T("seg_item", self.eval(n.elt, s, fr)),))

    def e_SetComp(self, n, st, fr):
        return self.comp(n, st, fr, "set", lambda s: (T("seg_item", self.eval(n.elt, s, fr)),))

    def e_DictComp(self, n, st, fr):
        return self.comp(n, st, fr, "dict", lambda s: (
            T("kv", self.eval(n.key, s, fr), self.eval(n.value, s, fr)),))

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                x = self.eval(v.value, st, fr)
                spec = "" if v.format_spec is None else ast.unparse(v.format_spec)
                parts.append(T("fmt", self.freeze(x, st), v.conversion, spec))
            else:
                parts.append(const(v.value))
        if len(parts) == 1 and parts[0].kind == "const":
            return parts[0]
        return T("fstr", *parts)

    def e_Lambda(self, n, st, fr):
        return self.closure(FuncInfo(f"{fr.func.qualname}.<lambda>", fr.module, n), fr, st)

    def e_Starred(self, n, st, fr):
        return T("star", self.eval(n.value, st, fr))

    def e_NamedExpr(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        self.assign(n.target, v, st, fr, n)
        return v

    def e_Await(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_Yield(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else NONE
        self.event("yield", st, fr, n, value=v)
        if fr.gen is not None:
            o = st.heap[fr.gen.args[0]]
            st.heap[o.oid] = o.with_(segs=o.segs + (T("seg_item", v),))
        return T("sent", self.fresh())

    def e_YieldFrom(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        if fr.gen is not None:
            o = st.heap[fr.gen.args[0]]
            st.heap[o.oid] = o.with_(segs=o.segs + tuple(self.splat(v, st)))
        return T("sent", self.fresh())

    def e_IfExp(self, n, st, fr):
        c = self.cond(n.test, st, fr)
        return self.eval_branch(c, st, fr, lambda s: self.eval(n.body, s, fr),
                                lambda s: self.eval(n.orelse, s, fr))

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        vals = []
        prev = st.pc

        def rec(i, s):
            v = self.eval(n.values[i], s, fr)
            if i == len(n.values) - 1:
                return v
            c = self.truth(v, s, fr)
            if c.kind == "const":
                if bool(c.args[0]) == isand:
                    return rec(i + 1, s)
                return v
            sb = s.copy()
            sb.pc = sb.pc + self._pcitems(c, isand)
            rest = rec(i + 1, sb)
            m, _ = self.merge2(c if isand else neg(c), sb, s)
            s.frames, s.heap, s.over = m.frames, m.heap, m.over
            boolish = v.kind in ("cmp", "not", "isinstance", "and", "or") or c is not v
            if boolish or rest.kind in ("cmp", "not", "isinstance", "and", "or"):
                r = self.truth(rest, s, fr)
                if isand:
                    return conj(c, r)
                if v.kind in ("cmp", "not", "isinstance", "and", "or"):
                    return disj(c, r)
            if v.kind in ("param", "attr", "item", "elem", "larg", "loopvar") and rest.kind in (
                    "param", "attr", "item", "elem", "const", "list", "dict", "tuple", "set",
                    "bin", "inst", "modconst", "larg", "obj", "ite", "call") and not isbool(rest):
                return T("ite", c, rest, v) if isand else T("ite", c, v, rest)
            return T("and" if isand else "or", v, rest)

        v = rec(0, st)
        st.pc = prev
        return v

    def e_UnaryOp(self, n, st, fr):
        v = self.eval(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return neg(self.truth(v, st, fr))
        if isinstance(n.op, ast.USub):
            if v.kind == "const" and isinstance(v.args[0], (int, float, complex)):
                return const(-v.args[0])
            cls = self._cls_of(v, st, fr)
            if cls is not None:
                f = self.prog.find_method(cls, "__neg__")
                if f is not None:
                    return self.call_func(f, [v], [], st, fr, n, selfcls=cls)
            return T("un", "-", self.freeze(v, st))
        return T("un", {"UAdd": "+", "Invert": "~"}.get(type(n.op).__name__), self.freeze(v, st))

    def e_BinOp(self, n, st, fr):
        a = self.eval(n.left, st, fr)
        b = self.eval(n.right, st, fr)
        return self.binop(type(n.op).__name__, a, b, st, fr, n)

    def binop(self, op, a, b, st, fr, n):
        sym = self.OPNAME.get(op, op)
        if a.kind == "const" and b.kind == "const":
            x, y = a.args[0], b.args[0]
            try:
                if op == "Add":
                    return const(x + y)
                if op == "Sub":
                    return const(x - y)
                if op == "Mult" and not isinstance(x, str) and not isinstance(y, str):
                    return const(x * y)
                if op == "Div" and y:
                    return const(x / y)
                if op == "Pow" and abs(x) < 100 and abs(y) < 20:
                    return const(x ** y)
            except Exception:
                pass
        if op == "Add":
            la, lb = self._listlike(a, st), self._listlike(b, st)
            if la is not None and lb is not None:
                if a.kind == "tuple" and b.kind == "tuple":
                    return T("tuple", *(a.args + b.args))
                return self.new_obj(st, fr, n, "list", segs=la + lb)
            if la is not None or lb is not None:
                x = la if la is not None else [T("ext", a)]
                y = lb if lb is not None else [T("ext", b)]
                if (la is None or lb is None):
                    return self.new_obj(st, fr, n, "list", segs=list(x) + list(y))
        ca = self._cls_of(a, st, fr)
        if ca is not None:
            f = self.prog.find_method(ca, self.DUNDER.get(op, ""))
            if f is not None and self.inlinable(f, fr):
                return self.call_func(f, [a, b], [], st, fr, n, selfcls=ca)
            if f is not None:
                self.opaque_effects(f, [a, b], [], st, fr, n)
        fa, fb = self.freeze(a, st), self.freeze(b, st)
        self.event("binop", st, fr, n, op=sym, left=a, right=b)
        return T("bin", sym, fa, fb)

    def _listlike(self, t, st):
        if t.kind == "tuple":
            return [T("seg_item", x) for x in t.args]
        if t.kind == "obj":
            o = st.heap.get(t.args[0])
            if o is not None and o.kind == "list":
                return list(o.segs)
        if t.kind == "ext" and False:
            return None
        return None

    def e_Compare(self, n, st, fr):
        left = self.eval(n.left, st, fr)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st, fr)
            o = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=",
                 "Is": "is", "IsNot": "is not", "In": "in", "NotIn": "not in"}[type(op).__name__]
            if o in ("is", "is not", "==", "!=") and left.kind == "ite" and right is NONE:
                c = ite(left.args[0], cmp("is" if "=" not in o else "==", left.args[1], right),
                        cmp("is" if "=" not in o else "==", left.args[2], right))
                c = self.truth(c, st, fr)
                out.append(neg(c) if o in ("is not", "!=") else c)
            else:
                self.event("compare", st, fr, n, op=o, left=left, right=right)
                out.append(cmp(o, self.freeze(left, st), self.freeze(right, st)))
            left = right
        return conj(*out) if len(out) > 1 else out[0]

    # ------------------------------------------------------------------ typing
    def typeof(self, t, st, fr, depth=0):
        if depth > 6:
            return None
        for c, p in st.pc:
            if p and c.kind == "isinstance" and c.args[0] is t and c.args[1].kind == "cls":
                k = self.prog.classes.get(c.args[1].args[0])
                if k is not None:
                    return ("cls", k)
        k = t.kind
        if k == "larg":
            return self.larg_types.get(t)
        if k == "param":
            r = self.entry_types.get(t.args[0])
            if r is not None and r[0] == "union":
                ms = list(r[1])
                for c, p in st.pc:
                    if not p and c.kind == "isinstance" and c.args[0] is t:
                        names = self._isinst_names(c.args[1])
                        ms = [m for m in ms if self._tyname(m) not in names]
                    if not p and c.kind == "cmp" and c.args[0] == "is" and c.args[1] is t \
                            and c.args[2] is NONE:
                        ms = [m for m in ms if m != ("prim", "None")]
                r = ty.union(ms) if ms else r
            return r
        if k == "const":
            return ("prim", type(t.args[0]).__name__ if t.args[0] is not None else "None")
        if k == "tuple":
            return ("tuple", tuple(None for _ in t.args))
        if k == "fstr":
            return ("prim", "str")
        if k == "copied":
            return self.typeof(t.args[1], st, fr, depth + 1)
        if k == "inst":
            c = self.prog.classes.get(t.args[0])
            return ("cls", c) if c is not None else None
        if k in ("list", "dict", "set"):
            return {"list": ("list", None, "list"), "dict": ("dict", None, None),
                    "set": ("set", None)}[k]
        if k == "obj":
            o = st.heap.get(t.args[0])
            if o is None:
                return None
            if o.kind == "inst":
                return ("cls", o.cls) if o.cls else None
            return {"list": ("list", None, "list"), "dict": ("dict", None, None),
                    "set": ("set", None), "gen": ("list", None, "Iterator")}.get(o.kind)
        if k == "attr":
            bt = self.typeof(t.args[0], st, fr, depth + 1)
            c = self._one_class(bt)
            if c is not None:
                return self.field_type(c, t.args[1])
            return None
        if k in ("elem", "item"):
            bt = self.typeof(t.args[0], st, fr, depth + 1)
            bt = ty.without_none(bt) if bt else None
            if bt is None:
                return None
            if bt[0] == "list":
                if k == "item" and t.args[1].kind == "slice":
                    return bt
                return bt[1]
            if bt[0] == "vtuple":
                return bt[1]
            if bt[0] == "set":
                return bt[1]
            if bt[0] == "dict":
                return bt[1] if k == "elem" else bt[2]
            if bt[0] == "tuple" and k == "item" and is_const(t.args[1]) and isinstance(
                    t.args[1].args[0], int):
                i = t.args[1].args[0]
                if -len(bt[1]) <= i < len(bt[1]):
                    return bt[1][i]
            if bt[0] == "ndarray" and k == "item" and t.args[1].kind == "slice":
                return bt
            return None
        if k == "ite":
            a = self.typeof(t.args[1], st, fr, depth + 1)
            b = self.typeof(t.args[2], st, fr, depth + 1)
            return ty.union([a, b]) if a and b else None
        if k in ("loopvar",):
            a = self.typeof(t.args[2], st, fr, depth + 1)
            c = self.carried.get((t.args[0], t.args[1]))
            if c is None or a is None or t in self._tybusy:
                return a
            self._tybusy.add(t)
            try:
                b = self.typeof(c, st, fr, depth + 1)
            finally:
                self._tybusy.discard(t)
            return ty.union([a, b]) if b else a
        if k == "loopres":
            a = self.typeof(t.args[3], st, fr, depth + 1)
            return a
        if k in ("cmp", "not", "isinstance"):
            return ("prim", "bool")
        if k == "inplace":
            return self.typeof(t.args[1], st, fr, depth + 1)
        if k in ("list", "dict", "set"):
            return {"list": ("list", None, "list"), "dict": ("dict", None, None),
                    "set": ("set", None)}[k]
        if k == "inst":
            c = self.prog.classes.get(t.args[0])
            return ("cls", c) if c else None
        if k == "call":
            f = t.args[0]
            if f.kind == "func":
                fi = self.prog.funcs.get(f.args[0])
                return self.ret_type(fi)
            if f.kind == "cls":
                c = self.prog.classes.get(f.args[0])
                return ("cls", c) if c else None
            if f.kind in ("bound", "vmeth"):
                fi = self.prog.funcs.get(f.args[1])
                return self.ret_type(fi)
            if f.kind == "typeof":
                return self.typeof(f.args[0], st, fr, depth + 1)
            if f.kind == "ext":
                nm = f.args[0]
                if nm in ("copy.copy", "copy.deepcopy") and t.args[1]:
                    return self.typeof(t.args[1][0], st, fr, depth + 1)
                if nm in ("len", "int", "round", "ord", "hash", "id"):
                    return ("prim", "int")
                if nm in ("float", "abs"):
                    return ("prim", "float")
                if nm in ("str", "repr", "format"):
                    return ("prim", "str")
                if nm == "range":
                    return ("list", ("prim", "int"), "range")
                if nm in ("sorted", "list"):
                    return ("list", None, "list")
                if nm.startswith("numpy.") and nm.split(".")[-1] in (
                        "array", "zeros", "ones", "empty", "asarray", "zeros_like", "copy",
                        "eye", "linspace", "arange", "concatenate"):
                    return ("ndarray",)
        return None

    def _isinst_names(self, t):
        xs = t.args if t.kind == "tuple" else (t,)
        return {str(x.args[0]).split(".")[-1] for x in xs if x.kind in ("cls", "ext")}

    def _tyname(self, m):
        if m[0] == "prim":
            return m[1]
        if m[0] == "cls":
            return m[1].name
        if m[0] == "ext":
            return m[1].split(".")[-1]
        if m[0] in ("list",):
            return "list"
        if m[0] == "vtuple" or m[0] == "tuple":
            return "tuple"
        return m[0]

    def ret_type(self, fi):
        if fi is None or isinstance(fi.node, ast.Lambda) or fi.node.returns is None:
            return None
        return ty.from_ann(self.prog, fi.module, fi.node.returns)

    def field_type(self, c, name):
        cache = self.prog.__dict__.setdefault("_ftypes", {})
        key = (c.qualname, name)
        if key in cache:
            return cache[key]
        cache[key] = None
        r = None
        for k in self.prog.mro(c):
            if name in k.annotations:
                r = ty.from_ann(self.prog, k.module, k.annotations[name])
                break
            if name in k.methods and k.methods[name].is_property:
                r = self.ret_type(k.methods[name])
                break
            init = k.methods.get("__init__")
            if init is not None:
                anns = {p[0]: p for p in init.params()}
                for x in ast.walk(init.node):
                    tgt = val = ann = None
                    if isinstance(x, ast.Assign) and len(x.targets) == 1:
                        tgt, val = x.targets[0], x.value
                    elif isinstance(x, ast.AnnAssign):
                        tgt, val, ann = x.target, x.value, x.annotation
                    if isinstance(tgt, ast.Attribute) and isinstance(
                            tgt.value, ast.Name) and tgt.value.id == "self" and tgt.attr == name:
                        if ann is not None:
                            r = ty.from_ann(self.prog, k.module, ann)
                        elif isinstance(val, ast.Name) and val.id in anns:
                            r = ty.from_ann(self.prog, k.module, anns[val.id][1])
                        elif isinstance(val, (ast.List, ast.ListComp)):
                            r = ("list", None, "list")
                        elif isinstance(val, (ast.Dict, ast.DictComp)):
                            r = ("dict", None, None)
                        elif isinstance(val, ast.Constant) and val.value is not None:
                            r = ("prim", type(val.value).__name__)
                        elif isinstance(val, ast.Call):
                            e = self.prog.resolve_expr(k.module, val.func) if isinstance(
                                val.func, (ast.Name, ast.Attribute)) else None
                            if isinstance(e, ClassInfo):
                                r = ("cls", e)
                            elif isinstance(e, FuncInfo):
                                r = self.ret_type(e)
                        break
                if r is not None:
                    break
        cache[key] = r
        return r

    # ------------------------------------------------------------------- calls
    def e_Call(self, n, st, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            return self._super(n, st, fr)
        f = self.eval(n.func, st, fr)
        args, kwargs = [], []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                if v.kind == "tuple":
                    args.extend(v.args)
                elif v.kind == "obj" and v.args[0] in st.heap and all(
                        s.kind == "seg_item" for s in st.heap[v.args[0]].segs) and st.heap[
                            v.args[0]].kind in ("list",):
                    args.extend(s.args[0] for s in st.heap[v.args[0]].segs)
                else:
                    args.append(T("star", v))
            else:
                args.append(self.eval(a, st, fr))
        for k in n.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                if v.kind == "obj" and v.args[0] in st.heap and st.heap[v.args[0]].kind == "dict" \
                        and all(s.kind == "kv" and is_const(s.args[0])
                                for s in st.heap[v.args[0]].segs):
                    kwargs.extend((s.args[0].args[0], s.args[1]) for s in st.heap[v.args[0]].segs)
                else:
                    kwargs.append(("**", v))
            else:
                kwargs.append((k.arg, v))
        return self.apply(f, args, kwargs, st, fr, n)

    def _super(self, n, st, fr):
        p = fr
        while p is not None and p.cls is None and p.parent is not None:
            p = p.parent
        cls = p.cls
        selft = p.selfterm
        if n.args:
            a0 = self.eval(n.args[0], st, fr)
            if a0.kind == "cls":
                cls = self.prog.classes.get(a0.args[0], cls)
            if len(n.args) > 1:
                selft = self.eval(n.args[1], st, fr)
        if cls is None or selft is None:
            return T("unknown", "super")
        dyn = self._cls_of(selft, st, fr) or (
            self.prog.classes.get(selft.args[0]) if selft.kind == "cls" else None) or cls
        mro = self.prog.mro(dyn)
        i = mro.index(cls) if cls in mro else -1
        return T("super", cls.qualname, selft, tuple(k.qualname for k in mro[i + 1:]))

    def apply(self, f, args, kwargs, st, fr, n):
        k = f.kind
        if k == "ite":
            return self.eval_branch(
                f.args[0], st, fr,
                lambda s: self.apply(f.args[1], args, kwargs, s, fr, n),
                lambda s: self.apply(f.args[2], args, kwargs, s, fr, n))
        if k == "func":
            fi = self.prog.funcs.get(f.args[0])
            if fi is not None:
                d = self.prog.dispatch()
                if fi in d:
                    return self._dispatch(fi, d[fi], args, kwargs, st, fr, n)
                return self.call_func(fi, args, kwargs, st, fr, n)
        if k == "bound":
            fi = self.prog.funcs.get(f.args[1])
            if fi is not None:
                selfcls = None
                if f.args[0].kind == "cls":
                    selfcls = self.prog.classes.get(f.args[0].args[0])
                else:
                    selfcls = self._cls_of(f.args[0], st, fr)
                return self.call_func(fi, [f.args[0]] + args, kwargs, st, fr, n, selfcls=selfcls)
        if k == "vmeth":
            return self._virtual(f, args, kwargs, st, fr, n)
        if k == "cls":
            c = self.prog.classes.get(f.args[0])
            if c is not None:
                return self.construct(c, args, kwargs, st, fr, n)
        if k == "typeof":
            c = self._cls_of(f.args[0], st, fr)
            if c is not None:
                return self.construct(c, args, kwargs, st, fr, n, dyn=f)
        if k == "closure":
            fi, pfr = self.closures[f.args[0]]
            return self.call_func(fi, args, kwargs, st, fr, n, closure=pfr)
        if k == "partial":
            return self.apply(f.args[0], list(f.args[1]) + args,
                              list(f.args[2]) + kwargs, st, fr, n)
        if k == "ext":
            return self.call_ext(f, args, kwargs, st, fr, n)
        if k == "attr":
            return self.call_method(f, args, kwargs, st, fr, n)
        cls = self._cls_of(f, st, fr) if k not in ("unknown",) else None
        if cls is not None:
            m = self.prog.find_method(cls, "__call__")
            if m is not None and not m.is_abstract and not self.prog.is_protocol(m.cls):
                return self.call_func(m, [f] + args, kwargs, st, fr, n, selfcls=cls)
        return self.opaque_call(f, args, kwargs, st, fr, n)

    def _dispatch(self, generic, regs, args, kwargs, st, fr, n):
        if args:
            t = self.typeof(args[0], st, fr)
            t = ty.without_none(t) if t else None
            if t is not None and t[0] != "union":
                best = None
                for ent, impl in regs:
                    if isinstance(ent, ClassInfo) and t[0] == "cls" and self.prog.is_subclass(
                            t[1], ent):
                        if best is None or self.prog.is_subclass(ent, best[0]):
                            best = (ent, impl)
                    elif isinstance(ent, tuple) and ent[0] == "builtin" and self._tyname(t) == ent[1]:
                        best = (ent, impl)
                    elif isinstance(ent, tuple) and ent[0] == "ext" and t[0] == "ext" and \
                            ent[1].split(".")[-1] == t[1].split(".")[-1]:
                        best = (ent, impl)
                if best is not None and not (t[0] == "cls" and self.prog.is_protocol(t[1])):
                    return self.call_func(best[1], args, kwargs, st, fr, n)
        for ent, impl in regs:
            self.opaque_effects(impl, args, kwargs, st, fr, n)
        return self.opaque_call(T("func", generic.qualname), args, kwargs, st, fr, n,
                                effects=False)

    def _virtual(self, f, args, kwargs, st, fr, n):
        base, q = f.args
        fi = self.prog.funcs.get(q)
        cands = [fi]
        for s in self.prog.subclasses(fi.cls):
            g = s.methods.get(fi.name)
            if g is not None:
                cands.append(g)
        if self.prog.is_protocol(fi.cls):
            for c in self.prog.classes.values():
                g = c.methods.get(fi.name)
                if g is not None and g not in cands and self._structural(c, fi.cls):
                    cands.append(g)
        for g in cands:
            self.opaque_effects(g, [base] + args, kwargs, st, fr, n)
        return self.opaque_call(T("attr", base, fi.name), args, kwargs, st, fr, n, effects=False,
                                entity=fi)

    def _structural(self, c, proto):
        ms = [m for m in proto.methods if not m.startswith("_")]
        return bool(ms) and all(
            self.prog.find_method(c, m) is not None or m in c.annotations for m in ms)

    def inlinable(self, fi, fr):
        if fi.qualname in self.opaque or (self.no_inline and self.no_inline(fi)):
            return False
        if fr.depth >= self.max_depth:
            self.deep = True
            return False
        if fi.qualname in fr.stack:
            return False
        for d in fi.decorators:
            if d is None:
                return False
            last = d.split(".")[-1]
            if last in ("contextmanager", "singledispatch"):
                return False
        return True

    def bind(self, fi, args, kwargs, st, fr, n):
        """Parameter environment for a call, or None if it cannot be bound exactly."""
        env = {}
        ps = fi.params()
        pos = [p for p in ps if p[3] == "pos"]
        var = next((p for p in ps if p[3] == "vararg"), None)
        kwa = next((p for p in ps if p[3] == "kwarg"), None)
        rest = []
        unknown = False
        for i, a in enumerate(args):
            if a.kind == "star":
                unknown = True
                if var is not None and i >= len(pos):
                    rest.extend(self.splat(a.args[0], st))
                    continue
                remaining = pos[i:]
                for j, p in enumerate(remaining):
                    if p[0] not in env and not any(k == p[0] for k, _ in kwargs):
                        env[p[0]] = T("item", a.args[0], const(j))
                if var is not None:
                    rest.append(T("ext", T("item", a.args[0], T(
                        "slice", const(len(remaining)), NONE, NONE))))
                break
            if i < len(pos):
                env[pos[i][0]] = a
            elif var is not None:
                rest.append(T("seg_item", a))
        extra = []
        names = {p[0] for p in ps if p[3] in ("pos", "kwonly")}
        for k, v in kwargs:
            if k == "**":
                extra.append(T("ext", v))
                for p in ps:
                    if p[3] in ("pos", "kwonly") and p[0] not in env and not any(
                            kk == p[0] for kk, _ in kwargs):
                        if p[2] is None:
                            env[p[0]] = T("item", v, const(p[0]))
                        else:
                            env[p[0]] = T("kwget", v, p[0])
            elif k in names:
                env[k] = v
            else:
                extra.append(T("kv", const(k), v))
        mod_fr = Frame(func=fi, module=fi.module, fid=-1, cls=fi.cls, depth=fr.depth,
                       stack=fr.stack, loops=[], returns=[])
        for p in ps:
            if p[3] in ("pos", "kwonly") and p[0] not in env:
                if p[2] is not None:
                    st.frames[-1] = {}
                    env[p[0]] = self.eval(p[2], st, mod_fr)
                    st.frames.pop(-1, None)
                    if not isinstance(p[2], ast.Constant) and env[p[0]].kind == "obj":
                        env[p[0]] = T("default", fi.qualname, p[0])
                else:
                    env[p[0]] = T("missingarg", fi.qualname, p[0])
        if var is not None:
            if all(s.kind == "seg_item" for s in rest):
                env[var[0]] = T("tuple", *[s.args[0] for s in rest])
            else:
                env[var[0]] = self.new_obj(st, fr, n, "list", segs=rest)
        if kwa is not None:
            env[kwa[0]] = self.new_obj(st, fr, n, "dict", segs=extra)
        return env

    def call_func(self, fi, args, kwargs, st, fr, n, selfcls=None, closure=None, prop=False):
        if fi.cls is not None and not fi.is_static and not fi.is_class and closure is None:
            pass
        if not self.inlinable(fi, fr):
            ft = T("func", fi.qualname)
            if fi.cls is not None and args and not fi.is_static:
                if prop:
                    return T("attr", self.freeze(args[0], st), fi.name)
                self.opaque_effects(fi, args, kwargs, st, fr, n)
                return self.opaque_call(T("bound", args[0], fi.qualname), args[1:], kwargs, st,
                                        fr, n, effects=False, entity=fi)
            if closure is not None:
                return self.opaque_call(T("localfunc", fi.qualname), args, kwargs, st, fr, n,
                                        effects=False, entity=fi)
            self.opaque_effects(fi, args, kwargs, st, fr, n)
            return self.opaque_call(ft, args, kwargs, st, fr, n, effects=False, entity=fi)
        env = self.bind(fi, args, kwargs, st, fr, n)
        cfr = Frame(func=fi, module=fi.module, fid=self.fresh(), cls=fi.cls, returns=[],
                    parent=closure, loops=list(fr.loops), depth=fr.depth + 1,
                    stack=fr.stack + (fi.qualname,), captured=False)
        ps = fi.params()
        if fi.cls is not None and ps and not fi.is_static and closure is None:
            cfr.selfterm = env[ps[0][0]]
            cfr.selfcls = selfcls
        ev = self.event("call", st, fr, n, func=T("func", fi.qualname), entity=fi,
                        args=tuple(args), kwargs=tuple(kwargs), inlined=True)
        st.frames[cfr.fid] = env
        work = st.copy()
        prevctx = self._loopctx
        self._loopctx = None
        value, out = self._run_body(fi, cfr, work)
        self._loopctx = prevctx
        if out is None:
            # every path raises
            st.pc = st.pc + ((T("noreturn"), True),)
            st.frames.pop(cfr.fid, None)
            return T("noreturn")
        st.frames, st.heap, st.over = out.frames, out.heap, out.over
        st.pc = out.pc
        if not cfr.captured:
            st.frames.pop(cfr.fid, None)
        ev.d["result"] = value
        return value

    # summaries of non-inlined repo callees: which parameters they may modify
    def summary(self, fi):
        if fi.qualname in self.prog.__dict__.setdefault("_summ", {}):
            return self.prog._summ[fi.qualname]
        if fi.qualname in self.summary_stack or len(self.summary_stack) > 4:
            return frozenset()
        sub = Interp(self.prog, opaque=(), max_depth=3, budget=4000)
        sub.summary_stack = self.summary_stack + (fi.qualname,)
        sub.objectish = self.objectish_params(fi)
        try:
            r = sub.run(fi)
        except RecursionError:
            self.prog._summ[fi.qualname] = frozenset()
            return frozenset()
        out = set()
        for e in r.events:
            if e.kind == "mutate":
                for root, path in self.roots(e.d["target"]):
                    out.add(root)
        out = frozenset(out)
        if not self.summary_stack:
            self.prog._summ[fi.qualname] = out
        return out

    objectish = ()

    def objectish_params(self, fi):
        """Unannotated parameters the function treats as objects (attribute access,
        subscripting or iteration): in-place operators on them count as mutation."""
        names = {p[0] for p in fi.params() if p[1] is None}
        out = set()
        body = fi.node.body if isinstance(fi.node.body, list) else [fi.node.body]
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and \
                        x.value.id in names and x.attr not in (
                            "real", "imag", "conjugate", "conj"):
                    out.add(x.value.id)
                elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and \
                        x.value.id in names:
                    out.add(x.value.id)
        return out

    def captured(self, fi):
        """Fields of its parameters a function's nested functions assign: [(parameter, field)]."""
        memo = self.prog.__dict__.setdefault("_captured", {})
        if fi.qualname not in memo:
            out = []
            names = {p[0] for p in fi.params()}
            for x in ast.walk(fi.node):
                if x is not fi.node and isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    for y in ast.walk(x):
                        if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and \
                                isinstance(y.value, ast.Name) and y.value.id in names:
                            out.append((y.value.id, y.attr))
            memo[fi.qualname] = out
            for x in ast.walk(fi.node):
                # passed on as it is
                g = fi.module.bindings.get(x.func.id) if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Name) else None
                if isinstance(g, FuncInfo) and g is not fi:
                    qs = [q[0] for q in g.params()]
                    for q, field in self.captured(g):
                        a = x.args[qs.index(q)] if qs.index(q) < len(x.args) else next(
                            (k.value for k in x.keywords if k.arg == q), None)
                        if isinstance(a, ast.Name) and a.id in names:
                            out.append((a.id, field))
            memo[fi.qualname] = sorted(set(out))
        return memo[fi.qualname]

    def opaque_effects(self, fi, args, kwargs, st, fr, n):
        if fi is None:
            return
        for p, field in self.captured(fi):
            # an object kept by a function that may assign its field at any later time
            pos = [q[0] for q in fi.params() if q[3] == "pos"]
            v = dict(kwargs).get(p)
            if v is None and p in pos and pos.index(p) < len(args):
                v = args[pos.index(p)]
            if v is not None and v.kind == "obj" and v.args[0] in st.heap:
                o = st.heap[v.args[0]]
                if o.kind == "inst":
                    kept = T("kept", T("func", fi.qualname), p, field)
                    st.heap[o.oid] = o.with_(fields={**o.fields, field: kept})
        muts = self.summary(fi)
        if not muts:
            return
        ps = [p for p in fi.params()]
        pos = [p[0] for p in ps if p[3] == "pos"]
        for i, a in enumerate(args):
            nm = pos[i] if i < len(pos) else None
            if nm in muts:
                self.mutate(a.args[0] if a.kind == "star" else a, st, fr, n,
                            f"passed to {fi.name}()", opaque_content=True)
        for k, v in kwargs:
            if k in muts:
                self.mutate(v, st, fr, n, f"passed to {fi.name}()", opaque_content=True)

    def opaque_call(self, f, args, kwargs, st, fr, n, effects=True, entity=None):
        fargs = tuple(self.freeze(a, st) for a in args)
        fkw = tuple((k, self.freeze(v, st)) for k, v in kwargs)
        r = T("call", self.freeze(f, st), fargs, fkw)
        self.event("call", st, fr, n, func=f, entity=entity, args=tuple(args),
                   kwargs=tuple(kwargs), inlined=False, result=r)
        if self._allocates(f):
            # two arrays allocated alike at different places are two objects
            a = self.allocs.setdefault(r, (id(n), fr.fid))
            if a != (id(n), fr.fid):
                k = self.allocs.setdefault((r, id(n), fr.fid), self.fresh())
                return T("copied", "deep", r, k)
        return r

    ALLOC = {"zeros", "ones", "zeros_like", "ones_like", "empty", "full", "array", "astype",
             "eye", "identity", "copy", "arange", "diag"}

    def _allocates(self, f):
        if f.kind == "ext" and f.args[0].startswith("numpy."):
            return f.args[0].split(".")[-1] in self.ALLOC
        return f.kind == "attr" and f.args[1] == "astype"

    def construct(self, c, args, kwargs, st, fr, n, dyn=None):
        ext = self.prog.ext_bases(c)
        if "Enum" in ext or "StrEnum" in ext:
            return self.opaque_call(T("cls", c.qualname), args, kwargs, st, fr, n)
        init = self.prog.find_method(c, "__init__")
        fields = {}
        self.event("construct", st, fr, n, cls=c, args=tuple(args), kwargs=tuple(kwargs))
        if init is None and ("NamedTuple" in ext or any(
                k.is_dataclass for k in self.prog.mro(c))):
            names = []
            for k in reversed(self.prog.mro(c)):
                if k.is_dataclass or "NamedTuple" in ext:
                    for a in k.annotations:
                        if a not in names:
                            names.append(a)
            for i, a in enumerate(args):
                if a.kind == "star":
                    for j, nm in enumerate(names[i:]):
                        fields[nm] = T("item", a.args[0], const(j))
                    break
                if i < len(names):
                    fields[names[i]] = a
            for k, v in kwargs:
                if k == "**":
                    for nm in names:
                        fields.setdefault(nm, T("kwget", v, nm))
                else:
                    fields[k] = v
            for nm in names:
                if nm not in fields:
                    for k in self.prog.mro(c):
                        if nm in k.attrs:
                            mfr = Frame(func=fr.func, module=k.module, fid=-1, loops=[],
                                        depth=fr.depth, stack=fr.stack, returns=[])
                            st.frames[-1] = {}
                            fields[nm] = self.eval(k.attrs[nm], st, mfr)
                            st.frames.pop(-1, None)
                            break
            o = self.new_obj(st, fr, n, "inst", cls=c, fields=fields)
            post = self.prog.find_method(c, "__post_init__")
            if post is not None:
                self.call_func(post, [o], [], st, fr, n, selfcls=c)
            return o
        o = self.new_obj(st, fr, n, "inst", cls=c)
        new = self.prog.find_method(c, "__new__")
        if new is not None:
            env = self.bind(new, [T("cls", c.qualname)] + list(args), list(kwargs), st, fr, n)
            first = new.params()[0][0]
            f = {f"<new {k}>": v for k, v in env.items() if k != first} if env is not None else {
                f"<new {i}>": a for i, a in enumerate(args)}
            ob = st.heap[o.args[0]]
            st.heap[ob.oid] = ob.with_(fields=f)
        if init is None:
            # plain subclass of an external class: keep arguments as pseudo fields
            if args or kwargs:
                ob = st.heap[o.args[0]]
                f = {f"<arg{i}>": a for i, a in enumerate(args)}
                f.update({k: v for k, v in kwargs})
                st.heap[ob.oid] = ob.with_(fields=f)
            return o
        if not self.inlinable(init, fr):
            self.opaque_effects(init, [o] + list(args), kwargs, st, fr, n)
            return self.opaque_call(T("cls", c.qualname), args, kwargs, st, fr, n,
                                    effects=False, entity=init)
        r = self.call_func(init, [o] + list(args), kwargs, st, fr, n, selfcls=c)
        if r is T("noreturn"):
            return r
        return o

    # ---------------------------------------------------------- external calls
    def call_ext(self, f, args, kwargs, st, fr, n):
        nm = f.args[0]
        kw = dict(kwargs)
        if nm == "isinstance" and len(args) == 2:
            return self._isinstance(args[0], args[1], st, fr)
        if nm == "type" and len(args) == 1:
            if args[0].kind == "obj":
                c = self._cls_of(args[0], st, fr)
                if c is not None:
                    return T("cls", c.qualname)
            return T("typeof", args[0])
        if nm == "getattr" and len(args) >= 2 and is_const(args[1]):
            v = self.attr(args[0], args[1].args[0], st, fr, n)
            if len(args) < 3 or self._surely_has(args[0], args[1].args[0], st, fr):
                return v
            h = self.opaque_call(T("ext", "hasattr"), list(args[:2]), [], st, fr, n)
            return ite(h, v, args[2])
        if nm in ("setattr", "object.__setattr__") and len(args) == 3:
            if is_const(args[1]):
                self.store_attr(args[0], args[1].args[0], args[2], st, fr, n)
            else:
                self.mutate(args[0], st, fr, n, "setattr")
            return NONE
        if nm in ("functools.partial",) and args:
            return T("partial", args[0], tuple(args[1:]), tuple(kwargs))
        if nm in ("typing.cast", "cast") and len(args) == 2:
            return args[1]
        if nm == "dataclasses.replace" and args:
            return self._replace(args[0], kwargs, st, fr, n)
        if nm in ("copy.copy", "copy.deepcopy") and args:
            self.event("call", st, fr, n, func=f, entity=None, args=tuple(args),
                       kwargs=tuple(kwargs), inlined=False)
            return self._copy(args[0], nm.endswith("deepcopy"), st, fr, n)
        if nm in ("list", "tuple") and len(args) <= 1 and not kwargs:
            if not args:
                return T("tuple") if nm == "tuple" else self.new_obj(st, fr, n, "list")
            if args[0].kind == "tuple" and nm == "tuple":
                return args[0]
            return self.new_obj(st, fr, n, "list", segs=self.splat(args[0], st))
        if nm == "dict" and len(args) <= 1:
            segs = []
            if args:
                a = args[0]
                if a.kind == "obj" and a.args[0] in st.heap and st.heap[a.args[0]].kind == "dict":
                    segs = list(st.heap[a.args[0]].segs)
                else:
                    segs = [T("ext", a)]
            segs += [T("kv", const(k), v) if k != "**" else T("ext", v) for k, v in kwargs]
            return self.new_obj(st, fr, n, "dict", segs=segs)
        if nm == "set" and len(args) <= 1:
            if not args:
                return self.new_obj(st, fr, n, "set")
            self.event("call", st, fr, n, func=f, entity=None, args=tuple(args),
                       kwargs=tuple(kwargs), inlined=False)
            return T("call", f, (self.freeze(args[0], st),), ())
        if nm == "map" and len(args) >= 2:
            site = self.fresh()
            parts = [self.elem_of(a, st, site) for a in args[1:]]
            src = parts[0][0] if len(parts) == 1 else T("zip", *[p[0] for p in parts])
            prev = st.pc
            st.pc = st.pc + ((T("iter", site, src), True),)
            v = self.apply(args[0], [p[1] for p in parts], [], st, fr, n)
            st.pc = prev
            return self.new_obj(st, fr, n, "gen", segs=[
                T("each", site, src, (T("seg_item", v),))])
        if nm == "bool" and len(args) == 1:
            return self.truth(args[0], st, fr)
        if nm in ("collections.defaultdict", "collections.OrderedDict", "collections.Counter"):
            self.event("call", st, fr, n, func=f, entity=None, args=tuple(args),
                       kwargs=tuple(kwargs), inlined=False)
            return self.new_obj(st, fr, n, "dict", segs=[T("ext", a) for a in (
                args[1:] if nm.endswith("defaultdict") else args)])
        if nm == "len" and len(args) == 1 and args[0].kind == "tuple":
            return const(len(args[0].args))
        if nm == "sys.exit":
            return T("noreturn")
        # callables passed to external higher-order functions
        for a in list(args) + [v for _, v in kwargs]:
            if a.kind in ("closure",):
                self._probe_closure(a, st, fr, n)
        for i in EXT_MUTATES.get(nm, ()):
            if i < len(args):
                self.mutate(args[i], st, fr, n, f"{nm}()")
        if "out" in kw and nm.startswith("numpy"):
            self.mutate(kw["out"], st, fr, n, f"{nm}(out=)")
        if nm == "next" and args and args[0].kind == "obj":
            self.mutate(args[0], st, fr, n, "next()")
        return self.opaque_call(f, args, kwargs, st, fr, n)

    def _probe_closure(self, a, st, fr, n):
        """Effects of a local function handed to external code: analyse its body once
        with unknown arguments."""
        fi, pfr = self.closures[a.args[0]]
        if fi.qualname in fr.stack:
            return
        args = [T("cbarg", self.fresh(), p[0]) for p in fi.params() if p[3] == "pos"]
        s = st.copy()
        s.pc = s.pc + ((T("callback", self.fresh()), True),)
        self.call_func(fi, args, [], s, fr, n, closure=pfr)

    def _isinstance(self, x, t, st, fr):
        if t.kind in ("tuple", "list"):
            return disj(*[self._isinstance(x, y, st, fr) for y in t.args])
        if t.kind == "obj":
            o = st.heap.get(t.args[0])
            if o is not None and all(s.kind == "seg_item" for s in o.segs):
                return disj(*[self._isinstance(x, s.args[0], st, fr) for s in o.segs])
        k = self.prog.classes.get(t.args[0]) if t.kind == "cls" else None
        if x.kind == "obj":
            o = st.heap.get(x.args[0])
            if o is not None:
                if o.kind == "inst" and o.cls is not None and k is not None:
                    return const(self.prog.is_subclass(o.cls, k)) if not self.prog.is_protocol(
                        k) else T("isinstance", x, t)
                if o.kind in ("list", "dict", "set") and t.kind == "ext" and t.args[0] in (
                        "list", "dict", "set", "str", "int", "float", "tuple"):
                    return const(o.kind == t.args[0])
                if o.kind in ("list", "dict", "set") and k is not None:
                    return FALSE
        if x.kind == "const" and t.kind == "ext" and t.args[0] in BUILTINS:
            pt = getattr(_bi, t.args[0])
            if isinstance(pt, type):
                return const(isinstance(x.args[0], pt))
        if x.kind == "const" and k is not None:
            return FALSE
        if x.kind == "tuple" and t.kind == "ext" and t.args[0] in ("tuple", "list", "str", "dict"):
            return const(t.args[0] == "tuple")
        if x.kind == "ite":
            a = self._isinstance(x.args[1], t, st, fr)
            b = self._isinstance(x.args[2], t, st, fr)
            return self.truth(ite(x.args[0], a, b), st, fr)
        # contradiction with facts already on the path
        if k is not None:
            for c, p in st.pc:
                if c.kind == "isinstance" and c.args[0] is x and c.args[1].kind == "cls":
                    q = self.prog.classes.get(c.args[1].args[0])
                    if q is None:
                        continue
                    if p and self.prog.is_subclass(q, k):
                        return TRUE
                    if not p and self.prog.is_subclass(k, q):
                        return FALSE
        return T("isinstance", self.freeze(x, st), t)

    def _replace(self, x, kwargs, st, fr, n):
        c = self._cls_of(x, st, fr)
        if c is None:
            return self.opaque_call(T("ext", "dataclasses.replace"), [x], kwargs, st, fr, n)
        names = []
        for k in reversed(self.prog.mro(c)):
            for a in k.annotations:
                if a not in names:
                    names.append(a)
        if any(k == "**" for k, _ in kwargs):
            return self.opaque_call(T("ext", "dataclasses.replace"), [x], kwargs, st, fr, n)
        kw = dict(kwargs)
        full = [(nm, kw[nm] if nm in kw else self.attr(x, nm, st, fr, n)) for nm in names]
        return self.construct(c, [], full, st, fr, n)

    def _copy(self, x, deep, st, fr, n, depth=0):
        if x.kind == "obj":
            o = st.heap.get(x.args[0])
            if o is not None and depth < 6:
                oid = self.fresh()

                def cp(v):
                    if not deep:
                        return v
                    return self._copy(v, True, st, fr, n, depth + 1)

                st.heap[oid] = Obj(oid, o.kind, o.cls, {k: cp(v) for k, v in o.fields.items()},
                                   o.segs, n, fr.func)
                return T("obj", oid)
        if x.kind in ("const", "func", "cls", "ext", "closure", "fstr"):
            return x
        r = T("call", T("ext", "copy.deepcopy" if deep else "copy.copy"),
              (self.freeze(x, st),), (), )
        # distinct copies are distinct objects
        return T("copied", "deep" if deep else "shallow", self.freeze(x, st), self.fresh())

    def call_method(self, f, args, kwargs, st, fr, n):
        b, name = f.args
        if b.kind == "obj":
            o = st.heap.get(b.args[0])
            if o is not None and o.kind in ("list", "dict", "set", "gen"):
                r = self._container_method(o, b, name, args, kwargs, st, fr, n)
                if r is not None:
                    return r
        t = self.typeof(b, st, fr)
        if name == "get" and 1 <= len(args) <= 2 and not kwargs and b.kind not in (
                "ext", "module", "cls", "super", "const"):
            fk = self.freeze(args[0], st)
            fb = self.freeze(b, st)
            for key in ((b, "item", fk), (fb, "item", fk)):
                if key in st.over:
                    return ite(T("cmp", "in", fk, fb), st.over[key],
                               args[1] if len(args) > 1 else NONE)
        if name == "_replace":
            return self._replace(b, kwargs, st, fr, n)
        if name == "copy" and not args and not kwargs:
            self.event("call", st, fr, n, func=f, entity=None, args=(), kwargs=(), inlined=False)
            return self._copy(b, False, st, fr, n) if ty.members(t) != (("ndarray",),) else \
                T("copied", "deep", self.freeze(b, st), self.fresh())
        if b.kind not in ("ext", "module", "cls", "super", "const"):
            if t is None or any(m[0] in ("list", "dict", "set", "ndarray", "ext") for m in
                                ty.members(t)):
                if name in MUTATORS:
                    immut = t is not None and ty.mutable(self.prog, t) is False
                    if not immut:
                        self.mutate(b, st, fr, n, f".{name}()", args=tuple(args) + tuple(
                            v for _, v in kwargs))
            # unknown receiver: any repo method of that name may be meant
            if t is None:
                self._name_effects(b, name, args, kwargs, st, fr, n)
        if name == "shuffle" and args:
            self.mutate(args[0], st, fr, n, ".shuffle()")
        for a in list(args) + [v for _, v in kwargs]:
            if a.kind == "closure":
                self._probe_closure(a, st, fr, n)
        return self.opaque_call(f, args, kwargs, st, fr, n)

    def _name_effects(self, b, name, args, kwargs, st, fr, n):
        if name.startswith("__"):
            return
        idx = self.prog.__dict__.get("_methidx")
        if idx is None:
            idx = {}
            for c in self.prog.classes.values():
                for m, g in c.methods.items():
                    idx.setdefault(m, []).append(g)
            self.prog._methidx = idx
        for g in idx.get(name, ()):
            if g.is_property or g.is_static or g.is_class:
                continue
            self.opaque_effects(g, [b] + list(args), kwargs, st, fr, n)

    def extend_list(self, b, v, st, fr, n):
        self.mutate(b, st, fr, n, "extend")
        o = st.heap[b.args[0]]
        st.heap[o.oid] = o.with_(segs=o.segs + tuple(self.splat(v, st)))

    def _container_method(self, o, b, name, args, kwargs, st, fr, n):
        if o.kind == "list":
            if name == "append" and len(args) == 1:
                self.mutate(b, st, fr, n, "append")
                o = st.heap[o.oid]
                st.heap[o.oid] = o.with_(segs=o.segs + (T("seg_item", args[0]),))
                self.event("append", st, fr, n, base=b, value=args[0])
                return NONE
            if name == "extend" and len(args) == 1:
                self.extend_list(b, args[0], st, fr, n)
                return NONE
            if name == "insert" and len(args) == 2 and is_const(args[0], 0):
                self.mutate(b, st, fr, n, "insert")
                o = st.heap[o.oid]
                st.heap[o.oid] = o.with_(segs=(T("seg_item", args[1]),) + o.segs)
                return NONE
            if name == "copy":
                return self.new_obj(st, fr, n, "list", segs=o.segs)
            if name in MUTATORS:
                self.mutate(b, st, fr, n, name, opaque_content=True)
                return self._opq(b, name, args, kwargs, st, fr, n)
        if o.kind == "dict":
            if name == "get" and args:
                fk = self.freeze(args[0], st)
                v = self._dict_get(o.segs, fk, st)
                if v is not None:
                    return v
                if all(s.kind == "kv" and s.args[0].kind == "const" for s in o.segs) and \
                        fk.kind == "const":
                    return args[1] if len(args) > 1 else NONE
                return self._opq(b, name, args, kwargs, st, fr, n)
            if name == "update":
                self.mutate(b, st, fr, n, "update")
                o = st.heap[o.oid]
                new = []
                for a in args:
                    if a.kind == "obj" and a.args[0] in st.heap and st.heap[a.args[0]].kind == "dict":
                        new.extend(st.heap[a.args[0]].segs)
                    else:
                        new.append(T("ext", a))
                new += [T("kv", const(k), v) for k, v in kwargs if k != "**"]
                st.heap[o.oid] = o.with_(segs=o.segs + tuple(new))
                return NONE
            if name == "copy":
                return self.new_obj(st, fr, n, "dict", segs=o.segs)
            if name == "setdefault" and args:
                self.mutate(b, st, fr, n, "setdefault")
                fk = self.freeze(args[0], st)
                v = args[1] if len(args) > 1 else NONE
                o = st.heap[o.oid]
                c = T("cmp", "in", fk, self.freeze(b, st))
                st.heap[o.oid] = o.with_(segs=o.segs + self._segcond(
                    c, (), (T("kv", args[0], v),)))
                return T("item", self.freeze(b, st), fk)
            if name in ("items", "values", "keys"):
                segs = o.segs
                if all(s.kind == "kv" for s in segs):
                    vals = {"items": lambda s: T("tuple", *s.args), "values": lambda s: s.args[1],
                            "keys": lambda s: s.args[0]}[name]
                    if segs:
                        return self.new_obj(st, fr, n, "list", segs=[
                            T("seg_item", vals(s)) for s in segs])
                if len(segs) == 1 and segs[0].kind == "each" and len(segs[0].args[2]) == 1 and \
                        segs[0].args[2][0].kind == "kv":
                    kvs = segs[0].args[2][0]
                    v = {"items": T("tuple", *kvs.args), "values": kvs.args[1],
                         "keys": kvs.args[0]}[name]
                    return self.new_obj(st, fr, n, "list", segs=[
                        T("each", segs[0].args[0], segs[0].args[1], (T("seg_item", v),))])
                return self._opq(b, name, args, kwargs, st, fr, n)
            if name in MUTATORS:
                self.mutate(b, st, fr, n, name, opaque_content=True)
                return self._opq(b, name, args, kwargs, st, fr, n)
        if o.kind == "set":
            if name == "add" and args:
                self.mutate(b, st, fr, n, "add")
                o = st.heap[o.oid]
                st.heap[o.oid] = o.with_(segs=o.segs + (T("seg_item", args[0]),))
                return NONE
            if name == "update" and args and not kwargs:
                for a in args:
                    self.mutate(b, st, fr, n, "update")
                    o = st.heap[o.oid]
                    st.heap[o.oid] = o.with_(segs=o.segs + tuple(self.splat(a, st)))
                return NONE
            if name in MUTATORS:
                self.mutate(b, st, fr, n, name, opaque_content=True)
                return self._opq(b, name, args, kwargs, st, fr, n)
        return None

    def _opq(self, b, name, args, kwargs, st, fr, n):
        return self.opaque_call(T("attr", b, name), args, kwargs, st, fr, n)

    # ------------------------------------------------------------------ aliasing
    def roots(self, t, st=None, _d=0):
        """{(parameter, access path)} whose storage the term may denote."""
        if _d > 25:
            return set()
        k = t.kind
        if k == "param":
            return {(t.args[0], "")}
        if k == "larg":
            return {(f"closure argument {t.args[0]}.{t.args[1]}", "")}
        if k == "default":
            return {(f"default of {t.args[1]}", "")}
        if k == "modconst":
            return {(f"module constant {t.args[0]}", "")}
        if k == "classconst":
            return {(f"class attribute {t.args[0]}.{t.args[1]}", "")}
        if k == "attr":
            if t.args[0].kind in ("ext", "module", "cls"):
                return set()
            suffix = "" if t.args[1] in PASS_ATTRS else f".{t.args[1]}"
            if t.args[0].kind == "copied":
                if t.args[0].args[0] == "deep":
                    return set()
                return {(r, p + suffix) for r, p in self.roots(t.args[0].args[1], st, _d + 1)}
            return {(r, p + suffix) for r, p in self.roots(t.args[0], st, _d + 1)}
        if k in ("elem", "item", "rest"):
            if t.args[0].kind == "copied":
                if t.args[0].args[0] == "deep":
                    return set()
                return {(r, p + "[]") for r, p in self.roots(t.args[0].args[1], st, _d + 1)}
            if k == "item" and t.args[1].kind == "slice":
                return {(r, p + "[:]") for r, p in self.roots(t.args[0], st, _d + 1)}
            return {(r, p + "[]") for r, p in self.roots(t.args[0], st, _d + 1)}
        if k == "ite":
            return self.roots(t.args[1], st, _d + 1) | self.roots(t.args[2], st, _d + 1)
        if k in ("or", "and"):
            out = set()
            for x in t.args:
                if isinstance(x, Term):
                    out |= self.roots(x, st, _d + 1)
            return out
        if k == "loopvar":
            out = self.roots(t.args[2], st, _d + 1)
            c = self.carried.get((t.args[0], t.args[1]))
            if c is not None and t not in self._tybusy:
                self._tybusy.add(t)
                try:
                    out = out | self.roots(c, st, _d + 1)
                finally:
                    self._tybusy.discard(t)
            return out
        if k == "loopres":
            return self.roots(t.args[3], st, _d + 1) | self.roots(t.args[4], st, _d + 1)
        if k == "inplace":
            return self.roots(t.args[1], st, _d + 1)
        if k in ("enter", "star"):
            return self.roots(t.args[0], st, _d + 1)
        if k == "copied":
            return set()  # the copy itself; see attr/item below for shallow copies
        if k in ("kwget",):
            return {(r, p + "[]") for r, p in self.roots(t.args[0], st, _d + 1)}
        if k in ("reversed", "sorted", "unordered", "filtered", "zip"):
            out = set()
            for x in t.args:
                if isinstance(x, Term):
                    out |= self.roots(x, st, _d + 1)
            return out
        if k == "super":
            return self.roots(t.args[1], st, _d + 1)
        if k == "call":
            f, args, kw = t.args
            if f.kind == "ext" and f.args[0] in EXT_ALIAS:
                out = set()
                for x in args:
                    out |= self.roots(x, st, _d + 1)
                return out
            if f.kind == "ext" and f.args[0] == "numpy.array" and any(
                    kk == "copy" and is_const(v, False) for kk, v in kw) and args:
                return self.roots(args[0], st, _d + 1)
            if f.kind == "attr" and f.args[1] in ALIAS_METHODS:
                return {(r, p + "[]") for r, p in self.roots(f.args[0], st, _d + 1)}
            if f.kind == "attr" and f.args[1] == "astype" and any(
                    kk == "copy" for kk, v in kw):
                return self.roots(f.args[0], st, _d + 1)
        return set()
