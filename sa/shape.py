"""Module constants, class layouts and decorators against the reviewed reference.

The functions of a module are compared by equiv; what remains of a module's meaning is the
values its top-level names are bound to, the fields, bases, decorators and special methods of
its classes, and the decorators of its functions."""
import ast
import copy

from . import core, equiv
from .core import PROVED, UNKNOWN, VIOLATED, ob
from .model import ClassInfo, FuncInfo, dotted

SPECIAL = {
    "__eq__", "__ne__", "__hash__", "__lt__", "__le__", "__gt__", "__ge__", "__len__", "__iter__",
    "__next__", "__getitem__", "__setitem__", "__delitem__", "__contains__", "__call__", "__bool__",
    "__getattr__", "__getattribute__", "__setattr__", "__new__", "__init__", "__post_init__",
    "__add__", "__radd__", "__iadd__", "__sub__", "__rsub__", "__isub__", "__mul__", "__rmul__",
    "__imul__", "__truediv__", "__rtruediv__", "__itruediv__", "__neg__", "__pow__", "__copy__",
    "__deepcopy__", "__getstate__", "__setstate__", "__reduce__", "__reduce_ex__", "__get__",
    "__set__", "__set_name__", "__init_subclass__", "__float__", "__int__", "__index__",
    "__complex__", "__abs__", "__matmul__", "__enter__", "__exit__", "__class_getitem__"}
R = "constants and class layouts"
MEANING = {"property", "staticmethod", "classmethod", "lru_cache", "cache", "cached_property",
           "singledispatch", "singledispatchmethod", "register", "contextmanager", "setter",
           "abstractmethod", "abstractproperty", "overload", "deleter", "total_ordering",
           "dataclass", "runtime_checkable"}


def _resolve(p, m, node):
    e = p.resolve_expr(m, node) if isinstance(node, (ast.Name, ast.Attribute)) else None
    if isinstance(e, (FuncInfo, ClassInfo)):
        return e.qualname
    if isinstance(e, tuple) and e[0] in ("ext", "module"):
        return e[1]
    return ast.dump(node)


def decos(p, f, cls=None):
    """[(last name of the decorator, argument text)] in order."""
    out = []
    for d in getattr(f.node, "decorator_list", []):
        n = dotted(d)
        last = (n or "?").split(".")[-1]
        if last in ("overload",):
            continue
        arg = ""
        if isinstance(d, ast.Call):
            arg = ", ".join([_resolve(p, f.module, a) for a in d.args] + sorted(
                f"{k.arg}={_resolve(p, f.module, k.value)}" for k in d.keywords))
        if last == "abstractproperty":
            last = "property"
        out.append((last, arg))
    return out


def decodiff(p, r, f, g):
    """(definite?, found, expected) or None."""
    a, b = decos(p, f), decos(r, g)
    if a == b:
        return None
    drop = {"wraps", "abstractmethod"}
    a2, b2 = [x for x in a if x[0] not in drop], [x for x in b if x[0] not in drop]
    if a2 == b2:
        return None
    names = {x[0] for x in set(a2) ^ set(b2)} or {x[0] for x in a2}
    return names <= MEANING, a, b


# ------------------------------------------------------------------ module constants
def _assigned(body):
    out = []
    for s in body:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                out += [x.id for x in ast.walk(t) if isinstance(x, ast.Name)
                        and isinstance(x.ctx, ast.Store)]
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
            out.append(s.target.id)
        elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for n in ast.walk(s):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.append(n.id)
    return list(dict.fromkeys(out))


def _plain(body):
    return [s for s in body if not isinstance(
        s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom))]


def _pseudo(mod, owner, body, name, qual):
    def main_guard(s):
        return isinstance(s, ast.If) and "__name__" in ast.dump(s.test)
    stmts = [copy.deepcopy(s) for s in _plain(body) if not main_guard(s)]
    ret = ast.Return(ast.Name(name, ast.Load())) if name else ast.Return(ast.Constant(None))
    fn = ast.FunctionDef(name="<top level>", args=ast.arguments(
        posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None,
        defaults=[]), body=stmts + [ret], decorator_list=[], returns=None, type_comment=None,
        lineno=1, col_offset=0)
    ast.fix_missing_locations(fn)
    return FuncInfo(qual, mod, fn, None)


SKIPNAMES = {"__all__", "__version__"}


def constants(p, r, modname):
    m, g = p.modules.get(modname), r.modules.get(modname)
    out = []
    if m is None or g is None:
        return out
    have = set(_assigned(m.tree.body))
    for n in _assigned(g.tree.body):
        if n in SKIPNAMES:
            continue
        q = f"{modname}.{n}"
        if n not in have:
            out.append(ob(R, q, UNKNOWN, m.relpath, "no longer assigned here"))
            continue
        a = _pseudo(m, None, m.tree.body, n, f"{modname}.<top level>")
        b = _pseudo(g, None, g.tree.body, n, f"{modname}.<top level>")
        out.append(_cmp(p, r, a, b, q, m, ("value",)))
    return out


def _cmp(p, r, a, b, q, m, aspects):
    st, detail, path = equiv.compare_funcs(p, r, a, b, aspects)
    return ob(R, q + (f":{path}" if path else ""), st, m.relpath, detail)


# -------------------------------------------------------------------------- classes
def classes(p, r, modname):
    out = []
    for q, c in r.classes.items():
        if c.module.name != modname:
            continue
        k = p.classes.get(q)
        if k is None:
            out.append(ob(R, q, UNKNOWN, "", "class not present any more"))
            continue
        w = f"{k.file}:{k.node.lineno}"
        bad, unk = [], []
        d = decodiff(p, r, k, c)
        if d:
            (bad if d[0] else unk).append(f"decorators {d[1]} instead of {d[2]}")
        bases = [[_resolve(x, z.module, b) for b in z.node.bases] for x, z in ((p, k), (r, c))]
        if bases[0] != bases[1]:
            unk.append(f"bases {bases[0]} instead of {bases[1]}")
        if c.is_dataclass:
            fa, fb = list(k.annotations), list(c.annotations)
            if fa != fb:
                (bad if [x for x in fa if x in fb] != fb or not set(fb) <= set(fa) else
                 unk).append(f"fields {fa} instead of {fb}")
        for n in sorted(SPECIAL):
            f, g = p.find_method(k, n), r.find_method(c, n)
            if f is None and g is not None:
                bad.append(f"special method {n} is gone")
            elif f is not None and g is None and n not in ("__init__", "__post_init__", "__new__"):
                bad.append(f"special method {n} added")
            elif f is not None and g is not None and f.qualname != g.qualname:
                unk.append(f"{n} is now {f.qualname}")
        for n in sorted(c.methods):
            if n in SPECIAL:
                continue
            f = p.find_method(k, n)
            if f is None and n not in k.attrs and not n.startswith("_"):
                bad.append(f"method {n} is gone")
        if bad:
            out.append(ob(R, f"{q}:{bad[0].split(' ')[0]}", VIOLATED, w,
                          "; ".join(bad)))
        else:
            out.append(ob(R, q, UNKNOWN if unk else PROVED, w, "; ".join(unk)))
        have = set(_assigned(k.node.body))
        for n in _assigned(c.node.body):
            if n not in have:
                if c.is_dataclass and n in k.annotations:
                    out.append(ob(R, f"{q}.{n}:default", VIOLATED, w,
                                  "the field lost its default"))
                else:
                    out.append(ob(R, f"{q}.{n}", UNKNOWN, w, "no longer assigned here"))
                continue
            a = _pseudo(k.module, k, k.node.body, n, f"{q}.<class body>")
            b = _pseudo(c.module, c, c.node.body, n, f"{q}.<class body>")
            out.append(_cmp(p, r, a, b, f"{q}.{n}", k.module, ("value",)))
        for n in _assigned(k.node.body):
            if n in c.annotations and n not in _assigned(c.node.body) and c.is_dataclass:
                out.append(ob(R, f"{q}.{n}:default", UNKNOWN, w, "new default"))
    return out


def rule(modules, minimum):
    name = R
    def one(m):
        p, r = core.program(), equiv.ref_program()
        return constants(p, r, m) + classes(p, r, m)

    def run(tier):
        core.program(), equiv.ref_program()
        equiv.common(core.program(), equiv.ref_program())
        ms = [m for m in equiv.ref_program().modules if any(
            m == x or m.startswith(x + ".") for x in modules)]
        return core.pmap(one, ms)
    return {"name": name, "run": run, "min": minimum,
            "doc": "values of module and class constants, fields, bases, decorators and special "
                   "methods of classes, against the reviewed reference"}
