"""A small type lattice read off annotations (only used to resolve methods and
to tell mutable from immutable values)."""
import ast

from .model import ClassInfo, FuncInfo, dotted

PRIMS = {"int", "float", "str", "bool", "complex", "bytes", "None", "NoneType"}
LISTY = {"List", "list", "Sequence", "Iterable", "Iterator", "Collection", "Generator",
         "MutableSequence", "deque"}
DICTY = {"Dict", "dict", "Mapping", "MutableMapping", "Counter", "OrderedDict", "defaultdict"}
SETTY = {"Set", "set", "FrozenSet", "frozenset", "AbstractSet"}


def union(ts):
    out = []
    for t in ts:
        if t is None:
            return None
        for u in (t[1] if t[0] == "union" else (t,)):
            if u not in out:
                out.append(u)
    if not out:
        return None
    return out[0] if len(out) == 1 else ("union", tuple(out))


def from_ann(prog, module, node, depth=0):
    """Type of an annotation expression (None when unknown)."""
    if node is None or depth > 8:
        return None
    if isinstance(node, ast.Constant):
        if node.value is None:
            return ("prim", "None")
        if isinstance(node.value, str):
            try:
                return from_ann(prog, module, ast.parse(node.value, mode="eval").body, depth + 1)
            except SyntaxError:
                return None
        return None
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        return union([from_ann(prog, module, node.left, depth + 1),
                      from_ann(prog, module, node.right, depth + 1)])
    if isinstance(node, ast.Subscript):
        head = dotted(node.value)
        base = head.split(".")[-1] if head else None
        sl = node.slice
        elts = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
        if base == "Optional":
            return union([from_ann(prog, module, elts[0], depth + 1), ("prim", "None")])
        if base == "Union":
            return union([from_ann(prog, module, e, depth + 1) for e in elts])
        if base in LISTY:
            return ("list", from_ann(prog, module, elts[0], depth + 1), base)
        if base in SETTY:
            return ("set", from_ann(prog, module, elts[0], depth + 1))
        if base in DICTY:
            return ("dict", from_ann(prog, module, elts[0], depth + 1),
                    from_ann(prog, module, elts[1], depth + 1) if len(elts) > 1 else None)
        if base in ("Tuple", "tuple"):
            if len(elts) == 2 and isinstance(elts[1], ast.Constant) and elts[1].value is Ellipsis:
                return ("vtuple", from_ann(prog, module, elts[0], depth + 1))
            return ("tuple", tuple(from_ann(prog, module, e, depth + 1) for e in elts))
        if base == "Callable":
            return ("callable",)
        if base in ("Type", "type"):
            return ("type",)
        if base == "Literal":
            return ("prim", "str")
        if base == "Final" or base == "ClassVar":
            return from_ann(prog, module, elts[0], depth + 1)
        return from_ann(prog, module, node.value, depth + 1)
    if isinstance(node, (ast.Name, ast.Attribute)):
        d = dotted(node)
        if isinstance(node, ast.Name):
            if node.id in PRIMS:
                return ("prim", "None" if node.id == "NoneType" else node.id)
            if node.id in ("list",):
                return ("list", None, "list")
            if node.id == "dict":
                return ("dict", None, None)
            if node.id == "set":
                return ("set", None)
            if node.id == "tuple":
                return ("vtuple", None)
            if node.id == "object":
                return None
        e = prog.resolve_expr(module, node)
        return from_entity(prog, e, d, depth)
    return None


def from_entity(prog, e, name=None, depth=0):
    if isinstance(e, ClassInfo):
        return ("cls", e)
    if isinstance(e, tuple):
        if e[0] == "ext":
            last = e[1].split(".")[-1]
            if e[1] in ("typing.Any",):
                return None
            if last == "ndarray":
                return ("ndarray",)
            if last in LISTY:
                return ("list", None, last)
            if last in DICTY:
                return ("dict", None, None)
            if last in SETTY:
                return ("set", None)
            if last in ("Tuple",):
                return ("vtuple", None)
            if last == "Callable":
                return ("callable",)
            if last in ("Number", "Real", "Complex", "Integral"):
                return ("prim", "float")
            if last in ("Text", "AnyStr"):
                return ("prim", "str")
            if last in ("TextIO", "IO", "BinaryIO"):
                return ("ext", e[1])
            return ("ext", e[1])
        if e[0] == "modconst" and e[3] is not None:
            m = prog.modules[e[1]]
            v = e[3]
            if isinstance(v, (ast.Subscript, ast.Name, ast.Attribute, ast.BinOp)):
                return from_ann(prog, m, v, depth + 1)
            return None
    return None


def members(t):
    if t is None:
        return ()
    return t[1] if t[0] == "union" else (t,)


def without_none(t):
    ms = [m for m in members(t) if m != ("prim", "None")]
    return union(ms) if ms else None


def optional(t):
    return ("prim", "None") in members(t)


IMMUTABLE_EXT = {"Symbol", "Expr", "Basic", "Integer", "Float", "Rational", "Number", "PathLike",
                 "ImmutableMatrix"}


def mutable(prog, t):
    """True / False / None(unknown): may an in-place operator modify the value?"""
    if t is None:
        return None
    res = False
    for m in members(t):
        if m[0] == "prim" or m[0] in ("tuple", "vtuple", "callable", "type"):
            continue
        if m[0] in ("list", "dict", "set", "ndarray"):
            res = True
            continue
        if m[0] == "cls":
            c = m[1]
            if (c.is_dataclass and c.frozen) or "NamedTuple" in prog.ext_bases(c) \
                    or "Enum" in prog.ext_bases(c) or "StrEnum" in prog.ext_bases(c):
                continue
            res = True
            continue
        if m[0] == "ext":
            if m[1].split(".")[-1] in IMMUTABLE_EXT:
                continue
            if m[1].split(".")[-1] in ("Matrix", "spmatrix"):
                res = True
                continue
            return None if not res else True
    return res
