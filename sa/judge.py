"""Judging two different terms: may they still denote the same value?

The value graphs of the current code and of the reviewed reference have been aligned as far as
they agree; what is left are pairs of small terms.  A pair counts as a definite difference only
when the two sides are built from different inputs, or one side applies an operation that
changes values to the other side, or when both sides are plain arithmetic of different form.
Everything else stays open."""

from .terms import T, Term, const, subterms, is_const, show

LOOPY = {"loopres", "loopvar", "sofar", "with", "closure", "unknown", "objref", "loopmut", "undef",
         "opq", "exc", "iter", "while", "noreturn", "fstr", "typeof", "lambda", "copied"}
COERCE = {"list", "tuple", "int", "float", "str", "bool", "complex", "iter", "numpy.array",
          "numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.ascontiguousarray",
          "copy.copy", "copy.deepcopy", "numpy.copy", "typing.cast", "sympy.Matrix",
          "sympy.sympify", "sympy.Integer", "sympy.Float", "numpy.float64", "numpy.complex128",
          "numpy.squeeze", "numpy.ravel", "numpy.reshape", "sympy.simplify", "sympy.expand",
          "sympy.nsimplify", "sympy.N", "sympy.ImmutableMatrix", "dict", "os.fspath",
          "numpy.fromiter", "scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix", "pathlib.Path",
          "enumerate", "collections.OrderedDict", "bytes", "frozenset", "numpy.atleast_2d"}
COERCEM = {"tolist", "copy", "astype", "flatten", "ravel", "reshape", "item", "keys", "squeeze",
           "todense", "toarray", "as_mutable", "as_immutable", "evalf", "simplify", "tocsc",
           "tocsr", "tocoo", "as_explicit", "doit", "expand", "__iter__", "items"}
COERCEA = {"data", "flat", "A", "value", "args"}
CHANGEM = {"conj", "conjugate", "transpose", "adjoint", "bind", "dagger", "controlled", "strip",
           "lower", "upper", "inverse", "values", "power", "exp"}
MATH = {"min", "max", "abs", "round", "numpy.round", "numpy.abs", "numpy.absolute",
        "numpy.real", "numpy.imag", "numpy.conj", "numpy.conjugate", "numpy.transpose",
        "numpy.sqrt", "math.sqrt", "numpy.exp", "math.exp", "numpy.log", "numpy.log2",
        "numpy.log10", "math.log", "math.log2", "math.log10", "numpy.cos", "numpy.sin",
        "numpy.tan", "math.cos", "math.sin", "sympy.cos", "sympy.sin", "sympy.exp", "sympy.sqrt",
        "sympy.conjugate", "sympy.re", "sympy.im", "numpy.floor", "numpy.ceil", "math.floor",
        "math.ceil", "numpy.clip", "numpy.maximum", "numpy.minimum", "numpy.real_if_close",
        "numpy.sign", "numpy.unique", "numpy.sort", "numpy.flip", "numpy.argsort",
        "numpy.cumsum", "numpy.rint", "numpy.trunc", "math.trunc", "numpy.arccos", "numpy.arcsin",
        "math.comb", "numpy.mod", "divmod", "numpy.linalg.inv", "numpy.flipud", "numpy.fliplr",
        "numpy.amax", "numpy.amin", "numpy.max", "numpy.min", "numpy.mean", "numpy.median",
        "sorted", "reversed", "set", "networkx.Graph",
        "networkx.DiGraph", "len", "sum", "numpy.sum", "numpy.prod", "math.fsum",
        "numpy.nan_to_num", "numpy.var", "numpy.std", "numpy.diff", "numpy.square"}
# operations that, applied to a value, give another value in general
CHANGE = MATH - {"len", "sum", "numpy.sum", "math.fsum", "numpy.prod"}
# heads that can hide the same computation in another form
OPAQUE = {"sum", "numpy.sum", "math.fsum", "numpy.prod", "numpy.dot", "numpy.matmul",
          "numpy.einsum", "numpy.inner", "numpy.outer", "numpy.kron", "numpy.trace",
          "numpy.linalg.norm", "functools.reduce", "len", "sorted", "reversed", "zip", "range",
          "enumerate", "any", "all", "map", "filter", "next", "numpy.linspace", "numpy.arange",
          "numpy.where", "numpy.allclose", "math.isclose", "numpy.isclose", "numpy.mean",
          "numpy.average", "divmod", "numpy.tensordot", "numpy.vdot", "numpy.multiply",
          "numpy.concatenate", "numpy.stack", "numpy.vstack", "numpy.hstack", "numpy.pad",
          "numpy.flip", "numpy.var", "numpy.std", "set", "itertools.product",
          "itertools.chain.from_iterable", "itertools.chain", "itertools.accumulate",
          "collections.Counter", "numpy.cumsum", "numpy.full", "numpy.full_like",
          "numpy.zeros_like", "numpy.ones_like", "numpy.eye", "numpy.identity", "numpy.diag",
          "format", "repr", "getattr", "vars", "type", "id", "hash"}


def callee(t):
    if t.kind != "call":
        return None
    f = t.args[0]
    if f.kind in ("ext", "func", "cls"):
        return f.args[0]
    return None


def method(t):
    return t.args[0].args[1] if t.kind == "call" and t.args[0].kind == "attr" else None


def peel(t):
    """The term below conversions that keep the value."""
    while True:
        if t.kind in ("list", "tuple", "gen", "set") and len(t.args) == 1 and \
                t.args[0].kind in ("splat", "star"):
            t = t.args[0].args[0]
        elif t.kind in ("copied",):
            t = t.args[1]
        elif t.kind == "ite" and t.args[0].kind == "isinstance":
            a, b = peel(t.args[1]), peel(t.args[2])
            if a is not b:
                return t
            t = a
        elif t.kind == "call" and callee(t) in COERCE and t.args[1]:
            t = t.args[1][-1 if callee(t) == "typing.cast" else 0]
        elif t.kind == "call" and method(t) in COERCEM:
            t = t.args[0].args[0]
        elif t.kind == "attr" and t.args[1] in COERCEA:
            t = t.args[0]
        elif t.kind == "item" and t.args[1].kind == "slice" and all(
                is_const(x, None, 0) for x in t.args[1].args if isinstance(x, Term)):
            t = t.args[0]
        else:
            return t


ARITHM = {"add", "sub", "mul", "matmul", "truediv", "pow", "mod", "neg", "floordiv", "and", "or",
          "xor", "radd", "rsub", "rmul", "iadd", "isub", "imul"}


def operands(t):
    """Direct operands of a term, below conversions."""
    if t.kind == "call":
        xs = list(t.args[1]) + [v for _, v in t.args[2]]
        if t.args[0].kind == "attr":
            xs.insert(0, t.args[0].args[0])
    elif t.kind == "bin":
        xs = list(t.args[1:])
    elif t.kind == "un":
        xs = [t.args[1]]
    elif t.kind == "attr":
        xs = [t.args[0]]
    elif t.kind == "item":
        xs = [t.args[0], t.args[1]]
    elif t.kind in ("reversed", "sorted", "filtered", "unordered"):
        xs = [t.args[0]]
    elif t.kind in ("list", "tuple"):
        xs = [z.args[0] for z in t.args if z.kind in ("splat", "star")]
    else:
        xs = []
    return [peel(x) for x in xs]


def loopy(t):
    return any(x.kind in LOOPY for x in subterms(t))


def support(t):
    """The inputs a value is computed from."""
    out = set()
    for x in subterms(t):
        if x.kind in ("param", "larg"):
            if x.args[0] not in ("self", "cls"):
                out.add(x)
        elif x.kind in ("modconst", "classconst"):
            return None
        elif x.kind in ("func", "cls", "ext") and x.args[0].split(".")[-1].startswith("rand"):
            return None
    return out


CONT = ("list", "tuple", "gen")
JOIN = {"numpy.concatenate", "numpy.hstack", "numpy.vstack", "numpy.append", "numpy.stack"}
REDUCE = {"sum": 0, "fsum": 0, "trace": 1, "mean": 2, "average": 2, "max": 3, "amax": 3, "min": 4,
          "amin": 4, "prod": 5, "var": 6, "std": 7, "median": 8, "any": 9, "all": 10,
          "count_nonzero": 11, "argmax": 12, "argmin": 13, "ptp": 14}


def reduction(t):
    """(kind of reduction, operand)"""
    if t.kind != "call" or not (callee(t) or method(t)):
        return None
    n = callee(t)
    if n is not None and not (n.startswith("numpy.") or n.startswith("math.") or "." not in n):
        return None
    k = REDUCE.get(head(t))
    o = operands(t)
    return (k, o[0]) if k is not None and o else None


def conversion(t):
    """(element type, operand) of an explicit conversion of an array."""
    if t.kind != "call":
        return None
    if method(t) == "astype" and t.args[1]:
        return normdtype(t.args[1][0]), peel(t.args[0].args[0])
    if callee(t) in ("numpy.array", "numpy.asarray") and t.args[1]:
        d = dict(t.args[2]).get("dtype", t.args[1][1] if len(t.args[1]) > 1 else None)
        if d is not None:
            return normdtype(d), peel(t.args[1][0])
    return None


def zipped(t):
    """The two sequences of a comparison item by item."""
    if t.kind == "not":
        t = t.args[0]
    if t.kind == "call" and callee(t) in ("any", "all") and len(t.args[1]) == 1:
        g = t.args[1][0]
        if g.kind in ("gen", "list") and len(g.args) == 1 and g.args[0].kind == "each" and g.args[
                0].args[1].kind == "zip" and len(g.args[0].args[1].args) == 2:
            return [peel(x) for x in g.args[0].args[1].args]
    return None


def unconverted(t):
    return t.args[1] if t.kind == "copied" else t


def called(t):
    """The inputs that are called as functions (or whose items are) in a term."""
    out = set()
    for x in subterms(t):
        if x.kind == "call":
            f = x.args[0]
            while f.kind in ("elem", "item") or f.kind == "ite" and f.args[0].kind == "cmp":
                if f.kind == "ite":
                    f = f.args[2] if f.args[1].kind in ("list", "const") else f.args[1]
                else:
                    f = f.args[0]
            if f.kind in ("param", "larg"):
                out.add(f)
    return out


def closed(t):
    """All loop dependent parts belong to loops inside the term."""
    bound, used = set(), set()
    for x in subterms(t):
        if x.kind in ("each", "loopres"):
            bound.add(x.args[0])
        elif x.kind in ("loopvar", "sofar"):
            used.add(x.args[0])
        elif x.kind in ("elem", "idx") and len(x.args) > 1:
            used.add(x.args[1])
        elif x.kind in ("closure", "unknown", "opq", "iter", "while", "undef", "objref",
                        "loopmut"):
            return False
    return used <= bound


def changes(x, y, same):
    """x applies a value changing operation to y."""
    if x.kind == "call" and callee(x) in JOIN:
        parts = list(x.args[1])
        if parts and parts[0].kind in ("list", "tuple"):
            parts = list(parts[0].args)
        return len(parts) > 1 and any(same(peel(z), y) for z in parts) and not any(
            z.kind in ("list", "tuple") and not z.args for z in parts)
    ops = operands(x)
    if x.kind == "call" and callee(x) == "sorted" and ops and ops[0].kind in CONT and y.kind in \
            CONT and len(ops[0].args) == len(y.args) and all(map(same, ops[0].args, y.args)):
        return True
    if not any(same(o, y) for o in ops):
        return False
    if x.kind == "bin":
        l, r = ops
        n = r if same(l, y) else l
        return not _neutral(x.args[0], n)
    if x.kind == "un":
        return True
    if x.kind in ("reversed", "filtered", "unordered"):
        return True
    if x.kind == "sorted":
        return True
    if x.kind in ("list", "tuple"):
        # the items of y and others besides
        return len(x.args) > 1 and any(z.kind in ("splat", "star") and same(peel(z.args[0]), y)
                                       for z in x.args) and any(
            z.kind not in ("splat", "star", "segcond", "each", "segmut") for z in x.args)
    if x.kind == "item":
        return x.args[1].kind == "slice" or x.args[1].kind == "const"
    if x.kind == "call":
        n, m = callee(x), method(x)
        if m is not None:
            return (m in CHANGEM or m.startswith("__") and m.strip("_").lstrip("ir") in ARITHM) \
                and same(ops[0], y)
        if x.args[0].kind == "func":
            w = n.split(".")[-1].lower()
            return len(ops) == 1 and not any(z in w for z in (
                "ensure", "valid", "check", "cast", "copy", "identity", "_to_list"))
        if n in JOIN and x.args[1]:
            return False
        return n in CHANGE
    if x.kind == "attr":
        return x.args[1] not in COERCEA
    return False


def _neutral(op, n):
    v = n.args[0] if n.kind == "const" else None
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return n.kind in ("list", "tuple") and not n.args
    return op in "+-|^" and v == 0 or op in ("*", "/", "**", "//") and v == 1


def normdtype(t):
    n = t.args[0] if t.kind in ("ext", "const") else None
    return {"complex": "complex128", "float": "float64", "numpy.complex128": "complex128",
            "numpy.float64": "float64", "int": "int64", "numpy.int64": "int64",
            "numpy.complex_": "complex128", "numpy.float_": "float64"}.get(n, n)


SYN = [{"**", "sqrt", "square", "*"}, {"//", "floor", "int", "trunc", ">>", "divmod", "mod", "%",
                                       "fmod"},
       {"abs", "sqrt", "**", "conj", "real", "imag", "*", "absolute", "conjugate", "square"},
       {"round", "int", "rint", "floor", "around"},
       {"T", "transpose", "adjoint", "conj", "H", "conjugate", "getH"},
       {"<<", "**", "*"}, {"|", "+", "^", "or"}, {"&", "%", "*", "and"}, {"-", "^", "un-", "not"},
       {"max", "amax", "maximum", "sorted", "clip"}, {"min", "amin", "minimum", "sorted", "clip"},
       {"log2", "log", "bit_length"}, {"exp", "**", "cos", "sin", "cosh"},
       {"/", "*", "**", "inv", "power"}, {"+", "-", "*", "un-"}]


def head(t):
    if t.kind == "bin":
        return t.args[0]
    if t.kind == "un":
        return "un" + str(t.args[0])
    if t.kind == "call":
        n = callee(t)
        return n.split(".")[-1] if n is not None else method(t)
    if t.kind == "attr":
        return t.args[1]
    return t.kind


UNARY = {"T": "T", "transpose": "T", "H": "H", "adjoint": "H", "getH": "H", "dagger": "H",
         "conj": "conj", "conjugate": "conj", "abs": "abs", "absolute": "abs", "real": "re",
         "re": "re", "imag": "im", "im": "im", "real_if_close": "real_if_close",
         "inverse": "inv", "inv": "inv"}


def unary(t):
    """(elementary operation, operand) of matrices and complex numbers."""
    h = UNARY.get(head(t))
    if h is None or t.kind not in ("call", "attr"):
        return None
    o = operands(t)
    return (h, o[0]) if len(o) == 1 else None


def mathlike(t):
    if t.kind == "bin":
        return t.args[0] in ("+", "-", "*", "/", "**", "//", "%")
    if t.kind == "un":
        return t.args[0] == "-"
    if t.kind == "call":
        n, m = callee(t), method(t)
        return n in MATH - OPAQUE or m in ("conj", "conjugate", "transpose", "adjoint")
    if t.kind == "attr":
        return t.args[1] in ("T", "real", "imag", "H")
    if t.kind == "item":
        return t.args[1].kind == "const"
    return False


def synonyms(a, b):
    x, y = head(a), head(b)
    return x == y or any(x in s and y in s for s in SYN)


SYMTEST = ("is_negative", "is_positive", "is_integer", "is_real", "is_zero", "is_number",
           "is_rational", "is_nonnegative", "is_even", "is_odd", "is_finite", "is_symbol")
STRTEST = ("startswith", "endswith")


def predicate(t):
    """(kind of test, subjects) of a test built into the language or its libraries."""
    while t.kind == "not":
        t = t.args[0]
    if t.kind == "cmp":
        op, x, y = t.args
        if op == "is":
            return ("none", (x,)) if is_const(y, None) else (
                ("none", (y,)) if is_const(x, None) else None)
        if op == "==":
            return "eq", (x, y)
        if op == "in":
            return "in", (x, y)
        if op in ("<", "<="):
            return "order", (x, y)
        return None
    if t.kind == "attr" and t.args[1] in SYMTEST:
        return "sym", (t.args[0],)
    if t.kind == "call":
        m = method(t)
        if m in STRTEST and len(t.args[1]) == 1:
            return "affix", (t.args[0].args[0], t.args[1][0])
        if m == "get" and len(t.args[1]) == 1:
            return "get", (t.args[1][0], t.args[0].args[0])
        if callee(t) in ("any", "numpy.any", "bool") and len(t.args[1]) == 1:
            r = predicate(t.args[1][0])
            return r if r and r[0] in ("get", "cplx") else None
        if callee(t) in ("numpy.iscomplex", "numpy.isreal") and t.args[1]:
            return "cplx", (t.args[1][0],)
        if callee(t) in ("numpy.iscomplexobj", "numpy.isrealobj") and t.args[1]:
            return "cplxobj", (t.args[1][0],)
    return None


def othertest(a, b, same):
    """Two tests of the same thing that are passed by different values."""
    p, q = predicate(a), predicate(b)
    if not p or not q or p[0] == q[0]:
        return False
    if p[0] > q[0]:
        p, q = q, p
    k, (u, v) = (p[0], q[0]), (p[1], q[1])

    def both():
        return len(u) == len(v) == 2 and (same(u[0], v[0]) and same(u[1], v[1]) or
                                          same(u[0], v[1]) and same(u[1], v[0]))

    def telling(c, *but):
        return c.kind == "modconst" or c.kind == "const" and c.args[0] is not None and not any(
            c.args[0] == z for z in but)

    if k == ("eq", "order"):
        return not any(_counting(x) for x in u + v) and any(
            same(u[i], v[j]) for i in (0, 1) for j in (0, 1))
    if k == ("eq", "none"):
        return any(same(u[i], v[0]) and telling(u[1 - i]) for i in (0, 1))
    if k == ("eq", "sym"):
        return any(same(u[i], v[0]) and telling(u[1 - i], 0) for i in (0, 1))
    if k in (("affix", "eq"), ("eq", "in"), ("affix", "in"), ("get", "in")):
        if k == ("eq", "in") and any(z.kind in ("tuple", "list", "set") for z in v):
            return False
        return both()
    if k == ("cplx", "cplxobj"):
        return same(u[0], v[0])
    return False


def _counting(t):
    """A number of which something may be known that makes `!=` mean `<`."""
    t = peel(t)
    if t.kind == "bin":
        return any(_counting(x) for x in t.args[1:])
    return t.kind in ("const", "idx", "loopvar", "un") or t.kind == "call" and callee(t) in (
        "len", "abs", "int", "min", "max", "sum", "float") or t.kind == "each" and callee(
            t.args[0]) in ("range", "enumerate") or t.kind == "attr" and t.args[1] in (
                "size", "ndim") or t.kind == "item" and _counting(t.args[0]) or \
        t.kind == "attr" and t.args[1] == "shape"


def _slices(t, base=None):
    """The base all slices of a concatenation come from."""
    if t.kind == "bin" and t.args[0] == "+":
        x, y = _slices(t.args[1]), _slices(t.args[2])
        return x if x is y else None
    if t.kind == "item" and t.args[1].kind == "slice" and (
            len(t.args[1].args) < 3 or is_const(t.args[1].args[2], None, 1)):
        return t.args[0]
    return None


def mapped(x):
    """(source, element, value) of a comprehension that takes every element once."""
    if x.kind in ("list", "gen", "tuple") and len(x.args) == 1:
        x = x.args[0]
    if x.kind == "each" and isinstance(x.args[1], Term) and len(x.args[2]) == 1 and x.args[2][
            0].kind not in ("segcond", "each", "splat", "star", "kv", "segmut"):
        es = {z for z in subterms(x.args[2][0]) if z.kind == "elem" and len(z.args) > 1
              and z.args[1] == x.args[0]}
        if len(es) == 1:
            return x.args[1], es.pop(), x.args[2][0]
    return None


def remapped(x, y, same):
    """x computes a new value from every element of y."""
    m = mapped(x)
    if m is None or not same(peel(m[0]), peel(y)):
        return False
    v = peel(m[2])
    if v.kind == "bin" and v.args[0] in ("+", "-", "*", "/", "//", "%", "**"):
        return not any(_neutral(v.args[0], n) for n in v.args[1:])
    return v.kind == "call" and changes(v, m[1], same)


STRM = {"replace", "split", "strip", "lstrip", "rstrip", "upper", "lower", "splitlines",
        "title", "swapcase", "zfill", "removeprefix", "removesuffix"}


def _stringop(t):
    t = t.args[0] if t.kind in ("elem", "each") and isinstance(t.args[0], type(t)) else t
    m = method(t) if t.kind == "call" else None
    return (m, t.args[0].args[0], t.args[1]) if m in STRM else None


def _plain(t):
    return all(x.kind in ("param", "const", "attr", "bin", "un", "item", "larg", "elem", "each",
                          "call", "ext", "idx") for x in subterms(t)) and not any(
        x.kind == "call" and callee(x) not in ("len", "range") for x in subterms(t))


def arithmetic(a, b, same):
    """Sums that differ although one of them has a maximum, minimum or remainder in it."""
    from .rules.util import lin
    if not all(x.kind in ("bin", "call", "un", "param", "attr", "elem") for x in (a, b)):
        return False
    d = lin(T("bin", "-", a, b))
    if not all(type(c) in (int, float) for c in d.values()):
        return False
    odd = [m for m in d if m is not None and (
        m.kind == "call" and callee(m) in ("max", "min") and len(m.args[1]) == 2 and not m.args[2]
        or m.kind == "bin" and m.args[0] == "%")]
    if len(odd) != 1 or not all(m is None or m is odd[0] or _plain(m) for m in d):
        return False
    m, c = odd[0], d[odd[0]]
    if not all(_plain(x) for x in (m.args[1] if m.kind == "call" else m.args[1:])):
        return False
    rest = {k: -v / c for k, v in d.items() if k is not m}

    def off(x):
        y = lin(x)
        z = {k: y.get(k, 0) - rest.get(k, 0) for k in set(y) | set(rest)}
        return {k: v for k, v in z.items() if v}
    if m.kind == "bin":
        z = off(m.args[1])
        return set(z) == {None}
    zs = [off(x) for x in m.args[1]]
    return all(z and (set(z) - {None} or len(zs) == 1) for z in zs)


def definite(a, b, same):
    """Why the two different terms certainly have different values, or None."""
    if othertest(a, b, same):
        return "another test"
    if arithmetic(a, b, same):
        return "another sum"
    sa_, sb_ = _stringop(a), _stringop(b)
    if sa_ and sb_ and sa_[0] != sb_[0] and same(sa_[1], sb_[1]):
        return "another string operation"
    for x, y in ((a, b), (b, a)):
        if x.kind == "star" and y.kind == "item" and y.args[1].kind == "const" and same(
                peel(x.args[0]), peel(y.args[0])):
            return "one item instead of all"
        s = y.args[0] if y.kind in ("splat", "star") else y
        if remapped(x, s, same):
            return "elements computed anew"
        if x.kind == "reversed" and same(peel(x.args[0]), _slices(y) or x):
            return "another order"
        if x.kind in ("unordered", "call") and y.kind == "call" and callee(y) == \
                "dict.fromkeys" and y.args[1] and (
                    x.kind == "unordered" or callee(x) == "set" and x.args[1]):
            z = x.args[0] if x.kind == "unordered" else x.args[1][0]
            if same(peel(z), peel(y.args[1][0])):
                return "order is lost"
    for x, y in ((peel(a), peel(b)), (peel(b), peel(a))):
        if changes(x, y, same):
            return "extra operation"
    for x, y in ((a, b), (b, a)):
        c = conversion(unconverted(x))
        if c is not None and c[0] is not None and unconverted(y).kind in (
                "param", "larg") and same(c[1], unconverted(y)):
            return "another element type"
    ra, rb = reduction(peel(a)), reduction(peel(b))
    if ra and rb and ra[0] != rb[0] and same(ra[1], rb[1]):
        return "another reduction"
    for x, y in ((a, b), (b, a)):
        z = zipped(x)
        if z is not None and y.kind == "cmp" and y.args[0] == "==":
            u, v = (peel(w) for w in y.args[1:])
            if any(same(p, u) and same(q, v) for p, q in (z, z[::-1])):
                return "lengths are not compared"
    if closed(a) and closed(b):
        fa, fb = called(a), called(b)
        pa_, pb_ = ({x for x in subterms(z) if x.kind in ("param", "larg")} for z in (a, b))
        if fa - pb_ or fb - pa_:
            return "a given function is not applied"
    if a.kind == b.kind == "call" and {callee(a), callee(b)} == {"hasattr", "getattr"} and all(
            same(x, y) for x, y in zip(a.args[1][:2], b.args[1][:2])):
        return "another test"
    if loopy(a) or loopy(b):
        return None
    for x in (a, b):
        if x.kind == "call" and callee(x) in ("numpy.array", "numpy.asarray"):
            y = b if x is a else a
            if y.kind == "call" and callee(y) in ("numpy.array", "numpy.asarray") and x.args[
                    1] and y.args[1] and same(x.args[1][0], y.args[1][0]):
                p, q = [dict(z.args[2]).get("dtype", z.args[1][1] if len(z.args[1]) > 1 else None)
                        for z in (x, y)]
                if p is not None and q is not None and normdtype(p) != normdtype(q) and \
                        None not in (normdtype(p), normdtype(q)):
                    return "another element type"
    pa, pb = peel(a), peel(b)
    if same(pa, pb):
        return None
    for x, y in ((pa, pb), (pb, pa)):
        if x.kind == "each":
            s = [z for z in x.args[2] if z.kind == "segcond"]
            src = peel(y.args[0]) if y.kind in ("splat", "star") else None
            if len(x.args[2]) == len(s) == 1 and src is not None and same(peel(x.args[1]), src):
                br = [z for z in s[0].args[1:] if z]
                if len(br) == 1 and len(br[0]) == 1 and (
                        br[0][0].kind == "elem" or br[0][0].kind == "kv"
                        and br[0][0].args[0].kind == "elem" and br[0][0].args[1].kind == "item"
                        and same(br[0][0].args[1].args[1], br[0][0].args[0])
                        and same(peel(br[0][0].args[1].args[0]), src)):
                    return "filtered"
    sa, sb = support(pa), support(pb)
    size = max(sum(1 for _ in subterms(pa)), sum(1 for _ in subterms(pb)))
    if sa is not None and sb is not None and sa != sb and size <= 40 and not (
            _vague(pa) or _vague(pb)):
        ka, kb = {x.args[0] for x in sa}, {x.args[0] for x in sb}
        if len(ka) == len(sa) and len(kb) == len(sb) and (ka - kb or kb - ka):
            return "computed from other inputs"
    if size > 40:
        return None
    if mathlike(pa) and mathlike(pb) and not synonyms(pa, pb):
        oa = [x for x in operands(pa) if x.kind != "const"]
        ob = [x for x in operands(pb) if x.kind != "const"]
        if len(oa) == len(ob) and all(any(same(x, y) for y in ob) for x in oa) and all(
                any(same(x, y) for y in oa) for x in ob):
            return "another operation"
    ua, ub = unary(pa), unary(pb)
    if ua and ub and ua[0] != ub[0] and same(ua[1], ub[1]):
        return "another function"
    if pa.kind == pb.kind == "call":
        na, nb = callee(pa), callee(pb)
        if na and nb and pa.args[0].kind == pb.args[0].kind == "ext" and na in MATH and nb in \
                MATH and na.split(".")[-1] != nb.split(".")[-1] and (
                    not synonyms(pa, pb)) and len(pa.args[1]) == len(pb.args[1]) and all(
                    same(x, y) for x, y in zip(pa.args[1], pb.args[1])):
            return "another function"
        if {na, nb} == {"hasattr", None} or {na, nb} == {"callable", None}:
            return None
    kinds = {pa.kind, pb.kind}
    if kinds == {"call", "isinstance"}:
        c = pa if pa.kind == "call" else pb
        i = pb if c is pa else pa
        if callee(c) in ("hasattr", "callable") and same(operands(c)[0], i.args[0]):
            return "another test"
    return None


def _vague(t):
    """Emptiness, None and membership tests often have several equivalent forms."""
    return t.kind in ("ite", "and", "or", "not", "nonempty", "isinstance", "elem", "idx", "cmp") \
        or any(x.kind in ("ite", "nonempty", "each", "segcond") for x in subterms(t))
