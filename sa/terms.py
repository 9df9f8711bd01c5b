"""Interned value terms (a gated value numbering of the analysed functions)."""

_TABLE = {}


class Term:
    __slots__ = ("kind", "args", "_h", "_deps")

    def __init__(self, kind, args):
        self.kind = kind
        self.args = args
        self._h = hash((kind, args))
        self._deps = None

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return show(self)


def T(kind, *args):
    key = (kind, tuple((type(a), a) if not isinstance(a, (Term, tuple)) else a for a in args))
    t = _TABLE.get(key)
    if t is None:
        t = Term(kind, args)
        _TABLE[key] = t
    return t


def const(v):
    return T("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = T("undef")


def is_const(t, *vals):
    return t.kind == "const" and (not vals or any(t.args[0] is v or (
        type(t.args[0]) is type(v) and t.args[0] == v) for v in vals))


def children(t):
    """Direct sub-terms of a term (walking nested tuples)."""
    out = []

    def rec(x):
        if isinstance(x, Term):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)

    for a in t.args:
        rec(a)
    return out


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(children(x))


def contains(t, sub):
    return any(x is sub for x in subterms(t))


def roots_params(t):
    """Names of the parameters a term's value depends on."""
    if t._deps is None:
        s = set()
        for x in subterms(t):
            if x.kind == "param":
                s.add(x.args[0])
        t._deps = frozenset(s)
    return t._deps


def subst(t, mapping, _memo=None):
    """Structural substitution of sub-terms."""
    _memo = {} if _memo is None else _memo
    if t in mapping:
        return mapping[t]
    if t in _memo:
        return _memo[t]

    def rec(a):
        if isinstance(a, Term):
            return subst(a, mapping, _memo)
        if isinstance(a, tuple):
            return tuple(rec(y) for y in a)
        return a

    new = tuple(rec(a) for a in t.args)
    r = t if new == t.args else simplify(T(t.kind, *new))
    _memo[t] = r
    return r


# ------------------------------------------------------------------ booleans
def neg(c):
    if c.kind == "not":
        return c.args[0]
    if c.kind == "const":
        return const(not c.args[0])
    if c.kind == "and":
        return disj(*[neg(x) for x in c.args])
    if c.kind == "or":
        return conj(*[neg(x) for x in c.args])
    return T("not", c)


def _flat(kind, xs):
    out = []
    for x in xs:
        if x.kind == kind:
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    return out


def conj(*xs):
    xs = [x for x in _flat("and", xs) if not (x.kind == "const" and x.args[0])]
    if any(x.kind == "const" for x in xs):
        return FALSE
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    for x in xs:
        if neg(x) in xs:
            return FALSE
    return T("and", *xs)


def disj(*xs):
    xs = _flat("or", xs)
    if any(x.kind == "const" and x.args[0] for x in xs):
        return TRUE
    xs = [x for x in xs if x.kind != "const"]
    if not xs:
        return FALSE
    if len(xs) == 1:
        return xs[0]
    for x in xs:
        if neg(x) in xs:
            return TRUE
    return T("or", *xs)


def cmp(op, a, b):
    """Canonical comparison; ops kept: ==, <, <=, is, in (others are rewritten)."""
    if op == "!=":
        return neg(cmp("==", a, b))
    if op == "is not":
        return neg(cmp("is", a, b))
    if op == "not in":
        return neg(cmp("in", a, b))
    if op == ">":
        return cmp("<", b, a)
    if op == ">=":
        return cmp("<=", b, a)
    if op in ("==", "is"):
        if a.kind == "const" and b.kind != "const":
            a, b = b, a
        if a.kind == "const" and b.kind == "const":
            try:
                if op == "==":
                    return const(bool(a.args[0] == b.args[0]))
                if a.args[0] is None or b.args[0] is None or isinstance(
                        a.args[0], bool) or isinstance(b.args[0], bool):
                    return const(a.args[0] is b.args[0])
            except Exception:
                pass
        if op == "is" and b is NONE and a.kind in (
            "obj", "func", "cls", "closure", "tuple", "fstr", "bound", "module",
            "list", "dict", "set", "gen", "inst",
        ):
            return FALSE
        if a is b and a.kind in ("const", "func", "cls"):
            return TRUE
    if op in ("<", "<=") and a.kind == "const" and b.kind == "const":
        try:
            return const(bool(a.args[0] < b.args[0] if op == "<" else a.args[0] <= b.args[0]))
        except Exception:
            pass
    return T("cmp", op, a, b)


BOOLEXT = {"any", "all", "isinstance", "issubclass", "hasattr", "callable", "bool",
           "numpy.allclose", "numpy.array_equal", "numpy.any", "numpy.all", "math.isclose",
           "numpy.isclose", "os.path.exists", "os.path.isfile", "os.path.isdir"}


def isbool(c):
    if c.kind in ("cmp", "not", "and", "or", "isinstance"):
        return True
    return c.kind == "call" and (
        c.args[0].kind == "ext" and c.args[0].args[0] in BOOLEXT or c.args[0].kind == "attr"
        and c.args[0].args[1] in ("startswith", "endswith", "isdigit", "issubset", "isdisjoint",
                                  "issuperset"))


def ite(c, a, b):
    if a is b:
        return a
    if c.kind == "const":
        return a if c.args[0] else b
    if c.kind == "not":
        return ite(c.args[0], b, a)
    if a.kind == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.kind == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE and isbool(c):
        return c
    if a is FALSE and b is TRUE and isbool(c):
        return neg(c)
    return T("ite", c, a, b)


def simplify(t):
    k = t.kind
    if k == "loopres" and t.args[2].kind in ("list", "tuple", "dict", "set") and \
            not t.args[2].args:
        return t.args[3]  # no iterations
    if k == "bin" and t.args[0] == "*":
        for n, x in (t.args[1:], t.args[:0:-1]):
            if n.kind == "const" and type(n.args[0]) is int and 0 <= n.args[0] < 5 and \
                    x.kind in ("tuple", "list") and all(
                        isinstance(y, Term) and y.kind not in (
                            "each", "splat", "star", "segcond", "segmut") for y in x.args):
                return T(x.kind, *(x.args * n.args[0]))
    if k == "ite":
        return ite(*t.args)
    if k == "and":
        return conj(*t.args)
    if k == "or":
        return disj(*t.args)
    if k == "not":
        return neg(t.args[0])
    if k == "cmp":
        return cmp(*t.args)
    if k == "item" and t.args[0].kind in ("tuple", "list") and is_const(t.args[1]):
        i = t.args[1].args[0]
        xs = t.args[0].args
        if isinstance(i, int) and all(isinstance(x, Term) and x.kind != "each" for x in xs):
            if -len(xs) <= i < len(xs):
                return xs[i]
    return t


def assume(t, facts, _memo=None):
    """Simplify a term under facts: {atomic condition term: bool}."""
    _memo = {} if _memo is None else _memo
    if t in _memo:
        return _memo[t]
    if t in facts:
        return const(facts[t])
    if t.kind == "ite":
        c = assume(t.args[0], facts, _memo)
        if c.kind == "const":
            r = assume(t.args[1] if c.args[0] else t.args[2], facts, _memo)
        else:
            r = ite(c, assume(t.args[1], facts, _memo), assume(t.args[2], facts, _memo))
    else:
        def rec(a):
            if isinstance(a, Term):
                return assume(a, facts, _memo)
            if isinstance(a, tuple):
                return tuple(rec(y) for y in a)
            return a
        new = tuple(rec(a) for a in t.args)
        r = t if new == t.args else simplify(T(t.kind, *new))
    _memo[t] = r
    return r


def evalcond(t, oracle):
    """Three-valued evaluation of a condition; oracle(atom) -> True/False/None."""
    k = t.kind
    if k == "const":
        return bool(t.args[0])
    v = oracle(t)
    if v is not None:
        return v
    if k == "not":
        v = evalcond(t.args[0], oracle)
        return None if v is None else (not v)
    if k == "and":
        vs = [evalcond(x, oracle) for x in t.args]
        if any(v is False for v in vs):
            return False
        return True if all(v is True for v in vs) else None
    if k == "or":
        vs = [evalcond(x, oracle) for x in t.args]
        if any(v is True for v in vs):
            return True
        return False if all(v is False for v in vs) else None
    if k == "ite":
        c = evalcond(t.args[0], oracle)
        if c is None:
            a, b = evalcond(t.args[1], oracle), evalcond(t.args[2], oracle)
            return a if a == b else None
        return evalcond(t.args[1] if c else t.args[2], oracle)
    return None


def leaves(t, facts=()):
    """The possible values of a gated term: [(conds, value)]."""
    if t.kind != "ite":
        return [(facts, t)]
    c, a, b = t.args
    return leaves(a, facts + ((c, True),)) + leaves(b, facts + ((c, False),))


# ------------------------------------------------------------------- display
def show(t, depth=6):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    k, a = t.kind, t.args
    if depth <= 0:
        return "…"
    d = depth - 1
    if k == "const":
        return repr(a[0])
    if k == "param":
        return a[0]
    if k == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if k == "item":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if k in ("func", "cls", "ext", "module"):
        return str(a[0]).replace("zquantum.core.", "")
    if k == "bound":
        return f"{show(a[0], d)}.<{a[1].split('.')[-1]}>"
    if k == "call":
        ar = [show(x, d) for x in a[1]] + [f"{n}={show(v, d)}" for n, v in a[2]]
        return f"{show(a[0], d)}({', '.join(ar)})"
    if k == "bin":
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if k == "un":
        return f"{a[0]}{show(a[1], d)}"
    if k == "cmp":
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if k == "not":
        return f"not {show(a[0], d)}"
    if k in ("and", "or"):
        return "(" + f" {k} ".join(show(x, d) for x in a) + ")"
    if k == "ite":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if k == "elem":
        return f"each({show(a[0], d)})"
    if k == "each":
        return f"{{{', '.join(show(x, d) for x in a[2])} for each({show(a[1], d)})}}"
    if k in ("list", "tuple", "set", "dict", "gen"):
        return f"{k}[{', '.join(show(x, d) for x in a)}]"
    return f"{k}<{', '.join(show(x, d) for x in a)}>"
