"""Helpers to read properties off normalised result terms."""
from .. import core
from ..core import PROVED, UNKNOWN, VIOLATED, ob
from ..model import AnalysisBroken
from ..terms import (FALSE, NONE, T, TRUE, Term, assume, children, cmp, conj, const, contains, disj,
                     is_const, ite, leaves, neg, show, subterms)

PFX = "zquantum.core."

# kinds whose meaning the engine does not fully know
HAZY = {"loopvar", "loopres", "loopmut", "undef", "unknown", "objref", "closure", "maybe",
        "enter", "exc", "while", "default", "opq", "inplace", "kwget", "overridden"}


def short(q):
    return q.replace(PFX, "")


def hazy(t):
    """Sub-terms whose value the analysis does not know exactly."""
    return [x for x in subterms(t) if x.kind in HAZY or (
        x.kind == "call" and x.args[0].kind in ("unknown", "closure"))]


def where(f):
    return f"{f.file}:{f.node.lineno}"


def cases(r, v=None, st=None):
    """[(conditions, leaf value)] over all returns, gates split."""
    out = []
    for pc, v, st in r.returns:
        fz = r.frozen(v, st)
        for cs, leaf in leaves(fz):
            out.append((tuple(pc) + tuple(cs), leaf))
    return out


def under(t, facts):
    return assume(t, dict(facts))


def fields(t):
    """Fields of a frozen instance term."""
    return dict(t.args[1]) if t.kind == "inst" else None


def inst_cls(t):
    return t.args[0].split(".")[-1] if t.kind == "inst" else None


def truthy(t, x):
    """t simplified under the assumption that x is truthy."""
    r = assume(t, {x: True})
    return r


# ----------------------------------------------------------- linear arithmetic
def lin(t):
    """Linear normal form {monomial term or None: coefficient}; None when not numeric."""
    k = t.kind
    if k == "const":
        v = t.args[0]
        if isinstance(v, bool) or not isinstance(v, (int, float, complex)):
            return {t: 1}
        return {None: v} if v else {}
    if k == "bin":
        op, a, b = t.args
        if op in ("+", "-"):
            x, y = lin(a), lin(b)
            out = dict(x)
            for m, c in y.items():
                out[m] = out.get(m, 0) + (c if op == "+" else -c)
            return {m: c for m, c in out.items() if c}
        if op == "*":
            x, y = lin(a), lin(b)
            for p, q in ((x, y), (y, x)):
                if set(p) <= {None}:
                    c0 = p.get(None, 0)
                    return {m: c * c0 for m, c in q.items() if c * c0}
        return {_norm(t): 1}
    if k == "un" and t.args[0] == "-":
        return {m: -c for m, c in lin(t.args[1]).items()}
    return {_norm(t): 1}


def _norm(t):
    return t


def lin_eq(a, b):
    return lin(a) == lin(b)


# ------------------------------------------------------------------- sequences
def segs(t):
    """Normalised segments of a frozen list/tuple/gen term: ('item', x), ('all', source)
    for every element of a source in order, ('map', source, body) for one body per element,
    ('each', source, segs), ('if', cond, segs, segs) or ('?', term)."""
    if t.kind not in ("list", "tuple", "gen"):
        if t.kind == "call" and t.args[0].kind == "ext" and t.args[0].args[0] in (
                "list", "tuple", "iter") and len(t.args[1]) == 1 and not t.args[2]:
            return segs(t.args[1][0])
        if t.kind == "call" and t.args[0].kind == "ext" and t.args[0].args[0] == \
                "itertools.chain" and not t.args[2]:
            return [s for x in t.args[1] for s in segs(x)]
        if t.kind == "bin" and t.args[0] == "+":
            return segs(t.args[1]) + segs(t.args[2])
        return [("all", t)]
    out = []
    for s in t.args:
        out += _seg(s)
    return out


def _seg(s):
    if s.kind in ("splat", "star"):
        return segs(s.args[0])
    if s.kind == "each":
        src, body = s.args[1], s.args[2]
        ss = [x for b in body for x in _seg(b)]
        if len(ss) == 1 and ss[0][0] == "item":
            b = ss[0][1]
            if b.kind == "elem" and b.args[0] is src:
                return segs(src)
            return [("map", src, b)]
        return [("each", src, ss)]
    if s.kind == "segcond":
        return [("if", s.args[0], [x for b in s.args[1] for x in _seg(b)],
                 [x for b in s.args[2] for x in _seg(b)])]
    return [("item", s)]


def seg_hazy(ss):
    for s in ss:
        if s[0] == "?":
            return True
        for x in s[1:]:
            if isinstance(x, Term) and hazy(x):
                return True
            if isinstance(x, list) and seg_hazy(x):
                return True
    return False


def show_segs(ss):
    def one(s):
        if s[0] == "item":
            return show(s[1], 4)
        if s[0] == "all":
            return "*" + show(s[1], 4)
        if s[0] == "map":
            return f"{show(s[2], 4)} for each of {show(s[1], 4)}"
        if s[0] == "each":
            return f"({show_segs(s[2])}) for each of {show(s[1], 4)}"
        return f"if {show(s[1], 3)}: {show_segs(s[2])} else {show_segs(s[3])}"
    return "[" + "; ".join(one(s) for s in ss) + "]"


# ------------------------------------------------------------------- plumbing
def rule(name, doc, minimum, gens):
    """A rule from obligation generators (callables without arguments)."""
    def run(tier):
        return core.pmap(_call, [g for g in gens])
    return {"name": name, "run": run, "min": minimum, "doc": doc}


def _call(g):
    return g()


def need(q):
    """The function or None; a vanished anchor leaves the obligation undecided."""
    p = core.program()
    return p.funcs.get(q)
