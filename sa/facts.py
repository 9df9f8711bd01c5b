"""Effect facts of one function, compared with those of the reviewed reference.

Value graphs have to be aligned before they can be compared; the facts here need no alignment,
because rewriting a function without changing what it does can neither add nor remove them:
which caller-visible objects are written, whether state has been changed when an error is
raised, how often a stateful callee is called, and whether state is changed before or after
the object is handed to somebody else."""

import ast

from .terms import Term, const, neg, subterms

STATEFUL_CTORS = {"numpy.random.default_rng", "numpy.random.RandomState", "random.Random",
                  "numpy.random.Generator", "open", "iter", "itertools.count",
                  "itertools.cycle"}
DRAWS = {"choice", "normal", "random", "integers", "shuffle", "permutation", "sample", "rand",
         "randint", "uniform", "multinomial", "randn", "random_sample", "binomial"}
INIT = ("__init__", "__post_init__", "__new__", "__setstate__", "__deepcopy__", "__copy__")


class Facts:
    __slots__ = ("writes", "raises", "calls", "order", "ctors", "inloop")


def _literals(pc):
    """Truth values of conditions along a path, of their parts and of their negations."""
    d, todo = {}, list(pc)
    while todo:
        c, v = todo.pop()
        d[c] = v
        n = neg(c)
        if n not in d:
            d[n] = not v
        if c.kind == "not":
            todo.append((c.args[0], not v))
        if c.kind in ("and", "or") and v == (c.kind == "and"):
            todo += [(x, v) for x in c.args]
        if n.kind in ("and", "or") and v != (n.kind == "and"):
            todo += [(x, not v) for x in n.args]
    return d


def _compatible(p, q):
    """Some run may take both paths."""
    d, e = _literals(p), _literals(q)
    if any(d.get(c, v) != v for c, v in e.items()):
        return False
    for f, g in ((d, e), (e, d)):
        for c, v in f.items():
            if c.kind in ("and", "or") and v == (c.kind == "or") and all(
                    g.get(x, f.get(x)) is (not v) for x in c.args):
                return False
    return True


def _first(path):
    for i, ch in enumerate(path[1:], 1):
        if ch in ".[":
            return path[:i]
    return path


def _direct(e):
    return not str(e.d["how"]).startswith("passed to")


def collect(i, f, evs, skey, stored, common):
    """evs: events in order of evaluation; stored: field names of the function's class."""
    ps = f.params()
    selfp = ps[0][0] if f.cls is not None and not f.is_static and ps else None
    F = Facts()
    F.writes, F.raises, F.calls, F.order, F.ctors, F.inloop = {}, {}, {}, {}, {}, {}
    muts, calls = [], []

    def nm(r):
        return "self" if r == selfp else r

    for e in evs:
        if e.kind == "mutate":
            rs = {(nm(r), _first(p) if p else ("." + e.d["attr"] if e.d.get("attr") else ""))
                  for r, p in i.roots(e.d["target"])}
            if not rs:
                continue
            for r, c in rs:
                F.writes.setdefault(r, {}).setdefault(c, (e, _direct(e)))
            if _direct(e):
                muts.append((e, rs))
        elif e.kind == "raise":
            own = e.func is f or e.func.qualname not in common
            if e.loops or not own:
                F.raises.setdefault(str(e.d["exc"]), []).append((frozenset(), e, False))
                continue
            dirty = set()
            for m, rs in muts:
                if m.app != e.app or not _compatible(m.pc, e.pc):
                    continue
                dirty |= {r + c for r, c in rs if not (r == "self" and f.name in INIT)
                          and not r.startswith("module constant")}
            F.raises.setdefault(str(e.d["exc"]), []).append((frozenset(dirty), e, True))
        elif e.kind == "call" and not e.d.get("inlined"):
            fn = e.d["func"]
            name = fn.args[0] if fn.kind == "ext" else None
            if name in STATEFUL_CTORS:
                F.ctors.setdefault(name, set()).add(bool(e.app))
            draws = name is not None and (
                name.startswith(("random.", "numpy.random.")) or name == "next" and e.d["args"]
                and e.d["args"][0].kind not in ("gen", "list", "call", "each"))
            if draws and isinstance(e.d.get("result"), Term):
                _place(F, e, f, skey)
            if _stateful(i, e, fn, selfp, stored):
                r = e.d.get("result")
                if isinstance(r, Term):
                    _place(F, e, f, skey)
                calls.append(e)
                if isinstance(r, Term):
                    key = skey(r)
                    F.calls.setdefault(key, []).append(e)
    for e in calls:
        given = set()
        xs = list(e.d["args"]) + [v for _, v in e.d["kwargs"]]
        fn = e.d["func"]
        if fn.kind == "attr":
            xs.append(fn.args[0])
        for x in xs:
            if x.kind in ("param", "larg"):
                given |= {nm(r) for r, _ in i.roots(x)}
        for m, rs in muts:
            if m.app != e.app or m.loops != e.loops or not _compatible(m.pc, e.pc):
                continue
            for r, c in rs:
                if r in given and c:
                    n = fn.args[1] if fn.kind == "attr" else skey(fn)
                    F.order.setdefault((n, r, c), set()).add(e.seq < m.seq)
    return F


def _place(F, e, f, skey):
    """Whether a call that does not depend on a loop is made once or every time round."""
    r = e.d["result"]
    once = not e.loops and not e.app and e.func is f and not any(
        n is e.node for x in ast.walk(f.node)
        if isinstance(x, (ast.Lambda, ast.FunctionDef)) and x is not f.node
        for n in ast.walk(x))
    if not any(x.kind in ("elem", "idx", "loopvar", "loopres", "sofar") for x in subterms(r)):
        F.inloop.setdefault(skey(r), set()).add(
            True if e.loops and not e.app else False if once else None)


def _stateful(i, e, fn, selfp, stored):
    ent = e.d.get("entity")
    if ent is not None:
        if ent.cls is None:
            return False
        if ent.is_abstract:
            return not ent.is_property
        if ent.is_property or ent.name in INIT:
            return False
        ps = ent.params()
        return bool(ps) and not ent.is_static and ps[0][0] in i.summary(ent)
    if fn.kind in ("param", "larg"):
        return True
    if fn.kind == "attr":
        b = fn.args[0]
        if fn.args[1] in DRAWS:
            return True
        return b.kind == "param" and b.args[0] == selfp and fn.args[1] in stored
    return False


def _most(es):
    """Largest number of these calls on one path."""
    best = 0
    for a in es:
        seen = set()
        for b in es:
            if b.app == a.app and b.loops == a.loops and _compatible(a.pc, b.pc):
                seen.add((id(b.node), b.stack))
        best = max(best, len(seen))
    return best


def differences(a, b, fields, refstores, refconsts):
    """Changed facts of a (current) against b (reference): [(what, current, reference)]."""
    out = []
    for r, cs in a.writes.items():
        if r == "self":
            continue
        if r.startswith("module constant") and r not in refconsts:
            continue
        if r not in b.writes:
            c = sorted(cs)[0]
            out.append((f"write to {r}{c}", const(cs[c][0].d["how"]), const(None)))
    for c, (e, direct) in a.writes.get("self", {}).items():
        n = c.lstrip(".").split("[")[0]
        if direct and n and n in fields and c not in b.writes.get("self", {}) and \
                n not in refstores:
            out.append((f"write to self{c}", const(e.d["how"]), const(None)))
    for exc, es in a.raises.items():
        rs = b.raises.get(exc)
        if not rs or any(d for d, _, _ in rs) or not all(ok for _, _, ok in rs):
            continue
        for d, e, ok in es:
            if ok and d:
                out.append((f"state changed before {exc}", const(", ".join(sorted(d))),
                            const(None)))
                break
    for k, es in a.calls.items():
        rs = b.calls.get(k)
        if rs and _most(es) > _most(rs):
            out.append(("repeated call", es[0].d["result"], rs[0].d["result"]))
    for k, s in a.order.items():
        t = b.order.get(k)
        if t is not None and len(s) == len(t) == 1 and s != t:
            out.append((f"order of call {k[0]} and write to {k[1]}{k[2]}", const(None),
                        const(None)))
    for k, s in a.inloop.items():
        t = b.inloop.get(k)
        if t is not None and s | t == {True, False} and len(s) == len(t) == 1:
            out.append(("stateful call " + ("inside" if True in s else "outside") + " a loop",
                        const(k), const(None)))
    for k, s in a.ctors.items():
        t = b.ctors.get(k)
        if t is not None and (True in s) != (True in t):
            out.append((f"{k} evaluated " + ("at every call" if True in s else "once"),
                        const(None), const(None)))
    return out
