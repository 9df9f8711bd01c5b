"""Which loop each loop element belongs to.

`equiv.skey` names an element of a loop by the collection only, so the elements of two nested
loops over one collection look alike.  `permuted(a, b)` decides whether two terms with equal keys
use such elements differently: no way of pairing the loops of one with those of the other makes
the terms equal.
"""
import itertools

from .terms import T, Term, subterms

BIND = ("each", "loopres")
COMM = ("and", "or", "set")
LIMIT = 800


def _elems(t):
    return [x for x in subterms(t) if x.kind in ("elem", "idx") and len(x.args) > 1]


def _ambiguous(t, key):
    """Two loops over one collection take part."""
    seen = {}
    for x in _elems(t):
        if seen.setdefault(key(x.args[0]), x.args[1]) != x.args[1]:
            return True
    return False


class _Namer:
    """Names elements by collection and rank: loops bound inside the term by nesting depth among
    loops over that collection, others by the order of their first appearance."""

    def __init__(self, key):
        self.key, self.free, self.memo, self.lax = key, {}, {}, set()
        self.groups = {}
        self.sites = {}

    def mentions(self, t):
        r = self.sites.get(t)
        if r is None:
            from .terms import children
            r = frozenset((t.args[1],)) if t.kind in ("elem", "idx") and len(
                t.args) > 1 else frozenset()
            r = r.union(*[self.mentions(x) for x in children(t)])
            self.sites[t] = r
        return r

    def rec(self, a, env, lax):
        if isinstance(a, Term):
            return self.go(a, env, lax)
        if isinstance(a, tuple):
            return tuple(self.rec(x, env, lax) for x in a)
        return a

    def go(self, t, env, lax):
        if not t.args or t.kind == "const":
            return t
        used = self.mentions(t)
        rel = tuple((s, n) for s, n in env if s in used)
        depth = tuple(n[0] for _, n in env)  # what outer loops run over
        m = (t, rel, depth, lax)
        r = self.memo.get(m)
        if r is not None:
            return r
        k, a = t.kind, t.args
        if k in ("elem", "idx") and len(a) > 1:
            src = self.key(a[0])
            name = dict(env).get(a[1])
            if name is None or name[0] != src:
                ranks = self.free.setdefault(src, {})
                name = (src, "f", ranks.setdefault(a[1], len(ranks)))
                self.groups.setdefault((src, "f"), set()).add(name[2])
            r = T(k, self.go(a[0], env, lax), name)
        elif k in BIND:
            over = a[1] if k == "each" else a[2]
            src = self.key(over) if isinstance(over, Term) else str(over)
            rank = sum(1 for _, n in env if n[0] == src)
            name = (src, "b", rank)
            here = lax or k == "loopres"
            self.groups.setdefault((src, "b"), set()).add(rank)
            if here:
                self.lax.add((src, "b"))
            inner = env + ((a[0], name),)
            o = self.rec(over, env, lax)
            if k == "each":
                r = T(k, name if not here else 0, o, self.rec(a[2], inner, here))
            else:
                r = T(k, 0, 0, o, self.rec(a[3], env, lax),
                      *[self.rec(x, inner, here) for x in a[4:]])
        elif k in ("loopvar", "iter", "while"):
            r = T(k, 0, *[self.rec(x, env, lax) for x in a[1 if k != "loopvar" else 2:]])
        elif k == "sofar":
            r = T(k)
        elif k == "call" and a[0].kind == "ext" and a[0].args[0] in (
                "sum", "any", "all", "set", "numpy.sum", "functools.reduce", "frozenset", "max",
                "min"):
            r = T(k, *[self.rec(x, env, True) for x in a])
        elif k in ("set", "dict"):
            r = T(k, *[self.rec(x, env, True) for x in a])
        else:
            r = T(k, *[self.rec(x, env, lax) for x in a])
        self.memo[m] = r
        return r


def _rkey(t, perm, memo):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            if len(t) == 3 and t[1] in ("f", "b") and isinstance(t[2], int):
                return f"{t[0]}{t[1]}{perm.get(t[:2], {}).get(t[2], t[2])}"
            return "(" + ",".join(_rkey(x, perm, memo) for x in t) + ")"
        return repr(t)
    r = memo.get(t)
    if r is None:
        parts = [_rkey(x, perm, memo) for x in t.args]
        if t.kind in COMM:
            parts.sort()
        elif t.kind == "bin" and t.args[0] in ("+", "*") or t.kind == "cmp" and t.args[0] in (
                "==", "!=", "is"):
            op = t.args[0]
            todo, parts = list(t.args[1:]), []
            while todo:
                x = todo.pop()
                if t.kind == "bin" and isinstance(x, Term) and x.kind == "bin" and \
                        x.args[0] == op:
                    todo.extend(x.args[1:])
                else:
                    parts.append(_rkey(x, perm, memo))
            parts.sort()
            parts.insert(0, repr(op))
        r = t.kind + "<" + ",".join(parts) + ">"
        if len(r) > 300:
            import hashlib
            r = t.kind + hashlib.md5(r.encode()).hexdigest()
        memo[t] = r
    return r


def permuted(a, b, key):
    """No correspondence of loops makes a and b (equal keys) the same."""
    if a is b or key(a) != key(b) or not _ambiguous(a, key) and not _ambiguous(b, key):
        return False
    na, nb = _Namer(key), _Namer(key)
    x, y = na.go(a, (), False), nb.go(b, (), False)
    want = _rkey(y, {}, {})
    if _rkey(x, {}, {}) == want:
        return False
    groups = []
    for g in sorted(set(na.groups) | set(nb.groups)):
        n = max(na.groups.get(g, {0}) | nb.groups.get(g, {0})) + 1
        if n > 1 and (g[1] == "f" or g in na.lax or g in nb.lax):
            groups.append((g, n))
    total = 1
    for _, n in groups:
        for i in range(2, n + 1):
            total *= i
    if total > LIMIT:
        return False
    for choice in itertools.product(*[itertools.permutations(range(n)) for _, n in groups]):
        perm = {g: dict(enumerate(p)) for (g, _), p in zip(groups, choice)}
        if _rkey(x, perm, {}) == want:
            return False
    return True
