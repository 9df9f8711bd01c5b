"""Repository-specific laws checked on the value terms of single functions."""
from .. import core, equiv
from ..core import PROVED, UNKNOWN, VIOLATED, ob
from ..terms import show, subterms

NEGATING = {"numpy.subtract": (1, -1), "numpy.add": (1, 1), "numpy.negative": (-1,)}


def _signs(t, s, out):
    """(sign, atom) for every additive leaf of the term; sign 0 where it cannot be told."""
    k, a = t.kind, t.args
    if k == "ite":
        _signs(a[1], s, out)
        _signs(a[2], s, out)
    elif k == "with":
        _signs(a[0], s, out)
    elif k == "loopres":
        _signs(a[3], s, out)
        _signs(a[4], s, out)
    elif k in ("bin", "inplace") and a[0] in ("+", "-"):
        _signs(a[1], s, out)
        _signs(a[2], s if a[0] == "+" else -s, out)
    elif k == "un" and a[0] == "-":
        _signs(a[1], -s, out)
    elif k == "copied":
        _signs(a[1], s, out)
    elif k == "call" and a[0].kind == "ext" and a[0].args[0] in NEGATING and not a[2]:
        for x, w in zip(a[1], NEGATING[a[0].args[0]]):
            _signs(x, s * w, out)
    elif k == "bin" and a[0] == "*" and any(
            x.kind == "const" and x.args[0] in (-1, -1.0) for x in a[1:]):
        for x in a[1:]:
            if x.kind != "const":
                _signs(x, -s, out)
    elif k in ("item", "attr", "elem", "each", "param", "loopvar", "const", "missing") or (
            k == "call" and a[0].kind == "attr" and a[0].args[1] in ("get", "copy")):
        out.append((s, t))
    else:
        out.append((0, t))


def polarity_rule(table, minimum):
    """In-place sum/difference: what is stored takes the right operand with the right sign."""
    name = "sign of the operand in what is stored"

    def one(item):
        q, sign = item
        p = core.program()
        f = p.funcs.get(q)
        if f is None:
            return [ob(name, q, UNKNOWN, "", "not present any more")]
        ps = f.params()
        if len(ps) < 2:
            return [ob(name, q, UNKNOWN, "", "no operand")]
        me, other = ps[0][0], ps[1][0]
        s = equiv.summarise(p, f, equiv.policy(p, equiv.ref_program()))
        w = f"{f.file}:{f.node.lineno}"
        short = q.replace("zquantum.core.", "")
        out = []
        for (base, how, key), v in s.post.items():
            if how != "item":
                continue
            signs = []
            _signs(v, 1, signs)
            mine = [(g, t) for g, t in signs if any(
                x.kind == "param" and x.args[0] == other for x in _data(t))]
            bad = [(g, t) for g, t in mine if g == -sign]
            kind = "constants" if key is not None and getattr(key, "kind", "") == "tuple" else "terms"
            if bad:
                out.append(ob(name, f"{short}:{kind}", VIOLATED, w,
                              f"`{show(bad[0][1], 5)}` is stored with the wrong sign"))
            elif mine and all(g == sign for g, _ in mine) and not s.truncated:
                out.append(ob(name, f"{short}:{kind}", PROVED, w, ""))
            else:
                out.append(ob(name, f"{short}:{kind}", UNKNOWN, w, "signs not visible"))
        return out or [ob(name, short, UNKNOWN, w, "no stored items found")]

    def run(tier):
        equiv.common(core.program(), equiv.ref_program())
        return core.pmap(one, table)
    return {"name": name, "run": run, "min": minimum,
            "doc": "every coefficient an in-place sum or difference stores takes the right "
                   "operand's coefficient with the operation's sign"}


def _data(t):
    """Subterms that carry data (the position of an item does not)."""
    if t.kind == "item":
        return _data(t.args[0])
    if t.kind == "loopvar":
        return _data(t.args[2])
    if t.kind == "copied":
        return _data(t.args[1])
    if t.kind == "call" and t.args[0].kind == "attr":
        return _data(t.args[0].args[0])
    return list(subterms(t))
