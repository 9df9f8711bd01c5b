#!/usr/bin/env python3
"""Development aid: sensitivity of the reference comparison.  Mutates functions in memory
(never executing anything) and reports how many mutants are reported/undecided/missed.
usage: mutants.py PREFIX N [seed]"""
import ast, copy, os, random, sys, threading, multiprocessing as mp
from collections import Counter
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import core, equiv

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv}


def mutants(fn):
    """[(description, apply)] ; apply() mutates in place"""
    out = []
    raising = set()
    for x in ast.walk(fn):
        if isinstance(x, (ast.Raise, ast.JoinedStr)) or isinstance(x, ast.Call) and getattr(x.func, "id", "") in ("warn", "print"):
            raising.update(ast.walk(x))
        if isinstance(x, ast.arguments) or isinstance(x, ast.AnnAssign):
            for s in ast.walk(x.annotation if isinstance(x, ast.AnnAssign) else x):
                raising.add(s)
        if isinstance(x, ast.Call) and getattr(x.func, "id", getattr(x.func, "attr", "")) == "cast":
            raising.update(ast.walk(x.args[0]))
    if fn.returns is not None:
        raising.update(ast.walk(fn.returns))
    body0 = fn.body[0] if fn.body else None
    if isinstance(body0, ast.Expr) and isinstance(body0.value, ast.Constant):
        raising.update(ast.walk(body0))
    for n in ast.walk(fn):
        if n in raising:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            def f(n=n): n.ops[0] = CMP[type(n.ops[0])]()
            out.append((f"cmp@{ln}", f))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not isinstance(n.left, ast.JoinedStr):
                def f(n=n): n.op = BIN[type(n.op)]()
                out.append((f"bin@{ln}", f))
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            def f(n=n): n.op = BIN[type(n.op)]()
            out.append((f"aug@{ln}", f))
        if isinstance(n, ast.BoolOp):
            def f(n=n): n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            out.append((f"bool@{ln}", f))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            def f(n=n): n.op = ast.UAdd()
            out.append((f"neg@{ln}", f))
        if isinstance(n, ast.Constant) and n.value is not None and not isinstance(n.value, bytes):
            def f(n=n):
                v = n.value
                n.value = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, (int, float, complex)) else v + "x"
            if n.value is not Ellipsis:
                out.append((f"const {n.value!r}@{ln}", f))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            def f(n=n): n.test = ast.copy_location(ast.UnaryOp(ast.Not(), n.test), n.test)
            out.append((f"ifneg@{ln}", f))
        if isinstance(n, ast.Call):
            if n.keywords and n.keywords[-1].arg:
                def f(n=n): n.keywords.pop()
                out.append((f"dropkw {n.keywords[-1].arg}@{ln}", f))
            if len(n.args) >= 2 and ast.dump(n.args[0]) != ast.dump(n.args[1]) and getattr(n.func, "id", "") not in ("isinstance", "cast"):
                def f(n=n): n.args[0], n.args[1] = n.args[1], n.args[0]
                out.append((f"swapargs@{ln}", f))
        for fld in ("body", "orelse"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.AugAssign,)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) or (
                            isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Attribute, ast.Subscript))) or isinstance(s, ast.Raise):
                        def f(b=b, i=i, s=s): b[i] = ast.copy_location(ast.Pass(), s)
                        out.append((f"drop {type(s).__name__}@{s.lineno}", f))
        if isinstance(n, (ast.For, ast.comprehension)):
            def f(n=n): n.iter = ast.copy_location(ast.Subscript(n.iter, ast.copy_location(ast.Slice(lower=ast.copy_location(ast.Constant(1), n.iter)), n.iter), ast.Load()), n.iter)
            out.append((f"skipfirst@{getattr(n, 'lineno', n.iter.lineno)}", f))
        if isinstance(n, ast.comprehension) and n.ifs:
            def f(n=n): n.ifs.pop()
            out.append((f"dropif@{n.iter.lineno}", f))
    return out


def work(job):
    q, k = job
    f = core.program().funcs[q]
    f.__dict__.pop("_sz", None)
    ms = mutants(f.node)
    desc, ap = ms[k]
    ap()
    for g in core.program().funcs.values():
        g.__dict__.pop("_sz", None)
    core.program().__dict__.pop("_summ", None)
    core.program().__dict__.pop("_common", None)
    try:
        st, det, path = equiv.compare(q)
    except Exception as e:
        st, det = "crash", repr(e)
    return q, desc, st, det


def main():
    pre, n = sys.argv[1], int(sys.argv[2])
    rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 0)
    p = core.program(); equiv.ref_program()
    jobs = [(q, k) for q in p.funcs if pre in q and isinstance(p.funcs[q].node, ast.FunctionDef) for k in range(len(mutants(p.funcs[q].node)))]
    print("total mutants", len(jobs))
    jobs = rnd.sample(jobs, min(n, len(jobs)))
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        res = pool.map(work, jobs, chunksize=1)
    print(Counter(r[2] for r in res))
    for r in sorted(res, key=lambda r: (r[2], r[0])):
        if r[2] != "violated":
            print(r[2], r[0].replace("zquantum.core.", ""), r[1], "|", r[3][:230])


threading.stack_size(512 << 20); sys.setrecursionlimit(12000)
t = threading.Thread(target=main); t.start(); t.join()
