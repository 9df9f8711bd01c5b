"""Shared plumbing of the checks: obligations, parallel analysis, reporting."""
import ast
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import model
from .interp import Interp
from .model import AnalysisBroken, Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
PROVED, VIOLATED, UNKNOWN = "proved", "violated", "unknown"

_PROG = None


def program():
    global _PROG
    if _PROG is None:
        sys.setrecursionlimit(12000)
        _PROG = Program(REPO)
    return _PROG


def interp(f=None, **kw):
    p = program()
    i = Interp(p, **kw)
    if f is not None:
        i.objectish = i.objectish_params(f)
    return i


def analyse(q, self_cls=None, args=None, **kw):
    """Run the value-flow analysis on one entry point."""
    p = program()
    f = q if not isinstance(q, str) else p.func(q)
    i = interp(f, **kw)
    return i.run(f, self_cls=self_cls, args=args)


class Ob(dict):
    """One obligation: rule instance and its verdict."""

    @property
    def key(self):
        return f"{self['rule']}|{self['construct']}"


def ob(rule, construct, status, where="", detail=""):
    return Ob(rule=rule, construct=construct, status=status, where=where, detail=detail)


_JOB = (None, ())


def _work(ix):
    fn, item = _JOB[0], _JOB[1][ix]
    try:
        return fn(item)
    except AnalysisBroken:
        raise
    except RecursionError:
        return [ob("engine", f"{item}", UNKNOWN, detail="recursion limit")]
    except Exception as e:  # engine imprecision never raises an alarm
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        return [ob("engine", f"{item}", UNKNOWN, detail=f"{type(e).__name__}: {e}")]


def pmap(fn, items, procs=8):
    """Parallel map of an obligation generator over items; order kept."""
    program()
    global _JOB
    items = list(items)
    _JOB = (fn, items)
    if len(items) <= 2 or os.environ.get("SA_SERIAL"):
        res = [_work(k) for k in range(len(items))]
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(procs, len(items))) as pool:
            res = pool.map(_work, range(len(items)), chunksize=1)
    out = []
    for r in res:
        out.extend(r or [])
    return out


def callees(p, q, unique):
    """Repository functions a function mentions: by name, by construction, by a method name
    that only one class defines."""
    f, out = p.funcs[q], set()
    for n in ast.walk(f.node):
        if not isinstance(n, (ast.Name, ast.Attribute)):
            continue
        e = p.resolve_expr(f.module, n)
        if isinstance(e, model.FuncInfo):
            out.add(e.qualname)
        elif isinstance(e, model.ClassInfo):
            for m in ("__init__", "__post_init__", "__new__"):
                g = p.find_method(e, m)
                if isinstance(g, model.FuncInfo):
                    out.add(g.qualname)
        elif isinstance(n, ast.Attribute) and n.attr in unique:
            out.add(unique[n.attr])
    return out


def closure(quals, p):
    """The functions and everything they reach in the call graph."""
    seen = {}
    for q, f in p.funcs.items():
        if f.cls is not None:
            seen.setdefault(f.name, []).append(q)
    unique = {n: v[0] for n, v in seen.items() if len(v) == 1}
    out, todo = set(quals), list(quals)
    while todo:
        q = todo.pop()
        if q in p.funcs:
            for c in callees(p, q, unique) - out:
                out.add(c)
                todo.append(c)
    return out


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def run_check(pid, rules, tier, seed):
    """Evaluate the rules of one property; write evidence; return the exit code."""
    t0 = time.time()
    obs, notes = [], []
    minima = {}
    for r in rules:
        for o in r["run"](tier):
            obs.append(o)
        minima[r["name"]] = r
    by_rule = {}
    for o in obs:
        d = by_rule.setdefault(o["rule"], {"proved": 0, "violated": 0, "unknown": 0})
        d[o["status"]] += 1
    for r in rules:
        n = sum(1 for o in obs if o["rule"] == r["name"])
        if n < r.get("min", 1):
            raise AnalysisBroken(f"rule {r['name']}: {n} instances, expected >= {r['min']}")
    kf = {f["key"]: f for f in known()["findings"] if f["property"] == pid}
    viol, seen_known = [], {}
    for o in obs:
        if o["status"] != VIOLATED:
            continue
        if o.key in kf:
            seen_known[o.key] = o
        else:
            viol.append(o)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of /repo's current source: " + "; ".join(
                f"[{r['name']}] {r['doc']}" for r in rules),
            "obligations": len(obs),
            "discharged": sum(1 for o in obs if o["status"] == PROVED),
            "undecided": sum(1 for o in obs if o["status"] == UNKNOWN),
            "modules_parsed": len(program().modules),
            "functions_in_program": len(program().funcs),
            "per_rule": by_rule,
            "undecided_list": [f"{o.key}: {o['detail']}" for o in obs
                               if o["status"] == UNKNOWN][:60],
            "samples": [f"{o.key} [{o['status']}] {o['where']} {o['detail']}"[:300]
                        for o in obs[:: max(1, len(obs) // 12)]][:14],
            "known_findings": sorted(seen_known),
        },
        "assumptions": [
            "external libraries behave as their documentation says",
            "modules are not monkey-patched at run time",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    evdir = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    path = os.path.join(evdir, f"{pid}.json")
    for k, o in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={pid} {kf[k]['what']} [{k}]")
    if viol:
        rp = os.path.join(evdir, f"{pid}.violations.json")
        json.dump([dict(o, key=o.key) for o in viol], open(rp, "w"), indent=1)
        ev["coverage"]["violation_list"] = [
            f"{o.key} at {o['where']}: {o['detail']}" for o in viol][:40]
        json.dump(ev, open(path, "w"), indent=1)
        done = set()
        for o in viol:
            if o.key in done:
                continue
            done.add(o.key)
            print(f"{pid}: {o['rule']}: {o['construct']}\n    at {o['where']}\n    {o['detail']}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    json.dump(ev, open(path, "w"), indent=1)
    print(f"{pid}: {len(obs)} obligations, {ev['coverage']['discharged']} proved, "
          f"{ev['coverage']['undecided']} undecided, {len(seen_known)} known, "
          f"{ev['wall_s']} s")
    return 0
