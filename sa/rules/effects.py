"""Effect rule: which caller-visible objects may an entry point modify?"""
import json
import os

from .. import core, types as ty
from ..terms import leaves
from ..core import PROVED, UNKNOWN, VIOLATED, ob

PFX = "zquantum.core."
TABLE = os.path.join(os.path.dirname(os.path.dirname(__file__)), "public_api.json")

# objects whose job is to change when used: counters, caches, histories, files
STATEFUL = {
    "QuantumBackend", "QuantumSimulator", "Ansatz", "Optimizer", "NestedOptimizer",
    "SimpleRecorder", "ArtifactRecorder", "MeasurementTrackingBackend", "Random", "RandomState",
}
# methods that are documented to work in place on their receiver
IN_PLACE = {
    "__init__", "__post_init__", "__setitem__", "__setattr__", "__set__", "__delitem__",
    "__iadd__", "__isub__", "__imul__", "__itruediv__", "__idiv__", "__ipow__",
    "compress", "renormalize", "rotate_basis", "add_counts", "__setstate__", "__new__",
}
VALUE = {
    "Circuit", "MatrixFactoryGate", "ControlledGate", "Dagger", "CustomGateDefinition",
    "CustomGateMatrixFactory", "GateOperation", "MultiPhaseOperation", "EstimationTask",
    "Measurements", "MeasurementOutcomeDistribution", "Wavefunction", "ExpectationValues",
    "Parities", "ValueEstimate", "SymbolicOperator", "QubitOperator", "FermionOperator",
    "IsingOperator", "PolynomialTensor", "InteractionOperator", "InteractionRDM",
    "CircuitLayers", "CircuitConnectivity", "FunctionCall", "HistoryEntry",
}


# reviewed exceptions: (entry point, root) -> reason
EXCEPTIONS = {
    ("serialization.OrquestraDecoder.object_hook", "obj"):
        "called by json.loads with a dictionary the decoder itself has just built",
    ("interfaces.ansatz_utils.DynamicProperty.__get__", "obj"): "descriptor storing its value",
    ("interfaces.ansatz_utils.DynamicProperty.__set__", "obj"): "descriptor storing its value",
    ("distribution._measurement_outcome_distribution.normalize_measurement_outcome_distribution",
     "measurement_outcome_distribution"): "documented in-place: its tests rely on it",
    ("measurement.expectation_values_to_real", "expectation_values"):
        "documented in-place: its test relies on it",
    ("openfermion.transforms.repconversions.operator_tapering.freeze_orbitals",
     "fermion_operator"): "the write happens only when an orbital is frozen, and then the "
                          "loop over frozen orbitals has already replaced the operator",
}


def public_api():
    return json.load(open(TABLE))["public"]


def roots_in(prefixes, exclude=(), savers=None):
    p = core.program()
    out = []
    for q in public_api():
        if not any(q == x or q.startswith(x + ".") for x in prefixes):
            continue
        if any(q == x or q.startswith(x + ".") for x in exclude):
            continue
        f = p.funcs.get(q)
        if f is None or f.is_abstract:
            continue
        issave = f.name.startswith("save")
        if savers is not None and issave != savers:
            continue
        out.append(q)
    return out


def _stateful(i, f, root):
    t = i.entry_types.get(root)
    for m in ty.members(t) if t is not None else ():
        if m[0] == "cls":
            names = {c.name for c in core.program().mro(m[1])}
            if names & STATEFUL:
                return True
        if m[0] == "ext" and m[1].split(".")[-1] in STATEFUL:
            return True
    return False


def _cls_stateful(c):
    return bool({k.name for k in core.program().mro(c)} & STATEFUL)


def effect_obs(q):
    p = core.program()
    f = p.funcs[q]
    i = core.interp(f)
    r = i.run(f)
    kinds = {n: k for n, _, _, k in f.params()}
    params = [n for n, _, _, _ in f.params()]
    selfp = params[0] if f.cls is not None and not f.is_static and params else None
    bad = {}
    for e in r.events:
        if e.kind != "mutate":
            continue
        for root, path in i.roots(e.d["target"]):
            attr = e.d.get("attr") or ""
            if root == selfp:
                if f.name in IN_PLACE or f.qualname.endswith(".setter"):
                    continue
                if f.is_class:
                    pass
                elif f.cls.name not in VALUE:
                    continue
            elif kinds.get(root) in ("vararg", "kwarg") and path == "":
                continue
            elif kinds.get(root) in ("vararg", "kwarg") and q.endswith("__call__"):
                continue
            elif _stateful(i, f, root):
                continue
            elif attr in ("number_of_circuits_run", "number_of_jobs_run",
                          "_parametrized_circuit"):
                continue
            if (q.replace(PFX, ""), root) in EXCEPTIONS:
                continue
            bad.setdefault((root, path), []).append(e)
    out = []
    short = q.replace(PFX, "")
    for (root, path), evs in sorted(bad.items(), key=lambda kv: kv[0]):
        e = evs[0]
        via = " -> ".join(s.split(".")[-1] for s in e.stack[1:])
        out.append(ob("no-argument-mutation", f"{short}:{root}{path}", VIOLATED, e.where,
                      f"{short} modifies `{root}{path}` it was given ({e.d['how']}"
                      + (f", via {via}" if via else "") + ")"))
    if not bad:
        st = UNKNOWN if i.truncated else PROVED
        out.append(ob("no-argument-mutation", short, st, f"{f.file}:{f.node.lineno}",
                      "analysis budget exhausted" if i.truncated else
                      f"{len(r.events)} events over {len(set(x.func.qualname for x in r.events))}"
                      " functions, none writes to caller-visible storage"))
    return out


def effect_rule(prefixes, exclude=(), savers=None, minimum=1, more=()):
    def run(tier):
        qs = roots_in(prefixes, exclude, savers)
        return core.pmap(effect_obs, sorted(set(qs) | set(more)))

    return {"name": "no-argument-mutation", "run": run, "min": minimum,
            "doc": "for every public entry point in scope, the interprocedural effect analysis "
                   "(abstract heap + access-path aliasing, repo callees inlined or summarised) "
                   "finds no write, in-place operator, mutating method or mutating library call "
                   "on storage reachable from an argument"}


# ------------------------------------------------------------------ sharing
def _mutable_type(i, t, st, fr):
    tt = i.typeof(t, st, fr)
    return ty.mutable(core.program(), tt) if tt is not None else None


def shared_parts(i, r, st, v, _d=0, path="result", strict=False):
    """(path, root) pairs: mutable storage of a result that a parameter also reaches."""
    if _d > 6:
        return
    k = v.kind
    if k == "ite":
        yield from shared_parts(i, r, st, v.args[1], _d + 1, path, strict)
        yield from shared_parts(i, r, st, v.args[2], _d + 1, path, strict)
        return
    if k == "obj":
        o = st.heap.get(v.args[0])
        if o is None:
            return
        for f, x in o.fields.items():
            yield from shared_parts(i, r, st, x, _d + 1, f"{path}.{f}", strict)

        def segs(ss):
            for s in ss:
                if s.kind == "seg_item":
                    yield s.args[0], "[]"
                elif s.kind == "kv":
                    yield s.args[1], "[]"
                elif s.kind == "each":
                    yield from segs(s.args[2])
                elif s.kind == "segcond":
                    yield from segs(s.args[1])
                    yield from segs(s.args[2])
        for x, p in segs(o.segs):
            yield from shared_parts(i, r, st, x, _d + 1, path + p, strict)
        return
    if k in ("param", "attr", "item", "elem", "loopvar", "loopres", "inplace"):
        if k in ("loopvar", "loopres"):
            for x in (v.args[2:3] if k == "loopvar" else v.args[3:5]):
                yield from shared_parts(i, r, st, x, _d + 1, path, strict)
            return
        rs = i.roots(v)
        m = _mutable_type(i, v, st, i.entry) if rs else False
        if m or (strict and m is None):
            for root, p in sorted(rs):
                yield path, f"{root}{p}"


def fresh_obs(q):
    f = core.program().funcs[q]
    i = core.interp(f)
    r = i.run(f)
    short = q.replace(PFX, "")
    bad = {}
    rets = [] if f.name in IN_PLACE else r.returns
    if f.name == "__init__":
        rets = []
        selfp = f.params()[0][0]
        for e in r.events:
            if e.kind == "store" and e.d["base"] is not None and i.roots(e.d["base"]) == {
                    (selfp, "")}:
                for p, root in shared_parts(i, r, r.state, e.d["value"], 0,
                                            f"self.{e.d['attr']}"):
                    if not root.startswith(selfp):
                        bad.setdefault((p, root), e.where)
    for pc, v, st in rets:
        for p, root in shared_parts(i, r, st, v, strict="PolynomialTensor" in q):
            bad.setdefault((p, root), f"{f.file}:{f.node.lineno}")
    # what is stored into the result (or receiver) must not be an operand's array
    strict = "PolynomialTensor" in q
    for e in r.events:
        if e.kind not in ("setitem", "store") or f.name == "__init__":
            continue
        owners = {x for x, _ in i.roots(e.d["base"])}
        for _, leaf in leaves(e.d["value"]):
            rs = {(x, p) for x, p in i.roots(leaf) if x not in owners}
            m = _mutable_type(i, leaf, r.state, i.entry) if rs and r.state else False
            if rs and (m or (strict and m is None)):
                x, p = sorted(rs)[0]
                bad.setdefault(("stored value", f"{x}{p}"), e.where)
    out = [ob("fresh-result", f"{short}:{p}<-{root}", VIOLATED, w,
              f"{p} of {short} is the same mutable storage as `{root}`")
           for (p, root), w in sorted(bad.items())]
    if not bad:
        out = [ob("fresh-result", short, UNKNOWN if i.truncated else PROVED,
                  f"{f.file}:{f.node.lineno}", f"{len(rets)} return paths")]
    return out


def fresh_rule(funcs, minimum):
    def run(tier):
        p = core.program()
        return core.pmap(fresh_obs, [q for q in funcs if q in p.funcs])

    return {"name": "fresh-result", "run": run, "min": minimum,
            "doc": "for every listed operation no mutable container or array held by the result "
                   "(or stored by the constructor) is reachable from an operand, so later "
                   "in-place changes of one cannot show through the other"}
