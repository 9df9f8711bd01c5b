"""Property id -> rules."""
from . import equiv, shape
from .rules import effects, laws

Z = "zquantum.core."


def _m(*names):
    return tuple(Z + n for n in names)


def rules_for(pid):
    return RULES[pid]()


CIRCUIT_FRESH = [Z + q for q in (
    "circuits._circuit.Circuit.__init__", "circuits._circuit.Circuit.__add__",
    "circuits._circuit.Circuit.bind",
)]

OPS = "openfermion.ops.operators.symbolic_operator.SymbolicOperator."
TEN = "openfermion.ops.representations.polynomial_tensor.PolynomialTensor."
OP_FRESH = [Z + OPS + n for n in (
    "__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__",
    "__neg__", "__pow__", "__div__", "accumulate", "zero", "identity", "get_operators",
    "get_operator_groups")] + [Z + TEN + n for n in (
        "__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__",
        "__neg__", "__mod__", "__iadd__", "__isub__", "with_function_applied_elementwise")]

RULES = {
    "C01": lambda: [
        effects.effect_rule(_m("circuits", "decompositions", "evolution", "symbolic_simulator",
                               "interfaces.backend", "trackers", "wip"),
                            exclude=_m("circuits.layouts"), savers=False, minimum=60),
        effects.fresh_rule(CIRCUIT_FRESH, 3),
    ],
    "C02": lambda: [
        effects.effect_rule(_m("openfermion"), savers=False, minimum=120),
        effects.fresh_rule(OP_FRESH, 12),
    ],
    "C03": lambda: [
        effects.effect_rule(_m("estimation", "cost_function", "cost_function_augmentations",
                               "hamiltonian", "gradients", "history", "interfaces"),
                            exclude=_m("interfaces.backend"), savers=False, minimum=50),
    ],
    "C04": lambda: [
        effects.effect_rule(_m("")[:0] + ("zquantum.core", "steps"), savers=True, minimum=20),
    ],
    "C05": lambda: [
        effects.effect_rule(_m("measurement", "distribution", "wavefunction", "graph", "utils",
                               "bitstring_distribution", "serialization", "circuits.layouts"),
                            savers=False, minimum=70),
    ],
    "C06": lambda: [
        effects.effect_rule(("steps",), savers=False, minimum=20),
    ],
}


# --------------------------------------------------------------- reference comparison
def quals(include, exclude=()):
    """Functions (of the current tree or of the reference) under the given names."""
    from . import core

    def hit(q, pats):
        return any(q == x or q.startswith(x + ".") or q.startswith(x + "#") for x in pats)

    def get():
        both = set(core.program().funcs) | set(equiv.ref_program().funcs)
        return sorted(q for q in both if hit(q, include) and not hit(q, exclude))
    return get


def _n(names):
    return tuple(x if x.startswith("steps") else Z + x for x in names)


def same(include, exclude=(), mods=None, minimum=1, aspects=None):
    """Functions under these names compute what the reference computes, plus their constants."""
    inc, exc = _n(include), _n(exclude)
    kw = {"aspects": aspects} if aspects else {}
    rs = [equiv.rule("same results as the reviewed reference",
                     "results, exceptions, effects and calls of each function agree with the "
                     "reviewed reference for every input", quals(inc, exc), minimum, **kw)]
    if mods:
        rs.append(shape.rule(_n(mods), 0))
    return lambda: rs


OF = "openfermion."
SAVERS = [
    "measurement." + x for x in (
        "save_expectation_values", "load_expectation_values", "load_wavefunction",
        "save_wavefunction", "ExpectationValues", "Parities", "save_parities", "load_parities",
        "Measurements.load_from_file", "Measurements.save", "Measurements.__init__",
        "Measurements.from_counts", "Measurements.get_counts")
] + ["serialization"] + ["utils." + x for x in (
    "convert_dict_to_array", "convert_array_to_dict", "ValueEstimate", "load_value_estimate",
    "save_value_estimate", "load_list", "save_list", "save_generic_dict", "load_noise_model",
    "save_noise_model", "save_timing", "save_nmeas_estimate", "load_nmeas_estimate",
    "load_from_specs")] + ["graph.save_graph", "graph.load_graph"] + ["circuits.layouts." + x for x in (
        "CircuitLayers", "CircuitConnectivity", "save_circuit_layers", "load_circuit_layers",
        "save_circuit_ordering", "load_circuit_ordering", "save_circuit_connectivity",
        "load_circuit_connectivity")] + [OF + "zapata_utils._io"] + [
            "distribution._measurement_outcome_distribution." + x for x in (
                "MeasurementOutcomeDistribution", "preprocess_distibution_dict",
                "change_tuple_dict_keys_to_comma_separated_integers",
                "save_measurement_outcome_distribution", "save_measurement_outcome_distributions",
                "load_measurement_outcome_distribution",
                "load_measurement_outcome_distributions")] + [
                    OF + "utils.operator_utils." + x for x in ("get_file_path", "load_operator",
                                                               "save_operator")]
RANDOM = [
    "graph", "circuits._testing", "circuits._generators", "testing._initialize",
    "wavefunction.Wavefunction", "measurement.sample_from_wavefunction",
    "measurement.Measurements.get_measurements_representing_distribution",
    "measurement._check_sample_elimination", "symbolic_simulator",
    "utils.sample_from_probability_distribution", "cost_function.add_normal_noise",
    OF + "zapata_utils._utils.generate_random_qubitop", OF + "testing.random",
    OF + "testing.testing_utils", "steps.graph", "steps.circuit.create_random_circuit",
    "steps.circuit.generate_random_ansatz_params", "steps.utils", "steps.operators",
    "interfaces.mock_objects", "estimation"]
SUBST = [
    "circuits._operations", "circuits._gates", "circuits._circuit.Circuit.bind",
    "circuits._circuit.Circuit.free_symbols", "circuits._wavefunction_operations",
    "wavefunction.Wavefunction.bind", "wavefunction.Wavefunction.free_symbols",
    "utils.create_symbols_map", "interfaces.ansatz.Ansatz.get_executable_circuit",
    "cost_function", "circuits.symbolic._sorting", "steps.circuit.evaluate_parametrized_circuit"]

RULES.update({
    "C07": same(["circuits._circuit", "circuits._generators", "circuits._testing",
                 "circuits._operations", "circuits._gates", "circuits._wavefunction_operations",
                 "circuits._unitary_tools"],
                mods=["circuits._circuit", "circuits._generators"], minimum=20),
    "C08": same(["circuits._gates", "circuits._operations", "circuits._wavefunction_operations",
                 "circuits._compatibility", "wip.compatibility_tools", "circuits._builtin_gates",
                 "circuits._unitary_tools"],
                mods=["circuits._gates", "circuits._operations", "circuits._builtin_gates",
                      "circuits._wavefunction_operations"], minimum=50),
    "C09": same(["circuits._serde", "circuits._builtin_gates", "circuits._circuit",
                 "circuits._gates", "circuits._wavefunction_operations", "circuits.symbolic",
                 "serialization.ensure_open"],
                mods=["circuits._serde", "circuits._builtin_gates", "circuits._gates"],
                minimum=30),
    "C10": same(SAVERS, mods=["serialization", "measurement", "utils", "typing"], minimum=50),
    "C11": same(["interfaces.backend", "symbolic_simulator", "interfaces.mock_objects",
                 "measurement.sample_from_wavefunction", "measurement.Measurements",
                 "circuits._wavefunction_operations", "circuits._gates.GateOperation",
                 "circuits._circuit.split_circuit", "circuits._unitary_tools",
                 "distribution._measurement_outcome_distribution",
                 "utils.sample_from_probability_distribution",
                 "utils.convert_tuples_to_bitstrings", "measurement._check_sample_elimination",
                 "wavefunction.Wavefunction"],
                mods=["interfaces.backend", "symbolic_simulator", "interfaces.mock_objects"],
                minimum=12),
    "C12": same(["trackers", "interfaces.backend", "measurement.Measurements.get_counts",
                 "measurement.Measurements.get_distribution",
                 "measurement.Measurements.__init__", "circuits._serde.to_dict"], mods=["trackers"], minimum=5),
    "C13": same(["estimation", "interfaces.estimation", "interfaces.estimator_contract",
                 "measurement.concatenate_expectation_values",
                 "measurement.expectation_values_to_real", "utils.scale_and_discretize",
                 "measurement.Measurements.get_expectation_values", "measurement.ExpectationValues",
                 "interfaces.backend.QuantumSimulator", "hamiltonian.estimate_nmeas_for_frames",
                 "hamiltonian.group_comeasureable_terms_greedy",
                 "measurement.get_expectation_value_from_frequencies"],
                mods=["estimation", "interfaces.estimation"], minimum=10),
    "C14": same(["hamiltonian", "estimation._estimation.group_individually",
                 "estimation._estimation.group_greedily", "measurement.ExpectationValues",
                 "measurement.expectation_values_to_real"], mods=["hamiltonian"], minimum=9),
    "C15": same(["cost_function", "cost_function_augmentations", "gradients",
                 "interfaces.cost_function", "interfaces.functions", "interfaces.ansatz",
                 "interfaces.ansatz_utils", "steps.circuit.combine_ansatz_params",
                 "measurement.concatenate_expectation_values"],
                mods=["cost_function", "cost_function_augmentations", "gradients",
                      "interfaces.cost_function", "interfaces.functions"], minimum=25),
    "C16": same(["interfaces.ansatz", "interfaces.ansatz_utils", "interfaces.mock_objects.MockAnsatz",
                 "circuits.symbolic._sorting", "utils.create_symbols_map",
                 "circuits._circuit.Circuit.bind", "circuits._circuit.Circuit.free_symbols"],
                mods=["interfaces.ansatz", "interfaces.ansatz_utils", "interfaces.mock_objects"],
                minimum=14),
    "C17": same(["history", "interfaces.optimizer", "interfaces.functions",
                 "interfaces.mock_objects"],
                mods=["history", "interfaces.optimizer", "interfaces.functions",
                      "interfaces.mock_objects"], minimum=30),
    "C18": same(["wavefunction"], mods=["wavefunction"], minimum=18),
    "C19": same(["distribution", "bitstring_distribution"],
                mods=["distribution", "bitstring_distribution"], minimum=15),
    "C20": same(["measurement", "utils.convert_tuples_to_bitstrings",
                 "utils.sample_from_probability_distribution", "utils.convert_bitstrings_to_tuples",
                 "utils.convert_dict_to_array", "utils.convert_array_to_dict",
                 "wavefunction.Wavefunction"], mods=["measurement"], minimum=25),
    "C21": same(["circuits.symbolic"], mods=["circuits.symbolic"], minimum=18),
    "C22": lambda: [laws.polarity_rule(
        [(Z + c + m, g) for c in (OPS, TEN) for m, g in (("__iadd__", 1), ("__isub__", -1))], 4)
    ] + same([OF + "ops", OF + "utils.commutators", OF + "utils.indexing"],
                mods=[OF + "ops"], minimum=80)(),
    "C23": same([OF + "transforms", OF + "utils", OF + "hamiltonians.special_operators",
                 OF + "ops.representations"],
                mods=[OF + "transforms", OF + "utils.operator_utils"], minimum=40),
    "C24": same([OF + "chem", OF + "circuits", OF + "hamiltonians", OF + "linalg",
                 OF + "measurements", OF + "ops.representations", OF + "utils",
                 OF + "transforms.repconversions", OF + "transforms.opconversions.conversions"],
                mods=[OF + "chem", OF + "circuits", OF + "hamiltonians", OF + "linalg",
                      OF + "measurements", OF + "config"], minimum=60),
    "C25": same([OF + "zapata_utils", OF + "utils", OF + "transforms.opconversions.conversions",
                 OF + "transforms.opconversions.reverse_jordan_wigner",
                 OF + "transforms.opconversions.term_reordering", "utils.dec2bin", "utils.bin2dec",
                 OF + "transforms.repconversions", OF + "linalg.sparse_tools.expectation",
                 "utils.convert_dict_to_array", "utils.convert_array_to_dict"], mods=[OF + "zapata_utils._utils"], minimum=14),
    "C26": same(["decompositions", "evolution", "circuits._circuit"], mods=["decompositions", "evolution"], minimum=10),
    "C27": same(["circuits._matrices", "circuits._builtin_gates", "circuits._unitary_tools",
                 "circuits._gates"],
                mods=["circuits._matrices", "circuits._builtin_gates", "circuits._unitary_tools"],
                minimum=30),
    "C28": same(RANDOM, mods=["graph"], minimum=30),
    "C29": same(SUBST, mods=["circuits._operations"], minimum=50),
    "C30": lambda: [equiv.rule(
        "same errors as the reviewed reference", "exception kinds, conditions and handlers of each "
        "function agree with the reviewed reference", raising, 100, aspects=("raises",))],
    "C31": same(["steps", OF + "zapata_utils", "utils.create_object", "utils.load_from_specs",
                 "serialization", "trackers"], mods=["steps"], minimum=30),
    "C32": same(["graph", "circuits.layouts", "steps.graph", "serialization"], mods=["graph", "circuits.layouts"],
                minimum=25),
    "C33": same(["utils"], mods=["utils"], minimum=25),
})


def raising():
    """Functions in which something is raised, asserted or caught, in either tree."""
    import ast
    from . import core
    out = set()
    for p in (core.program(), equiv.ref_program()):
        for q, f in p.funcs.items():
            if any(isinstance(n, (ast.Raise, ast.Assert, ast.Try)) for n in ast.walk(f.node)):
                out.add(q)
    return sorted(out)
