"""Texts of the properties and of the manifest (tools/gen.py writes the JSON files)."""
S = "src/python/zquantum/core/"
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=[f if f.startswith("steps") else S + f for f in files],
                  mech=[dict(name=n, where=w) for n, w in mech], tech=tech, note=note,
                  state=state))


EFF = "interprocedural effect and alias analysis (abstract heap, access paths) over the syntax tree"
EFFNOTE = ("Decides absence of writes to caller-visible storage on every path of every public entry "
           "point in scope; assumes external libraries mutate only through the modelled calls, and "
           "leaves calls of unknown callables (user functions) aside.")

prop("C01", "Circuit computations never modify the circuits, gates or values they get",
     "Building, combining, binding, inverting, decomposing, splitting, serializing, simulating and "
     "running circuits leaves every circuit, gate, operation, parameter list and symbol map that "
     "went in exactly as it was. A circuit also keeps its own copy of the operation list it is "
     "built from, so changing that list afterwards does not change the circuit.",
     ["inputs", "histories"], "every public circuit/gate/decomposition/evolution/simulator/backend "
     "entry point, all arguments, all paths",
     "tests look at results; hardly any compares the inputs before and after, and a write on a rare "
     "path corrupts a later computation only",
     ["circuits/_circuit.py", "circuits/_gates.py", "circuits/_operations.py",
      "circuits/_generators.py", "circuits/_serde.py", "decompositions/_decomposition.py",
      "evolution.py", "symbolic_simulator.py", "interfaces/backend.py", "trackers.py"],
     [("circuit construction copies its operations", "circuits/_circuit.py Circuit.__init__"),
      ("gates and operations are frozen data classes", "circuits/_gates.py"),
      ("appending returns a new circuit", "circuits/_circuit.py _append_to_circuit")],
     EFF, EFFNOTE)
prop("C02", "Operator algebra leaves operands alone and shares no storage with results",
     "Adding, subtracting, multiplying, dividing, negating, raising, transforming, converting, "
     "reordering, tapering, querying or iterating qubit/fermion/Ising operators, tensors and RDMs "
     "never changes an operand, unless the operation is explicitly an in-place one, and then only "
     "its left operand. The result of such an arithmetic operation holds no mutable storage that "
     "an operand also holds.",
     ["inputs", "histories"], "every public operator function and method, all operands, all paths",
     "tests check values of results; sharing and hidden writes only show in a later operation",
     ["openfermion/ops/operators/symbolic_operator.py",
      "openfermion/ops/representations/polynomial_tensor.py",
      "openfermion/transforms", "openfermion/utils/operator_utils.py",
      "openfermion/zapata_utils/_utils.py"],
     [("copy before in-place arithmetic", "SymbolicOperator.__add__/__sub__/__mul__"),
      ("tensor components copied", "PolynomialTensor.__iadd__/__isub__")], EFF, EFFNOTE)
prop("C03", "Estimation, cost functions, optimizers and history leave their inputs alone",
     "Grouping, context selection, shot allocation, estimation, cost-function evaluation, gradient "
     "computation, optimization and recording never modify the tasks, operators, circuits, "
     "parameter arrays, prior expectation values or task lists they are given.",
     ["inputs", "histories"], "every public entry point of these modules, all paths",
     "tests use each input once; damage shows when a caller reuses an input",
     ["estimation/_estimation.py", "cost_function.py", "cost_function_augmentations.py",
      "hamiltonian.py", "gradients.py", "history/recorder.py", "interfaces/optimizer.py",
      "interfaces/mock_objects.py"],
     [("tasks are rebuilt, not edited", "estimation/_estimation.py"),
      ("prior values are copied before taking real parts", "hamiltonian.py compute_group_variances")],
     EFF, EFFNOTE)
prop("C04", "Saving an object does not change the object",
     "Every function or method that writes an object to a file leaves that object (and everything "
     "reachable from it) unchanged, so that it can be used, saved again or compared afterwards.",
     ["inputs", "histories"], "every public saver, all objects, all paths",
     "tests save, load and compare the loaded copy; the saved original is rarely inspected",
     ["serialization.py", "utils.py", "measurement.py", "openfermion/zapata_utils/_io.py",
      "circuits/_serde.py", "circuits/layouts.py", "graph.py",
      "distribution/_measurement_outcome_distribution.py"],
     [("savers build the serialized form separately", "serialization.py, zapata_utils/_io.py")],
     EFF, EFFNOTE)
prop("C05", "Measurement, distribution, wavefunction and graph computations are read-only",
     "Computing counts, distributions, expectation values, parities, distances, probabilities, "
     "samples, conversions, layouts and graph evaluations leaves the measurements, "
     "distributions, wavefunctions, arrays, dictionaries and graphs they are computed from "
     "unchanged; the documented in-place operations are the only exceptions.",
     ["inputs", "histories"], "every public entry point of these modules, all paths",
     "tests check returned numbers for a few inputs, not the inputs themselves",
     ["measurement.py", "distribution/_measurement_outcome_distribution.py", "distribution/mmd.py",
      "wavefunction.py", "graph.py", "utils.py", "circuits/layouts.py"],
     [("results are accumulated in fresh containers", "measurement.py, utils.py")], EFF, EFFNOTE)
prop("C06", "Workflow steps leave the objects passed to them unchanged",
     "A workflow step that receives specifications, circuits, operators, parameter arrays or lists "
     "as objects rather than file names leaves those objects unchanged, so several steps can be "
     "run with the same inputs.",
     ["inputs", "histories"], "every public step function, all argument forms, all paths",
     "few steps have tests at all, and those pass fresh inputs each time",
     ["steps/measure.py", "steps/optimize.py", "steps/circuit.py", "steps/operators.py",
      "steps/graph.py", "steps/evaluation.py", "steps/transforms.py"],
     [("specifications are copied before use", "steps/measure.py, steps/optimize.py")],
     EFF, EFFNOTE)

REFT = ("semantic differencing: value graphs of every anchored function (results, exceptions, "
        "effects, loops, calls) from abstract interpretation of the syntax tree, normalised and "
        "compared with a reviewed reference; constants and class layouts likewise")
REFNOTE = ("Decides that the anchored functions compute on every input what the reviewed reference "
           "(kept in ref/, reviewed against this statement) computes, up to the normaliser's laws; "
           "undecided functions are listed in the evidence and never reported. The review itself and "
           "external libraries are trusted.")

prop("C07", "Circuit composition, binding and generation keep order, width and meaning",
     "Adding circuits or operations, binding symbols, inverting, generating gate layers, adding "
     "ancillas and splitting return circuits whose operations appear exactly once each and in the "
     "order of the inputs. The width of a result is the given width, or the larger of the operands' "
     "widths, or the smallest that fits its operations; two circuits are equal only if width and "
     "all operations agree. The unitary of a circuit multiplies its operations in order over its "
     "full width.",
     ["inputs", "programs"], "all circuits, operations, symbol maps and widths",
     "tests compose a few short circuits; loss, reordering or width errors need particular operands",
     ["circuits/_circuit.py", "circuits/_generators.py", "circuits/_testing.py"],
     [("append, add, bind, split, width rule", "circuits/_circuit.py Circuit, _append_to_circuit, "
       "split_circuit"), ("layers and ancillas", "circuits/_generators.py")], REFT, REFNOTE)
prop("C08", "Gate wrappers and operations keep everything they do not change",
     "Binding, replacing parameters, taking the inverse or adding controls of a gate or operation "
     "yields the same gate up to exactly that change: name, matrix, parameters, target qubits, "
     "width and hermiticity are kept, nested wrappers included. Inverse of inverse is the original; "
     "controls of controls add up; two gates are equal only if name, width, parameters and matrix "
     "agree. Applying an operation acts with its matrix, placed on its own qubits.",
     ["inputs", "programs"], "all gates, nestings of control and inverse, parameters and qubits",
     "tests sample gates and at most one level of nesting",
     ["circuits/_gates.py", "circuits/_operations.py", "circuits/_wavefunction_operations.py",
      "circuits/_builtin_gates.py", "circuits/_compatibility.py", "wip/compatibility_tools.py"],
     [("wrapper methods", "circuits/_gates.py MatrixFactoryGate, ControlledGate, Dagger, "
       "GateOperation"), ("custom gates", "circuits/_gates.py CustomGateDefinition"),
      ("multi-phase operation", "circuits/_wavefunction_operations.py")], REFT, REFNOTE)
prop("C09", "Circuit serialization loses nothing and is inverse to deserialization",
     "Converting a circuit or circuit set to its serialized form and back gives an equal one: gates "
     "of every kind (built-in, custom, controlled, inverted, nested), all parameters, free symbols, "
     "control counts, qubit indices, widths, operation order and every custom gate definition in "
     "use are written and read under the same keys.",
     ["inputs", "programs"], "all serializable circuits, nestings and parameter expressions",
     "tests round-trip a fixed list of circuits; a field lost only for some gate kind or nesting "
     "is not seen",
     ["circuits/_serde.py", "circuits/_builtin_gates.py", "circuits/_circuit.py"],
     [("one converter per kind", "circuits/_serde.py to_dict and *_to_dict/_from_dict"),
      ("custom definitions collected from nested gates",
       "circuits/_circuit.py Circuit.collect_custom_gate_definitions")], REFT, REFNOTE)
prop("C10", "Saved artifacts load back with every field intact",
     "What is saved (expectation values with correlations and covariances, parities, wavefunctions, "
     "measurements, distributions, operators, operator sets, density matrices, arrays, lists, value "
     "estimates, layouts, graphs, optimization results) is read back by the corresponding loader "
     "with no entry lost, renamed, truncated, reordered or stripped of its imaginary part. Schema "
     "tags name the kind of artifact, and loaders accept what savers write.",
     ["inputs", "histories"], "all objects of each artifact kind, optional fields present or not",
     "tests round-trip typical objects; optional, complex or empty fields are rarely covered",
     ["measurement.py", "serialization.py", "utils.py", "graph.py", "circuits/layouts.py",
      "openfermion/zapata_utils/_io.py", "distribution/_measurement_outcome_distribution.py",
      "openfermion/utils/operator_utils.py"],
     [("dictionary forms and keys", "to_dict/from_dict pairs, zapata_utils/_io.py"),
      ("complex arrays", "utils.py convert_array_to_dict"),
      ("JSON encoder and decoder", "serialization.py")], REFT, REFNOTE)
prop("C11", "Backends validate requests, count their work and return one result per circuit",
     "Running circuits on a backend rejects non-positive sample counts and mismatched "
     "lists of circuits and sample counts; it returns measurements for each circuit in the order "
     "given and increases the circuit and job counters by exactly what was executed. Simulators "
     "apply native and non-native operations in circuit order, from the given or the zero state, "
     "and exact expectation values sum the coefficient-weighted terms.",
     ["inputs", "histories"], "all circuits, batches, sample counts, initial states and backends",
     "tests run a handful of circuits per backend; counters and splits matter over long histories",
     ["interfaces/backend.py", "symbolic_simulator.py", "interfaces/mock_objects.py"],
     [("counters and validation", "interfaces/backend.py QuantumBackend"),
      ("native/non-native split", "interfaces/backend.py QuantumSimulator.get_wavefunction"),
      ("sampling", "symbolic_simulator.py")], REFT, REFNOTE)
prop("C12", "Measurement tracking records every run once and forwards it unchanged",
     "A tracking wrapper delegates every call to the backend it wraps with the same arguments and "
     "returns that backend's result unchanged. Each executed circuit leaves exactly one record, with "
     "its counts or distribution, circuit, gate count, sample count and device, appended to the "
     "records so far and written out.",
     ["histories", "inputs"], "all sequences of runs and distributions through the wrapper",
     "tests make one or two calls; loss or duplication shows over longer sequences",
     ["trackers.py"],
     [("record and save", "trackers.py MeasurementTrackingBackend")], REFT, REFNOTE)
prop("C13", "Estimation returns one result per task, in task order",
     "Grouping, shot allocation, context selection and estimation keep every task: each produces "
     "exactly one result, at its own position, from its own circuit, operator and number of shots, "
     "also when measured and non-measured tasks are mixed. Shots allocated proportionally or "
     "uniformly follow the given weights and totals; a task with a constant or zero-shot operator "
     "is not measured and yields its constants.",
     ["inputs", "histories"], "all task lists, operators, groupings and shot budgets",
     "tests use short lists with one or two kinds of task",
     ["estimation/_estimation.py", "interfaces/estimation.py", "interfaces/estimator_contract.py"],
     [("splitting and merging of tasks", "estimation/_estimation.py split_estimation_tasks_to_measure"
       ", estimate_expectation_values_by_averaging"),
      ("context selection", "estimation/_estimation.py perform_context_selection"),
      ("shot allocation", "estimation/_estimation.py allocate_shots_proportionally")], REFT, REFNOTE)
prop("C14", "Grouping of operator terms is complete and only joins co-measurable terms",
     "Every term of an operator ends up in exactly one group with its coefficient, a term only joins "
     "a group whose members are all co-measurable with it, and group variances and shot estimates "
     "are computed per group, over all pairs of its terms, from coefficients, expectation values and "
     "covariances. Expectation values taken from density matrices are computed for each term in "
     "operator order.",
     ["inputs"], "all operators, groupings, sort options, prior values and shot budgets",
     "tests group small operators; a wrongly joined or lost term needs particular overlaps",
     ["hamiltonian.py", "estimation/_estimation.py"],
     [("co-measurability and greedy grouping", "hamiltonian.py group_comeasureable_terms_greedy"),
      ("variances", "hamiltonian.py compute_group_variances, estimate_nmeas_for_frames")],
     REFT, REFNOTE)
prop("C15", "Cost functions bind parameters in the right order and sum all contributions",
     "A cost function evaluates its estimation tasks for exactly the parameters it is given, bound "
     "to the circuit's symbols in the defined order after fixed parameters, noise and preprocessing "
     "are applied in the defined order, and returns the sum of all expectation values. Gradients "
     "shift each parameter in turn; wrappers added to a cost function keep its value, gradient and "
     "attributes, and act at the defined moment.",
     ["inputs", "configurations"], "all ansatzes, operators, parameters, preprocessors and wrappers",
     "tests use few parameters, where permutations and offsets are easily invisible",
     ["cost_function.py", "cost_function_augmentations.py", "gradients.py",
      "interfaces/cost_function.py", "interfaces/functions.py"],
     [("task factories", "cost_function.py create_cost_function, "
       "substitution_based_estimation_tasks_factory"),
      ("parameter preprocessing", "cost_function.py fix_parameters, add_normal_noise"),
      ("augmentation", "cost_function_augmentations.py")], REFT, REFNOTE)
prop("C16", "An ansatz always provides the circuit that belongs to its current settings",
     "After any sequence of changes to an ansatz's settings, its parametrized circuit, parameter "
     "count and executable circuits correspond to the settings at that moment: every change "
     "invalidates what was built before, and nothing is shared between instances. Executable "
     "circuits bind the given parameters to the circuit's symbols in the ansatz's symbol order, and "
     "a wrong number of parameters is rejected.",
     ["histories", "inputs"], "all sequences of setting changes and circuit requests",
     "stale circuits need a particular order of reads and writes",
     ["interfaces/ansatz.py", "interfaces/ansatz_utils.py", "interfaces/mock_objects.py",
      "circuits/symbolic/_sorting.py"],
     [("invalidating properties", "interfaces/ansatz_utils.py ansatz_property, "
       "invalidates_parametrized_circuit"),
      ("binding order", "interfaces/ansatz.py Ansatz.get_executable_circuit")], REFT, REFNOTE)
prop("C17", "Recorders and optimizers keep a complete, truthful history",
     "A recorded function returns exactly what the function returns and, at the calls selected by "
     "its save condition, stores one entry with the call number, parameters, value and artifacts "
     "of that call, including gradients and attributes of the function. Optimizers pass the given "
     "cost function, start point and history choice on, and their results contain the recorded "
     "histories in order.",
     ["histories", "configurations"], "all call sequences, save conditions and kinds of function",
     "tests record a few calls; numbering, copying and conditions matter over histories",
     ["history/recorder.py", "history/save_conditions.py", "interfaces/optimizer.py",
      "interfaces/functions.py", "interfaces/mock_objects.py", "history/example_functions.py"],
     [("recording", "history/recorder.py"), ("conditions", "history/save_conditions.py"),
      ("histories of optimizers", "interfaces/optimizer.py")], REFT, REFNOTE)
prop("C18", "Wavefunctions stay normalized and keep their amplitudes in place",
     "A wavefunction only ever holds a power-of-two number of amplitudes whose fixed part does not "
     "exceed unit probability; an assignment or binding that would violate this is rejected and "
     "leaves it as it was. Construction, basis and Dicke states, indexing, flipping, equality, "
     "probabilities and outcome labels treat every amplitude at its own basis index.",
     ["inputs", "histories"], "all amplitudes, symbols, indices, widths and assignments",
     "tests use a few states; rollback and index errors need particular amplitudes",
     ["wavefunction.py"],
     [("validation and rollback", "wavefunction.py Wavefunction.__setitem__, __init__"),
      ("basis order", "wavefunction.py flip_wavefunction, dicke_state, get_outcome_probs")],
     REFT, REFNOTE)
prop("C19", "Measurement outcome distributions are validated, complete and compared correctly",
     "A distribution is accepted only with non-negative values, keys of one length made of "
     "non-negative integers, and unit total unless normalization is asked for or declined; what is "
     "stored is what was given, normalized where asked. Distances pair the values of the same "
     "outcome over all outcomes of the distributions involved and follow their defining formula "
     "with the given parameters.",
     ["inputs"], "all outcome dictionaries, options, distance parameters and pairs",
     "tests compare a few overlapping distributions; missing outcomes and bounds are rare",
     ["distribution/_measurement_outcome_distribution.py", "distribution/mmd.py",
      "distribution/clipped_negative_log_likelihood.py",
      "distribution/jensen_shannon_divergence.py", "bitstring_distribution.py"],
     [("validation", "distribution/_measurement_outcome_distribution.py"),
      ("distances", "distribution/mmd.py and siblings")], REFT, REFNOTE)
prop("C20", "Measurement post-processing uses every sample and term with the right weight",
     "Counts, distributions, parities and expectation values computed from measurements use every "
     "recorded bitstring with its multiplicity, in qubit order, and each operator term with its own "
     "qubits and coefficient; correlations and covariances relate the terms at their own indices. "
     "Combining and converting expectation values and representing a distribution by samples keep "
     "every entry and the requested total.",
     ["inputs"], "all bitstring multisets, operators, frames and sample totals",
     "tests use few bitstrings and operators, symmetric enough to hide index or sign errors",
     ["measurement.py"],
     [("expectation values", "measurement.py Measurements.get_expectation_values, "
       "get_expectation_value_from_frequencies"),
      ("parities", "measurement.py get_parities_from_measurements"),
      ("sampling a distribution", "measurement.py get_measurements_representing_distribution")],
     REFT, REFNOTE)
prop("C21", "Symbolic expressions translate structurally and completely",
     "Every supported symbolic expression is translated node by node into the neutral form and into "
     "target dialects: same operation, same operands in the same order, exact numbers, with "
     "subtraction, division and negation recovered only where they occur. Unsupported expressions "
     "are rejected, never dropped or passed through.",
     ["inputs", "programs"], "all expression trees, numbers and dialects",
     "tests translate a fixed list of expressions",
     ["circuits/symbolic/sympy_expressions.py", "circuits/symbolic/translations.py",
      "circuits/symbolic/expressions.py", "circuits/symbolic/_sorting.py"],
     [("dispatch per node kind", "circuits/symbolic/sympy_expressions.py expression_from_sympy"),
      ("translation", "circuits/symbolic/translations.py translate_expression")], REFT, REFNOTE)
prop("C22", "Operator arithmetic acts on every term with the right factor and sign",
     "Sums, differences, products, quotients, powers, negations and in-place variants of symbolic "
     "and tensor operators combine all terms of both operands: coefficients of equal terms are "
     "added, product terms are simplified by the operator's own multiplication rules with their "
     "phases, and no other term is changed, dropped or invented. Equality and closeness compare all "
     "terms of both sides; parsing accepts exactly the documented factors.",
     ["inputs", "histories"], "all operators, coefficients, powers and operand orders",
     "tests use small operators; sign, missing-key and phase errors need particular operands",
     ["openfermion/ops/operators", "openfermion/ops/representations",
      "openfermion/utils/commutators.py", "openfermion/utils/indexing.py"],
     [("term arithmetic", "symbolic_operator.py SymbolicOperator"),
      ("Pauli products", "qubit_operator.py QubitOperator._simplify"),
      ("tensor arithmetic", "polynomial_tensor.py PolynomialTensor")], REFT, REFNOTE,
     )
prop("C23", "Fermion and qubit operator transforms convert every term by its defining rule",
     "Jordan-Wigner, Bravyi-Kitaev, reverse Jordan-Wigner, normal and chemist ordering, mode "
     "reordering, Hermitian conjugation, tapering and conversions between operator representations "
     "visit every term and tensor entry of the input, transform it by the transform's rule with its "
     "own indices, sign and coefficient, and add it to the result. Qubit counts that are too small "
     "and unsupported inputs are rejected.",
     ["inputs"], "all operators, tensors, mode counts and orderings",
     "tests compare spectra of small systems; errors on particular index patterns go unseen",
     ["openfermion/transforms/opconversions", "openfermion/transforms/repconversions",
      "openfermion/utils/operator_utils.py"],
     [("ladder operator images", "opconversions/jordan_wigner.py, bravyi_kitaev.py"),
      ("ordering", "opconversions/term_reordering.py"),
      ("representation changes", "repconversions/conversions.py, operator_tapering.py")],
     REFT, REFNOTE)
prop("C24", "Chemistry, lattice and sparse-matrix builders follow their formulas term by term",
     "Molecular data, integrals, reduced density matrices, coupled-cluster generators, lattice "
     "Hamiltonians and sparse matrices are built from every index combination their definition "
     "ranges over, with the defining coefficient, spin bookkeeping, index order and boundary "
     "handling, and unit conversions use fixed constants. Requests outside the defined range are "
     "rejected.",
     ["inputs"], "all tensors, lattices, amplitudes, spin sectors and options",
     "tests use one or two molecules and lattices; index errors cancel in symmetric cases",
     ["openfermion/chem", "openfermion/circuits/unitary_cc.py", "openfermion/hamiltonians",
      "openfermion/linalg/sparse_tools.py", "openfermion/measurements/get_interaction_rdm.py"],
     [("integrals and RDMs", "chem/molecular_data.py"), ("Hubbard models", "hamiltonians/hubbard.py"),
      ("sparse operators", "linalg/sparse_tools.py")], REFT, REFNOTE)
prop("C25", "Operator utilities keep every term when converting, selecting or analysing",
     "Operators built from matrices, coefficients and labels, evaluated on expectation values, "
     "reversed in qubit order, retyped, split into diagonal and remaining parts, reduced by "
     "inactive orbitals or turned into circuits keep every term they should, at its own index and "
     "with its coefficient; the split parts add up to the original.",
     ["inputs"], "all operators, labels, matrices, orbital lists and expectation values",
     "tests use small symmetric examples",
     ["openfermion/zapata_utils/_utils.py"],
     [("conversions", "openfermion/zapata_utils/_utils.py")], REFT, REFNOTE)
prop("C26", "Decompositions and time evolution use every operation and term in order",
     "A decomposition replaces exactly the operations its rules match, rule after rule, by their "
     "production in place, and leaves all others untouched and in order, on the same width. Time "
     "evolution applies each non-constant term of the Hamiltonian once per Trotter step with its "
     "coefficient, time and step share, and derivatives pair each shifted circuit with its factor.",
     ["inputs", "programs"], "all circuits, rule lists, Hamiltonians, times and Trotter orders",
     "tests use short circuits and few-term Hamiltonians",
     ["decompositions/_decomposition.py", "decompositions/_zquantum_decompositions.py",
      "evolution.py"],
     [("rule application", "decompositions/_decomposition.py decompose_operations"),
      ("rotation decomposition", "decompositions/_zquantum_decompositions.py"),
      ("Trotter circuits", "evolution.py")], REFT, REFNOTE)
prop("C27", "Built-in gates have their defining matrices, widths and parameters",
     "Every built-in gate has the name, matrix, number of qubits, number of parameters and "
     "hermiticity of its definition: matrix entries are the defining functions of the parameters, "
     "and only self-inverse gates are marked as such. A gate acting on some qubits of a larger "
     "register is lifted to that register with its qubits in the order given and acts as identity "
     "on the rest.",
     ["inputs"], "all built-in gates, parameter values, qubit tuples and register widths",
     "tests compare matrices at a few angles and qubit choices",
     ["circuits/_matrices.py", "circuits/_builtin_gates.py", "circuits/_unitary_tools.py"],
     [("matrices", "circuits/_matrices.py"), ("gate table", "circuits/_builtin_gates.py"),
      ("lifting", "circuits/_unitary_tools.py")], REFT, REFNOTE)
prop("C28", "Random results are determined by the given seed alone",
     "Wherever a seed or random generator can be given, every random draw that influences the result "
     "comes from it, and the seed reaches every helper that draws. Same inputs and same seed give "
     "the same circuit, graph, operator, wavefunction, sample or shot allocation.",
     ["inputs", "histories"], "all functions taking a seed or generator, all call sequences",
     "tests call with a seed at most once and cannot see unseeded draws on rare paths",
     ["graph.py", "circuits/_testing.py", "circuits/_generators.py", "testing/_initialize.py",
      "wavefunction.py", "measurement.py", "symbolic_simulator.py", "utils.py",
      "cost_function.py", "openfermion/zapata_utils/_utils.py", "steps/graph.py",
      "steps/circuit.py", "steps/utils.py"],
     [("seeding", "graph.py samplers and generators, symbolic_simulator.py"),
      ("generators passed on", "circuits/_testing.py create_random_circuit, measurement.py "
       "sample_from_wavefunction")], REFT, REFNOTE)
prop("C29", "Symbol substitution is simultaneous, complete and type-preserving",
     "Binding a symbol map replaces all given symbols at once wherever they occur - in gate "
     "parameters, custom gates, nested gates, phase operations, wavefunctions and circuits - without "
     "one replacement feeding into another, leaves other symbols alone, and keeps numbers "
     "unchanged. Free symbols reported are exactly those left, in a deterministic order.",
     ["inputs", "programs"], "all symbol maps (also maps to other symbols), expressions and objects",
     "tests bind numbers to distinct symbols; swapping or chained maps are not tried",
     ["circuits/_operations.py", "circuits/_gates.py", "circuits/_circuit.py",
      "circuits/_wavefunction_operations.py", "wavefunction.py", "utils.py"],
     [("substitution", "circuits/_operations.py sub_symbols"),
      ("bind methods", "circuits/_gates.py, circuits/_circuit.py, wavefunction.py")], REFT, REFNOTE)
prop("C30", "Invalid inputs are rejected with the documented error, valid ones are not",
     "Each public operation that documents or performs a check of its inputs raises its error for "
     "exactly the inputs the check is about, before anything is computed or stored from them; no "
     "error raised in this library is swallowed on its way to the caller except where a fallback is "
     "defined.",
     ["inputs"], "all functions that raise or handle exceptions, all inputs",
     "tests trigger some errors with one bad input each and cannot show that good inputs pass",
     ["circuits", "openfermion", "measurement.py", "wavefunction.py", "utils.py", "graph.py",
      "distribution", "estimation", "interfaces", "evolution.py"],
     [("validation", "raise statements and their conditions across the library"),
      ("fallbacks", "exception handlers across the library")],
     "semantic differencing of raise conditions, exception kinds and handlers (abstract "
     "interpretation of the syntax tree) against a reviewed reference, on every raising function",
     REFNOTE)
prop("C31", "Workflow steps read what they are given and save what they compute",
     "Every step accepts each documented input as file name or object, loads it when it is a file "
     "name, passes all options on to the library function it wraps, and saves the complete result "
     "under the step's own output names. Steps that build circuits, operators or graphs hand over "
     "seeds and specifications unchanged.",
     ["inputs", "configurations"], "all steps, argument forms and options",
     "most steps have no tests",
     ["steps/circuit.py", "steps/measure.py", "steps/operators.py", "steps/optimize.py",
      "steps/evaluation.py", "steps/graph.py", "steps/transforms.py", "steps/utils.py"],
     [("inputs and outputs of steps", "steps/*.py")], REFT, REFNOTE)
prop("C32", "Graph generators and layouts produce exactly the requested structure",
     "Random, regular, complete, caveman, ladder and barbell graphs get the requested size, "
     "parameters and one weight per edge from the requested sampler, specification strings select "
     "the generator and arguments they name. Circuit layers and connectivities contain every qubit pair of the requested layout "
     "once, and unknown specifications are rejected.",
     ["inputs", "configurations"], "all graph specifications, samplers, layouts and sizes",
     "tests check a few small graphs statistically",
     ["graph.py", "circuits/layouts.py"],
     [("generators and samplers", "graph.py"), ("layouts", "circuits/layouts.py")], REFT, REFNOTE)
prop("C33", "Bitstring, array and value conversions are exact and in the right order",
     "Conversions between integers, bitstrings, tuples, arrays, dictionaries and numbers keep every "
     "digit in its place and every real and imaginary part; identity and unitary tests look at the "
     "whole matrix; value estimates keep value and precision in arithmetic, comparison and "
     "conversion. Functions and objects created from specifications get exactly the named "
     "arguments.",
     ["inputs"], "all integers, widths, arrays, specifications and estimates",
     "tests sample a few values; widths and rarely used options are not covered",
     ["utils.py"],
     [("conversions", "utils.py"), ("value estimates", "utils.py ValueEstimate"),
      ("specifications", "utils.py create_object, get_func_from_specs")], REFT, REFNOTE)

NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                   files=[S + f for f in files], mech=[dict(name=n, where=w) for n, w in mech],
                   reason=reason))


na("N01", "Gate matrices are unitary and inverses multiply to the identity",
   "Every built-in gate's matrix is unitary for all real parameters, and the matrix of a gate's "
   "inverse, or of a circuit's inverse, is the conjugate transpose of the original's within "
   "floating-point accuracy.",
   ["inputs"], "all real gate parameters and all circuits",
   "tests sample a few parameter values", ["circuits/_matrices.py", "circuits/_gates.py"],
   [("matrix definitions", "circuits/_matrices.py")],
   "a trigonometric identity over all real parameters, evaluated in floating point; it needs "
   "algebra or evaluation of the matrices, not inspection of the source (C27 pins the entries)")
na("N02", "Qubit encodings of fermion operators have the spectrum of the original",
   "The Jordan-Wigner, Bravyi-Kitaev, and related transforms give qubit operators "
   "with the same (sector of the) spectrum and the same expectation values as the fermion operator.",
   ["inputs"], "all fermion operators and mode counts", "tests check small molecules",
   ["openfermion/transforms/opconversions/jordan_wigner.py",
    "openfermion/transforms/opconversions/bravyi_kitaev.py"],
   [("encodings", "openfermion/transforms/opconversions")],
   "a statement about eigenvalues of operators built from runtime index arithmetic (Fenwick trees, "
   "code matrices); no static bound is in reach (C23 pins the term-by-term rules)")
na("N03", "Decomposed circuits are equivalent to the originals up to a global phase",
   "Replacing operations by decomposition rules gives circuits whose unitary equals that of the "
   "original up to a global phase, also for controlled operations.",
   ["inputs"], "all circuits and gate parameters", "tests sample parameter values",
   ["decompositions/_ibmq_decompositions.py", "decompositions/_decomposition.py"],
   [("the U3 rule", "decompositions/_ibmq_decompositions.py U3GateToRotation")],
   "equality of parametrized matrix products for all real angles; needs symbolic algebra or "
   "evaluation (C26 pins the rule's operations; a controlled U3 is known to gain a relative phase, "
   "which an existing test expects)")
na("N04", "Trotterized evolution converges to the exact evolution",
   "The error of the Trotterized evolution circuit against the exact exponential vanishes with the "
   "Trotter order, and its derivative circuits reproduce the exact time derivative to that accuracy.",
   ["inputs"], "all Hamiltonians, times and orders", "tests use small fixed examples",
   ["evolution.py"], [("Trotter products", "evolution.py")],
   "a bound on a numerical approximation error that depends on runtime operator norms")
na("N05", "Samples follow the state's outcome probabilities",
   "Bitstrings sampled from a wavefunction, a distribution or a simulator run occur with the "
   "probabilities of the state, and averages over them estimate expectation values without bias.",
   ["inputs"], "all states and sample counts", "tests compare loose statistics on few states",
   ["measurement.py", "utils.py", "symbolic_simulator.py"],
   [("sampling", "measurement.py sample_from_wavefunction")],
   "a statistical statement about outputs of a random number generator (C20 and C28 pin the weights, "
   "order of bits and the generator used)")
na("N06", "Distances between outcome distributions have their mathematical properties",
   "The discrepancy and divergence measures are non-negative, vanish for equal distributions, and "
   "the discrepancy is symmetric and positive for different ones.",
   ["inputs"], "all pairs of distributions and parameters", "tests sample a few pairs",
   ["distribution/mmd.py", "distribution/jensen_shannon_divergence.py",
    "distribution/clipped_negative_log_likelihood.py"],
   [("distance measures", "distribution/mmd.py compute_mmd")],
   "inequalities between floating-point sums of exponentials and logarithms over runtime "
   "distributions (C19 pins the formulas)")
na("N07", "Finite-difference gradients approximate the true gradient",
   "For smooth cost functions the numerical gradient is within an error of the order of the step "
   "squared of the analytic gradient.",
   ["inputs"], "all smooth functions and parameters", "tests use low-degree polynomials",
   ["gradients.py"], [("finite differences", "gradients.py finite_differences_gradient")],
   "depends on the derivative bounds of a user-supplied function at run time (C15 pins the formula)")
