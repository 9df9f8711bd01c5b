C = "circuits/_circuit.py"
G = "circuits/_gates.py"
B("C07", "append dedupes equal consecutive", (C, "operations=[*circuit.operations, *other.operations],\n        n_qubits=max(circuit.n_qubits, other.n_qubits),",
  "operations=[*circuit.operations, *[op for op in other.operations if op not in circuit.operations]],\n        n_qubits=max(circuit.n_qubits, other.n_qubits),"))
B("C07", "append op width ignores existing", (C, "n_qubits=max(circuit.n_qubits, n_qubits_by_operation),", "n_qubits=n_qubits_by_operation if n_qubits_by_operation > 1 else circuit.n_qubits,"))
B("C07", "width from last qubit index only", (C, "n_qubits_by_operation = max(other.qubit_indices) + 1", "n_qubits_by_operation = other.qubit_indices[-1] + 1"))
B("C07", "bind drops n_qubits", (C, "            operations=[op.bind(symbols_map) for op in self.operations],\n            n_qubits=self.n_qubits,", "            operations=[op.bind(symbols_map) for op in self.operations],"))
B("C07", "bind skips ops w/o symbols", (C, "operations=[op.bind(symbols_map) for op in self.operations]", "operations=[op.bind(symbols_map) for op in self.operations if op.free_symbols]"))
B("C07", "eq ignores width when both nonempty", (C, "        if self.n_qubits != other.n_qubits:\n            return False\n", "        if not self.operations and self.n_qubits != other.n_qubits:\n            return False\n"))
B("C07", "eq zip", (C, "return list(self.operations) == list(other.operations)", "return all(a == b for a, b in zip(self.operations, other.operations))"))
B("C07", "to_unitary size by operations", (C, "op.lifted_matrix(self.n_qubits) for op in reversed", "op.lifted_matrix(_circuit_size_by_operations(self.operations)) for op in reversed"))
B("C07", "to_unitary order if symbols", (C, "        return reduce(operator.matmul, lifted_matrices)", "        if self.free_symbols:\n            lifted_matrices = lifted_matrices[::-1]\n        return reduce(operator.matmul, lifted_matrices)"))
B("C07", "split loses n_qubits", (C, "Circuit(operations, n_qubits=n_qubits)", "Circuit(operations)"))
B("C07", "split via dict merges", (C, "    for predicate_value, operations in groupby(circuit.operations, predicate):", "    for predicate_value, operations in groupby(sorted(circuit.operations, key=predicate), predicate):"))
B("C07", "init n_qubits ignores smaller", (C, "            self._n_qubits = n_qubits\n", "            self._n_qubits = max(n_qubits, _circuit_size_by_operations(self._operations))\n"))
B("C09", "custom def first-name only, no conflict", (C, "            elif unique_operation_dict[gate_def.gate_name] != gate_def:", "            elif unique_operation_dict[gate_def.gate_name].gate_name != gate_def.gate_name:"))
B("C09", "custom def only top-level dagger", (C, "    while isinstance(gate, (_gates.ControlledGate, _gates.Dagger)):", "    if isinstance(gate, (_gates.ControlledGate, _gates.Dagger)):"))
B("C08", "controlled of controlled overrides", (G, "num_control_qubits=self.num_control_qubits + num_control_qubits,", "num_control_qubits=max(self.num_control_qubits, num_control_qubits),"))
B("C08", "controlled dagger drops to 1 control", (G, "            wrapped_gate=self.wrapped_gate.dagger,\n            num_control_qubits=self.num_control_qubits,", "            wrapped_gate=self.wrapped_gate.dagger,\n            num_control_qubits=1,"))
B("C08", "dagger bind loses dagger", (G, "        return self.wrapped_gate.bind(symbols_map).dagger", "        return self.wrapped_gate.bind(symbols_map)"))
B("C08", "controlled bind loses count", (G, "return self.wrapped_gate.bind(symbols_map).controlled(self.num_control_qubits)", "return self.wrapped_gate.bind(symbols_map).controlled(1)"))
B("C08", "matrix diag order", (G, "            sympy.eye(2**self.num_qubits - 2**self.wrapped_gate.num_qubits),\n            self.wrapped_gate.matrix,", "            self.wrapped_gate.matrix,\n            sympy.eye(2**self.num_qubits - 2**self.wrapped_gate.num_qubits),"))
B("C08", "eye size wrong for multi-qubit", (G, "sympy.eye(2**self.num_qubits - 2**self.wrapped_gate.num_qubits)", "sympy.eye(2**self.num_qubits - 2)"))
B("C08", "replace_params resets hermitian", (G, "return replace(self, params=new_params)", "return MatrixFactoryGate(self.name, self.matrix_factory, new_params, self.num_qubits)"))
B("C08", "eq ignores param lengths", (G, "        if len(self.params) != len(other.params):\n            return False\n", ""))
B("C08", "dagger matrix transposed when real", (G, "return self.wrapped_gate.matrix.adjoint()", "return self.wrapped_gate.matrix.T"))
B("C08", "eq ignores num_qubits", (G, 'set(self.__dataclass_fields__) - {"params"}', 'set(self.__dataclass_fields__) - {"params", "num_qubits"}'))
B("C08", "dagger self if no params", (G, "return self if self.is_hermitian else Dagger(self)", "return self if self.is_hermitian or not self.params else Dagger(self)"))
M = "measurement.py"
B("C20", "load_wavefunction renorm", (M, "    wavefunction = Wavefunction(convert_dict_to_array(data[\"amplitudes\"]))\n    return wavefunction", "    amplitudes = convert_dict_to_array(data[\"amplitudes\"])\n    wavefunction = Wavefunction(np.real_if_close(amplitudes))\n    return wavefunction"))
B("C20", "EV to_dict covariances gated by correlations", (M, "        if self.estimator_covariances:\n            data[\"estimator_covariances\"] = []", "        if self.correlations and self.estimator_covariances:\n            data[\"estimator_covariances\"] = []"))
B("C20", "EV from_dict swaps", (M, "return cls(expectation_values, correlations, estimator_covariances)", "return cls(expectation_values, estimator_covariances, correlations)"))
B("C20", "sample no reverse for 1 sample", (M, "samples = [tuple(int(y) for y in list(x)[::-1]) for x in list(samples_ndarray)]", "samples = [tuple(int(y) for y in list(x)) for x in list(samples_ndarray)]"))
B("C20", "sample rng default seed when 0", (M, "rng = np.random.default_rng(seed)", "rng = np.random.default_rng(seed or None)"))
B("C20", "parities correlation only if many", (M, "        if data.get(\"correlations\"):\n            correlations: Optional[List] = [", "        if len(data.get(\"correlations\", [])) > 1:\n            correlations: Optional[List] = ["))
B("C20", "threshold 100 strict", (M, "if N >= 100 and p >= 0.1 and p <= 0.9:", "if N > 100 and p >= 0.1 and p <= 0.9:"))
B("C20", "precision upper bound dropped", (M, "if N >= 100 and p >= 0.1 and p <= 0.9:", "if N >= 100 or (p >= 0.1 and p <= 0.9):"))
B("C20", "parities dedupe measurements", (M, "bitstring_frequencies = Counter(measurements)", "bitstring_frequencies = Counter(set(measurements))"))
B("C20", "parity corr uses parity1*parity2", (M, "            equal_parities = np.abs(\n                parity1 - parity2\n            )", "            equal_parities = np.abs(\n                parity1 * parity2\n            )"))
B("C20", "to_real drops corr imag", (M, "        for i, value in enumerate(expectation_values.correlations):\n            if isinstance(value, complex):\n                value = value.real\n            expectation_values.correlations[i] = value", "        for i, value in enumerate(expectation_values.correlations[1:]):\n            if isinstance(value, complex):\n                value = value.real\n            expectation_values.correlations[i] = value"))
B("C20", "parity str only", (M, "if bitstring[qubit_index] == \"1\" or bitstring[qubit_index] == 1:", "if bitstring[qubit_index] == \"1\":"))
B("C20", "parity vec dedupe marked", (M, "np.fromiter(marked_qubits, dtype=int)]", "np.unique(np.fromiter(marked_qubits, dtype=int))]"))
B("C20", "exp value divides by distinct", (M, "num_measurements = sum(bitstring_frequencies.values())", "num_measurements = len(bitstring_frequencies)"))
B("C20", "resample loop counts only one", (M, "nresamples = correct_samples[sample] - bitstring_counts[bitstring]", "nresamples = min(correct_samples[sample] - bitstring_counts[bitstring], 1)"))
B("C20", "representing distribution: no abs", (M, "                    - abs(0.5 - (distribution[states] * number_of_samples) % 1)", "                    - (0.5 - (distribution[states] * number_of_samples) % 1)"))
B("C20", "representing distribution floor", (M, "            bitstring_samples += [bitstring] * int(\n                round(distribution[state] * number_of_samples)\n            )", "            bitstring_samples += [bitstring] * int(\n                distribution[state] * number_of_samples\n            )"))
B("C20", "representing: skip zero prob elimination", (M, "if number_of_samples - len(bitstring_samples) > 0:", "if number_of_samples - len(bitstring_samples) >= 0 or not samples:"))
B("C20", "save counts stale", (M, "            \"bitstrings\": [\n                list(map(int, list(bitstring))) for bitstring in self.bitstrings\n            ],", "            \"bitstrings\": [\n                list(map(int, list(bitstring))) for bitstring in set(self.bitstrings)\n            ],"))
B("C20", "add_counts keeps last only", (M, "self.bitstrings += [tuple(measurement)] * counts[bitstring]", "self.bitstrings = [tuple(measurement)] * counts[bitstring] + self.bitstrings"))
B("C20", "distribution by distinct", (M, "        num_measurements = len(self.bitstrings)\n        distribution = {}", "        num_measurements = len(counts)\n        distribution = {}"))
B("C20", "bessel inverted guard", (M, "num_measurements - 1 if use_bessel_correction else num_measurements", "num_measurements - 1\n            if use_bessel_correction and num_measurements > 2\n            else num_measurements"))
B("C20", "corr symmetric diff -> union", (M, "first_term_qubits.symmetric_difference(", "first_term_qubits.union("))
B("C20", "corr coefficient missing second", (M, "                    ising_operator.terms[first_term]\n                    * ising_operator.terms[second_term]\n                    * get", "                    ising_operator.terms[first_term]\n                    * ising_operator.terms[first_term]\n                    * get"))
B("C20", "corr not mirrored", (M, "                correlations[j, i] = correlations[i, j]\n", ""))
B("C20", "corr diag 1", (M, "correlations[i, i] = ising_operator.terms[first_term] ** 2", "correlations[i, i] = 1.0"))
B("C20", "concat keeps first frame", (M, "            if not combined_expectation_values.correlations:\n                combined_expectation_values.correlations = []\n            combined", "            if combined_expectation_values.correlations is None:\n                combined_expectation_values.correlations = []\n            else:\n                continue\n            combined"))
W = "wavefunction.py"
B("C18", "len pow2 check allows zero", (W, "if bin(len(amplitude_vector)).count(\"1\") != 1:", "if bin(len(amplitude_vector)).count(\"1\") > 1:"))
B("C18", "cast real", (W, "self._amplitude_vector = np.asarray(amplitude_vector, dtype=complex)", "self._amplitude_vector = np.array(amplitude_vector, dtype=np.complex64)"))
B("C18", "norm check tolerance", (W, "if not np.isclose(probs_of_ground_entries, 1.0):", "if not np.isclose(probs_of_ground_entries, 1.0, atol=1e-2):"))
B("C18", "setitem restore missing", (W, "            self._amplitude_vector[idx] = old_val\n            raise", "            raise"))
B("C18", "setitem no copy", (W, "old_val = copy(self._amplitude_vector[idx])", "old_val = self._amplitude_vector[idx]"))
B("C18", "dicke allows weight < n", (W, "if not _most_significant_set_bit(current_value) <= n_qubits:", "if not _most_significant_set_bit(current_value) < n_qubits:"))
B("C18", "dicke amplitude counter start", (W, "counter: int = 1", "counter: int = 0"))
B("C18", "bind not simultaneous", (W, "self._amplitude_vector.subs(symbol_map, simultaneous=True)", "self._amplitude_vector.subs(symbol_map)"))
B("C18", "bind returns self unless all bound", (W, "        if not self.free_symbols:\n            return self\n", "        if not self.free_symbols.issubset(symbol_map):\n            return self\n"))
B("C18", "outcome probs not flipped", (W, "format(i, \"0\" + str(self.n_qubits) + \"b\")[::-1] for", "format(i, \"0\" + str(self.n_qubits) + \"b\") for"))
B("C18", "probabilities real part", (W, "return np.abs(self.amplitudes) ** 2", "return np.real(self.amplitudes) ** 2"))
B("C18", "flip amplitudes bit length", (W, "_flip_bits(n, number_of_states.bit_length() - 1)", "_flip_bits(n, number_of_states.bit_length() - 2)"))
B("C18", "ground entries strict", (W, "if probs_of_ground_entries > 1.0:", "if probs_of_ground_entries > 1.0 + 1e-2:"))
B("C18", "eq any type", (W, "        if not isinstance(other, Wavefunction):\n            return False\n        return", "        if not hasattr(other, \"_amplitude_vector\"):\n            return False\n        return"))
B("C18", "zero state no validation negative", (W, "        if n_qubits <= 0:\n            raise ValueError(f\"Invalid number", "        if n_qubits == 0:\n            raise ValueError(f\"Invalid number"))
D = "distribution/_measurement_outcome_distribution.py"
E = "estimation/_estimation.py"
H = "hamiltonian.py"
B("C13", "context only against last", (E, "            for existing_qubit, existing_operator in context:\n", "            for existing_qubit, existing_operator in context[-2:]:\n"))
B("C13", "context Y sign for later factors", (E, "RX(np.pi / 2)(factor[0])", "RX(np.pi / 2 if factor is context[0] else -np.pi / 2)(factor[0])"))
B("C13", "term not multiplied when already in context", (E, "            if (qubit, operator) not in context:\n                context.append((qubit, operator))\n            term_operator *= IsingOperator((qubit, \"Z\"))\n", "            if (qubit, operator) not in context:\n                context.append((qubit, operator))\n                term_operator *= IsingOperator((qubit, \"Z\"))\n"))
B("C13", "context selection before circuit", (E, "estimation_task.circuit + context_selection_circuit", "context_selection_circuit + estimation_task.circuit"))
B("C13", "context selection skips shots None", (E, "            frame_operator, frame_circuit, estimation_task.number_of_shots\n        )\n        output", "            frame_operator, frame_circuit, estimation_task.number_of_shots or 1\n        )\n        output"))
B("C13", "group individually shares shots", (E, "                    term, estimation_task.circuit, estimation_task.number_of_shots\n                )\n            )\n    return", "                    term, estimation_task.circuit, estimation_tasks[0].number_of_shots\n                )\n            )\n    return"))
B("C13", "uniform allocation only for None", (E, "            number_of_shots=number_of_shots,\n        )\n        for estimation_task in estimation_tasks\n", "            number_of_shots=estimation_task.number_of_shots or number_of_shots,\n        )\n        for estimation_task in estimation_tasks\n"))
B("C13", "uniform allows zero", (E, "    if number_of_shots <= 0:", "    if number_of_shots < 0:"))
B("C13", "symbols maps mismatch only if more", (E, "elif len(symbols_maps) != len(estimation_tasks):", "elif len(symbols_maps) > len(estimation_tasks):"))
B("C13", "split const identity threshold", (E, "            len(task.operator.terms) == 1 and () in task.operator.terms.keys()\n        ) or task.number_of_shots == 0:", "            () in task.operator.terms.keys()\n        ) or task.number_of_shots == 0:"))
B("C13", "split none shots", (E, ") or task.number_of_shots == 0:", ") or not task.number_of_shots:"))
B("C13", "split indices swapped", (E, "        indices_to_measure,\n        indices_not_to_measure,\n    )\n\n\ndef evaluate_non", "        indices_not_to_measure,\n        indices_to_measure,\n    )\n\n\ndef evaluate_non"))
B("C13", "nonmeasured constant when many terms", (E, "        if len(task.operator.terms) > 1 or () not in task.operator.terms.keys():", "        if () not in task.operator.terms.keys():"))
B("C13", "indices misplaced", (E, "    for ex_val, final_index in zip(\n        measured_expectation_values_list, indices_to_measure\n", "    for ex_val, final_index in zip(\n        measured_expectation_values_list, sorted(indices_to_measure, reverse=True)\n"))
B("C13", "no to_real", (E, "            expectation_values_to_real(\n                measurements.get_expectation_values(\n                    change_operator_type(frame_operator, IsingOperator)\n                )\n            )\n", "            measurements.get_expectation_values(\n                change_operator_type(frame_operator, IsingOperator)\n            )\n"))
B("C13", "proportional scale drops prior", (E, "        frame_operators, prior_expectation_values\n", "        frame_operators\n"))
B("C13", "proportional zip reversed on ties", (E, "        relative_measurements_per_frame, total_n_shots\n", "        relative_measurements_per_frame, total_n_shots - len(frame_operators)\n"))
B("C14", "comeasure checks only same position", (H, "    for qubit_1, operator_1 in term_1:\n        for qubit_2, operator_2 in term_2:\n", "    for (qubit_1, operator_1), (qubit_2, operator_2) in zip(term_1, term_2):\n        if True:\n"))
B("C14", "greedy any", (H, "            if all(\n                is_comeas", "            if any(\n                is_comeas"))
B("C14", "greedy no break", (H, "                assigned = True\n                break\n", "                assigned = True\n"))
B("C14", "sorted ascending", (H, "            qubit_operator.terms.items(), key=lambda x: abs(x[1]), reverse=True", "            qubit_operator.terms.items(), key=lambda x: abs(x[1].real), reverse=True"))
B("C14", "constant group dropped for zero", (H, "    if constant_term is not None:\n        groups", "    if constant_term is not None and groups:\n        groups"))
B("C14", "constant first", (H, "        groups.append(constant_term)\n", "        groups.insert(0, constant_term)\n"))
B("C14", "variance bound abs", (H, "    return np.sum(coefficients**2)", "    return np.sum(np.abs(coefficients))"))
B("C14", "variance offset", (H, "offset = 0 if i == 0 else np.sum(group_sizes[:i])", "offset = i * group_sizes[i]"))
B("C14", "variance range only upper", (H, "            real_expecval.values >= -1, real_expecval.values <= 1\n", "            real_expecval.values >= -2, real_expecval.values <= 1\n"))
B("C14", "no copy of expecval", (H, "expectation_values_to_real(copy.deepcopy(expecval))", "expectation_values_to_real(expecval)"))
B("C14", "rdm reorder loses sort", (H, "            interactionrdm, qubitoperator, sort_terms=sort_terms\n", "            interactionrdm, qubitoperator\n"))
B("C14", "nmeas nterms groups", (H, "nterms = sum([len(group.terms) for group in frame_operators])", "nterms = sum([len(group.terms) for group in frame_operators if () not in group.terms])"))
B("C14", "reorder modes skip one axis", (H, "    two_body_tensor = two_body_tensor[:, :, ordering, :]\n", ""))
B("C14", "remove constant imag", (H, "    if new_group.terms.get(()):\n", "    if len(new_group.terms) > 1 and new_group.terms.get(()):\n"))
B("C19", "init no normalize when below one", (D, "                if normalize:\n", "                if normalize and sum(preprocessed_input_dict.values()) > 1:\n"))
B("C19", "key comma", (D, "tuple(map(int, key if \",\" not in key else key.split(\",\")))", "tuple(map(int, key.replace(\",\", \"\")))"))
B("C19", "key length by max", (D, "    return all(len(key) == key_length for key in input_dict.keys())", "    return all(len(key) <= key_length for key in input_dict.keys())"))
B("C19", "nonneg key not checked", (D, "        all(isinstance(sub, (int, np.integer)) and sub >= 0 for sub in key)\n", "        all(isinstance(sub, (int, np.integer)) or sub >= 0 for sub in key)\n"))
B("C19", "normalize tolerance", (D, "    return math.isclose(norm, 1)", "    return math.isclose(norm, 1, abs_tol=1e-2)"))
B("C19", "normalize zero", (D, "    if norm == 0:\n        raise ValueError(\n            \"Normalization of MeasurementOutcomeDistribution FAILED:\"\n            \" input dict is empty (all zero values).\"\n        )\n    elif", "    if norm == 0:\n        return measurement_outcome_distribution\n    elif"))
B("C19", "keys joined without comma", (D, "        \",\".join(map(str, key)) if isinstance(key, tuple) else key: value", "        \"\".join(map(str, key)) if isinstance(key, tuple) else key: value"))
B("C19", "bits reversed", (D, "        key: float(value) for key, value in zip(keys, prob_distribution)", "        key[::-1]: float(value) for key, value in zip(keys, prob_distribution)"))
B("C19", "distance args swapped", (D, "        target_distribution, measured_distribution, **kwargs\n    )", "        measured_distribution, target_distribution, **kwargs\n    )"))
B("C19", "distance no kwargs", (D, "        target_distribution, measured_distribution, **kwargs\n    )", "        target_distribution, measured_distribution, kwargs\n    )"))
B("C19", "distance subsystems lt", (D, "        target_distribution.get_number_of_subsystems()\n        != measured", "        target_distribution.get_number_of_subsystems()\n        < measured"))
B("C19", "nll keys only measured", ("distribution/clipped_negative_log_likelihood.py", "set(target_keys).union(measured_keys)", "set(target_keys).intersection(measured_keys)"))
B("C19", "nll clip after", ("distribution/clipped_negative_log_likelihood.py", "            max(epsilon, measured_bitstring_value)\n", "            measured_bitstring_value or epsilon\n"))
B("C19", "jsd unsymmetric", ("distribution/jensen_shannon_divergence.py", "            measured_distribution, target_distribution, distance_measure_parameters\n", "            target_distribution, measured_distribution, distance_measure_parameters\n"))
B("C19", "mmd multi not normalised", ("distribution/mmd.py", "    return kernel_matrix / len(sigmas)", "    return kernel_matrix / max(len(sigmas) - 1, 1)"))
B("C19", "mmd only union when larger", ("distribution/mmd.py", "measured_distribution.distribution_dict.get(bitstring, 0)\n        )\n\n    basis", "measured_distribution.distribution_dict.get(bitstring, target_values[-1])\n        )\n\n    basis"))
B("C19", "mmd kernel gamma", ("distribution/mmd.py", "    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2\n    kernel_matrix = np.zeros", "    exponent = np.abs(x_i[:, None] - y_j[None, :])\n    kernel_matrix = np.zeros"))
CF = "cost_function.py"
B("C15", "params mutated in place by fixed", (CF, "        full_parameters = parameters.copy()\n", "        full_parameters = parameters\n"))
B("C15", "noise only if no fixed", (CF, "        if self.parameter_precision is not None:\n            rng = np.random.default_rng(self.parameter_precision_seed)", "        if self.parameter_precision is not None and self.fixed_parameters is None:\n            rng = np.random.default_rng(self.parameter_precision_seed)"))
B("C15", "noise length of unfixed", (CF, "                0.0, self.parameter_precision, len(full_parameters)\n", "                0.0, self.parameter_precision, len(parameters)\n"))
B("C15", "fixed params appended last", (CF, "        return combine_ansatz_params(fixed_parameters, parameters)\n    return _preprocess", "        return combine_ansatz_params(parameters, fixed_parameters)\n    return _preprocess"))
B("C15", "noise rng reseeded each call", (CF, "        noise = rng.normal(0.0, parameter_precision, len(parameters))\n", "        noise = np.random.default_rng(parameter_precision_seed).normal(0.0, parameter_precision, len(parameters))\n"))
B("C15", "noise inplace", (CF, "        return parameters + noise\n", "        parameters += noise\n        return parameters\n"))
B("C15", "preprocessors only last", (CF, "            parameters = preprocessor(parameters)\n        estimation_tasks = estimation_tasks_factory(parameters)", "            processed = preprocessor(parameters)\n        estimation_tasks = estimation_tasks_factory(processed if parameter_preprocessors else parameters)"))
B("C15", "precision skips first frame", (CF, "        for frame_covariance in expectation_values.estimator_covariances:\n", "        for frame_covariance in expectation_values.estimator_covariances[1:]:\n"))
B("C15", "precision diag only", (CF, "            estimator_variance += float(np.sum(frame_covariance, (0, 1)))", "            estimator_variance += float(np.trace(frame_covariance))"))
B("C15", "precision missing for one frame", (CF, "    if expectation_values.estimator_covariances:\n        estimator_variance", "    if expectation_values.estimator_covariances and len(expectation_values.estimator_covariances) > 1:\n        estimator_variance"))
B("C15", "symbols of first task only", (CF, "{param for task in estimation_tasks for param in task.circuit.free_symbols}", "{param for task in estimation_tasks[:1] for param in task.circuit.free_symbols}"))
B("C15", "symbols before preprocess", (CF, "    for preprocessor in estimation_preprocessors:\n        estimation_tasks = preprocessor(estimation_tasks)\n    circuit_symbols = _get_sorted_set_of_circuit_symbols(\n        estimation_tasks, symbols_sort_key\n    )\n", "    circuit_symbols = _get_sorted_set_of_circuit_symbols(\n        estimation_tasks, symbols_sort_key\n    )\n    for preprocessor in estimation_preprocessors:\n        estimation_tasks = preprocessor(estimation_tasks)\n"))
B("C15", "sort key dropped", (CF, "        ansatz.parametrized_circuit,\n        estimation_preprocessors,\n        ansatz.symbols_sort_key,\n", "        ansatz.parametrized_circuit,\n        estimation_preprocessors,\n"))
B("C15", "dynamic preprocessors applied to original", (CF, "            estimation_tasks = preprocessor(estimation_tasks)\n        return estimation_tasks", "            estimation_tasks = estimation_tasks + preprocessor(estimation_tasks)\n        return estimation_tasks"))
B("C15", "gradient wrong denominators", ("gradients.py", "                / (2 * finite_diff_step_size),", "                / (finite_diff_step_size),"))
B("C15", "gradient shares buffer", ("gradients.py", "            values_minus = parameters.astype(float)\n", "            values_minus = values_plus\n"))
B("C15", "gradient no float", ("gradients.py", "            values_plus = parameters.astype(float)\n            values_minus = parameters.astype(float)\n", "            values_plus = parameters.copy()\n            values_minus = parameters.copy()\n"))
B("C15", "real sum lost", (CF, "        combined_expectation_values = expectation_values_to_real(\n            concatenate_expectation_values(expectation_values_list)\n        )\n        return sum_expectation_values(combined_expectation_values)\n    return function_with_gradient", "        combined_expectation_values = concatenate_expectation_values(expectation_values_list)\n        return sum_expectation_values(combined_expectation_values)\n    return function_with_gradient"))
AU = "interfaces/ansatz_utils.py"
B("C16", "invalidate before set lazily", (AU, "        self.target.__set__(ansatz, new_obj)\n        ansatz._parametrized_circuit = None\n", "        if self.target.__get__(ansatz, type(ansatz)) is None:\n            ansatz._parametrized_circuit = None\n        self.target.__set__(ansatz, new_obj)\n"))
B("C16", "wrapper invalidates before", (AU, "            return_value = target(ansatz, *args, **kwargs)\n            # Invalidate circuit\n            ansatz._parametrized_circuit = None\n", "            ansatz._parametrized_circuit = None\n            return_value = target(ansatz, *args, **kwargs)\n"))
B("C16", "wrapper drops kwargs", (AU, "return_value = target(ansatz, *args, **kwargs)", "return_value = target(ansatz, *args)"))
B("C16", "default shared when falsy", (AU, "        if not hasattr(obj, self.attrname):", "        if not getattr(obj, self.attrname, None):"))
B("C16", "combine order", (AU, "np.concatenate((params1, params2))", "np.concatenate((params2, params1))"))
AN = "interfaces/ansatz.py"
B("C16", "cached circuit with zero layers", (AN, "        if self._parametrized_circuit is None:\n", "        if self._parametrized_circuit is None or self.number_of_layers == 0:\n"))
B("C16", "executable sorted by name", (AN, "            symbols = sorted(\n                self.parametrized_circuit.free_symbols, key=self.symbols_sort_key\n            )", "            symbols = sorted(self.parametrized_circuit.free_symbols, key=str)"))
B("C16", "executable unsorted", (AN, "            symbols = sorted(\n                self.parametrized_circuit.free_symbols, key=self.symbols_sort_key\n            )", "            symbols = list(self.parametrized_circuit.free_symbols)"))
RE = "history/recorder.py"
B("C17", "history shares params", (RE, "                HistoryEntry(self.call_number, copy.copy(params), return_value)\n", "                HistoryEntry(self.call_number, params, return_value)\n"))
B("C17", "call number only when saved", (RE, "                HistoryEntry(self.call_number, copy.copy(params), return_value)\n            )\n        self.call_number += 1\n", "                HistoryEntry(self.call_number, copy.copy(params), return_value)\n            )\n            self.call_number += 1\n"))
B("C17", "call number incremented first", (RE, "        return_value = self.target(params)\n        if self.predicate(return_value, params, self.call_number):\n            self.history.append(\n                HistoryEntry(self.call_number, copy.copy(params), return_value)\n            )\n        self.call_number += 1\n", "        return_value = self.target(params)\n        self.call_number += 1\n        if self.predicate(return_value, params, self.call_number):\n            self.history.append(\n                HistoryEntry(self.call_number, copy.copy(params), return_value)\n            )\n"))
B("C17", "forced ignored", (RE, "        if self.predicate(return_value, params, self.call_number) or artifacts.forced:", "        if self.predicate(return_value, params, self.call_number) and not artifacts.forced or artifacts.forced and artifacts and self.history:"))
B("C17", "forced reset by later artifact", (RE, "        if force:\n            artifacts.forced = True\n", "        artifacts.forced = force\n"))
B("C17", "copy shares gradient", (RE, "        recorder_copy.gradient = copy.copy(recorder_to_copy.gradient)", "        recorder_copy.gradient = recorder_to_copy.gradient"))
B("C17", "deepcopy shallow history", (RE, "    recorder_copy.history = copy.deepcopy(recorder_to_copy.history, memo=memo)\n", "    recorder_copy.history = recorder_to_copy.history\n"))
B("C17", "copy loses call number", (RE, "    recorder_copy.call_number = recorder_to_copy.call_number\n    recorder_copy.history = recorder_to_copy.history\n", "    recorder_copy.call_number = len(recorder_to_copy.history)\n    recorder_copy.history = recorder_to_copy.history\n"))
B("C17", "gradient recorder always", (RE, "        super().__init__(target, save_condition)\n        self.gradient = recorder(target.gradient, save_condition)\nclass ArtifactRecorder", "        super().__init__(target, save_condition)\n        self.gradient = recorder(target.gradient)\nclass ArtifactRecorder"))
B("C17", "every nth skip first", ("history/save_conditions.py", "        return call_number % n == 0\n", "        return (call_number + 1) % n == 0\n"))
OP = "interfaces/optimizer.py"
B("C17", "recorder before preprocess", (OP, "        cost_function = self._preprocess_cost_function(cost_function)\n        if keep_history:\n            cost_function = self.recorder(cost_function)\n", "        if keep_history:\n            cost_function = self.recorder(cost_function)\n        cost_function = self._preprocess_cost_function(cost_function)\n"))
B("C17", "histories order", (OP, 'histories["gradient_history"] + new_histories["gradient_history"]', 'new_histories["gradient_history"] + histories["gradient_history"]'))
B("C17", "extend in place", (OP, '    updated_histories = {"history": histories["history"] + new_histories["history"]}', '    histories["history"] += new_histories["history"]\n    updated_histories = {"history": histories["history"]}'))
B("C17", "gradient history for simple only", (OP, "        if isinstance(cost_function, ArtifactRecorderWithGradient):\n            histories[\"gradient_history\"] = cost_function.gradient.history\n", ""))
FN = "interfaces/functions.py"
B("C17", "store artifact not followed", (FN, "signature(function, follow_wrapped=True)", "signature(function, follow_wrapped=False)"))
B("C17", "function call drops artifact", (FN, "        return self.function(params, store_artifact)\n", "        return self.function(params, None)\n"))
BK = "interfaces/backend.py"
B("C11", "jobs floor", (BK, "int(np.ceil(len(circuits) / self.batch_size))", "max(1, len(circuits) // self.batch_size)"))
B("C11", "n_samples zero allowed", (BK, "        if n_samples < 1:\n", "        if n_samples < 0:\n"))
B("C11", "batch counters circuits once", (BK, "            self.number_of_circuits_run += len(circuits)\n", "            self.number_of_circuits_run += len(set(n_samples))\n"))
B("C11", "count before validation", (BK, "        if n_samples < 1:\n            raise ValueError(\"Must sample given circuit at least once.\")\n        self.number_of_circuits_run += 1\n", "        self.number_of_circuits_run += 1\n        if n_samples < 1:\n            raise ValueError(\"Must sample given circuit at least once.\")\n"))
B("C11", "length mismatch unchecked when batching", (BK, "        if len(circuits) != len(n_samples):\n", "        if len(circuits) != len(n_samples) and not self.supports_batching:\n"))
B("C11", "nonnative operations skip state", (BK, "                for operation in subcircuit.operations:\n                    state = operation.apply(state)\n", "                initial = state\n                for operation in subcircuit.operations:\n                    state = operation.apply(initial)\n"))
B("C11", "jobs counted per circuit only first", (BK, "                self.number_of_circuits_run += 1\n                self.number_of_jobs_run += 1\n                state", "                self.number_of_circuits_run += 1\n                if initial_state is None:\n                    self.number_of_jobs_run += 1\n                state"))
B("C11", "falsy n_samples", (BK, "        if n_samples is None:\n            wavefunction", "        if not n_samples:\n            wavefunction"))
B("C11", "initial_state truthiness", (BK, "        if initial_state is None:\n            state = np.zeros", "        if initial_state is None or len(initial_state) < 2:\n            state = np.zeros"))
B("C11", "ising not converted", (BK, "        if isinstance(operator, IsingOperator):\n            operator = change_operator_type(operator, QubitOperator)\n", ""))
TR = "trackers.py"
B("C12", "set recorded from inner type", (TR, "        for circuit, measurement in zip(circuits, measurements):\n            self.record_raw_measurement_data(circuit, measurement)\n        self.save_raw_data()\n", "        for circuit, measurement in zip(circuits, measurements):\n            self.record_raw_measurement_data(circuits[0], measurement)\n        self.save_raw_data()\n"))
B("C12", "save only if recorded", (TR, "            self.record_raw_measurement_data(circuit, measurement)\n        self.save_raw_data()\n        return measurements", "            self.record_raw_measurement_data(circuit, measurement)\n        if len(measurements) > 1:\n            self.save_raw_data()\n        return measurements"))
B("C12", "shots from gates", (TR, '"number_of_shots": len(measurement.bitstrings),', '"number_of_shots": len(measurement.get_counts()),'))
B("C12", "bitstrings unique", (TR, "list(map(int, list(bitstring))) for bitstring in measurement.bitstrings", "list(map(int, list(bitstring))) for bitstring in set(measurement.bitstrings)"))
B("C12", "append mode", (TR, 'open(self.raw_data_file_name, "w+")', 'open(self.raw_data_file_name, "a+")'))
B("C12", "raw data reset", (TR, "            f.write(json.dumps(data))", "            f.write(json.dumps(data))\n        self.raw_data = []"))
B("C12", "distribution not saved", (TR, "                \"distribution\": repr(distribution),\n                \"number_of_gates\": len(circuit.operations),\n                \"number_of_shots\": n_samples,\n            }\n        )\n        self.save_raw_data()\n        return distribution\n    def get_measurement", "                \"distribution\": repr(distribution),\n                \"number_of_gates\": len(circuit.operations),\n                \"number_of_shots\": n_samples,\n            }\n        )\n        return distribution\n    def get_measurement"))
B("C12", "inner samples twice", (TR, "        measurement = self.inner_backend.run_circuit_and_measure(circuit, n_samples)\n        self.record_raw_measurement_data(circuit, measurement)\n        self.save_raw_data()\n        return measurement\n", "        self.record_raw_measurement_data(circuit, self.inner_backend.run_circuit_and_measure(circuit, n_samples))\n        self.save_raw_data()\n        return self.inner_backend.run_circuit_and_measure(circuit, n_samples)\n"))
EV = "evolution.py"
B("C26", "trotter order only if many terms", (EV, "            time_evolution_for_term(term, time / trotter_order)\n            for _index_order in range(trotter_order)", "            time_evolution_for_term(term, time / max(trotter_order, 1))\n            for _index_order in range(min(trotter_order, len(terms)))"))
B("C26", "Y reversal sign for last", (EV, "            base_reversals.append(RX(-np.pi / 2)(qubit_id))", "            base_reversals.append(RX(-np.pi / 2 if len(term_components) < 3 else np.pi / 2)(qubit_id))"))
B("C26", "cnot ladder not reversed", (EV, "    for gate in reversed(cnot_gates):\n        circuit += gate", "    for gate in cnot_gates if len(cnot_gates) < 2 else cnot_gates[::-1][:2] + cnot_gates[::-1][2:][::-1]:\n        circuit += gate"))
B("C26", "central gate uses real coefficient sign", (EV, "central_gate = RZ(2 * time * coefficient)(qubit_id)", "central_gate = RZ(2 * time * abs(coefficient))(qubit_id)"))
B("C26", "derivative shift ignores sign", (EV, "shift = factor * (np.pi / (4.0 * r))", "shift = factor * (np.pi / (4.0 * abs(r)))"))
B("C26", "derivative compares terms by equality", (EV, "(time + shift) / trotter_order if i == j else time / trotter_order,", "(time + shift) / trotter_order if term_1 == term_2 else time / trotter_order,"))
B("C26", "derivative order wrong pos", (EV, "                        repeated_circuit, different_circuit, trotter_order, position\n", "                        repeated_circuit, different_circuit, trotter_order, trotter_order - position - 1\n"))
B("C26", "sequence drops first when position 0", (EV, "repeated_circuit if i != position else different_circuit", "repeated_circuit if i % length != position % max(length - 1, 1) else different_circuit"))
B("C30", "position check gt", (EV, "    if position >= length:", "    if position > length:"))
B("C26", "get_operators with empty term skip", (EV, "    terms: Iterable = list(hamiltonian.get_operators())\n\n    return reduce(", "    terms: Iterable = [term for term in hamiltonian.get_operators() if abs(list(term.terms.values())[0]) > 1e-6]\n\n    return reduce("))
UT = "circuits/_unitary_tools.py"
B("C27", "lift transposes kron outer", (UT, "[eye(2**smallest), inner_matrix, eye(2 ** (num_qubits - largest - 1))],", "[eye(2 ** (num_qubits - largest - 1)), inner_matrix, eye(2**smallest)],"))
B("C27", "lift perm inverse", (UT, "inner_matrix = perm_matrix.transpose() @ inner_gate_matrix @ perm_matrix", "inner_matrix = perm_matrix @ inner_gate_matrix @ perm_matrix.transpose()"))
B("C27", "permute inverse", (UT, "    return [vector[i] for i in permutation]", "    return [vector[permutation.index(i)] for i in range(len(permutation))]"))
B("C27", "adjacent sorted", (UT, "    return list(qubit_indices) + [", "    return sorted(qubit_indices) + ["))
B("C27", "numpy lift real dtype when real", (UT, "    matrix = np.array(matrix, dtype=complex)", "    matrix = np.real_if_close(np.array(matrix, dtype=complex), tol=1e6)"))
B("C27", "zfill off", (UT, "bin(i)[2:].zfill(num_qubits)", "bin(i)[2:].zfill(num_qubits)[::-1]"))
MA = "circuits/_matrices.py"
B("C27", "rh phase", (MA, "phase_factor = sympy.cos(angle / 2) + 1j * sympy.sin(angle / 2)", "phase_factor = sympy.cos(angle / 2) - 1j * sympy.sin(angle / 2)"))
B("C27", "iswap sign", (MA, "[[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]]", "[[1, 0, 0, 0], [0, 0, -1j, 0], [0, -1j, 0, 0], [0, 0, 0, 1]]"))
B("C27", "u3 phase", (MA, "/ sympy.exp(-0.5j * (phi + lambda_))", "/ sympy.exp(0.5j * (phi + lambda_))"))
B("C27", "yy sign", (MA, "            [sympy.cos(angle / 2), 0, 0, 1j * sympy.sin(angle / 2)],\n            [0, sympy.cos(angle / 2), -1j", "            [sympy.cos(angle / 2), 0, 0, -1j * sympy.sin(angle / 2)],\n            [0, sympy.cos(angle / 2), -1j"))
BG = "circuits/_builtin_gates.py"
B("C27", "T flagged hermitian", (BG, 'T = _gates.MatrixFactoryGate("T", _matrices.t_matrix, (), 1)', 'T = _gates.MatrixFactoryGate("T", _matrices.t_matrix, (), 1, is_hermitian=True)'))
B("C27", "iswap hermitian", (BG, 'ISWAP = _gates.MatrixFactoryGate("ISWAP", _matrices.iswap_matrix, (), 2)', 'ISWAP = _gates.MatrixFactoryGate("ISWAP", _matrices.iswap_matrix, (), 2, is_hermitian=True)'))
B("C27", "yy uses xx", (BG, 'YY = make_parametric_gate_prototype("YY", _matrices.yy_matrix, 2)', 'YY = make_parametric_gate_prototype("YY", _matrices.xx_matrix, 2)'))
WO = "circuits/_wavefunction_operations.py"
B("C11", "multiphase sign", (WO, "np.exp(np.asarray(self.params, dtype=float) * 1j)", "np.exp(np.asarray(self.params, dtype=float) * -1j)"))
B("C29", "multiphase bind skip", (WO, "tuple(sub_symbols(param, symbols_map) for param in self.params)", "tuple(sub_symbols(param, symbols_map) if param in symbols_map else param for param in self.params)"))
B("C30", "multiphase not validated real", (WO, "isinstance(param, Complex) and not _is_real(param) for param in self.params", "isinstance(param, complex) and not _is_real(param) for param in self.params"))
B("C29", "subs not simultaneous", ("circuits/_operations.py", "return parameter.subs(symbols_map, simultaneous=True)", "return parameter.subs(symbols_map)"))
B("C29", "free symbols unsorted", ("circuits/_operations.py", "    return sorted(symbols, key=str)", "    return sorted(symbols, key=hash)"))
B("C29", "free symbols only Symbol params", ("circuits/_operations.py", "        if isinstance(param, sympy.Expr)\n", "        if isinstance(param, sympy.Symbol)\n"))
GE = "circuits/_generators.py"
B("C07", "ancilla index drift", (GE, "        qubit_index = circuit.n_qubits + ancilla_qubit_i", "        qubit_index = extended_circuit.n_qubits + ancilla_qubit_i"))
B("C07", "apply gate unique sorted", (GE, "unique_qubit_idx = list(dict.fromkeys(qubit_indices))", "unique_qubit_idx = list(set(qubit_indices))"))
B("C07", "layer params broadcast", (GE, "        for qubit, parameter in zip(unique_qubit_idx, parameters):\n            circuit += gate_factory(*parameter)(qubit)", "        for qubit, parameter in zip(unique_qubit_idx, parameters):\n            circuit += gate_factory(parameter[0])(qubit)"))
SD = "circuits/_serde.py"
B("C09", "symbols bracket digits", (SD, 'r"^(.*)\\[([0-9]+)\\]$"', 'r"^(.*)\\[([0-9])\\]$"'))
B("C09", "n_qubits recomputed", (SD, '        n_qubits=dict_["n_qubits"],\n', '        n_qubits=dict_["n_qubits"] if dict_.get("operations") else None,\n'))
B("C09", "custom def dropped for no ops", (SD, "            if custom_gate_definitions\n", "            if len(custom_gate_definitions) > 1 or custom_gate_definitions and circuit.operations\n"))
B("C09", "params ordering sorted", (SD, '"params_ordering": _map_eager(serialize_expr, gate_def.params_ordering),', '"params_ordering": sorted(map(serialize_expr, gate_def.params_ordering)),'))
B("C09", "dagger collapse on load", (SD, '        return _gates.Dagger(wrapped_gate)', '        return wrapped_gate.dagger'))
B("C09", "controlled default", (SD, 'return _gates.ControlledGate(wrapped_gate, dict_["num_control_qubits"])', 'return wrapped_gate.controlled(1)'))
B("C09", "qubit indices sorted", (SD, 'qubit_indices=tuple(dict_["qubit_indices"]),', 'qubit_indices=tuple(sorted(dict_["qubit_indices"])),'))
B("C09", "matrix col", (SD, "[serialize_expr(element) for element in matrix.row(row_i)]", "[serialize_expr(element) for element in matrix.col(row_i)]"))
B("C09", "free symbols only for params len 1", (SD, '            if gate.free_symbols\n', '            if len(gate.params) == 1 and gate.free_symbols\n'))
B("C09", "serialize expr evalf", (SD, "    return str(expr)", "    return str(expr) if not isinstance(expr, float) else format(expr, '.12g')"))
B("C09", "circuitset drops empties", (SD, '"circuits": _map_eager(_circuit_to_dict, circuitset),', '"circuits": [_circuit_to_dict(circuit) for circuit in circuitset if circuit.operations],'))
B("C09", "schema not checked for circuitset", (SD, '    if schema != CIRCUITSET_SCHEMA:\n        raise', '    if schema is None:\n        raise'))
B("C09", "custom gate by prefix", (SD, "            if gate_def.gate_name == dict_[\"name\"]\n", "            if gate_def.gate_name.startswith(dict_[\"name\"])\n"))
GR = "graph.py"
B("C32", "weights int", (GR, "    weighted_edges = [(e[0], e[1], next(sampler)) for e in graph.edges]", "    weight = next(sampler)\n    weighted_edges = [(e[0], e[1], weight) for e in graph.edges]"))
B("C28", "seed falsy", (GR, "    if seed is not None:\n        random.seed(seed)", "    if seed:\n        random.seed(seed)"))
B("C32", "node dict sorted", (GR, "enumerate(graph.nodes)", "enumerate(sorted(graph.nodes))"))
B("C32", "regular args swapped", (GR, "nx.random_regular_graph(d=degree, n=num_nodes, seed=seed)", "nx.random_regular_graph(d=min(degree, num_nodes - 1), n=num_nodes, seed=seed)"))
B("C32", "seed not fwd in specs", (GR, 'graph = generate_random_graph_erdos_renyi(num_nodes, 1.0, weight_sampler, seed)', 'graph = generate_random_graph_erdos_renyi(num_nodes, 1.0, weight_sampler)'))
B("C32", "complete ignores random weights", (GR, 'graph = generate_random_graph_erdos_renyi(num_nodes, 1.0, weight_sampler, seed)', 'graph = generate_random_graph_erdos_renyi(num_nodes, 1.0, seed=seed)'))
B("C10", "graph schema overrides", (GR, '            **nx.readwrite.json_graph.node_link_data(graph),\n            "schema": GRAPH_SCHEMA,', '            "schema": GRAPH_SCHEMA,\n            **nx.readwrite.json_graph.node_link_data(nx.Graph(graph)),'))
LA = "circuits/layouts.py"
B("C32", "nn odd layer range", (LA, "    for index in range(1, n_qubits - 1, 2):", "    for index in range(1, n_qubits - 2, 2):"))
B("C10", "layers from dict lists", (LA, '        layers = [[tuple(x) for x in layer] for layer in data["layers"]]', '        layers = [[tuple(x) for x in layer] for layer in data["layers"] if layer]'))
B("C32", "sycamore parity", (LA, "        pattern2[m, :] = m % 2", "        pattern2[m, :] = (m // 2) % 2"))
B("C32", "layer type default", (LA, '    elif layer_type == "nearest-neighbor":', '    elif layer_type == "nearest-neighbor" or y_dimension is None:'))
DE = "decompositions/_decomposition.py"
B("C26", "decompose repeats current rule", (DE, "        for decomposed_op in decompose_operation(op, remaining_rules)", "        for decomposed_op in (decompose_operation(op, remaining_rules) if op != operation else [op])"))
B("C26", "decompose first only", (DE, "        for op in operations\n        for decomposed_op in decompose_operation(op, decomposition_rules)", "        for op in operations\n        for decomposed_op in decompose_operation(op, decomposition_rules[:2])"))
SY = "circuits/symbolic/"
B("C21", "sub of negation checks either", (SY+"sympy_expressions.py", "args[1].args[0] == -1", "args[1].args[0].is_negative"))
B("C21", "reciprocal any negative power", (SY+"sympy_expressions.py", "isinstance(args[1], sympy.Pow) and args[1].args[1] == -1", "isinstance(args[1], sympy.Pow) and args[1].args[1].is_negative"))
B("C21", "div args swapped on pow", (SY+"sympy_expressions.py", 'FunctionCall("div", (1, expression_from_sympy(power.args[0])))', 'FunctionCall("div", (expression_from_sympy(power.args[0]), 1))'))
B("C21", "sqrt for any half", (SY+"sympy_expressions.py", "elif power.args[1] == 0.5:", "elif abs(power.args[1]) == 0.5:"))
B("C21", "rational int", (SY+"sympy_expressions.py", "def native_float_from_sympy_rational(number: sympy.Rational):\n    return float(number)", "def native_float_from_sympy_rational(number: sympy.Rational):\n    return number.p // number.q if number.q == 2 else float(number)"))
B("C21", "dialect tan missing", (SY+"sympy_expressions.py", '        "tan": sympy.tan,\n', ''))
B("C21", "reduction with initial", (SY+"expressions.py", "        return reduce(operator, args)", "        return reduce(operator, args[:2])"))
B("C21", "number factory skipped for int", (SY+"translations.py", "    return dialect.number_factory(number)", "    return number if isinstance(number, int) else dialect.number_factory(number)"))
B("C21", "natural key revlex sorted", (SY+"_sorting.py", "    return list(reversed(natural_key(symbol)))", "    return natural_key(symbol)[-2:] + natural_key(symbol)[:-2]"))
B("C21", "fixed order index str", (SY+"_sorting.py", "        return int(index), symbol_weights[name]", "        return symbol_weights[name], int(index)"))
U = "utils.py"
B("C33", "bin2dec lsb", (U, "dec = dec + coeff * x[len(x) - 1 - i]", "dec = dec + coeff * x[i]"))
B("C33", "dec2bin <", (U, "    if pow(2, length) <= number:", "    if pow(2, length) < number:"))
B("C33", "convert array real only when imag zero", (U, "    if np.iscomplexobj(array):\n        dictionary[\"real\"]", "    if np.any(np.iscomplex(array)):\n        dictionary[\"real\"]"))
B("C33", "compare_unitary abs", (U, "    phase = test_matrix.item((0, 0)) ** -1\n", "    phase = abs(test_matrix.item((0, 0))) ** -1\n"))
B("C33", "is_unitary no conj", (U, "test_matrix = np.dot(np.array(u).T.conj(), u)", "test_matrix = np.dot(np.array(u).T, u)"))
B("C33", "scale remainder order", (U, "indexes_sorted_by_remainder = np.argsort(remainders)[::-1]", "indexes_sorted_by_remainder = np.argsort(values)[::-1]"))
B("C33", "symbols map sorted", (U, "return {symbol: param for symbol, param in zip(symbols, params.tolist())}", "return {symbol: param for symbol, param in zip(sorted(symbols, key=str), params.tolist())}"))
B("C33", "symbols length >", (U, "    if len(symbols) != len(params):", "    if len(symbols) > len(params):"))
B("C33", "value estimate eq ignores none", (U, 'return super_eq and self.precision == getattr(other, "precision", None)', 'return super_eq and (self.precision is None or self.precision == getattr(other, "precision", None))'))
B("C10", "value estimate precision falsy", (U, '        if "precision" in dictionary:\n            precision = dictionary["precision"]', '        if dictionary.get("precision"):\n            precision = dictionary["precision"]'))
B("C10", "nmeas estimate frame falsy", (U, "    if frame_meas is not None:\n        data[\"frame_meas\"]", "    if frame_meas is not None and len(frame_meas) > 1:\n        data[\"frame_meas\"]"))
B("C33", "create_object kwargs priority", (U, "                for key, value in {**specs, **kwargs}.items()", "                for key, value in specs.items()"))
B("C05", "create_object mutates specs", (U, "    specs = copy.copy(specs)\n", ""))
B("C33", "create object conflict allowed", (U, "        if key in kwargs.keys():\n            raise ValueError", "        if key in kwargs.keys() and kwargs[key] != specs[key]:\n            raise ValueError"))
B("C33", "bitstrings order reversed", (U, '            bitstring = "0" + bitstring\n', '            bitstring = bitstring + "0"\n'))
B("C33", "tuple conversion", (U, "            measurement = measurement + (int(char),)", "            measurement = (int(char),) + measurement"))
B("C33", "sample replace", (U, "            replace=True,\n", "            replace=n_samples > len(keys_as_array),\n"))
B("C10", "generic dict schema overrides", (U, '    dictionary_stored = {"schema": SCHEMA_VERSION + "-dict"}\n    dictionary_stored.update(dictionary)', '    dictionary_stored = {"schema": SCHEMA_VERSION + "-dict"}\n    dictionary_stored.update({k: v for k, v in dictionary.items() if v is not None})'))
B("C10", "noise model data popped", (U, '    noise_model_data = specs.pop("data", None)', '    noise_model_data = specs.pop("data", None) or {}'))
SE = "serialization.py"
B("C10", "decoder order value estimate", (SE, '        elif "call_number" in obj and "value" in obj:', '        elif "call_number" in obj and obj.get("value"):'))
B("C10", "preprocess tuples not recursed", (SE, "        return list(map(preprocess, tree))", "        return list(map(preprocess, tree)) if isinstance(tree, list) else list(tree)"))
B("C10", "optimize result schema lost nested", (SE, '    if isinstance(tree, dict):\n        preprocessed = {k: preprocess(v) for k, v in tree.items()}', '    if isinstance(tree, dict):\n        preprocessed = {k: preprocess(v) if not isinstance(v, OptimizeResult) else dict(v) for k, v in tree.items()}'))
B("C10", "decoder normalises", (SE, "            return MeasurementOutcomeDistribution(obj, normalize=False)", "            return MeasurementOutcomeDistribution(obj)"))
B("C10", "array imag if truthy", (SE, '            if "imag" in obj:\n                array', '            if np.any(obj.get("imag")):\n                array'))
B("C10", "ensure_open encoding", (SE, 'with open(path_like, mode, encoding=encoding if "b" not in mode else None) as f:', 'with open(path_like, mode) as f:'))
B("C10", "ensure_open closes stream", (SE, "        yield path_like\n", "        yield path_like\n        path_like.close()\n"))
B("C04", "save_opt mutates", (SE, "    optimization_results = {\n        **optimization_results,\n        \"schema\": SCHEMA_VERSION + \"-optimization_result\",\n    }\n", "    optimization_results[\"schema\"] = SCHEMA_VERSION + \"-optimization_result\"\n"))
SO = "openfermion/ops/operators/symbolic_operator.py"
B("C22", "isclose rel only", (SO, "                term_tol = tol * max(1, abs(a), abs(b))", "                term_tol = tol * max(abs(a), abs(b))"))
B("C22", "isclose one sided", (SO, "for term in set(self.terms).symmetric_difference(set(other.terms)):", "for term in set(self.terms).difference(set(other.terms)):"))
B("C22", "iadd drops small before", (SO, "            for term in list(addend.terms):\n                self.terms[term] = self.terms.get(term, 0.0) + addend.terms[term]", "            for term in list(addend.terms):\n                if self._issmall(addend.terms[term]):\n                    continue\n                self.terms[term] = self.terms.get(term, 0.0) + addend.terms[term]"))
B("C22", "imul overwrites", (SO, "                    if new_term in result_terms:\n                        result_terms[new_term] += new_coefficient", "                    if new_term in result_terms:\n                        result_terms[new_term] = new_coefficient"))
B("C22", "rsub", (SO, "        return -1 * self + subtrahend", "        return self - subtrahend"))
B("C22", "pow even reuse", (SO, "        for _ in range(exponent):\n            exponentiated *= self", "        for _ in range(1, exponent):\n            exponentiated *= self"))
B("C22", "compress no imag removal", (SO, "            if abs(coeff.imag) <= abs_tol:\n                coeff = coeff.real", "            if abs(coeff.imag) <= abs_tol * abs(coeff.real):\n                coeff = coeff.real"))
B("C22", "long string overwrites duplicate", (SO, "                self.terms[term] += coef\n\n    def _validate", "                self.terms[term] = coef\n\n    def _validate"))
B("C22", "long string coefficient not multiplied when explicit", (SO, "            coef *= coefficient\n", "            coef = coef * coefficient if coef == 1.0 else coef\n"))
B("C22", "str drops complex", (SO, "            if self._issmall(coeff):\n                continue\n            tmp_string", "            if self._issmall(coeff, 1e-5):\n                continue\n            tmp_string"))
B("C22", "operator groups", (SO, "itertools.islice(operators, len(range(i, len(self.terms), num_groups)))", "itertools.islice(operators, len(self.terms) // num_groups)"))
B("C22", "constant setter add", (SO, "        elif isinstance(addend, COEFFICIENT_TYPES):\n            self.constant += addend", "        elif isinstance(addend, COEFFICIENT_TYPES):\n            self.constant = self.constant or addend"))
B("C22", "norm order", (SO, "        return norm ** (1.0 / order)", "        return norm ** (1.0 / 2 if order > 1 else 1.0)"))
QO = "openfermion/ops/operators/qubit_operator.py"
B("C22", "pauli product sign", (QO, '("Z", "Y"): (-1.0j, "X"),', '("Z", "Y"): (1.0j, "X"),'))
B("C22", "simplify last I kept", (QO, '        if left_factor[1] != "I":\n            new_term.append(left_factor)\n\n        return', '        if left_factor[1] != "I" or not new_term:\n            new_term.append(left_factor)\n\n        return'))
B("C22", "simplify sort on action too", (QO, "        term = sorted(term, key=lambda factor: factor[0])\n\n        new_term", "        term = sorted(term)\n\n        new_term"))
B("C22", "coefficient overwritten on repeated simplification", (QO, "                coefficient *= new_coefficient", "                coefficient = coefficient * new_coefficient if new_action != \"I\" else coefficient"))
FO = "openfermion/ops/operators/fermion_operator.py"
B("C22", "normal ordered strict", (FO, "                        and right_operator[0] >= left_operator[0]", "                        and right_operator[0] > left_operator[0]"))
B("C22", "spin uses index only", (FO, "spin += (-1) ** (operator[0] + operator[1])", "spin += (-1) ** operator[0]"))
PT = "openfermion/ops/representations/polynomial_tensor.py"
B("C22", "tensor eq skips missing key", (PT, "        for key in self_keys | other_keys:", "        for key in self_keys & other_keys:"))
B("C22", "iter skips complex", (PT, "                    if n_body_tensor[index]:", "                    if n_body_tensor[index].real:"))
B("C22", "tensor radd", (PT, "        return -1 * self + subtrahend", "        return self - subtrahend"))
B("C22", "rotation not conj", (PT, "[rotation_matrix.conj() if x else rotation_matrix for x in key]", "[rotation_matrix if x else rotation_matrix.conj() for x in key]"))
B("C22", "projected exact constant", (PT, "tensor if not (exact and selection) else 0", "tensor if not exact else 0"))
B("C22", "imul aliasing", (PT, "                self.n_body_tensors[key] = copy.deepcopy(addend.n_body_tensors[key])", "                self.n_body_tensors[key] = addend.n_body_tensors[key]"))
IO = "openfermion/ops/representations/interaction_operator.py"
B("C22", "unique iter no constant when zero", (IO, "            for q in range(p + 1):", "            for q in range(p):"))
B("C22", "symmetric two body", (IO, "    yield r, s, p, q\n    if not complex_valued:", "    yield r, s, q, p\n    if not complex_valued:"))
B("C24", "same spin missing half", (IO, "                    ] = (two_body_integrals[p, q, r, s] / 2.0)", "                    ] = two_body_integrals[p, q, r, s]"))
B("C24", "core constant exchange", (IO, "2 * two_body_integrals[i, j, j, i] - two_body_integrals[i, j, i, j]", "2 * two_body_integrals[i, j, i, j] - two_body_integrals[i, j, j, i]"))
B("C24", "truncation of abs", (IO, "    one_body_coefficients[numpy.absolute(one_body_coefficients) < EQ_TOLERANCE] = 0.0", "    one_body_coefficients[one_body_coefficients < EQ_TOLERANCE] = 0.0"))
RD = "openfermion/ops/representations/interaction_rdm.py"
B("C22", "rdm expectation missing constant", (RD, "                    if not fermion_term:\n                        expectation += coefficient", "                    if not fermion_term:\n                        expectation = coefficient"))
B("C22", "rdm expectation inplace", (RD, "qubit_operator_expectations = copy.deepcopy(qubit_operator)", "qubit_operator_expectations = copy.copy(qubit_operator)"))
JW = "openfermion/transforms/opconversions/jordan_wigner.py"
B("C23", "jw two body xor", (JW, "        if (p > q) ^ (r > s):", "        if (p > q) and (r > s):"))
B("C23", "jw parity string from p", (JW, 'parity_string = tuple((z, "Z") for z in range(p + 1, q))', 'parity_string = tuple((z, "Z") for z in range(p, q))'))
B("C23", "jw conj not applied", (JW, "            p, q = q, p\n            coefficient = coefficient.conjugate()", "            p, q = q, p"))
B("C23", "jw interaction n_qubits", (JW, "    if n_qubits < count_qubits(iop):", "    if n_qubits < count_qubits(iop) - 1:"))
TRO = "openfermion/transforms/opconversions/term_reordering.py"
B("C23", "normal order term recursion parity", (TRO, "                        tuple(new_term), parity * coefficient, parity", "                        tuple(new_term), coefficient, parity"))
B("C23", "reorder map identity when reverse", (TRO, "        mode_map = {val: key for key, val in mode_map.items()}", "        mode_map = dict(sorted(mode_map.items(), reverse=True))"))
B("C23", "normal ordered tensor signs", (TRO, "s * ss * operator.two_body_tensor[pq[::s] + rs[::ss]]", "s * operator.two_body_tensor[pq[::s] + rs[::ss]]"))
B("C23", "chemist one body sign", (TRO, "            if term[1][0] == term[2][0]:", "            if term[0][0] == term[2][0]:"))
CV = "openfermion/transforms/repconversions/conversions.py"
B("C23", "interaction op accumulates", (CV, "                two_body[p, q, r, s] = coefficient", "                two_body[p, q, r, s] = coefficient.real"))
B("C23", "not normal ordered", (CV, "    fermion_operator = normal_ordered(fermion_operator)\n    constant", "    constant"))
B("C24", "molecular data reduce", (CV, "reduction_indices = list(range(0, n_spin_orbitals, 2))", "reduction_indices = list(range(n_spin_orbitals // 2))"))
TA = "openfermion/transforms/repconversions/operator_tapering.py"
B("C23", "freeze occupied sign", (TA, "                if op[0] > index:", "                if op[0] < index:"))
B("C23", "freeze swaps", (TA, "n_swaps += op[0] - n_ops", "n_swaps += op[0]"))
B("C23", "prune unsorted", (TA, "    indices.sort()\n", ""))
CM = "openfermion/utils/commutators.py"
B("C25", "double commutator sign", (CM, "((index3, 1), (index2, 0)), -coeff2 * coeff3", "((index3, 1), (index2, 0)), coeff2 * coeff3"))
B("C25", "commutator order", (CM, "        result = operator_a * operator_b\n        result -= operator_b * operator_a", "        result = operator_a\n        result *= operator_b\n        result -= operator_b * operator_a"))
