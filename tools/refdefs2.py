D = "distribution/_measurement_outcome_distribution.py"
R(D, ('''        preprocessed_input_dict = preprocess_distibution_dict(input_dict)

        if is_measurement_outcome_distribution(
            preprocessed_input_dict
        ):  # accept the input dict only if it is a prob distribution
            if is_normalized(preprocessed_input_dict):
                self.distribution_dict = preprocessed_input_dict
            else:
                if normalize:
                    self.distribution_dict = normalize_measurement_outcome_distribution(
                        preprocessed_input_dict
                    )
                else:
                    warnings.warn(
                        "MeasurementOutcomeDistribution object is not normalized."
                    )
                    self.distribution_dict = preprocessed_input_dict
        else:
            raise RuntimeError(
                "Initialization of MeasurementOutcomeDistribution object FAILED: "
                "the input dictionary is not a non-negative integer sequence "
                "probability distribution. Check keys (same-length non-negative integer"
                " tuples) and values (non-negative floats)."
            )
''', '''        candidate = preprocess_distibution_dict(input_dict)

        if not is_measurement_outcome_distribution(candidate):
            raise RuntimeError(
                "Initialization of MeasurementOutcomeDistribution object FAILED: "
                "the input dictionary is not a non-negative integer sequence "
                "probability distribution. Check keys (same-length non-negative integer"
                " tuples) and values (non-negative floats)."
            )

        if not is_normalized(candidate):
            if normalize:
                candidate = normalize_measurement_outcome_distribution(candidate)
            else:
                warnings.warn(
                    "MeasurementOutcomeDistribution object is not normalized."
                )
        self.distribution_dict = candidate
'''), ('''        return len(
            list(self.distribution_dict.keys())[0]
        )  # already checked in __init__ that all keys have the same length
''', '''        first_key = list(self.distribution_dict)[0]
        return len(first_key)
'''), ('''        if isinstance(key, str):
            res_dict[tuple(map(int, key if "," not in key else key.split(",")))] = value
        elif isinstance(key, tuple):
            res_dict[key] = value
        else:
''', '''        if isinstance(key, tuple):
            res_dict[key] = value
        elif isinstance(key, str):
            digits = key.split(",") if "," in key else key
            res_dict[tuple(int(digit) for digit in digits)] = value
        else:
'''), ('''    key_length = len(list(input_dict.keys())[0])
    return all(len(key) == key_length for key in input_dict.keys())
''', '''    keys = list(input_dict.keys())
    expected_length = len(keys[0])
    for key in keys:
        if len(key) != expected_length:
            return False
    return True
'''), ('''    return all(
        all(isinstance(sub, (int, np.integer)) and sub >= 0 for sub in key)
        for key in input_dict.keys()
    )
''', '''    for key in input_dict:
        for sub in key:
            if not isinstance(sub, (int, np.integer)) or sub < 0:
                return False
    return True
'''), ('''    return (
        (not input_dict == {})
        and _is_non_negative(input_dict)
        and _is_key_length_fixed(input_dict)
        and _are_keys_non_negative_integer_tuples(input_dict)
    )
''', '''    if input_dict == {}:
        return False
    if not _is_non_negative(input_dict):
        return False
    if not _is_key_length_fixed(input_dict):
        return False
    return _are_keys_non_negative_integer_tuples(input_dict)
'''), ('''    elif norm == 1:
        return measurement_outcome_distribution
    else:
        for key in measurement_outcome_distribution:
            measurement_outcome_distribution[key] *= 1.0 / norm
        return measurement_outcome_distribution
''', '''    if norm != 1:
        for key in measurement_outcome_distribution:
            measurement_outcome_distribution[key] *= 1.0 / norm
    return measurement_outcome_distribution
'''), ('''    return {
        ",".join(map(str, key)) if isinstance(key, tuple) else key: value
        for key, value in dict.items()
    }
''', '''    def _as_string(key):
        if isinstance(key, tuple):
            return ",".join(str(item) for item in key)
        return key

    return {_as_string(key): value for key, value in dict.items()}
'''), ('''    dictionary: Dict[str, Any] = {}

    # Need to convert tuples to strings for JSON encoding
    preprocessed_distribution_dict = change_tuple_dict_keys_to_comma_separated_integers(
        distribution.distribution_dict
    )

    dictionary["measurement_outcome_distribution"] = preprocessed_distribution_dict
    dictionary["schema"] = (
        SCHEMA_VERSION + "-measurement-outcome-probability-distribution"
    )
    with open(filename, "w") as f:
        f.write(json.dumps(dictionary, indent=2))
''', '''    dictionary: Dict[str, Any] = {
        "measurement_outcome_distribution": (
            change_tuple_dict_keys_to_comma_separated_integers(
                distribution.distribution_dict
            )
        ),
        "schema": f"{SCHEMA_VERSION}-measurement-outcome-probability-distribution",
    }
    contents = json.dumps(dictionary, indent=2)
    with open(filename, "w") as f:
        f.write(contents)
'''), ('''    dictionary["measurement_outcome_distribution"] = []

    for distribution in measurement_outcome_distribution:
        dictionary["measurement_outcome_distribution"].append(
            change_tuple_dict_keys_to_comma_separated_integers(
                distribution.distribution_dict
            )
        )
''', '''    dictionary["measurement_outcome_distribution"] = [
        change_tuple_dict_keys_to_comma_separated_integers(
            distribution.distribution_dict
        )
        for distribution in measurement_outcome_distribution
    ]
'''), ('''    try:
        distribution = MeasurementOutcomeDistribution(data["bitstring_distribution"])
    except KeyError:
        distribution = MeasurementOutcomeDistribution(
            data["measurement_outcome_distribution"]
        )
    return distribution
''', '''    try:
        return MeasurementOutcomeDistribution(data["bitstring_distribution"])
    except KeyError:
        return MeasurementOutcomeDistribution(data["measurement_outcome_distribution"])
'''), ('''    keys = product([0, 1], repeat=int(np.log2(len(prob_distribution))))
    prob_dict: Dict[Union[str, Tuple[int, ...]], float] = {
        key: float(value) for key, value in zip(keys, prob_distribution)
    }

    return MeasurementOutcomeDistribution(prob_dict)
''', '''    n_qubits = int(np.log2(len(prob_distribution)))
    prob_dict: Dict[Union[str, Tuple[int, ...]], float] = {}
    for key, value in zip(product([0, 1], repeat=n_qubits), prob_distribution):
        prob_dict[key] = float(value)

    return MeasurementOutcomeDistribution(prob_dict)
'''), ('''    if not isinstance(
        target_distribution, MeasurementOutcomeDistribution
    ) or not isinstance(measured_distribution, MeasurementOutcomeDistribution):
        raise TypeError(
''', '''    if not all(
        isinstance(distribution, MeasurementOutcomeDistribution)
        for distribution in (target_distribution, measured_distribution)
    ):
        raise TypeError(
'''), ('''    if (
        target_distribution.get_number_of_subsystems()
        != measured_distribution.get_number_of_subsystems()
    ):
''', '''    n_target = target_distribution.get_number_of_subsystems()
    n_measured = measured_distribution.get_number_of_subsystems()
    if n_target != n_measured:
'''))
R("distribution/mmd.py", ('''    target_keys = target_distribution.distribution_dict.keys()
    measured_keys = measured_distribution.distribution_dict.keys()
    all_keys = set(target_keys).union(measured_keys)

    target_values = []
    measured_values = []
    for bitstring in all_keys:
        # Add 0 to the values list whenever a bistrings isn't found among the keys.
        target_values.append(target_distribution.distribution_dict.get(bitstring, 0))
        measured_values.append(
            measured_distribution.distribution_dict.get(bitstring, 0)
        )
''', '''    target_dict = target_distribution.distribution_dict
    measured_dict = measured_distribution.distribution_dict
    all_keys = set(target_dict) | set(measured_dict)

    target_values = [target_dict.get(bitstring, 0) for bitstring in all_keys]
    measured_values = [measured_dict.get(bitstring, 0) for bitstring in all_keys]
'''), ('''    if not hasattr(sigma, "__len__"):
        kernel_matrix = compute_rbf_kernel(basis, basis, sigma)
    else:
        kernel_matrix = compute_multi_rbf_kernel(basis, basis, sigma)
''', '''    kernel = compute_multi_rbf_kernel if hasattr(sigma, "__len__") else compute_rbf_kernel
    kernel_matrix = kernel(basis, basis, sigma)
'''), ('''    diff = np.array(target_values) - np.array(measured_values)
    return diff.dot(kernel_matrix.dot(diff))
''', '''    difference = np.array(target_values) - np.array(measured_values)
    weighted = kernel_matrix.dot(difference)
    return difference.dot(weighted)
'''))
R("distribution/jensen_shannon_divergence.py", ('''    value = (
        compute_clipped_negative_log_likelihood(
            target_distribution, measured_distribution, distance_measure_parameters
        )
        / 2
        + compute_clipped_negative_log_likelihood(
            measured_distribution, target_distribution, distance_measure_parameters
        )
        / 2
    )

    return value
''', '''    forward = compute_clipped_negative_log_likelihood(
        target_distribution, measured_distribution, distance_measure_parameters
    )
    backward = compute_clipped_negative_log_likelihood(
        measured_distribution, target_distribution, distance_measure_parameters
    )
    return forward / 2 + backward / 2
'''))
E = "evolution.py"
R(E, ('''    terms: Iterable = list(hamiltonian.get_operators())

    return reduce(
        operator.add,
        (
            time_evolution_for_term(term, time / trotter_order)
            for _index_order in range(trotter_order)
            for term in terms
        ),
    )
''', '''    terms = list(hamiltonian.get_operators())
    time_step = time / trotter_order

    slices = [
        time_evolution_for_term(term, time_step)
        for _ in range(trotter_order)
        for term in terms
    ]
    return reduce(operator.add, slices)
'''), ('''    if len(term.terms) != 1:
        raise ValueError("This function works only on a single term.")
    term_components = list(term.terms.keys())[0]
''', '''    if len(term.terms) != 1:
        raise ValueError("This function works only on a single term.")
    ((term_components, coefficient),) = term.terms.items()
'''), ('''    term_types = [component[1] for component in term_components]
    qubit_indices = [component[0] for component in term_components]
    coefficient = list(term.terms.values())[0]

    circuit = circuits.Circuit()
''', '''    qubit_indices = [qubit for qubit, _ in term_components]
    term_types = [pauli for _, pauli in term_components]

    circuit = circuits.Circuit()
'''), ('''    if central_gate is not None:
        circuit += central_gate

    for gate in reversed(cnot_gates):
        circuit += gate

    for gate in base_reversals:
        circuit += gate

    return circuit
''', '''    if central_gate is not None:
        circuit = circuit + central_gate

    for gate in cnot_gates[::-1]:
        circuit = circuit + gate

    for gate in base_reversals:
        circuit = circuit + gate

    return circuit
'''), ('''            output_factors.append(r * factor)
            shift = factor * (np.pi / (4.0 * r))

            for j, term_2 in enumerate(terms):
                output += time_evolution_for_term(
                    term_2,
                    (time + shift) / trotter_order if i == j else time / trotter_order,
                )
''', '''            output_factors.append(factor * r)
            shift = factor * (np.pi / (4.0 * r))

            for j, term_2 in enumerate(terms):
                if j == i:
                    term_time = (time + shift) / trotter_order
                else:
                    term_time = time / trotter_order
                output += time_evolution_for_term(term_2, term_time)
'''), ('''    return circuits.Circuit(
        list(
            chain.from_iterable(
                [
                    (
                        repeated_circuit if i != position else different_circuit
                    ).operations
                    for i in range(length)
                ]
            )
        )
    )
''', '''    operations = []
    for i in range(length):
        if i == position:
            operations.extend(different_circuit.operations)
        else:
            operations.extend(repeated_circuit.operations)
    return circuits.Circuit(operations)
'''))
R("decompositions/_decomposition.py", ('''    current_rule, *remaining_rules = decomposition_rules

    new_operations_to_decompose = (
        current_rule.production(operation)
        if current_rule.predicate(operation)
        else [operation]
    )
    return [
        decomposed_op
        for op in new_operations_to_decompose
        for decomposed_op in decompose_operation(op, remaining_rules)
    ]
''', '''    current_rule, *remaining_rules = decomposition_rules

    if current_rule.predicate(operation):
        produced = current_rule.production(operation)
    else:
        produced = [operation]

    result = []
    for op in produced:
        result.extend(decompose_operation(op, remaining_rules))
    return result
'''), ('''    return [
        decomposed_op
        for op in operations
        for decomposed_op in decompose_operation(op, decomposition_rules)
    ]
''', '''    decomposed = []
    for op in operations:
        for decomposed_op in decompose_operation(op, decomposition_rules):
            decomposed.append(decomposed_op)
    return decomposed
'''))
H = "hamiltonian.py"
R(H, ('''    if sort_terms:
        terms_iterator = sorted(
            qubit_operator.terms.items(), key=lambda x: abs(x[1]), reverse=True
        )
    else:
        terms_iterator = qubit_operator.terms.items()

    for term, coefficient in terms_iterator:
        assigned = False  # True if the current term has been assigned to a group
        if term == ():
            constant_term = QubitOperator(term, coefficient)
            continue
        for group in groups:
            if all(
                is_comeasureable(term, term_to_compare)
                for term_to_compare in group.terms
            ):
                # Add the term to the group
                group += QubitOperator(term, coefficient)
                assigned = True
                break

        # If term was not co-measureable with any group, it gets to start its own group!
        if not assigned:
            groups.append(QubitOperator(term, qubit_operator.terms[term]))
''', '''    terms_iterator = qubit_operator.terms.items()
    if sort_terms:
        terms_iterator = sorted(
            terms_iterator, key=lambda item: abs(item[1]), reverse=True
        )

    for term, coefficient in terms_iterator:
        if term == ():
            constant_term = QubitOperator(term, coefficient)
            continue
        for group in groups:
            if all(is_comeasureable(term, other) for other in group.terms):
                # Add the term to the group
                group += QubitOperator(term, coefficient)
                break
        else:
            # not co-measureable with any group, it gets to start its own group!
            groups.append(QubitOperator(term, coefficient))
'''), ('''    decomposition_function = DECOMPOSITION_METHODS.get(decomposition_method)
    if decomposition_function is None:
        raise ValueError(
            f"Unrecognized decomposition method {decomposition_method}."
            f"Allowed values are {list(DECOMPOSITION_METHODS.keys())}"
        )
    return decomposition_function
''', '''    try:
        return DECOMPOSITION_METHODS[decomposition_method]
    except KeyError:
        raise ValueError(
            f"Unrecognized decomposition method {decomposition_method}."
            f"Allowed values are {list(DECOMPOSITION_METHODS.keys())}"
        )
'''), ('''    new_group = copy.deepcopy(group)
    if new_group.terms.get(()):
        del new_group.terms[()]
    return new_group
''', '''    result = copy.deepcopy(group)
    constant = result.terms.get(())
    if constant:
        result.terms.pop(())
    return result
'''), ('''        pauli_variances = 1.0 - real_expecval.values**2
        frame_variances = []
        for i, group in enumerate(groups):
            coeffs = np.array(list(group.terms.values()))
            offset = 0 if i == 0 else np.sum(group_sizes[:i])
            pauli_variances_for_group = pauli_variances[
                offset : offset + group_sizes[i]
            ]
            frame_variances.append(np.sum(coeffs**2 * pauli_variances_for_group))
''', '''        pauli_variances = 1.0 - real_expecval.values**2
        frame_variances = []
        offset = 0
        for group, group_size in zip(groups, group_sizes):
            coeffs = np.array(list(group.terms.values()))
            group_variances = pauli_variances[offset : offset + group_size]
            frame_variances.append(np.sum(coeffs**2 * group_variances))
            offset += group_size
'''), ('''    all_expectations = []
    for qubitoperator in qubitoperator_list:
        expectations = get_expectation_values_from_rdms(
            interactionrdm, qubitoperator, sort_terms=sort_terms
        )
        all_expectations += list(expectations.values)

    return ExpectationValues(np.asarray(all_expectations))
''', '''    all_expectations = [
        value
        for qubitoperator in qubitoperator_list
        for value in get_expectation_values_from_rdms(
            interactionrdm, qubitoperator, sort_terms=sort_terms
        ).values
    ]
    return ExpectationValues(np.asarray(all_expectations))
'''), ('''    frame_variances = compute_group_variances(frame_operators, expecval)
    sqrt_lambda = sum(np.sqrt(frame_variances))
    frame_meas = sqrt_lambda * np.sqrt(frame_variances)
    K2 = sum(frame_meas)
    nterms = sum([len(group.terms) for group in frame_operators])

    return K2, nterms, frame_meas
''', '''    nterms = 0
    for group in frame_operators:
        nterms += len(group.terms)
    deviations = np.sqrt(compute_group_variances(frame_operators, expecval))
    frame_meas = sum(deviations) * deviations
    return sum(frame_meas), nterms, frame_meas
'''))
