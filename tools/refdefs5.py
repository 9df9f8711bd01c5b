S = "serialization.py"
R(S, ('''    if isinstance(tree, dict):
        preprocessed = {k: preprocess(v) for k, v in tree.items()}
        if isinstance(tree, OptimizeResult):
            preprocessed["schema"] = SCHEMA_VERSION + "-optimization_result"
        return preprocessed
    elif isinstance(tree, tuple) and hasattr(tree, "_asdict"):
        return preprocess(tree._asdict())
    elif isinstance(tree, ValueEstimate):
        return tree.to_dict()
    elif isinstance(tree, (list, tuple)):
        return list(map(preprocess, tree))
    elif isinstance(tree, MeasurementOutcomeDistribution):
''', '''    if isinstance(tree, dict):
        preprocessed = {}
        for k, v in tree.items():
            preprocessed[k] = preprocess(v)
        if isinstance(tree, OptimizeResult):
            preprocessed["schema"] = f"{SCHEMA_VERSION}-optimization_result"
        return preprocessed
    if isinstance(tree, tuple) and hasattr(tree, "_asdict"):
        return preprocess(tree._asdict())
    if isinstance(tree, ValueEstimate):
        return tree.to_dict()
    if isinstance(tree, (list, tuple)):
        return [preprocess(element) for element in tree]
    if isinstance(tree, MeasurementOutcomeDistribution):
'''), ('''        if type(o) in self.ENCODERS_TABLE:
            return self.ENCODERS_TABLE[type(o)](o)
        return o
''', '''        encoder = self.ENCODERS_TABLE.get(type(o))
        return o if encoder is None else encoder(o)
'''), ('''            array = np.array(obj["real"])
            if "imag" in obj:
                array = array + 1j * np.array(obj["imag"])
            return array
        elif "call_number" in obj and "value" in obj:
            cls = HistoryEntry if "artifacts" not in obj else HistoryEntryWithArtifacts
            return cls(**obj)
''', '''            real_part = np.array(obj["real"])
            if "imag" not in obj:
                return real_part
            return real_part + 1j * np.array(obj["imag"])
        elif "call_number" in obj and "value" in obj:
            if "artifacts" in obj:
                return HistoryEntryWithArtifacts(**obj)
            return HistoryEntry(**obj)
'''), ('''    optimization_results = {
        **optimization_results,
        "schema": SCHEMA_VERSION + "-optimization_result",
    }
''', '''    optimization_results = dict(optimization_results)
    optimization_results["schema"] = SCHEMA_VERSION + "-optimization_result"
'''), ('''    dictionary: Dict[str, Any] = {"schema": ARRAY_SCHEMA}
    dictionary["array"] = convert_array_to_dict(array)
    with ensure_open(path_like, "w") as f:
        f.write(json.dumps(dictionary))
''', '''    payload = json.dumps(
        {"schema": ARRAY_SCHEMA, "array": convert_array_to_dict(array)}
    )
    with ensure_open(path_like, "w") as f:
        f.write(payload)
'''))
R(S, ('''    if isinstance(path_like, (str, bytes, os.PathLike)):
        with open(path_like, mode, encoding=encoding if "b" not in mode else None) as f:
            yield f
    else:
        # Readable | Writable
        if set(mode).intersection(set("wxa+")) and not path_like.writable():
            raise ValueError(f"File isn't writable, can't ensure mode {mode}")
        yield path_like
''', '''    is_path = isinstance(path_like, (str, bytes, os.PathLike))
    if not is_path:
        # Readable | Writable
        needs_writing = bool(set(mode) & set("wxa+"))
        if needs_writing and not path_like.writable():
            raise ValueError(f"File isn't writable, can't ensure mode {mode}")
        yield path_like
    else:
        file_encoding = None if "b" in mode else encoding
        with open(path_like, mode, encoding=file_encoding) as f:
            yield f
'''))
LA = "circuits/layouts.py"
R(LA, ('''        layers = [[tuple(x) for x in layer] for layer in data["layers"]]
        return cls(layers)
''', '''        return cls([list(map(tuple, layer)) for layer in data["layers"]])
'''), ('''    circuit_layers_dict = circuit_layers.to_dict()
    circuit_layers_dict["schema"] = SCHEMA_VERSION + "-circuit_layers"
''', '''    circuit_layers_dict = {
        **circuit_layers.to_dict(),
        "schema": SCHEMA_VERSION + "-circuit_layers",
    }
'''), ('''    ordering = {"ordering": ordering}
    ordering["schema"] = SCHEMA_VERSION + "-circuit_ordering"
    with open(filename, "w") as f:
        f.write(json.dumps(ordering))
''', '''    ordering_dict = {
        "ordering": ordering,
        "schema": SCHEMA_VERSION + "-circuit_ordering",
    }
    with open(filename, "w") as f:
        json_string = json.dumps(ordering_dict)
        f.write(json_string)
'''), ('''    if layer_type == "sycamore":
        return _build_circuit_layers_and_connectivity_sycamore(x_dimension, y_dimension)
    elif layer_type == "nearest-neighbor":
        return _build_circuit_layers_and_connectivity_nearest_neighbors(x_dimension)
    else:
        raise ValueError("Layer type {0} is not defined".format(layer_type))
''', '''    if layer_type not in ("sycamore", "nearest-neighbor"):
        raise ValueError(f"Layer type {layer_type} is not defined")
    if layer_type == "nearest-neighbor":
        return _build_circuit_layers_and_connectivity_nearest_neighbors(x_dimension)
    return _build_circuit_layers_and_connectivity_sycamore(x_dimension, y_dimension)
'''), ('''    even_layer = []
    odd_layer = []
    for index in range(0, n_qubits - 1, 2):
        even_layer.append((index, index + 1))
    for index in range(1, n_qubits - 1, 2):
        odd_layer.append((index, index + 1))
    connectivity = []
    connectivity.extend(even_layer)
    connectivity.extend(odd_layer)
    return CircuitConnectivity(connectivity), CircuitLayers([even_layer, odd_layer])
''', '''    def pairs_starting_at(first):
        return [(index, index + 1) for index in range(first, n_qubits - 1, 2)]

    even_layer, odd_layer = pairs_starting_at(0), pairs_starting_at(1)
    return (
        CircuitConnectivity(even_layer + odd_layer),
        CircuitLayers([even_layer, odd_layer]),
    )
'''), ('''    final_connectivity = []
    for group in connectivity:
        final_connectivity.extend(group)
''', '''    final_connectivity = [pair for group in connectivity for pair in group]
'''))
SY = "circuits/symbolic/sympy_expressions.py"
R(SY, ('''    args = sympy_mul.args
    return len(args) == 2 and isinstance(args[1], sympy.Pow) and args[1].args[1] == -1
''', '''    if len(sympy_mul.args) != 2:
        return False
    _, second = sympy_mul.args
    return isinstance(second, sympy.Pow) and second.args[1] == -1
'''), ('''    if is_multiplication_by_reciprocal(mul):
        return FunctionCall(
            "div",
            (
                expression_from_sympy(mul.args[0]),
                expression_from_sympy(mul.args[1].args[0]),
            ),
        )
    else:
        return FunctionCall("mul", expression_from_sympy(mul.args))
''', '''    if not is_multiplication_by_reciprocal(mul):
        return FunctionCall("mul", expression_from_sympy(mul.args))
    numerator = expression_from_sympy(mul.args[0])
    denominator = expression_from_sympy(mul.args[1].args[0])
    return FunctionCall("div", (numerator, denominator))
'''), ('''    if power.args[1] == -1:
        return FunctionCall("div", (1, expression_from_sympy(power.args[0])))
    elif power.args[1] == 0.5:
        return FunctionCall("sqrt", (expression_from_sympy(power.args[0]),))
    else:
        return FunctionCall("pow", expression_from_sympy(power.args))
''', '''    base, exponent = power.args
    if exponent == -1:
        return FunctionCall("div", (1, expression_from_sympy(base)))
    if exponent == 0.5:
        return FunctionCall("sqrt", (expression_from_sympy(base),))
    return FunctionCall("pow", expression_from_sympy(power.args))
'''), ('''    return tuple(expression_from_sympy(arg) for arg in args)
''', '''    return tuple(map(expression_from_sympy, args))
'''))
R("circuits/symbolic/expressions.py", ('''    def _reduction(*args):
        return reduce(operator, args)

    return _reduction
''', '''    return lambda *operands: reduce(operator, operands)
'''))
R("circuits/symbolic/translations.py", ('''    if function_call.name not in dialect.known_functions:
        raise ValueError(f"Function {function_call.name} is unknown in this dialect.")

    return dialect.known_functions[function_call.name](
        *translate_tuple(function_call.args, dialect)
    )
''', '''    name = function_call.name
    if name in dialect.known_functions:
        known_function = dialect.known_functions[name]
        arguments = translate_tuple(function_call.args, dialect)
        return known_function(*arguments)
    raise ValueError(f"Function {name} is unknown in this dialect.")
'''))
OU = "openfermion/utils/operator_utils.py"
R(OU, ('''            conjugate_term = tuple(
                [
                    (tensor_factor, 1 - action)
                    for (tensor_factor, action) in reversed(term)
                ]
            )
            conjugate_operator.terms[conjugate_term] = coefficient.conjugate()

    # Handle QubitOperator
    elif isinstance(operator, QubitOperator):
        conjugate_operator = QubitOperator()
        for term, coefficient in operator.terms.items():
            conjugate_operator.terms[term] = coefficient.conjugate()
''', '''            conjugate_operator.terms[
                tuple((mode, 1 - action) for mode, action in term[::-1])
            ] = coefficient.conjugate()

    # Handle QubitOperator
    elif isinstance(operator, QubitOperator):
        conjugate_operator = QubitOperator()
        conjugate_operator.terms.update(
            {
                term: coefficient.conjugate()
                for term, coefficient in operator.terms.items()
            }
        )
'''), ('''        discrepancy = 0.0
        if difference.nnz:
            discrepancy = max(abs(difference.data))
        return discrepancy < EQ_TOLERANCE
''', '''        discrepancy = max(abs(difference.data)) if difference.nnz else 0.0
        return discrepancy < EQ_TOLERANCE
'''), ('''        num_qubits = 0
        for term in operator.terms:
            for ladder_operator in term:
                if ladder_operator[0] + 1 > num_qubits:
                    num_qubits = ladder_operator[0] + 1
        return num_qubits
''', '''        num_qubits = 0
        for term in operator.terms:
            for mode, _ in term:
                num_qubits = max(num_qubits, mode + 1)
        return num_qubits
'''), ('''    # Handle QubitOperator.
    elif isinstance(operator, QubitOperator):
        num_qubits = 0
        for term in operator.terms:
            if term:
                if term[-1][0] + 1 > num_qubits:
                    num_qubits = term[-1][0] + 1
        return num_qubits
''', '''    # Handle QubitOperator.
    elif isinstance(operator, QubitOperator):
        return max((term[-1][0] + 1 for term in operator.terms if term), default=0)
'''), ('''    if isinstance(operator, (QubitOperator, FermionOperator)):
        return list(operator.terms) == [()]
    raise TypeError("Operator of invalid type.")
''', '''    if not isinstance(operator, (QubitOperator, FermionOperator)):
        raise TypeError("Operator of invalid type.")
    terms = list(operator.terms)
    return terms == [()]
'''))
TR = "openfermion/transforms/opconversions/term_reordering.py"
R(TR, ('''        if len(term) == 2 or not len(term):
            chemist_ordered_operator += FermionOperator(term, coefficient)
        else:
            # Possibly add new one-body term.
            if term[1][0] == term[2][0]:
                new_one_body_term = (term[0], term[3])
                chemist_ordered_operator += FermionOperator(
                    new_one_body_term, coefficient
                )
            # Reorder two-body term.
            new_two_body_term = (term[0], term[2], term[1], term[3])
            chemist_ordered_operator += FermionOperator(new_two_body_term, -coefficient)
''', '''        if len(term) in (0, 2):
            chemist_ordered_operator += FermionOperator(term, coefficient)
            continue
        first, second, third, fourth = term
        # Possibly add new one-body term.
        if second[0] == third[0]:
            chemist_ordered_operator += FermionOperator((first, fourth), coefficient)
        # Reorder two-body term.
        chemist_ordered_operator += FermionOperator(
            (first, third, second, fourth), -coefficient
        )
'''))
JW = "openfermion/transforms/opconversions/jordan_wigner.py"
R(JW, ('''            if ladder_operator[1]:
                pauli_y_component = QubitOperator(
                    z_factors + ((ladder_operator[0], "Y"),), -0.5j
                )
            else:
                pauli_y_component = QubitOperator(
                    z_factors + ((ladder_operator[0], "Y"),), 0.5j
                )
            transformed_term *= pauli_x_component + pauli_y_component
''', '''            y_coefficient = -0.5j if ladder_operator[1] else 0.5j
            pauli_y_component = QubitOperator(
                z_factors + ((ladder_operator[0], "Y"),), y_coefficient
            )
            transformed_term *= pauli_x_component + pauli_y_component
'''), ('''    for p in range(n_qubits):
        coefficient = iop[(p, 1), (p, 0)]
        qubit_operator += jordan_wigner_one_body(p, p, coefficient)
''', '''    for mode in range(n_qubits):
        qubit_operator += jordan_wigner_one_body(
            mode, mode, coefficient=iop[(mode, 1), (mode, 0)]
        )
'''))
SP = "openfermion/linalg/sparse_tools.py"
R(SP, ('''    parities = tensor_factor * [pauli_z_csc]
    identities = [
        scipy.sparse.identity(
            2 ** (n_qubits - tensor_factor - 1), dtype=complex, format="csc"
        )
    ]
    if ladder_type:
        operator = kronecker_operators(parities + [q_raise_csc] + identities)
    else:
        operator = kronecker_operators(parities + [q_lower_csc] + identities)
    return operator
''', '''    parities = [pauli_z_csc] * tensor_factor
    n_remaining = n_qubits - tensor_factor - 1
    identity = scipy.sparse.identity(2**n_remaining, dtype=complex, format="csc")
    ladder = q_raise_csc if ladder_type else q_lower_csc
    return kronecker_operators([*parities, ladder, identity])
'''), ('''    jw_operators = []
    for tensor_factor in range(n_qubits):
        jw_operators += [
            (
                jordan_wigner_ladder_sparse(n_qubits, tensor_factor, 0),
                jordan_wigner_ladder_sparse(n_qubits, tensor_factor, 1),
            )
        ]
''', '''    jw_operators = [
        (
            jordan_wigner_ladder_sparse(n_qubits, tensor_factor, 0),
            jordan_wigner_ladder_sparse(n_qubits, tensor_factor, 1),
        )
        for tensor_factor in range(n_qubits)
    ]
'''), ('''    for term in fermion_operator.terms:
        coefficient = fermion_operator.terms[term]
        sparse_matrix = coefficient * scipy.sparse.identity(
            2**n_qubits, dtype=complex, format="csc"
        )
        for ladder_operator in term:
            sparse_matrix = (
                sparse_matrix * jw_operators[ladder_operator[0]][ladder_operator[1]]
            )
''', '''    for term, coefficient in fermion_operator.terms.items():
        sparse_matrix = coefficient * scipy.sparse.identity(
            n_hilbert, dtype=complex, format="csc"
        )
        for mode, action in term:
            sparse_matrix = sparse_matrix * jw_operators[mode][action]
'''))
BK = "openfermion/transforms/opconversions/bravyi_kitaev.py"
R(BK, ('''    indices = set()

    while index > 0:
        indices.add(index - 1)
        # Remove least significant one from index
        # E.g. 00010100 -> 00010000
        index &= index - 1
    return indices
''', '''    indices = set()
    remaining = index
    while remaining > 0:
        indices.add(remaining - 1)
        # Remove least significant one
        remaining = remaining & (remaining - 1)
    return indices
'''), ('''    if isinstance(operator, FermionOperator):
        return _bravyi_kitaev_fermion_operator(operator, n_qubits)
    if isinstance(operator, InteractionOperator):
        return _bravyi_kitaev_interaction_operator(operator, n_qubits)
    raise TypeError(
        "Couldn't apply the Bravyi-Kitaev Transform to object "
        "of type {}.".format(type(operator))
    )
''', '''    if isinstance(operator, FermionOperator):
        transformed = _bravyi_kitaev_fermion_operator(operator, n_qubits)
    elif isinstance(operator, InteractionOperator):
        transformed = _bravyi_kitaev_interaction_operator(operator, n_qubits)
    else:
        raise TypeError(
            "Couldn't apply the Bravyi-Kitaev Transform to object "
            f"of type {type(operator)}."
        )
    return transformed
'''))
