R("circuits/_gates.py",
("""        return (
            _lift_matrix_sympy(self.gate.matrix, self.qubit_indices, num_qubits)
            if self.gate.free_symbols
            else _lift_matrix_numpy(self.gate.matrix, self.qubit_indices, num_qubits)
        )
""", """        lift = _lift_matrix_sympy if self.gate.free_symbols else _lift_matrix_numpy
        return lift(self.gate.matrix, self.qubit_indices, num_qubits)
"""),
("""        num_qubits = np.log2(len(amplitude_vector))
        if 2**num_qubits != len(amplitude_vector):
            raise ValueError(
                "GateOperation can only be applied to multi-qubit state vector but "
                f"vector of length {len(amplitude_vector)} was provided."
            )
        return self.lifted_matrix(int(num_qubits)) @ amplitude_vector
""", """        vector_length = len(amplitude_vector)
        num_qubits = np.log2(vector_length)
        if vector_length != 2**num_qubits:
            raise ValueError(
                "GateOperation can only be applied to multi-qubit state vector but "
                f"vector of length {vector_length} was provided."
            )
        matrix = self.lifted_matrix(int(num_qubits))
        return matrix @ amplitude_vector
"""),
("""    return all(getattr(obj, attr) == getattr(other_obj, attr) for attr in attrs)
""", """    for attr in attrs:
        if not getattr(obj, attr) == getattr(other_obj, attr):
            return False
    return True
"""),
("""        return self.replace_params(
            tuple(sub_symbols(param, symbols_map) for param in self.params)
        )
""", """        new_params = tuple(sub_symbols(param, symbols_map) for param in self.params)
        return self.replace_params(new_params)
"""),
("""        return self if self.is_hermitian else Dagger(self)
""", """        if self.is_hermitian:
            return self
        return Dagger(self)
"""),
("""        return (
            f"{self.name}({', '.join(map(str,self.params))})"
            if self.params
            else self.name
        )
""", """        if not self.params:
            return self.name
        params_str = ", ".join(str(param) for param in self.params)
        return f"{self.name}({params_str})"
"""),
("""        if not _all_attrs_equal(
            self, other, set(self.__dataclass_fields__) - {"params"}
        ):
            return False

        if len(self.params) != len(other.params):
            return False

        return all(
            _are_matrix_elements_equal(p1, p2)
            for p1, p2 in zip(self.params, other.params)
        )
""", """        attrs_to_compare = set(self.__dataclass_fields__) - {"params"}
        if not _all_attrs_equal(self, other, attrs_to_compare):
            return False

        return len(self.params) == len(other.params) and all(
            _are_matrix_elements_equal(p1, p2)
            for p1, p2 in zip(self.params, other.params)
        )
"""),
("""        return sympy.Matrix.diag(
            sympy.eye(2**self.num_qubits - 2**self.wrapped_gate.num_qubits),
            self.wrapped_gate.matrix,
        )
""", """        target_dim = 2**self.wrapped_gate.num_qubits
        total_dim = 2**self.num_qubits
        identity_block = sympy.eye(total_dim - target_dim)
        return sympy.Matrix.diag(identity_block, self.wrapped_gate.matrix)
"""),
("""        return ControlledGate(
            wrapped_gate=self.wrapped_gate,
            num_control_qubits=self.num_control_qubits + num_control_qubits,
        )
""", """        total_controls = num_control_qubits + self.num_control_qubits
        return ControlledGate(self.wrapped_gate, total_controls)
"""),
("""        return ControlledGate(
            wrapped_gate=self.wrapped_gate.dagger,
            num_control_qubits=self.num_control_qubits,
        )
""", """        return replace(self, wrapped_gate=self.wrapped_gate.dagger)
"""),
("""        return self.wrapped_gate.bind(symbols_map).controlled(self.num_control_qubits)
""", """        bound_gate = self.wrapped_gate.bind(symbols_map)
        return bound_gate.controlled(self.num_control_qubits)
"""),
("""    n_qubits = math.floor(math.log2(matrix.shape[0]))
    if 2**n_qubits != matrix.shape[0] or 2**n_qubits != matrix.shape[1]:
        raise ValueError("Gate's matrix has to be square with dimension 2^N")
""", """    n_rows, n_cols = matrix.shape
    n_qubits = math.floor(math.log2(n_rows))
    dimension = 2**n_qubits
    if not (dimension == n_rows and dimension == n_cols):
        raise ValueError("Gate's matrix has to be square with dimension 2^N")
"""),
("""        return self.matrix.subs(
            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)},
            simultaneous=True,
        )
""", """        substitutions = dict(zip(self.params_ordering, gate_params))
        return self.matrix.subs(substitutions, simultaneous=True)
"""),
("""        if self.gate_name != other.gate_name:
            return False
        if self.params_ordering != other.params_ordering:
            return False
        if not _are_matrices_equal(self.matrix, other.matrix):
            return False
        return True
""", """        return (
            self.gate_name == other.gate_name
            and self.params_ordering == other.params_ordering
            and _are_matrices_equal(self.matrix, other.matrix)
        )
"""),
("""        return np.allclose(
            float(sympy.re(difference)) + 1j * float(sympy.im(difference)), 0
        )
    except TypeError:
""", """        real_part = float(sympy.re(difference))
        imag_part = float(sympy.im(difference))
        return np.allclose(real_part + 1j * imag_part, 0)
    except TypeError:
"""),
("""    return matrix.shape == another_matrix.shape and all(
        _are_matrix_elements_equal(element, another_element)
        for element, another_element in zip(matrix, another_matrix)
    )
""", """    if matrix.shape != another_matrix.shape:
        return False
    for element, another_element in zip(matrix, another_matrix):
        if not _are_matrix_elements_equal(element, another_element):
            return False
    return True
"""))
R("circuits/_circuit.py",
("""    return (
        0
        if not operations
        else max(
            qubit_index
            for operation in operations
            for qubit_index in operation.qubit_indices
        )
        + 1
    )
""", """    if not operations:
        return 0
    largest_index = max(
        index for operation in operations for index in operation.qubit_indices
    )
    return largest_index + 1
"""),
("""    gate = _innermost_gate(operation)
    return isinstance(gate, _gates.MatrixFactoryGate) and isinstance(
        gate.matrix_factory, _gates.CustomGateMatrixFactory
    )
""", """    gate = _innermost_gate(operation)
    if not isinstance(gate, _gates.MatrixFactoryGate):
        return False
    return isinstance(gate.matrix_factory, _gates.CustomGateMatrixFactory)
"""),
("""        self._operations = list(operations) if operations is not None else []
        if n_qubits:
            cast_n_qubits = int(n_qubits)
            if n_qubits != cast_n_qubits:
                raise ValueError("Non-integer value passed.")
            if cast_n_qubits <= 0:
                raise ValueError("Non-positive value passed.")
            self._n_qubits = n_qubits
        else:
            self._n_qubits = _circuit_size_by_operations(self._operations)
""", """        self._operations = [] if operations is None else list(operations)
        if not n_qubits:
            self._n_qubits = _circuit_size_by_operations(self._operations)
            return
        self._validate_n_qubits(n_qubits)
        self._n_qubits = n_qubits

    @staticmethod
    def _validate_n_qubits(n_qubits):
        cast_n_qubits = int(n_qubits)
        if n_qubits != cast_n_qubits:
            raise ValueError("Non-integer value passed.")
        if cast_n_qubits <= 0:
            raise ValueError("Non-positive value passed.")
"""),
("""        seen_symbols = set()
        symbols_sequence = []
        for operation in self._operations:
            for symbol in operation.free_symbols:
                if symbol not in seen_symbols:
                    seen_symbols.add(symbol)
                    symbols_sequence.append(symbol)
        return symbols_sequence
""", """        all_symbols = (
            symbol for operation in self._operations for symbol in operation.free_symbols
        )
        return list(dict.fromkeys(all_symbols))
"""),
("""        if self.n_qubits != other.n_qubits:
            return False

        return list(self.operations) == list(other.operations)
""", """        same_width = self.n_qubits == other.n_qubits
        return same_width and list(self.operations) == list(other.operations)
"""),
("""        unique_operation_dict = {}
        for gate_def in custom_gate_definitions:
            if gate_def.gate_name not in unique_operation_dict:
                unique_operation_dict[gate_def.gate_name] = gate_def
            elif unique_operation_dict[gate_def.gate_name] != gate_def:
                raise ValueError(
                    "Different gate definitions with the same name exist: "
                    f"{gate_def.gate_name}."
                )
        return sorted(
            unique_operation_dict.values(), key=operator.attrgetter("gate_name")
        )
""", """        definitions_by_name = {}
        for gate_def in custom_gate_definitions:
            name = gate_def.gate_name
            known_def = definitions_by_name.setdefault(name, gate_def)
            if known_def != gate_def:
                raise ValueError(
                    f"Different gate definitions with the same name exist: {name}."
                )
        return sorted(definitions_by_name.values(), key=lambda d: d.gate_name)
"""),
("""        lifted_matrices = [
            op.lifted_matrix(self.n_qubits) for op in reversed(self.operations)
        ]
        return reduce(operator.matmul, lifted_matrices)
""", """        return reduce(
            operator.matmul,
            (op.lifted_matrix(self.n_qubits) for op in self.operations[::-1]),
        )
"""),
("""        return type(self)(
            operations=[op.bind(symbols_map) for op in self.operations],
            n_qubits=self.n_qubits,
        )
""", """        bound_operations = []
        for op in self.operations:
            bound_operations.append(op.bind(symbols_map))
        return type(self)(operations=bound_operations, n_qubits=self.n_qubits)
"""),
("""    n_qubits_by_operation = max(other.qubit_indices) + 1
    return type(circuit)(
        operations=[*circuit.operations, other],
        n_qubits=max(circuit.n_qubits, n_qubits_by_operation),
    )
""", """    required_qubits = 1 + max(other.qubit_indices)
    return type(circuit)(
        circuit.operations + [other],
        max(required_qubits, circuit.n_qubits),
    )
"""),
("""    return type(circuit)(
        operations=[*circuit.operations, *other.operations],
        n_qubits=max(circuit.n_qubits, other.n_qubits),
    )
""", """    all_operations = list(circuit.operations)
    all_operations.extend(other.operations)
    width = max(circuit.n_qubits, other.n_qubits)
    return type(circuit)(operations=all_operations, n_qubits=width)
"""))
R("circuits/_serde.py",
("""    symbols_map: Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]] = {}
    for name in symbol_names:
""", """    symbols_map: Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]] = dict()
    for name in symbol_names:
        symbol = sympy.Symbol(name)
"""),
("""            symbols_map.setdefault(match.group(1), {})[
                int(match.group(2))
            ] = sympy.Symbol(name)
        else:
            symbols_map[name] = sympy.Symbol(name)
""", """            base_name, index = match.group(1), int(match.group(2))
            symbols_map.setdefault(base_name, {})[index] = symbol
        else:
            symbols_map[name] = symbol
"""),
("""    return [
        [serialize_expr(element) for element in matrix.row(row_i)]
        for row_i in range(matrix.shape[0])
    ]
""", """    rows = []
    for row_i in range(matrix.shape[0]):
        rows.append([serialize_expr(element) for element in matrix.row(row_i)])
    return rows
"""),
("""    return list(map(fn, iterable))
""", """    return [fn(element) for element in iterable]
"""),
("""    return {
        "schema": CIRCUIT_SCHEMA,
        "n_qubits": circuit.n_qubits,
        **(
            {
                "operations": _map_eager(to_dict, circuit.operations),
            }
            if circuit.operations
            else {}
        ),
        **(
            {
                "custom_gate_definitions": _map_eager(to_dict, custom_gate_definitions),
            }
            if custom_gate_definitions
            else {}
        ),
    }
""", """    result = {"schema": CIRCUIT_SCHEMA, "n_qubits": circuit.n_qubits}
    if circuit.operations:
        result["operations"] = _map_eager(to_dict, circuit.operations)
    if custom_gate_definitions:
        result["custom_gate_definitions"] = _map_eager(
            to_dict, custom_gate_definitions
        )
    return result
"""),
("""    return {
        "name": gate.name,
        **({"params": _map_eager(serialize_expr, gate.params)} if gate.params else {}),
        **(
            {"free_symbols": sorted(map(str, gate.free_symbols))}
            if gate.free_symbols
            else {}
        ),
    }
""", """    dict_ = {"name": gate.name}
    if gate.params:
        dict_["params"] = [serialize_expr(param) for param in gate.params]
    free_symbols = gate.free_symbols
    if free_symbols:
        dict_["free_symbols"] = sorted(str(symbol) for symbol in free_symbols)
    return dict_
"""),
("""    defs = [
        custom_gate_def_from_dict(def_dict)
        for def_dict in dict_.get("custom_gate_definitions", [])
    ]
    return _circuit.Circuit(
        operations=[
            _gate_operation_from_dict(op_dict, defs)
            for op_dict in dict_.get("operations", [])
        ],
        n_qubits=dict_["n_qubits"],
    )
""", """    defs = _map_eager(
        custom_gate_def_from_dict, dict_.get("custom_gate_definitions", [])
    )
    operations = [
        _gate_operation_from_dict(op_dict, defs)
        for op_dict in dict_.get("operations", [])
    ]
    return _circuit.Circuit(operations=operations, n_qubits=dict_["n_qubits"])
"""),
("""    if _gates.gate_is_parametric(gate_ref, dict_.get("params")):
        return gate_ref(
            *[
                deserialize_expr(param, dict_.get("free_symbols", []))
                for param in dict_.get("params", [])
            ]
        )
    else:
        return gate_ref
""", """    if not _gates.gate_is_parametric(gate_ref, dict_.get("params")):
        return gate_ref

    symbol_names = dict_.get("free_symbols", [])
    params = [
        deserialize_expr(param, symbol_names) for param in dict_.get("params", [])
    ]
    return gate_ref(*params)
"""),
("""    if dict_["name"] == _gates.CONTROLLED_GATE_NAME:
        wrapped_gate = _gate_from_dict(dict_["wrapped_gate"], custom_gate_defs)
        return _gates.ControlledGate(wrapped_gate, dict_["num_control_qubits"])

    elif dict_["name"] == _gates.DAGGER_GATE_NAME:
        wrapped_gate = _gate_from_dict(dict_["wrapped_gate"], custom_gate_defs)
        return _gates.Dagger(wrapped_gate)

    else:
        raise KeyError()
""", """    name = dict_["name"]
    if name not in (_gates.CONTROLLED_GATE_NAME, _gates.DAGGER_GATE_NAME):
        raise KeyError()

    wrapped_gate = _gate_from_dict(dict_["wrapped_gate"], custom_gate_defs)
    if name == _gates.CONTROLLED_GATE_NAME:
        return _gates.ControlledGate(wrapped_gate, dict_["num_control_qubits"])
    return _gates.Dagger(wrapped_gate)
"""),
("""    symbols = [sympy.Symbol(term) for term in dict_.get("params_ordering", [])]
    return _gates.CustomGateDefinition(
        gate_name=dict_["gate_name"],
        matrix=_matrix_from_json(dict_["matrix"], dict_.get("params_ordering", [])),
        params_ordering=tuple(symbols),
    )
""", """    symbol_names = dict_.get("params_ordering", [])
    return _gates.CustomGateDefinition(
        gate_name=dict_["gate_name"],
        matrix=_matrix_from_json(dict_["matrix"], symbol_names),
        params_ordering=tuple(map(sympy.Symbol, symbol_names)),
    )
"""),
("""    gate_def = next(
        (
            gate_def
            for gate_def in custom_gate_defs
            if gate_def.gate_name == dict_["name"]
        ),
        None,
    )
    if gate_def is None:
        raise ValueError(
""", """    for gate_def in custom_gate_defs:
        if gate_def.gate_name == dict_["name"]:
            break
    else:
        raise ValueError(
"""))
R("circuits/_generators.py",
("""    circuit = Circuit()
    return apply_gate_to_qubits(
        circuit, range(number_of_qubits), gate_factory, parameters
    )
""", """    all_qubits = range(number_of_qubits)
    return apply_gate_to_qubits(
        Circuit(), all_qubits, gate_factory, parameters=parameters
    )
"""),
("""        for qubit, parameter in zip(unique_qubit_idx, parameters):
            circuit += gate_factory(*parameter)(qubit)
""", """        for i, qubit in enumerate(unique_qubit_idx):
            gate = gate_factory(*parameters[i])
            circuit = circuit + gate(qubit)
"""),
("""    for ancilla_qubit_i in range(n_ancilla_qubits):
        qubit_index = circuit.n_qubits + ancilla_qubit_i
        extended_circuit += I(qubit_index)
""", """    first_ancilla = circuit.n_qubits
    for qubit_index in range(first_ancilla, first_ancilla + n_ancilla_qubits):
        extended_circuit += I(qubit_index)
"""))
R("circuits/_wavefunction_operations.py",
("""        if any(
            isinstance(param, Complex) and not _is_real(param) for param in self.params
        ):
            raise ValueError("MultiPhaseOperation supports only real parameters.")
""", """        for param in self.params:
            if isinstance(param, Complex) and not _is_real(param):
                raise ValueError("MultiPhaseOperation supports only real parameters.")
"""),
("""        return np.multiply(np.asarray(amplitude_vector), exp_params)
""", """        return np.asarray(amplitude_vector) * exp_params
"""))
R("circuits/_unitary_tools.py",
("""    return [int(char) for char in bin(i)[2:].zfill(num_qubits)]
""", """    bits = bin(i)[2:].zfill(num_qubits)
    return list(map(int, bits))
"""),
("""    num_qubits = len(target_indices_order)

    if sorted(target_indices_order) != list(range(num_qubits)):
        raise ValueError("Not all qubits given in permutation.")

    perm_matrix = zeros((2**num_qubits, 2**num_qubits))

    for i in range(2**num_qubits):
        input_state = _basis_bitstring(i, num_qubits)
        output_state = _permute(input_state, target_indices_order)
        perm_matrix[:, i] = bitstring_to_dense_vector(output_state)
""", """    num_qubits = len(target_indices_order)
    dim = 2**num_qubits

    if list(range(num_qubits)) != sorted(target_indices_order):
        raise ValueError("Not all qubits given in permutation.")

    perm_matrix = zeros((dim, dim))

    for column in range(dim):
        output_state = _permute(
            _basis_bitstring(column, num_qubits), target_indices_order
        )
        perm_matrix[:, column] = bitstring_to_dense_vector(output_state)
"""),
("""    return list(qubit_indices) + [
        i for i in range(num_qubits) if i not in qubit_indices
    ]
""", """    remaining = [i for i in range(num_qubits) if i not in qubit_indices]
    return [*qubit_indices, *remaining]
"""),
("""    smallest, largest = min(qubit_indices), max(qubit_indices)
""", """    smallest = min(qubit_indices)
    largest = max(qubit_indices)
    n_active = largest - smallest + 1
"""),
("""        shifted_qubits, largest - smallest + 1
    )
""", """        shifted_qubits, n_active
    )
"""),
("""        matrix, eye(2 ** (largest - smallest - len(qubit_indices) + 1))
""", """        matrix, eye(2 ** (n_active - len(qubit_indices)))
"""),
("""    return reduce(
        kronecker_product,
        [eye(2**smallest), inner_matrix, eye(2 ** (num_qubits - largest - 1))],
    )
""", """    left_identity = eye(2**smallest)
    right_identity = eye(2 ** (num_qubits - largest - 1))
    return kronecker_product(
        kronecker_product(left_identity, inner_matrix), right_identity
    )
"""))
R("circuits/_operations.py",
("""    symbols = set(
        symbol
        for param in parameters
        if isinstance(param, sympy.Expr)
        for symbol in param.free_symbols
    )
    return sorted(symbols, key=str)
""", """    symbols = set()
    for param in parameters:
        if isinstance(param, sympy.Expr):
            symbols.update(param.free_symbols)
    return sorted(symbols, key=str)
"""))
M = "measurement.py"
R(M, ("""    data: Dict[str, Any] = {"schema": SCHEMA_VERSION + "-wavefunction"}
    data["amplitudes"] = convert_array_to_dict(wavefunction.amplitudes)
    with open(filename, "w") as f:
        f.write(json.dumps(data, indent=2))
""", """    data: Dict[str, Any] = {
        "schema": f"{SCHEMA_VERSION}-wavefunction",
        "amplitudes": convert_array_to_dict(wavefunction.amplitudes),
    }
    with open(filename, "w") as f:
        json.dump(data, f, indent=2)
"""),
("""        if self.correlations:
            data["correlations"] = []
            for correlation_matrix in self.correlations:
                data["correlations"].append(convert_array_to_dict(correlation_matrix))
        if self.estimator_covariances:
            data["estimator_covariances"] = []
            for covariance_matrix in self.estimator_covariances:
                data["estimator_covariances"].append(
                    convert_array_to_dict(covariance_matrix)
                )
        return data
""", """        if self.correlations:
            data["correlations"] = [
                convert_array_to_dict(matrix) for matrix in self.correlations
            ]
        if self.estimator_covariances:
            data["estimator_covariances"] = [
                convert_array_to_dict(matrix) for matrix in self.estimator_covariances
            ]
        return data
"""),
("""        correlations: Optional[List] = None
        if dictionary.get("correlations"):
            correlations = []
            for correlation_matrix in cast(Iterable, dictionary.get("correlations")):
                correlations.append(convert_dict_to_array(correlation_matrix))
        estimator_covariances: Union[List, None] = None
        if dictionary.get("estimator_covariances"):
            estimator_covariances = []
            for covariance_matrix in cast(
                Iterable, dictionary.get("estimator_covariances")
            ):
                estimator_covariances.append(convert_dict_to_array(covariance_matrix))
        return cls(expectation_values, correlations, estimator_covariances)
""", """        correlations = cls._matrices_from_dicts(dictionary.get("correlations"))
        estimator_covariances = cls._matrices_from_dicts(
            dictionary.get("estimator_covariances")
        )
        return cls(expectation_values, correlations, estimator_covariances)

    @staticmethod
    def _matrices_from_dicts(dicts):
        if not dicts:
            return None
        return [convert_dict_to_array(dict_) for dict_ in dicts]
"""),
("""    probabilities = [
        x[0] if isinstance(x, (list, np.ndarray)) else x for x in list(probabilities_np)
    ]
    samples_ndarray = rng.choice(a=outcomes_str, size=n_samples, p=probabilities)
    samples = [tuple(int(y) for y in list(x)[::-1]) for x in list(samples_ndarray)]
    return samples
""", """    probabilities = []
    for probability in probabilities_np:
        if isinstance(probability, (list, np.ndarray)):
            probability = probability[0]
        probabilities.append(probability)
    sampled_outcomes = rng.choice(a=outcomes_str, size=n_samples, p=probabilities)
    return [tuple(int(bit) for bit in outcome[::-1]) for outcome in sampled_outcomes]
"""),
("""        if data.get("correlations"):
            correlations: Optional[List] = [
                convert_dict_to_array(arr) for arr in data["correlations"]
            ]
        else:
            correlations = None
        return cls(values, correlations)
""", """        correlations: Optional[List] = None
        if data.get("correlations"):
            correlations = list(map(convert_dict_to_array, data["correlations"]))
        return cls(values, correlations)
"""),
("""    for i in range(len(parities.values)):
        N0 = parities.values[i][0]
        N1 = parities.values[i][1]
        N = N0 + N1
        if N == 0:
            raise ValueError("There must be at least one sample for each operator")
        p = N0 / N
        value = 2.0 * p - 1.0
""", """    for counts in parities.values:
        n_even, n_odd = counts[0], counts[1]
        N = n_even + n_odd
        if N == 0:
            raise ValueError("There must be at least one sample for each operator")
        p = n_even / N
        value = 2.0 * p - 1.0
"""),
("""        if N >= 100 and p >= 0.1 and p <= 0.9:
            precision = 2.0 * np.sqrt(p * (1.0 - p)) / np.sqrt(N)
""", """        if N >= 100 and 0.1 <= p <= 0.9:
            precision = 2.0 * np.sqrt(p * (1.0 - p)) / np.sqrt(N)
"""),
("""    for _, term in enumerate(ising_operator.terms):
        marked_qubits = [op[0] for op in term]
        parity = check_parity_of_vector(bitstrings_vector, marked_qubits)
        true_parity_count: int = (parity * bitstring_counts).sum()
        false_parity_count: int = ((1 - parity) * bitstring_counts).sum()
        values.append([true_parity_count, false_parity_count])
""", """    for term in ising_operator.terms:
        marked_qubits = [qubit for qubit, _ in term]
        parity = check_parity_of_vector(bitstrings_vector, marked_qubits)
        values.append(
            [
                (parity * bitstring_counts).sum(),
                ((1 - parity) * bitstring_counts).sum(),
            ]
        )
"""),
("""            marked_qubits_term1 = [op[0] for op in term1]
            marked_qubits_term2 = [op[0] for op in term2]
            parity1 = check_parity_of_vector(bitstrings_vector, marked_qubits_term1)
            parity2 = check_parity_of_vector(bitstrings_vector, marked_qubits_term2)
            equal_parities = np.abs(
                parity1 - parity2
            )  # 0 if parities are equal, 1 otherwise
""", """            parity1 = check_parity_of_vector(
                bitstrings_vector, [op[0] for op in term1]
            )
            parity2 = check_parity_of_vector(
                bitstrings_vector, [op[0] for op in term2]
            )
            # 0 if parities are equal, 1 otherwise
            equal_parities = np.abs(parity1 - parity2)
"""),
("""    for i, value in enumerate(expectation_values.values):
        if isinstance(value, complex):
            value = value.real
        values.append(value)
    expectation_values.values = np.array(values)
""", """    for value in expectation_values.values:
        values.append(value.real if isinstance(value, complex) else value)
    expectation_values.values = np.array(values)
"""),
("""    return int("".join(str(bit) for bit in bitstring[::-1]), 2)
""", """    reversed_bits = "".join(map(str, bitstring[::-1]))
    return int(reversed_bits, base=2)
"""),
("""    result = True
    for qubit_index in marked_qubits:
        if bitstring[qubit_index] == "1" or bitstring[qubit_index] == 1:
            result = not result
    return result
""", """    is_even = True
    for qubit_index in marked_qubits:
        bit = bitstring[qubit_index]
        if bit in ("1", 1):
            is_even = not is_even
    return is_even
"""),
("""    parity = (
        check_parity_of_vector(
            _convert_bitstrings_to_vector(bitstring_frequencies.keys()),
            marked_qubits,
        )
        * 2
        - 1
    )
    num_measurements = sum(bitstring_frequencies.values())
    expectation_values: np.ndarray = (
        np.fromiter(bitstring_frequencies.values(), dtype=int)
        * parity
        / num_measurements
    )
""", """    bitstrings_vector = _convert_bitstrings_to_vector(bitstring_frequencies.keys())
    parity = 2 * check_parity_of_vector(bitstrings_vector, marked_qubits) - 1
    counts = np.fromiter(bitstring_frequencies.values(), dtype=int)
    expectation_values: np.ndarray = (
        counts * parity / sum(bitstring_frequencies.values())
    )
"""),
("""        if bitstrings is None:
            self.bitstrings = []
        else:
            self.bitstrings = bitstrings
""", """        self.bitstrings = [] if bitstrings is None else bitstrings
"""),
("""            bitstring = tuple([int(measurement_value) for measurement_value in state])
            bitstring_samples += [bitstring] * int(
                round(distribution[state] * number_of_samples)
            )
""", """            n_repetitions = int(round(number_of_samples * distribution[state]))
            bitstring = tuple(int(value) for value in state)
            bitstring_samples.extend([bitstring] * n_repetitions)
"""),
("""            if number_of_samples - len(bitstring_samples) > 0:
                for sample in samples:
""", """            if len(bitstring_samples) < number_of_samples:
                for sample in samples:
"""),
("""        bitstrings = []
        for bitstring in data["bitstrings"]:
            bitstrings.append(tuple(bitstring))
        return cls(bitstrings=bitstrings)
""", """        return cls([tuple(bitstring) for bitstring in data["bitstrings"]])
"""),
("""        for bitstring in counts.keys():
            measurement = []
            for bitvalue in bitstring:
                measurement.append(int(bitvalue))
            self.bitstrings += [tuple(measurement)] * counts[bitstring]
""", """        for bitstring, count in counts.items():
            measurement = tuple(int(bitvalue) for bitvalue in bitstring)
            self.bitstrings += [measurement] * count
"""),
("""        distribution = {}
        for bitstring in counts.keys():
            distribution[bitstring] = counts[bitstring] / num_measurements
        return MeasurementOutcomeDistribution(distribution)
""", """        return MeasurementOutcomeDistribution(
            {
                bitstring: count / num_measurements
                for bitstring, count in counts.items()
            }
        )
"""),
("""        expectation_values_list = [
            coefficient
            * get_expectation_value_from_frequencies(
                [cast(int, op[0]) for op in term], bitstring_frequencies
            )
            for term, coefficient in ising_operator.terms.items()
        ]
        expectation_values = np.array(expectation_values_list)
        correlations = np.zeros((len(ising_operator.terms),) * 2)
        for i, first_term in enumerate(ising_operator.terms):
            correlations[i, i] = ising_operator.terms[first_term] ** 2
            for j in range(i):
                second_term = list(ising_operator.terms.keys())[j]
""", """        expectation_values_list = []
        for term, coefficient in ising_operator.terms.items():
            qubits = [cast(int, op[0]) for op in term]
            term_expectation = get_expectation_value_from_frequencies(
                qubits, bitstring_frequencies
            )
            expectation_values_list.append(coefficient * term_expectation)
        expectation_values = np.array(expectation_values_list)
        n_terms = len(ising_operator.terms)
        correlations = np.zeros((n_terms, n_terms))
        all_terms = list(ising_operator.terms)
        for i, first_term in enumerate(all_terms):
            correlations[i, i] = ising_operator.terms[first_term] ** 2
            for j in range(i):
                second_term = all_terms[j]
"""),
("""        denominator = (
            num_measurements - 1 if use_bessel_correction else num_measurements
        )
""", """        denominator = num_measurements
        if use_bessel_correction:
            denominator -= 1
"""))
W = "wavefunction.py"
R(W, ("""    try:
        complex(possible_number)
        return True
    except Exception:
        return False
""", """    try:
        complex(possible_number)
    except Exception:
        return False
    return True
"""),
("""    new_type = np.complex128 if complex else np.float64
    try:
        return np.array(sympy_matrix, dtype=new_type).flatten()
    except TypeError:
        return np.array(sympy_matrix, dtype=object).flatten()
""", """    new_type = np.complex128 if complex else np.float64
    try:
        result = np.array(sympy_matrix, dtype=new_type)
    except TypeError:
        result = np.array(sympy_matrix, dtype=object)
    return result.flatten()
"""),
("""    bin_string = bin(val)
    return len(bin_string) - 2
""", """    return len(bin(val)[2:])
"""),
("""        if self.free_symbols:
            return _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
        return self._amplitude_vector
""", """        if not self.free_symbols:
            return self._amplitude_vector
        return _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
"""),
("""        if not isinstance(other, Wavefunction):
            return False
        return self._amplitude_vector == other._amplitude_vector
""", """        if isinstance(other, Wavefunction):
            return self._amplitude_vector == other._amplitude_vector
        return False
"""),
("""        np_arr = np.zeros(2**n_qubits, dtype=np.complex128)
        np_arr[0] = 1.0
        return Wavefunction(np_arr)
""", """        amplitudes = np.zeros(2**n_qubits, dtype=np.complex128)
        amplitudes[0] = 1.0
        return Wavefunction(amplitudes)
"""),
("""        if hamming_weight == 0:
            return initial_wf
        else:
            del initial_wf
            # Get first value with hamming weight
            current_value = int("1" * hamming_weight, base=2)
            counter: int = 1
            indices: List[int] = [current_value]
            while True:
                current_value = _get_next_number_with_same_hamming_weight(current_value)
                if not _most_significant_set_bit(current_value) <= n_qubits:
                    break
                indices.append(current_value)
                counter += 1
            amplitude = 1 / np.sqrt(counter)
            wf = np.zeros(2**n_qubits, dtype=np.complex128)
            wf[indices] = amplitude
            return Wavefunction(wf)
""", """        if hamming_weight == 0:
            return initial_wf

        # Get first value with hamming weight
        current_value = int("1" * hamming_weight, base=2)
        indices: List[int] = []
        while _most_significant_set_bit(current_value) <= n_qubits:
            indices.append(current_value)
            current_value = _get_next_number_with_same_hamming_weight(current_value)
        wf = np.zeros(2**n_qubits, dtype=np.complex128)
        wf[indices] = 1 / np.sqrt(len(indices))
        return Wavefunction(wf)
"""),
("""        return np.abs(self.amplitudes) ** 2
""", """        magnitudes = np.abs(self.amplitudes)
        return magnitudes**2
"""),
("""        values = [
            format(i, "0" + str(self.n_qubits) + "b")[::-1] for i in range(len(self))
        ]
        probs = self.get_probabilities()
        return dict(zip(values, probs))
""", """        n_qubits = self.n_qubits
        probabilities = self.get_probabilities()
        return {
            format(i, f"0{n_qubits}b")[::-1]: probability
            for i, probability in enumerate(probabilities)
        }
"""),
("""    number_of_states = len(amplitudes)
    ordering = [
        _flip_bits(n, number_of_states.bit_length() - 1)
        for n in range(number_of_states)
    ]
    return np.array([amplitudes[i] for i in ordering])
""", """    n_states = len(amplitudes)
    n_bits = n_states.bit_length() - 1
    return np.array([amplitudes[_flip_bits(n, n_bits)] for n in range(n_states)])
"""))
ES = "estimation/_estimation.py"
R(ES, ("""        for qubit, operator in term:
            for existing_qubit, existing_operator in context:
                if existing_qubit == qubit and existing_operator != operator:
                    raise ValueError("Terms are not co-measurable")
            if (qubit, operator) not in context:
                context.append((qubit, operator))
            term_operator *= IsingOperator((qubit, "Z"))
        transformed_operator += term_operator * qubit_operator.terms[term]
    for factor in context:
        if factor[1] == "X":
            context_selection_circuit += RY(-np.pi / 2)(factor[0])
        elif factor[1] == "Y":
            context_selection_circuit += RX(np.pi / 2)(factor[0])
""", """        for qubit, operator in term:
            if _conflicts_with_context(context, qubit, operator):
                raise ValueError("Terms are not co-measurable")
            factor = (qubit, operator)
            if factor not in context:
                context.append(factor)
            term_operator *= IsingOperator((qubit, "Z"))
        transformed_operator += term_operator * qubit_operator.terms[term]
    for qubit, pauli in context:
        if pauli == "X":
            context_selection_circuit += RY(-np.pi / 2)(qubit)
        elif pauli == "Y":
            context_selection_circuit += RX(np.pi / 2)(qubit)
"""),
("""def get_context_selection_circuit_for_group(
""", """def _conflicts_with_context(context, qubit, operator):
    return any(
        known_qubit == qubit and known_operator != operator
        for known_qubit, known_operator in context
    )


def get_context_selection_circuit_for_group(
"""),
("""        frame_circuit = estimation_task.circuit + context_selection_circuit
        new_estimation_task = EstimationTask(
            frame_operator, frame_circuit, estimation_task.number_of_shots
        )
        output_estimation_tasks.append(new_estimation_task)
    return output_estimation_tasks
""", """        output_estimation_tasks.append(
            EstimationTask(
                operator=frame_operator,
                circuit=estimation_task.circuit + context_selection_circuit,
                number_of_shots=estimation_task.number_of_shots,
            )
        )
    return output_estimation_tasks
"""),
("""    output_estimation_tasks = []
    for estimation_task in estimation_tasks:
        for term in estimation_task.operator.get_operators():
            output_estimation_tasks.append(
                EstimationTask(
                    term, estimation_task.circuit, estimation_task.number_of_shots
                )
            )
    return output_estimation_tasks
""", """    return [
        EstimationTask(term, task.circuit, task.number_of_shots)
        for task in estimation_tasks
        for term in task.operator.get_operators()
    ]
"""),
("""    if sort_terms:
        print("Greedy grouping with pre-sorting")
    else:
        print("Greedy grouping without pre-sorting")
    output_estimation_tasks = []
    for estimation_task in estimation_tasks:
        groups = group_comeasureable_terms_greedy(
            cast(QubitOperator, estimation_task.operator), sort_terms=sort_terms
        )
        for group in groups:
            group_estimation_task = EstimationTask(
                group, estimation_task.circuit, estimation_task.number_of_shots
            )
            output_estimation_tasks.append(group_estimation_task)
    return output_estimation_tasks
""", """    print(f"Greedy grouping {'with' if sort_terms else 'without'} pre-sorting")
    output_estimation_tasks: List[EstimationTask] = []
    for estimation_task in estimation_tasks:
        operator = cast(QubitOperator, estimation_task.operator)
        output_estimation_tasks.extend(
            EstimationTask(
                group, estimation_task.circuit, estimation_task.number_of_shots
            )
            for group in group_comeasureable_terms_greedy(
                operator, sort_terms=sort_terms
            )
        )
    return output_estimation_tasks
"""),
("""    if number_of_shots <= 0:
        raise ValueError("number_of_shots must be positive.")
    return [
        EstimationTask(
            operator=estimation_task.operator,
            circuit=estimation_task.circuit,
            number_of_shots=number_of_shots,
        )
        for estimation_task in estimation_tasks
    ]
""", """    if not number_of_shots > 0:
        raise ValueError("number_of_shots must be positive.")
    allocated_tasks = []
    for task in estimation_tasks:
        allocated_tasks.append(
            EstimationTask(task.operator, task.circuit, number_of_shots)
        )
    return allocated_tasks
"""),
("""    if len(symbols_maps) == 1:
        symbols_maps = list(symbols_maps) * len(estimation_tasks)
    elif len(symbols_maps) != len(estimation_tasks):
        raise ValueError("Number of symbols maps must match the number of tasks.")
""", """    n_tasks = len(estimation_tasks)
    n_maps = len(symbols_maps)
    if n_maps == 1:
        symbols_maps = list(symbols_maps) * n_tasks
    if len(symbols_maps) != n_tasks:
        raise ValueError("Number of symbols maps must match the number of tasks.")
"""),
("""    estimation_tasks_to_measure = []
    estimation_tasks_not_to_measure = []
    indices_to_measure = []
    indices_not_to_measure = []
    for i, task in enumerate(estimation_tasks):
        if (
            len(task.operator.terms) == 1 and () in task.operator.terms.keys()
        ) or task.number_of_shots == 0:
            indices_not_to_measure.append(i)
            estimation_tasks_not_to_measure.append(task)
        else:
            indices_to_measure.append(i)
            estimation_tasks_to_measure.append(task)
    return (
""", """    indices_to_measure = [
        i
        for i, task in enumerate(estimation_tasks)
        if not _requires_no_measurement(task)
    ]
    indices_not_to_measure = [
        i for i, task in enumerate(estimation_tasks) if _requires_no_measurement(task)
    ]
    estimation_tasks_to_measure = [estimation_tasks[i] for i in indices_to_measure]
    estimation_tasks_not_to_measure = [
        estimation_tasks[i] for i in indices_not_to_measure
    ]
    return (
"""),
("""def split_estimation_tasks_to_measure(
""", """def _requires_no_measurement(task: EstimationTask) -> bool:
    is_constant = len(task.operator.terms) == 1 and () in task.operator.terms
    return is_constant or task.number_of_shots == 0


def split_estimation_tasks_to_measure(
"""),
("""        if len(task.operator.terms) > 1 or () not in task.operator.terms.keys():
            if task.number_of_shots is not None and task.number_of_shots > 0:
                raise RuntimeError(
                    "An EstimationTask required shots but was classified as\\
                         a non-measured task"
                )
            else:
                coefficient = 0.0
        else:
            coefficient = task.operator.terms[()]
""", """        terms = task.operator.terms
        is_constant = len(terms) <= 1 and () in terms
        if is_constant:
            coefficient = terms[()]
        elif task.number_of_shots is None or task.number_of_shots <= 0:
            coefficient = 0.0
        else:
            raise RuntimeError(
                "An EstimationTask required shots but was classified as\\
                         a non-measured task"
            )
"""),
("""    if estimation_tasks_to_measure == []:
        measured_expectation_values_list = []
    else:
        circuits, operators, shots_per_circuit = zip(
            *[
                (e.circuit, e.operator, e.number_of_shots)
                for e in estimation_tasks_to_measure
            ]
        )
        measurements_list = backend.run_circuitset_and_measure(
            circuits, shots_per_circuit
        )
""", """    measured_expectation_values_list = []
    if estimation_tasks_to_measure:
        circuits = tuple(task.circuit for task in estimation_tasks_to_measure)
        operators = tuple(task.operator for task in estimation_tasks_to_measure)
        shots_per_circuit = tuple(
            task.number_of_shots for task in estimation_tasks_to_measure
        )
        measurements_list = backend.run_circuitset_and_measure(
            circuits, shots_per_circuit
        )
"""),
("""    full_expectation_values: List[Optional[ExpectationValues]] = [
        None
        for _ in range(
            len(estimation_tasks_not_to_measure) + len(estimation_tasks_to_measure)
        )
    ]
    for ex_val, final_index in zip(
        non_measured_expectation_values_list, indices_not_to_measure
    ):
        full_expectation_values[final_index] = ex_val
    for ex_val, final_index in zip(
        measured_expectation_values_list, indices_to_measure
    ):
        full_expectation_values[final_index] = ex_val
""", """    n_tasks = len(estimation_tasks_not_to_measure) + len(estimation_tasks_to_measure)
    full_expectation_values: List[Optional[ExpectationValues]] = [None] * n_tasks
    for indices, values in (
        (indices_not_to_measure, non_measured_expectation_values_list),
        (indices_to_measure, measured_expectation_values_list),
    ):
        for final_index, ex_val in zip(indices, values):
            full_expectation_values[final_index] = ex_val
"""),
("""    expectation_values_list = [
        backend.get_exact_expectation_values(
            estimation_task.circuit, estimation_task.operator
        )
        for estimation_task in estimation_tasks
    ]
    return expectation_values_list
""", """    return [
        backend.get_exact_expectation_values(task.circuit, task.operator)
        for task in estimation_tasks
    ]
"""))
HA = "hamiltonian.py"
R(HA, ("""    for qubit_1, operator_1 in term_1:
        for qubit_2, operator_2 in term_2:
            # Check if the two Pauli operators act on the same qubit
            if qubit_1 == qubit_2:
                # Check if the two Pauli operators are different
                if operator_1 != operator_2:
                    return False
    return True
""", """    return not any(
        qubit_1 == qubit_2 and operator_1 != operator_2
        for qubit_1, operator_1 in term_1
        for qubit_2, operator_2 in term_2
    )
"""),
("""    constant_term = None
    if sort_terms:
        terms_iterator = sorted(
            qubit_operator.terms.items(), key=lambda x: abs(x[1]), reverse=True
        )
    else:
        terms_iterator = qubit_operator.terms.items()
    for term, coefficient in terms_iterator:
        assigned = False  # True if the current term has been assigned to a group
        if term == ():
            constant_term = QubitOperator(term, coefficient)
            continue
        for group in groups:
            if all(
                is_comeasureable(term, term_to_compare)
                for term_to_compare in group.terms
            ):
                # Add the term to the group
                group += QubitOperator(term, coefficient)
                assigned = True
                break
        # If term was not co-measureable with any group, it gets to start its own group!
        if not assigned:
            groups.append(QubitOperator(term, qubit_operator.terms[term]))
""", """    constant_term = None
    for term, coefficient in _iterate_terms(qubit_operator, sort_terms):
        if term == ():
            constant_term = QubitOperator(term, coefficient)
            continue
        for group in groups:
            if all(is_comeasureable(term, other) for other in group.terms):
                # Add the term to the group
                group += QubitOperator(term, coefficient)
                break
        else:
            # No compatible group was found, the term gets to start its own group!
            groups.append(QubitOperator(term, coefficient))
"""),
("""def group_comeasureable_terms_greedy(
    qubit_operator: QubitOperator, sort_terms: bool = False
""", """def _iterate_terms(qubit_operator: QubitOperator, sort_terms: bool):
    items = qubit_operator.terms.items()
    if not sort_terms:
        return items
    return sorted(items, key=lambda item: abs(item[1]), reverse=True)


def group_comeasureable_terms_greedy(
    qubit_operator: QubitOperator, sort_terms: bool = False
"""),
("""    decomposition_function = DECOMPOSITION_METHODS.get(decomposition_method)
    if decomposition_function is None:
        raise ValueError(
            f"Unrecognized decomposition method {decomposition_method}."
            f"Allowed values are {list(DECOMPOSITION_METHODS.keys())}"
        )
    return decomposition_function
""", """    try:
        return DECOMPOSITION_METHODS[decomposition_method]
    except KeyError:
        raise ValueError(
            f"Unrecognized decomposition method {decomposition_method}."
            f"Allowed values are {list(DECOMPOSITION_METHODS.keys())}"
        )
"""),
("""    coefficients = np.array(list(group.terms.values()))
    return np.sum(coefficients**2)
""", """    coefficients = np.array([*group.terms.values()])
    return (coefficients**2).sum()
"""),
("""    if expecval is None:
        groups = [_remove_constant_term_from_group(group) for group in groups]
        frame_variances = [_calculate_variance_upper_bound(group) for group in groups]
    else:
""", """    if expecval is None:
        frame_variances = [
            _calculate_variance_upper_bound(_remove_constant_term_from_group(group))
            for group in groups
        ]
    else:
"""),
("""        real_expecval = expectation_values_to_real(copy.deepcopy(expecval))
        if not np.logical_and(
            real_expecval.values >= -1, real_expecval.values <= 1
        ).all():
            raise ValueError("Expectation values should have values between -1 and 1.")
        pauli_variances = 1.0 - real_expecval.values**2
        frame_variances = []
        for i, group in enumerate(groups):
            coeffs = np.array(list(group.terms.values()))
            offset = 0 if i == 0 else np.sum(group_sizes[:i])
            pauli_variances_for_group = pauli_variances[
                offset : offset + group_sizes[i]
            ]
            frame_variances.append(np.sum(coeffs**2 * pauli_variances_for_group))
""", """        values = expectation_values_to_real(copy.deepcopy(expecval)).values
        if not np.all(np.logical_and(values >= -1, values <= 1)):
            raise ValueError("Expectation values should have values between -1 and 1.")
        pauli_variances = 1.0 - values**2
        frame_variances = []
        offset = 0
        for group, size in zip(groups, group_sizes):
            coeffs = np.array(list(group.terms.values()))
            frame_variances.append(
                np.sum(coeffs**2 * pauli_variances[offset : offset + size])
            )
            offset += size
"""),
("""    all_expectations = []
    for qubitoperator in qubitoperator_list:
        expectations = get_expectation_values_from_rdms(
            interactionrdm, qubitoperator, sort_terms=sort_terms
        )
        all_expectations += list(expectations.values)
    return ExpectationValues(np.asarray(all_expectations))
""", """    all_expectations = [
        value
        for qubitoperator in qubitoperator_list
        for value in get_expectation_values_from_rdms(
            interactionrdm, qubitoperator, sort_terms=sort_terms
        ).values
    ]
    return ExpectationValues(np.asarray(all_expectations))
"""),
("""    if sort_terms:
        terms_iterator = sorted(
            qubitoperator.terms.items(), key=lambda x: abs(x[1]), reverse=True
        )
    else:
        terms_iterator = qubitoperator.terms.items()
    reordered_qubitoperator = QubitOperator()
    for term, coefficient in terms_iterator:
        reordered_qubitoperator += QubitOperator(term, coefficient)
""", """    terms = list(qubitoperator.terms.items())
    if sort_terms:
        terms.sort(key=lambda x: abs(x[1]), reverse=True)
    reordered_qubitoperator = QubitOperator()
    for term, coefficient in terms:
        reordered_qubitoperator += QubitOperator(term, coefficient)
"""),
("""    expectations = np.real(expectations)
    np.clip(expectations, -1, 1, out=expectations)
    return ExpectationValues(expectations)
""", """    return ExpectationValues(np.clip(np.real(expectations), -1, 1))
"""),
("""    sqrt_lambda = sum(np.sqrt(frame_variances))
    frame_meas = sqrt_lambda * np.sqrt(frame_variances)
    K2 = sum(frame_meas)
    nterms = sum([len(group.terms) for group in frame_operators])
    return K2, nterms, frame_meas
""", """    precisions = np.sqrt(frame_variances)
    frame_meas = sum(precisions) * precisions
    nterms = sum(len(group.terms) for group in frame_operators)
    return sum(frame_meas), nterms, frame_meas
"""),
("""    one_body_tensor = interaction_op.one_body_tensor[:, :]
    one_body_tensor = one_body_tensor[ordering, :]
    one_body_tensor = one_body_tensor[:, ordering]
""", """    one_body_tensor = interaction_op.one_body_tensor[ordering, :][:, ordering]
"""))
CF = "cost_function.py"
R(CF, ("""    return sorted(
        list(
            {param for task in estimation_tasks for param in task.circuit.free_symbols}
        ),
        key=key,
    )
""", """    symbols = set()
    for task in estimation_tasks:
        symbols.update(task.circuit.free_symbols)
    return sorted(symbols, key=key)
"""),
("""        partial_sums: List[Any] = [
            np.sum(expectation_values.values)
            for expectation_values in expectation_values_list
        ]
        summed_values = np.sum(partial_sums)
        if isinstance(summed_values, float):
            return ValueEstimate(summed_values)
        else:
            raise ValueError(f"Result {summed_values} is not a float.")
""", """        summed_values = np.sum(
            [np.sum(values.values) for values in expectation_values_list]
        )
        if not isinstance(summed_values, float):
            raise ValueError(f"Result {summed_values} is not a float.")
        return ValueEstimate(summed_values)
"""),
("""    value = np.sum(expectation_values.values)
    precision = None
    if expectation_values.estimator_covariances:
        estimator_variance = 0.0
        for frame_covariance in expectation_values.estimator_covariances:
            estimator_variance += float(np.sum(frame_covariance, (0, 1)))
        precision = np.sqrt(estimator_variance)
    return ValueEstimate(value, precision)
""", """    value = np.sum(expectation_values.values)
    covariances = expectation_values.estimator_covariances
    if not covariances:
        return ValueEstimate(value, None)
    estimator_variance = sum(
        float(np.sum(frame_covariance, (0, 1))) for frame_covariance in covariances
    )
    return ValueEstimate(value, np.sqrt(estimator_variance))
"""),
("""        self.estimation_method: EstimateExpectationValues
        if estimation_method is None:
            self.estimation_method = estimate_expectation_values_by_averaging
        else:
            self.estimation_method = estimation_method
        if estimation_preprocessors is None:
            estimation_preprocessors = []
        self.estimation_tasks = [
            EstimationTask(
                operator=target_operator,
                circuit=ansatz.parametrized_circuit,
                number_of_shots=None,
            )
        ]
        for estimation_preprocessor in estimation_preprocessors:
            self.estimation_tasks = estimation_preprocessor(self.estimation_tasks)
        self.circuit_symbols = _get_sorted_set_of_circuit_symbols(
            self.estimation_tasks, ansatz.symbols_sort_key
        )
""", """        self.estimation_method: EstimateExpectationValues = (
            estimation_method
            if estimation_method is not None
            else estimate_expectation_values_by_averaging
        )
        estimation_tasks = [
            EstimationTask(
                operator=target_operator,
                circuit=ansatz.parametrized_circuit,
                number_of_shots=None,
            )
        ]
        for estimation_preprocessor in estimation_preprocessors or []:
            estimation_tasks = estimation_preprocessor(estimation_tasks)
        self.estimation_tasks = estimation_tasks
        self.circuit_symbols = _get_sorted_set_of_circuit_symbols(
            estimation_tasks, ansatz.symbols_sort_key
        )
"""),
("""        full_parameters = parameters.copy()
        if self.fixed_parameters is not None:
            full_parameters = combine_ansatz_params(self.fixed_parameters, parameters)
        if self.parameter_precision is not None:
            rng = np.random.default_rng(self.parameter_precision_seed)
            noise_array = rng.normal(
                0.0, self.parameter_precision, len(full_parameters)
            )
            full_parameters += noise_array
        symbols_map = create_symbols_map(self.circuit_symbols, full_parameters)
        estimation_tasks = evaluate_estimation_circuits(
            self.estimation_tasks, [symbols_map for _ in self.estimation_tasks]
        )
        expectation_values_list = self.estimation_method(self.backend, estimation_tasks)
        combined_expectation_values = expectation_values_to_real(
            concatenate_expectation_values(expectation_values_list)
        )
        return sum_expectation_values(combined_expectation_values)
""", """        full_parameters = self._get_full_parameters(parameters)
        symbols_map = create_symbols_map(self.circuit_symbols, full_parameters)
        estimation_tasks = evaluate_estimation_circuits(
            self.estimation_tasks, [symbols_map] * len(self.estimation_tasks)
        )
        return sum_expectation_values(
            expectation_values_to_real(
                concatenate_expectation_values(
                    self.estimation_method(self.backend, estimation_tasks)
                )
            )
        )

    def _get_full_parameters(self, parameters: np.ndarray) -> np.ndarray:
        if self.fixed_parameters is None:
            full_parameters = parameters.copy()
        else:
            full_parameters = combine_ansatz_params(self.fixed_parameters, parameters)
        if self.parameter_precision is None:
            return full_parameters
        rng = np.random.default_rng(self.parameter_precision_seed)
        full_parameters += rng.normal(
            0.0, self.parameter_precision, len(full_parameters)
        )
        return full_parameters
"""),
("""        noise = rng.normal(0.0, parameter_precision, len(parameters))
        return parameters + noise
""", """        n_parameters = len(parameters)
        return parameters + rng.normal(
            loc=0.0, scale=parameter_precision, size=n_parameters
        )
"""),
("""        for preprocessor in (
            [] if parameter_preprocessors is None else parameter_preprocessors
        ):
            parameters = preprocessor(parameters)
        estimation_tasks = estimation_tasks_factory(parameters)
        expectation_values_list = estimation_method(backend, estimation_tasks)
        combined_expectation_values = expectation_values_to_real(
            concatenate_expectation_values(expectation_values_list)
        )
        return sum_expectation_values(combined_expectation_values)
    return function_with_gradient(_cost_function, gradient_function(_cost_function))
""", """        if parameter_preprocessors is not None:
            for preprocessor in parameter_preprocessors:
                parameters = preprocessor(parameters)
        expectation_values = concatenate_expectation_values(
            estimation_method(backend, estimation_tasks_factory(parameters))
        )
        return sum_expectation_values(expectation_values_to_real(expectation_values))

    gradient = gradient_function(_cost_function)
    return function_with_gradient(_cost_function, gradient)
"""),
("""    if estimation_preprocessors is None:
        estimation_preprocessors = []
    estimation_tasks = [
        EstimationTask(
            operator=target_operator,
            circuit=parametrized_circuit,
            number_of_shots=None,
        )
    ]
    for preprocessor in estimation_preprocessors:
        estimation_tasks = preprocessor(estimation_tasks)
    circuit_symbols""", """    estimation_tasks = [EstimationTask(target_operator, parametrized_circuit, None)]
    if estimation_preprocessors is not None:
        for preprocess in estimation_preprocessors:
            estimation_tasks = preprocess(estimation_tasks)
    circuit_symbols"""),
("""        circuit = ansatz._generate_circuit(parameters)
        estimation_tasks = [
            EstimationTask(
                operator=target_operator, circuit=circuit, number_of_shots=None
            )
        ]
        for preprocessor in (
            [] if estimation_preprocessors is None else estimation_preprocessors
        ):
            estimation_tasks = preprocessor(estimation_tasks)
        return estimation_tasks
""", """        tasks = [
            EstimationTask(
                operator=target_operator,
                circuit=ansatz._generate_circuit(parameters),
                number_of_shots=None,
            )
        ]
        if not estimation_preprocessors:
            return tasks
        for preprocessor in estimation_preprocessors:
            tasks = preprocessor(tasks)
        return tasks
"""))
R("gradients.py", ("""        gradient = np.array([])
        for idx in range(len(parameters)):
            values_plus = parameters.astype(float)
            values_minus = parameters.astype(float)
            values_plus[idx] += finite_diff_step_size
            values_minus[idx] -= finite_diff_step_size
            gradient = np.append(
                gradient,
                (function(values_plus) - function(values_minus))
                / (2 * finite_diff_step_size),
            )
        return gradient
""", """        components = []
        for idx in range(len(parameters)):
            shifted_up = parameters.astype(float)
            shifted_up[idx] += finite_diff_step_size
            shifted_down = parameters.astype(float)
            shifted_down[idx] -= finite_diff_step_size
            difference = function(shifted_up) - function(shifted_down)
            components.append(difference / (2 * finite_diff_step_size))
        return np.array(components)
"""))
R("interfaces/functions.py", ("""    try:
        return "store_artifact" in signature(function, follow_wrapped=True).parameters
    except ValueError:
""", """    try:
        function_signature = signature(function, follow_wrapped=True)
        return "store_artifact" in function_signature.parameters
    except ValueError:
"""),
("""    if has_store_artifact_param(function):
        return FunctionWithGradientStoringArtifacts(
            cast(CallableStoringArtifacts, function), gradient
        )
    else:
        return FunctionWithGradient(
            cast(Callable[[np.ndarray], float], function), gradient
        )
""", """    if not has_store_artifact_param(function):
        plain_function = cast(Callable[[np.ndarray], float], function)
        return FunctionWithGradient(plain_function, gradient)
    return FunctionWithGradientStoringArtifacts(
        cast(CallableStoringArtifacts, function), gradient
    )
"""))
R("interfaces/ansatz_utils.py", ("""        if not hasattr(obj, self.attrname):
            setattr(obj, self.attrname, self.default_value)
        return getattr(obj, self.attrname)
""", """        attrname = self.attrname
        if not hasattr(obj, attrname):
            setattr(obj, attrname, self.default_value)
        return getattr(obj, attrname)
"""),
("""        @wraps(target)
        def _wrapper(ansatz, *args, **kwargs):
            # Pass through the arguments, store the returned value for later use
            return_value = target(ansatz, *args, **kwargs)
            # Invalidate circuit
            ansatz._parametrized_circuit = None
            # Return original result
            return return_value
        return _wrapper
""", """        @wraps(target)
        def _invalidating(ansatz, *args, **kwargs):
            result = target(ansatz, *args, **kwargs)
            ansatz._parametrized_circuit = None
            return result

        return _invalidating
"""),
("""    return _InvalidatingSetter(DynamicProperty(name, default_value))
""", """    descriptor = DynamicProperty(name=name, default_value=default_value)
    return _InvalidatingSetter(target=descriptor)
"""),
("""    return np.concatenate((params1, params2))
""", """    return np.concatenate([params1, params2])
"""))
R("interfaces/ansatz.py", ("""        if self._parametrized_circuit is None:
            if self.supports_parametrized_circuits:
                self._parametrized_circuit = self._generate_circuit()
            else:
                raise (
                    NotImplementedError(
                        "{0} does not support parametrized circuits.".format(
                            type(self).__name__
                        )
                    )
                )
        return self._parametrized_circuit
""", """        if self._parametrized_circuit is not None:
            return self._parametrized_circuit
        if not self.supports_parametrized_circuits:
            raise NotImplementedError(
                f"{type(self).__name__} does not support parametrized circuits."
            )
        self._parametrized_circuit = self._generate_circuit()
        return self._parametrized_circuit
"""),
("""        if self.supports_parametrized_circuits:
            symbols = sorted(
                self.parametrized_circuit.free_symbols, key=self.symbols_sort_key
            )
            symbols_map = create_symbols_map(symbols, params)
            executable_circuit = self.parametrized_circuit.bind(symbols_map)
            return executable_circuit
        else:
            return self._generate_circuit(params)
""", """        if not self.supports_parametrized_circuits:
            return self._generate_circuit(params)
        circuit = self.parametrized_circuit
        symbols = sorted(circuit.free_symbols, key=self.symbols_sort_key)
        return circuit.bind(create_symbols_map(symbols, params))
"""))
OP = "interfaces/optimizer.py"
R(OP, ("""        cost_function = self._preprocess_cost_function(cost_function)
        if keep_history:
            cost_function = self.recorder(cost_function)
        return self._minimize(cost_function, initial_params, keep_history)
""", """        preprocessed = self._preprocess_cost_function(cost_function)
        target = self.recorder(preprocessed) if keep_history else preprocessed
        return self._minimize(
            target, initial_params=initial_params, keep_history=keep_history
        )
"""),
("""    histories: Dict[str, AnyHistory] = {}
    if keep_history:
        # TODO: When we upgraded to 3.8 use get_args on AnyRecorder instead
        if isinstance(cost_function, ArtifactRecorder):
            histories["history"] = cost_function.history
        if isinstance(cost_function, SimpleRecorder):
            histories["history"] = cost_function.history
        if isinstance(cost_function, ArtifactRecorderWithGradient):
            histories["gradient_history"] = cost_function.gradient.history
        if isinstance(cost_function, SimpleRecorderWithGradient):
            histories["gradient_history"] = cost_function.gradient.history
    else:
        histories["history"] = cast(AnyHistory, [])
    return histories
""", """    if not keep_history:
        return {"history": cast(AnyHistory, [])}
    histories: Dict[str, AnyHistory] = {}
    if isinstance(cost_function, (ArtifactRecorder, SimpleRecorder)):
        histories["history"] = cost_function.history
    if isinstance(
        cost_function, (ArtifactRecorderWithGradient, SimpleRecorderWithGradient)
    ):
        histories["gradient_history"] = cost_function.gradient.history
    return histories
"""),
("""    new_histories = construct_history_info(cost_function, True)
    updated_histories = {"history": histories["history"] + new_histories["history"]}
    if hasattr(cost_function, "gradient"):
        updated_histories["gradient_history"] = (
            histories["gradient_history"] + new_histories["gradient_history"]
        )
    return updated_histories
""", """    new_histories = construct_history_info(cost_function, keep_history=True)
    keys = ["history"]
    if hasattr(cost_function, "gradient"):
        keys.append("gradient_history")
    return {key: histories[key] + new_histories[key] for key in keys}
"""))
RE = "history/recorder.py"
R(RE, ("""    attributes_dict = {
        "target": recorder_to_copy.target,
        "save_condition": recorder_to_copy.predicate,
    }
    recorder_copy = type(recorder_to_copy)(**attributes_dict)
    recorder_copy.call_number = recorder_to_copy.call_number
    recorder_copy.history = recorder_to_copy.history
""", """    recorder_copy = type(recorder_to_copy)(
        target=recorder_to_copy.target, save_condition=recorder_to_copy.predicate
    )
    recorder_copy.history = recorder_to_copy.history
    recorder_copy.call_number = recorder_to_copy.call_number
"""),
("""        return_value = self.target(params)
        if self.predicate(return_value, params, self.call_number):
            self.history.append(
                HistoryEntry(self.call_number, copy.copy(params), return_value)
            )
        self.call_number += 1
        return return_value
""", """        value = self.target(params)
        call_number = self.call_number
        if self.predicate(value, params, call_number):
            entry = HistoryEntry(
                call_number=call_number, params=copy.copy(params), value=value
            )
            self.history.append(entry)
        self.call_number = call_number + 1
        return value
"""),
("""        if key in NATIVE_RECORDER_ATTRIBUTES:
            return object.__setattr__(self, key, value)
        return setattr(self.target, key, value)
    __copy__ = copy_recorder
    __deepcopy__ = deepcopy_recorder
class SimpleRecorderWith""", """        if key not in NATIVE_RECORDER_ATTRIBUTES:
            return setattr(self.target, key, value)
        return object.__setattr__(self, key, value)

    __copy__ = copy_recorder
    __deepcopy__ = deepcopy_recorder


class SimpleRecorderWith"""),
("""        if self.predicate(return_value, params, self.call_number) or artifacts.forced:
            self.history.append(
                HistoryEntryWithArtifacts(
                    self.call_number, copy.copy(params), return_value, artifacts
                )
            )
        self.call_number += 1
        return return_value
""", """        should_save = self.predicate(return_value, params, self.call_number)
        if should_save or artifacts.forced:
            self._save(params, return_value, artifacts)
        self.call_number += 1
        return return_value

    def _save(self, params, value, artifacts):
        self.history.append(
            HistoryEntryWithArtifacts(
                self.call_number, copy.copy(params), value, artifacts
            )
        )
"""),
("""        if name in ("predicate", "history", "target", "call_number", "gradient"):
            return object.__setattr__(self, name, value)
        return setattr(self.target, name, value)
""", """        if name in NATIVE_RECORDER_ATTRIBUTES:
            object.__setattr__(self, name, value)
        else:
            setattr(self.target, name, value)
"""),
("""    if with_artifacts and with_gradient:
        return ArtifactRecorderWithGradient(function, save_condition)
    elif with_artifacts:
        return ArtifactRecorder(function, save_condition)
    elif with_gradient:
        return SimpleRecorderWithGradient(function, save_condition)
    else:
        return SimpleRecorder(function, save_condition)
""", """    if with_artifacts:
        if with_gradient:
            return ArtifactRecorderWithGradient(function, save_condition)
        return ArtifactRecorder(function, save_condition)
    if with_gradient:
        return SimpleRecorderWithGradient(function, save_condition)
    return SimpleRecorder(function, save_condition)
"""))
R("history/save_conditions.py", ("""        return call_number % n == 0
""", """        return not call_number % n
"""))
BK = "interfaces/backend.py"
R(BK, ("""        measurement_set: List[Measurements]
        if len(circuits) != len(n_samples):
            raise ValueError("Number of samples must be given for each circuit.")
        if not self.supports_batching:
            measurement_set = []
            for circuit, n_samples_for_circuit in zip(circuits, n_samples):
                measurement_set.append(
                    self.run_circuit_and_measure(
                        circuit, n_samples=n_samples_for_circuit
                    )
                )
            return measurement_set
        else:
            self.number_of_circuits_run += len(circuits)
            if isinstance(self.batch_size, int):
                self.number_of_jobs_run += int(np.ceil(len(circuits) / self.batch_size))
            # This value is only returned so that mypy doesn't complain.
            # You can remove this workaround when we reimplement counter increments in
            # a more type-elegant way.
            measurement_set = []
            return measurement_set
""", """        n_circuits = len(circuits)
        if n_circuits != len(n_samples):
            raise ValueError("Number of samples must be given for each circuit.")
        if self.supports_batching:
            self.number_of_circuits_run += n_circuits
            if isinstance(self.batch_size, int):
                self.number_of_jobs_run += int(np.ceil(n_circuits / self.batch_size))
            return []
        return [
            self.run_circuit_and_measure(circuit, n_samples=samples)
            for circuit, samples in zip(circuits, n_samples)
        ]
"""),
("""        measurements = self.run_circuit_and_measure(circuit, n_samples)
        return measurements.get_distribution()
    def get_bitstring_distribution(
        self, circuit: Circuit, n_samples: int
    ) -> BitstringDistribution:
""", """        return self.run_circuit_and_measure(circuit, n_samples).get_distribution()

    def get_bitstring_distribution(
        self, circuit: Circuit, n_samples: int
    ) -> BitstringDistribution:
"""),
("""        state: StateVector
        if initial_state is None:
            state = np.zeros(2**circuit.n_qubits)
            state[0] = 1
        else:
            state = initial_state
        for is_supported""", """        state: StateVector = (
            self._zero_state(circuit.n_qubits)
            if initial_state is None
            else initial_state
        )
        for is_supported"""),
("""    def get_wavefunction(
        self, circuit: Circuit, initial_state""", """    @staticmethod
    def _zero_state(n_qubits: int) -> np.ndarray:
        state = np.zeros(2**n_qubits)
        state[0] = 1
        return state

    def get_wavefunction(
        self, circuit: Circuit, initial_state"""),
("""        expectation_values = ExpectationValues(
            np.array([get_expectation_value(term, wavefunction) for term in operator])
        )
        expectation_values = expectation_values_to_real(expectation_values)
        return expectation_values
""", """        values = []
        for term in operator:
            values.append(get_expectation_value(term, wavefunction))
        return expectation_values_to_real(ExpectationValues(np.array(values)))
"""),
("""        if n_samples is None:
            wavefunction = self.get_wavefunction(circuit)
            return create_bitstring_distribution_from_probability_distribution(
                wavefunction.get_probabilities()
            )
        else:
            # Get the expectation values
            measurements = self.run_circuit_and_measure(circuit, n_samples)
            return measurements.get_distribution()
""", """        if n_samples is not None:
            measurements = self.run_circuit_and_measure(circuit, n_samples)
            return measurements.get_distribution()
        probabilities = self.get_wavefunction(circuit).get_probabilities()
        return create_bitstring_distribution_from_probability_distribution(
            probabilities
        )
"""))
TR = "trackers.py"
R(TR, ("""            "number_of_shots": len(measurement.bitstrings),
        }
        if self.record_bitstrings:
            raw_data_dict["bitstrings"] = [
                list(map(int, list(bitstring))) for bitstring in measurement.bitstrings
            ]
        self.raw_data.append(raw_data_dict)
""", """            "number_of_shots": len(measurement.bitstrings),
        }
        if self.record_bitstrings:
            bitstrings = []
            for bitstring in measurement.bitstrings:
                bitstrings.append([int(bit) for bit in bitstring])
            raw_data_dict["bitstrings"] = bitstrings
        self.raw_data.append(raw_data_dict)
"""),
("""        distribution = self.inner_backend.get_bitstring_distribution(circuit, n_samples)
        self.raw_data.append(
            {
                "data_type": "bitstring distribution",
                "device": self.type,
                "circuit": to_dict(circuit),
                "distribution": repr(distribution),
                "number_of_gates": len(circuit.operations),
                "number_of_shots": n_samples,
            }
        )
        self.save_raw_data()
        return distribution
""", """        distribution = self.inner_backend.get_bitstring_distribution(circuit, n_samples)
        self._record_distribution(
            "bitstring distribution", circuit, distribution, n_samples
        )
        return distribution

    def _record_distribution(self, data_type, circuit, distribution, n_samples):
        self.raw_data.append(
            {
                "data_type": data_type,
                "device": self.type,
                "circuit": to_dict(circuit),
                "distribution": repr(distribution),
                "number_of_gates": len(circuit.operations),
                "number_of_shots": n_samples,
            }
        )
        self.save_raw_data()
"""),
("""        self.raw_data.append(
            {
                "data_type": "measurement outcome distribution",
                "device": self.type,
                "circuit": to_dict(circuit),
                "distribution": repr(distribution),
                "number_of_gates": len(circuit.operations),
                "number_of_shots": n_samples,
            }
        )
        self.save_raw_data()
        return distribution
""", """        self._record_distribution(
            "measurement outcome distribution", circuit, distribution, n_samples
        )
        return distribution
"""),
("""        with open(self.raw_data_file_name, "w+") as f:
            data = {
                "schema": SCHEMA_VERSION + "-raw-data",
                "raw-data": self.raw_data,
            }
            f.write(json.dumps(data))
""", """        data = {
            "schema": f"{SCHEMA_VERSION}-raw-data",
            "raw-data": self.raw_data,
        }
        with open(self.raw_data_file_name, "w+") as f:
            json.dump(data, f)
"""))
