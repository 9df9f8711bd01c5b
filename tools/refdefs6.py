G = "circuits/_gates.py"
R(G, ('''        return (
            _lift_matrix_sympy(self.gate.matrix, self.qubit_indices, num_qubits)
            if self.gate.free_symbols
            else _lift_matrix_numpy(self.gate.matrix, self.qubit_indices, num_qubits)
        )
''', '''        matrix, indices = self.gate.matrix, self.qubit_indices
        if not self.gate.free_symbols:
            return _lift_matrix_numpy(matrix, indices, num_qubits)
        return _lift_matrix_sympy(matrix, indices, num_qubits)
'''), ('''        num_qubits = np.log2(len(amplitude_vector))
        if 2**num_qubits != len(amplitude_vector):
            raise ValueError(
                "GateOperation can only be applied to multi-qubit state vector but "
                f"vector of length {len(amplitude_vector)} was provided."
            )

        return self.lifted_matrix(int(num_qubits)) @ amplitude_vector
''', '''        num_qubits = np.log2(len(amplitude_vector))
        if 2**num_qubits == len(amplitude_vector):
            return np.matmul(self.lifted_matrix(int(num_qubits)), amplitude_vector)
        raise ValueError(
            "GateOperation can only be applied to multi-qubit state vector but "
            "vector of length {} was provided.".format(len(amplitude_vector))
        )
'''), ('''        return f"{self.gate}({','.join(map(str, self.qubit_indices))})"
''', '''        return "{}({})".format(
            self.gate, ",".join([str(index) for index in self.qubit_indices])
        )
'''), ('''    return all(getattr(obj, attr) == getattr(other_obj, attr) for attr in attrs)
''', '''    return not any(
        not (getattr(obj, attr) == getattr(other_obj, attr)) for attr in attrs
    )
'''), ('''        if type(self) != type(other):
            return False

        if not _all_attrs_equal(
            self, other, set(self.__dataclass_fields__) - {"params"}
        ):
            return False

        if len(self.params) != len(other.params):
            return False

        return all(
            _are_matrix_elements_equal(p1, p2)
            for p1, p2 in zip(self.params, other.params)
        )
''', '''        return (
            type(self) == type(other)
            and _all_attrs_equal(
                self, other, set(self.__dataclass_fields__).difference({"params"})
            )
            and len(self.params) == len(other.params)
            and self._has_equal_params(other)
        )

    def _has_equal_params(self, other):
        for own_param, other_param in zip(self.params, other.params):
            if not _are_matrix_elements_equal(own_param, other_param):
                return False
        return True
'''), ('''        if self.num_control_qubits < 1:
            raise ValueError(
                f"Invalid number of control qubits. Got {self.num_control_qubits}"
            )
''', '''        if not self.num_control_qubits >= 1:
            message = "Invalid number of control qubits. Got "
            raise ValueError(message + str(self.num_control_qubits))
'''), ('''        return sympy.Matrix.diag(
            sympy.eye(2**self.num_qubits - 2**self.wrapped_gate.num_qubits),
            self.wrapped_gate.matrix,
        )
''', '''        target_dimension = 2**self.wrapped_gate.num_qubits
        identity_block = sympy.eye(2**self.num_qubits - target_dimension)
        return sympy.Matrix.diag(identity_block, self.wrapped_gate.matrix)
'''), ('''        return self.wrapped_gate.bind(symbols_map).controlled(self.num_control_qubits)
''', '''        bound_gate = self.wrapped_gate.bind(symbols_map)
        return bound_gate.controlled(self.num_control_qubits)
'''), ('''        return not not gate_params
''', '''        return bool(gate_params)
''') if False else ('''    return not not gate_params
''', '''    return bool(gate_params)
'''))
M = "measurement.py"
R(M, ('''    dictionary = expectation_values.to_dict()
    dictionary["schema"] = SCHEMA_VERSION + "-expectation_values"

    with open(filename, "w") as f:
        f.write(json.dumps(dictionary, indent=2))
''', '''    schema = f"{SCHEMA_VERSION}-expectation_values"
    contents = json.dumps({**expectation_values.to_dict(), "schema": schema}, indent=2)
    with open(filename, "w") as f:
        f.write(contents)
'''), ('''    wavefunction = Wavefunction(convert_dict_to_array(data["amplitudes"]))
    return wavefunction
''', '''    amplitudes = convert_dict_to_array(data["amplitudes"])
    return Wavefunction(amplitudes)
'''), ('''    data: Dict[str, Any] = {"schema": SCHEMA_VERSION + "-wavefunction"}
    data["amplitudes"] = convert_array_to_dict(wavefunction.amplitudes)
    with''', '''    data: Dict[str, Any] = dict(
        schema=SCHEMA_VERSION + "-wavefunction",
        amplitudes=convert_array_to_dict(wavefunction.amplitudes),
    )
    with'''), ('''        data: Dict[str, Any] = {"values": convert_array_to_dict(self.values)}
        if self.correlations:
            data["correlations"] = [
                convert_array_to_dict(arr) for arr in self.correlations
            ]
        return data
''', '''        data: Dict[str, Any] = {}
        data["values"] = convert_array_to_dict(self.values)
        if not self.correlations:
            return data
        data["correlations"] = list(map(convert_array_to_dict, self.correlations))
        return data
'''), ('''        if data.get("correlations"):
            correlations: Optional[List] = [
                convert_dict_to_array(arr) for arr in data["correlations"]
            ]
        else:
            correlations = None
        return cls(values, correlations)


def save_parities''', '''        correlations: Optional[List] = None
        if "correlations" in data and data["correlations"]:
            correlations = []
            for serialized_array in data["correlations"]:
                correlations.append(convert_dict_to_array(serialized_array))
        return cls(values, correlations)


def save_parities'''), ('''    for i in range(len(parities.values)):
        N0 = parities.values[i][0]
        N1 = parities.values[i][1]
        N = N0 + N1
        if N == 0:
            raise ValueError("There must be at least one sample for each operator")

        p = N0 / N
        value = 2.0 * p - 1.0
''', '''    for n_even, n_odd in parities.values:
        N = n_even + n_odd
        if N == 0:
            raise ValueError("There must be at least one sample for each operator")

        p = n_even / N
        value = p * 2.0 - 1.0
'''), ('''        if N >= 100 and p >= 0.1 and p <= 0.9:
            precision = 2.0 * np.sqrt(p * (1.0 - p)) / np.sqrt(N)
        else:
            # Otherwise, p=N0/N may be not a good approximation of this probability.
            # So we use an upper bound on the precision instead.
            precision = 1.0 / np.sqrt(N)
''', '''        if N < 100 or not (0.1 <= p <= 0.9):
            # Otherwise, p=N0/N may be not a good approximation of this probability.
            # So we use an upper bound on the precision instead.
            precision = 1.0 / np.sqrt(N)
        else:
            precision = 2.0 * np.sqrt(p * (1.0 - p)) / np.sqrt(N)
'''), ('''    values = []
    for _, term in enumerate(ising_operator.terms):
        marked_qubits = [op[0] for op in term]
        parity = check_parity_of_vector(bitstrings_vector, marked_qubits)

        true_parity_count: int = (parity * bitstring_counts).sum()
        false_parity_count: int = ((1 - parity) * bitstring_counts).sum()
        values.append([true_parity_count, false_parity_count])

    # Count parity occurrences for pairwise products of operators
    correlations = [np.zeros((len(ising_operator.terms), len(ising_operator.terms), 2))]
    for term1_index, term1 in enumerate(ising_operator.terms):
        for term2_index, term2 in enumerate(ising_operator.terms):
            marked_qubits_term1 = [op[0] for op in term1]
            marked_qubits_term2 = [op[0] for op in term2]

            parity1 = check_parity_of_vector(bitstrings_vector, marked_qubits_term1)
            parity2 = check_parity_of_vector(bitstrings_vector, marked_qubits_term2)
''', '''    def parity_of_term(term):
        return check_parity_of_vector(bitstrings_vector, [op[0] for op in term])

    values = []
    for term in ising_operator.terms:
        parity = parity_of_term(term)
        values.append(
            [
                (parity * bitstring_counts).sum(),
                ((1 - parity) * bitstring_counts).sum(),
            ]
        )

    # Count parity occurrences for pairwise products of operators
    n_terms = len(ising_operator.terms)
    correlations = [np.zeros((n_terms, n_terms, 2))]
    for term1_index, term1 in enumerate(ising_operator.terms):
        parity1 = parity_of_term(term1)
        for term2_index, term2 in enumerate(ising_operator.terms):
            parity2 = parity_of_term(term2)
'''), ('''    values = []
    for i, value in enumerate(expectation_values.values):
        if isinstance(value, complex):
            value = value.real
        values.append(value)
    expectation_values.values = np.array(values)
''', '''    expectation_values.values = np.array(
        [
            value.real if isinstance(value, complex) else value
            for value in expectation_values.values
        ]
    )
'''), ('''    return int("".join(str(bit) for bit in bitstring[::-1]), 2)
''', '''    reversed_bits = bitstring[::-1]
    return int("".join(map(str, reversed_bits)), base=2)
'''), ('''    result = True
    for qubit_index in marked_qubits:
        if bitstring[qubit_index] == "1" or bitstring[qubit_index] == 1:
            result = not result
    return result
''', '''    is_even = True
    for qubit_index in marked_qubits:
        bit = bitstring[qubit_index]
        if bit == 1 or bit == "1":
            is_even = not is_even
    return is_even
'''), ('''    if not marked_qubits:
        return np.ones(bitstrings_vector.shape[0])

    # Check if an even number of the marked qubits of each bitstring are in the 1 state
    bitstring_subset = bitstrings_vector[:, np.fromiter(marked_qubits, dtype=int)]
    return (bitstring_subset.sum(axis=1) + 1) % 2
''', '''    if marked_qubits:
        # Check if an even number of the marked qubits are in the 1 state
        columns = np.fromiter(marked_qubits, dtype=int)
        n_ones = np.sum(bitstrings_vector[:, columns], axis=1)
        return (1 + n_ones) % 2
    return np.ones(bitstrings_vector.shape[0])
'''), ('''    n_qubits = len([*bitstrings][0])
    all_bits = "".join(bitstrings)
''', '''    n_qubits = len(list(bitstrings)[0])
    all_bits = "".join(bitstrings)
'''), ('''    parity = (
        check_parity_of_vector(
            _convert_bitstrings_to_vector(bitstring_frequencies.keys()),
            marked_qubits,
        )
        * 2
        - 1
    )
    num_measurements = sum(bitstring_frequencies.values())
    expectation_values: np.ndarray = (
        np.fromiter(bitstring_frequencies.values(), dtype=int)
        * parity
        / num_measurements
    )

    # The item method converts a numpy float to a native Python float
    return expectation_values.sum().item()
''', '''    bitstrings_vector = _convert_bitstrings_to_vector(bitstring_frequencies.keys())
    is_even = check_parity_of_vector(bitstrings_vector, marked_qubits)
    signs = 2 * is_even - 1
    counts = np.fromiter(bitstring_frequencies.values(), dtype=int)
    num_measurements = sum(bitstring_frequencies.values())

    # The item method converts a numpy float to a native Python float
    return (counts * signs / num_measurements).sum().item()
'''))
