ZU = "openfermion/zapata_utils/_utils.py"
R(ZU, ('''    if not (((nrows & (nrows - 1)) == 0) and nrows > 0):
        raise Exception("The number of rows is not a power of 2")
    if not (((ncols & (ncols - 1)) == 0) and ncols > 0):
        raise Exception("The number of cols is not a power of 2")
''', '''    def is_power_of_two(number):
        return number > 0 and (number & (number - 1)) == 0

    if not is_power_of_two(nrows):
        raise Exception("The number of rows is not a power of 2")
    if not is_power_of_two(ncols):
        raise Exception("The number of cols is not a power of 2")
'''), ('''        output_label = list(np.zeros(n))
        for i in range(0, n):
            output_label[i] = bin2dec(bit_string[2 * i : 2 * i + 2])

        return output_label
''', '''        return [bin2dec(bit_string[2 * i : 2 * i + 2]) for i in range(n)]
'''), ('''            val_nz = 1.0
            j_str = dec2bin(j, n)
            for index in range(0, n):
                if label_vec[index] == 2:
                    if j_str[index] == 0:
                        val_nz = val_nz * (1j)
                    if j_str[index] == 1:
                        val_nz = val_nz * (-1j)
                if label_vec[index] == 3:
                    if j_str[index] == 1:
                        val_nz = val_nz * (-1)
            return val_nz
''', '''            val_nz = 1.0
            j_str = dec2bin(j, n)
            for index in range(n):
                label, bit = label_vec[index], j_str[index]
                if label == 2 and bit == 0:
                    val_nz *= 1j
                if label == 2 and bit == 1:
                    val_nz *= -1j
                if label == 3 and bit == 1:
                    val_nz *= -1
            return val_nz
'''), ('''        tr = 0.0
        for j in range(0, 2**n):  # loop over the columns
            tr = tr + operator[j][f(j)] * nz(j)

        return tr / 2**n
''', '''        dimension = 2**n
        trace = 0.0
        for j in range(dimension):
            trace += nz(j) * operator[j][f(j)]

        return trace / dimension
'''), ('''    output = QubitOperator()
    for i in range(0, len(labels)):
        string_term = ""
        for ind, elem in enumerate(labels[i]):
            pauli_symbol = ""
            if elem == 1:
                pauli_symbol = "X" + str(ind) + " "
            if elem == 2:
                pauli_symbol = "Y" + str(ind) + " "
            if elem == 3:
                pauli_symbol = "Z" + str(ind) + " "
            string_term += pauli_symbol

        output += coeffs[i] * QubitOperator(string_term)

    return output
''', '''    output = QubitOperator()
    for i, label in enumerate(labels):
        string_term = ""
        for ind, elem in enumerate(label):
            if elem == 1:
                string_term += f"X{ind} "
            elif elem == 2:
                string_term += f"Y{ind} "
            elif elem == 3:
                string_term += f"Z{ind} "

        output += coeffs[i] * QubitOperator(string_term)

    return output
'''), ('''        coeffs = list(np.zeros(nterms))
        for j in range(0, nterms):
            coeffs[j] = random.uniform(-max_coeff, max_coeff)
''', '''        coeffs = [random.uniform(-max_coeff, max_coeff) for _ in range(nterms)]
'''), ('''    total = 0

    # Add all non-trivial terms
    term_index = 0
    for term in qubit_operator.terms:
        total += np.real(
            qubit_operator.terms[term] * expectation_values.values[term_index]
        )
        term_index += 1

    value_estimate = ValueEstimate(total)
    return value_estimate
''', '''    total = 0

    # Add all non-trivial terms
    for term_index, (_, coefficient) in enumerate(qubit_operator.terms.items()):
        total += np.real(coefficient * expectation_values.values[term_index])

    return ValueEstimate(total)
'''), ('''    if n_qubits is None:
        n_qubits = count_qubits(qubit_operator)
    if n_qubits < count_qubits(qubit_operator):
        raise ValueError("Invalid number of qubits specified.")

    for term in qubit_operator.terms:
        new_term = []
        for factor in term:
            new_factor = list(factor)
            new_factor[0] = n_qubits - 1 - new_factor[0]
            new_term.append(tuple(new_factor))
        reversed_op += QubitOperator(tuple(new_term), qubit_operator.terms[term])
    return reversed_op
''', '''    n_used = count_qubits(qubit_operator)
    if n_qubits is None:
        n_qubits = n_used
    if n_used > n_qubits:
        raise ValueError("Invalid number of qubits specified.")

    for term, coefficient in qubit_operator.terms.items():
        new_term = tuple((n_qubits - 1 - qubit, pauli) for qubit, pauli in term)
        reversed_op += QubitOperator(new_term, coefficient)
    return reversed_op
'''), ('''    if reverse_operator:
        qubit_op = reverse_qubit_order(qubit_op, n_qubits=n_qubits)
    sparse_op = get_sparse_operator(qubit_op, n_qubits=n_qubits)

    # Computer the expectation value
    exp_val = openfermion_expectation(sparse_op, wavefunction.amplitudes)
    return exp_val
''', '''    operator = (
        reverse_qubit_order(qubit_op, n_qubits=n_qubits)
        if reverse_operator
        else qubit_op
    )
    sparse_op = get_sparse_operator(operator, n_qubits=n_qubits)
    return openfermion_expectation(sparse_op, wavefunction.amplitudes)
'''), ('''    new_operator = operatorType()
    for op in operator.terms:
        new_operator += operatorType(tuple(op), operator.terms[op])

    return new_operator
''', '''    new_operator = operatorType()
    for term, coefficient in operator.terms.items():
        new_operator += operatorType(tuple(term), coefficient)
    return new_operator
'''), ('''    operator = number_operator(n_qubits)
    if n_particles is not None:
        operator += FermionOperator("", -1.0 * float(n_particles))
    return get_interaction_operator(operator)
''', '''    operator = number_operator(n_qubits)
    if n_particles is None:
        return get_interaction_operator(operator)
    operator += FermionOperator("", -float(n_particles))
    return get_interaction_operator(operator)
'''))
SO = "openfermion/ops/operators/symbolic_operator.py"
R(SO, ('''        if isinstance(term, (list, tuple)):
            term = self._parse_sequence(term)
        # String input
        elif isinstance(term, str):
            term = self._parse_string(term)
        # Invalid input type
        else:
            raise ValueError("term specified incorrectly.")
''', '''        if isinstance(term, str):
            term = self._parse_string(term)
        elif isinstance(term, (list, tuple)):
            term = self._parse_sequence(term)
        else:
            raise ValueError("term specified incorrectly.")
'''), ('''            coef *= coefficient

            # Parse the term, simpify it and add to the dict
            term = self._parse_string(match[1])
            coef, term = self._simplify(term, coefficient=coef)
            if term not in self.terms:
                self.terms[term] = coef
            else:
                self.terms[term] += coef
''', '''            # Parse the term, simpify it and add to the dict
            term = self._parse_string(match[1])
            coef, term = self._simplify(term, coefficient=coef * coefficient)
            self.terms[term] = self.terms.get(term, 0) + coef
'''), ('''        if not term:
            # Empty sequence
            return ()
        elif isinstance(term[0], int):
            # Single factor
            self._validate_factor(term)
            return (tuple(term),)
        else:
            # Check that all factors in the term are valid
            for factor in term:
                self._validate_factor(factor)

            # Return a tuple
            return tuple(term)
''', '''        if len(term) == 0:
            return ()
        factors = (tuple(term),) if isinstance(term[0], int) else tuple(term)
        for factor in factors:
            self._validate_factor(factor)
        return factors
'''), ('''            if action_string in self.action_strings:
                action = self.actions[self.action_strings.index(action_string)]
            else:
                raise ValueError(
                    "Invalid action in factor {}. "
                    "Valid actions are: {}".format(factor, self.action_strings)
                )

            # Add the factor to the list as a tuple
            processed_term.append((index, action))
''', '''            if action_string not in self.action_strings:
                raise ValueError(
                    "Invalid action in factor {}. "
                    "Valid actions are: {}".format(factor, self.action_strings)
                )

            action_position = self.action_strings.index(action_string)
            processed_term.append((index, self.actions[action_position]))
'''), ('''        if not self.terms:
            return "0"
        string_rep = ""
        for term, coeff in sorted(self.terms.items()):
            if self._issmall(coeff):
                continue
            tmp_string = "{} [".format(coeff)
            for factor in term:
                index, action = factor
                action_string = self.action_strings[self.actions.index(action)]
                if self.action_before_index:
                    tmp_string += "{}{} ".format(action_string, index)
                else:
                    tmp_string += "{}{} ".format(index, action_string)
            string_rep += "{}] +\\n".format(tmp_string.strip())
        return string_rep[:-3]
''', '''        if not self.terms:
            return "0"
        string_rep = ""
        for term, coeff in sorted(self.terms.items()):
            if not self._issmall(coeff):
                tmp_string = f"{coeff} ["
                for index, action in term:
                    action_string = self.action_strings[self.actions.index(action)]
                    if self.action_before_index:
                        tmp_string += f"{action_string}{index} "
                    else:
                        tmp_string += f"{index}{action_string} "
                string_rep += f"{tmp_string.strip()}] +\\n"
        return string_rep[:-3]
'''), ('''            for left_term in self.terms:
                for right_term in multiplier.terms:
                    left_coefficient = self.terms[left_term]
                    right_coefficient = multiplier.terms[right_term]

                    new_coefficient = left_coefficient * right_coefficient
                    new_term = left_term + right_term

                    new_coefficient, new_term = self._simplify(
                        new_term, coefficient=new_coefficient
                    )

                    # Update result dict.
                    if new_term in result_terms:
                        result_terms[new_term] += new_coefficient
                    else:
                        result_terms[new_term] = new_coefficient
''', '''            for left_term, left_coefficient in self.terms.items():
                for right_term, right_coefficient in multiplier.terms.items():
                    new_coefficient, new_term = self._simplify(
                        left_term + right_term,
                        coefficient=left_coefficient * right_coefficient,
                    )

                    # Update result dict.
                    if new_term not in result_terms:
                        result_terms[new_term] = new_coefficient
                    else:
                        result_terms[new_term] += new_coefficient
'''), ('''        if isinstance(multiplier, COEFFICIENT_TYPES + (type(self),)):
            product = copy.deepcopy(self)
            product *= multiplier
            return product
        else:
            raise TypeError(
                "Object of invalid type cannot multiply with " + type(self) + "."
            )
''', '''        if not isinstance(multiplier, COEFFICIENT_TYPES + (type(self),)):
            raise TypeError(
                "Object of invalid type cannot multiply with " + type(self) + "."
            )
        product = copy.deepcopy(self)
        product *= multiplier
        return product
'''), ('''            for term in list(addend.terms):
                self.terms[term] = self.terms.get(term, 0.0) + addend.terms[term]
                if self._issmall(self.terms[term]):
                    del self.terms[term]
        elif''', '''            for term, coefficient in list(addend.terms.items()):
                new_coefficient = self.terms.get(term, 0.0) + coefficient
                self.terms[term] = new_coefficient
                if self._issmall(new_coefficient):
                    del self.terms[term]
        elif'''), ('''            for term in list(subtrahend.terms):
                self.terms[term] = self.terms.get(term, 0.0) - subtrahend.terms[term]
                if self._issmall(self.terms[term]):
                    del self.terms[term]
        elif''', '''            for term in tuple(subtrahend.terms):
                difference = self.terms.get(term, 0.0) - subtrahend.terms[term]
                if self._issmall(difference):
                    self.terms.pop(term, None)
                else:
                    self.terms[term] = difference
        elif'''))
