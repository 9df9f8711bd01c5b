import itertools
from zquantum.core.openfermion.ops.operators import FermionOperator, QubitOperator
from zquantum.core.openfermion.ops.representations import InteractionOperator
from zquantum.core.openfermion.utils.operator_utils import count_qubits

def jordan_wigner(operator):
    if isinstance(operator, FermionOperator):
        return _jordan_wigner_fermion_operator(operator)
    if isinstance(operator, InteractionOperator):
        return _jordan_wigner_interaction_op(operator)
    raise TypeError('Operator must be a FermionOperator, or InteractionOperator.')

def _jordan_wigner_fermion_operator(operator):
    transformed_operator = QubitOperator()
    for term in operator.terms:
        transformed_term = QubitOperator((), operator.terms[term])
        for ladder_operator in term:
            z_factors = tuple(((index, 'Z') for index in range(ladder_operator[0])))
            pauli_x_component = QubitOperator(z_factors + ((ladder_operator[0], 'X'),), 0.5)
            if ladder_operator[1]:
                pauli_y_component = QubitOperator(z_factors + ((ladder_operator[0], 'Y'),), -0.5j)
            else:
                pauli_y_component = QubitOperator(z_factors + ((ladder_operator[0], 'Y'),), 0.5j)
            transformed_term *= pauli_x_component + pauli_y_component
        transformed_operator += transformed_term
    return transformed_operator

def _jordan_wigner_interaction_op(iop, n_qubits=None):
    if n_qubits is None:
        n_qubits = count_qubits(iop)
    if n_qubits < count_qubits(iop):
        raise ValueError('Invalid number of qubits specified.')
    qubit_operator = QubitOperator((), iop.constant)
    for p in range(n_qubits):
        coefficient = iop[(p, 1), (p, 0)]
        qubit_operator += jordan_wigner_one_body(p, p, coefficient)
    for p, q in itertools.combinations(range(n_qubits), 2):
        coefficient = 0.5 * (iop[(p, 1), (q, 0)] + iop[(q, 1), (p, 0)].conjugate())
        qubit_operator += jordan_wigner_one_body(p, q, coefficient)
        coefficient = iop[(p, 1), (q, 1), (p, 0), (q, 0)] - iop[(p, 1), (q, 1), (q, 0), (p, 0)] - iop[(q, 1), (p, 1), (p, 0), (q, 0)] + iop[(q, 1), (p, 1), (q, 0), (p, 0)]
        qubit_operator += jordan_wigner_two_body(p, q, p, q, coefficient)
    for (p, q), (r, s) in itertools.combinations(itertools.combinations(range(n_qubits), 2), 2):
        coefficient = 0.5 * (iop[(p, 1), (q, 1), (r, 0), (s, 0)] + iop[(s, 1), (r, 1), (q, 0), (p, 0)].conjugate() - iop[(p, 1), (q, 1), (s, 0), (r, 0)] - iop[(r, 1), (s, 1), (q, 0), (p, 0)].conjugate() - iop[(q, 1), (p, 1), (r, 0), (s, 0)] - iop[(s, 1), (r, 1), (p, 0), (q, 0)].conjugate() + iop[(q, 1), (p, 1), (s, 0), (r, 0)] + iop[(r, 1), (s, 1), (p, 0), (q, 0)].conjugate())
        qubit_operator += jordan_wigner_two_body(p, q, r, s, coefficient)
    return qubit_operator

def jordan_wigner_one_body(p, q, coefficient=1.0):
    qubit_operator = QubitOperator()
    if p != q:
        if p > q:
            p, q = (q, p)
            coefficient = coefficient.conjugate()
        parity_string = tuple(((z, 'Z') for z in range(p + 1, q)))
        for c, (op_a, op_b) in [(coefficient.real, 'XX'), (coefficient.real, 'YY'), (coefficient.imag, 'YX'), (-coefficient.imag, 'XY')]:
            operators = ((p, op_a),) + parity_string + ((q, op_b),)
            qubit_operator += QubitOperator(operators, 0.5 * c)
    else:
        qubit_operator += QubitOperator((), 0.5 * coefficient)
        qubit_operator += QubitOperator(((p, 'Z'),), -0.5 * coefficient)
    return qubit_operator

def jordan_wigner_two_body(p, q, r, s, coefficient=1.0):
    qubit_operator = QubitOperator()
    if p == q or r == s:
        return qubit_operator
    elif len(set([p, q, r, s])) == 4:
        if (p > q) ^ (r > s):
            coefficient *= -1
        for ops in itertools.product('XY', repeat=4):
            if ops.count('X') % 2:
                coeff = 0.125 * coefficient.imag
                if ''.join(ops) in ['XYXX', 'YXXX', 'YYXY', 'YYYX']:
                    coeff *= -1
            else:
                coeff = 0.125 * coefficient.real
                if ''.join(ops) not in ['XXYY', 'YYXX']:
                    coeff *= -1
            if not coeff:
                continue
            [(a, operator_a), (b, operator_b), (c, operator_c), (d, operator_d)] = sorted(zip([p, q, r, s], ops))
            operators = ((a, operator_a),)
            operators += tuple(((z, 'Z') for z in range(a + 1, b)))
            operators += ((b, operator_b),)
            operators += ((c, operator_c),)
            operators += tuple(((z, 'Z') for z in range(c + 1, d)))
            operators += ((d, operator_d),)
            qubit_operator += QubitOperator(operators, coeff)
    elif len(set([p, q, r, s])) == 3:
        if p == r:
            if q > s:
                a, b = (s, q)
                coefficient = -coefficient.conjugate()
            else:
                a, b = (q, s)
                coefficient = -coefficient
            c = p
        elif p == s:
            if q > r:
                a, b = (r, q)
                coefficient = coefficient.conjugate()
            else:
                a, b = (q, r)
            c = p
        elif q == r:
            if p > s:
                a, b = (s, p)
                coefficient = coefficient.conjugate()
            else:
                a, b = (p, s)
            c = q
        elif q == s:
            if p > r:
                a, b = (r, p)
                coefficient = -coefficient.conjugate()
            else:
                a, b = (p, r)
                coefficient = -coefficient
            c = q
        parity_string = tuple(((z, 'Z') for z in range(a + 1, b)))
        pauli_z = QubitOperator(((c, 'Z'),))
        for c, (op_a, op_b) in [(coefficient.real, 'XX'), (coefficient.real, 'YY'), (coefficient.imag, 'YX'), (-coefficient.imag, 'XY')]:
            operators = ((a, op_a),) + parity_string + ((b, op_b),)
            if not c:
                continue
            hopping_term = QubitOperator(operators, c / 4)
            qubit_operator -= pauli_z * hopping_term
            qubit_operator += hopping_term
    elif len(set([p, q, r, s])) == 2:
        if p == s:
            coeff = -0.25 * coefficient
        else:
            coeff = 0.25 * coefficient
        qubit_operator -= QubitOperator((), coeff)
        qubit_operator += QubitOperator(((p, 'Z'),), coeff)
        qubit_operator += QubitOperator(((q, 'Z'),), coeff)
        qubit_operator -= QubitOperator(((min(q, p), 'Z'), (max(q, p), 'Z')), coeff)
    return qubit_operator
