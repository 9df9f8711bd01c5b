import itertools
import random
from typing import Iterable, List, Optional
import numpy as np
from zquantum.core.circuits import Circuit, X, Y, Z
from zquantum.core.measurement import ExpectationValues
from zquantum.core.openfermion import FermionOperator, InteractionOperator, InteractionRDM, PolynomialTensor, QubitOperator, count_qubits
from zquantum.core.openfermion import expectation as openfermion_expectation
from zquantum.core.openfermion import get_interaction_operator, get_sparse_operator, normal_ordered
from zquantum.core.openfermion.hamiltonians.special_operators import number_operator
from zquantum.core.openfermion.linalg import jw_get_ground_state_at_particle_number
from zquantum.core.openfermion.transforms import freeze_orbitals, get_fermion_operator
from zquantum.core.utils import ValueEstimate, bin2dec, dec2bin
from zquantum.core.wavefunction import Wavefunction

def get_qubitop_from_matrix(operator: List[List]) -> QubitOperator:
    nrows = len(operator)
    ncols = len(operator[0])
    if nrows != ncols:
        raise Exception('The input operator is not square')
    if not (nrows & nrows - 1 == 0 and nrows > 0):
        raise Exception('The number of rows is not a power of 2')
    if not (ncols & ncols - 1 == 0 and ncols > 0):
        raise Exception('The number of cols is not a power of 2')
    n = int(np.log2(nrows))

    def decode(bit_string):
        if len(bit_string) != 2 * n:
            raise Exception('LH_expand:decode: input bit string length not 2n')
        output_label = list(np.zeros(n))
        for i in range(0, n):
            output_label[i] = bin2dec(bit_string[2 * i:2 * i + 2])
        return output_label

    def trace_product(label_vec):

        def f(j):
            j_str = dec2bin(j, n)
            for index in range(0, n):
                if label_vec[index] in [1, 2]:
                    j_str[index] = int(not j_str[index])
            return bin2dec(j_str)

        def nz(j):
            val_nz = 1.0
            j_str = dec2bin(j, n)
            for index in range(0, n):
                if label_vec[index] == 2:
                    if j_str[index] == 0:
                        val_nz = val_nz * 1j
                    if j_str[index] == 1:
                        val_nz = val_nz * -1j
                if label_vec[index] == 3:
                    if j_str[index] == 1:
                        val_nz = val_nz * -1
            return val_nz
        tr = 0.0
        for j in range(0, 2 ** n):
            tr = tr + operator[j][f(j)] * nz(j)
        return tr / 2 ** n
    coeffs = list(np.zeros(4 ** n))
    labels = list(np.zeros(4 ** n))
    for i in range(0, 4 ** n):
        current_string = dec2bin(i, 2 * n)
        current_label = decode(current_string)
        coeffs[i] = trace_product(current_label)
        labels[i] = current_label
    return get_qubitop_from_coeffs_and_labels(coeffs, labels)

def get_qubitop_from_coeffs_and_labels(coeffs: List[float], labels: List[List[int]]) -> QubitOperator:
    output = QubitOperator()
    for i in range(0, len(labels)):
        string_term = ''
        for ind, elem in enumerate(labels[i]):
            pauli_symbol = ''
            if elem == 1:
                pauli_symbol = 'X' + str(ind) + ' '
            if elem == 2:
                pauli_symbol = 'Y' + str(ind) + ' '
            if elem == 3:
                pauli_symbol = 'Z' + str(ind) + ' '
            string_term += pauli_symbol
        output += coeffs[i] * QubitOperator(string_term)
    return output

def generate_random_qubitop(nqubits: int, nterms: int, nlocality: int, max_coeff: float, fixed_coeff: bool=False) -> QubitOperator:
    if fixed_coeff:
        coeffs = [max_coeff] * nterms
    else:
        coeffs = list(np.zeros(nterms))
        for j in range(0, nterms):
            coeffs[j] = random.uniform(-max_coeff, max_coeff)
    labels = list(np.zeros(nterms, dtype=int))
    label_set = set()
    j = 0
    while j < nterms:
        inds_nontrivial = sorted(random.sample(range(0, nqubits), nlocality))
        label = list(np.zeros(nqubits, dtype=int))
        for ind in inds_nontrivial:
            label[ind] = random.randint(1, 3)
        if str(label) not in label_set:
            labels[j] = label
            j += 1
            label_set.add(str(label))
    return get_qubitop_from_coeffs_and_labels(coeffs, labels)

def evaluate_qubit_operator(qubit_operator: QubitOperator, expectation_values: ExpectationValues) -> ValueEstimate:
    total = 0
    term_index = 0
    for term in qubit_operator.terms:
        total += np.real(qubit_operator.terms[term] * expectation_values.values[term_index])
        term_index += 1
    value_estimate = ValueEstimate(total)
    return value_estimate

def evaluate_qubit_operator_list(qubit_operator_list: List[QubitOperator], expectation_values: ExpectationValues) -> ValueEstimate:
    total = 0
    term_index = 0
    for qubit_operator in qubit_operator_list:
        for term in qubit_operator.terms:
            total += np.real(qubit_operator.terms[term] * expectation_values.values[term_index])
            term_index += 1
    value_estimate = ValueEstimate(total)
    return value_estimate

def reverse_qubit_order(qubit_operator: QubitOperator, n_qubits: Optional[int]=None):
    reversed_op = QubitOperator()
    if n_qubits is None:
        n_qubits = count_qubits(qubit_operator)
    if n_qubits < count_qubits(qubit_operator):
        raise ValueError('Invalid number of qubits specified.')
    for term in qubit_operator.terms:
        new_term = []
        for factor in term:
            new_factor = list(factor)
            new_factor[0] = n_qubits - 1 - new_factor[0]
            new_term.append(tuple(new_factor))
        reversed_op += QubitOperator(tuple(new_term), qubit_operator.terms[term])
    return reversed_op

def get_expectation_value(qubit_op: QubitOperator, wavefunction: Wavefunction, reverse_operator: bool=False) -> complex:
    n_qubits = wavefunction.amplitudes.shape[0].bit_length() - 1
    if reverse_operator:
        qubit_op = reverse_qubit_order(qubit_op, n_qubits=n_qubits)
    sparse_op = get_sparse_operator(qubit_op, n_qubits=n_qubits)
    exp_val = openfermion_expectation(sparse_op, wavefunction.amplitudes)
    return exp_val

def change_operator_type(operator, operatorType):
    new_operator = operatorType()
    for op in operator.terms:
        new_operator += operatorType(tuple(op), operator.terms[op])
    return new_operator

def get_fermion_number_operator(n_qubits, n_particles=None):
    operator = number_operator(n_qubits)
    if n_particles is not None:
        operator += FermionOperator('', -1.0 * float(n_particles))
    return get_interaction_operator(operator)

def get_diagonal_component(operator):
    if isinstance(operator, InteractionOperator):
        return _get_diagonal_component_interaction_operator(operator)
    elif isinstance(operator, PolynomialTensor):
        return _get_diagonal_component_polynomial_tensor(operator)
    else:
        raise TypeError(f'Getting diagonal component not supported for {0}'.format(type(operator)))

def _get_diagonal_component_polynomial_tensor(polynomial_tensor):
    n_modes = count_qubits(polynomial_tensor)
    remainder_tensors = {}
    diagonal_tensors = {}
    diagonal_tensors[()] = polynomial_tensor.constant
    for key in polynomial_tensor.n_body_tensors:
        if key == ():
            continue
        remainder_tensors[key] = np.zeros((n_modes,) * len(key), complex)
        diagonal_tensors[key] = np.zeros((n_modes,) * len(key), complex)
        for indices in itertools.product(range(n_modes), repeat=len(key)):
            creation_counts = {}
            annihilation_counts = {}
            for meta_index, index in enumerate(indices):
                if key[meta_index] == 0:
                    if annihilation_counts.get(index) is None:
                        annihilation_counts[index] = 1
                    else:
                        annihilation_counts[index] += 1
                elif key[meta_index] == 1:
                    if creation_counts.get(index) is None:
                        creation_counts[index] = 1
                    else:
                        creation_counts[index] += 1
            term_is_diagonal = True
            for index in creation_counts:
                if creation_counts[index] != annihilation_counts.get(index):
                    term_is_diagonal = False
                    break
            if term_is_diagonal:
                for index in annihilation_counts:
                    if annihilation_counts[index] != creation_counts.get(index):
                        term_is_diagonal = False
                        break
            if term_is_diagonal:
                diagonal_tensors[key][indices] = polynomial_tensor.n_body_tensors[key][indices]
            else:
                remainder_tensors[key][indices] = polynomial_tensor.n_body_tensors[key][indices]
    return (PolynomialTensor(diagonal_tensors), PolynomialTensor(remainder_tensors))

def _get_diagonal_component_interaction_operator(interaction_operator):
    one_body_tensor = np.zeros(interaction_operator.one_body_tensor.shape, dtype=complex)
    two_body_tensor = np.zeros(interaction_operator.two_body_tensor.shape, dtype=complex)
    diagonal_op = InteractionOperator(interaction_operator.constant, one_body_tensor, two_body_tensor)
    one_body_tensor = np.copy(interaction_operator.one_body_tensor).astype(complex)
    two_body_tensor = np.copy(interaction_operator.two_body_tensor).astype(complex)
    remainder_op = InteractionOperator(0.0, one_body_tensor, two_body_tensor)
    n_spin_orbitals = interaction_operator.two_body_tensor.shape[0]
    for p in range(n_spin_orbitals):
        for q in range(n_spin_orbitals):
            diagonal_op.two_body_tensor[p, q, p, q] = interaction_operator.two_body_tensor[p, q, p, q]
            diagonal_op.two_body_tensor[p, q, q, p] = interaction_operator.two_body_tensor[p, q, q, p]
            remainder_op.two_body_tensor[p, q, p, q] = 0.0
            remainder_op.two_body_tensor[p, q, q, p] = 0.0
    for p in range(n_spin_orbitals):
        diagonal_op.one_body_tensor[p, p] = interaction_operator.one_body_tensor[p, p]
        remainder_op.one_body_tensor[p, p] = 0.0
    return (diagonal_op, remainder_op)

def get_polynomial_tensor(fermion_operator, n_qubits=None):
    if not isinstance(fermion_operator, FermionOperator):
        raise TypeError('Input must be a FermionOperator.')
    if n_qubits is None:
        n_qubits = count_qubits(fermion_operator)
    if n_qubits < count_qubits(fermion_operator):
        raise ValueError('Invalid number of qubits specified.')
    fermion_operator = normal_ordered(fermion_operator)
    tensor_dict = {}
    for term in fermion_operator.terms:
        coefficient = fermion_operator.terms[term]
        if len(term) == 0:
            tensor_dict[()] = coefficient
        else:
            key = tuple([operator[1] for operator in term])
            if tensor_dict.get(key) is None:
                tensor_dict[key] = np.zeros((n_qubits,) * len(key), complex)
            indices = tuple([operator[0] for operator in term])
            tensor_dict[key][indices] = coefficient
    return PolynomialTensor(tensor_dict)

def create_circuits_from_qubit_operator(qubit_operator: QubitOperator) -> List[Circuit]:
    pauli_terms = list(qubit_operator.terms.keys())
    term_gate_map = {'X': X, 'Y': Y, 'Z': Z}
    circuit_set = []
    for term in pauli_terms:
        circuit = Circuit()
        for pauli in term:
            pauli_index = pauli[0]
            pauli_factor = pauli[1]
            circuit += term_gate_map[pauli_factor](pauli_index)
        circuit_set += [circuit]
    return circuit_set

def get_ground_state_rdm_from_qubit_op(qubit_operator: QubitOperator, n_particles: int) -> InteractionRDM:
    sparse_operator = get_sparse_operator(qubit_operator)
    e, ground_state_wf = jw_get_ground_state_at_particle_number(sparse_operator, n_particles)
    n_qubits = count_qubits(qubit_operator)
    one_body_tensor_list = []
    for i in range(n_qubits):
        for j in range(n_qubits):
            idag_j = get_sparse_operator(FermionOperator(f'{i}^ {j}'), n_qubits=n_qubits)
            idag_j = idag_j.toarray()
            one_body_tensor_list.append(np.conjugate(ground_state_wf) @ idag_j @ ground_state_wf)
    one_body_tensor = np.array(one_body_tensor_list)
    one_body_tensor = one_body_tensor.reshape(n_qubits, n_qubits)
    two_body_tensor = np.zeros((n_qubits,) * 4, dtype=complex)
    for p in range(n_qubits):
        for q in range(0, p + 1):
            for r in range(n_qubits):
                for s in range(0, r + 1):
                    pdag_qdag_r_s = get_sparse_operator(FermionOperator(f'{p}^ {q}^ {r} {s}'), n_qubits=n_qubits)
                    pdag_qdag_r_s = pdag_qdag_r_s.toarray()
                    rdm_element = np.conjugate(ground_state_wf) @ pdag_qdag_r_s @ ground_state_wf
                    two_body_tensor[p, q, r, s] = rdm_element
                    two_body_tensor[q, p, r, s] = -rdm_element
                    two_body_tensor[q, p, s, r] = rdm_element
                    two_body_tensor[p, q, s, r] = -rdm_element
    return InteractionRDM(one_body_tensor, two_body_tensor)

def remove_inactive_orbitals(interaction_op: InteractionOperator, n_active: int=None, n_core: int=0) -> InteractionOperator:
    fermion_op = get_fermion_operator(interaction_op)
    occupied = range(2 * n_core)
    unoccupied: Iterable
    if n_active is not None:
        unoccupied = range(2 * n_core + 2 * n_active, interaction_op.one_body_tensor.shape[0])
    else:
        unoccupied = []
    frozen_fermion_op = freeze_orbitals(fermion_op, occupied, unoccupied)
    frozen_interaction_op = get_interaction_operator(frozen_fermion_op)
    return frozen_interaction_op

def hf_rdm(n_alpha: int, n_beta: int, n_orbitals: int) -> InteractionRDM:
    occ = np.zeros(2 * n_orbitals)
    occ[:2 * n_alpha:2] = 1
    occ[1:2 * n_beta + 1:2] = 1
    one_body_tensor = np.diag(occ)
    two_body_tensor = np.zeros([2 * n_orbitals for i in range(4)])
    for i in range(2 * n_orbitals):
        for j in range(2 * n_orbitals):
            if i != j and occ[i] and occ[j]:
                two_body_tensor[i, j, j, i] = 1
                two_body_tensor[i, j, i, j] = -1
    return InteractionRDM(one_body_tensor, two_body_tensor)
