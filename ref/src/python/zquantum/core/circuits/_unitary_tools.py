from functools import reduce
import numpy as np
import sympy

def _permute(vector, permutation):
    return [vector[i] for i in permutation]

def _basis_bitstring(i, num_qubits):
    return [int(char) for char in bin(i)[2:].zfill(num_qubits)]

def _bitstring_to_sympy_dense_vector(state):
    basis = [sympy.Matrix([1, 0]), sympy.Matrix([0, 1])]
    return sympy.kronecker_product(*[basis[bit] for bit in state])

def _bitstring_to_numpy_dense_vector(state):
    basis = [np.array([1, 0]), np.array([0, 1])]
    return reduce(np.kron, (basis[bit] for bit in state))

def _permutation_matrix(target_indices_order, zeros, bitstring_to_dense_vector):
    num_qubits = len(target_indices_order)
    if sorted(target_indices_order) != list(range(num_qubits)):
        raise ValueError('Not all qubits given in permutation.')
    perm_matrix = zeros((2 ** num_qubits, 2 ** num_qubits))
    for i in range(2 ** num_qubits):
        input_state = _basis_bitstring(i, num_qubits)
        output_state = _permute(input_state, target_indices_order)
        perm_matrix[:, i] = bitstring_to_dense_vector(output_state)
    return perm_matrix

def _permutation_making_qubits_adjacent(qubit_indices, num_qubits):
    return list(qubit_indices) + [i for i in range(num_qubits) if i not in qubit_indices]

def _lift_matrix(matrix, qubit_indices, num_qubits, zeros, eye, kronecker_product, bitstring_to_dense_vector):
    smallest, largest = (min(qubit_indices), max(qubit_indices))
    shifted_qubits = [index - smallest for index in qubit_indices]
    inner_permutation = _permutation_making_qubits_adjacent(shifted_qubits, largest - smallest + 1)
    perm_matrix = _permutation_matrix(inner_permutation, zeros, bitstring_to_dense_vector)
    inner_gate_matrix = kronecker_product(matrix, eye(2 ** (largest - smallest - len(qubit_indices) + 1)))
    inner_matrix = perm_matrix.transpose() @ inner_gate_matrix @ perm_matrix
    return reduce(kronecker_product, [eye(2 ** smallest), inner_matrix, eye(2 ** (num_qubits - largest - 1))])

def _lift_matrix_numpy(matrix, qubits, num_qubits):
    matrix = np.array(matrix, dtype=complex)
    return _lift_matrix(matrix, qubits, num_qubits, np.zeros, np.eye, np.kron, _bitstring_to_numpy_dense_vector)

def _lift_matrix_sympy(matrix, qubits, num_qubits):
    return _lift_matrix(matrix, qubits, num_qubits, lambda size: sympy.zeros(*size), sympy.eye, sympy.kronecker_product, _bitstring_to_sympy_dense_vector)
