import itertools
from functools import reduce
import numpy
import numpy.linalg
import scipy
import scipy.sparse
import scipy.sparse.linalg
from zquantum.core.openfermion.ops.operators import FermionOperator, QubitOperator
from zquantum.core.openfermion.ops.representations import PolynomialTensor
from zquantum.core.openfermion.transforms.opconversions import normal_ordered
from zquantum.core.openfermion.utils.operator_utils import count_qubits, is_hermitian
identity_csc = scipy.sparse.identity(2, format='csc', dtype=complex)
pauli_x_csc = scipy.sparse.csc_matrix([[0.0, 1.0], [1.0, 0.0]], dtype=complex)
pauli_y_csc = scipy.sparse.csc_matrix([[0.0, -1j], [1j, 0.0]], dtype=complex)
pauli_z_csc = scipy.sparse.csc_matrix([[1.0, 0.0], [0.0, -1.0]], dtype=complex)
q_raise_csc = (pauli_x_csc - 1j * pauli_y_csc) / 2.0
q_lower_csc = (pauli_x_csc + 1j * pauli_y_csc) / 2.0
pauli_matrix_map = {'I': identity_csc, 'X': pauli_x_csc, 'Y': pauli_y_csc, 'Z': pauli_z_csc}

def wrapped_kronecker(operator_1, operator_2):
    return scipy.sparse.kron(operator_1, operator_2, 'csc')

def kronecker_operators(*args):
    return reduce(wrapped_kronecker, *args)

def jordan_wigner_ladder_sparse(n_qubits, tensor_factor, ladder_type):
    parities = tensor_factor * [pauli_z_csc]
    identities = [scipy.sparse.identity(2 ** (n_qubits - tensor_factor - 1), dtype=complex, format='csc')]
    if ladder_type:
        operator = kronecker_operators(parities + [q_raise_csc] + identities)
    else:
        operator = kronecker_operators(parities + [q_lower_csc] + identities)
    return operator

def jordan_wigner_sparse(fermion_operator, n_qubits=None):
    if n_qubits is None:
        n_qubits = count_qubits(fermion_operator)
    jw_operators = []
    for tensor_factor in range(n_qubits):
        jw_operators += [(jordan_wigner_ladder_sparse(n_qubits, tensor_factor, 0), jordan_wigner_ladder_sparse(n_qubits, tensor_factor, 1))]
    n_hilbert = 2 ** n_qubits
    values_list = [[]]
    row_list = [[]]
    column_list = [[]]
    for term in fermion_operator.terms:
        coefficient = fermion_operator.terms[term]
        sparse_matrix = coefficient * scipy.sparse.identity(2 ** n_qubits, dtype=complex, format='csc')
        for ladder_operator in term:
            sparse_matrix = sparse_matrix * jw_operators[ladder_operator[0]][ladder_operator[1]]
        if coefficient:
            sparse_matrix = sparse_matrix.tocoo(copy=False)
            values_list.append(sparse_matrix.data)
            row, column = sparse_matrix.nonzero()
            row_list.append(row)
            column_list.append(column)
    values_list = numpy.concatenate(values_list)
    row_list = numpy.concatenate(row_list)
    column_list = numpy.concatenate(column_list)
    sparse_operator = scipy.sparse.coo_matrix((values_list, (row_list, column_list)), shape=(n_hilbert, n_hilbert)).tocsc(copy=False)
    sparse_operator.eliminate_zeros()
    return sparse_operator

def qubit_operator_sparse(qubit_operator, n_qubits=None):
    if n_qubits is None:
        n_qubits = count_qubits(qubit_operator)
    if n_qubits < count_qubits(qubit_operator):
        raise ValueError('Invalid number of qubits specified.')
    n_hilbert = 2 ** n_qubits
    values_list = [[]]
    row_list = [[]]
    column_list = [[]]
    for qubit_term in qubit_operator.terms:
        tensor_factor = 0
        coefficient = qubit_operator.terms[qubit_term]
        sparse_operators = [coefficient]
        for pauli_operator in qubit_term:
            if pauli_operator[0] > tensor_factor:
                identity_qubits = pauli_operator[0] - tensor_factor
                identity = scipy.sparse.identity(2 ** identity_qubits, dtype=complex, format='csc')
                sparse_operators += [identity]
            sparse_operators += [pauli_matrix_map[pauli_operator[1]]]
            tensor_factor = pauli_operator[0] + 1
        if tensor_factor < n_qubits or not qubit_term:
            identity_qubits = n_qubits - tensor_factor
            identity = scipy.sparse.identity(2 ** identity_qubits, dtype=complex, format='csc')
            sparse_operators += [identity]
        sparse_matrix = kronecker_operators(sparse_operators)
        values_list.append(sparse_matrix.tocoo(copy=False).data)
        column, row = sparse_matrix.nonzero()
        column_list.append(column)
        row_list.append(row)
    values_list = numpy.concatenate(values_list)
    row_list = numpy.concatenate(row_list)
    column_list = numpy.concatenate(column_list)
    sparse_operator = scipy.sparse.coo_matrix((values_list, (row_list, column_list)), shape=(n_hilbert, n_hilbert)).tocsc(copy=False)
    sparse_operator.eliminate_zeros()
    return sparse_operator

def jw_configuration_state(occupied_orbitals, n_qubits):
    one_index = sum((2 ** (n_qubits - 1 - i) for i in occupied_orbitals))
    basis_vector = numpy.zeros(2 ** n_qubits, dtype=float)
    basis_vector[one_index] = 1
    return basis_vector

def jw_hartree_fock_state(n_electrons, n_orbitals):
    hartree_fock_state = jw_configuration_state(range(n_electrons), n_orbitals)
    return hartree_fock_state

def jw_number_indices(n_electrons, n_qubits):
    occupations = itertools.combinations(range(n_qubits), n_electrons)
    indices = [sum([2 ** n for n in occupation]) for occupation in occupations]
    return indices

def jw_number_restrict_operator(operator, n_electrons, n_qubits=None):
    if n_qubits is None:
        n_qubits = int(numpy.log2(operator.shape[0]))
    select_indices = jw_number_indices(n_electrons, n_qubits)
    return operator[numpy.ix_(select_indices, select_indices)]

def jw_get_ground_state_at_particle_number(sparse_operator, particle_number):
    n_qubits = int(numpy.log2(sparse_operator.shape[0]))
    restricted_operator = jw_number_restrict_operator(sparse_operator, particle_number, n_qubits)
    if restricted_operator.shape[0] - 1 <= 1:
        dense_restricted_operator = restricted_operator.toarray()
        eigvals, eigvecs = numpy.linalg.eigh(dense_restricted_operator)
    else:
        eigvals, eigvecs = scipy.sparse.linalg.eigsh(restricted_operator, k=1, which='SA')
    state = eigvecs[:, 0]
    expanded_state = numpy.zeros(2 ** n_qubits, dtype=complex)
    expanded_state[jw_number_indices(particle_number, n_qubits)] = state
    return (eigvals[0], expanded_state)

def get_density_matrix(states, probabilities):
    n_qubits = states[0].shape[0]
    density_matrix = scipy.sparse.csc_matrix((n_qubits, n_qubits), dtype=complex)
    for state, probability in zip(states, probabilities):
        state = scipy.sparse.csc_matrix(state.reshape((len(state), 1)))
        density_matrix = density_matrix + probability * state * state.getH()
    return density_matrix

def get_ground_state(sparse_operator, initial_guess=None):
    values, vectors = scipy.sparse.linalg.eigsh(sparse_operator, k=1, v0=initial_guess, which='SA', maxiter=10000000.0)
    order = numpy.argsort(values)
    values = values[order]
    vectors = vectors[:, order]
    eigenvalue = values[0]
    eigenstate = vectors[:, 0]
    return (eigenvalue, eigenstate.T)

def eigenspectrum(operator, n_qubits=None):
    sparse_operator = get_sparse_operator(operator, n_qubits)
    spectrum = sparse_eigenspectrum(sparse_operator)
    return spectrum

def sparse_eigenspectrum(sparse_operator):
    dense_operator = sparse_operator.todense()
    if is_hermitian(sparse_operator):
        eigenspectrum = numpy.linalg.eigvalsh(dense_operator)
    else:
        eigenspectrum = numpy.linalg.eigvals(dense_operator)
    return numpy.sort(eigenspectrum)

def expectation(operator, state):
    if isinstance(state, scipy.sparse.spmatrix):
        if isinstance(operator, scipy.sparse.linalg.LinearOperator):
            raise ValueError('Taking the expectation of a LinearOperator with a density matrix is not supported.')
        product = state * operator
        expectation = numpy.sum(product.diagonal())
    elif isinstance(state, numpy.ndarray):
        if len(state.shape) == 1:
            expectation = numpy.dot(numpy.conjugate(state), operator * state)
        else:
            expectation = numpy.dot(numpy.conjugate(state.T), operator * state)[0, 0]
    else:
        raise ValueError('Input state must be a numpy array or a sparse matrix.')
    return expectation

def inner_product(state_1, state_2):
    return numpy.dot(state_1.conjugate(), state_2)

def get_sparse_operator(operator, n_qubits=None, trunc=None, hbar=1.0):
    from zquantum.core.openfermion.transforms.opconversions import get_fermion_operator
    if isinstance(operator, PolynomialTensor):
        return jordan_wigner_sparse(get_fermion_operator(operator), n_qubits)
    elif isinstance(operator, FermionOperator):
        return jordan_wigner_sparse(operator, n_qubits)
    elif isinstance(operator, QubitOperator):
        return qubit_operator_sparse(operator, n_qubits)
    else:
        raise TypeError('Failed to convert a {} to a sparse matrix.'.format(type(operator).__name__))

def get_number_preserving_sparse_operator(fermion_op, num_qubits, num_electrons, spin_preserving=False, reference_determinant=None, excitation_level=None):
    if reference_determinant is None:
        reference_determinant = numpy.array([i < num_electrons for i in range(num_qubits)])
    else:
        reference_determinant = numpy.asarray(reference_determinant)
    if excitation_level is None:
        excitation_level = num_electrons
    state_array = numpy.asarray(list(_iterate_basis_(reference_determinant, excitation_level, spin_preserving)))
    int_state_array = state_array.dot(1 << numpy.arange(state_array.shape[1])[::-1])
    sorting_indices = numpy.argsort(int_state_array)
    space_size = state_array.shape[0]
    fermion_op = normal_ordered(fermion_op)
    sparse_op = scipy.sparse.csc_matrix((space_size, space_size), dtype=float)
    for term, coefficient in fermion_op.terms.items():
        if len(term) == 0:
            constant = coefficient * scipy.sparse.identity(space_size, dtype=float, format='csc')
            sparse_op += constant
        else:
            term_op = _build_term_op_(term, state_array, int_state_array, sorting_indices)
            sparse_op += coefficient * term_op
    return sparse_op

def _iterate_basis_(reference_determinant, excitation_level, spin_preserving):
    if not spin_preserving:
        for order in range(excitation_level + 1):
            for determinant in _iterate_basis_order_(reference_determinant, order):
                yield determinant
    else:
        alpha_excitation_level = min((numpy.sum(reference_determinant[::2]), excitation_level))
        beta_excitation_level = min((numpy.sum(reference_determinant[1::2]), excitation_level))
        for order in range(excitation_level + 1):
            for alpha_order in range(alpha_excitation_level + 1):
                beta_order = order - alpha_order
                if beta_order < 0 or beta_order > beta_excitation_level:
                    continue
                for determinant in _iterate_basis_spin_order_(reference_determinant, alpha_order, beta_order):
                    yield determinant

def _iterate_basis_order_(reference_determinant, order):
    occupied_indices = numpy.where(reference_determinant)[0]
    unoccupied_indices = numpy.where(numpy.invert(reference_determinant))[0]
    for occ_ind, unocc_ind in itertools.product(itertools.combinations(occupied_indices, order), itertools.combinations(unoccupied_indices, order)):
        basis_state = reference_determinant.copy()
        occ_ind = list(occ_ind)
        unocc_ind = list(unocc_ind)
        basis_state[occ_ind] = False
        basis_state[unocc_ind] = True
        yield basis_state

def _iterate_basis_spin_order_(reference_determinant, alpha_order, beta_order):
    occupied_alpha_indices = numpy.where(reference_determinant[::2])[0] * 2
    unoccupied_alpha_indices = numpy.where(numpy.invert(reference_determinant[::2]))[0] * 2
    occupied_beta_indices = numpy.where(reference_determinant[1::2])[0] * 2 + 1
    unoccupied_beta_indices = numpy.where(numpy.invert(reference_determinant[1::2]))[0] * 2 + 1
    for alpha_occ_ind, alpha_unocc_ind, beta_occ_ind, beta_unocc_ind in itertools.product(itertools.combinations(occupied_alpha_indices, alpha_order), itertools.combinations(unoccupied_alpha_indices, alpha_order), itertools.combinations(occupied_beta_indices, beta_order), itertools.combinations(unoccupied_beta_indices, beta_order)):
        basis_state = reference_determinant.copy()
        alpha_occ_ind = list(alpha_occ_ind)
        alpha_unocc_ind = list(alpha_unocc_ind)
        beta_occ_ind = list(beta_occ_ind)
        beta_unocc_ind = list(beta_unocc_ind)
        basis_state[alpha_occ_ind] = False
        basis_state[alpha_unocc_ind] = True
        basis_state[beta_occ_ind] = False
        basis_state[beta_unocc_ind] = True
        yield basis_state

def _build_term_op_(term, state_array, int_state_array, sorting_indices):
    space_size = state_array.shape[0]
    needs_to_be_occupied = []
    needs_to_be_unoccupied = []
    delta = 0
    for index, op_type in reversed(term):
        if op_type == 0:
            needs_to_be_occupied.append(index)
            delta -= 1
        else:
            if index not in needs_to_be_occupied:
                needs_to_be_unoccupied.append(index)
            delta += 1
    if delta != 0:
        raise ValueError("The supplied operator doesn't preserve particle number")
    maybe_valid_states = numpy.where(numpy.logical_and(numpy.all(state_array[:, needs_to_be_occupied], axis=1), numpy.logical_not(numpy.any(state_array[:, needs_to_be_unoccupied], axis=1))))[0]
    data = []
    row_ind = []
    col_ind = []
    shape = (space_size, space_size)
    for _, state in enumerate(maybe_valid_states):
        determinant = state_array[state, :]
        target_determinant = determinant.copy()
        parity = 1
        for i, _ in reversed(term):
            area_to_check = target_determinant[0:i]
            parity *= (-1) ** numpy.sum(area_to_check)
            target_determinant[i] = not target_determinant[i]
        int_encoding = target_determinant.dot(1 << numpy.arange(target_determinant.size)[::-1])
        target_state_index_sorted = numpy.searchsorted(int_state_array, int_encoding, sorter=sorting_indices)
        if target_state_index_sorted == len(sorting_indices):
            continue
        target_state = sorting_indices[target_state_index_sorted]
        if int_state_array[target_state] == int_encoding:
            data.append(parity)
            row_ind.append(target_state)
            col_ind.append(state)
    data = numpy.asarray(data)
    row_ind = numpy.asarray(row_ind)
    col_ind = numpy.asarray(col_ind)
    term_op = scipy.sparse.csc_matrix((data, (row_ind, col_ind)), shape=shape)
    return term_op
