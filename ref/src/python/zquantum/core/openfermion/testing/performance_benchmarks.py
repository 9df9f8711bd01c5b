import logging
import time
import numpy
from zquantum.core.openfermion.hamiltonians import jellium_model
from zquantum.core.openfermion.linalg import LinearQubitOperator, LinearQubitOperatorOptions, ParallelLinearQubitOperator, jordan_wigner_sparse
from zquantum.core.openfermion.ops import FermionOperator, QubitOperator
from zquantum.core.openfermion.testing.testing_utils import random_interaction_operator
from zquantum.core.openfermion.transforms import commutator_ordered_diagonal_coulomb_with_two_body_operator
from zquantum.core.openfermion.transforms.opconversions import get_fermion_operator, jordan_wigner, normal_ordered
from zquantum.core.openfermion.utils import Grid, commutator

def benchmark_molecular_operator_jordan_wigner(n_qubits):
    molecular_operator = random_interaction_operator(n_qubits)
    start = time.time()
    _ = jordan_wigner(molecular_operator)
    end = time.time()
    runtime = end - start
    return runtime

def benchmark_fermion_math_and_normal_order(n_qubits, term_length, power):
    operators_a = [(numpy.random.randint(n_qubits), numpy.random.randint(2))]
    operators_b = [(numpy.random.randint(n_qubits), numpy.random.randint(2))]
    for _ in range(term_length):
        operator_a = (numpy.random.randint(n_qubits), numpy.random.randint(2))
        while operator_a == operators_a[-1]:
            operator_a = (numpy.random.randint(n_qubits), numpy.random.randint(2))
        operators_a += [operator_a]
        operator_b = (numpy.random.randint(n_qubits), numpy.random.randint(2))
        while operator_b == operators_b[-1]:
            operator_b = (numpy.random.randint(n_qubits), numpy.random.randint(2))
        operators_b += [operator_b]
    fermion_term_a = FermionOperator(tuple(operators_a), float(numpy.random.randn()))
    fermion_term_b = FermionOperator(tuple(operators_b), float(numpy.random.randn()))
    fermion_operator = fermion_term_a + fermion_term_b
    start_time = time.time()
    fermion_operator **= power
    runtime_math = time.time() - start_time
    start_time = time.time()
    normal_ordered(fermion_operator)
    runtime_normal_order = time.time() - start_time
    return (runtime_math, runtime_normal_order)

def benchmark_jordan_wigner_sparse(n_qubits):
    molecular_operator = random_interaction_operator(n_qubits)
    fermion_operator = get_fermion_operator(molecular_operator)
    start_time = time.time()
    _ = jordan_wigner_sparse(fermion_operator)
    runtime = time.time() - start_time
    return runtime

def benchmark_linear_qubit_operator(n_qubits, n_terms, processes=None):
    map_int_to_operator = {0: 'X', 1: 'Y', 2: 'Z'}
    qubit_operator = QubitOperator.zero()
    for _ in range(n_terms):
        tuples = []
        for i in range(n_qubits):
            operator = numpy.random.randint(4)
            if operator > 2:
                continue
            tuples.append((i, map_int_to_operator[operator]))
        if tuples:
            qubit_operator += QubitOperator(tuples, 1.0)
    start = time.time()
    if processes is None:
        linear_operator = LinearQubitOperator(qubit_operator, n_qubits)
    else:
        linear_operator = ParallelLinearQubitOperator(qubit_operator, n_qubits, LinearQubitOperatorOptions(processes=processes))
    end = time.time()
    runtime_operator = end - start
    vec = numpy.random.rand(2 ** n_qubits)
    start = time.time()
    _ = linear_operator * vec
    end = time.time()
    runtime_matvec = end - start
    return (runtime_operator, runtime_matvec)

def benchmark_commutator_diagonal_coulomb_operators_2D_spinless_jellium(side_length):
    hamiltonian = normal_ordered(jellium_model(Grid(2, side_length, 1.0), plane_wave=False))
    part_a = FermionOperator.zero()
    part_b = FermionOperator.zero()
    add_to_a_or_b = 0
    for term, coeff in hamiltonian.terms.items():
        if add_to_a_or_b:
            part_a += FermionOperator(term, coeff)
        else:
            part_b += FermionOperator(term, coeff)
        add_to_a_or_b ^= 1
    start = time.time()
    _ = normal_ordered(commutator(part_a, part_b))
    end = time.time()
    runtime_commutator = end - start
    start = time.time()
    _ = commutator_ordered_diagonal_coulomb_with_two_body_operator(part_a, part_b)
    end = time.time()
    runtime_diagonal_commutator = end - start
    return (runtime_commutator, runtime_diagonal_commutator)

def run_molecular_operator_jordan_wigner(n_qubits=18):
    logging.info('Starting test on InteractionOperator.jordan_wigner_transform()')
    logging.info('n_qubits = %d.', n_qubits)
    runtime = benchmark_molecular_operator_jordan_wigner(n_qubits)
    logging.info('InteractionOperator.jordan_wigner_transform() takes %f seconds.\n', runtime)
    return runtime

def run_fermion_math_and_normal_order(n_qubits=20, term_length=10, power=15):
    logging.info('Starting test on FermionOperator math and normal ordering.')
    logging.info('(n_qubits, term_length, power) = (%d, %d, %d).', n_qubits, term_length, power)
    runtime_math, runtime_normal = benchmark_fermion_math_and_normal_order(n_qubits, term_length, power)
    logging.info('Math took %f seconds. Normal ordering took %f seconds.\n', runtime_math, runtime_normal)
    return (runtime_math, runtime_normal)

def run_jordan_wigner_sparse(n_qubits=10):
    logging.info('Starting test on FermionOperator.jordan_wigner_sparse().')
    logging.info('n_qubits = %d.', n_qubits)
    runtime = benchmark_jordan_wigner_sparse(n_qubits)
    logging.info('Construction of SparseOperator took %f seconds.\n', runtime)
    return runtime

def run_linear_qubit_operator(n_qubits=16, n_terms=10, processes=10):
    logging.info('Starting test on linear_qubit_operator().')
    logging.info('(n_qubits, n_terms) = (%d, %d).', n_qubits, n_terms)
    _, runtime_sequential = benchmark_linear_qubit_operator(n_qubits, n_terms)
    _, runtime_parallel = benchmark_linear_qubit_operator(n_qubits, n_terms, processes)
    logging.info('LinearQubitOperator took %f seconds, while ParallelQubitOperator took %f seconds with %d processes, and ratio is %.2f.\n', runtime_sequential, runtime_parallel, processes, runtime_sequential / runtime_parallel)
    return (runtime_sequential, runtime_parallel)

def run_diagonal_commutator(side_length=4):
    logging.info('Starting test on commutator_ordered_diagonal_coulomb_with_two_body_operator().')
    runtime_commutator, runtime_diagonal_commutator = benchmark_commutator_diagonal_coulomb_operators_2D_spinless_jellium(side_length=side_length)
    logging.info('Regular commutator computation took %f seconds, while commutator_ordered_diagonal_coulomb_with_two_body_operator took %f seconds. Ratio is %.2f.\n', runtime_commutator, runtime_diagonal_commutator, runtime_commutator / runtime_diagonal_commutator)
    return (runtime_commutator, runtime_diagonal_commutator)
