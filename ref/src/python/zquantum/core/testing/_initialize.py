import random
import numpy as np
from zquantum.core.openfermion.ops import IsingOperator, QubitOperator
from zquantum.core.wavefunction import Wavefunction

def create_random_qubitop(nqubits, nterms, seed=None):
    NUM_QUBITS = range(0, nqubits)
    if seed is not None:
        random.seed(seed)
    qubitop = QubitOperator()
    for i in range(0, nterms):
        num_paulis = random.choice(range(nqubits + 1))
        qubits = []
        full_term = ''
        for j in range(0, num_paulis):
            qubit_index = random.choice(NUM_QUBITS)
            while qubit_index in qubits:
                qubit_index = random.choice(NUM_QUBITS)
            qubits.append(qubit_index)
            pauli_gate = random.choice(['X', 'Y', 'Z'])
            full_term += pauli_gate + str(qubit_index) + ' '
        qubitop += QubitOperator(full_term)
    return qubitop

def create_random_isingop(nqubits, nterms, seed=None):
    NUM_QUBITS = range(0, nqubits)
    if seed is not None:
        random.seed(seed)
    isingop = IsingOperator()
    for i in range(0, nterms):
        num_paulis = random.choice(range(nqubits + 1))
        qubits = []
        full_term = ''
        for j in range(0, num_paulis):
            qubit_index = random.choice(NUM_QUBITS)
            while qubit_index in qubits:
                qubit_index = random.choice(NUM_QUBITS)
            qubits.append(qubit_index)
            pauli_gate = 'Z'
            full_term += pauli_gate + str(qubit_index) + ' '
        isingop += IsingOperator(full_term)
    return isingop

def create_random_wavefunction(n_qubits, seed=None):
    if seed:
        np.random.seed(seed)
    random_vector = [complex(a, b) for a, b in zip(np.random.rand(2 ** n_qubits), np.random.rand(2 ** n_qubits))]
    normalization_factor = np.sqrt(np.sum(np.abs(random_vector) ** 2))
    random_vector /= normalization_factor
    return Wavefunction(random_vector)
