from itertools import product
import numpy
from zquantum.core.openfermion.ops.representations import InteractionOperator

def make_reduced_hamiltonian(molecular_hamiltonian: InteractionOperator, n_electrons: int) -> InteractionOperator:
    constant = molecular_hamiltonian.constant
    h1 = molecular_hamiltonian.one_body_tensor
    h2 = molecular_hamiltonian.two_body_tensor
    delta = numpy.eye(h1.shape[0])
    k2 = numpy.zeros_like(h2)
    normalization = 1 / (4 * (n_electrons - 1))
    for i, j, k, l in product(range(h1.shape[0]), repeat=4):
        k2[i, j, k, l] = normalization * (h1[i, l] * delta[j, k] + h1[j, k] * delta[i, l] - h1[i, k] * delta[j, l] - h1[j, l] * delta[i, k]) + h2[i, j, k, l]
    return InteractionOperator(constant, numpy.zeros_like(h1), k2)
