import itertools
import numpy
from zquantum.core.openfermion.config import EQ_TOLERANCE
from zquantum.core.openfermion.ops.representations.polynomial_tensor import PolynomialTensor

class InteractionOperatorError(Exception):
    pass

class InteractionOperator(PolynomialTensor):

    def __init__(self, constant, one_body_tensor, two_body_tensor):
        super(InteractionOperator, self).__init__({(): constant, (1, 0): one_body_tensor, (1, 1, 0, 0): two_body_tensor})

    @property
    def one_body_tensor(self):
        return self.n_body_tensors[1, 0]

    @one_body_tensor.setter
    def one_body_tensor(self, value):
        self.n_body_tensors[1, 0] = value

    @property
    def two_body_tensor(self):
        return self.n_body_tensors[1, 1, 0, 0]

    @two_body_tensor.setter
    def two_body_tensor(self, value):
        self.n_body_tensors[1, 1, 0, 0] = value

    def unique_iter(self, complex_valued=False):
        if self.constant:
            yield ()
        for p in range(self.n_qubits):
            for q in range(p + 1):
                if self.one_body_tensor[p, q]:
                    yield ((p, 1), (q, 0))
        seen = set()
        for quad in itertools.product(range(self.n_qubits), repeat=4):
            if self.two_body_tensor[quad] and quad not in seen:
                seen |= set(_symmetric_two_body_terms(quad, complex_valued))
                yield tuple(zip(quad, (1, 1, 0, 0)))

    @classmethod
    def zero(cls, n_qubits):
        return cls(0, numpy.zeros((n_qubits,) * 2, dtype=numpy.complex128), numpy.zeros((n_qubits,) * 4, dtype=numpy.complex128))

    def projected(self, indices, exact=False):
        projected_n_body_tensors = self.projected_n_body_tensors(indices, exact)
        return type(self)(*(projected_n_body_tensors[key] for key in [(), (1, 0), (1, 1, 0, 0)]))

    def with_function_applied_elementwise(self, func):
        return type(self)(*(func(tensor) for tensor in [self.constant, self.one_body_tensor, self.two_body_tensor]))

def _symmetric_two_body_terms(quad, complex_valued):
    p, q, r, s = quad
    yield (p, q, r, s)
    yield (q, p, s, r)
    yield (s, r, q, p)
    yield (r, s, p, q)
    if not complex_valued:
        yield (p, s, r, q)
        yield (q, r, s, p)
        yield (s, p, q, r)
        yield (r, q, p, s)

def get_tensors_from_integrals(one_body_integrals, two_body_integrals):
    n_qubits = 2 * one_body_integrals.shape[0]
    one_body_coefficients = numpy.zeros((n_qubits, n_qubits))
    two_body_coefficients = numpy.zeros((n_qubits, n_qubits, n_qubits, n_qubits))
    for p in range(n_qubits // 2):
        for q in range(n_qubits // 2):
            one_body_coefficients[2 * p, 2 * q] = one_body_integrals[p, q]
            one_body_coefficients[2 * p + 1, 2 * q + 1] = one_body_integrals[p, q]
            for r in range(n_qubits // 2):
                for s in range(n_qubits // 2):
                    two_body_coefficients[2 * p, 2 * q + 1, 2 * r + 1, 2 * s] = two_body_integrals[p, q, r, s] / 2.0
                    two_body_coefficients[2 * p + 1, 2 * q, 2 * r, 2 * s + 1] = two_body_integrals[p, q, r, s] / 2.0
                    two_body_coefficients[2 * p, 2 * q, 2 * r, 2 * s] = two_body_integrals[p, q, r, s] / 2.0
                    two_body_coefficients[2 * p + 1, 2 * q + 1, 2 * r + 1, 2 * s + 1] = two_body_integrals[p, q, r, s] / 2.0
    one_body_coefficients[numpy.absolute(one_body_coefficients) < EQ_TOLERANCE] = 0.0
    two_body_coefficients[numpy.absolute(two_body_coefficients) < EQ_TOLERANCE] = 0.0
    return (one_body_coefficients, two_body_coefficients)

def get_active_space_integrals(one_body_integrals, two_body_integrals, occupied_indices=None, active_indices=None):
    occupied_indices = [] if occupied_indices is None else occupied_indices
    if len(active_indices) < 1:
        raise ValueError('Some active indices required for reduction.')
    core_constant = 0.0
    for i in occupied_indices:
        core_constant += 2 * one_body_integrals[i, i]
        for j in occupied_indices:
            core_constant += 2 * two_body_integrals[i, j, j, i] - two_body_integrals[i, j, i, j]
    one_body_integrals_new = numpy.copy(one_body_integrals)
    for u in active_indices:
        for v in active_indices:
            for i in occupied_indices:
                one_body_integrals_new[u, v] += 2 * two_body_integrals[i, u, v, i] - two_body_integrals[i, u, i, v]
    return (core_constant, one_body_integrals_new[numpy.ix_(active_indices, active_indices)], two_body_integrals[numpy.ix_(active_indices, active_indices, active_indices, active_indices)])
