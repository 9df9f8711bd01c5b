import collections
import itertools
import numpy
from scipy.linalg import qr
from zquantum.core.openfermion.ops.operators import QubitOperator
from zquantum.core.openfermion.ops.representations import InteractionOperator

def random_antisymmetric_matrix(n, real=False, seed=None):
    if seed is not None:
        numpy.random.seed(seed)
    if real:
        rand_mat = numpy.random.randn(n, n)
    else:
        rand_mat = numpy.random.randn(n, n) + 1j * numpy.random.randn(n, n)
    antisymmetric_mat = rand_mat - rand_mat.T
    return antisymmetric_mat

def random_hermitian_matrix(n, real=False, seed=None):
    if seed is not None:
        numpy.random.seed(seed)
    if real:
        rand_mat = numpy.random.randn(n, n)
    else:
        rand_mat = numpy.random.randn(n, n) + 1j * numpy.random.randn(n, n)
    hermitian_mat = rand_mat + rand_mat.T.conj()
    return hermitian_mat

def random_unitary_matrix(n, real=False, seed=None):
    if seed is not None:
        numpy.random.seed(seed)
    if real:
        rand_mat = numpy.random.randn(n, n)
    else:
        rand_mat = numpy.random.randn(n, n) + 1j * numpy.random.randn(n, n)
    Q, _ = qr(rand_mat)
    return Q

def random_qubit_operator(n_qubits=16, max_num_terms=16, max_many_body_order=16, seed=None):
    prng = numpy.random.RandomState(seed)
    op = QubitOperator()
    num_terms = prng.randint(1, max_num_terms + 1)
    for _ in range(num_terms):
        many_body_order = prng.randint(max_many_body_order + 1)
        term = []
        for _ in range(many_body_order):
            index = prng.randint(n_qubits)
            action = prng.choice(('X', 'Y', 'Z'))
            term.append((index, action))
        coefficient = prng.randn()
        op += QubitOperator(term, coefficient)
    return op

def random_interaction_operator(n_orbitals, expand_spin=False, real=True, seed=None):
    if seed is not None:
        numpy.random.seed(seed)
    if real:
        dtype = float
    else:
        dtype = complex
    constant = numpy.random.randn()
    one_body_coefficients = random_hermitian_matrix(n_orbitals, real)
    two_body_coefficients = numpy.zeros((n_orbitals, n_orbitals, n_orbitals, n_orbitals), dtype)
    for p, q, r, s in itertools.product(range(n_orbitals), repeat=4):
        coeff = numpy.random.randn()
        if not real and len(set([p, q, r, s])) >= 3:
            coeff += 1j * numpy.random.randn()
        two_body_coefficients[p, q, r, s] = coeff
        two_body_coefficients[q, p, s, r] = coeff
        two_body_coefficients[s, r, q, p] = coeff.conjugate()
        two_body_coefficients[r, s, p, q] = coeff.conjugate()
        if real:
            two_body_coefficients[r, q, p, s] = coeff
            two_body_coefficients[p, s, r, q] = coeff
            two_body_coefficients[s, p, q, r] = coeff
            two_body_coefficients[q, r, s, p] = coeff
    if expand_spin:
        n_spin_orbitals = 2 * n_orbitals
        one_body_coefficients = numpy.kron(one_body_coefficients, numpy.eye(2))
        new_two_body_coefficients = numpy.zeros((n_spin_orbitals, n_spin_orbitals, n_spin_orbitals, n_spin_orbitals), dtype=complex)
        for p, q, r, s in itertools.product(range(n_orbitals), repeat=4):
            coefficient = two_body_coefficients[p, q, r, s]
            new_two_body_coefficients[2 * p, 2 * q + 1, 2 * r + 1, 2 * s] = coefficient
            new_two_body_coefficients[2 * p + 1, 2 * q, 2 * r, 2 * s + 1] = coefficient
            new_two_body_coefficients[2 * p, 2 * q, 2 * r, 2 * s] = coefficient
            new_two_body_coefficients[2 * p + 1, 2 * q + 1, 2 * r + 1, 2 * s + 1] = coefficient
        two_body_coefficients = new_two_body_coefficients
    interaction_operator = InteractionOperator(constant, one_body_coefficients, two_body_coefficients)
    return interaction_operator

class EqualsTester(object):

    def __init__(self, test_case):
        self.groups = [(_ClassUnknownToSubjects(),)]
        self.test_case = test_case

    def add_equality_group(self, *group_items):
        self.test_case.assertIsNotNone(group_items)
        for v1, v2 in itertools.product(group_items, repeat=2):
            self.test_case.assertTrue(v1 == v2)
            self.test_case.assertTrue(not v1 != v2)
            self.test_case.assertTrue(hasattr(v1, '__eq__') == hasattr(v1, '__ne__'))
            if hasattr(v1, '__eq__'):
                eq = v1.__eq__(v2)
                ne = v1.__ne__(v2)
                self.test_case.assertIn((eq, ne), [(True, False), (NotImplemented, False), (NotImplemented, NotImplemented)])
        for other_group in self.groups:
            for v1, v2 in itertools.product(group_items, other_group):
                self.test_case.assertTrue(not v1 == v2)
                self.test_case.assertTrue(v1 != v2)
                self.test_case.assertTrue(hasattr(v1, '__eq__') == hasattr(v1, '__ne__'))
                if hasattr(v1, '__eq__'):
                    eq = v1.__eq__(v2)
                    ne = v1.__ne__(v2)
                    self.test_case.assertIn((eq, ne), [(False, True), (NotImplemented, True), (NotImplemented, NotImplemented)])
        hashes = [hash(v) if isinstance(v, collections.abc.Hashable) else None for v in group_items]
        if len(set(hashes)) > 1:
            examples = ((v1, h1, v2, h2) for v1, h1 in zip(group_items, hashes) for v2, h2 in zip(group_items, hashes) if h1 != h2)
            example = next(examples)
            raise AssertionError('Items in the same group produced different hashes. Example: hash({}) is {} but hash({}) is {}.'.format(*example))
        self.groups.append(group_items)

    def make_equality_pair(self, factory):
        self.add_equality_group(factory(), factory())

class _ClassUnknownToSubjects(object):

    def __eq__(self, other):
        return isinstance(other, _ClassUnknownToSubjects)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(_ClassUnknownToSubjects)

def module_importable(module):
    import sys
    if sys.version_info >= (3, 4):
        from importlib import util
        plug_spec = util.find_spec(module)
    else:
        import pkgutil
        plug_spec = pkgutil.find_loader(module)
    if plug_spec is None:
        return False
    else:
        return True
