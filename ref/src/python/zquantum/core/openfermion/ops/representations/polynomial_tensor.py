import copy
import itertools
import operator
import numpy
from zquantum.core.openfermion.config import EQ_TOLERANCE
COEFFICIENT_TYPES = (int, float, complex)

class PolynomialTensorError(Exception):
    pass

def general_basis_change(general_tensor, rotation_matrix, key):
    n_orbitals = rotation_matrix.shape[0]
    if general_tensor.shape[0] == 2 * n_orbitals:
        rotation_matrix = numpy.kron(rotation_matrix, numpy.eye(2))
    order = len(key)
    if order > 26:
        raise ValueError('Order exceeds maximum order supported (26).')
    subscripts_first = ''.join((chr(ord('a') + i) for i in range(order)))
    subscripts_rest = ','.join((chr(ord('a') + i) + chr(ord('A') + i) for i in range(order)))
    subscripts = subscripts_first + ',' + subscripts_rest
    rotation_matrices = [rotation_matrix.conj() if x else rotation_matrix for x in key]
    transformed_general_tensor = numpy.einsum(subscripts, general_tensor, *rotation_matrices, optimize=True)
    return transformed_general_tensor

class PolynomialTensor(object):
    __hash__ = None

    def __init__(self, n_body_tensors):
        self._n_body_tensors = n_body_tensors
        if n_body_tensors is None:
            self._n_qubits = None
        else:
            key_iterator = iter(n_body_tensors.keys())
            key = next(key_iterator)
            if key == ():
                key = next(key_iterator)
            self._n_qubits = n_body_tensors[key].shape[0]

    @property
    def constant(self):
        return self.n_body_tensors.get((), 0.0)

    @constant.setter
    def constant(self, value):
        self.n_body_tensors[()] = value

    @property
    def n_body_tensors(self):
        return self._n_body_tensors

    @n_body_tensors.setter
    def n_body_tensors(self, value):
        self._n_body_tensors = value

    @property
    def n_qubits(self):
        return self._n_qubits

    def __getitem__(self, args):
        if len(args) == 0:
            return self.n_body_tensors[()]
        else:
            index = tuple([operator[0] for operator in args])
            key = tuple([operator[1] for operator in args])
            return self.n_body_tensors[key][index]

    def __setitem__(self, args, value):
        if len(args) == 0:
            self.n_body_tensors[()] = value
        else:
            key = tuple([operator[1] for operator in args])
            index = tuple([operator[0] for operator in args])
            self.n_body_tensors[key][index] = value

    def __eq__(self, other):
        if self.n_qubits != other.n_qubits:
            return False
        diff = 0.0
        self_keys = set(self.n_body_tensors.keys())
        other_keys = set(other.n_body_tensors.keys())
        for key in self_keys | other_keys:
            self_tensor = self.n_body_tensors.get(key)
            other_tensor = other.n_body_tensors.get(key)
            if self_tensor is not None and other_tensor is not None:
                discrepancy = numpy.amax(numpy.absolute(self_tensor - other_tensor))
            else:
                tensor = self_tensor if other_tensor is None else other_tensor
                discrepancy = numpy.amax(numpy.absolute(tensor))
            diff = max(diff, discrepancy)
        return diff < EQ_TOLERANCE

    def __ne__(self, other):
        return not self == other

    def __iadd__(self, addend):
        if isinstance(addend, COEFFICIENT_TYPES):
            self.constant += addend
            return self
        if not issubclass(type(addend), PolynomialTensor):
            raise TypeError('Invalid type.')
        if self.n_qubits != addend.n_qubits:
            raise TypeError('Invalid tensor shape.')
        for key in addend.n_body_tensors:
            if key in self.n_body_tensors:
                self.n_body_tensors[key] = numpy.add(self.n_body_tensors[key], addend.n_body_tensors[key])
            else:
                self.n_body_tensors[key] = copy.deepcopy(addend.n_body_tensors[key])
        return self

    def __add__(self, addend):
        summand = copy.deepcopy(self)
        summand += addend
        return summand

    def __radd__(self, addend):
        return self + addend

    def with_function_applied_elementwise(self, func):
        new_n_body_tensors = dict()
        for key in self.n_body_tensors:
            new_n_body_tensors[key] = func(self.n_body_tensors[key])
        return PolynomialTensor(new_n_body_tensors)

    def __neg__(self):
        return self.with_function_applied_elementwise(operator.neg)

    def __mod__(self, other):
        return self.with_function_applied_elementwise(lambda x: x % other)

    def __isub__(self, subtrahend):
        if isinstance(subtrahend, COEFFICIENT_TYPES):
            self.constant -= subtrahend
            return self
        if not issubclass(type(subtrahend), PolynomialTensor):
            raise TypeError('Invalid type.')
        if self.n_qubits != subtrahend.n_qubits:
            raise TypeError('Invalid tensor shape.')
        for key in subtrahend.n_body_tensors:
            if key in self.n_body_tensors:
                self.n_body_tensors[key] = numpy.subtract(self.n_body_tensors[key], subtrahend.n_body_tensors[key])
            else:
                self.n_body_tensors[key] = copy.deepcopy(subtrahend.n_body_tensors[key])
        return self

    def __sub__(self, subtrahend):
        r = copy.deepcopy(self)
        r -= subtrahend
        return r

    def __rsub__(self, subtrahend):
        return -1 * self + subtrahend

    def __imul__(self, multiplier):
        if isinstance(multiplier, COEFFICIENT_TYPES):
            for key in self.n_body_tensors:
                self.n_body_tensors[key] *= multiplier
        elif isinstance(multiplier, PolynomialTensor):
            if self.n_qubits != multiplier.n_qubits:
                raise TypeError('Invalid tensor shape.')
            for key in self.n_body_tensors:
                if key in multiplier.n_body_tensors:
                    self.n_body_tensors[key] = numpy.multiply(self.n_body_tensors[key], multiplier.n_body_tensors[key])
                elif key == ():
                    self.constant = 0.0
                else:
                    self.n_body_tensors[key] = numpy.zeros(self.n_body_tensors[key].shape)
        else:
            raise TypeError('Invalid type.')
        return self

    def __mul__(self, multiplier):
        product = copy.deepcopy(self)
        product *= multiplier
        return product

    def __rmul__(self, multiplier):
        product = copy.deepcopy(self)
        product *= multiplier
        return product

    def __itruediv__(self, dividend):
        if isinstance(dividend, COEFFICIENT_TYPES):
            for key in self.n_body_tensors:
                self.n_body_tensors[key] /= dividend
        else:
            raise TypeError('Invalid type.')
        return self

    def __truediv__(self, dividend):
        quotient = copy.deepcopy(self)
        quotient /= dividend
        return quotient

    def __iter__(self):

        def sort_key(key):
            if key == ():
                return (0, 0)
            else:
                key_int = int(''.join(map(str, key)))
                return (len(key), key_int)
        for key in sorted(self.n_body_tensors.keys(), key=sort_key):
            if key == ():
                yield ()
            else:
                n_body_tensor = self.n_body_tensors[key]
                for index in itertools.product(range(self.n_qubits), repeat=len(key)):
                    if n_body_tensor[index]:
                        yield tuple(zip(index, key))

    def __str__(self):
        strings = []
        for key in self:
            strings.append('{} {}\n'.format(key, self[key]))
        return ''.join(strings) if strings else '0'

    def rotate_basis(self, rotation_matrix):
        for key in self.n_body_tensors:
            if key == ():
                pass
            else:
                self.n_body_tensors[key] = general_basis_change(self.n_body_tensors[key], rotation_matrix, key)

    def __repr__(self):
        return str(self)

    def projected_n_body_tensors(self, selection, exact=False):
        comparator = operator.eq if exact else operator.le
        if isinstance(selection, int):
            pred = lambda index: comparator(len(set(index)), selection)
            dims = range(self.n_qubits)
        else:
            selection = set(selection)
            pred = lambda index: comparator(set(index), selection)
            dims = selection
        projected_n_body_tensors = dict()
        for key, tensor in self.n_body_tensors.items():
            if not key:
                projected_n_body_tensors[key] = tensor if not (exact and selection) else 0
                continue
            projected_tensor = numpy.zeros_like(tensor)
            for index in itertools.product(dims, repeat=len(key)):
                if pred(index):
                    projected_tensor[index] = tensor[index]
            projected_n_body_tensors[key] = projected_tensor
        return projected_n_body_tensors
