import math
from dataclasses import dataclass, replace
from typing import Callable, Dict, Iterable, Tuple, Union
import numpy as np
import sympy
from typing_extensions import Protocol, runtime_checkable
from zquantum.core.typing import ParameterizedVector
from ._operations import Parameter, get_free_symbols, sub_symbols
from ._unitary_tools import _lift_matrix_numpy, _lift_matrix_sympy

@runtime_checkable
class Gate(Protocol):

    @property
    def name(self) -> str:
        raise NotImplementedError()

    @property
    def params(self) -> Tuple[Parameter, ...]:
        raise NotImplementedError()

    @property
    def free_symbols(self) -> Iterable[sympy.Symbol]:
        return get_free_symbols(self.params)

    @property
    def num_qubits(self) -> int:
        raise NotImplementedError()

    @property
    def matrix(self) -> sympy.Matrix:
        raise NotImplementedError()

    def controlled(self, num_control_qubits: int) -> 'Gate':
        raise NotImplementedError()

    @property
    def dagger(self) -> 'Gate':
        raise NotImplementedError()

    def bind(self, symbols_map: Dict[sympy.Symbol, Parameter]) -> 'Gate':
        raise NotImplementedError()

    def replace_params(self, new_params: Tuple[Parameter, ...]) -> 'Gate':
        raise NotImplementedError()

    def __call__(self, *qubit_indices: int) -> 'GateOperation':
        return GateOperation(self, qubit_indices)

def gate_is_parametric(gate_ref, gate_params):
    return not not gate_params

@dataclass(frozen=True)
class GateOperation:
    gate: Gate
    qubit_indices: Tuple[int, ...]

    @property
    def params(self) -> Tuple[Parameter, ...]:
        return self.gate.params

    def bind(self, symbols_map: Dict[sympy.Symbol, Parameter]) -> 'GateOperation':
        return GateOperation(self.gate.bind(symbols_map), self.qubit_indices)

    def replace_params(self, new_params: Tuple[Parameter, ...]) -> 'GateOperation':
        return GateOperation(self.gate.replace_params(new_params), self.qubit_indices)

    def lifted_matrix(self, num_qubits):
        return _lift_matrix_sympy(self.gate.matrix, self.qubit_indices, num_qubits) if self.gate.free_symbols else _lift_matrix_numpy(self.gate.matrix, self.qubit_indices, num_qubits)

    def apply(self, amplitude_vector: ParameterizedVector) -> ParameterizedVector:
        num_qubits = np.log2(len(amplitude_vector))
        if 2 ** num_qubits != len(amplitude_vector):
            raise ValueError(f'GateOperation can only be applied to multi-qubit state vector but vector of length {len(amplitude_vector)} was provided.')
        return self.lifted_matrix(int(num_qubits)) @ amplitude_vector

    @property
    def free_symbols(self) -> Iterable[sympy.Symbol]:
        return self.gate.free_symbols

    def __str__(self):
        return f'{self.gate}({','.join(map(str, self.qubit_indices))})'

def _all_attrs_equal(obj, other_obj, attrs):
    return all((getattr(obj, attr) == getattr(other_obj, attr) for attr in attrs))

@dataclass(frozen=True)
class MatrixFactoryGate:
    name: str
    matrix_factory: Callable[..., sympy.Matrix]
    params: Tuple[Parameter, ...]
    num_qubits: int
    is_hermitian: bool = False

    @property
    def matrix(self) -> sympy.Matrix:
        return self.matrix_factory(*self.params)

    def bind(self, symbols_map) -> 'MatrixFactoryGate':
        return self.replace_params(tuple((sub_symbols(param, symbols_map) for param in self.params)))

    def replace_params(self, new_params: Tuple[Parameter, ...]) -> 'MatrixFactoryGate':
        return replace(self, params=new_params)

    def controlled(self, num_controlled_qubits: int) -> Gate:
        return ControlledGate(self, num_controlled_qubits)

    @property
    def dagger(self) -> Union['MatrixFactoryGate', Gate]:
        return self if self.is_hermitian else Dagger(self)

    def __str__(self):
        return f'{self.name}({', '.join(map(str, self.params))})' if self.params else self.name

    def __eq__(self, other):
        if type(self) != type(other):
            return False
        if not _all_attrs_equal(self, other, set(self.__dataclass_fields__) - {'params'}):
            return False
        if len(self.params) != len(other.params):
            return False
        return all((_are_matrix_elements_equal(p1, p2) for p1, p2 in zip(self.params, other.params)))

    @property
    def free_symbols(self) -> Iterable[sympy.Symbol]:
        return get_free_symbols(self.params)
    __call__ = Gate.__call__
CONTROLLED_GATE_NAME = 'Control'

@dataclass(frozen=True)
class ControlledGate(Gate):
    wrapped_gate: Gate
    num_control_qubits: int

    def __post_init__(self):
        if self.num_control_qubits < 1:
            raise ValueError(f'Invalid number of control qubits. Got {self.num_control_qubits}')

    @property
    def name(self):
        return CONTROLLED_GATE_NAME

    @property
    def num_qubits(self):
        return self.wrapped_gate.num_qubits + self.num_control_qubits

    @property
    def matrix(self):
        return sympy.Matrix.diag(sympy.eye(2 ** self.num_qubits - 2 ** self.wrapped_gate.num_qubits), self.wrapped_gate.matrix)

    @property
    def params(self):
        return self.wrapped_gate.params

    def controlled(self, num_control_qubits: int) -> 'ControlledGate':
        return ControlledGate(wrapped_gate=self.wrapped_gate, num_control_qubits=self.num_control_qubits + num_control_qubits)

    @property
    def dagger(self) -> 'ControlledGate':
        return ControlledGate(wrapped_gate=self.wrapped_gate.dagger, num_control_qubits=self.num_control_qubits)

    def bind(self, symbols_map) -> 'Gate':
        return self.wrapped_gate.bind(symbols_map).controlled(self.num_control_qubits)

    def replace_params(self, new_params: Tuple[Parameter, ...]) -> 'Gate':
        return self.wrapped_gate.replace_params(new_params).controlled(self.num_control_qubits)
DAGGER_GATE_NAME = 'Dagger'

@dataclass(frozen=True)
class Dagger(Gate):
    wrapped_gate: Gate

    @property
    def matrix(self) -> sympy.Matrix:
        return self.wrapped_gate.matrix.adjoint()

    @property
    def params(self) -> Tuple[Parameter, ...]:
        return self.wrapped_gate.params

    @property
    def num_qubits(self) -> int:
        return self.wrapped_gate.num_qubits

    @property
    def name(self):
        return DAGGER_GATE_NAME

    def controlled(self, num_control_qubits: int) -> Gate:
        return self.wrapped_gate.controlled(num_control_qubits).dagger

    def bind(self, symbols_map) -> 'Gate':
        return self.wrapped_gate.bind(symbols_map).dagger

    def replace_params(self, new_params: Tuple[Parameter, ...]) -> 'Gate':
        return self.wrapped_gate.replace_params(new_params).dagger

    @property
    def dagger(self) -> 'Gate':
        return self.wrapped_gate

def _n_qubits(matrix):
    n_qubits = math.floor(math.log2(matrix.shape[0]))
    if 2 ** n_qubits != matrix.shape[0] or 2 ** n_qubits != matrix.shape[1]:
        raise ValueError("Gate's matrix has to be square with dimension 2^N")
    return n_qubits

@dataclass(frozen=True)
class CustomGateMatrixFactory:
    gate_definition: 'CustomGateDefinition'

    @property
    def matrix(self) -> sympy.Matrix:
        return self.gate_definition.matrix

    @property
    def params_ordering(self) -> Tuple[Parameter, ...]:
        return self.gate_definition.params_ordering

    def __call__(self, *gate_params):
        return self.matrix.subs({symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)}, simultaneous=True)

    def __eq__(self, other):
        if type(self) != type(other):
            return False
        if self.params_ordering != other.params_ordering:
            return False
        if not _are_matrices_equal(self.matrix, other.matrix):
            return False
        return True

@dataclass(frozen=True)
class CustomGateDefinition:
    gate_name: str
    matrix: sympy.Matrix
    params_ordering: Tuple[sympy.Symbol, ...]

    def __post_init__(self):
        n_qubits = _n_qubits(self.matrix)
        object.__setattr__(self, '_n_qubits', n_qubits)

    def __call__(self, *gate_params):
        return MatrixFactoryGate(self.gate_name, CustomGateMatrixFactory(self), gate_params, self._n_qubits)

    def __eq__(self, other):
        if type(self) != type(other):
            return False
        if self.gate_name != other.gate_name:
            return False
        if self.params_ordering != other.params_ordering:
            return False
        if not _are_matrices_equal(self.matrix, other.matrix):
            return False
        return True

def _are_matrix_elements_equal(element, another_element):
    difference = sympy.N(sympy.expand(element) - sympy.expand(another_element))
    try:
        return np.allclose(float(sympy.re(difference)) + 1j * float(sympy.im(difference)), 0)
    except TypeError:
        return False

def _are_matrices_equal(matrix, another_matrix):
    return matrix.shape == another_matrix.shape and all((_are_matrix_elements_equal(element, another_element) for element, another_element in zip(matrix, another_matrix)))
