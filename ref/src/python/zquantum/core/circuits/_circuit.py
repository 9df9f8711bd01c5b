import operator
from functools import reduce, singledispatch
from itertools import groupby
from typing import Any, Callable, Dict, Iterable, List, Optional, Tuple, Union
import numpy as np
import sympy
from . import _gates, _operations

def _circuit_size_by_operations(operations):
    return 0 if not operations else max((qubit_index for operation in operations for qubit_index in operation.qubit_indices)) + 1

def _innermost_gate(operation):
    gate = getattr(operation, 'gate', None)
    while isinstance(gate, (_gates.ControlledGate, _gates.Dagger)):
        gate = gate.wrapped_gate
    return gate

def _operation_uses_custom_gate(operation):
    gate = _innermost_gate(operation)
    return isinstance(gate, _gates.MatrixFactoryGate) and isinstance(gate.matrix_factory, _gates.CustomGateMatrixFactory)

class Circuit:

    def __init__(self, operations: Optional[Iterable[_operations.Operation]]=None, n_qubits: Optional[int]=None):
        self._operations = list(operations) if operations is not None else []
        if n_qubits:
            cast_n_qubits = int(n_qubits)
            if n_qubits != cast_n_qubits:
                raise ValueError('Non-integer value passed.')
            if cast_n_qubits <= 0:
                raise ValueError('Non-positive value passed.')
            self._n_qubits = n_qubits
        else:
            self._n_qubits = _circuit_size_by_operations(self._operations)

    @property
    def operations(self):
        return self._operations

    @property
    def n_qubits(self) -> int:
        return self._n_qubits

    @property
    def free_symbols(self) -> List[sympy.Symbol]:
        seen_symbols = set()
        symbols_sequence = []
        for operation in self._operations:
            for symbol in operation.free_symbols:
                if symbol not in seen_symbols:
                    seen_symbols.add(symbol)
                    symbols_sequence.append(symbol)
        return symbols_sequence

    def __eq__(self, other: object):
        if not isinstance(other, type(self)):
            return NotImplemented
        if self.n_qubits != other.n_qubits:
            return False
        return list(self.operations) == list(other.operations)

    def __add__(self, other: Union['Circuit', _gates.GateOperation]):
        return _append_to_circuit(other, self)

    def collect_custom_gate_definitions(self) -> Iterable[_gates.CustomGateDefinition]:
        custom_gate_definitions = (_innermost_gate(operation).matrix_factory.gate_definition for operation in self.operations if _operation_uses_custom_gate(operation))
        unique_operation_dict = {}
        for gate_def in custom_gate_definitions:
            if gate_def.gate_name not in unique_operation_dict:
                unique_operation_dict[gate_def.gate_name] = gate_def
            elif unique_operation_dict[gate_def.gate_name] != gate_def:
                raise ValueError(f'Different gate definitions with the same name exist: {gate_def.gate_name}.')
        return sorted(unique_operation_dict.values(), key=operator.attrgetter('gate_name'))

    def to_unitary(self) -> Union[np.ndarray, sympy.Matrix]:
        lifted_matrices = [op.lifted_matrix(self.n_qubits) for op in reversed(self.operations)]
        return reduce(operator.matmul, lifted_matrices)

    def bind(self, symbols_map: Dict[sympy.Symbol, Any]):
        return type(self)(operations=[op.bind(symbols_map) for op in self.operations], n_qubits=self.n_qubits)

    def __repr__(self):
        return f'{type(self).__name__}(operations=[{', '.join(map(str, self.operations))}], n_qubits={self.n_qubits})'

@singledispatch
def _append_to_circuit(other, circuit: Circuit):
    raise NotImplementedError()

@_append_to_circuit.register
def _append_operation(other: _gates.GateOperation, circuit: Circuit):
    n_qubits_by_operation = max(other.qubit_indices) + 1
    return type(circuit)(operations=[*circuit.operations, other], n_qubits=max(circuit.n_qubits, n_qubits_by_operation))

@_append_to_circuit.register
def _append_circuit(other: Circuit, circuit: Circuit):
    return type(circuit)(operations=[*circuit.operations, *other.operations], n_qubits=max(circuit.n_qubits, other.n_qubits))

def split_circuit(circuit: Circuit, predicate: Callable[[_operations.Operation], bool]) -> Iterable[Tuple[bool, Circuit]]:
    n_qubits = circuit.n_qubits
    for predicate_value, operations in groupby(circuit.operations, predicate):
        yield (predicate_value, Circuit(operations, n_qubits=n_qubits))
