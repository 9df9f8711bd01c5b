from dataclasses import dataclass
from functools import singledispatch
from numbers import Complex
from typing import Iterable, Tuple
import numpy as np
import sympy
from zquantum.core.typing import ParameterizedVector
from ._operations import Parameter, get_free_symbols, sub_symbols

@singledispatch
def _is_real(number: Complex):
    return number.imag == 0

@_is_real.register
def _is_sympy_number_real(number: sympy.Number):
    return number.is_real

@dataclass(frozen=True)
class MultiPhaseOperation:
    params: Tuple[Parameter, ...]

    def __post_init__(self):
        if any((isinstance(param, Complex) and (not _is_real(param)) for param in self.params)):
            raise ValueError('MultiPhaseOperation supports only real parameters.')

    @property
    def qubit_indices(self) -> Tuple[int, ...]:
        n_qubits = int(np.log2(len(self.params)))
        return tuple(range(n_qubits))

    def bind(self, symbols_map) -> 'MultiPhaseOperation':
        return self.replace_params(tuple((sub_symbols(param, symbols_map) for param in self.params)))

    def replace_params(self, new_params: Tuple[Parameter, ...]) -> 'MultiPhaseOperation':
        return MultiPhaseOperation(new_params)

    def apply(self, amplitude_vector: ParameterizedVector) -> ParameterizedVector:
        if len(amplitude_vector) != len(self.params):
            raise ValueError(f'MultiPhaseOperation with {len(self.params)} params cannot be applied to amplitude_vector of length {len(amplitude_vector)}.')
        try:
            exp_params = np.exp(np.asarray(self.params, dtype=float) * 1j)
        except TypeError as e:
            raise RuntimeError('MultiPhaseOperation can only be applied only if all symbolic parameters are bound to real numbers.') from e
        return np.multiply(np.asarray(amplitude_vector), exp_params)

    @property
    def free_symbols(self) -> Iterable[sympy.Symbol]:
        return get_free_symbols(self.params)
