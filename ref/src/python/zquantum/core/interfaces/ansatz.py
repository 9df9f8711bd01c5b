import warnings
from abc import ABC
from typing import Any, Callable, List, Optional, Sequence, Tuple
import numpy as np
import sympy
from overrides import EnforceOverrides
from ..circuits import Circuit, natural_key_revlex
from ..typing import SupportsLessThan
from ..utils import create_symbols_map
from .ansatz_utils import ansatz_property
SymbolsSortKey = Callable[[sympy.Symbol], SupportsLessThan]

class Ansatz(ABC, EnforceOverrides):
    supports_parametrized_circuits: Optional[bool] = None
    number_of_layers = ansatz_property('number_of_layers')

    def __init__(self, number_of_layers: int):
        if number_of_layers < 0:
            raise ValueError('number_of_layers must be non-negative.')
        self.number_of_layers = number_of_layers
        self._parametrized_circuit: Optional[Circuit] = None

    @property
    def parametrized_circuit(self) -> Circuit:
        if self._parametrized_circuit is None:
            if self.supports_parametrized_circuits:
                self._parametrized_circuit = self._generate_circuit()
            else:
                raise NotImplementedError('{0} does not support parametrized circuits.'.format(type(self).__name__))
        return self._parametrized_circuit

    @property
    def number_of_qubits(self) -> int:
        raise NotImplementedError

    @property
    def number_of_params(self) -> int:
        if self.supports_parametrized_circuits:
            return len(self.parametrized_circuit.free_symbols)
        else:
            raise NotImplementedError

    def get_executable_circuit(self, params: np.ndarray) -> Circuit:
        if params is None:
            raise Exception("Parameters can't be None for executable circuit.")
        if self.supports_parametrized_circuits:
            symbols = sorted(self.parametrized_circuit.free_symbols, key=self.symbols_sort_key)
            symbols_map = create_symbols_map(symbols, params)
            executable_circuit = self.parametrized_circuit.bind(symbols_map)
            return executable_circuit
        else:
            return self._generate_circuit(params)

    @property
    def symbols_sort_key(self) -> SymbolsSortKey:
        return natural_key_revlex

    def _generate_circuit(self, params: Optional[np.ndarray]=None) -> Circuit:
        raise NotImplementedError
