from abc import abstractmethod
from functools import singledispatch
from numbers import Number
from typing import Dict, Iterable, Tuple, TypeVar
import sympy
from typing_extensions import Protocol
from zquantum.core.typing import Parameter, ParameterizedVector
T = TypeVar('T', bound='Operation')

class Operation(Protocol):

    @property
    @abstractmethod
    def params(self) -> Tuple[Parameter, ...]:
        pass

    @abstractmethod
    def bind(self: T, symbols_map: Dict[sympy.Symbol, Parameter]) -> T:
        pass

    @abstractmethod
    def replace_params(self: T, new_params: Tuple[Parameter, ...]) -> T:
        pass

    @abstractmethod
    def apply(self: T, amplitude_vector: ParameterizedVector) -> ParameterizedVector:
        pass

    @property
    @abstractmethod
    def free_symbols(self) -> Iterable[sympy.Symbol]:
        pass

@singledispatch
def sub_symbols(parameter, symbols_map: Dict[sympy.Symbol, Parameter]) -> Parameter:
    raise NotImplementedError()

@sub_symbols.register
def _sub_symbols_in_number(parameter: Number, symbols_map: Dict[sympy.Symbol, Parameter]) -> Number:
    return parameter

@sub_symbols.register
def _sub_symbols_in_expression(parameter: sympy.Expr, symbols_map: Dict[sympy.Symbol, Parameter]) -> sympy.Expr:
    return parameter.subs(symbols_map, simultaneous=True)

@sub_symbols.register
def _sub_symbols_in_symbol(parameter: sympy.Symbol, symbols_map: Dict[sympy.Symbol, Parameter]) -> Parameter:
    return symbols_map.get(parameter, parameter)

def get_free_symbols(parameters: Tuple[Parameter, ...]) -> Iterable[sympy.Symbol]:
    symbols = set((symbol for param in parameters if isinstance(param, sympy.Expr) for symbol in param.free_symbols))
    return sorted(symbols, key=str)
