from functools import reduce
from numbers import Number
from typing import Any, Callable, Dict, Iterable, NamedTuple

class Symbol(NamedTuple):
    name: str

class FunctionCall(NamedTuple):
    name: str
    args: Iterable['Expression']
Expression = Any

class ExpressionDialect(NamedTuple):
    symbol_factory: Callable[[Symbol], Any]
    number_factory: Callable[[Number], Any]
    known_functions: Dict[str, Callable[..., Any]]

def reduction(operator):

    def _reduction(*args):
        return reduce(operator, args)
    return _reduction
