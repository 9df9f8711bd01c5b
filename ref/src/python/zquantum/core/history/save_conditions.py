from typing import Any
from typing_extensions import Protocol

class SaveCondition(Protocol):

    def __call__(self, value: Any, params: Any, call_number: int) -> bool:
        pass

def always(value: Any, params: Any, call_number: int) -> bool:
    return True

def every_nth(n: int) -> SaveCondition:

    def _save_condition(value: Any, params: Any, call_number: int) -> bool:
        return call_number % n == 0
    return _save_condition
