from functools import wraps
import numpy as np

class _InvalidatingSetter(object):

    def __init__(self, target):
        self.target = target

    def __get__(self, ansatz, obj_type):
        return self.target.__get__(ansatz, obj_type)

    def __set__(self, ansatz, new_obj):
        self.target.__set__(ansatz, new_obj)
        ansatz._parametrized_circuit = None

def invalidates_parametrized_circuit(target):
    if isinstance(target, property):
        return _InvalidatingSetter(target)
    else:

        @wraps(target)
        def _wrapper(ansatz, *args, **kwargs):
            return_value = target(ansatz, *args, **kwargs)
            ansatz._parametrized_circuit = None
            return return_value
        return _wrapper

class DynamicProperty:

    def __init__(self, name: str, default_value=None):
        self.default_value = default_value
        self.name = name

    @property
    def attrname(self):
        return f'_{self.name}'

    def __get__(self, obj, obj_type):
        if not hasattr(obj, self.attrname):
            setattr(obj, self.attrname, self.default_value)
        return getattr(obj, self.attrname)

    def __set__(self, obj, new_obj):
        setattr(obj, self.attrname, new_obj)

def ansatz_property(name: str, default_value=None):
    return _InvalidatingSetter(DynamicProperty(name, default_value))

def combine_ansatz_params(params1: np.ndarray, params2: np.ndarray) -> np.ndarray:
    return np.concatenate((params1, params2))
