import warnings
from types import ModuleType
from typing import Dict, Tuple

def wrap_module(module: ModuleType, deprecated_attributes: Dict[str, Tuple[str, str]]):

    class Wrapped(ModuleType):
        __dict__ = module.__dict__

        def __getattr__(self, name):
            if name in deprecated_attributes:
                version, fix = deprecated_attributes[name]
                warnings.warn(f'{name} was used but is deprecated.\nIt will be removed in openfermion {version}.\n{fix}\n', DeprecationWarning, stacklevel=2)
            return getattr(module, name)
    return Wrapped(module.__name__, module.__doc__)
