from inspect import signature
from typing import Any, Callable, NamedTuple, Optional, TypeVar, Union, cast
import numpy as np
from typing_extensions import Protocol, runtime_checkable
T = TypeVar('T', covariant=True)
S = TypeVar('S', contravariant=True)

class StoreArtifact(Protocol):

    def __call__(self, artifact_name: str, artifact: Any, force: bool=False) -> None:
        pass

@runtime_checkable
class CallableWithGradient(Protocol):

    def __call__(self, params: np.ndarray) -> float:
        pass

    def gradient(self, params: np.ndarray) -> np.ndarray:
        pass

@runtime_checkable
class CallableStoringArtifacts(Protocol[S, T]):

    def __call__(self, params: S, store_artifact: Optional[StoreArtifact]) -> T:
        pass

@runtime_checkable
class CallableWithGradientStoringArtifacts(CallableStoringArtifacts[np.ndarray, T], Protocol):

    def gradient(self, params: np.ndarray) -> np.ndarray:
        pass

def has_store_artifact_param(function) -> bool:
    try:
        return 'store_artifact' in signature(function, follow_wrapped=True).parameters
    except ValueError:
        return False

class FunctionWithGradient(NamedTuple):
    function: Callable[[np.ndarray], float]
    gradient: Callable[[np.ndarray], np.ndarray]

    def __call__(self, params: np.ndarray) -> float:
        return self.function(params)

    def __getattr__(self, name):
        return getattr(self.function, name)

    def __setattr__(self, name, value):
        return setattr(self.function, name, value)

class FunctionWithGradientStoringArtifacts(NamedTuple):
    function: CallableStoringArtifacts
    gradient: Callable[[np.ndarray], np.ndarray]

    def __call__(self, params: np.ndarray, store_artifact: StoreArtifact=None) -> float:
        return self.function(params, store_artifact)

    def __getattr__(self, name):
        return getattr(self.function, name)

    def __setattr__(self, name, value):
        return setattr(self.function, name, value)

def function_with_gradient(function: Union[Callable[[np.ndarray], float], CallableStoringArtifacts], gradient: Callable[[np.ndarray], np.ndarray]) -> Union[FunctionWithGradient, FunctionWithGradientStoringArtifacts]:
    if has_store_artifact_param(function):
        return FunctionWithGradientStoringArtifacts(cast(CallableStoringArtifacts, function), gradient)
    else:
        return FunctionWithGradient(cast(Callable[[np.ndarray], float], function), gradient)
