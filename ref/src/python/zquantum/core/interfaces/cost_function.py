from typing import List, Union
import numpy as np
from typing_extensions import Protocol
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.interfaces.functions import CallableStoringArtifacts, CallableWithGradient, CallableWithGradientStoringArtifacts
from zquantum.core.utils import ValueEstimate

class _CostFunction(Protocol):

    def __call__(self, parameters: np.ndarray) -> Union[float, ValueEstimate]:
        ...
CostFunction = Union[_CostFunction, CallableWithGradient, CallableStoringArtifacts, CallableWithGradientStoringArtifacts]

class ParameterPreprocessor(Protocol):

    def __call__(self, parameters: np.ndarray) -> np.ndarray:
        ...
