from dataclasses import dataclass
from typing import List, Optional
import numpy as np
from typing_extensions import Protocol
from zquantum.core.openfermion import SymbolicOperator
from ..circuits import Circuit
from ..measurement import ExpectationValues
from .backend import QuantumBackend

@dataclass(frozen=True)
class EstimationTask:
    operator: SymbolicOperator
    circuit: Circuit
    number_of_shots: Optional[int]

class EstimationPreprocessor(Protocol):

    def __call__(self, estimation_tasks: List[EstimationTask]) -> List[EstimationTask]:
        ...

class EstimateExpectationValues(Protocol):

    def __call__(self, backend: QuantumBackend, estimation_tasks: List[EstimationTask]) -> List[ExpectationValues]:
        pass

class EstimationTasksFactory(Protocol):

    def __call__(self, parameters: np.ndarray) -> List[EstimationTask]:
        pass
