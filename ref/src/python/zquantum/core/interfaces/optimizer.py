from abc import ABC, abstractmethod
from typing import Callable, Dict, List, Union, cast
import numpy as np
import scipy
from scipy.optimize import OptimizeResult
from zquantum.core.history.recorder import ArtifactRecorder, ArtifactRecorderWithGradient, SimpleRecorder, SimpleRecorderWithGradient
from zquantum.core.history.recorder import recorder as _recorder
from zquantum.core.interfaces.cost_function import CostFunction
from zquantum.core.interfaces.functions import CallableWithGradient
from ..typing import AnyHistory, AnyRecorder, RecorderFactory

class Optimizer(ABC):

    def __init__(self, recorder: RecorderFactory=_recorder) -> None:
        self.recorder = recorder

    def minimize(self, cost_function: CostFunction, initial_params: np.ndarray, keep_history: bool=False) -> OptimizeResult:
        cost_function = self._preprocess_cost_function(cost_function)
        if keep_history:
            cost_function = self.recorder(cost_function)
        return self._minimize(cost_function, initial_params, keep_history)

    @abstractmethod
    def _minimize(self, cost_function: CostFunction, initial_params: np.ndarray, keep_history: bool=False) -> OptimizeResult:
        raise NotImplementedError

    def _preprocess_cost_function(self, cost_function: Union[CallableWithGradient, Callable]) -> Union[CallableWithGradient, Callable]:
        return cost_function

def optimization_result(*, opt_value, opt_params, **kwargs) -> scipy.optimize.OptimizeResult:
    return scipy.optimize.OptimizeResult(opt_value=opt_value, opt_params=opt_params, **kwargs)

def construct_history_info(cost_function: CostFunction, keep_history: bool) -> Dict[str, AnyHistory]:
    histories: Dict[str, AnyHistory] = {}
    if keep_history:
        if isinstance(cost_function, ArtifactRecorder):
            histories['history'] = cost_function.history
        if isinstance(cost_function, SimpleRecorder):
            histories['history'] = cost_function.history
        if isinstance(cost_function, ArtifactRecorderWithGradient):
            histories['gradient_history'] = cost_function.gradient.history
        if isinstance(cost_function, SimpleRecorderWithGradient):
            histories['gradient_history'] = cost_function.gradient.history
    else:
        histories['history'] = cast(AnyHistory, [])
    return histories

def extend_histories(cost_function: AnyRecorder, histories: Dict[str, List]) -> Dict[str, List]:
    new_histories = construct_history_info(cost_function, True)
    updated_histories = {'history': histories['history'] + new_histories['history']}
    if hasattr(cost_function, 'gradient'):
        updated_histories['gradient_history'] = histories['gradient_history'] + new_histories['gradient_history']
    return updated_histories

class NestedOptimizer(ABC):

    @property
    @abstractmethod
    def inner_optimizer(self) -> Optimizer:
        pass

    @property
    @abstractmethod
    def recorder(self) -> RecorderFactory:
        return _recorder

    def minimize(self, cost_function_factory: Callable[..., CostFunction], initial_params: np.ndarray, keep_history: bool=False) -> OptimizeResult:
        return self._minimize(cost_function_factory, initial_params, keep_history)

    @abstractmethod
    def _minimize(self, cost_function_factory: Callable[..., CostFunction], initial_params: np.ndarray, keep_history: bool=False) -> OptimizeResult:
        pass
