import warnings
from typing import Any, Callable, Iterable, List, Optional, Union
import numpy as np
import sympy
from zquantum.core.openfermion import SymbolicOperator
from .circuits import Circuit
from .estimation import estimate_expectation_values_by_averaging, evaluate_estimation_circuits
from .gradients import finite_differences_gradient
from .interfaces.ansatz import Ansatz
from .interfaces.ansatz_utils import combine_ansatz_params
from .interfaces.backend import QuantumBackend
from .interfaces.cost_function import CostFunction, ParameterPreprocessor
from .interfaces.estimation import EstimateExpectationValues, EstimationPreprocessor, EstimationTask, EstimationTasksFactory
from .interfaces.functions import FunctionWithGradient, FunctionWithGradientStoringArtifacts, StoreArtifact, function_with_gradient
from .measurement import ExpectationValues, concatenate_expectation_values, expectation_values_to_real
from .typing import SupportsLessThan
from .utils import ValueEstimate, create_symbols_map
GradientFactory = Callable[[Callable], Callable[[np.ndarray], np.ndarray]]
SymbolsSortKey = Callable[[sympy.Symbol], SupportsLessThan]

def _get_sorted_set_of_circuit_symbols(estimation_tasks: List[EstimationTask], key: SymbolsSortKey=str) -> List[sympy.Symbol]:
    return sorted(list({param for task in estimation_tasks for param in task.circuit.free_symbols}), key=key)
_by_averaging = estimate_expectation_values_by_averaging

def get_ground_state_cost_function(target_operator: SymbolicOperator, parametrized_circuit: Circuit, backend: QuantumBackend, estimation_method: EstimateExpectationValues=_by_averaging, estimation_preprocessors: List[EstimationPreprocessor]=None, fixed_parameters: Optional[np.ndarray]=None, parameter_precision: Optional[float]=None, parameter_precision_seed: Optional[int]=None, gradient_function: Callable=finite_differences_gradient, symbols_sort_key: SymbolsSortKey=str) -> Union[FunctionWithGradient, FunctionWithGradientStoringArtifacts]:
    warnings.warn(DeprecationWarning('get_ground_state_cost_function is deprecated. Use create_cost_function with\n            expectation_value_estimation_tasks_factory instead.\n            '))
    estimation_tasks = [EstimationTask(operator=target_operator, circuit=parametrized_circuit, number_of_shots=None)]
    if estimation_preprocessors is None:
        estimation_preprocessors = []
    for estimation_preprocessor in estimation_preprocessors:
        estimation_tasks = estimation_preprocessor(estimation_tasks)
    circuit_symbols = _get_sorted_set_of_circuit_symbols(estimation_tasks, symbols_sort_key)

    def ground_state_cost_function(parameters: np.ndarray, store_artifact: StoreArtifact=None) -> ValueEstimate:
        nonlocal estimation_tasks
        parameters = parameters.copy()
        if fixed_parameters is not None:
            parameters = combine_ansatz_params(fixed_parameters, parameters)
        if parameter_precision is not None:
            rng = np.random.default_rng(parameter_precision_seed)
            noise_array = rng.normal(0.0, parameter_precision, len(parameters))
            parameters += noise_array
        symbols_map = create_symbols_map(circuit_symbols, parameters)
        current_estimation_tasks = evaluate_estimation_circuits(estimation_tasks, [symbols_map for _ in estimation_tasks])
        expectation_values_list = estimation_method(backend, current_estimation_tasks)
        partial_sums: List[Any] = [np.sum(expectation_values.values) for expectation_values in expectation_values_list]
        summed_values = np.sum(partial_sums)
        if isinstance(summed_values, float):
            return ValueEstimate(summed_values)
        else:
            raise ValueError(f'Result {summed_values} is not a float.')
    return function_with_gradient(ground_state_cost_function, gradient_function(ground_state_cost_function))

def sum_expectation_values(expectation_values: ExpectationValues) -> ValueEstimate:
    value = np.sum(expectation_values.values)
    precision = None
    if expectation_values.estimator_covariances:
        estimator_variance = 0.0
        for frame_covariance in expectation_values.estimator_covariances:
            estimator_variance += float(np.sum(frame_covariance, (0, 1)))
        precision = np.sqrt(estimator_variance)
    return ValueEstimate(value, precision)

class AnsatzBasedCostFunction:

    def __init__(self, target_operator: SymbolicOperator, ansatz: Ansatz, backend: QuantumBackend, estimation_method: EstimateExpectationValues=_by_averaging, estimation_preprocessors: List[EstimationPreprocessor]=None, fixed_parameters: Optional[np.ndarray]=None, parameter_precision: Optional[float]=None, parameter_precision_seed: Optional[int]=None):
        warnings.warn(DeprecationWarning('AnsatzBasedCostFunction is deprecated. Use create_cost_function\n                instead.'))
        self.backend = backend
        self.fixed_parameters = fixed_parameters
        self.parameter_precision = parameter_precision
        self.parameter_precision_seed = parameter_precision_seed
        self.estimation_method: EstimateExpectationValues
        if estimation_method is None:
            self.estimation_method = estimate_expectation_values_by_averaging
        else:
            self.estimation_method = estimation_method
        if estimation_preprocessors is None:
            estimation_preprocessors = []
        self.estimation_tasks = [EstimationTask(operator=target_operator, circuit=ansatz.parametrized_circuit, number_of_shots=None)]
        for estimation_preprocessor in estimation_preprocessors:
            self.estimation_tasks = estimation_preprocessor(self.estimation_tasks)
        self.circuit_symbols = _get_sorted_set_of_circuit_symbols(self.estimation_tasks, ansatz.symbols_sort_key)

    def __call__(self, parameters: np.ndarray) -> ValueEstimate:
        full_parameters = parameters.copy()
        if self.fixed_parameters is not None:
            full_parameters = combine_ansatz_params(self.fixed_parameters, parameters)
        if self.parameter_precision is not None:
            rng = np.random.default_rng(self.parameter_precision_seed)
            noise_array = rng.normal(0.0, self.parameter_precision, len(full_parameters))
            full_parameters += noise_array
        symbols_map = create_symbols_map(self.circuit_symbols, full_parameters)
        estimation_tasks = evaluate_estimation_circuits(self.estimation_tasks, [symbols_map for _ in self.estimation_tasks])
        expectation_values_list = self.estimation_method(self.backend, estimation_tasks)
        combined_expectation_values = expectation_values_to_real(concatenate_expectation_values(expectation_values_list))
        return sum_expectation_values(combined_expectation_values)

def fix_parameters(fixed_parameters: np.ndarray) -> ParameterPreprocessor:

    def _preprocess(parameters: np.ndarray) -> np.ndarray:
        return combine_ansatz_params(fixed_parameters, parameters)
    return _preprocess

def add_normal_noise(parameter_precision, parameter_precision_seed) -> ParameterPreprocessor:
    rng = np.random.default_rng(parameter_precision_seed)

    def _preprocess(parameters: np.ndarray) -> np.ndarray:
        noise = rng.normal(0.0, parameter_precision, len(parameters))
        return parameters + noise
    return _preprocess

def create_cost_function(backend: QuantumBackend, estimation_tasks_factory: EstimationTasksFactory, estimation_method: EstimateExpectationValues=_by_averaging, parameter_preprocessors: Iterable[ParameterPreprocessor]=None, gradient_function: GradientFactory=finite_differences_gradient) -> CostFunction:

    def _cost_function(parameters: np.ndarray) -> Union[float, ValueEstimate]:
        for preprocessor in [] if parameter_preprocessors is None else parameter_preprocessors:
            parameters = preprocessor(parameters)
        estimation_tasks = estimation_tasks_factory(parameters)
        expectation_values_list = estimation_method(backend, estimation_tasks)
        combined_expectation_values = expectation_values_to_real(concatenate_expectation_values(expectation_values_list))
        return sum_expectation_values(combined_expectation_values)
    return function_with_gradient(_cost_function, gradient_function(_cost_function))

def expectation_value_estimation_tasks_factory(target_operator: SymbolicOperator, parametrized_circuit: Circuit, estimation_preprocessors: List[EstimationPreprocessor]=None, symbols_sort_key: SymbolsSortKey=str) -> EstimationTasksFactory:
    if estimation_preprocessors is None:
        estimation_preprocessors = []
    estimation_tasks = [EstimationTask(operator=target_operator, circuit=parametrized_circuit, number_of_shots=None)]
    for preprocessor in estimation_preprocessors:
        estimation_tasks = preprocessor(estimation_tasks)
    circuit_symbols = _get_sorted_set_of_circuit_symbols(estimation_tasks, symbols_sort_key)

    def _tasks_factory(parameters: np.ndarray) -> List[EstimationTask]:
        symbols_map = create_symbols_map(circuit_symbols, parameters)
        return evaluate_estimation_circuits(estimation_tasks, [symbols_map for _ in estimation_tasks])
    return _tasks_factory

def substitution_based_estimation_tasks_factory(target_operator: SymbolicOperator, ansatz: Ansatz, estimation_preprocessors: List[EstimationPreprocessor]=None) -> EstimationTasksFactory:
    return expectation_value_estimation_tasks_factory(target_operator, ansatz.parametrized_circuit, estimation_preprocessors, ansatz.symbols_sort_key)

def dynamic_circuit_estimation_tasks_factory(target_operator: SymbolicOperator, ansatz: Ansatz, estimation_preprocessors: List[EstimationPreprocessor]=None) -> EstimationTasksFactory:

    def _tasks_factory(parameters: np.ndarray) -> List[EstimationTask]:
        circuit = ansatz._generate_circuit(parameters)
        estimation_tasks = [EstimationTask(operator=target_operator, circuit=circuit, number_of_shots=None)]
        for preprocessor in [] if estimation_preprocessors is None else estimation_preprocessors:
            estimation_tasks = preprocessor(estimation_tasks)
        return estimation_tasks
    return _tasks_factory
