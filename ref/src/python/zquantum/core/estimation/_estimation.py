from typing import Dict, List, Optional, Tuple, cast
import numpy as np
import sympy
from zquantum.core.openfermion import IsingOperator, QubitOperator
from ..circuits import RX, RY, Circuit
from ..hamiltonian import estimate_nmeas_for_frames, group_comeasureable_terms_greedy
from ..interfaces.backend import QuantumBackend, QuantumSimulator
from ..interfaces.estimation import EstimationTask
from ..measurement import ExpectationValues, expectation_values_to_real
from ..openfermion import change_operator_type
from ..utils import scale_and_discretize

def get_context_selection_circuit_for_group(qubit_operator: QubitOperator) -> Tuple[Circuit, IsingOperator]:
    context_selection_circuit = Circuit()
    transformed_operator = IsingOperator()
    context: List[Tuple[int, str]] = []
    for term in qubit_operator.terms:
        term_operator = IsingOperator(())
        for qubit, operator in term:
            for existing_qubit, existing_operator in context:
                if existing_qubit == qubit and existing_operator != operator:
                    raise ValueError('Terms are not co-measurable')
            if (qubit, operator) not in context:
                context.append((qubit, operator))
            term_operator *= IsingOperator((qubit, 'Z'))
        transformed_operator += term_operator * qubit_operator.terms[term]
    for factor in context:
        if factor[1] == 'X':
            context_selection_circuit += RY(-np.pi / 2)(factor[0])
        elif factor[1] == 'Y':
            context_selection_circuit += RX(np.pi / 2)(factor[0])
    return (context_selection_circuit, transformed_operator)

def perform_context_selection(estimation_tasks: List[EstimationTask]) -> List[EstimationTask]:
    output_estimation_tasks = []
    for estimation_task in estimation_tasks:
        context_selection_circuit, frame_operator = get_context_selection_circuit_for_group(cast(QubitOperator, estimation_task.operator))
        frame_circuit = estimation_task.circuit + context_selection_circuit
        new_estimation_task = EstimationTask(frame_operator, frame_circuit, estimation_task.number_of_shots)
        output_estimation_tasks.append(new_estimation_task)
    return output_estimation_tasks

def group_individually(estimation_tasks: List[EstimationTask]) -> List[EstimationTask]:
    output_estimation_tasks = []
    for estimation_task in estimation_tasks:
        for term in estimation_task.operator.get_operators():
            output_estimation_tasks.append(EstimationTask(term, estimation_task.circuit, estimation_task.number_of_shots))
    return output_estimation_tasks

def group_greedily(estimation_tasks: List[EstimationTask], sort_terms: bool=False) -> List[EstimationTask]:
    if sort_terms:
        print('Greedy grouping with pre-sorting')
    else:
        print('Greedy grouping without pre-sorting')
    output_estimation_tasks = []
    for estimation_task in estimation_tasks:
        groups = group_comeasureable_terms_greedy(cast(QubitOperator, estimation_task.operator), sort_terms=sort_terms)
        for group in groups:
            group_estimation_task = EstimationTask(group, estimation_task.circuit, estimation_task.number_of_shots)
            output_estimation_tasks.append(group_estimation_task)
    return output_estimation_tasks

def allocate_shots_uniformly(estimation_tasks: List[EstimationTask], number_of_shots: int) -> List[EstimationTask]:
    if number_of_shots <= 0:
        raise ValueError('number_of_shots must be positive.')
    return [EstimationTask(operator=estimation_task.operator, circuit=estimation_task.circuit, number_of_shots=number_of_shots) for estimation_task in estimation_tasks]

def allocate_shots_proportionally(estimation_tasks: List[EstimationTask], total_n_shots: int, prior_expectation_values: Optional[ExpectationValues]=None) -> List[EstimationTask]:
    if total_n_shots <= 0:
        raise ValueError('total_n_shots must be positive.')
    frame_operators = [cast(QubitOperator, estimation_task.operator) for estimation_task in estimation_tasks]
    _, _, relative_measurements_per_frame = estimate_nmeas_for_frames(frame_operators, prior_expectation_values)
    measurements_per_frame = scale_and_discretize(relative_measurements_per_frame, total_n_shots)
    return [EstimationTask(operator=estimation_task.operator, circuit=estimation_task.circuit, number_of_shots=number_of_shots) for estimation_task, number_of_shots in zip(estimation_tasks, measurements_per_frame)]

def evaluate_estimation_circuits(estimation_tasks: List[EstimationTask], symbols_maps: List[Dict[sympy.Symbol, float]]) -> List[EstimationTask]:
    if len(symbols_maps) == 1:
        symbols_maps = list(symbols_maps) * len(estimation_tasks)
    elif len(symbols_maps) != len(estimation_tasks):
        raise ValueError('Number of symbols maps must match the number of tasks.')
    return [EstimationTask(operator=estimation_task.operator, circuit=estimation_task.circuit.bind(symbols_map), number_of_shots=estimation_task.number_of_shots) for estimation_task, symbols_map in zip(estimation_tasks, symbols_maps)]

def split_estimation_tasks_to_measure(estimation_tasks: List[EstimationTask]) -> Tuple[List[EstimationTask], List[EstimationTask], List[int], List[int]]:
    estimation_tasks_to_measure = []
    estimation_tasks_not_to_measure = []
    indices_to_measure = []
    indices_not_to_measure = []
    for i, task in enumerate(estimation_tasks):
        if len(task.operator.terms) == 1 and () in task.operator.terms.keys() or task.number_of_shots == 0:
            indices_not_to_measure.append(i)
            estimation_tasks_not_to_measure.append(task)
        else:
            indices_to_measure.append(i)
            estimation_tasks_to_measure.append(task)
    return (estimation_tasks_to_measure, estimation_tasks_not_to_measure, indices_to_measure, indices_not_to_measure)

def evaluate_non_measured_estimation_tasks(estimation_tasks: List[EstimationTask]) -> List[ExpectationValues]:
    expectation_values = []
    for task in estimation_tasks:
        if len(task.operator.terms) > 1 or () not in task.operator.terms.keys():
            if task.number_of_shots is not None and task.number_of_shots > 0:
                raise RuntimeError('An EstimationTask required shots but was classified as                         a non-measured task')
            else:
                coefficient = 0.0
        else:
            coefficient = task.operator.terms[()]
        expectation_values.append(ExpectationValues(np.asarray([coefficient]), correlations=[np.asarray([[0.0]])], estimator_covariances=[np.asarray([[0.0]])]))
    return expectation_values

def estimate_expectation_values_by_averaging(backend: QuantumBackend, estimation_tasks: List[EstimationTask]) -> List[ExpectationValues]:
    estimation_tasks_to_measure, estimation_tasks_not_to_measure, indices_to_measure, indices_not_to_measure = split_estimation_tasks_to_measure(estimation_tasks)
    non_measured_expectation_values_list = evaluate_non_measured_estimation_tasks(estimation_tasks_not_to_measure)
    if estimation_tasks_to_measure == []:
        measured_expectation_values_list = []
    else:
        circuits, operators, shots_per_circuit = zip(*[(e.circuit, e.operator, e.number_of_shots) for e in estimation_tasks_to_measure])
        measurements_list = backend.run_circuitset_and_measure(circuits, shots_per_circuit)
        measured_expectation_values_list = [expectation_values_to_real(measurements.get_expectation_values(change_operator_type(frame_operator, IsingOperator))) for frame_operator, measurements in zip(operators, measurements_list)]
    full_expectation_values: List[Optional[ExpectationValues]] = [None for _ in range(len(estimation_tasks_not_to_measure) + len(estimation_tasks_to_measure))]
    for ex_val, final_index in zip(non_measured_expectation_values_list, indices_not_to_measure):
        full_expectation_values[final_index] = ex_val
    for ex_val, final_index in zip(measured_expectation_values_list, indices_to_measure):
        full_expectation_values[final_index] = ex_val
    return cast(List[ExpectationValues], full_expectation_values)

def calculate_exact_expectation_values(backend: QuantumSimulator, estimation_tasks: List[EstimationTask]) -> List[ExpectationValues]:
    expectation_values_list = [backend.get_exact_expectation_values(estimation_task.circuit, estimation_task.operator) for estimation_task in estimation_tasks]
    return expectation_values_list
