import json
from typing import Dict, List, Union, cast
from zquantum.core.circuits import Circuit, circuit_from_dict, load_circuit
from zquantum.core.estimation import estimate_expectation_values_by_averaging
from zquantum.core.interfaces.backend import QuantumBackend
from zquantum.core.interfaces.estimation import EstimationTask
from zquantum.core.measurement import ExpectationValues, load_expectation_values, save_expectation_values, save_wavefunction
from zquantum.core.openfermion import QubitOperator, SymbolicOperator, convert_dict_to_qubitop
from zquantum.core.openfermion import evaluate_qubit_operator_list as _evaluate_qubit_operator_list
from zquantum.core.openfermion import get_ground_state_rdm_from_qubit_op as _get_ground_state_rdm_from_qubit_op
from zquantum.core.openfermion import load_qubit_operator, load_qubit_operator_set, save_interaction_rdm
from zquantum.core.openfermion.linalg import jw_get_ground_state_at_particle_number as _jw_get_ground_state_at_particle_number
from zquantum.core.openfermion.linalg import qubit_operator_sparse
from zquantum.core.trackers import MeasurementTrackingBackend
from zquantum.core.typing import Specs
from zquantum.core.utils import ValueEstimate, create_object, save_value_estimate
from zquantum.core.wavefunction import Wavefunction

def get_expectation_values_for_qubit_operator(backend_specs: Specs, circuit: Union[str, Circuit, Dict], qubit_operator: Union[str, SymbolicOperator, Dict]):
    if isinstance(circuit, str):
        circuit = load_circuit(circuit)
    elif isinstance(circuit, dict):
        circuit = circuit_from_dict(circuit)
    if isinstance(qubit_operator, str):
        qubit_operator = load_qubit_operator(qubit_operator)
    elif isinstance(qubit_operator, dict):
        qubit_operator = convert_dict_to_qubitop(qubit_operator)
    if isinstance(backend_specs, str):
        backend_specs = json.loads(backend_specs)
    backend = cast(QuantumBackend, create_object(backend_specs))
    if backend_specs.get('track_measurements'):
        backend = MeasurementTrackingBackend(backend, backend_specs['raw_data_file_name'], record_bitstrings=backend_specs.get('record_bitstrings'))
    estimation_tasks = [EstimationTask(qubit_operator, circuit, backend.n_samples)]
    expectation_values = estimate_expectation_values_by_averaging(backend, estimation_tasks)
    save_expectation_values(expectation_values[0], 'expectation-values.json')

def get_ground_state_rdm_from_qubit_operator(qubit_operator: Union[str, QubitOperator], n_particles: int):
    if isinstance(qubit_operator, str):
        qubit_operator = load_qubit_operator(qubit_operator)
    rdm = _get_ground_state_rdm_from_qubit_op(qubit_operator, n_particles)
    save_interaction_rdm(rdm, 'rdms.json')

def jw_get_ground_state_at_particle_number(particle_number: int, qubit_operator: Union[str, SymbolicOperator]):
    if isinstance(qubit_operator, str):
        qubit_operator = load_qubit_operator(qubit_operator)
    sparse_matrix = qubit_operator_sparse(qubit_operator)
    ground_energy, ground_state_amplitudes = _jw_get_ground_state_at_particle_number(sparse_matrix, particle_number)
    ground_state = Wavefunction(ground_state_amplitudes)
    value_estimate = ValueEstimate(ground_energy)
    save_wavefunction(ground_state, 'ground-state.json')
    save_value_estimate(value_estimate, 'value-estimate.json')

def evaluate_qubit_operator_list(qubit_operator_list: Union[str, List[QubitOperator]], expectation_values: Union[str, ExpectationValues]):
    if isinstance(qubit_operator_list, str):
        qubit_operator_list = load_qubit_operator_set(qubit_operator_list)
    if isinstance(expectation_values, str):
        expectation_values = load_expectation_values(expectation_values)
    value_estimate = _evaluate_qubit_operator_list(qubit_operator_list, expectation_values)
    save_value_estimate(value_estimate, 'value-estimate.json')
