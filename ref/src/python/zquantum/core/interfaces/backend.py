from abc import ABC, abstractmethod
from typing import Any, List, Optional, Sequence, Union
import numpy as np
from zquantum.core.bitstring_distribution import BitstringDistribution
from zquantum.core.openfermion import IsingOperator, QubitOperator, SymbolicOperator
from zquantum.core.wavefunction import Wavefunction
from ..circuits import Circuit, GateOperation, Operation
from ..circuits._circuit import split_circuit
from ..circuits.layouts import CircuitConnectivity
from ..distribution import MeasurementOutcomeDistribution, create_bitstring_distribution_from_probability_distribution
from ..measurement import ExpectationValues, Measurements, expectation_values_to_real
from ..openfermion import change_operator_type, get_expectation_value
StateVector = Union[Sequence[complex], np.ndarray]

class QuantumBackend(ABC):
    supports_batching: bool = False
    batch_size: Optional[int] = None

    def __init__(self):
        self.number_of_circuits_run = 0
        self.number_of_jobs_run = 0
        if self.supports_batching:
            assert isinstance(self.batch_size, int)
            assert self.batch_size > 0

    @abstractmethod
    def run_circuit_and_measure(self, circuit: Circuit, n_samples: int) -> Measurements:
        if n_samples < 1:
            raise ValueError('Must sample given circuit at least once.')
        self.number_of_circuits_run += 1
        self.number_of_jobs_run += 1
        return Measurements()

    def run_circuitset_and_measure(self, circuits: Sequence[Circuit], n_samples: Sequence[int]) -> List[Measurements]:
        measurement_set: List[Measurements]
        if len(circuits) != len(n_samples):
            raise ValueError('Number of samples must be given for each circuit.')
        if not self.supports_batching:
            measurement_set = []
            for circuit, n_samples_for_circuit in zip(circuits, n_samples):
                measurement_set.append(self.run_circuit_and_measure(circuit, n_samples=n_samples_for_circuit))
            return measurement_set
        else:
            self.number_of_circuits_run += len(circuits)
            if isinstance(self.batch_size, int):
                self.number_of_jobs_run += int(np.ceil(len(circuits) / self.batch_size))
            measurement_set = []
            return measurement_set

    def get_measurement_outcome_distribution(self, circuit: Circuit, n_samples: int) -> MeasurementOutcomeDistribution:
        measurements = self.run_circuit_and_measure(circuit, n_samples)
        return measurements.get_distribution()

    def get_bitstring_distribution(self, circuit: Circuit, n_samples: int) -> BitstringDistribution:
        return BitstringDistribution(self.get_measurement_outcome_distribution(circuit, n_samples).distribution_dict)

class QuantumSimulator(QuantumBackend):

    @abstractmethod
    def __init__(self, noise_model: Optional[Any]=None, device_connectivity: Optional[CircuitConnectivity]=None):
        super().__init__()
        self.noise_model = noise_model
        self.device_connectivity = device_connectivity

    @abstractmethod
    def _get_wavefunction_from_native_circuit(self, circuit: Circuit, initial_state: StateVector) -> StateVector:
        pass

    def is_natively_supported(self, operation: Operation) -> bool:
        return isinstance(operation, GateOperation)

    def get_wavefunction(self, circuit: Circuit, initial_state: Optional[StateVector]=None) -> Wavefunction:
        state: StateVector
        if initial_state is None:
            state = np.zeros(2 ** circuit.n_qubits)
            state[0] = 1
        else:
            state = initial_state
        for is_supported, subcircuit in split_circuit(circuit, self.is_natively_supported):
            if is_supported:
                self.number_of_circuits_run += 1
                self.number_of_jobs_run += 1
                state = self._get_wavefunction_from_native_circuit(subcircuit, state)
            else:
                for operation in subcircuit.operations:
                    state = operation.apply(state)
        return Wavefunction(state)

    def get_exact_expectation_values(self, circuit: Circuit, operator: SymbolicOperator) -> ExpectationValues:
        wavefunction = self.get_wavefunction(circuit)
        if isinstance(operator, IsingOperator):
            operator = change_operator_type(operator, QubitOperator)
        expectation_values = ExpectationValues(np.array([get_expectation_value(term, wavefunction) for term in operator]))
        expectation_values = expectation_values_to_real(expectation_values)
        return expectation_values

    def get_measurement_outcome_distribution(self, circuit: Circuit, n_samples: Optional[int]=None) -> MeasurementOutcomeDistribution:
        if n_samples is None:
            wavefunction = self.get_wavefunction(circuit)
            return create_bitstring_distribution_from_probability_distribution(wavefunction.get_probabilities())
        else:
            measurements = self.run_circuit_and_measure(circuit, n_samples)
            return measurements.get_distribution()

    def get_bitstring_distribution(self, circuit: Circuit, n_samples: Optional[int]=None) -> BitstringDistribution:
        return BitstringDistribution(self.get_measurement_outcome_distribution(circuit, n_samples).distribution_dict)
