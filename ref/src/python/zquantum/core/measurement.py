from __future__ import annotations
import copy
import json
from collections import Counter
from typing import Any, Dict, Iterable, List, Optional, Sequence, TextIO, Tuple, Union, cast
import numpy as np
from zquantum.core.serialization import ensure_open
from zquantum.core.typing import AnyPath, LoadSource
from zquantum.core.wavefunction import Wavefunction
from .distribution import MeasurementOutcomeDistribution
from .utils import SCHEMA_VERSION, convert_array_to_dict, convert_dict_to_array, convert_tuples_to_bitstrings, sample_from_probability_distribution

def save_expectation_values(expectation_values: ExpectationValues, filename: AnyPath) -> None:
    dictionary = expectation_values.to_dict()
    dictionary['schema'] = SCHEMA_VERSION + '-expectation_values'
    with open(filename, 'w') as f:
        f.write(json.dumps(dictionary, indent=2))

def load_expectation_values(file: LoadSource) -> ExpectationValues:
    with ensure_open(file) as f:
        data = json.load(f)
    return ExpectationValues.from_dict(data)

def load_wavefunction(file: LoadSource) -> Wavefunction:
    with ensure_open(file) as f:
        data = json.load(f)
    wavefunction = Wavefunction(convert_dict_to_array(data['amplitudes']))
    return wavefunction

def save_wavefunction(wavefunction: Wavefunction, filename: AnyPath) -> None:
    data: Dict[str, Any] = {'schema': SCHEMA_VERSION + '-wavefunction'}
    data['amplitudes'] = convert_array_to_dict(wavefunction.amplitudes)
    with open(filename, 'w') as f:
        f.write(json.dumps(data, indent=2))

class ExpectationValues:

    def __init__(self, values: np.ndarray, correlations: Optional[List[np.ndarray]]=None, estimator_covariances: Optional[List[np.ndarray]]=None):
        self.values = values
        self.correlations = correlations
        self.estimator_covariances = estimator_covariances

    def to_dict(self) -> Dict[str, Any]:
        data: Dict[str, Any] = {'schema': SCHEMA_VERSION + '-expectation_values', 'frames': []}
        data['expectation_values'] = convert_array_to_dict(self.values)
        if self.correlations:
            data['correlations'] = []
            for correlation_matrix in self.correlations:
                data['correlations'].append(convert_array_to_dict(correlation_matrix))
        if self.estimator_covariances:
            data['estimator_covariances'] = []
            for covariance_matrix in self.estimator_covariances:
                data['estimator_covariances'].append(convert_array_to_dict(covariance_matrix))
        return data

    @classmethod
    def from_dict(cls, dictionary: dict) -> ExpectationValues:
        expectation_values = convert_dict_to_array(dictionary['expectation_values'])
        correlations: Optional[List] = None
        if dictionary.get('correlations'):
            correlations = []
            for correlation_matrix in cast(Iterable, dictionary.get('correlations')):
                correlations.append(convert_dict_to_array(correlation_matrix))
        estimator_covariances: Union[List, None] = None
        if dictionary.get('estimator_covariances'):
            estimator_covariances = []
            for covariance_matrix in cast(Iterable, dictionary.get('estimator_covariances')):
                estimator_covariances.append(convert_dict_to_array(covariance_matrix))
        return cls(expectation_values, correlations, estimator_covariances)

    def __eq__(self, __o: object) -> bool:
        return self.__dict__ == __o.__dict__

def sample_from_wavefunction(wavefunction: Wavefunction, n_samples: int, seed: Optional[int]=None) -> List[Tuple[int, ...]]:
    if n_samples < 1:
        raise ValueError('Must sample from wavefunction at least once.')
    rng = np.random.default_rng(seed)
    outcomes_str, probabilities_np = zip(*wavefunction.get_outcome_probs().items())
    probabilities = [x[0] if isinstance(x, (list, np.ndarray)) else x for x in list(probabilities_np)]
    samples_ndarray = rng.choice(a=outcomes_str, size=n_samples, p=probabilities)
    samples = [tuple((int(y) for y in list(x)[::-1])) for x in list(samples_ndarray)]
    return samples

class Parities:

    def __init__(self, values: np.ndarray, correlations: Optional[List[np.ndarray]]=None):
        self.values = values
        self.correlations = correlations

    def to_dict(self) -> dict:
        data: Dict[str, Any] = {'values': convert_array_to_dict(self.values)}
        if self.correlations:
            data['correlations'] = [convert_array_to_dict(arr) for arr in self.correlations]
        return data

    @classmethod
    def from_dict(cls, data: dict):
        values = convert_dict_to_array(data['values'])
        if data.get('correlations'):
            correlations: Optional[List] = [convert_dict_to_array(arr) for arr in data['correlations']]
        else:
            correlations = None
        return cls(values, correlations)

def save_parities(parities: Parities, filename: AnyPath) -> None:
    data = parities.to_dict()
    data['schema'] = SCHEMA_VERSION + '-parities'
    with open(filename, 'w') as f:
        f.write(json.dumps(data, indent=2))

def load_parities(file: LoadSource) -> Parities:
    with ensure_open(file) as f:
        data = json.load(f)
    return Parities.from_dict(data)

def get_expectation_values_from_parities(parities: Parities) -> ExpectationValues:
    values = []
    estimator_covariances = []
    for i in range(len(parities.values)):
        N0 = parities.values[i][0]
        N1 = parities.values[i][1]
        N = N0 + N1
        if N == 0:
            raise ValueError('There must be at least one sample for each operator')
        p = N0 / N
        value = 2.0 * p - 1.0
        if N >= 100 and p >= 0.1 and (p <= 0.9):
            precision = 2.0 * np.sqrt(p * (1.0 - p)) / np.sqrt(N)
        else:
            precision = 1.0 / np.sqrt(N)
        values.append(value)
        estimator_covariances.append(np.array([[precision ** 2.0]]))
    return ExpectationValues(values=np.array(values), estimator_covariances=estimator_covariances)

def get_parities_from_measurements(measurements: List[Tuple[int]], ising_operator) -> Parities:
    from zquantum.core.openfermion.ops import IsingOperator
    if not isinstance(ising_operator, IsingOperator):
        raise TypeError('Input operator not openfermion.IsingOperator')
    bitstring_frequencies = Counter(measurements)
    bitstrings_vector = np.array([*bitstring_frequencies.keys()])
    bitstring_counts: np.ndarray = np.fromiter(bitstring_frequencies.values(), dtype=int)
    values = []
    for _, term in enumerate(ising_operator.terms):
        marked_qubits = [op[0] for op in term]
        parity = check_parity_of_vector(bitstrings_vector, marked_qubits)
        true_parity_count: int = (parity * bitstring_counts).sum()
        false_parity_count: int = ((1 - parity) * bitstring_counts).sum()
        values.append([true_parity_count, false_parity_count])
    correlations = [np.zeros((len(ising_operator.terms), len(ising_operator.terms), 2))]
    for term1_index, term1 in enumerate(ising_operator.terms):
        for term2_index, term2 in enumerate(ising_operator.terms):
            marked_qubits_term1 = [op[0] for op in term1]
            marked_qubits_term2 = [op[0] for op in term2]
            parity1 = check_parity_of_vector(bitstrings_vector, marked_qubits_term1)
            parity2 = check_parity_of_vector(bitstrings_vector, marked_qubits_term2)
            equal_parities = np.abs(parity1 - parity2)
            correlations[0][term1_index, term2_index][0] += ((1 - equal_parities) * bitstring_counts).sum()
            correlations[0][term1_index, term2_index][1] += (equal_parities * bitstring_counts).sum()
    return Parities(np.array(values), correlations)

def expectation_values_to_real(expectation_values: ExpectationValues) -> ExpectationValues:
    values = []
    for i, value in enumerate(expectation_values.values):
        if isinstance(value, complex):
            value = value.real
        values.append(value)
    expectation_values.values = np.array(values)
    if expectation_values.correlations:
        for i, value in enumerate(expectation_values.correlations):
            if isinstance(value, complex):
                value = value.real
            expectation_values.correlations[i] = value
    return expectation_values

def convert_bitstring_to_int(bitstring: Sequence[int]) -> int:
    return int(''.join((str(bit) for bit in bitstring[::-1])), 2)

def check_parity(bitstring: Union[str, Sequence[int]], marked_qubits: Iterable[int]) -> bool:
    result = True
    for qubit_index in marked_qubits:
        if bitstring[qubit_index] == '1' or bitstring[qubit_index] == 1:
            result = not result
    return result

def check_parity_of_vector(bitstrings_vector: np.ndarray, marked_qubits: Iterable[int]) -> np.ndarray:
    if not marked_qubits:
        return np.ones(bitstrings_vector.shape[0])
    bitstring_subset = bitstrings_vector[:, np.fromiter(marked_qubits, dtype=int)]
    return (bitstring_subset.sum(axis=1) + 1) % 2

def _convert_bitstrings_to_vector(bitstrings: Iterable[str]) -> np.ndarray:
    n_qubits = len([*bitstrings][0])
    all_bits = ''.join(bitstrings)
    bitstring_1d_array = np.frombuffer(all_bits.encode('utf-8'), 'u1') - ord('0')
    return bitstring_1d_array.astype(int).reshape(-1, n_qubits)

def get_expectation_value_from_frequencies(marked_qubits: Iterable[int], bitstring_frequencies: Dict[str, int]) -> float:
    parity = check_parity_of_vector(_convert_bitstrings_to_vector(bitstring_frequencies.keys()), marked_qubits) * 2 - 1
    num_measurements = sum(bitstring_frequencies.values())
    expectation_values: np.ndarray = np.fromiter(bitstring_frequencies.values(), dtype=int) * parity / num_measurements
    return expectation_values.sum().item()

def _check_sample_elimination(samples: Counter, bitstring_samples: List[Tuple[int, ...]], leftover_distribution: MeasurementOutcomeDistribution) -> Counter:
    bitstring_counts = Counter(bitstring_samples)
    nresamples = 1
    corrected_leftover_distribution = MeasurementOutcomeDistribution(leftover_distribution.distribution_dict)
    correct_samples = samples.copy()
    while nresamples != 0:
        new_samples = None
        nresamples = 0
        for sample in correct_samples:
            bitstring = tuple([int(measurement_value) for measurement_value in sample])
            if correct_samples[sample] > bitstring_counts[bitstring]:
                nresamples = correct_samples[sample] - bitstring_counts[bitstring]
                correct_samples[sample] = bitstring_counts[bitstring]
                distribution_dict = corrected_leftover_distribution.distribution_dict
                distribution_dict[sample] = 0
                corrected_leftover_distribution = MeasurementOutcomeDistribution(distribution_dict, True)
                new_samples = sample_from_probability_distribution(corrected_leftover_distribution.distribution_dict, nresamples)
                correct_samples = correct_samples + new_samples
                break
    return correct_samples

class Measurements:

    def __init__(self, bitstrings: Optional[List[Tuple[int, ...]]]=None):
        if bitstrings is None:
            self.bitstrings = []
        else:
            self.bitstrings = bitstrings

    @classmethod
    def from_counts(cls, counts: Dict[str, int]):
        measurements = cls()
        measurements.add_counts(counts)
        return measurements

    @classmethod
    def get_measurements_representing_distribution(cls, measurement_outcome_distribution: MeasurementOutcomeDistribution, number_of_samples: int):
        distribution = copy.deepcopy(measurement_outcome_distribution.distribution_dict)
        bitstring_samples = []
        for state in distribution:
            bitstring = tuple([int(measurement_value) for measurement_value in state])
            bitstring_samples += [bitstring] * int(round(distribution[state] * number_of_samples))
        if len(bitstring_samples) != number_of_samples:
            leftover_distribution = MeasurementOutcomeDistribution({states: 0.5 - abs(0.5 - distribution[states] * number_of_samples % 1) for states in distribution.keys()}, True)
            samples = sample_from_probability_distribution(leftover_distribution.distribution_dict, abs(number_of_samples - len(bitstring_samples)))
            if number_of_samples - len(bitstring_samples) > 0:
                for sample in samples:
                    bitstring_samples += [tuple([int(measurement_value) for measurement_value in sample])] * samples[sample]
            else:
                samples = _check_sample_elimination(samples, bitstring_samples, leftover_distribution)
                for sample in samples:
                    for _ in range(samples[sample]):
                        bitstring_samples.remove(tuple([int(measurement_value) for measurement_value in sample]))
        return cls(bitstring_samples)

    @classmethod
    def load_from_file(cls, file: TextIO):
        if isinstance(file, str):
            with open(file, 'r') as f:
                data = json.load(f)
        else:
            data = json.load(file)
        bitstrings = []
        for bitstring in data['bitstrings']:
            bitstrings.append(tuple(bitstring))
        return cls(bitstrings=bitstrings)

    def save(self, filename: AnyPath):
        data = {'schema': SCHEMA_VERSION + '-measurements', 'counts': self.get_counts(), 'bitstrings': [list(map(int, list(bitstring))) for bitstring in self.bitstrings]}
        with open(filename, 'w') as f:
            f.write(json.dumps(data, indent=2))

    def get_counts(self):
        bitstrings = convert_tuples_to_bitstrings(self.bitstrings)
        return dict(Counter(bitstrings))

    def add_counts(self, counts: Dict[str, int]):
        for bitstring in counts.keys():
            measurement = []
            for bitvalue in bitstring:
                measurement.append(int(bitvalue))
            self.bitstrings += [tuple(measurement)] * counts[bitstring]

    def get_distribution(self) -> MeasurementOutcomeDistribution:
        counts = self.get_counts()
        num_measurements = len(self.bitstrings)
        distribution = {}
        for bitstring in counts.keys():
            distribution[bitstring] = counts[bitstring] / num_measurements
        return MeasurementOutcomeDistribution(distribution)

    def get_expectation_values(self, ising_operator, use_bessel_correction: bool=False) -> ExpectationValues:
        from zquantum.core.openfermion.ops import IsingOperator
        if not isinstance(ising_operator, IsingOperator):
            raise TypeError('Input operator is not openfermion.IsingOperator')
        bitstring_frequencies = self.get_counts()
        num_measurements = len(self.bitstrings)
        expectation_values_list = [coefficient * get_expectation_value_from_frequencies([cast(int, op[0]) for op in term], bitstring_frequencies) for term, coefficient in ising_operator.terms.items()]
        expectation_values = np.array(expectation_values_list)
        correlations = np.zeros((len(ising_operator.terms),) * 2)
        for i, first_term in enumerate(ising_operator.terms):
            correlations[i, i] = ising_operator.terms[first_term] ** 2
            for j in range(i):
                second_term = list(ising_operator.terms.keys())[j]
                first_term_qubits = set((op[0] for op in first_term))
                second_term_qubits = set((op[0] for op in second_term))
                marked_qubits = first_term_qubits.symmetric_difference(second_term_qubits)
                correlations[i, j] = ising_operator.terms[first_term] * ising_operator.terms[second_term] * get_expectation_value_from_frequencies(marked_qubits, bitstring_frequencies)
                correlations[j, i] = correlations[i, j]
        denominator = num_measurements - 1 if use_bessel_correction else num_measurements
        estimator_covariances = (correlations - expectation_values[:, np.newaxis] * expectation_values[np.newaxis, :]) / denominator
        return ExpectationValues(expectation_values, [correlations], [estimator_covariances])

def concatenate_expectation_values(expectation_values_set: Iterable[ExpectationValues]) -> ExpectationValues:
    combined_expectation_values = ExpectationValues(np.zeros(0))
    for expectation_values in expectation_values_set:
        combined_expectation_values.values = np.concatenate((combined_expectation_values.values, expectation_values.values))
        if expectation_values.correlations:
            if not combined_expectation_values.correlations:
                combined_expectation_values.correlations = []
            combined_expectation_values.correlations += expectation_values.correlations
        if expectation_values.estimator_covariances:
            if not combined_expectation_values.estimator_covariances:
                combined_expectation_values.estimator_covariances = []
            combined_expectation_values.estimator_covariances += expectation_values.estimator_covariances
    return combined_expectation_values
