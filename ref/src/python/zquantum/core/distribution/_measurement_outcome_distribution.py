import json
import math
import sys
import warnings
from itertools import product
from typing import Any, Callable, Dict, List, Tuple, Union
import numpy as np
from ..typing import AnyPath
from ..utils import SCHEMA_VERSION

class MeasurementOutcomeDistribution:

    def __init__(self, input_dict: Union[Dict[Tuple[int, ...], float], Dict[str, float], Dict[Union[str, Tuple[int, ...]], float]], normalize: bool=True):
        preprocessed_input_dict = preprocess_distibution_dict(input_dict)
        if is_measurement_outcome_distribution(preprocessed_input_dict):
            if is_normalized(preprocessed_input_dict):
                self.distribution_dict = preprocessed_input_dict
            elif normalize:
                self.distribution_dict = normalize_measurement_outcome_distribution(preprocessed_input_dict)
            else:
                warnings.warn('MeasurementOutcomeDistribution object is not normalized.')
                self.distribution_dict = preprocessed_input_dict
        else:
            raise RuntimeError('Initialization of MeasurementOutcomeDistribution object FAILED: the input dictionary is not a non-negative integer sequence probability distribution. Check keys (same-length non-negative integer tuples) and values (non-negative floats).')

    def __repr__(self) -> str:
        output = f'MeasurementOutcomeDistribution(input={self.distribution_dict})'
        return output

    def get_number_of_subsystems(self) -> int:
        return len(list(self.distribution_dict.keys())[0])

def preprocess_distibution_dict(input_dict: Union[Dict[Tuple[int, ...], float], Dict[str, float], Dict[Union[str, Tuple[int, ...]], float]]) -> Dict[Tuple[int, ...], float]:
    res_dict = {}
    for key, value in input_dict.items():
        if isinstance(key, str):
            res_dict[tuple(map(int, key if ',' not in key else key.split(',')))] = value
        elif isinstance(key, tuple):
            res_dict[key] = value
        else:
            raise RuntimeError('Initialization of MeasurementOutcomeDistribution object FAILED:The non-tuple dictionary keys are not consistent. Check that the keys are either same-length tuples, binary strings or comma-separated non-negative integer strings.')
    return res_dict

def _is_non_negative(input_dict: Dict[Tuple[int, ...], float]) -> bool:
    return all((value >= 0 for value in input_dict.values()))

def _is_key_length_fixed(input_dict: Dict[Tuple[int, ...], float]) -> bool:
    key_length = len(list(input_dict.keys())[0])
    return all((len(key) == key_length for key in input_dict.keys()))

def _are_keys_non_negative_integer_tuples(input_dict: Dict[Tuple[int, ...], float]) -> bool:
    return all((all((isinstance(sub, (int, np.integer)) and sub >= 0 for sub in key)) for key in input_dict.keys()))

def is_measurement_outcome_distribution(input_dict: Dict[Tuple[int, ...], float]) -> bool:
    return not input_dict == {} and _is_non_negative(input_dict) and _is_key_length_fixed(input_dict) and _are_keys_non_negative_integer_tuples(input_dict)

def is_normalized(input_dict: Dict[Tuple[int, ...], float]) -> bool:
    norm = sum(input_dict.values())
    return math.isclose(norm, 1)

def normalize_measurement_outcome_distribution(measurement_outcome_distribution: Dict[Tuple[int, ...], float]) -> Dict:
    norm = sum(measurement_outcome_distribution.values())
    if norm == 0:
        raise ValueError('Normalization of MeasurementOutcomeDistribution FAILED: input dict is empty (all zero values).')
    elif 0 < norm < sys.float_info.min:
        raise ValueError('Normalization of MeasurementOutcomeDistribution FAILED: too small values.')
    elif norm == 1:
        return measurement_outcome_distribution
    else:
        for key in measurement_outcome_distribution:
            measurement_outcome_distribution[key] *= 1.0 / norm
        return measurement_outcome_distribution

def change_tuple_dict_keys_to_comma_separated_integers(dict):
    return {','.join(map(str, key)) if isinstance(key, tuple) else key: value for key, value in dict.items()}

def save_measurement_outcome_distribution(distribution: MeasurementOutcomeDistribution, filename: AnyPath) -> None:
    dictionary: Dict[str, Any] = {}
    preprocessed_distribution_dict = change_tuple_dict_keys_to_comma_separated_integers(distribution.distribution_dict)
    dictionary['measurement_outcome_distribution'] = preprocessed_distribution_dict
    dictionary['schema'] = SCHEMA_VERSION + '-measurement-outcome-probability-distribution'
    with open(filename, 'w') as f:
        f.write(json.dumps(dictionary, indent=2))

def save_measurement_outcome_distributions(measurement_outcome_distribution: List[MeasurementOutcomeDistribution], filename: str) -> None:
    dictionary: Dict[str, Any] = {}
    dictionary['schema'] = SCHEMA_VERSION + '-measurement-outcome-probability-distribution-set'
    dictionary['measurement_outcome_distribution'] = []
    for distribution in measurement_outcome_distribution:
        dictionary['measurement_outcome_distribution'].append(change_tuple_dict_keys_to_comma_separated_integers(distribution.distribution_dict))
    with open(filename, 'w') as f:
        f.write(json.dumps(dictionary, indent=2))

def load_measurement_outcome_distribution(file: str) -> MeasurementOutcomeDistribution:
    if isinstance(file, str):
        with open(file, 'r') as f:
            data = json.load(f)
    else:
        data = json.load(file)
    try:
        distribution = MeasurementOutcomeDistribution(data['bitstring_distribution'])
    except KeyError:
        distribution = MeasurementOutcomeDistribution(data['measurement_outcome_distribution'])
    return distribution

def load_measurement_outcome_distributions(file: str) -> List[MeasurementOutcomeDistribution]:
    if isinstance(file, str):
        with open(file, 'r') as f:
            data = json.load(f)
    else:
        data = json.load(file)
    distribution_list = []
    for i in range(len(data['measurement_outcome_distribution'])):
        try:
            distribution_list.append(MeasurementOutcomeDistribution(data['bitstring_distribution'][i]))
        except KeyError:
            distribution_list.append(MeasurementOutcomeDistribution(data['measurement_outcome_distribution'][i]))
    return distribution_list

def create_bitstring_distribution_from_probability_distribution(prob_distribution: np.ndarray) -> MeasurementOutcomeDistribution:
    keys = product([0, 1], repeat=int(np.log2(len(prob_distribution))))
    prob_dict: Dict[Union[str, Tuple[int, ...]], float] = {key: float(value) for key, value in zip(keys, prob_distribution)}
    return MeasurementOutcomeDistribution(prob_dict)

def evaluate_distribution_distance(target_distribution: MeasurementOutcomeDistribution, measured_distribution: MeasurementOutcomeDistribution, distance_measure_function: Callable, **kwargs) -> float:
    if not isinstance(target_distribution, MeasurementOutcomeDistribution) or not isinstance(measured_distribution, MeasurementOutcomeDistribution):
        raise TypeError('Arguments of evaluate_cost_function must be of type MeasurementOutcomeDistribution.')
    if target_distribution.get_number_of_subsystems() != measured_distribution.get_number_of_subsystems():
        raise RuntimeError('Measurement Outcome Distribution Distance Evaluation FAILED: target and measured distributions are defined on tuples of different length.')
    if is_normalized(target_distribution.distribution_dict) != is_normalized(measured_distribution.distribution_dict):
        raise RuntimeError('Measurement Outcome Distribution Distance Evaluation FAILED: one among target and measured distribution is normalized, whereas the other is not.')
    return distance_measure_function(target_distribution, measured_distribution, **kwargs)
