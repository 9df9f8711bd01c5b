import math
from typing import TYPE_CHECKING, Dict
if TYPE_CHECKING:
    from zquantum.core.distribution import MeasurementOutcomeDistribution

def compute_clipped_negative_log_likelihood(target_distribution: 'MeasurementOutcomeDistribution', measured_distribution: 'MeasurementOutcomeDistribution', distance_measure_parameters: Dict) -> float:
    epsilon = distance_measure_parameters.get('epsilon', 1e-09)
    value = 0.0
    target_keys = target_distribution.distribution_dict.keys()
    measured_keys = measured_distribution.distribution_dict.keys()
    all_keys = set(target_keys).union(measured_keys)
    for bitstring in all_keys:
        target_bitstring_value = target_distribution.distribution_dict.get(bitstring, 0)
        measured_bitstring_value = measured_distribution.distribution_dict.get(bitstring, 0)
        value += target_bitstring_value * math.log(max(epsilon, measured_bitstring_value))
    return -value
