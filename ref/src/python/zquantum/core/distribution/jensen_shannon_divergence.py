from typing import TYPE_CHECKING, Dict
from .clipped_negative_log_likelihood import compute_clipped_negative_log_likelihood
if TYPE_CHECKING:
    from zquantum.core.distribution import MeasurementOutcomeDistribution

def compute_jensen_shannon_divergence(target_distribution: 'MeasurementOutcomeDistribution', measured_distribution: 'MeasurementOutcomeDistribution', distance_measure_parameters: Dict) -> float:
    value = compute_clipped_negative_log_likelihood(target_distribution, measured_distribution, distance_measure_parameters) / 2 + compute_clipped_negative_log_likelihood(measured_distribution, target_distribution, distance_measure_parameters) / 2
    return value
