from typing import TYPE_CHECKING, Dict, Sequence
import numpy as np
if TYPE_CHECKING:
    from zquantum.core.distribution import MeasurementOutcomeDistribution

def compute_rbf_kernel(x_i: np.ndarray, y_j: np.ndarray, sigma: float) -> np.ndarray:
    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
    try:
        gamma = 1.0 / (2 * sigma)
    except ZeroDivisionError as error:
        print('Handling run-time error:', error)
        raise
    kernel_matrix = np.exp(-gamma * exponent)
    return kernel_matrix

def compute_multi_rbf_kernel(x_i: np.ndarray, y_j: np.ndarray, sigmas: Sequence[float]) -> np.ndarray:
    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
    kernel_matrix = np.zeros(exponent.shape)
    for sigma in sigmas:
        try:
            gamma = 1.0 / (2 * sigma)
        except ZeroDivisionError as error:
            print('Handling run-time error:', error)
            raise
        kernel_matrix += np.exp(-gamma * exponent)
    return kernel_matrix / len(sigmas)

def compute_mmd(target_distribution: 'MeasurementOutcomeDistribution', measured_distribution: 'MeasurementOutcomeDistribution', distance_measure_parameters: Dict) -> float:
    sigma = distance_measure_parameters.get('sigma', 1.0)
    target_keys = target_distribution.distribution_dict.keys()
    measured_keys = measured_distribution.distribution_dict.keys()
    all_keys = set(target_keys).union(measured_keys)
    target_values = []
    measured_values = []
    for bitstring in all_keys:
        target_values.append(target_distribution.distribution_dict.get(bitstring, 0))
        measured_values.append(measured_distribution.distribution_dict.get(bitstring, 0))
    basis = np.asarray([int(''.join(map(str, item)), 2) for item in all_keys])
    if not hasattr(sigma, '__len__'):
        kernel_matrix = compute_rbf_kernel(basis, basis, sigma)
    else:
        kernel_matrix = compute_multi_rbf_kernel(basis, basis, sigma)
    diff = np.array(target_values) - np.array(measured_values)
    return diff.dot(kernel_matrix.dot(diff))
