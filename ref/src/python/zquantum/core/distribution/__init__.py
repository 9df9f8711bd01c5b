import math
from ._measurement_outcome_distribution import MeasurementOutcomeDistribution, change_tuple_dict_keys_to_comma_separated_integers, create_bitstring_distribution_from_probability_distribution, evaluate_distribution_distance, is_measurement_outcome_distribution, is_normalized, load_measurement_outcome_distribution, load_measurement_outcome_distributions, normalize_measurement_outcome_distribution, preprocess_distibution_dict, save_measurement_outcome_distribution, save_measurement_outcome_distributions
from .clipped_negative_log_likelihood import compute_clipped_negative_log_likelihood
from .jensen_shannon_divergence import compute_jensen_shannon_divergence
from .mmd import compute_mmd, compute_multi_rbf_kernel, compute_rbf_kernel
