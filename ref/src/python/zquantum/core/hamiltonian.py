import copy
from typing import Callable, Dict, List, Optional, Tuple
import numpy as np
from zquantum.core.openfermion.ops import InteractionOperator, InteractionRDM, QubitOperator
from .measurement import ExpectationValues, expectation_values_to_real

def is_comeasureable(term_1: Tuple[Tuple[int, str], ...], term_2: Tuple[Tuple[int, str], ...]) -> bool:
    for qubit_1, operator_1 in term_1:
        for qubit_2, operator_2 in term_2:
            if qubit_1 == qubit_2:
                if operator_1 != operator_2:
                    return False
    return True

def group_comeasureable_terms_greedy(qubit_operator: QubitOperator, sort_terms: bool=False) -> List[QubitOperator]:
    groups: List[QubitOperator] = []
    constant_term = None
    if sort_terms:
        terms_iterator = sorted(qubit_operator.terms.items(), key=lambda x: abs(x[1]), reverse=True)
    else:
        terms_iterator = qubit_operator.terms.items()
    for term, coefficient in terms_iterator:
        assigned = False
        if term == ():
            constant_term = QubitOperator(term, coefficient)
            continue
        for group in groups:
            if all((is_comeasureable(term, term_to_compare) for term_to_compare in group.terms)):
                group += QubitOperator(term, coefficient)
                assigned = True
                break
        if not assigned:
            groups.append(QubitOperator(term, qubit_operator.terms[term]))
    if constant_term is not None:
        groups.append(constant_term)
    return groups

def _group_comeasureable_terms_greedy_sorted(qubit_operator: QubitOperator) -> List[QubitOperator]:
    return group_comeasureable_terms_greedy(qubit_operator, True)
DECOMPOSITION_METHODS: Dict[str, Callable[[QubitOperator], List[QubitOperator]]] = {'greedy': group_comeasureable_terms_greedy, 'greedy-sorted': _group_comeasureable_terms_greedy_sorted}

def get_decomposition_function(decomposition_method: str) -> Callable[[QubitOperator], List[QubitOperator]]:
    decomposition_function = DECOMPOSITION_METHODS.get(decomposition_method)
    if decomposition_function is None:
        raise ValueError(f'Unrecognized decomposition method {decomposition_method}.Allowed values are {list(DECOMPOSITION_METHODS.keys())}')
    return decomposition_function

def _calculate_variance_upper_bound(group: QubitOperator) -> float:
    coefficients = np.array(list(group.terms.values()))
    return np.sum(coefficients ** 2)

def _remove_constant_term_from_group(group: QubitOperator) -> QubitOperator:
    new_group = copy.deepcopy(group)
    if new_group.terms.get(()):
        del new_group.terms[()]
    return new_group

def compute_group_variances(groups: List[QubitOperator], expecval: ExpectationValues=None) -> np.ndarray:
    if expecval is None:
        groups = [_remove_constant_term_from_group(group) for group in groups]
        frame_variances = [_calculate_variance_upper_bound(group) for group in groups]
    else:
        group_sizes = np.array([len(group.terms.keys()) for group in groups])
        if np.sum(group_sizes) != len(expecval.values):
            raise ValueError('Number of expectation values should be the same as number of terms.')
        real_expecval = expectation_values_to_real(copy.deepcopy(expecval))
        if not np.logical_and(real_expecval.values >= -1, real_expecval.values <= 1).all():
            raise ValueError('Expectation values should have values between -1 and 1.')
        pauli_variances = 1.0 - real_expecval.values ** 2
        frame_variances = []
        for i, group in enumerate(groups):
            coeffs = np.array(list(group.terms.values()))
            offset = 0 if i == 0 else np.sum(group_sizes[:i])
            pauli_variances_for_group = pauli_variances[offset:offset + group_sizes[i]]
            frame_variances.append(np.sum(coeffs ** 2 * pauli_variances_for_group))
    return np.array(frame_variances)

def get_expectation_values_from_rdms_for_qubitoperator_list(interactionrdm: InteractionRDM, qubitoperator_list: List[QubitOperator], sort_terms: bool=False) -> ExpectationValues:
    all_expectations = []
    for qubitoperator in qubitoperator_list:
        expectations = get_expectation_values_from_rdms(interactionrdm, qubitoperator, sort_terms=sort_terms)
        all_expectations += list(expectations.values)
    return ExpectationValues(np.asarray(all_expectations))

def get_expectation_values_from_rdms(interactionrdm: InteractionRDM, qubitoperator: QubitOperator, sort_terms: bool=False) -> ExpectationValues:
    if sort_terms:
        terms_iterator = sorted(qubitoperator.terms.items(), key=lambda x: abs(x[1]), reverse=True)
    else:
        terms_iterator = qubitoperator.terms.items()
    reordered_qubitoperator = QubitOperator()
    for term, coefficient in terms_iterator:
        reordered_qubitoperator += QubitOperator(term, coefficient)
    expectations_packed = interactionrdm.get_qubit_expectations(reordered_qubitoperator)
    expectations = np.array(list(expectations_packed.terms.values()))
    if np.any(np.abs(np.imag(expectations)) > 0.001):
        raise RuntimeWarning('Expectation values extracted from rdms insideget_expectation_values_from_rdms are complex!')
    expectations = np.real(expectations)
    np.clip(expectations, -1, 1, out=expectations)
    return ExpectationValues(expectations)

def estimate_nmeas_for_frames(frame_operators: List[QubitOperator], expecval: Optional[ExpectationValues]=None) -> Tuple[float, int, np.ndarray]:
    frame_variances = compute_group_variances(frame_operators, expecval)
    sqrt_lambda = sum(np.sqrt(frame_variances))
    frame_meas = sqrt_lambda * np.sqrt(frame_variances)
    K2 = sum(frame_meas)
    nterms = sum([len(group.terms) for group in frame_operators])
    return (K2, nterms, frame_meas)

def reorder_fermionic_modes(interaction_op: InteractionOperator, ordering: List) -> InteractionOperator:
    one_body_tensor = interaction_op.one_body_tensor[:, :]
    one_body_tensor = one_body_tensor[ordering, :]
    one_body_tensor = one_body_tensor[:, ordering]
    two_body_tensor = interaction_op.two_body_tensor[:, :, :, :]
    two_body_tensor = two_body_tensor[ordering, :, :, :]
    two_body_tensor = two_body_tensor[:, ordering, :, :]
    two_body_tensor = two_body_tensor[:, :, ordering, :]
    two_body_tensor = two_body_tensor[:, :, :, ordering]
    reordered_interaction_op = InteractionOperator(interaction_op.constant, one_body_tensor, two_body_tensor)
    return reordered_interaction_op
