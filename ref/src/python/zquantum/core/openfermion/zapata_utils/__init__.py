from ._io import convert_dict_to_interaction_op, convert_dict_to_interaction_rdm, convert_dict_to_isingop, convert_dict_to_operator, convert_dict_to_qubitop, convert_interaction_op_to_dict, convert_interaction_rdm_to_dict, convert_isingop_to_dict, convert_qubitop_to_dict, get_pauli_strings, load_interaction_operator, load_interaction_rdm, load_ising_operator, load_qubit_operator, load_qubit_operator_set, save_interaction_operator, save_interaction_rdm, save_ising_operator, save_parameter_grid_evaluation, save_qubit_operator, save_qubit_operator_set
from ._utils import change_operator_type, create_circuits_from_qubit_operator, evaluate_qubit_operator, evaluate_qubit_operator_list, generate_random_qubitop, get_diagonal_component, get_expectation_value, get_fermion_number_operator, get_ground_state_rdm_from_qubit_op, get_polynomial_tensor, get_qubitop_from_coeffs_and_labels, get_qubitop_from_matrix, hf_rdm, remove_inactive_orbitals, reverse_qubit_order
