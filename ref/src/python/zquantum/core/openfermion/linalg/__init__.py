from .sparse_tools import eigenspectrum, expectation, get_density_matrix, get_ground_state, get_number_preserving_sparse_operator, get_sparse_operator, inner_product, jordan_wigner_ladder_sparse, jordan_wigner_sparse, jw_configuration_state, jw_get_ground_state_at_particle_number, jw_hartree_fock_state, jw_number_indices, jw_number_restrict_operator, kronecker_operators, qubit_operator_sparse, sparse_eigenspectrum, wrapped_kronecker
