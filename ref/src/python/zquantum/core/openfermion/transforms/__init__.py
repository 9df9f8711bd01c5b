from .opconversions import bravyi_kitaev, check_no_sympy, chemist_ordered, get_fermion_operator, jordan_wigner, jordan_wigner_one_body, jordan_wigner_two_body, normal_ordered, normal_ordered_ladder_term, reorder, reverse_jordan_wigner
from .repconversions import freeze_orbitals, get_interaction_operator, get_molecular_data, prune_unused_indices
