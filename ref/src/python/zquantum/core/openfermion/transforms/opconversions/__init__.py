from .bravyi_kitaev import bravyi_kitaev, inline_product, inline_sum
from .conversions import check_no_sympy, get_fermion_operator
from .jordan_wigner import jordan_wigner, jordan_wigner_one_body, jordan_wigner_two_body
from .reverse_jordan_wigner import reverse_jordan_wigner
from .term_reordering import chemist_ordered, normal_ordered, normal_ordered_ladder_term, reorder
