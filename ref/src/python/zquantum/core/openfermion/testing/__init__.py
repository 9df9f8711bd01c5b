from .random import random_interaction_operator_term
from .testing_utils import EqualsTester, module_importable, random_antisymmetric_matrix, random_hermitian_matrix, random_interaction_operator, random_qubit_operator, random_unitary_matrix
