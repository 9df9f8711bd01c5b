from .polynomial_tensor import PolynomialTensor, PolynomialTensorError, general_basis_change
from .interaction_operator import InteractionOperator, InteractionOperatorError, get_active_space_integrals, get_tensors_from_integrals
from .interaction_rdm import InteractionRDM, InteractionRDMError
