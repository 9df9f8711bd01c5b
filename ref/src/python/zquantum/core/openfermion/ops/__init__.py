from .operators import FermionOperator, IsingOperator, QubitOperator, SymbolicOperator
from .representations import PolynomialTensor, PolynomialTensorError, general_basis_change, InteractionOperator, InteractionOperatorError, InteractionRDM, InteractionRDMError
