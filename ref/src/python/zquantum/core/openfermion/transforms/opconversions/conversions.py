import itertools
import sympy
from zquantum.core.openfermion.ops.operators import FermionOperator
from zquantum.core.openfermion.ops.representations import PolynomialTensor
from zquantum.core.openfermion.utils.operator_utils import count_qubits

def check_no_sympy(operator):
    for key in operator.terms:
        if isinstance(operator.terms[key], sympy.Expr):
            raise TypeError('This conversion is currently not supported ' + 'for operators with sympy expressions ' + 'as coefficients')

def get_fermion_operator(operator):
    if isinstance(operator, PolynomialTensor):
        return _polynomial_tensor_to_fermion_operator(operator)
    else:
        raise TypeError('{} cannot be converted to FermionOperator'.format(type(operator)))

def _polynomial_tensor_to_fermion_operator(operator):
    fermion_operator = FermionOperator()
    for term in operator:
        fermion_operator += FermionOperator(term, operator[term])
    return fermion_operator
