import numpy
from zquantum.core.openfermion.ops.operators import FermionOperator
from zquantum.core.openfermion.transforms.opconversions.term_reordering import normal_ordered

def commutator(operator_a, operator_b):
    if type(operator_a) != type(operator_b):
        raise TypeError('operator_a and operator_b are not of the same type.')
    if isinstance(operator_a, numpy.ndarray):
        result = operator_a.dot(operator_b)
        result -= operator_b.dot(operator_a)
    else:
        result = operator_a * operator_b
        result -= operator_b * operator_a
    return result

def anticommutator(operator_a, operator_b):
    if type(operator_a) != type(operator_b):
        raise TypeError('operator_a and operator_b are not of the same type.')
    if isinstance(operator_a, numpy.ndarray):
        result = operator_a.dot(operator_b)
        result += operator_b.dot(operator_a)
    else:
        result = operator_a * operator_b
        result += operator_b * operator_a
    return result

def double_commutator(op1, op2, op3, indices2=None, indices3=None, is_hopping_operator2=None, is_hopping_operator3=None):
    if is_hopping_operator2 and is_hopping_operator3:
        indices2 = set(indices2)
        indices3 = set(indices3)
        try:
            intersection, = indices2.intersection(indices3)
        except ValueError:
            return FermionOperator.zero()
        indices2.remove(intersection)
        indices3.remove(intersection)
        index2, = indices2
        index3, = indices3
        coeff2 = op2.terms[list(op2.terms)[0]]
        coeff3 = op3.terms[list(op3.terms)[0]]
        commutator23 = FermionOperator(((index2, 1), (index3, 0)), coeff2 * coeff3) + FermionOperator(((index3, 1), (index2, 0)), -coeff2 * coeff3)
    else:
        commutator23 = normal_ordered(commutator(op2, op3))
    return normal_ordered(commutator(op1, commutator23))
