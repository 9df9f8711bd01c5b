import numpy
from zquantum.core.openfermion.ops.operators.symbolic_operator import SymbolicOperator
_PAULI_OPERATOR_PRODUCTS = {('I', 'I'): (1.0, 'I'), ('I', 'X'): (1.0, 'X'), ('X', 'I'): (1.0, 'X'), ('I', 'Y'): (1.0, 'Y'), ('Y', 'I'): (1.0, 'Y'), ('I', 'Z'): (1.0, 'Z'), ('Z', 'I'): (1.0, 'Z'), ('X', 'X'): (1.0, 'I'), ('Y', 'Y'): (1.0, 'I'), ('Z', 'Z'): (1.0, 'I'), ('X', 'Y'): (1j, 'Z'), ('X', 'Z'): (-1j, 'Y'), ('Y', 'X'): (-1j, 'Z'), ('Y', 'Z'): (1j, 'X'), ('Z', 'X'): (1j, 'Y'), ('Z', 'Y'): (-1j, 'X')}

class QubitOperator(SymbolicOperator):

    @property
    def actions(self):
        return ('X', 'Y', 'Z')

    @property
    def action_strings(self):
        return ('X', 'Y', 'Z')

    @property
    def action_before_index(self):
        return True

    @property
    def different_indices_commute(self):
        return True

    def renormalize(self):
        norm = self.induced_norm(2)
        if numpy.isclose(norm, 0.0):
            raise ZeroDivisionError('Cannot renormalize empty or zero operator')
        else:
            self /= norm

    def _simplify(self, term, coefficient=1.0):
        if not term:
            return (coefficient, term)
        term = sorted(term, key=lambda factor: factor[0])
        new_term = []
        left_factor = term[0]
        for right_factor in term[1:]:
            left_index, left_action = left_factor
            right_index, right_action = right_factor
            if left_index == right_index:
                new_coefficient, new_action = _PAULI_OPERATOR_PRODUCTS[left_action, right_action]
                left_factor = (left_index, new_action)
                coefficient *= new_coefficient
            else:
                if left_action != 'I':
                    new_term.append(left_factor)
                left_factor = right_factor
        if left_factor[1] != 'I':
            new_term.append(left_factor)
        return (coefficient, tuple(new_term))
