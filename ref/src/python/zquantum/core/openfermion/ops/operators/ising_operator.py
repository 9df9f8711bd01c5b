from collections import defaultdict
from zquantum.core.openfermion.ops.operators.symbolic_operator import SymbolicOperator

class IsingOperator(SymbolicOperator):

    @property
    def actions(self):
        return ('Z',)

    @property
    def action_strings(self):
        return ('Z',)

    @property
    def action_before_index(self):
        return True

    @property
    def different_indices_commute(self):
        return True

    def _simplify(self, term, coefficient=1.0):
        powers = defaultdict(int)
        for factor in term:
            powers[factor[0]] += 1
        odd_powers = sorted((i for i, p in powers.items() if p % 2))
        new_term = tuple(((i, 'Z') for i in odd_powers))
        return (coefficient, new_term)
