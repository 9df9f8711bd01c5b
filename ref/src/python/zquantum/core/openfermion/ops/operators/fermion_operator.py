from zquantum.core.openfermion.ops.operators.symbolic_operator import SymbolicOperator

class FermionOperator(SymbolicOperator):

    @property
    def actions(self):
        return (1, 0)

    @property
    def action_strings(self):
        return ('^', '')

    @property
    def action_before_index(self):
        return False

    @property
    def different_indices_commute(self):
        return False

    def is_normal_ordered(self):
        for term in self.terms:
            for i in range(1, len(term)):
                for j in range(i, 0, -1):
                    right_operator = term[j]
                    left_operator = term[j - 1]
                    if right_operator[1] and (not left_operator[1]):
                        return False
                    elif right_operator[1] == left_operator[1] and right_operator[0] >= left_operator[0]:
                        return False
        return True

    def is_two_body_number_conserving(self, check_spin_symmetry=False):
        for term in self.terms:
            if len(term) not in (0, 2, 4):
                return False
            spin = 0
            particles = 0
            for operator in term:
                particles += (-1) ** operator[1]
                spin += (-1) ** (operator[0] + operator[1])
            if particles:
                return False
            elif spin and check_spin_symmetry:
                return False
        return True
