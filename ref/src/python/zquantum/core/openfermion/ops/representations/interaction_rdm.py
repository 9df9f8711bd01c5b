import copy
import numpy
from zquantum.core.openfermion.ops.operators import FermionOperator, QubitOperator
from zquantum.core.openfermion.ops.representations import InteractionOperator, PolynomialTensor

class InteractionRDMError(Exception):
    pass

class InteractionRDM(PolynomialTensor):

    def __init__(self, one_body_tensor, two_body_tensor):
        super(InteractionRDM, self).__init__({(1, 0): one_body_tensor, (1, 1, 0, 0): two_body_tensor})

    @property
    def one_body_tensor(self):
        return self.n_body_tensors[1, 0]

    @one_body_tensor.setter
    def one_body_tensor(self, value):
        self.n_body_tensors[1, 0] = value

    @property
    def two_body_tensor(self):
        return self.n_body_tensors[1, 1, 0, 0]

    @two_body_tensor.setter
    def two_body_tensor(self, value):
        self.n_body_tensors[1, 1, 0, 0] = value

    def expectation(self, operator):
        if isinstance(operator, QubitOperator):
            expectation_op = self.get_qubit_expectations(operator)
            expectation = 0.0
            for qubit_term in operator.terms:
                expectation += operator.terms[qubit_term] * expectation_op.terms[qubit_term]
        elif isinstance(operator, InteractionOperator):
            expectation = operator.constant
            expectation += numpy.sum(self.one_body_tensor * operator.one_body_tensor)
            expectation += numpy.sum(self.two_body_tensor * operator.two_body_tensor)
        else:
            raise InteractionRDMError('Invalid operator type provided.')
        return expectation

    def get_qubit_expectations(self, qubit_operator):
        from zquantum.core.openfermion.transforms.opconversions import normal_ordered, reverse_jordan_wigner
        qubit_operator_expectations = copy.deepcopy(qubit_operator)
        for qubit_term in qubit_operator_expectations.terms:
            expectation = 0.0
            reversed_fermion_operators = reverse_jordan_wigner(QubitOperator(qubit_term))
            reversed_fermion_operators = normal_ordered(reversed_fermion_operators)
            for fermion_term in reversed_fermion_operators.terms:
                coefficient = reversed_fermion_operators.terms[fermion_term]
                if FermionOperator(fermion_term).is_two_body_number_conserving():
                    if not fermion_term:
                        expectation += coefficient
                    else:
                        indices = [operator[0] for operator in fermion_term]
                        if len(indices) == 2:
                            indices = tuple(zip(indices, (1, 0)))
                        else:
                            indices = tuple(zip(indices, (1, 1, 0, 0)))
                        rdm_element = self[indices]
                        expectation += rdm_element * coefficient
                elif len(fermion_term) > 4:
                    raise InteractionRDMError('Observable not contained in 1-RDM or 2-RDM.')
            qubit_operator_expectations.terms[qubit_term] = expectation
        return qubit_operator_expectations
