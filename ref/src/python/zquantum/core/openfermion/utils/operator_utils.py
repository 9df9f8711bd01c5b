import marshal
import os
from builtins import map, zip
import numpy
import sympy
from scipy.sparse import spmatrix
from zquantum.core.openfermion.config import DATA_DIRECTORY, EQ_TOLERANCE
from zquantum.core.openfermion.ops.operators import FermionOperator, IsingOperator, QubitOperator
from zquantum.core.openfermion.ops.representations import InteractionOperator, InteractionRDM, PolynomialTensor
from zquantum.core.openfermion.transforms.opconversions.term_reordering import normal_ordered

class OperatorUtilsError(Exception):
    pass

class OperatorSpecificationError(Exception):
    pass

def hermitian_conjugated(operator):
    if isinstance(operator, FermionOperator):
        conjugate_operator = FermionOperator()
        for term, coefficient in operator.terms.items():
            conjugate_term = tuple([(tensor_factor, 1 - action) for tensor_factor, action in reversed(term)])
            conjugate_operator.terms[conjugate_term] = coefficient.conjugate()
    elif isinstance(operator, QubitOperator):
        conjugate_operator = QubitOperator()
        for term, coefficient in operator.terms.items():
            conjugate_operator.terms[term] = coefficient.conjugate()
    elif isinstance(operator, InteractionOperator):
        conjugate_constant = operator.constant.conjugate()
        conjugate_one_body_tensor = hermitian_conjugated(operator.one_body_tensor)
        conjugate_two_body_tensor = hermitian_conjugated(operator.two_body_tensor)
        conjugate_operator = type(operator)(conjugate_constant, conjugate_one_body_tensor, conjugate_two_body_tensor)
    elif isinstance(operator, spmatrix):
        conjugate_operator = operator.getH()
    elif isinstance(operator, numpy.ndarray):
        conjugate_operator = operator.T.conj()
    else:
        raise TypeError('Taking the hermitian conjugate of a {} is not supported.'.format(type(operator).__name__))
    return conjugate_operator

def is_hermitian(operator):
    if isinstance(operator, (FermionOperator, InteractionOperator)):
        return normal_ordered(operator) == normal_ordered(hermitian_conjugated(operator))
    if isinstance(operator, QubitOperator):
        return operator == hermitian_conjugated(operator)
    elif isinstance(operator, spmatrix):
        difference = operator - hermitian_conjugated(operator)
        discrepancy = 0.0
        if difference.nnz:
            discrepancy = max(abs(difference.data))
        return discrepancy < EQ_TOLERANCE
    elif isinstance(operator, numpy.ndarray):
        difference = operator - hermitian_conjugated(operator)
        discrepancy = numpy.amax(abs(difference))
        return discrepancy < EQ_TOLERANCE
    else:
        raise TypeError('Checking whether a {} is hermitian is not supported.'.format(type(operator).__name__))

def count_qubits(operator):
    if isinstance(operator, FermionOperator):
        num_qubits = 0
        for term in operator.terms:
            for ladder_operator in term:
                if ladder_operator[0] + 1 > num_qubits:
                    num_qubits = ladder_operator[0] + 1
        return num_qubits
    elif isinstance(operator, QubitOperator):
        num_qubits = 0
        for term in operator.terms:
            if term:
                if term[-1][0] + 1 > num_qubits:
                    num_qubits = term[-1][0] + 1
        return num_qubits
    elif isinstance(operator, PolynomialTensor):
        return operator.n_qubits
    elif isinstance(operator, IsingOperator):
        num_qubits = 0
        for term in operator.terms:
            if term:
                if term[-1][0] + 1 > num_qubits:
                    num_qubits = term[-1][0] + 1
        return num_qubits
    else:
        raise TypeError('Operator of invalid type.')

def is_identity(operator):
    if isinstance(operator, (QubitOperator, FermionOperator)):
        return list(operator.terms) == [()]
    raise TypeError('Operator of invalid type.')

def get_file_path(file_name, data_directory):
    if file_name:
        if file_name[-5:] != '.data':
            file_name = file_name + '.data'
    else:
        raise OperatorUtilsError('File name is not provided.')
    if data_directory is None:
        file_path = DATA_DIRECTORY + '/' + file_name
    else:
        file_path = data_directory + '/' + file_name
    return file_path

def load_operator(file_name=None, data_directory=None, plain_text=False):
    file_path = get_file_path(file_name, data_directory)
    if plain_text:
        with open(file_path, 'r') as f:
            data = f.read()
            operator_type, operator_terms = data.split(':\n')
        is_zero = operator_terms in ('', '0')
        if operator_type == 'FermionOperator':
            operator = FermionOperator() if is_zero else FermionOperator(operator_terms)
        elif operator_type == 'QubitOperator':
            operator = QubitOperator() if is_zero else QubitOperator(operator_terms)
        else:
            raise TypeError('Operator of invalid type.')
    else:
        with open(file_path, 'rb') as f:
            data = marshal.load(f)
            operator_type = data[0]
            operator_terms = data[1]
        if operator_type == 'FermionOperator':
            operator = FermionOperator()
            for term in operator_terms:
                operator += FermionOperator(term, operator_terms[term])
        elif operator_type == 'QubitOperator':
            operator = QubitOperator()
            for term in operator_terms:
                operator += QubitOperator(term, operator_terms[term])
        else:
            raise TypeError('Operator of invalid type.')
    return operator

def save_operator(operator, file_name=None, data_directory=None, allow_overwrite=False, plain_text=False):
    file_path = get_file_path(file_name, data_directory)
    if os.path.isfile(file_path) and (not allow_overwrite):
        raise OperatorUtilsError('Not saved, file already exists.')
    if isinstance(operator, FermionOperator):
        operator_type = 'FermionOperator'
    elif isinstance(operator, QubitOperator):
        operator_type = 'QubitOperator'
    elif isinstance(operator, (InteractionOperator, InteractionRDM)):
        raise NotImplementedError('Not yet implemented for InteractionOperator or InteractionRDM.')
    else:
        raise TypeError('Operator of invalid type.')
    for term in operator.terms:
        if isinstance(operator.terms[term], sympy.Expr):
            raise TypeError('Cannot save sympy expressions.')
    if plain_text:
        with open(file_path, 'w') as f:
            f.write(operator_type + ':\n' + str(operator))
    else:
        tm = operator.terms
        with open(file_path, 'wb') as f:
            marshal.dump((operator_type, dict(zip(tm.keys(), map(complex, tm.values())))), f)
