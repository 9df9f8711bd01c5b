import numpy
from zquantum.core.openfermion.chem import MolecularData
from zquantum.core.openfermion.config import EQ_TOLERANCE
from zquantum.core.openfermion.ops.operators import FermionOperator
from zquantum.core.openfermion.ops.representations import InteractionOperator, InteractionOperatorError
from zquantum.core.openfermion.transforms.opconversions import check_no_sympy, normal_ordered
from zquantum.core.openfermion.utils import operator_utils as op_utils

def get_interaction_operator(fermion_operator, n_qubits=None):
    if not isinstance(fermion_operator, FermionOperator):
        raise TypeError('Input must be a FermionOperator.')
    check_no_sympy(fermion_operator)
    if n_qubits is None:
        n_qubits = op_utils.count_qubits(fermion_operator)
    if n_qubits < op_utils.count_qubits(fermion_operator):
        raise ValueError('Invalid number of qubits specified.')
    fermion_operator = normal_ordered(fermion_operator)
    constant = 0.0
    one_body = numpy.zeros((n_qubits, n_qubits), complex)
    two_body = numpy.zeros((n_qubits, n_qubits, n_qubits, n_qubits), complex)
    for term in fermion_operator.terms:
        coefficient = fermion_operator.terms[term]
        if abs(coefficient) < EQ_TOLERANCE:
            continue
        if len(term) == 0:
            constant = coefficient
        elif len(term) == 2:
            if [operator[1] for operator in term] == [1, 0]:
                p, q = [operator[0] for operator in term]
                one_body[p, q] = coefficient
            else:
                raise InteractionOperatorError('FermionOperator does not map to InteractionOperator.')
        elif len(term) == 4:
            if [operator[1] for operator in term] == [1, 1, 0, 0]:
                p, q, r, s = [operator[0] for operator in term]
                two_body[p, q, r, s] = coefficient
            else:
                raise InteractionOperatorError('FermionOperator does not map to InteractionOperator.')
        else:
            raise InteractionOperatorError('FermionOperator does not map to InteractionOperator.')
    interaction_operator = InteractionOperator(constant, one_body, two_body)
    return interaction_operator

def get_molecular_data(interaction_operator, geometry=None, basis=None, multiplicity=None, n_electrons=None, reduce_spin=True, data_directory=None):
    n_spin_orbitals = interaction_operator.n_qubits
    molecule = MolecularData(geometry=geometry, basis=basis, multiplicity=multiplicity, data_directory=data_directory)
    molecule.nuclear_repulsion = interaction_operator.constant
    if reduce_spin:
        reduction_indices = list(range(0, n_spin_orbitals, 2))
    else:
        reduction_indices = list(range(n_spin_orbitals))
    molecule.n_orbitals = len(reduction_indices)
    molecule.one_body_integrals = interaction_operator.one_body_tensor[numpy.ix_(reduction_indices, reduction_indices)]
    molecule.two_body_integrals = interaction_operator.two_body_tensor[numpy.ix_(reduction_indices, reduction_indices, reduction_indices, reduction_indices)]
    molecule.overlap_integrals = numpy.eye(molecule.n_orbitals)
    molecule.n_qubits = n_spin_orbitals
    molecule.n_electrons = n_electrons
    molecule.multiplicity = multiplicity
    return molecule
