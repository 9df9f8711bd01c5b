from typing import Any, Callable, Dict, List
import numpy as np
import rapidjson as json
from zquantum.core.openfermion import InteractionOperator, InteractionRDM, IsingOperator, QubitOperator, SymbolicOperator
from zquantum.core.typing import AnyPath, LoadSource
from zquantum.core.utils import SCHEMA_VERSION, convert_array_to_dict, convert_dict_to_array

def convert_interaction_op_to_dict(op: InteractionOperator) -> Dict[str, Any]:
    dictionary: Dict[str, Any] = {'schema': SCHEMA_VERSION + '-interaction_op'}
    dictionary['constant'] = convert_array_to_dict(np.array(op.constant))
    dictionary['one_body_tensor'] = convert_array_to_dict(np.array(op.one_body_tensor))
    dictionary['two_body_tensor'] = convert_array_to_dict(np.array(op.two_body_tensor))
    return dictionary

def convert_dict_to_interaction_op(dictionary: dict) -> InteractionOperator:
    constant = convert_dict_to_array(dictionary['constant']).tolist()
    one_body_tensor = convert_dict_to_array(dictionary['one_body_tensor'])
    two_body_tensor = convert_dict_to_array(dictionary['two_body_tensor'])
    return InteractionOperator(constant, one_body_tensor, two_body_tensor)

def load_interaction_operator(file: LoadSource) -> InteractionOperator:
    if isinstance(file, str):
        with open(file, 'r') as f:
            data = json.load(f)
    else:
        data = json.load(file)
    return convert_dict_to_interaction_op(data)

def save_interaction_operator(interaction_operator: InteractionOperator, filename: AnyPath) -> None:
    with open(filename, 'w') as f:
        f.write(json.dumps(convert_interaction_op_to_dict(interaction_operator), indent=2))

def convert_dict_to_qubitop(dictionary: dict) -> QubitOperator:
    return convert_dict_to_operator(dictionary, QubitOperator)

def convert_qubitop_to_dict(op: QubitOperator) -> Dict[str, Any]:
    dictionary: Dict[str, Any] = {'schema': SCHEMA_VERSION + '-qubit_op'}
    dictionary['terms'] = []
    for term in op.terms:
        term_dict: Dict[str, Any] = {'pauli_ops': [{'qubit': op[0], 'op': op[1]} for op in term]}
        if isinstance(op.terms[term], complex):
            term_dict['coefficient'] = {'real': op.terms[term].real, 'imag': op.terms[term].imag}
        else:
            term_dict['coefficient'] = {'real': op.terms[term].real}
        dictionary['terms'].append(term_dict)
    return dictionary

def convert_dict_to_operator(dictionary: dict, constructor: Callable) -> SymbolicOperator:
    full_operator = constructor()
    for term_dict in dictionary['terms']:
        operator = []
        for pauli_op in term_dict['pauli_ops']:
            operator.append((pauli_op['qubit'], pauli_op['op']))
        coefficient = term_dict['coefficient']['real']
        if term_dict['coefficient'].get('imag'):
            coefficient += 1j * term_dict['coefficient']['imag']
        full_operator += constructor(operator, coefficient)
    return full_operator

def save_qubit_operator(qubit_operator: QubitOperator, filename: AnyPath) -> None:
    with open(filename, 'w') as f:
        f.write(json.dumps(convert_qubitop_to_dict(qubit_operator), indent=2))

def load_qubit_operator(file: LoadSource) -> QubitOperator:
    if isinstance(file, str):
        with open(file, 'r') as f:
            data = json.load(f)
    else:
        data = json.load(file)
    return convert_dict_to_qubitop(data)

def save_qubit_operator_set(qubit_operator_set: List[QubitOperator], filename: AnyPath) -> None:
    dictionary: Dict[str, Any] = {}
    dictionary['schema'] = SCHEMA_VERSION + '-circuit_set'
    dictionary['qubit_operators'] = []
    for qubit_operator in qubit_operator_set:
        dictionary['qubit_operators'].append(convert_qubitop_to_dict(qubit_operator))
    with open(filename, 'w') as f:
        f.write(json.dumps(dictionary, indent=2))

def load_qubit_operator_set(file: LoadSource) -> List[QubitOperator]:
    if isinstance(file, str):
        with open(file, 'r') as f:
            data = json.load(f)
    else:
        data = json.load(file)
    qubit_operator_set = []
    for qubit_operator_dict in data['qubit_operators']:
        qubit_operator_set.append(convert_dict_to_qubitop(qubit_operator_dict))
    return qubit_operator_set

def get_pauli_strings(qubit_operator: QubitOperator) -> List[str]:
    pauli_strings = []
    term_list = list(qubit_operator.terms.keys())
    for term in term_list:
        pauli_list = term
        pauli_string = ''
        for pauli in pauli_list:
            pauli_string += pauli[1] + str(pauli[0])
        pauli_strings.append(pauli_string)
    return pauli_strings

def convert_isingop_to_dict(op: IsingOperator) -> dict:
    dictionary = convert_qubitop_to_dict(op)
    dictionary['schema'] = SCHEMA_VERSION + '-ising_op'
    return dictionary

def convert_dict_to_isingop(dictionary: dict) -> IsingOperator:
    return convert_dict_to_operator(dictionary, IsingOperator)

def load_ising_operator(file: LoadSource) -> IsingOperator:
    if isinstance(file, str):
        with open(file, 'r') as f:
            data = json.load(f)
    else:
        data = json.load(file)
    return convert_dict_to_isingop(data)

def save_ising_operator(ising_operator: IsingOperator, filename: AnyPath) -> None:
    with open(filename, 'w') as f:
        f.write(json.dumps(convert_isingop_to_dict(ising_operator), indent=2))

def save_parameter_grid_evaluation(parameter_grid_evaluation, filename):
    full_dict = {}
    full_dict['schema'] = SCHEMA_VERSION + '-parameter_grid_evaluation'
    values_set = []
    for evaluation in parameter_grid_evaluation:
        value = evaluation['value'].to_dict()
        value['schema'] = SCHEMA_VERSION + '-value_estimate'
        values_set.append({**evaluation, 'value': value})
    full_dict['values_set'] = values_set
    with open(filename, 'w') as f:
        f.write(json.dumps(full_dict, indent=2))

def convert_interaction_rdm_to_dict(op):
    dictionary = {'schema': SCHEMA_VERSION + '-interaction_rdm'}
    dictionary['one_body_tensor'] = convert_array_to_dict(np.array(op.one_body_tensor))
    dictionary['two_body_tensor'] = convert_array_to_dict(np.array(op.two_body_tensor))
    return dictionary

def convert_dict_to_interaction_rdm(dictionary):
    one_body_tensor = convert_dict_to_array(dictionary['one_body_tensor'])
    two_body_tensor = convert_dict_to_array(dictionary['two_body_tensor'])
    return InteractionRDM(one_body_tensor, two_body_tensor)

def load_interaction_rdm(file: LoadSource) -> InteractionRDM:
    if isinstance(file, str):
        with open(file, 'r') as f:
            data = json.load(f)
    else:
        data = json.load(file)
    return convert_dict_to_interaction_rdm(data)

def save_interaction_rdm(interaction_rdm: InteractionRDM, filename: AnyPath) -> None:
    with open(filename, 'w') as f:
        f.write(json.dumps(convert_interaction_rdm_to_dict(interaction_rdm), indent=2))
