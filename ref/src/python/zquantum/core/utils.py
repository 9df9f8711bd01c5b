import collections
import copy
import importlib
import inspect
import json
import sys
import warnings
from functools import partial
from types import FunctionType
from typing import Any, Dict, Iterable, List, Optional, Tuple
import numpy as np
import sympy
from .typing import AnyPath, LoadSource, Specs
SCHEMA_VERSION = 'zapata-v1'
RNDSEED = 12345

def convert_dict_to_array(dictionary: dict) -> np.ndarray:
    array = np.array(dictionary['real'])
    if dictionary.get('imag'):
        array = array + 1j * np.array(dictionary['imag'])
    return array

def convert_array_to_dict(array: np.ndarray) -> dict:
    dictionary = {}
    if np.iscomplexobj(array):
        dictionary['real'] = array.real.tolist()
        dictionary['imag'] = array.imag.tolist()
    else:
        dictionary['real'] = array.tolist()
    return dictionary

def dec2bin(number: int, length: int) -> List[int]:
    if pow(2, length) <= number:
        sys.exit('Insufficient number of bits for representing the number {}'.format(number))
    bit_str = bin(number)
    bit_str = bit_str[2:len(bit_str)]
    bit_string = [int(x) for x in list(bit_str)]
    if len(bit_string) < length:
        len_zeros = length - len(bit_string)
        bit_string = [int(x) for x in list(np.zeros(len_zeros))] + bit_string
    return bit_string

def bin2dec(x: List[int]) -> int:
    dec = 0
    coeff = 1
    for i in range(len(x)):
        dec = dec + coeff * x[len(x) - 1 - i]
        coeff = coeff * 2
    return dec

def is_identity(u: np.ndarray, tol=1e-15) -> bool:
    dims = np.array(u).shape
    if dims[0] != dims[1]:
        raise Exception('Input matrix is not square.')
    return np.allclose(u, np.eye(u.shape[0]), atol=tol)

def is_unitary(u: np.ndarray, tol=1e-15) -> bool:
    dims = np.array(u).shape
    if dims[0] != dims[1]:
        raise Exception('Input matrix is not square.')
    test_matrix = np.dot(np.array(u).T.conj(), u)
    return is_identity(test_matrix, tol)

def compare_unitary(u1: np.ndarray, u2: np.ndarray, tol: float=1e-15) -> bool:
    if not is_unitary(u1, tol):
        raise Exception('The first input matrix is not unitary.')
    if not is_unitary(u2, tol):
        raise Exception('The second input matrix is not unitary.')
    test_matrix = np.dot(u1.conj().T, u2)
    if test_matrix.item((0, 0)) == 0:
        return False
    phase = test_matrix.item((0, 0)) ** (-1)
    return is_identity(phase * test_matrix, tol)

def sample_from_probability_distribution(probability_distribution: Dict[Any, float], n_samples: int) -> collections.Counter:
    if isinstance(probability_distribution, dict):
        keys_as_array = np.empty(len(probability_distribution), dtype=object)
        keys_as_array[:] = list(probability_distribution.keys())
        result = np.random.choice(keys_as_array, n_samples, replace=True, p=list(probability_distribution.values()))
        sampled_dict: collections.Counter = collections.Counter(result)
        return sampled_dict
    else:
        raise RuntimeError('Probability distribution should be a dictionary with key value         being the thing being sampled and the value being probability of getting         sampled ')

def convert_bitstrings_to_tuples(bitstrings: Iterable[str]) -> List[Tuple[int, ...]]:
    measurements: List[Tuple[int, ...]] = []
    for bitstring in bitstrings:
        measurement: Tuple[int, ...] = ()
        for char in bitstring:
            measurement = measurement + (int(char),)
        measurements.append(measurement)
    return measurements

def convert_tuples_to_bitstrings(tuples: List[Tuple[int]]) -> List[str]:
    bitstrings = [''.join(map(str, tup)) for tup in tuples]
    return bitstrings

class ValueEstimate(float):

    def __init__(self, value, precision: Optional[float]=None):
        super().__init__()
        self.precision = precision

    def __new__(cls, value, precision=None):
        return super().__new__(cls, value)

    @property
    def value(self):
        warnings.warn('The value attribute is deprecated. Use ValueEstimate object directly instead.', DeprecationWarning)
        return float(self)

    def __eq__(self, other):
        super_eq = super().__eq__(other)
        if super_eq is NotImplemented:
            return super_eq
        return super_eq and self.precision == getattr(other, 'precision', None)

    def __ne__(self, other):
        return not self == other

    def __str__(self):
        value_str = super().__str__()
        if self.precision is not None:
            return f'{value_str} ± {self.precision}'
        else:
            return f'{value_str}'

    def to_dict(self):
        data = {'schema': SCHEMA_VERSION + '-value_estimate'}
        if type(self.value).__module__ == np.__name__:
            data['value'] = self.value.item()
        else:
            data['value'] = self.value
        if type(self.precision).__module__ == np.__name__:
            data['precision'] = self.precision.item()
        else:
            data['precision'] = self.precision
        return data

    @classmethod
    def from_dict(cls, dictionary):
        value = dictionary['value']
        if 'precision' in dictionary:
            precision = dictionary['precision']
            return cls(value, precision)
        else:
            return cls(value)

def load_value_estimate(file: LoadSource) -> ValueEstimate:
    if isinstance(file, str):
        with open(file, 'r') as f:
            data = json.load(f)
    else:
        data = json.load(file)
    return ValueEstimate.from_dict(data)

def save_value_estimate(value_estimate: ValueEstimate, filename: AnyPath):
    dictionary = value_estimate.to_dict()
    dictionary['schema'] = SCHEMA_VERSION + '-value_estimate'
    with open(filename, 'w') as f:
        f.write(json.dumps(dictionary, indent=2))

def load_list(file: LoadSource) -> List:
    if isinstance(file, str):
        with open(file, 'r') as f:
            data = json.load(f)
    else:
        data = json.load(file)
    return data['list']

def save_list(array: List, filename: AnyPath, artifact_name: str=''):
    dictionary: Dict[str, Any] = {}
    dictionary['schema'] = SCHEMA_VERSION + '-' + artifact_name + '-list'
    dictionary['list'] = array
    with open(filename, 'w') as f:
        f.write(json.dumps(dictionary, indent=2))

def save_generic_dict(dictionary: Dict, filename: AnyPath):
    dictionary_stored = {'schema': SCHEMA_VERSION + '-dict'}
    dictionary_stored.update(dictionary)
    with open(filename, 'w') as f:
        f.write(json.dumps(dictionary_stored, indent=2))

def get_func_from_specs(specs: Dict):
    warnings.warn('zquantum.core.utils.get_func_from_specs will be deprecated. Please use zquantum.core.utils.create_object instead', DeprecationWarning)
    return create_object(specs)

def create_object(specs: Dict, **kwargs):
    specs = copy.copy(specs)
    module_name = specs.pop('module_name')
    module = importlib.import_module(module_name)
    creator_name = specs.pop('function_name')
    creator = getattr(module, creator_name)
    for key in specs.keys():
        if key in kwargs.keys():
            raise ValueError('Cannot have same parameter assigned to multiple values')
    if isinstance(creator, FunctionType):
        if kwargs != {} or specs != {}:
            function_parameter_names = inspect.signature(creator).parameters.keys()
            function_args = {key: value for key, value in {**specs, **kwargs}.items() if key in function_parameter_names}
            return partial(creator, **function_args)
        else:
            return creator
    else:
        return creator(**specs, **kwargs)

def load_noise_model(file: LoadSource):
    if isinstance(file, str):
        with open(file, 'r') as f:
            specs = json.load(f)
    else:
        specs = json.load(file)
    noise_model_data = specs.pop('data', None)
    func = create_object(specs)
    return func(noise_model_data)

def save_noise_model(noise_model_data: dict, module_name: str, function_name: str, filename):
    data = {'module_name': module_name, 'function_name': function_name, 'data': noise_model_data}
    with open(filename, 'w') as f:
        f.write(json.dumps(data, indent=2))

def create_symbols_map(symbols: List[sympy.Symbol], params: np.ndarray) -> Dict[sympy.Symbol, float]:
    if len(symbols) != len(params):
        raise ValueError("Length of symbols: {0} doesn't match length of params: {1}".format(len(symbols), len(params)))
    return {symbol: param for symbol, param in zip(symbols, params.tolist())}

def save_timing(walltime: float, filename: AnyPath) -> None:
    with open(filename, 'w') as f:
        f.write(json.dumps({'schema': SCHEMA_VERSION + '-timing', 'walltime': walltime}))

def save_nmeas_estimate(nmeas: float, nterms: int, filename: AnyPath, frame_meas: np.ndarray=None) -> None:
    data: Dict[str, Any] = {}
    data['schema'] = SCHEMA_VERSION + '-hamiltonian_analysis'
    data['K'] = nmeas
    data['nterms'] = nterms
    if frame_meas is not None:
        data['frame_meas'] = convert_array_to_dict(frame_meas)
    with open(filename, 'w') as f:
        f.write(json.dumps(data, indent=2))

def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, Optional[np.ndarray]]:
    with open(filename, 'r') as f:
        data = json.load(f)
    frame_meas = None
    if 'frame_meas' in data:
        frame_meas = convert_dict_to_array(data['frame_meas'])
    K_coeff = data['K']
    nterms = data['nterms']
    return (K_coeff, nterms, frame_meas)

def scale_and_discretize(values: Iterable[float], total: int) -> List[int]:
    value_sum = sum(values)
    scale_factor = total / value_sum
    result = [np.floor(value * scale_factor) for value in values]
    remainders = [value * scale_factor - np.floor(value * scale_factor) for value in values]
    indexes_sorted_by_remainder = np.argsort(remainders)[::-1]
    for index in range(int(round(total - sum(result)))):
        result[indexes_sorted_by_remainder[index]] += 1
    result = [int(value) for value in result]
    assert sum(result) == total, 'The scaled list does not sum to the desired total.'
    return result

def load_from_specs(specs: Specs):
    if isinstance(specs, str):
        specs = json.loads(specs)
    return create_object(specs)

def get_ordered_list_of_bitstrings(num_qubits: int) -> List[str]:
    bitstrings = []
    for i in range(2 ** num_qubits):
        bitstring = '{0:b}'.format(i)
        while len(bitstring) < num_qubits:
            bitstring = '0' + bitstring
        bitstrings.append(bitstring)
    return bitstrings
