import json
from typing import Dict, List, TextIO, Tuple
import numpy as np
from ..utils import SCHEMA_VERSION

class CircuitLayers:

    def __init__(self, layers: List[List[Tuple]]):
        self.layers = layers

    def to_dict(self) -> dict:
        return {'layers': self.layers}

    @classmethod
    def from_dict(cls, data: Dict[str, List[List[Tuple]]]):
        layers = [[tuple(x) for x in layer] for layer in data['layers']]
        return cls(layers)

def save_circuit_layers(circuit_layers: CircuitLayers, filename: str) -> None:
    circuit_layers_dict = circuit_layers.to_dict()
    circuit_layers_dict['schema'] = SCHEMA_VERSION + '-circuit_layers'
    with open(filename, 'w') as f:
        f.write(json.dumps(circuit_layers_dict))

def load_circuit_layers(file: TextIO) -> CircuitLayers:
    if isinstance(file, str):
        with open(file, 'r') as f:
            data = json.load(f)
    else:
        data = json.load(file)
    return CircuitLayers.from_dict(data)

def save_circuit_ordering(ordering, filename):
    ordering = {'ordering': ordering}
    ordering['schema'] = SCHEMA_VERSION + '-circuit_ordering'
    with open(filename, 'w') as f:
        f.write(json.dumps(ordering))

def load_circuit_ordering(file):
    if isinstance(file, str):
        with open(file, 'r') as f:
            data = json.load(f)
    else:
        data = json.load(file)
    return data['ordering']

class CircuitConnectivity(object):

    def __init__(self, connections):
        self.connectivity = connections

    def to_dict(self):
        return {'connectivity': self.connectivity}

    @classmethod
    def from_dict(cls, data):
        tuples = [tuple(x) for x in data['connectivity']]
        return cls(tuples)

def save_circuit_connectivity(circuit_connectivity, filename):
    circuit_connectivity = circuit_connectivity.to_dict()
    circuit_connectivity['schema'] = SCHEMA_VERSION + '-circuit_connectivity'
    with open(filename, 'w') as f:
        f.write(json.dumps(circuit_connectivity))

def load_circuit_connectivity(file):
    if isinstance(file, str):
        with open(file, 'r') as f:
            data = json.load(f)
    else:
        data = json.load(file)
    return CircuitConnectivity.from_dict(data)

def build_circuit_layers_and_connectivity(x_dimension, y_dimension=None, layer_type='nearest-neighbor'):
    if layer_type == 'sycamore':
        return _build_circuit_layers_and_connectivity_sycamore(x_dimension, y_dimension)
    elif layer_type == 'nearest-neighbor':
        return _build_circuit_layers_and_connectivity_nearest_neighbors(x_dimension)
    else:
        raise ValueError('Layer type {0} is not defined'.format(layer_type))

def _build_circuit_layers_and_connectivity_sycamore(x_dimension, y_dimension):
    connectivity = []
    pattern1 = np.zeros((y_dimension - 1, 2 * x_dimension - 1))
    pattern2 = np.zeros((y_dimension - 1, 2 * x_dimension - 1))
    for m in range(0, y_dimension - 1):
        pattern2[m, :] = m % 2
    py_index = 0
    for m, y_index in enumerate(range(1, y_dimension, 2)):
        row_up = []
        row_down = []
        px_index = 0
        for x_index in range(0, x_dimension):
            node = y_index * x_dimension + x_index
            if x_index == x_dimension - 1:
                row_up.append((node, node - x_dimension))
                pattern1[py_index, px_index] = (x_index + m) % 2
                if y_dimension - 1 > y_index:
                    row_down.append((node, node + x_dimension))
                    pattern1[py_index + 1, px_index] = (x_index + m + 1) % 2
                px_index += 1
            else:
                row_up.extend([(node, node - x_dimension), (node, node - x_dimension + 1)])
                pattern1[py_index, px_index] = (x_index + m) % 2
                pattern1[py_index, px_index + 1] = (x_index + m) % 2
                if y_dimension - 1 > y_index:
                    row_down.extend([(node, node + x_dimension), (node, node + x_dimension + 1)])
                    pattern1[py_index + 1, px_index] = (x_index + m + 1) % 2
                    pattern1[py_index + 1, px_index + 1] = (x_index + m + 1) % 2
                px_index += 2
        py_index += 2
        connectivity.append(row_up)
        connectivity.append(row_down)
    masks = []
    for n in range(0, 2):
        mask1 = pattern1.copy()
        mask2 = pattern2.copy()
        for m in range(mask1.shape[0]):
            mask1[m, (m + n) % 2:mask1.shape[1]:2] = -1
            mask2[m, (m + n) % 2:mask1.shape[1]:2] = -1
        masks.extend([mask1, mask2])
    layers = []
    for n, mask in enumerate(masks):
        layer1 = []
        layer2 = []
        for x in range(mask.shape[1]):
            for y in range(mask.shape[0]):
                if mask[y, x] == 0:
                    layer1.append(connectivity[y][x])
                elif mask[y, x] == 1:
                    layer2.append(connectivity[y][x])
        layers.extend([layer1, layer2])
    final_connectivity = []
    for group in connectivity:
        final_connectivity.extend(group)
    return (CircuitConnectivity(final_connectivity), CircuitLayers(layers))

def _build_circuit_layers_and_connectivity_nearest_neighbors(n_qubits):
    even_layer = []
    odd_layer = []
    for index in range(0, n_qubits - 1, 2):
        even_layer.append((index, index + 1))
    for index in range(1, n_qubits - 1, 2):
        odd_layer.append((index, index + 1))
    connectivity = []
    connectivity.extend(even_layer)
    connectivity.extend(odd_layer)
    return (CircuitConnectivity(connectivity), CircuitLayers([even_layer, odd_layer]))
