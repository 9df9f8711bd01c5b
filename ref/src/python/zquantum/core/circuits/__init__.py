from ._builtin_gates import CNOT, CPHASE, CZ, ISWAP, PHASE, RH, RX, RY, RZ, SWAP, U3, XX, XY, YY, ZZ, GatePrototype, H, I, S, T, X, Y, Z, builtin_gate_by_name
from ._circuit import Circuit, split_circuit
from ._compatibility import new_circuit_from_old_circuit
from ._gates import ControlledGate, CustomGateDefinition, Dagger, Gate, GateOperation, MatrixFactoryGate
from ._generators import add_ancilla_register, apply_gate_to_qubits, create_layer_of_gates
from ._operations import Operation
from ._serde import circuit_from_dict, circuitset_from_dict, load_circuit, load_circuitset, save_circuit, save_circuitset, to_dict
from ._testing import create_random_circuit
from ._wavefunction_operations import MultiPhaseOperation
from .symbolic import natural_key, natural_key_revlex
