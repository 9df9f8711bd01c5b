from ._decomposition import decompose_operations
from ._zquantum_decompositions import U3GateToRotation, decompose_zquantum_circuit
