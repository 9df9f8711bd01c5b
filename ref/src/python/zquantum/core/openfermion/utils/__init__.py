from .commutators import anticommutator, commutator, double_commutator
from .indexing import down_index, up_index, up_then_down
from .operator_utils import count_qubits, get_file_path, hermitian_conjugated, is_hermitian, is_identity, load_operator, save_operator, OperatorSpecificationError, OperatorUtilsError
