from .conversions import get_interaction_operator, get_molecular_data
from .operator_tapering import freeze_orbitals, prune_unused_indices
