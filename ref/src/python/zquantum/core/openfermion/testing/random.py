import itertools
from typing import TYPE_CHECKING, Optional
from zquantum.core.openfermion import ops
from zquantum.core.openfermion.testing.testing_utils import random_interaction_operator
if TYPE_CHECKING:
    import zquantum.core.openfermion as openfermion

def random_interaction_operator_term(order: int, real: bool=True, seed: Optional[int]=None) -> 'openfermion.InteractionOperator':
    n_orbitals = order
    if order > 4:
        return ops.InteractionOperator.zero(order)
    operator = random_interaction_operator(n_orbitals, real=real, seed=seed)
    operator.constant = 0
    for indices in itertools.product(range(n_orbitals), repeat=2):
        if len(set(indices)) != order:
            operator.one_body_tensor[indices] = 0
    for indices in itertools.product(range(n_orbitals), repeat=4):
        if len(set(indices)) != order:
            operator.two_body_tensor[indices] = 0
    return operator
