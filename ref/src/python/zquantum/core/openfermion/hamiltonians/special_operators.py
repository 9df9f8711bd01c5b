from typing import Optional
from zquantum.core.openfermion.ops.operators import FermionOperator

def number_operator(n_modes: int, mode: Optional[int]=None, coefficient=1.0, parity: int=-1) -> FermionOperator:
    if parity == -1:
        Op = FermionOperator
    elif parity == 1:
        raise ValueError('BosonOperator not available')
    else:
        raise ValueError('Invalid parity value: {}'.format(parity))
    if mode is None:
        operator = Op()
        for m in range(n_modes):
            operator += number_operator(n_modes, m, coefficient, parity)
    else:
        operator = Op(((mode, 1), (mode, 0)), coefficient)
    return operator
