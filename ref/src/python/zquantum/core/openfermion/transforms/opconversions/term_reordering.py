import itertools
import numpy
from zquantum.core.openfermion.ops.operators import FermionOperator
from zquantum.core.openfermion.ops.representations import InteractionOperator

def chemist_ordered(fermion_operator):
    if not fermion_operator.is_two_body_number_conserving():
        raise TypeError('Operator is not two-body number conserving.')
    normal_ordered_input = normal_ordered(fermion_operator)
    chemist_ordered_operator = FermionOperator()
    for term, coefficient in normal_ordered_input.terms.items():
        if len(term) == 2 or not len(term):
            chemist_ordered_operator += FermionOperator(term, coefficient)
        else:
            if term[1][0] == term[2][0]:
                new_one_body_term = (term[0], term[3])
                chemist_ordered_operator += FermionOperator(new_one_body_term, coefficient)
            new_two_body_term = (term[0], term[2], term[1], term[3])
            chemist_ordered_operator += FermionOperator(new_two_body_term, -coefficient)
    return chemist_ordered_operator

def normal_ordered(operator, hbar=1.0):
    kwargs = {}
    if isinstance(operator, FermionOperator):
        ordered_operator = FermionOperator()
        order_fn = normal_ordered_ladder_term
        kwargs['parity'] = -1
    elif isinstance(operator, InteractionOperator):
        constant = operator.constant
        n_modes = operator.n_qubits
        one_body_tensor = operator.one_body_tensor.copy()
        two_body_tensor = numpy.zeros_like(operator.two_body_tensor)
        quadratic_index_pairs = ((pq, pq) for pq in itertools.combinations(range(n_modes)[::-1], 2))
        cubic_index_pairs = (index_pair for p, q, r in itertools.combinations(range(n_modes)[::-1], 3) for index_pair in [((p, q), (p, r)), ((p, r), (p, q)), ((p, q), (q, r)), ((q, r), (p, q)), ((p, r), (q, r)), ((q, r), (p, r))])
        quartic_index_pairs = (index_pair for p, q, r, s in itertools.combinations(range(n_modes)[::-1], 4) for index_pair in [((p, q), (r, s)), ((r, s), (p, q)), ((p, r), (q, s)), ((q, s), (p, r)), ((p, s), (q, r)), ((q, r), (p, s))])
        index_pairs = itertools.chain(quadratic_index_pairs, cubic_index_pairs, quartic_index_pairs)
        for pq, rs in index_pairs:
            two_body_tensor[pq + rs] = sum((s * ss * operator.two_body_tensor[pq[::s] + rs[::ss]] for s, ss in itertools.product([-1, 1], repeat=2)))
        return InteractionOperator(constant, one_body_tensor, two_body_tensor)
    else:
        raise TypeError('Can only normal order FermionOperator, or InteractionOperator.')
    for term, coefficient in operator.terms.items():
        ordered_operator += order_fn(term, coefficient, **kwargs)
    return ordered_operator

def normal_ordered_ladder_term(term, coefficient, parity=-1):
    term = list(term)
    if parity == -1:
        Op = FermionOperator
    elif parity == 1:
        raise ValueError('BosonOperator not available.')
    ordered_term = Op()
    for i in range(1, len(term)):
        for j in range(i, 0, -1):
            right_operator = term[j]
            left_operator = term[j - 1]
            if right_operator[1] and (not left_operator[1]):
                term[j - 1] = right_operator
                term[j] = left_operator
                coefficient *= parity
                if right_operator[0] == left_operator[0]:
                    new_term = term[:j - 1] + term[j + 1:]
                    ordered_term += normal_ordered_ladder_term(tuple(new_term), parity * coefficient, parity)
            elif right_operator[1] == left_operator[1]:
                if parity == -1 and right_operator[0] == left_operator[0]:
                    return ordered_term
                elif right_operator[0] > left_operator[0]:
                    term[j - 1] = right_operator
                    term[j] = left_operator
                    coefficient *= parity
    ordered_term += Op(tuple(term), coefficient)
    return ordered_term

def reorder(operator, order_function, num_modes=None, reverse=False):
    if num_modes is None:
        num_modes = max([factor[0] for term in operator.terms for factor in term]) + 1
    mode_map = {mode_idx: order_function(mode_idx, num_modes) for mode_idx in range(num_modes)}
    if reverse:
        mode_map = {val: key for key, val in mode_map.items()}
    rotated_hamiltonian = operator.__class__()
    for term, value in operator.terms.items():
        new_term = tuple([(mode_map[op[0]], op[1]) for op in term])
        rotated_hamiltonian += operator.__class__(new_term, value)
    return rotated_hamiltonian
