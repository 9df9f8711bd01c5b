import copy
from zquantum.core.openfermion.ops.operators import FermionOperator

def freeze_orbitals(fermion_operator, occupied, unoccupied=None, prune=True):
    new_operator = fermion_operator
    frozen = [(index, 1) for index in occupied]
    if unoccupied is not None:
        frozen += [(index, 0) for index in unoccupied]
    for item in frozen:
        tmp_operator = FermionOperator()
        for term in new_operator.terms:
            new_term = []
            new_coef = new_operator.terms[term]
            current_occupancy = item[1]
            n_ops = 0
            n_swaps = 0
            for op in enumerate(reversed(term)):
                if op[1][0] == item[0]:
                    n_ops += 1
                    n_swaps += op[0] - n_ops
                    if current_occupancy == op[1][1]:
                        new_coef = 0
                    current_occupancy = (current_occupancy + 1) % 2
                else:
                    new_term.insert(0, op[1])
            if n_swaps % 2:
                new_coef *= -1
            if new_coef and current_occupancy == item[1]:
                tmp_operator += FermionOperator(tuple(new_term), new_coef)
        new_operator = tmp_operator
    for term in new_operator.terms:
        for index in occupied:
            for op in term:
                if op[0] > index:
                    new_operator.terms[term] *= -1
    if prune:
        new_operator = prune_unused_indices(new_operator)
    return new_operator

def prune_unused_indices(symbolic_operator):
    indices = []
    for term in symbolic_operator.terms:
        for op in term:
            if op[0] not in indices:
                indices.append(op[0])
    indices.sort()
    index_map = {}
    for index in enumerate(indices):
        index_map[index[1]] = index[0]
    new_operator = copy.deepcopy(symbolic_operator)
    new_operator.terms.clear()
    for term in symbolic_operator.terms:
        new_term = [(index_map[op[0]], op[1]) for op in term]
        new_operator.terms[tuple(new_term)] = symbolic_operator.terms[term]
    return new_operator
