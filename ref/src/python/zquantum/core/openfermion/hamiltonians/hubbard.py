from zquantum.core.openfermion.hamiltonians.special_operators import number_operator
from zquantum.core.openfermion.ops.operators import FermionOperator
from zquantum.core.openfermion.utils.indexing import down_index, up_index

def fermi_hubbard(x_dimension, y_dimension, tunneling, coulomb, chemical_potential=0.0, magnetic_field=0.0, periodic=True, spinless=False, particle_hole_symmetry=False):
    if spinless:
        return _spinless_fermi_hubbard_model(x_dimension, y_dimension, tunneling, coulomb, chemical_potential, magnetic_field, periodic, particle_hole_symmetry)
    else:
        return _spinful_fermi_hubbard_model(x_dimension, y_dimension, tunneling, coulomb, chemical_potential, magnetic_field, periodic, particle_hole_symmetry)

def _spinful_fermi_hubbard_model(x_dimension, y_dimension, tunneling, coulomb, chemical_potential, magnetic_field, periodic, particle_hole_symmetry):
    n_sites = x_dimension * y_dimension
    n_spin_orbitals = 2 * n_sites
    hubbard_model = FermionOperator()
    for site in range(n_sites):
        right_neighbor = _right_neighbor(site, x_dimension, y_dimension, periodic)
        bottom_neighbor = _bottom_neighbor(site, x_dimension, y_dimension, periodic)
        if x_dimension == 2 and periodic and (site % 2 == 1):
            right_neighbor = None
        if y_dimension == 2 and periodic and (site >= x_dimension):
            bottom_neighbor = None
        if right_neighbor is not None:
            hubbard_model += _hopping_term(up_index(site), up_index(right_neighbor), -tunneling)
            hubbard_model += _hopping_term(down_index(site), down_index(right_neighbor), -tunneling)
        if bottom_neighbor is not None:
            hubbard_model += _hopping_term(up_index(site), up_index(bottom_neighbor), -tunneling)
            hubbard_model += _hopping_term(down_index(site), down_index(bottom_neighbor), -tunneling)
        hubbard_model += _coulomb_interaction_term(n_spin_orbitals, up_index(site), down_index(site), coulomb, particle_hole_symmetry)
        hubbard_model += number_operator(n_spin_orbitals, up_index(site), -chemical_potential - magnetic_field)
        hubbard_model += number_operator(n_spin_orbitals, down_index(site), -chemical_potential + magnetic_field)
    return hubbard_model

def _spinless_fermi_hubbard_model(x_dimension, y_dimension, tunneling, coulomb, chemical_potential, magnetic_field, periodic, particle_hole_symmetry):
    n_sites = x_dimension * y_dimension
    hubbard_model = FermionOperator()
    for site in range(n_sites):
        right_neighbor = _right_neighbor(site, x_dimension, y_dimension, periodic)
        bottom_neighbor = _bottom_neighbor(site, x_dimension, y_dimension, periodic)
        if x_dimension == 2 and periodic and (site % 2 == 1):
            right_neighbor = None
        if y_dimension == 2 and periodic and (site >= x_dimension):
            bottom_neighbor = None
        if right_neighbor is not None:
            hubbard_model += _hopping_term(site, right_neighbor, -tunneling)
            hubbard_model += _coulomb_interaction_term(n_sites, site, right_neighbor, coulomb, particle_hole_symmetry)
        if bottom_neighbor is not None:
            hubbard_model += _hopping_term(site, bottom_neighbor, -tunneling)
            hubbard_model += _coulomb_interaction_term(n_sites, site, bottom_neighbor, coulomb, particle_hole_symmetry)
        hubbard_model += number_operator(n_sites, site, -chemical_potential)
    return hubbard_model

def _hopping_term(i, j, coefficient, bosonic=False):
    op_class = FermionOperator
    hopping_term = op_class(((i, 1), (j, 0)), coefficient)
    hopping_term += op_class(((j, 1), (i, 0)), coefficient.conjugate())
    return hopping_term

def _coulomb_interaction_term(n_sites, i, j, coefficient, particle_hole_symmetry, bosonic=False):
    op_class = FermionOperator
    number_operator_i = number_operator(n_sites, i, parity=2 * bosonic - 1)
    number_operator_j = number_operator(n_sites, j, parity=2 * bosonic - 1)
    if particle_hole_symmetry:
        number_operator_i -= op_class((), 0.5)
        number_operator_j -= op_class((), 0.5)
    return coefficient * number_operator_i * number_operator_j

def _right_neighbor(site, x_dimension, y_dimension, periodic):
    if x_dimension == 1:
        return None
    if (site + 1) % x_dimension == 0:
        if periodic:
            return site + 1 - x_dimension
        else:
            return None
    return site + 1

def _bottom_neighbor(site, x_dimension, y_dimension, periodic):
    if y_dimension == 1:
        return None
    if site + x_dimension + 1 > x_dimension * y_dimension:
        if periodic:
            return site + x_dimension - x_dimension * y_dimension
        else:
            return None
    return site + x_dimension
