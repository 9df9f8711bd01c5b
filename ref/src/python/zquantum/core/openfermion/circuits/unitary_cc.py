import itertools
import numpy
from zquantum.core.openfermion.ops.operators import FermionOperator
from zquantum.core.openfermion.utils.indexing import down_index, up_index

def uccsd_generator(single_amplitudes, double_amplitudes, anti_hermitian=True):
    generator = FermionOperator()
    if isinstance(single_amplitudes, numpy.ndarray) or isinstance(double_amplitudes, numpy.ndarray):
        single_amplitudes, double_amplitudes = uccsd_convert_amplitude_format(single_amplitudes, double_amplitudes)
    for (i, j), t_ij in single_amplitudes:
        i, j = (int(i), int(j))
        generator += FermionOperator(((i, 1), (j, 0)), t_ij)
        if anti_hermitian:
            generator += FermionOperator(((j, 1), (i, 0)), -t_ij)
    for (i, j, k, l), t_ijkl in double_amplitudes:
        i, j, k, l = (int(i), int(j), int(k), int(l))
        generator += FermionOperator(((i, 1), (j, 0), (k, 1), (l, 0)), t_ijkl)
        if anti_hermitian:
            generator += FermionOperator(((l, 1), (k, 0), (j, 1), (i, 0)), -t_ijkl)
    return generator

def uccsd_convert_amplitude_format(single_amplitudes, double_amplitudes):
    single_amplitudes_list, double_amplitudes_list = ([], [])
    for i, j in zip(*single_amplitudes.nonzero()):
        single_amplitudes_list.append([[i, j], single_amplitudes[i, j]])
    for i, j, k, l in zip(*double_amplitudes.nonzero()):
        double_amplitudes_list.append([[i, j, k, l], double_amplitudes[i, j, k, l]])
    return (single_amplitudes_list, double_amplitudes_list)

def uccsd_singlet_paramsize(n_qubits, n_electrons):
    if n_qubits % 2 != 0:
        raise ValueError('The total number of spin-orbitals should be even.')
    n_spatial_orbitals = n_qubits // 2
    n_occupied = int(numpy.ceil(n_electrons / 2))
    n_virtual = n_spatial_orbitals - n_occupied
    n_single_amplitudes = n_occupied * n_virtual
    n_double_amplitudes = n_single_amplitudes * (n_single_amplitudes + 1) // 2
    return n_single_amplitudes + n_double_amplitudes

def uccsd_singlet_get_packed_amplitudes(single_amplitudes, double_amplitudes, n_qubits, n_electrons):
    n_spatial_orbitals = n_qubits // 2
    n_occupied = int(numpy.ceil(n_electrons / 2))
    n_virtual = n_spatial_orbitals - n_occupied
    singles = []
    doubles_1 = []
    doubles_2 = []
    for p, q in itertools.product(range(n_virtual), range(n_occupied)):
        virtual_spatial = n_occupied + p
        occupied_spatial = q
        virtual_up = up_index(virtual_spatial)
        virtual_down = down_index(virtual_spatial)
        occupied_up = up_index(occupied_spatial)
        occupied_down = down_index(occupied_spatial)
        singles.append(single_amplitudes[virtual_up, occupied_up])
        doubles_1.append(double_amplitudes[virtual_up, occupied_up, virtual_down, occupied_down])
    for (p, q), (r, s) in itertools.combinations(itertools.product(range(n_virtual), range(n_occupied)), 2):
        virtual_spatial_1 = n_occupied + p
        occupied_spatial_1 = q
        virtual_spatial_2 = n_occupied + r
        occupied_spatial_2 = s
        virtual_1_up = up_index(virtual_spatial_1)
        occupied_1_up = up_index(occupied_spatial_1)
        virtual_2_up = up_index(virtual_spatial_2)
        occupied_2_up = up_index(occupied_spatial_2)
        doubles_2.append(double_amplitudes[virtual_1_up, occupied_1_up, virtual_2_up, occupied_2_up])
    return singles + doubles_1 + doubles_2

def uccsd_singlet_generator(packed_amplitudes, n_qubits, n_electrons, anti_hermitian=True):
    if n_qubits % 2 != 0:
        raise ValueError('The total number of spin-orbitals should be even.')
    n_spatial_orbitals = n_qubits // 2
    n_occupied = int(numpy.ceil(n_electrons / 2))
    n_virtual = n_spatial_orbitals - n_occupied
    n_single_amplitudes = n_occupied * n_virtual
    t1 = packed_amplitudes[:n_single_amplitudes]
    t2_1 = packed_amplitudes[n_single_amplitudes:2 * n_single_amplitudes]
    t2_2 = packed_amplitudes[2 * n_single_amplitudes:]
    generator = FermionOperator()
    spin_index_functions = [up_index, down_index]
    for i, (p, q) in enumerate(itertools.product(range(n_virtual), range(n_occupied))):
        virtual_spatial = n_occupied + p
        occupied_spatial = q
        for spin in range(2):
            this_index = spin_index_functions[spin]
            other_index = spin_index_functions[1 - spin]
            virtual_this = this_index(virtual_spatial)
            virtual_other = other_index(virtual_spatial)
            occupied_this = this_index(occupied_spatial)
            occupied_other = other_index(occupied_spatial)
            coeff = t1[i]
            generator += FermionOperator(((virtual_this, 1), (occupied_this, 0)), coeff)
            if anti_hermitian:
                generator += FermionOperator(((occupied_this, 1), (virtual_this, 0)), -coeff)
            coeff = t2_1[i]
            generator += FermionOperator(((virtual_this, 1), (occupied_this, 0), (virtual_other, 1), (occupied_other, 0)), coeff)
            if anti_hermitian:
                generator += FermionOperator(((occupied_other, 1), (virtual_other, 0), (occupied_this, 1), (virtual_this, 0)), -coeff)
    for i, ((p, q), (r, s)) in enumerate(itertools.combinations(itertools.product(range(n_virtual), range(n_occupied)), 2)):
        virtual_spatial_1 = n_occupied + p
        occupied_spatial_1 = q
        virtual_spatial_2 = n_occupied + r
        occupied_spatial_2 = s
        coeff = t2_2[i]
        for spin_a, spin_b in itertools.product(range(2), repeat=2):
            index_a = spin_index_functions[spin_a]
            index_b = spin_index_functions[spin_b]
            virtual_1_a = index_a(virtual_spatial_1)
            occupied_1_a = index_a(occupied_spatial_1)
            virtual_2_b = index_b(virtual_spatial_2)
            occupied_2_b = index_b(occupied_spatial_2)
            if virtual_1_a == virtual_2_b:
                continue
            if occupied_1_a == occupied_2_b:
                continue
            else:
                generator += FermionOperator(((virtual_1_a, 1), (occupied_1_a, 0), (virtual_2_b, 1), (occupied_2_b, 0)), coeff)
                if anti_hermitian:
                    generator += FermionOperator(((occupied_2_b, 1), (virtual_2_b, 0), (occupied_1_a, 1), (virtual_1_a, 0)), -coeff)
    return generator
