import os
import shutil
import uuid
import h5py
import numpy
from zquantum.core.openfermion.config import DATA_DIRECTORY, EQ_TOLERANCE
'NOTE ON PQRS CONVENTION:\n  The data structures which hold fermionic operators / integrals /\n  coefficients assume a particular convention which depends on how integrals\n  are labeled:\n  h[p,q]=\\int \\phi_p(x)* (T + V_{ext}) \\phi_q(x) dx\n  h[p,q,r,s]=\\int \\phi_p(x)* \\phi_q(y)* V_{elec-elec} \\phi_r(y) \\phi_s(x) dxdy\n  With this convention, the molecular Hamiltonian becomes\n  H =\\sum_{p,q} h[p,q] a_p^\\dagger a_q\n    + 0.5 * \\sum_{p,q,r,s} h[p,q,r,s] a_p^\\dagger a_q^\\dagger a_r a_s\n'
try:
    basestring
except NameError:
    basestring = str

class MoleculeNameError(Exception):
    pass

class MissingCalculationError(Exception):
    pass

def bohr_to_angstroms(distance):
    return 0.5291772458017723 * distance

def angstroms_to_bohr(distance):
    return 1.889726 * distance
periodic_table = ['?', 'H', 'He', 'Li', 'Be', 'B', 'C', 'N', 'O', 'F', 'Ne', 'Na', 'Mg', 'Al', 'Si', 'P', 'S', 'Cl', 'Ar', 'K', 'Ca', 'Sc', 'Ti', 'V', 'Cr', 'Mn', 'Fe', 'Co', 'Ni', 'Cu', 'Zn', 'Ga', 'Ge', 'As', 'Se', 'Br', 'Kr', 'Rb', 'Sr', 'Y', 'Zr', 'Nb', 'Mo', 'Tc', 'Ru', 'Rh', 'Pd', 'Ag', 'Cd', 'In', 'Sn', 'Sb', 'Te', 'I', 'Xe', 'Cs', 'Ba', 'La', 'Ce', 'Pr', 'Nd', 'Pm', 'Sm', 'Eu', 'Gd', 'Tb', 'Dy', 'Ho', 'Er', 'Tm', 'Yb', 'Lu', 'Hf', 'Ta', 'W', 'Re', 'Os', 'Ir', 'Pt', 'Au', 'Hg', 'Tl', 'Pb', 'Bi', 'Po', 'At', 'Rn', 'Fr', 'Ra', 'Ac', 'Th', 'Pa', 'U', 'Np', 'Pu', 'Am', 'Cm', 'Bk', 'Cf', 'Es', 'Fm', 'Md', 'No', 'Lr']
periodic_hash_table = {}
for atomic_number, atom in enumerate(periodic_table):
    periodic_hash_table[atom] = atomic_number
periodic_polarization = [-1, 1, 0, 1, 0, 1, 2, 3, 2, 1, 0, 1, 0, 1, 2, 3, 2, 1, 0, 1, 0, 1, 2, 3, 6, 5, 4, 3, 2, 1, 0, 1, 2, 3, 2, 1, 0, 1, 0, 1, 2, 5, 6, 5, 8, 9, 0, 1, 0, 1, 2, 3, 2, 1, 0]

def name_molecule(geometry, basis, multiplicity, charge, description):
    if not isinstance(geometry, basestring):
        atoms = [item[0] for item in geometry]
        atom_charge_info = [(atom, atoms.count(atom)) for atom in set(atoms)]
        sorted_info = sorted(atom_charge_info, key=lambda atom: periodic_hash_table[atom[0]])
        name = '{}{}'.format(sorted_info[0][0], sorted_info[0][1])
        for info in sorted_info[1:]:
            name += '-{}{}'.format(info[0], info[1])
    else:
        name = geometry
    name += '_{}'.format(basis)
    multiplicity_dict = {1: 'singlet', 2: 'doublet', 3: 'triplet', 4: 'quartet', 5: 'quintet', 6: 'sextet', 7: 'septet', 8: 'octet', 9: 'nonet', 10: 'dectet', 11: 'undectet', 12: 'duodectet'}
    if multiplicity not in multiplicity_dict:
        raise MoleculeNameError('Invalid spin multiplicity provided.')
    else:
        name += '_{}'.format(multiplicity_dict[multiplicity])
    if charge > 0:
        name += '_{}+'.format(charge)
    elif charge < 0:
        name += '_{}-'.format(charge)
    if description:
        name += '_{}'.format(description)
    return name

def geometry_from_file(file_name):
    geometry = []
    with open(file_name, 'r') as stream:
        for line in stream:
            data = line.split()
            if len(data) == 4:
                atom = data[0]
                coordinates = (float(data[1]), float(data[2]), float(data[3]))
                geometry += [(atom, coordinates)]
    return geometry

def antisymtei(two_body_integrals):
    symints = numpy.copy(two_body_integrals.transpose(0, 1, 3, 2), order='C')
    antisymints = symints - two_body_integrals
    return antisymints

def j_mat(two_body_integrals):
    chem_ordering = numpy.copy(two_body_integrals.transpose(0, 3, 1, 2), order='C')
    return numpy.einsum('iijj -> ij', chem_ordering)

def k_mat(two_body_integrals):
    chem_ordering = numpy.copy(two_body_integrals.transpose(0, 3, 1, 2), order='C')
    return numpy.einsum('ijji -> ij', chem_ordering)

def spinorb_from_spatial(one_body_integrals, two_body_integrals):
    n_qubits = 2 * one_body_integrals.shape[0]
    one_body_coefficients = numpy.zeros((n_qubits, n_qubits))
    two_body_coefficients = numpy.zeros((n_qubits, n_qubits, n_qubits, n_qubits))
    for p in range(n_qubits // 2):
        for q in range(n_qubits // 2):
            one_body_coefficients[2 * p, 2 * q] = one_body_integrals[p, q]
            one_body_coefficients[2 * p + 1, 2 * q + 1] = one_body_integrals[p, q]
            for r in range(n_qubits // 2):
                for s in range(n_qubits // 2):
                    two_body_coefficients[2 * p, 2 * q + 1, 2 * r + 1, 2 * s] = two_body_integrals[p, q, r, s]
                    two_body_coefficients[2 * p + 1, 2 * q, 2 * r, 2 * s + 1] = two_body_integrals[p, q, r, s]
                    two_body_coefficients[2 * p, 2 * q, 2 * r, 2 * s] = two_body_integrals[p, q, r, s]
                    two_body_coefficients[2 * p + 1, 2 * q + 1, 2 * r + 1, 2 * s + 1] = two_body_integrals[p, q, r, s]
    one_body_coefficients[numpy.absolute(one_body_coefficients) < EQ_TOLERANCE] = 0.0
    two_body_coefficients[numpy.absolute(two_body_coefficients) < EQ_TOLERANCE] = 0.0
    return (one_body_coefficients, two_body_coefficients)

class MolecularData(object):

    def __init__(self, geometry=None, basis=None, multiplicity=None, charge=0, description='', filename='', data_directory=None):
        if geometry is None or basis is None or multiplicity is None:
            if filename:
                if filename[-5:] == '.hdf5':
                    self.filename = filename[:len(filename) - 5]
                else:
                    self.filename = filename
                self.load()
                self.init_lazy_properties()
                return
            else:
                raise ValueError('Geometry, basis, multiplicity must bespecified when not loading from file.')
        self.geometry = geometry
        self.basis = basis
        self.multiplicity = multiplicity
        self.charge = charge
        if not isinstance(description, basestring):
            raise TypeError('description must be a string.')
        self.description = description
        self.name = name_molecule(geometry, basis, multiplicity, charge, description)
        if filename:
            if filename[-5:] == '.hdf5':
                filename = filename[:len(filename) - 5]
            self.filename = filename
        elif data_directory is None:
            self.filename = DATA_DIRECTORY + '/' + self.name
        else:
            self.filename = data_directory + '/' + self.name
        if not isinstance(geometry, basestring):
            self.n_atoms = len(geometry)
            self.atoms = sorted([row[0] for row in geometry], key=lambda atom: periodic_hash_table[atom])
            self.protons = [periodic_hash_table[atom] for atom in self.atoms]
            self.n_electrons = sum(self.protons) - charge
        else:
            self.n_atoms = 0
            self.atoms = []
            self.protons = 0
            self.n_electrons = 0
        self.n_orbitals = None
        self.n_qubits = None
        self.nuclear_repulsion = None
        self.hf_energy = None
        self.orbital_energies = None
        self.mp2_energy = None
        self.cisd_energy = None
        self.fci_energy = None
        self.ccsd_energy = None
        self.general_calculations = {}
        self.init_lazy_properties()

    def init_lazy_properties(self):
        self._canonical_orbitals = None
        self._overlap_integrals = None
        self._one_body_integrals = None
        self._two_body_integrals = None
        self._cisd_one_rdm = None
        self._cisd_two_rdm = None
        self._fci_one_rdm = None
        self._fci_two_rdm = None
        self._ccsd_single_amps = None
        self._ccsd_double_amps = None

    @property
    def canonical_orbitals(self):
        if self._canonical_orbitals is None:
            data = self.get_from_file('canonical_orbitals')
            self._canonical_orbitals = data if data is not None and data.dtype.num != 0 else None
        return self._canonical_orbitals

    @canonical_orbitals.setter
    def canonical_orbitals(self, value):
        self._canonical_orbitals = value

    @property
    def overlap_integrals(self):
        if self._overlap_integrals is None:
            data = self.get_from_file('overlap_integrals')
            self._overlap_integrals = data if data is not None and data.dtype.num != 0 else None
        return self._overlap_integrals

    @overlap_integrals.setter
    def overlap_integrals(self, value):
        self._overlap_integrals = value

    @property
    def one_body_integrals(self):
        if self._one_body_integrals is None:
            data = self.get_from_file('one_body_integrals')
            self._one_body_integrals = data if data is not None and data.dtype.num != 0 else None
        return self._one_body_integrals

    @one_body_integrals.setter
    def one_body_integrals(self, value):
        self._one_body_integrals = value

    @property
    def two_body_integrals(self):
        if self._two_body_integrals is None:
            data = self.get_from_file('two_body_integrals')
            self._two_body_integrals = data if data is not None and data.dtype.num != 0 else None
        return self._two_body_integrals

    @two_body_integrals.setter
    def two_body_integrals(self, value):
        self._two_body_integrals = value

    @property
    def cisd_one_rdm(self):
        if self._cisd_one_rdm is None:
            data = self.get_from_file('cisd_one_rdm')
            self._cisd_one_rdm = data if data is not None and data.dtype.num != 0 else None
        return self._cisd_one_rdm

    @cisd_one_rdm.setter
    def cisd_one_rdm(self, value):
        self._cisd_one_rdm = value

    @property
    def cisd_two_rdm(self):
        if self._cisd_two_rdm is None:
            data = self.get_from_file('cisd_two_rdm')
            self._cisd_two_rdm = data if data is not None and data.dtype.num != 0 else None
        return self._cisd_two_rdm

    @cisd_two_rdm.setter
    def cisd_two_rdm(self, value):
        self._cisd_two_rdm = value

    @property
    def fci_one_rdm(self):
        if self._fci_one_rdm is None:
            data = self.get_from_file('fci_one_rdm')
            self._fci_one_rdm = data if data is not None and data.dtype.num != 0 else None
        return self._fci_one_rdm

    @fci_one_rdm.setter
    def fci_one_rdm(self, value):
        self._fci_one_rdm = value

    @property
    def fci_two_rdm(self):
        if self._fci_two_rdm is None:
            data = self.get_from_file('fci_two_rdm')
            self._fci_two_rdm = data if data is not None and data.dtype.num != 0 else None
        return self._fci_two_rdm

    @fci_two_rdm.setter
    def fci_two_rdm(self, value):
        self._fci_two_rdm = value

    @property
    def ccsd_single_amps(self):
        if self._ccsd_single_amps is None:
            data = self.get_from_file('ccsd_single_amps')
            self._ccsd_single_amps = data if data is not None and data.dtype.num != 0 else None
        return self._ccsd_single_amps

    @ccsd_single_amps.setter
    def ccsd_single_amps(self, value):
        self._ccsd_single_amps = value

    @property
    def ccsd_double_amps(self):
        if self._ccsd_double_amps is None:
            data = self.get_from_file('ccsd_double_amps')
            self._ccsd_double_amps = data if data is not None and data.dtype.num != 0 else None
        return self._ccsd_double_amps

    @ccsd_double_amps.setter
    def ccsd_double_amps(self, value):
        self._ccsd_double_amps = value

    def save(self):
        tmp_name = uuid.uuid4()
        with h5py.File('{}.hdf5'.format(tmp_name), 'w') as f:
            d_geom = f.create_group('geometry')
            if not isinstance(self.geometry, basestring):
                atoms = [numpy.string_(item[0]) for item in self.geometry]
                positions = numpy.array([list(item[1]) for item in self.geometry])
            else:
                atoms = numpy.string_(self.geometry)
                positions = None
            d_geom.create_dataset('atoms', data=atoms if atoms is not None else False)
            d_geom.create_dataset('positions', data=positions if positions is not None else False)
            f.create_dataset('basis', data=numpy.string_(self.basis))
            f.create_dataset('multiplicity', data=self.multiplicity)
            f.create_dataset('charge', data=self.charge)
            f.create_dataset('description', data=numpy.string_(self.description))
            f.create_dataset('name', data=numpy.string_(self.name))
            f.create_dataset('n_atoms', data=self.n_atoms)
            f.create_dataset('atoms', data=numpy.string_(self.atoms))
            f.create_dataset('protons', data=self.protons)
            f.create_dataset('n_electrons', data=self.n_electrons)
            f.create_dataset('n_orbitals', data=self.n_orbitals if self.n_orbitals is not None else False)
            f.create_dataset('n_qubits', data=self.n_qubits if self.n_qubits is not None else False)
            f.create_dataset('nuclear_repulsion', data=self.nuclear_repulsion if self.nuclear_repulsion is not None else False)
            f.create_dataset('hf_energy', data=self.hf_energy if self.hf_energy is not None else False)
            f.create_dataset('canonical_orbitals', data=self.canonical_orbitals if self.canonical_orbitals is not None else False, compression='gzip' if self.canonical_orbitals is not None else None)
            f.create_dataset('overlap_integrals', data=self.overlap_integrals if self.overlap_integrals is not None else False, compression='gzip' if self.overlap_integrals is not None else None)
            f.create_dataset('orbital_energies', data=self.orbital_energies if self.orbital_energies is not None else False)
            f.create_dataset('one_body_integrals', data=self.one_body_integrals if self.one_body_integrals is not None else False, compression='gzip' if self.one_body_integrals is not None else None)
            f.create_dataset('two_body_integrals', data=self.two_body_integrals if self.two_body_integrals is not None else False, compression='gzip' if self.two_body_integrals is not None else None)
            f.create_dataset('mp2_energy', data=self.mp2_energy if self.mp2_energy is not None else False)
            f.create_dataset('cisd_energy', data=self.cisd_energy if self.cisd_energy is not None else False)
            f.create_dataset('cisd_one_rdm', data=self.cisd_one_rdm if self.cisd_one_rdm is not None else False, compression='gzip' if self.cisd_one_rdm is not None else None)
            f.create_dataset('cisd_two_rdm', data=self.cisd_two_rdm if self.cisd_two_rdm is not None else False, compression='gzip' if self.cisd_two_rdm is not None else None)
            f.create_dataset('fci_energy', data=self.fci_energy if self.fci_energy is not None else False)
            f.create_dataset('fci_one_rdm', data=self.fci_one_rdm if self.fci_one_rdm is not None else False, compression='gzip' if self.fci_one_rdm is not None else None)
            f.create_dataset('fci_two_rdm', data=self.fci_two_rdm if self.fci_two_rdm is not None else False, compression='gzip' if self.fci_two_rdm is not None else None)
            f.create_dataset('ccsd_energy', data=self.ccsd_energy if self.ccsd_energy is not None else False)
            f.create_dataset('ccsd_single_amps', data=self.ccsd_single_amps if self.ccsd_single_amps is not None else False, compression='gzip' if self.ccsd_single_amps is not None else None)
            f.create_dataset('ccsd_double_amps', data=self.ccsd_double_amps if self.ccsd_double_amps is not None else False, compression='gzip' if self.ccsd_double_amps is not None else None)
            key_list = list(self.general_calculations.keys())
            f.create_dataset('general_calculations_keys', data=[numpy.string_(key) for key in key_list] if len(key_list) > 0 else False)
            f.create_dataset('general_calculations_values', data=[self.general_calculations[key] for key in key_list] if len(key_list) > 0 else False)
        try:
            os.remove('{}.hdf5'.format(self.filename))
        except OSError:
            pass
        shutil.move('{}.hdf5'.format(tmp_name), '{}.hdf5'.format(self.filename))

    def load(self):
        geometry = []
        with h5py.File('{}.hdf5'.format(self.filename), 'r') as f:
            data = f['geometry/atoms']
            if data.shape != ():
                for atom, pos in zip(f['geometry/atoms'][...], f['geometry/positions'][...]):
                    geometry.append((atom.tobytes().decode('utf-8'), list(pos)))
                self.geometry = geometry
            else:
                self.geometry = data[...].tobytes().decode('utf-8')
            self.basis = f['basis'][...].tobytes().decode('utf-8')
            self.multiplicity = int(f['multiplicity'][...])
            self.charge = int(f['charge'][...])
            self.description = f['description'][...].tobytes().decode('utf-8').rstrip('\x00')
            self.name = f['name'][...].tobytes().decode('utf-8')
            self.n_atoms = int(f['n_atoms'][...])
            self.atoms = f['atoms'][...]
            self.protons = f['protons'][...]
            self.n_electrons = int(f['n_electrons'][...])
            data = f['n_orbitals'][...]
            self.n_orbitals = int(data) if data.dtype.num != 0 else None
            data = f['n_qubits'][...]
            self.n_qubits = int(data) if data.dtype.num != 0 else None
            data = f['nuclear_repulsion'][...]
            self.nuclear_repulsion = float(data) if data.dtype.num != 0 else None
            data = f['hf_energy'][...]
            self.hf_energy = data if data.dtype.num != 0 else None
            data = f['orbital_energies'][...]
            self.orbital_energies = data if data.dtype.num != 0 else None
            data = f['mp2_energy'][...]
            self.mp2_energy = data if data.dtype.num != 0 else None
            data = f['cisd_energy'][...]
            self.cisd_energy = data if data.dtype.num != 0 else None
            data = f['fci_energy'][...]
            self.fci_energy = data if data.dtype.num != 0 else None
            data = f['ccsd_energy'][...]
            self.ccsd_energy = data if data.dtype.num != 0 else None
            if 'general_calculations_keys' in f and 'general_calculations_values' in f:
                keys = f['general_calculations_keys']
                values = f['general_calculations_values']
                if keys.shape != ():
                    self.general_calculations = {key.tobytes().decode('utf-8'): value for key, value in zip(keys[...], values[...])}
            else:
                self.general_calculations = None

    def get_from_file(self, property_name):
        try:
            with h5py.File('{}.hdf5'.format(self.filename), 'r') as f:
                data = f[property_name][...]
        except KeyError:
            data = None
        except IOError:
            data = None
        return data

    def get_n_alpha_electrons(self):
        return int((self.n_electrons + (self.multiplicity - 1)) // 2)

    def get_n_beta_electrons(self):
        return int((self.n_electrons - (self.multiplicity - 1)) // 2)

    def get_integrals(self):
        if self.one_body_integrals is None or self.two_body_integrals is None:
            raise MissingCalculationError('Missing integral calculation in {}, run before loading integrals.'.format(self.filename))
        return (self.one_body_integrals, self.two_body_integrals)

    def get_active_space_integrals(self, occupied_indices=None, active_indices=None):
        from zquantum.core.openfermion.ops.representations import get_active_space_integrals
        occupied_indices = [] if occupied_indices is None else occupied_indices
        if len(active_indices) < 1:
            raise ValueError('Some active indices required for reduction.')
        one_body_integrals, two_body_integrals = self.get_integrals()
        return get_active_space_integrals(one_body_integrals, two_body_integrals, occupied_indices, active_indices)

    def get_molecular_hamiltonian(self, occupied_indices=None, active_indices=None):
        from zquantum.core.openfermion.ops.representations import InteractionOperator
        if occupied_indices is None and active_indices is None:
            one_body_integrals, two_body_integrals = self.get_integrals()
            constant = self.nuclear_repulsion
        else:
            core_adjustment, one_body_integrals, two_body_integrals = self.get_active_space_integrals(occupied_indices, active_indices)
            constant = self.nuclear_repulsion + core_adjustment
        one_body_coefficients, two_body_coefficients = spinorb_from_spatial(one_body_integrals, two_body_integrals)
        molecular_hamiltonian = InteractionOperator(constant, one_body_coefficients, 1 / 2 * two_body_coefficients)
        return molecular_hamiltonian

    def get_molecular_rdm(self, use_fci=False):
        from zquantum.core.openfermion.ops.representations import InteractionRDM
        if use_fci:
            if self.fci_energy is None:
                raise MissingCalculationError('Missing FCI RDM in {}'.format(self.filename) + 'Run FCI calculation before loading FCI RDMs.')
            one_rdm = self.fci_one_rdm
            two_rdm = self.fci_two_rdm
        else:
            if self.cisd_energy is None:
                raise MissingCalculationError('Missing CISD RDM in {}'.format(self.filename) + 'Run CISD calculation before loading CISD RDMs.')
            one_rdm = self.cisd_one_rdm
            two_rdm = self.cisd_two_rdm
        one_rdm = numpy.array(one_rdm)
        two_rdm = numpy.array(two_rdm)
        one_rdm[numpy.absolute(one_rdm) < EQ_TOLERANCE] = 0.0
        two_rdm[numpy.absolute(two_rdm) < EQ_TOLERANCE] = 0.0
        rdm = InteractionRDM(one_rdm, two_rdm)
        return rdm

    def get_j(self):
        if self.two_body_integrals is None:
            raise MissingCalculationError('Missing integral calculation in {}, run before loading integrals.'.format(self.filename))
        return j_mat(self.two_body_integrals)

    def get_k(self):
        if self.two_body_integrals is None:
            raise MissingCalculationError('Missing integral calculation in {}, run before loading integrals.'.format(self.filename))
        return k_mat(self.two_body_integrals)

    def get_antisym(self):
        if self.two_body_integrals is None:
            raise MissingCalculationError('Missing integral calculation in {}, run before loading integrals.'.format(self.filename))
        _, two_body_coefficients = spinorb_from_spatial(self.one_body_integrals, self.two_body_integrals)
        return antisymtei(two_body_coefficients)

def load_molecular_hamiltonian(geometry, basis, multiplicity, description, n_active_electrons=None, n_active_orbitals=None):
    molecule = MolecularData(geometry, basis, multiplicity, description=description)
    molecule.load()
    if n_active_electrons is None:
        n_core_orbitals = 0
        occupied_indices = None
    else:
        n_core_orbitals = (molecule.n_electrons - n_active_electrons) // 2
        occupied_indices = list(range(n_core_orbitals))
    if n_active_orbitals is None:
        active_indices = None
    else:
        active_indices = list(range(n_core_orbitals, n_core_orbitals + n_active_orbitals))
    return molecule.get_molecular_hamiltonian(occupied_indices=occupied_indices, active_indices=active_indices)
