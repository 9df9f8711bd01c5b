from .molecular_data import MolecularData, angstroms_to_bohr, antisymtei, bohr_to_angstroms, geometry_from_file, j_mat, k_mat, load_molecular_hamiltonian, name_molecule
from .reduced_hamiltonian import make_reduced_hamiltonian
