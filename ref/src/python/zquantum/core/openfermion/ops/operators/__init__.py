from .fermion_operator import FermionOperator
from .ising_operator import IsingOperator
from .qubit_operator import QubitOperator
from .symbolic_operator import SymbolicOperator
