from collections import namedtuple
from zquantum.core.openfermion.ops.operators import FermionOperator
TunnelingParameter = namedtuple('TunnelingParameter', ('edge_type', 'dofs', 'coefficient'))
InteractionParameter = namedtuple('InteractionParameter', ('edge_type', 'dofs', 'coefficient', 'spin_pairs'))
PotentialParameter = namedtuple('PotentialParameter', ('dof', 'coefficient'))

def number_operator(i, coefficient=1.0, particle_hole_symmetry=False):
    op = FermionOperator(((i, 1), (i, 0)), coefficient)
    if particle_hole_symmetry:
        op -= FermionOperator((), 0.5)
    return op

def interaction_operator(i, j, coefficient=1.0, particle_hole_symmetry=False):
    return number_operator(i, coefficient, particle_hole_symmetry=particle_hole_symmetry) * number_operator(j, particle_hole_symmetry=particle_hole_symmetry)
