from .general_hubbard import interaction_operator
from .hubbard import fermi_hubbard
