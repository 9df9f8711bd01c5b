from .get_interaction_rdm import get_interaction_rdm
