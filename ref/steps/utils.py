from typing import Dict, Union
import numpy as np
from zquantum.core.utils import save_list
Specs = Union[str, Dict]

def generate_random_list_of_integers(seed: Union[None, int]=None, **kwargs):
    rng = np.random.default_rng(seed=seed)
    generated_integers = rng.integers(**kwargs).tolist()
    save_list(generated_integers, 'integers.json')
