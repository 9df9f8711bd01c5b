from ._sorting import natural_key, natural_key_fixed_names_order, natural_key_revlex
