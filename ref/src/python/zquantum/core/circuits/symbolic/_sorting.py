import re

def _convert_string_to_int_if_possible(text):
    return int(text) if text.isdigit() else text

def natural_key(symbol):
    return [_convert_string_to_int_if_possible(group) for group in re.split('(\\d+)', symbol.name)]

def natural_key_revlex(symbol):
    return list(reversed(natural_key(symbol)))

def natural_key_fixed_names_order(names_order):
    symbol_weights = {name: i for i, name in enumerate(names_order)}

    def _key(symbol):
        name, index = symbol.name.split('_')
        return (int(index), symbol_weights[name])
    return _key
