"""Stand-in for the missing dependency nilm_metadata (see DESIGN.md, "Environment seam").

It offers only the four entry points nilmtk uses, with the behaviour documented by
nilm_metadata, and a tiny central catalogue of appliance types.
"""
from copy import deepcopy
from .convert_yaml_to_hdf5 import convert_yaml_to_hdf5, save_yaml_to_datastore

_TYPES = {
    'fridge': {'type': 'fridge', 'categories': {'traditional': 'cold', 'size': 'large',
               'electrical': ['induction motor', 'single-phase']},
               'on_power_threshold': 20, 'min_on_duration': 60, 'min_off_duration': 12,
               'synonyms': ['refrigerator', 'cooler'], 'control': ['thermostat', 'timer']},
    'freezer': {'type': 'freezer', 'categories': {'traditional': 'cold', 'size': 'large',
                'electrical': ['single-phase']}, 'on_power_threshold': 30},
    'kettle': {'type': 'kettle', 'categories': {'traditional': 'wet', 'size': 'small',
               'electrical': ['resistive']}, 'on_power_threshold': 100, 'control': ['manual', 'thermostat']},
    'light': {'type': 'light', 'categories': {'traditional': 'lighting',
              'electrical': ['resistive']}},
    'washing machine': {'type': 'washing machine', 'categories': {'traditional': 'wet',
                        'size': 'large'}, 'on_power_threshold': 15},
    'washer dryer': {'type': 'washer dryer', 'categories': {'traditional': 'wet', 'size': 'large'}},
    'electric oven': {'type': 'electric oven', 'categories': {'traditional': 'cooking'}},
    'air source heat pump': {'type': 'air source heat pump', 'categories': {'traditional': 'heating'}},
    'television': {'type': 'television', 'categories': {'traditional': 'consumer electronics'}},
}


def get_appliance_types():
    return deepcopy(_TYPES)


def recursively_update_dict(to_update, source):
    """Recursively extends `to_update` with `source`: dicts merge, lists extend."""
    for key, value in source.items():
        if isinstance(value, dict):
            to_update[key] = recursively_update_dict(to_update.get(key, {}), value)
        elif isinstance(value, list):
            to_update[key] = list(to_update.get(key, [])) + list(value)
        else:
            to_update[key] = value
    return to_update
