from os import listdir
from os.path import isfile, join, splitext
from sys import stderr
import yaml
import pandas as pd


def _load_file(yaml_dir, yaml_filename):
    path = join(yaml_dir, yaml_filename)
    if isfile(path):
        with open(path) as fh:
            return yaml.safe_load(fh)
    print(path, "not found.", file=stderr)


def _collect(yaml_dir):
    metadata = _load_file(yaml_dir, 'dataset.yaml')
    metadata['meter_devices'] = _load_file(yaml_dir, 'meter_devices.yaml')
    buildings = {}
    for fname in sorted(listdir(yaml_dir)):
        if fname.startswith('building') and fname.endswith('.yaml'):
            building = splitext(fname)[0]
            b = _load_file(yaml_dir, fname)
            for inst, meter in b['elec_meters'].items():
                meter.setdefault('data_location', '/{}/elec/meter{}'.format(building, inst))
            buildings[building] = b
    return metadata, buildings


def convert_yaml_to_hdf5(yaml_dir, hdf_filename):
    metadata, buildings = _collect(yaml_dir)
    store = pd.HDFStore(hdf_filename, 'a')
    store.root._v_attrs.metadata = metadata
    for building, b in buildings.items():
        try:
            group = store._handle.create_group('/', building)
        except Exception:
            group = store._handle.get_node('/' + building)
        group._f_setattr('metadata', b)
    store.close()


def save_yaml_to_datastore(yaml_dir, store):
    metadata, buildings = _collect(yaml_dir)
    store.save_metadata('/', metadata)
    for building, b in buildings.items():
        store.save_metadata('/' + building, b)
