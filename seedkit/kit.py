"""Small helper of the demonstrations: tables and data sets in a scratch directory."""
import os, sys, shutil, tempfile, atexit, warnings
warnings.simplefilter('ignore')
SCRATCH = tempfile.mkdtemp(prefix='demo')
atexit.register(shutil.rmtree, SCRATCH, True)
tempfile.tempdir = SCRATCH
import numpy as np
import pandas as pd
import nilmtk
from nilmtk import TimeFrame, DataSet, HDFDataStore, CSVDataStore
T0 = pd.Timestamp('2013-05-01 12:00:00', tz='UTC')
NAN = float('nan')


def at(o):
    return T0 + pd.Timedelta(seconds=o)


def tfr(a, b):
    return TimeFrame(None if a is None else at(a), None if b is None else at(b))


def frame(offs, vals, cols=(('power', 'active'),)):
    v = np.array(vals, dtype=float).reshape(len(offs), len(cols))
    return pd.DataFrame(v, index=pd.DatetimeIndex([at(o) for o in offs]),
                        columns=pd.MultiIndex.from_tuples(list(cols), names=['physical_quantity', 'type']))


def device(cols=(('power', 'active'),), sample_period=1, max_sample_period=2, limits=None):
    ms = []
    for pq, ty in cols:
        m = {'physical_quantity': pq, 'type': ty} if ty else {'physical_quantity': pq}
        if limits:
            m['lower_limit'], m['upper_limit'] = limits
        ms.append(m)
    return {'model': 'dev', 'sample_period': sample_period, 'max_sample_period': max_sample_period, 'measurements': ms}


def dataset(meters, apps=(), dev=None, name='TEST', building=1, devices=None, tz='UTC'):
    """meters: {instance: (table, metadata)}"""
    return dataset_n({building: (meters, apps)}, dev, name, devices, tz)


def dataset_n(buildings, dev=None, name='TEST', devices=None, tz='UTC'):
    p = os.path.join(SCRATCH, 'd%d.h5' % len(os.listdir(SCRATCH)))
    st = HDFDataStore(p, 'w')
    for b, (meters, apps) in buildings.items():
        for i, (df, md) in meters.items():
            if df is not None:
                st.put('/building%d/elec/meter%d' % (b, i), df)
    st.save_metadata('/', {'name': name, 'timezone': tz, 'meter_devices': devices or {'dev': dev or device()}})
    for b, (meters, apps) in buildings.items():
        em = {i: dict({'device_model': 'dev'}, data_location='/building%d/elec/meter%d' % (b, i), **md)
              for i, (df, md) in meters.items()}
        st.save_metadata('/building%d' % b, {'instance': b, 'elec_meters': em, 'appliances': list(apps)})
    st.close()
    return DataSet(p)


def check(ok, *what):
    if not ok:
        print('FAILED:', *what)
        sys.stdout.flush()
        sys.exit(1)
