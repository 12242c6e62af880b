"""Building small data sets (real HDF5 files, read through the real DataSet) for the meter-level checks."""
import nilmtk
from nilmtk import HDFDataStore, TmpDataStore, DataSet, ElecMeter
from lib import stores as S


def device(cols, sample_period=1, max_sample_period=1, limits=None, **kw):
    ms = []
    for i, (pq, ty) in enumerate(cols):
        m = {'physical_quantity': pq}
        if ty:
            m['type'] = ty
        if limits is not None:
            m['lower_limit'], m['upper_limit'] = limits
        ms.append(m)
    d = {'model': 'dev', 'sample_period': sample_period, 'max_sample_period': max_sample_period, 'measurements': ms}
    d.update(kw)
    return d


def fresh_world():
    """Forget every meter and statistic of earlier executions."""
    try:
        nilmtk.STATS_CACHE.close()
    except Exception:
        pass
    nilmtk.STATS_CACHE = TmpDataStore()
    nilmtk.global_meter_group.meters[:] = []
    ElecMeter.meter_devices.clear()


def write(path, buildings, devices, name='TEST', tz='UTC', extra=None):
    """buildings: {b: (meters, appliances)}, meters: {i: (frame, metadata)}; frame may be None (no table)."""
    st = HDFDataStore(path, 'w')
    md = {'name': name, 'meter_devices': devices}
    if tz:
        md['timezone'] = tz
    md.update(extra or {})
    for b, (meters, apps) in buildings.items():
        for i, (df, _) in meters.items():
            if df is not None:
                st.put('/building%d/elec/meter%d' % (b, i), df)
    st.save_metadata('/', md)
    for b, (meters, apps) in buildings.items():
        em = {}
        for i, (df, m) in meters.items():
            m = dict(m)
            m.setdefault('device_model', 'dev')
            m['data_location'] = '/building%d/elec/meter%d' % (b, i)
            em[i] = m
        st.save_metadata('/building%d' % b, {'instance': b, 'original_name': 'b%d' % b, 'elec_meters': em,
                                             'appliances': apps})
    st.close()
    return path


class World:
    """with World(chk, buildings, devices) as ds: ..."""

    def __init__(self, chk, buildings, devices, fresh=True, **kw):
        self.path = S.fresh_path(chk, '.h5')
        self.args = (buildings, devices, kw)
        self.fresh = fresh

    def __enter__(self):
        if self.fresh:
            fresh_world()
        write(self.path, *self.args[:2], **self.args[2])
        self.ds = DataSet(self.path)
        return self.ds

    def __exit__(self, *a):
        try:
            self.ds.store.close()
        finally:
            S.drop(self.path)


def one_meter(chk, df, dev, meta=None, apps=(), **kw):
    return World(chk, {1: ({1: (df, meta or {'site_meter': True})}, list(apps))}, {'dev': dev}, **kw)
