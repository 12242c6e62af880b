"""A data store in memory, delivering tables exactly as D01 requires of the real stores: the fast seam under the
meter-level checks.  It subclasses the real DataStore (window handling) and uses the real TimeFrame."""
import copy
import pandas as pd
import nilmtk
from nilmtk import TimeFrame, DataStore, DataSet, ElecMeter
from lib.source import chunked
from lib import meters as M


class MemStore(DataStore):
    def __init__(self):
        super().__init__()
        self.tables, self.meta = {}, {}
        self.all_sections_smaller_than_chunksize = True

    def __getitem__(self, key):
        return self.tables[key].copy()

    def put(self, key, df):
        self.tables[key] = df.copy()

    def append(self, key, df):
        self.tables[key] = pd.concat([self.tables[key], df]) if key in self.tables else df.copy()

    def load_metadata(self, key='/'):
        return copy.deepcopy(self.meta[key])

    def save_metadata(self, key, md):
        self.meta[key] = copy.deepcopy(md)

    def elements_below_key(self, key='/'):
        assert key == '/'
        return [k[1:] for k in self.meta if k != '/']

    def get_timeframe(self, key):
        df = self.tables[key]
        return self.window.intersection(TimeFrame(df.index[0], df.index[-1]))

    def close(self):
        pass

    def load(self, key, columns=None, sections=None, n_look_ahead_rows=0, chunksize=10 ** 9, verbose=False):
        if key not in self.tables:
            raise KeyError("key '%s' not found" % key)
        df = self.tables[key]
        if columns is not None:
            df = df[list(columns)]
        for section in ([TimeFrame()] if sections is None else sections):
            w = self.window.intersection(section)
            if not w.empty:
                lo = 0 if w.start is None else df.index.searchsorted(w.start, 'left')
                hi = len(df) if w.end is None else df.index.searchsorted(w.end, 'right' if w.include_end else 'left')
            if w.empty or lo >= hi:
                data = pd.DataFrame()
                data.timeframe = section if w.empty else w
                yield data
                continue
            part = df.iloc[lo:hi]
            if len(part) == 1:
                chunks = [part.copy()]
                chunks[0].timeframe = w
                bounds = [hi]
            else:
                chunks = chunked(part, chunksize, 0, end=w.end, start=w.start)
                bounds, p = [], lo
                for c in chunks:
                    p += len(c) - 1
                    bounds.append(p + 1)
            for c, b in zip(chunks, bounds):
                if n_look_ahead_rows:
                    c.look_ahead = df.iloc[b:b + n_look_ahead_rows]
                elif hasattr(c, 'look_ahead'):
                    del c.look_ahead
                yield c


_used = [True]


def dataset(buildings, devices, name='TEST', tz='UTC', extra=None, stats=False, fresh=True):
    """A DataSet over a MemStore; arguments as meters.write.  stats: also forget cached statistics."""
    if stats:
        M.fresh_world()
    elif fresh:
        nilmtk.global_meter_group.meters[:] = []
        ElecMeter.meter_devices.clear()
    st = MemStore()
    md = {'name': name, 'meter_devices': devices}
    if tz:
        md['timezone'] = tz
    md.update(extra or {})
    st.save_metadata('/', md)
    for b, (meters, apps) in buildings.items():
        em = {}
        for i, (df, m) in meters.items():
            if df is not None:
                st.put('/building%d/elec/meter%d' % (b, i), df)
            m = dict(m)
            m.setdefault('device_model', 'dev')
            m['data_location'] = '/building%d/elec/meter%d' % (b, i)
            em[i] = m
        st.save_metadata('/building%d' % b, {'instance': b, 'original_name': 'b%d' % b, 'elec_meters': em,
                                             'appliances': list(apps)})
    return DataSet().import_metadata(st)


def one_meter(df, dev, meta=None, apps=(), **kw):
    return dataset({1: ({1: (df, meta or {'site_meter': True})}, apps)}, {'dev': dev}, **kw).buildings[1].elec[1]
