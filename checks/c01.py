"""C01: converters of published data sets keep every raw reading, at its time, under the meter its metadata name."""
import gzip
import itertools
import os
import sys
import types
import numpy as np
import pandas as pd
import yaml
from nilmtk import DataSet, HDFDataStore, CSVDataStore, ElecMeter
import nilmtk
from lib.core import THOROUGH, REPO, require, Violation
from lib import stores as S

BOUNDS = ('raw files of 12 published data sets as their converters expect them: 1-3 readings per meter in every order with ties (every order in time '
          'where the raw data are sorted), every kind of channel, several houses, one-second channels, disabled meters, missing readings and files, '
          'day files in blocks with changing columns, HDF5 and (selected) text output')
ASSUMPTIONS = ['the order of raw readings with the same time is not claimed where they are all kept', 'values exact in single precision', 'raw UK-DALE, AMPds and COMBED files are in time order',
               'text files: no table all of whose readings share one time',
               'nilm_metadata and deddiag_loader are replaced by stand-ins', 'the SMART, HES, caxe and Dataport converters are not covered']
META = os.path.join(REPO, 'nilmtk', 'dataset_converters')


def write(*path_and_text):
    path = os.path.join(*path_and_text[:-1])
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(path_and_text[-1])


def utc(sec):
    return pd.Timestamp(int(round(sec * 1000)), unit='ms', tz='UTC')


class Expect:
    """What the converted file has to hold: {key: (columns, rows [(utc, values)])}"""

    def __init__(self, tz, metadata=None, dups='all'):
        self.tz, self.metadata, self.dups, self.tables = tz, metadata, dups, {}

    def put(self, b, m, cols, rows):
        self.tables['/building%d/elec/meter%d' % (b, m)] = (list(cols), list(rows))


def tidy(rows, dups):
    """Raw rows in file order -> stored rows in time order."""
    out = {}
    for t, v in rows:
        out.setdefault(t, []).append(tuple(v))
    return [(t, out[t][:1] if dups == 'first' else sorted(out[t], key=repr)) for t in sorted(out)]


def close(a, b):
    return (a != a and b != b) or abs(a - b) <= 1e-5 * max(1.0, abs(b))


def same_rows(df, cols, rows, exp, what):
    require([tuple(c) for c in df.columns] == cols, '{}: columns {}', what, list(df.columns))
    require(df.index.tz is not None and str(df.index.tz) == exp.tz, '{}: time zone {}', what, df.index.tz)
    got = [(t.tz_convert('UTC'), tuple(float(x) for x in r)) for t, r in zip(df.index, df.to_numpy(dtype=float))]
    require([t for t, _ in got] == sorted(t for t, _ in got), '{}: not in time order', what)
    g, w = tidy(got, 'all'), tidy(rows, exp.dups)
    require([t for t, _ in g] == [t for t, _ in w], '{}: times {} instead of {}', what, [str(t) for t, _ in g], [str(t) for t, _ in w])
    for (t, a), (_, b) in zip(g, w):
        require(len(a) == len(b) and all(len(x) == len(y) and all(close(p, q) for p, q in zip(x, y)) for x, y in zip(a, b)),
                '{}: readings at {}: {} instead of {}', what, t, a, b)


def metadata_of(folder):
    out = {}
    for f in os.listdir(folder):
        if f.startswith('building') and f.endswith('.yaml'):
            with open(os.path.join(folder, f)) as fh:
                out[f[:-5]] = yaml.safe_load(fh)
    with open(os.path.join(folder, 'dataset.yaml')) as fh:
        return yaml.safe_load(fh), out


def verify(path, fmt, exp, folder):
    store = HDFDataStore(path, 'r') if fmt == 'HDF' else CSVDataStore(path)
    try:
        if fmt == 'HDF':
            keys = sorted(k for k in store.store.keys())
        else:
            keys = sorted('/' + os.path.relpath(os.path.join(d, f), path)[:-4] for d, _, fs in os.walk(path) for f in fs
                          if f.endswith('.csv'))
        require(keys == sorted(exp.tables), 'tables {} instead of {}', keys, sorted(exp.tables))
        for key, (cols, rows) in exp.tables.items():
            if fmt == 'HDF':
                df = store.store[key]
            else:
                if len(rows) > 1 and len({t for t, _ in rows}) == 1:
                    continue            # the text store cannot load a table with a single instant (see ASSUMPTIONS)
                df = pd.concat(list(store.load(key)))
                if df.index.tz is None:
                    df = df.tz_localize('UTC')
                df = df.tz_convert(exp.tz)      # text files hold UTC
            same_rows(df, cols, rows, exp, key)
        ds, blds = metadata_of(folder)
        md = store.load_metadata('/')
        require({k: v for k, v in md.items() if k != 'meter_devices'} == {k: v for k, v in ds.items() if k != 'meter_devices'},
                'metadata of the data set: {}', md)
        require(bool(md.get('meter_devices')), 'no meter devices')
        if fmt == 'HDF':                # text files: a directory for each building with readings
            require(sorted(store.elements_below_key('/')) == sorted(set(blds)), 'buildings {}', store.elements_below_key('/'))
        for b, want in blds.items():
            got = store.load_metadata('/' + b)
            require(got.get('instance') == want.get('instance') and sorted(got['elec_meters']) == sorted(want['elec_meters'])
                    and len(got.get('appliances', [])) == len(want.get('appliances', [])), 'metadata of {}: {}', b, got)
    finally:
        store.close()
    return len(exp.tables)


# --------------------------------------------------------------- the data sets
T = 1303132929          # 2011-04-18, as REDD starts; DST elsewhere in the tests below
PA, PP = [('power', 'active')], [('power', 'apparent')]


def dat(rows):
    return ''.join('%d %s\n' % (t, ' '.join('%g' % x for x in v)) for t, v in rows)


def raw(pat, base, scale=1.0, step=1):
    """One reading per element of the pattern: the element is its time, the position its value."""
    return [(base + step * k, (scale * (10 * (i + 1) + k),)) for i, k in enumerate(pat)]


def stamped(rows):
    return [(utc(t), v) for t, v in rows]


def redd(d, out, fmt, item):
    from nilmtk.dataset_converters import convert_redd
    exp = Expect('US/Eastern')
    for n, (house, chan, pat) in enumerate(item):
        rows = raw(pat, T + 1000 * n)
        write(d, 'house_%d' % house, 'channel_%d.dat' % chan, dat(rows))
        exp.put(house, chan, PP if chan <= 2 else PA, stamped(rows))
    write(d, 'house_1', 'labels.dat', '1 mains\n')
    os.makedirs(os.path.join(d, 'other'), exist_ok=True)
    convert_redd(d, out, fmt)
    return exp, os.path.join(META, 'redd', 'metadata')


UKD_DEV = {'EcoManager': {'model': 'EcoManager', 'sample_period': 6, 'max_sample_period': 120,
                          'measurements': [{'physical_quantity': 'power', 'type': 'active'}]},
           'CT': {'model': 'CT', 'sample_period': 6, 'max_sample_period': 120,
                  'measurements': [{'physical_quantity': 'power', 'type': 'apparent'}]},
           'sound card': {'model': 'sc', 'sample_period': 1, 'max_sample_period': 20,
                          'measurements': [{'physical_quantity': 'power', 'type': 'active'}, {'physical_quantity': 'power', 'type': 'apparent'},
                                           {'physical_quantity': 'voltage', 'type': ''}]}}


def ukdale(d, out, fmt, item):
    from nilmtk.dataset_converters import convert_ukdale
    houses, one_sec, disabled, drop = item
    exp = Expect('Europe/London', dups='first' if drop else 'all')
    meta = os.path.join(d, 'metadata')
    write(meta, 'dataset.yaml', yaml.safe_dump({'name': 'UK-DALE', 'timezone': 'Europe/London'}))
    write(meta, 'meter_devices.yaml', yaml.safe_dump(UKD_DEV))
    n = 0
    for h, chans in houses:
        em = {}
        for c, (dev, pat) in chans.items():
            rows = raw(sorted(pat), 1382832000 - 1 + 5000 * n, step=1)       # around the end of summer time
            n += 1
            em[c] = {'device_model': dev}
            em[c].update({'site_meter': True} if c == 1 else {'submeter_of': 1})
            if c == 1 and h in disabled:
                em[c]['disabled'] = True
            write(d, 'house_%d' % h, 'channel_%d.dat' % c, dat(rows))
            exp.put(h, c, PA if dev == 'EcoManager' else PP, stamped(rows))
        if h in one_sec:
            c = max(chans) + 1
            em[c] = {'device_model': 'sound card', 'site_meter': True}
            rows = [(1382832000 + .5 + k, (i * 10 + 1., i * 10 + 2., 240.5 + k)) for i, k in enumerate(one_sec[h])]
            write(d, 'house_%d' % h, 'mains.dat', ''.join('%.1f %g %g %g\n' % ((t,) + v) for t, v in rows))
            exp.put(h, c, [('power', 'active'), ('power', 'apparent'), ('voltage', '')], stamped(rows))
        write(meta, 'building%d.yaml' % h, yaml.safe_dump({'instance': h, 'original_name': 'house_%d' % h, 'elec_meters': em, 'appliances': []}))
    convert_ukdale(d, out, fmt, drop)
    require(not os.path.exists(os.path.join(meta, 'ukdale_metadata.h5')), 'the temporary metadata file is left behind')
    return exp, meta


REFIT_HOUSES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 20, 21]
REFIT_COLS = ['Aggregate'] + ['Appliance%d' % i for i in range(1, 10)]


def refit(d, out, fmt, item):
    from nilmtk.dataset_converters import convert_refit
    clean, order, pats = item
    exp = Expect('Europe/London')
    for n, h in enumerate(REFIT_HOUSES):
        pat = pats[n % len(pats)]
        rows = [(1382832000 + 100 * h + k, tuple(float(1000 * h + 10 * i + j) for j in range(10))) for i, k in enumerate(pat)]
        cols = ['Time', 'Unix'] + REFIT_COLS + ['Issues']
        lines = []
        for t, v in rows:
            f = dict(zip(REFIT_COLS, v), Time='x', Unix=t, Issues=0)
            lines.append([f[c] for c in cols])
        if order:
            cols, lines = cols[::-1], [x[::-1] for x in lines]
        write(d, ('CLEAN_House%d.csv' if clean else 'House_%d.csv') % h,
              '\n'.join(','.join(str(x) for x in r) for r in [cols] + lines) + '\n')
        for j in range(10):
            jj = 9 - j if order else j
            exp.put(n + 1, j + 1, PA, [(utc(t), (v[jj],)) for t, v in rows])
    convert_refit(d, out, fmt)
    return exp, os.path.join(META, 'refit', 'metadata')


AMP = {'V': ('voltage', ''), 'I': ('current', ''), 'f': ('frequency', ''), 'DPF': ('power factor', 'real'),
       'APF': ('power factor', 'apparent'), 'P': ('power', 'active'), 'Pt': ('energy', 'active'), 'Q': ('power', 'reactive'),
       'Qt': ('energy', 'reactive'), 'S': ('power', 'apparent'), 'St': ('energy', 'apparent')}


def ampds(d, out, fmt, item):
    from nilmtk.dataset_converters import convert_ampds
    files, cols, blank, n = item
    exp = Expect('America/Vancouver')
    for i, f in enumerate(['WHE.csv'] + sorted(x for x in files if x != 'WHE.csv')):
        rows = [(1333263600 + 60 * k, tuple(float(100 * i + 10 * k + j) for j in range(len(cols)))) for k in range(n)]
        lines = ['TS , ' + ' , '.join(cols)]
        keep = []
        for k, (t, v) in enumerate(rows):
            gone = (k, i) in blank
            lines.append(','.join([str(t)] + ['' if gone and j == 0 else ' ' + str(x) for j, x in enumerate(v)]))
            if not gone:
                keep.append((utc(t), v))
        write(d, f, '\n'.join(lines) + '\n')
        exp.put(1, i + 1, [AMP[c] for c in cols], keep)
    write(d, 'notes.txt', 'x')
    convert_ampds(d, out, fmt)
    return exp, os.path.join(META, 'ampds', 'metadata')


IAWE_COLS = {'W': ('power', 'active'), 'VA': ('power', 'apparent'), 'VAR': ('power', 'reactive'), 'f': ('frequency', ''), 'V': ('voltage', ''),
             'PF': ('pf', ''), 'A': ('current', '')}


def iawe(d, out, fmt, item):
    from nilmtk.dataset_converters import convert_iawe
    cols, readings = item
    base = pd.Timestamp('2013-07-13 00:00', tz='UTC').value // 10 ** 9
    idx = pd.date_range('2013-07-13', '2013-08-04', freq='min', tz='UTC')
    exp = Expect('Asia/Kolkata')
    for chan in range(1, 12):
        rows = [(base + s, [None if m and j == 0 else float(i * 8 + j + chan) for j in range(len(cols))]) for i, (s, m) in enumerate(readings)]
        write(d, 'electricity', '%d.csv' % chan, '\n'.join([','.join(['timestamp'] + list(cols))] + [
            ','.join([str(t)] + ['\\N' if x is None else '%g' % x for x in v]) for t, v in rows]) + '\n')
        first = {}
        for t, v in rows:
            first.setdefault(t, v)
        mins = {}
        for t, v in first.items():
            if None not in v:
                mins.setdefault(t // 60 * 60, []).append(v)
        mean = {t: [sum(x[j] for x in vs) / len(vs) for j in range(len(cols))] for t, vs in mins.items()}
        fill = [0. if IAWE_COLS[c][0] == 'power' else float(np.median([m[j] for m in mean.values()])) for j, c in enumerate(cols)]
        exp.put(1, chan, [IAWE_COLS[c] for c in cols], [(t, tuple(mean.get(t.value // 10 ** 9, fill))) for t in idx])
    convert_iawe(d, out, fmt)
    return exp, os.path.join(META, 'iawe', 'metadata')


COMBED = [('Academic Block', 'Building Total Mains', '0', 1, 1), ('Academic Block', 'Lifts', '0', 1, 2), ('Academic Block', 'Floor Total', '3', 1, 5),
          ('Academic Block', 'AHU', '5', 1, 11), ('Lecture Block', 'Building Total Mains', '0', 2, 1), ('Lecture Block', 'Floor Total', '2', 2, 4),
          ('Lecture Block', 'AHU', '3', 2, 7)]


def combed(d, out, fmt, item):
    from nilmtk.dataset_converters import convert_combed
    which, sub, times = item
    exp = Expect('Asia/Kolkata')
    base = 1401595200
    for n in which:
        b, load, fl, bn, mn = COMBED[n]
        vals = {}
        for a, attr in enumerate(('Power', 'Energy', 'Current')):
            if times[a] is None:
                continue
            rows = [(base + 30 * k, 100. * n + 10 * a + k) for k in times[a]]
            write(*([d] + (['iiitd'] if sub else []) + [b, load, fl, attr + '.csv',
                                                        ''.join('%d,%g\n' % (t * 1000, v) for t, v in rows)]))
            for t, v in rows:
                vals.setdefault(t, [float('nan')] * 3)[a] = v
        have = [a for a in range(3) if times[a] is not None]
        exp.put(bn, mn, [(('power', 'active'), ('energy', 'active'), ('current', ''))[a] for a in have],
                [(utc(t), tuple(v[a] for a in have)) for t, v in vals.items()])
    convert_combed(d, out, fmt)
    return exp, os.path.join(META, 'combed', 'metadata')


def dred(d, out, fmt, item):
    from nilmtk.dataset_converters import convert_dred
    exp = Expect('Europe/Amsterdam')
    rows = [(1436140800 + k, [float(100 * i + j) for j in range(13)]) for i, k in enumerate(item)]
    path = os.path.join(d, 'All_data.csv')
    write(d, 'All_data.csv', 'a,b\nc\nd\n' + ''.join(','.join([utc(t).strftime('%Y-%m-%d %H:%M:%S')] + ['%g' % x for x in v]) + '\n'
                                                     for t, v in rows))
    for j in range(13):
        exp.put(1, j + 1, PP, [(utc(t), (v[j],)) for t, v in rows])
    convert_dred(path, out, fmt)
    return exp, os.path.join(META, 'dred', 'metadata')


HIPE = ['MainTerminal', 'ChipPress', 'ChipSaw', 'HighTemperatureOven', 'PickAndPlaceUnit', 'ScreenPrinter', 'SolderingOven', 'VacuumOven',
        'VacuumPump1', 'VacuumPump2', 'WashingMachine']


def hipe(d, out, fmt, item):
    from nilmtk.dataset_converters.hipe.convert_hipe import convert_hipe
    exp = Expect('Europe/Berlin')
    for c, name in enumerate(HIPE):
        rows = [(1506895200 + 5 * k, (-1) ** i * (0.5 * c + i + .125)) for i, k in enumerate(item)]
        write(d, name + '_PhaseCount_3.csv', 'SensorDateTime,I_A,P_kW\n' + ''.join('%s,7,%r\n' % (
            utc(t).tz_convert('Europe/Berlin').isoformat(), v) for t, v in rows))
        exp.put(1, c + 1, PP if c == 0 else PA, [(utc(t), (abs(v) * 1000,)) for t, v in rows])
    convert_hipe(d, out, fmt)
    return exp, os.path.join(META, 'hipe', 'metadata')


def ideal(d, out, fmt, item):
    from nilmtk.dataset_converters import convert_ideal
    pat, homes = item
    exp = Expect('Europe/London')
    both = [h for h, parts in homes.items() if all(any(c.startswith('electric') for _, c in p) for p in parts)]
    n = 0
    for h, parts in homes.items():
        for folder, names in zip(('household_sensordata', 'rooms_appliance_sensordata'), parts):
            os.makedirs(os.path.join(d, folder), exist_ok=True)
            for sensor, cat in names:
                rows = [(1478044800 + 100 * n + k, (float(10 * i + n),)) for i, k in enumerate(pat)]
                n += 1
                path = os.path.join(d, folder, 'home%d_hall%d_sensor%s_%s_x.csv.gz' % (h, 600 + h, sensor, cat))
                with gzip.open(path, 'wt') as f:
                    f.write(''.join('%s,%g\n' % (utc(t).strftime('%Y-%m-%d %H:%M:%S'), v[0]) for t, v in rows))
                if h in both and cat.startswith('electric'):
                    exp.put(h, int(sensor.split('c')[0]), PA if cat == 'electric-appliance' else PP, stamped(rows))
    convert_ideal(d, out, fmt)
    return exp, os.path.join(META, 'ideal', 'metadata')


def greend(d, out, fmt, item):
    from nilmtk.dataset_converters import convert_greend
    blocks, mp = item
    exp = Expect('CET')
    macs = ['000A', '000B', '000C']
    for h in (0, 1):
        seen, data = [], {}
        for day, bl in enumerate(blocks):
            text = ''
            for bi, (cols, ts) in enumerate(bl):
                text += ','.join(['timestamp'] + [macs[c] for c in cols]) + '\n'
                for i, t in enumerate(ts):
                    at = 1386889200 + 86400 * day + 100 * bi + t + .25
                    vals = [float(1000 * h + 100 * day + 10 * bi + i * 3 + c) for c in cols]
                    text += '%r,' % at + ','.join('NULL' if (i == 1 and k == 0) else '%g' % v for k, v in enumerate(vals)) + '\n'
                    r = data.setdefault(utc(at), {})
                    for k, (c, v) in enumerate(zip(cols, vals)):
                        r[c] = float('nan') if (i == 1 and k == 0) else v
                for c in cols:
                    if c not in seen:
                        seen.append(c)
            write(d, 'building%d' % h, 'dataset_2013-12-%02d.csv' % (13 + day), text)
        for m, c in enumerate(seen):
            exp.put(h + 1, m + 1, PA, [(t, (r.get(c, float('nan')),)) for t, r in data.items()])
    convert_greend(d, out, use_mp=mp)
    return exp, os.path.join(META, 'greend', 'metadata')


def eco(d, out, fmt, item):
    from nilmtk.dataset_converters import convert_eco
    days, nested, missing = item
    exp = Expect('CET')
    n = 86400
    sm = {p: [] for p in (1, 2, 3)}
    plugs = {1: [], 2: [], 3: []}
    for di, day in enumerate(days):
        base = pd.Timestamp(day, tz='UTC')
        lines = []
        for i in range(n):
            v = [0.] * 17
            if i < 4 or i > n - 3:
                v = [0.] + [float(c * 10 + i % 7 + di) for c in range(1, 17)]
            if (di, i) in missing:
                v[1:] = [-1.] * 16
            lines.append(v)
        text = {}
        os.makedirs(os.path.join(d, '01_sm_csv', '01'), exist_ok=True)
        with open(os.path.join(d, '01_sm_csv', '01', day + '.csv'), 'w') as f:
            f.write('\n'.join(text.setdefault(tuple(v), ','.join('%g' % x for x in v[1:])) for v in lines) + '\n')
        times = pd.date_range(base, periods=n, freq='s')
        for p in sm:
            for i in range(n):
                v = lines[i]
                if v[1 + p] != -1:
                    sm[p].append((times[i], (v[1 + p], v[5 + p], v[8 + p], v[13 + p], v[1 + p] * np.tan(v[13 + p] * np.pi / 180))))
        for pl in plugs:
            folder = os.path.join(d, '01_plugs_csv', *(['01'] if nested else []), '%02d' % pl)
            os.makedirs(folder, exist_ok=True)
            vals = [-1. if (di, i) in missing else (float(pl * 10 + i) if i < 5 else 0.) for i in range(n)]
            with open(os.path.join(folder, day + '.csv'), 'w') as f:
                f.write('\n'.join('%g' % v for v in vals) + '\n')
            plugs[pl] += [(t, (v,)) for t, v in zip(times, vals) if v != -1]
    for p in sm:
        exp.put(1, p, [('power', 'active'), ('current', ''), ('voltage', ''), ('phase_angle', ''), ('power', 'reactive')], sm[p])
    for pl in plugs:
        exp.put(1, pl + 3, PA, plugs[pl])
    write(d, 'readme.txt', 'x')
    convert_eco(d, out, 'CET')
    return exp, os.path.join(META, 'eco', 'metadata')


DEDDIAG_CHANNELS = [24, 26, 27, 28, 35, 51, 52, 53, 59]


def deddiag(d, out, fmt, item):
    asked = []

    class MeasurementsExpanded:
        def __init__(self, item_id, start, end):
            self.a = (item_id, start, end)

        def request(self, connection):
            asked.append(self.a)
            return connection(self.a[0])
    mod = types.ModuleType('deddiag_loader')
    mod.Connection, mod.Items, mod.MeasurementsExpanded = object, object, MeasurementsExpanded
    old = sys.modules.get('deddiag_loader')
    sys.modules['deddiag_loader'] = mod
    sys.modules.pop('nilmtk.dataset_converters.deddiag.convert_deddiag', None)
    try:
        from nilmtk.dataset_converters.deddiag.convert_deddiag import convert_deddiag
        exp = Expect('Europe/Berlin')
        raws = {c: [(1508623200 + k, float(10 * i + c)) for i, k in enumerate(item)] for c in DEDDIAG_CHANNELS}
        for c, rows in raws.items():
            exp.put(8, c, PA, [(utc(t), (v,)) for t, v in rows])
        convert_deddiag(lambda c: pd.DataFrame({'item_id': c, 'time': [t for t, _ in raws[c]], 'value': [v for _, v in raws[c]]}), out, fmt)
        require([a[0] for a in asked] == DEDDIAG_CHANNELS, 'channels asked for: {}', asked)
        require(len({a[1:] for a in asked}) == 1 and [str(x) for x in asked[0][1:]] == ['2017-10-21 00:00:00', '2018-01-18 23:59:59'],
                'period asked for: {}', asked[0])
    finally:
        sys.modules.pop('deddiag_loader')
        if old is not None:
            sys.modules['deddiag_loader'] = old
    return exp, os.path.join(META, 'deddiag', 'metadata')


CONVERTERS = dict(redd=redd, ukdale=ukdale, refit=refit, ampds=ampds, iawe=iawe, combed=combed, dred=dred, hipe=hipe, ideal=ideal,
                  greend=greend, eco=eco, deddiag=deddiag)


def convert(chk, item):
    name, fmt, spec = item

    def run():
        d = S.fresh_path(chk, '_raw')
        out = S.fresh_path(chk, '.h5' if fmt == 'HDF' else '_csv')
        os.makedirs(d)
        nilmtk.global_meter_group.meters[:] = []
        ElecMeter.meter_devices.clear()
        cwd = os.getcwd()
        try:
            chk.step()
            exp, meta = CONVERTERS[name](d, out, fmt, spec)
            require(os.getcwd() == cwd, 'the working directory was changed')
            n = verify(out, fmt, exp, meta)
        finally:
            os.chdir(cwd)
            S.drop(d)
            S.drop(out)
        chk.state(item)
        return (name, fmt, n)
    chk.case(name, item, run)


def run(chk):
    few = [p for n in (1, 2) for p in itertools.product(range(3), repeat=n)]
    pats = few + list(itertools.product(range(3), repeat=3))
    items = []

    def add(name, specs, csv=0):
        """Every input for one format, and the last few of them for text files as well."""
        specs = list(specs)
        items.extend((name, 'HDF', s) for s in specs)
        items.extend((name, 'CSV', s) for s in (specs if THOROUGH else specs[-csv:] if csv else []))

    # channels of one house, readings in every order; then several houses
    add('redd', [((1, c, p), (1, 3 - (c == 3), (0, 1))) for c in (1, 2, 3, 12) for p in pats]
        + [((h, a, (0, 1)), (6, b, p)) for h in (1, 2) for a in (1, 20) for b in (2, 10) for p in few], csv=16)
    one = (((1, {1: ('CT', (0, 1)), 2: ('EcoManager', (0, 2))}), (2, {1: ('CT', (0, 1)), 3: ('EcoManager', (0,))})))
    add('ukdale', [(((1, {1: ('CT', (0, 1)), 2: (dev, p)}),), {}, (), dr) for p in pats if list(p) == sorted(p) for dr in (True, False)
                   for dev in ('CT', 'EcoManager')]
        + [(one, sec, dis, dr) for sec in ({}, {1: (0, 1)}, {2: (0,)}, {1: (0, 2), 2: (1,)}, {1: (0, 0, 1)}) for dis in ((), (2,), (1, 2)) for dr in (True, False)], csv=6)
    add('refit', [(clean, order, ps) for clean in (False, True) for order in (False, True)
                  for ps in (((0, 1), (1, 0)), ((2, 0, 1), (0,), (1, 1)))], csv=2)
    add('ampds', [(('B.csv', 'A.csv'), ('V', 'P'), tuple((k, f) for k in range(n) if mask >> k & 1), n) for n in (1, 2, 3)
                  for mask in range(2 ** n - 1) for f in (0, 1, 2)]
        + [(fs, cols, (), 2) for fs in ((), ('A.csv',), ('Z.csv', 'A.csv')) for cols in itertools.combinations(AMP, 2)] + [(('A.csv',), tuple(AMP), (), 2)], csv=4)
    one = list(itertools.product((0, 30, 61), (0, 1)))
    add('iawe', [(('W', 'V'), r) for n in (1, 2) for r in itertools.product(one, repeat=n) if not all(m for _, m in r)
                 and any(not m and not any(t == u for u, _ in r[:i]) for i, (t, m) in enumerate(r))]
        + [(cols, ((0, 0), (61, 0), (61, 0), (90, 0), (30, 1))) for cols in (tuple(IAWE_COLS), ('V', 'W'), ('A', 'VA', 'f'))], csv=1)
    subsets = [(0,), (1,), (0, 1), (1, 2), (0, 1, 2), (0, 2)]
    add('combed', [((n, m), sub, (a, b, c)) for n, m in ((0, 5), (2, 4)) for sub in (False, True) for a in subsets for b in subsets for c in subsets
                   if THOROUGH or a == b or b == c] + [(w, False, ((0, 1),) * 3) for r in (1, 2, 7) for w in itertools.combinations(range(7), r)]
        + [((0, 6), False, tuple((0, 1) if mask >> a & 1 else None for a in range(3))) for mask in range(1, 8)], csv=9)
    add('dred', pats, csv=4)
    add('hipe', pats, csv=2)
    add('deddiag', pats, csv=2)
    mains, app, gas = ('900c901', 'electric-mains'), ('2000', 'electric-appliance'), ('77', 'gas-pulse')
    halves = [((mains,), (app,)), ((), (app,)), ((mains,), ()), ((mains, gas), (app, ('2001', 'electric-appliance'))), ((gas,), (app,))]
    add('ideal', [(p, {105: halves[0]}) for p in pats] + [((1, 0), {105: a, 106: b}) for a in halves for b in halves], csv=4)
    blocks = [((0, 1), (0, 1)), ((1, 0), (1, 0)), ((0,), (0, 1, 2)), ((1, 2), (0,))]
    days = [(b,) for b in blocks] + list(itertools.product(blocks, repeat=2))
    add('greend', [((a, ), mp) for a in days for mp in ((False, True) if a in days[3:6] else (False,))] + [((a, b), False) for a in days[:8] for b in days[:8]]
        + [((days[1], days[5], days[0]), True)])
    add('eco', [(('2012-06-01',), nested, m) for nested in (False, True) for m in ((), ((0, 0),), ((0, 2), (0, 86399)))]
        + [(days, False, ((0, 86399), (1, 0))) for days in (('2012-10-28', '2012-10-27'), ('2012-10-27', '2012-10-28'))])
    for it in range(len(items)):
        if items[it][0] in ('greend', 'eco'):
            items[it] = (items[it][0], 'HDF', items[it][2])
    chk.parallel('convert', convert, items)
