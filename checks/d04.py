"""D04: converting a data set between formats preserves every table and all metadata; keys round-trip."""
import copy
import itertools
import os
import pandas as pd
from nilmtk import HDFDataStore, CSVDataStore, TimeFrame
from nilmtk.datastore import Key
from nilmtk.datastore.datastore import join_key, convert_datastore
from lib.core import THOROUGH, Violation, require
from lib import stores as S

COLSETS = [(('power', 'active'),), (('power', 'active'), ('voltage', '')),
           (('power', 'apparent'), ('energy', 'reactive'), ('current', ''))]
ROWS = [(0, 1, 2), (0, 3), (1, 2, 3, 4)]
LAYOUTS = [((1, (1,)),), ((1, (1, 2)),), ((1, (1,)), (12, (1,))), ((2, (1, 10)), (3, (2,)))]
if THOROUGH:
    LAYOUTS += [((2, (1, 2, 3)),), ((1, (1,)), (2, (1, 2)), (10, (7,)), (110, (101,)))]
CHAINS = ['HC', 'CH', 'HH', 'CC', 'HCH', 'CHC', 'HCCH']
WINDOWS = [None, (1, 3), (3, None)]
BOUNDS = ('%d building/meter layouts x %d column sets x %d row patterns x %d windows x conversion chains %s, naive and UTC; '
          'all keys over buildings and meters 1..12, 99, 100 and 1234 and all joins of up to 3 parts'
          % (len(LAYOUTS), len(COLSETS), len(ROWS), len(WINDOWS), CHAINS))
ASSUMPTIONS = ['nilm_metadata is replaced by a stand-in', 'indices are naive or UTC']


def metadata(layout, cols):
    root = {'name': 'TEST', 'subject': 'x', 'meter_devices': {'dev': {
        'model': 'dev', 'sample_period': 1, 'max_sample_period': 2,
        'measurements': [{'physical_quantity': p, 'type': a} for p, a in cols]}}}
    blds = {}
    for b, meters in layout:
        blds[b] = {'instance': b, 'original_name': 'house %d' % b,
                   'elec_meters': {m: {'device_model': 'dev', 'site_meter': m == meters[0],
                                       'data_location': '/building%d/elec/meter%d' % (b, m)} for m in meters},
                   'appliances': [{'type': 'fridge', 'instance': 1, 'meters': [meters[-1]]}]}
    return root, blds


def open_store(kind, path, mode='w'):
    return HDFDataStore(path, mode) if kind == 'H' else CSVDataStore(path)


def convert(chk, item):
    layout, cols, tz = item
    for rows, chain, win in itertools.product(ROWS, CHAINS, WINDOWS):
        if win == (3, None) and rows == (0, 1, 2):
            win = (2, None)

        def run():
            ts = S.times(range(8), tz)
            paths = []
            try:
                root, blds = metadata(layout, cols)
                p = S.fresh_path(chk, '.h5' if chain[0] == 'H' else '_csv')
                paths.append(p)
                src = open_store(chain[0], p)
                data = {}
                for b, meters in layout:
                    for i, m in enumerate(meters):
                        k = '/building%d/elec/meter%d' % (b, m)
                        data[k] = S.frame([r + i for r in rows], cols, tz=tz,
                                          values=[[100 * b + 10 * m + r + 0.5 * j for j in range(len(cols))] for r in rows])
                        src.put(k, data[k])
                src.save_metadata('/', root)
                for b, v in blds.items():
                    src.save_metadata('/building%d' % b, v)
                if win is not None:
                    src.window = TimeFrame(ts[win[0]], None if win[1] is None else ts[win[1]])
                for kind in chain[1:]:
                    p = S.fresh_path(chk, '.h5' if kind == 'H' else '_csv')
                    paths.append(p)
                    dst = open_store(kind, p)
                    chk.step()
                    convert_datastore(src, dst)
                    src.close()
                    src = dst
                lo = None if win is None else ts[win[0]]
                hi = None if win is None or win[1] is None else ts[win[1]]
                require(src.load_metadata('/') == root, 'dataset metadata {}', src.load_metadata('/'))
                inside = lambda df: df[(df.index >= (lo or df.index[0])) & ((df.index < hi) if hi is not None else True)]
                full = {k.split('/')[1] for k, df in data.items() if len(inside(df))}
                names = src.elements_below_key()
                require(full <= set(names) <= {'building%d' % b for b in blds} and len(set(names)) == len(names),
                        'buildings {} instead of {}', names, full)
                for b, v in blds.items():
                    if 'building%d' % b not in full and len(chain) > 2:
                        continue        # a building of which the intermediate store holds no data is not listed there
                    got = src.load_metadata('/building%d' % b)
                    require(got == v, 'building metadata {} not {}', got, v)
                for k, df in data.items():
                    want = df
                    if lo is not None:
                        want = want[want.index >= lo]
                    if hi is not None:
                        want = want[want.index < hi]
                    if want.empty:
                        require([c for c in (src.load(k) if has(src, k) else []) if not c.empty] == [], 'rows in {}', k)
                        continue
                    got = src[k]
                    require(S.rows_of(got) == S.rows_of(want), '{} holds {} not {}', k, S.rows_of(got), S.rows_of(want))
                    require([tuple(c) for c in got.columns] == list(cols), 'columns {}', list(got.columns))
                    require((got.index.tz is None) == (tz is None), 'time zone lost')
                    require([x for c in src.load(k) for x in S.rows_of(c)] == S.rows_of(want), 'load')
                src.close()
                chk.state((layout, cols, tz, rows, chain, win))
                return (layout, chain, win)
            finally:
                for p in paths:
                    S.drop(p)
        chk.case('convert', (layout, cols, tz, rows, chain, win), run)


def has(src, k):
    try:
        src[k]
        return True
    except Exception:
        return False


def keys(chk, item):
    b, m = item

    def run():
        chk.step(3)
        text = '/building%d' % b + ('/elec/meter%d' % m if m else '')
        for sp in (text, text.strip('/'), text + '/'):
            k = Key(sp)
            require((k.building, k.meter) == (b, m), 'parsed {} as {} {}', sp, k.building, k.meter)
            require(repr(k) == text and str(k) == text, 'key prints as {}', k)
            require(k.utility == ('elec' if m else None), 'utility')
        require(str(Key(building=b, meter=m)) == text, 'built key')
        require(str(Key(str(Key(building=b, meter=m)))) == text, 'round trip')
        if m:
            require(join_key('building%d' % b, 'elec', 'meter%d' % m) == text, 'join')
            require(Key('/building%d/elec' % b).meter is None, 'utility key')
        return text
    chk.case('keys', item, run)


def joins(chk, item):
    def run():
        chk.step()
        got = join_key(*item)
        parts = [p for x in item for p in [str(x).strip('/')] if p]
        want = '/' + '/'.join(parts)
        require(got == want, 'join_key{} = {} not {}', item, got, want)
        require(join_key(got) == got, 'not idempotent')
        return got
    chk.case('joins', item, run)


def bad(chk, text):
    def run():
        chk.step()
        try:
            Key(text)
        except (AssertionError, ValueError):
            return 'refused'
        raise Violation('malformed key %r was accepted' % text)
    chk.case('malformed', text, run)


def run(chk):
    chk.parallel('convert', convert, [(l, c, tz) for l in LAYOUTS for c in COLSETS for tz in (None, 'UTC')])
    chk.serial('keys', keys, [(b, m) for b in list(range(1, 13)) + [99, 100, 1234] for m in [None] + list(range(1, 13)) + [99, 100, 1234]])
    parts = ['building1', '/elec', 'meter1/', '', '/', 'a/b', 7]
    chk.serial('joins', joins, [t for k in range(0, 4) for t in itertools.product(parts, repeat=k)])
    chk.serial('malformed', bad, ['meter1', 'building', 'buildingx', 'building0', '/building1/elec/room1', '/building1/elec/meter0',
                                  '/building1/elec/meterx', ''])
