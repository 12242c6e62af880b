"""D02: an HDF5 store behaves like a dictionary of tables and metadata, across reopen and process death."""
import os
import shutil
import pandas as pd
from nilmtk import HDFDataStore, TmpDataStore, TimeFrame
from lib.core import THOROUGH, Violation, require
from lib import stores as S

K1, K2 = '/building1/elec/meter1', '/building1/elec/meter2'
K3 = '/building2/elec/meter1'
COLS = (('power', 'active'), ('voltage', ''))
DEPTH = 4 if THOROUGH else 3
BOUNDS = ('breadth-first over all histories of put/append/remove/save metadata/set window/close+reopen over 3 keys and 2 '
          'blocks, depth %d on a file store and %d on a temporary store; after every step the whole store is compared, '
          'and a copy of the file taken at that instant (process death) is opened and compared' % (DEPTH, DEPTH - 1))
ASSUMPTIONS = ['appended blocks follow the stored data in time, as the API asks of its callers',
               'process death is a copy of the file as it lies in the file system after an acknowledged write; '
               'loss of the page cache (power failure) is out of reach of the API, which does not sync']

OPS = [('put', K1, 'a'), ('put', K2, 'b'), ('app', K1, 'next'), ('app', K2, 'next'), ('app', K3, 'next'),
       ('put', K3, 'b'), ('rm', K1), ('rm', K3),
       ('meta', '/', 1), ('meta', '/building1', 2), ('meta', '/building1', 3), ('meta', K1, 4),
       ('win', (1, 3)), ('win', None), ('reopen', 'a'), ('reopen', 'r')]

META = {1: {'name': 'D', 'meter_devices': {'m': {'max_sample_period': 6}}}, 2: {'instance': 1, 'elec_meters': {1: {}, 2: {}}},
        3: {'instance': 1, 'elec_meters': {1: {'x': [1, 2]}}}, 4: {'note': 'x'}}


def block(kind, nrows, key):
    base = {K1: 0, K2: 100, K3: 200}[key]
    offs = {'a': [0, 1, 2], 'b': [0, 2], 'next': None}[kind]
    if offs is None:
        offs = [nrows, nrows + 1] if nrows else [0, 1]
        offs = [4 * nrows + x for x in (0, 1)]
    return [(o, base + o, base + 50 + o) for o in offs]


class Model:
    def __init__(self):
        self.tables = {}
        self.meta = {}
        self.win = None
        self.mode = 'a'

    def groups(self):
        g = set()
        for k in list(self.tables) + [k for k in self.meta if k != '/']:
            parts = k.strip('/').split('/')
            for i in range(1, len(parts) + 1):
                g.add('/' + '/'.join(parts[:i]))
        return g

    def legal(self, op):
        if op[0] in ('put', 'app', 'rm', 'meta') and self.mode == 'r':
            return False
        if op[0] == 'rm':
            return op[1] in self.tables
        if op[0] == 'meta' and op[1] not in ('/', '/building1'):
            return op[1] in self.tables
        return True

    def apply(self, op):
        if op[0] == 'put':
            self.tables[op[1]] = block(op[2], 0, op[1])
            self.meta.pop(op[1], None)
        elif op[0] == 'app':
            self.tables[op[1]] = self.tables.get(op[1], []) + block('next', len(self.tables.get(op[1], [])), op[1])
        elif op[0] == 'rm':
            del self.tables[op[1]]
            self.meta.pop(op[1], None)
        elif op[0] == 'meta':
            self.meta[op[1]] = META[op[2]]
        elif op[0] == 'win':
            self.win = op[1]
        elif op[0] == 'reopen':
            self.mode = op[1]

    def canon(self):
        return (sorted(self.tables.items()), sorted((k, repr(v)) for k, v in self.meta.items()), self.win, self.mode)


def to_df(rows):
    return S.frame([r[0] for r in rows], COLS, tz='UTC', values=[r[1:] for r in rows])


def do(store, m, op):
    if op[0] == 'put':
        store.put(op[1], to_df(block(op[2], 0, op[1])))
    elif op[0] == 'app':
        store.append(op[1], to_df(block('next', len(m.tables.get(op[1], [])), op[1])))
    elif op[0] == 'rm':
        store.remove(op[1])
    elif op[0] == 'meta':
        store.save_metadata(op[1], META[op[2]])
    elif op[0] == 'win':
        ts = S.times(range(8), 'UTC')
        store.window = TimeFrame() if op[1] is None else TimeFrame(ts[op[1][0]], ts[op[1][1]])
    elif op[0] == 'reopen':
        store.close()
        store.open(op[1])


def compare(store, m, windowed=True):
    ts = S.times(range(40), 'UTC')
    for k in (K1, K2, K3):
        if k not in m.tables:
            try:
                store[k]
            except KeyError:
                pass
            else:
                raise Violation('reading absent key %s did not raise KeyError' % k)
            try:
                list(store.load(k))
            except KeyError:
                continue
            raise Violation('loading absent key %s did not raise KeyError' % k)
        rows = m.tables[k]
        want = to_df(rows)
        got = store[k]
        require(S.rows_of(got) == S.rows_of(want) and list(got.columns) == list(want.columns),
                'table {} holds {} instead of {}', k, S.rows_of(got), S.rows_of(want))
        lo, hi = m.win if windowed and m.win else (None, None)
        sel = [r for r in rows if (lo is None or r[0] >= lo) and (hi is None or r[0] < hi)]
        loaded = [x for c in store.load(k) for x in S.rows_of(c)]
        require(loaded == S.rows_of(to_df(sel)) if sel else loaded == [],
                'load({}) in window {} gave {} instead of {}', k, m.win, loaded, sel)
        tf = store.get_timeframe(k)
        ref = TimeFrame(ts[rows[0][0]], ts[rows[-1][0]])
        if lo is not None:
            ref = ref.intersection(TimeFrame(ts[lo], ts[hi]))
        require(tf == ref, 'time frame of {} is {} instead of {}', k, tf, ref)
    for k, v in m.meta.items():
        got = store.load_metadata(k)
        require(got == v, 'metadata of {} is {}', k, got)
        got['junk'] = 1
        require(store.load_metadata(k) == v, 'changing loaded metadata changed the store')
    # children listing: everything that was written is listed, nothing that never was
    g = m.groups()
    for k in (K1, K2, K3):
        parent, leaf = k.rsplit('/', 1)
        if k in m.tables:
            names = store.elements_below_key(parent)
            require(sorted(n for n in names if n.startswith('meter')) ==
                    sorted(x.rsplit('/', 1)[1] for x in m.tables if x.rsplit('/', 1)[0] == parent),
                    'children of {}: {}', parent, names)
            require(parent.split('/')[1] in store.elements_below_key(), 'building missing from root listing')
            require('elec' in store.elements_below_key('/' + parent.split('/')[1]), 'utility missing')
            require(k.split('/')[1] in store.elements_below_key('/'), 'root listing')


def explore(chk, item):
    kind, prefix, depth = item
    # breadth first from `prefix`
    seen = set()
    front = [tuple(prefix)]
    level = len(prefix)
    m0 = Model()
    for op in prefix:
        if not m0.legal(op) or (kind == 'tmp' and op[0] == 'reopen'):
            return
        m0.apply(op)
    first = True
    while front and level <= depth:
        nxt = []
        for hist in front:
            m = Model()
            for op in hist:
                m.apply(op)
            key = repr(m.canon())

            def run():
                return execute(chk, kind, hist)
            ok = chk.case('history', (kind, hist), run)
            chk.state((kind, key))
            if not ok:
                continue
            if (key, level) in seen:
                continue
            seen.add((key, level))
            for op in OPS:
                if m.legal(op) and not (kind == 'tmp' and op[0] == 'reopen'):
                    nxt.append(hist + (op,))
        front = nxt
        level += 1
        if chk.stop:
            return


def execute(chk, kind, hist):
    path = S.fresh_path(chk, '.h5')
    if kind == 'tmp':
        store = TmpDataStore()
        path = store.store.filename if hasattr(store, 'store') else None
    else:
        HDFDataStore(path, 'w').close()
        store = HDFDataStore(path, 'a')
    other = TmpDataStore() if kind == 'tmp' else None
    m = Model()
    try:
        for i, op in enumerate(hist):
            chk.step()
            do(store, m, op)
            m.apply(op)
            if i < len(hist) - 1:
                continue
            # process death right after the acknowledged write
            if op[0] in ('put', 'app', 'meta', 'rm') and path:
                snap = path + '.crash.h5'
                shutil.copyfile(path, snap)
                s2 = HDFDataStore(snap, 'r')
                try:
                    compare_nowin(s2, m)
                finally:
                    s2.close()
                    os.remove(snap)
            compare(store, m)
            compare(store, m)          # reading does not disturb the store
        if other is not None:
            require(other.elements_below_key() == [], 'another temporary store sees the data')
        store.close()
        if kind == 'tmp':
            require(path is None or not os.path.exists(path), 'temporary store left its file behind')
        else:
            s3 = HDFDataStore(path, 'r')
            try:
                compare_nowin(s3, m)
            finally:
                s3.close()
    finally:
        try:
            store.close()
        except Exception:
            pass
        if other is not None:
            other.close()
        if kind != 'tmp':
            S.drop(path)
    return str(m.canon())[:300]


def compare_nowin(store, m):
    keep, m.win = m.win, None
    try:
        compare(store, m)
    finally:
        m.win = keep


def modes(chk, item):
    def run():
        p = S.fresh_path(chk, '.h5')
        chk.step()
        for mode in ('r', 'a'):
            try:
                HDFDataStore(p, mode)
            except IOError:
                continue
            raise Violation('opening a missing file with mode %s did not fail' % mode)
        require(not os.path.exists(p), 'a failed open created the file')
        s = HDFDataStore(p, 'w')
        s.put(K1, to_df(block('a', 0, K1)))
        s.close()
        s = HDFDataStore(p)
        require(len(s[K1]) == 3, 'default mode')
        s.close()
        s = HDFDataStore(p, 'w')
        require(s.elements_below_key() == [], 'mode w does not truncate')
        s.close()
        return 'ok'
    chk.case('modes', item, run)


def run(chk):
    pre = [()] + [(a,) for a in OPS]
    chk.parallel('file store', explore, [('file', (a, b), DEPTH) for a in OPS for b in OPS] +
                 [('file', (a,), 1) for a in OPS] + [('file', (), 0)])
    chk.parallel('temporary store', explore, [('tmp', (a,), DEPTH - 1) for a in OPS if a[0] != 'reopen'])
    chk.serial('modes', modes, [0])
    from checks import d03
    chk.parallel('remove below', d03.subtree, d03.subtrees('hdf'))
