"""D03: a CSV store delivers exactly the requested rows and behaves like a dictionary of tables."""
import itertools
import os
import pandas as pd
from nilmtk import CSVDataStore, HDFDataStore, TimeFrame
from lib.core import THOROUGH, Violation, require
from lib import stores as S
from lib import tf as M
from checks import d01, d02

KEY = '/building1/elec/meter1'
COLS = (('power', 'active'), ('power', 'apparent'), ('voltage', ''))
G = 7
TABLES = [tuple(range(7)), (0, 1, 3, 4, 6), (2, 3), (4,)]
DEPTH = 4 if THOROUGH else 3
BOUNDS = ('load: %d tables x all sections over 7 instants x windows x chunk sizes 1..4,100 x look-ahead 0..2 x all column '
          'selections, naive and UTC; histories of put/append/remove/metadata/window to depth %d over 3 keys'
          % (len(TABLES), DEPTH))
ASSUMPTIONS = ['tables are stored in time order without duplicate timestamps', 'indices are naive or UTC '
               '(a CSV file has no place for a named zone)', 'nilm_metadata is replaced by a stand-in']


def check_load(chk, store, table, ts, window, sections, cs, look, df, colsel=None):
    args = dict(chunksize=cs, n_look_ahead_rows=look)
    if sections is not None:
        args['sections'] = [M.build(s, ts) for s in sections]
    if colsel is not None:
        args['columns'] = colsel
    chunks = []
    for c in store.load(KEY, **args):
        chk.step()
        chunks.append((c, c.timeframe, getattr(c, 'look_ahead', None)))
    pos = 0
    for sec in (sections if sections is not None else [(None, None, False, True)]):
        want = [o for o in table if d01.within(sec, o) and d01.within(window, o)]
        pr = M.probes(ts)
        if len(M.members(sec, ts, pr) & M.members(window, ts, pr)) == 1:
            want = []
        if not want:
            require(pos < len(chunks) and chunks[pos][0].empty, 'section {} without data: {}', sec,
                    'nothing' if pos >= len(chunks) else S.rows_of(chunks[pos][0]))
            pos += 1
            continue
        got = []
        while len(got) < len(want):
            require(pos < len(chunks), 'rows {} of section {} were not delivered', want[len(got):], sec)
            c, tf, la = chunks[pos]
            require(0 < len(c) <= cs, 'chunk of {} rows for chunksize {}', len(c), cs)
            ix = df.index.get_indexer(c.index)
            require((ix >= 0).all(), 'unknown rows {}', list(c.index))
            offs = [table[i] for i in ix]
            require(offs == want[len(got):len(got) + len(offs)], 'section {}: rows {} but {} are next', sec, offs,
                    want[len(got):])
            got += offs
            exp = df.loc[c.index]
            names = list(df.columns) if colsel is None else [(p or '', a or '') for p, a in colsel]
            require(list(c.columns) == names, 'columns {} not {}', list(c.columns), names)
            require((c.to_numpy() == exp[names].to_numpy()).all(), 'values {}', S.rows_of(c))
            require(tf.start == c.index[0] and (tf.end == c.index[-1] or (len(c) == 1 and tf.end is None)),
                    'time frame {} for rows {}', tf, offs)
            if look:
                i = table.index(got[-1])
                want_la = list(table[i + 1:i + 1 + look])
                got_la = [] if la is None or la.empty else [table[j] for j in df.index.get_indexer(la.index)]
                require(got_la == want_la, 'look-ahead {} instead of {}', got_la, want_la)
                if want_la:
                    require(list(la.columns) == names and (la.to_numpy() == df.loc[la.index][names].to_numpy()).all(),
                            'look-ahead values {}', S.rows_of(la))
            pos += 1
        chk.state((table, sec, window, cs))
    require(pos == len(chunks), 'surplus chunks {}', [S.rows_of(c[0]) for c in chunks[pos:]])
    return [(len(c), str(t)) for c, t, _ in chunks]


def loads(chk, item):
    table, tz, wins = item
    ts = list(S.times(range(G), tz))
    path = S.fresh_path(chk, '_csv')
    st = CSVDataStore(path)
    df = S.frame(table, COLS, tz=tz)
    st.put(KEY, df)
    secs = [None] + [[s] for s in M.specs(G)]
    for window, sec, cs, look in itertools.product(wins, secs, (1, 2, 4, 100), (0, 2)):
        if look and cs == 4 and not THOROUGH:
            continue
        if chk.stop:
            break

        def run():
            st.window = M.build(window, ts)
            return check_load(chk, st, table, ts, window, sec, cs, look, df)
        chk.case('section x window', (table, tz, window, sec, cs, look), run)
    for k in range(1, 4):
        for sel in itertools.permutations(COLS, k):
            for none in (False, True):
                def run():
                    st.window = TimeFrame()
                    s = [(p, (a or None) if none else a) for p, a in sel]
                    return check_load(chk, st, table, ts, (None, None, False, True), [(1, 5, False, True), (2, 6, True, True)],
                                      2, 1, df, colsel=s)
                chk.case('columns', (table, tz, sel, none), run)
    S.drop(path)


K1, K2, K3 = d02.K1, d02.K2, d02.K3
OPS = [('put', K1, 'a'), ('put', K2, 'b'), ('app', K1, 'next'), ('app', K2, 'next'), ('app', K3, 'next'), ('rm', K1), ('rm', K3),
       ('meta', '/', 1), ('meta', '/building1', 2), ('meta', '/building1', 3), ('win', (1, 3)), ('win', None), ('reopen', 'a')]


def expect_meta(key, v):
    import copy
    v = copy.deepcopy(v)
    if key != '/':
        for i, mtr in v['elec_meters'].items():
            mtr['data_location'] = '/building1/elec/meter%d' % i
    return v


def compare(store, m):
    ts = S.times(range(40), 'UTC')
    for k in (K1, K2, K3):
        if k not in m.tables:
            for f in (lambda: store[k], lambda: list(store.load(k))):
                try:
                    f()
                except KeyError:
                    continue
                raise Violation('reading absent key %s did not raise KeyError' % k)
            continue
        rows = m.tables[k]
        want = d02.to_df(rows)
        require(os.path.isfile(os.path.join(store.filename, k.strip('/') + '.csv')), 'no file for {}', k)
        got = store[k]
        require(S.rows_of(got) == S.rows_of(want) and list(got.columns) == list(want.columns),
                'table {} reads {} instead of {}', k, S.rows_of(got), S.rows_of(want))
        lo, hi = m.win or (None, None)
        sel = [r for r in rows if (lo is None or r[0] >= lo) and (hi is None or r[0] < hi)]
        loaded = [x for c in store.load(k, chunksize=2) for x in S.rows_of(c)]
        require(loaded == (S.rows_of(d02.to_df(sel)) if sel else []), 'load({}) in window {} gave {} not {}', k, m.win, loaded, sel)
        ref = TimeFrame(ts[rows[0][0]], ts[rows[-1][0]])
        if lo is not None:
            ref = ref.intersection(TimeFrame(ts[lo], ts[hi]))
        tf = store.get_timeframe(k)
        require(tf == ref, 'time frame of {}: {} not {}', k, tf, ref)
        parent = k.rsplit('/', 1)[0]
        for spelled in (parent, parent.strip('/')):
            names = store.elements_below_key(spelled)
            require(sorted(names) == sorted(x.rsplit('/', 1)[1] for x in m.tables if x.rsplit('/', 1)[0] == parent),
                    'children of {}: {}', spelled, names)
        require(k.split('/')[1] in store.elements_below_key() and 'metadata' not in store.elements_below_key(), 'root listing')
        require(store.elements_below_key('/' + k.split('/')[1]) == ['elec'], 'building listing')
    for k, v in m.meta.items():
        got = store.load_metadata(k)
        require(got == expect_meta(k, v), 'metadata of {} is {}', k, got)


def history(chk, item):
    prefix, depth = item
    front, level, seen = [tuple(prefix)], len(prefix), set()
    m0 = d02.Model()
    for op in prefix:
        if not m0.legal(op):
            return
        m0.apply(op)
    while front and level <= depth:
        nxt = []
        for hist in front:
            m = d02.Model()
            for op in hist:
                m.apply(op)
            key = repr(m.canon())

            def run():
                path = S.fresh_path(chk, '_csv')
                st = CSVDataStore(path)
                mm = d02.Model()
                try:
                    for op in hist:
                        chk.step()
                        if op[0] == 'reopen':
                            w = st.window
                            st.close()
                            st = CSVDataStore(path)
                            st.window = w
                        else:
                            arg = META_COPY(op)
                            d02.do(st, mm, op)
                            require(arg == META_COPY(op), 'the metadata passed in was changed')
                        mm.apply(op)
                    compare(st, mm)
                    compare(CSVDataStore(path), nowin(mm))
                finally:
                    S.drop(path)
                return key[:300]
            ok = chk.case('history', hist, run)
            chk.state(key)
            if not ok or key in seen:
                continue
            seen.add(key)
            nxt += [hist + (op,) for op in OPS if m.legal(op)]
        front = nxt
        level += 1


SUB = ['/building1/elec/meter1', '/building1/elec/meter2', '/building2/elec/meter1', '/building12/elec/meter1']


def subtree(chk, item):
    """Removing a building or all its electricity meters removes the tables below and no other."""
    kind, have, key, slash = item

    def run():
        path = S.fresh_path(chk, '_csv' if kind == 'csv' else '.h5')
        st = CSVDataStore(path) if kind == 'csv' else HDFDataStore(path, 'w')
        try:
            for i, k in enumerate(have):
                st.put(k, S.frame((0, 1, 2 + i), COLS, tz='UTC'))
            chk.step(2)
            below = [k for k in have if k.startswith(key + '/')]
            st.remove(key.strip('/') if slash else key)
            for i, k in enumerate(have):
                if k in below:
                    for f in (lambda: st[k], lambda: list(st.load(k))):
                        try:
                            f()
                        except KeyError:
                            continue
                        raise Violation('%s is still there' % k)
                else:
                    require(S.rows_of(st[k]) == S.rows_of(S.frame((0, 1, 2 + i), COLS, tz='UTC')), '{} is {}', k, st[k])
            top = {k.split('/')[1] for k in have if k not in below or key.count('/') > 1}
            require(set(st.elements_below_key()) - {'metadata'} == top, 'children of the root: {}', st.elements_below_key())
            chk.state(item)
        finally:
            st.close()
            S.drop(path)
        return len(below)
    chk.case('remove below', item, run)


def subtrees(kind):
    return [(kind, have, key, slash) for n in (1, 2, 3, 4) for have in itertools.combinations(SUB, n) for key in ('/building1', '/building1/elec', '/building2', '/building12')
            if any(k.startswith(key + '/') for k in have) for slash in (False, True)]


def META_COPY(op):
    return repr(d02.META[op[2]]) if op[0] == 'meta' else None


def nowin(m):
    import copy
    m = copy.copy(m)
    m.win = None
    return m


def run(chk):
    wins = [w for w in M.specs(G, enabled=(True,)) if w == 'EMPTY' or
            ((w[0] is None or w[0] % 2 == 0) and (w[1] is None or w[1] % 2 == 1 or w[1] == 6) and not w[2])]
    wins += [(2, 4, False, False), (1, 4, True, True)]
    if not THOROUGH:
        wins = wins[1::4]
    chk.parallel('load', loads, [(t, tz, wins[i::5]) for t in TABLES for tz in (None, 'UTC') for i in range(5)])
    chk.parallel('history', history, [((a, b), DEPTH) for a in OPS for b in OPS] + [((a,), 1) for a in OPS])
    chk.parallel('remove below', subtree, subtrees('csv'))
