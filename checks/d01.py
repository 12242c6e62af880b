"""D01: loading from an HDF5 store delivers exactly the stored rows asked for, however chunked."""
import itertools
import pandas as pd
from nilmtk import HDFDataStore, TimeFrame
from nilmtk.timeframegroup import TimeFrameGroup
from lib.core import THOROUGH, Violation, require
from lib import stores as S
from lib import tf as M

KEY = '/building1/elec/meter1'
COLS = (('power', 'active'), ('power', 'apparent'), ('voltage', ''))
G = 7                                   # instants of the grid
TABLES = [tuple(range(7)), (0, 1, 3, 4, 6), (2, 3, 4), (0, 6), (1, 2, 5)]
if THOROUGH:
    TABLES += [t for k in (2, 3, 4, 5, 6) for t in itertools.combinations(range(7), k)
               if t not in TABLES][::3]
CHUNKS = [1, 2, 3, 4, 100] if THOROUGH else [1, 2, 4, 100]
BOUNDS = ('%d tables of 2..7 rows on a 7-instant grid x all sections x all windows over every second instant x chunk '
          'sizes %s x look-ahead 0..2; all tables of up to 7 rows unsectioned x all chunk sizes; all pairs of sections; '
          'all column subsets; naive, UTC and London indices' % (len(TABLES), CHUNKS))
ASSUMPTIONS = ['tables are stored in time order without duplicate timestamps',
               'a chunk may repeat, as its first row, the last row of the preceding chunk of the same section',
               'nilm_metadata is replaced by a stand-in']


def within(spec, off):
    if spec == 'EMPTY':
        return False
    s, e, i, en = spec
    return not en or ((s is None or off >= s) and (e is None or off < e or (i and off == e)))


def check_load(chk, store, table, ts, cols, window, sections, chunksize, look, df, colsel=None, **kw):
    """One load() call on the real store against the list model."""
    args = dict(chunksize=chunksize, n_look_ahead_rows=look)
    if sections is not None:
        args['sections'] = [M.build(s, ts) for s in sections]
    if colsel is not None:
        args['columns'] = colsel
    args.update(kw)
    chunks = []
    for c in store.load(KEY, **args):
        chk.step()
        chunks.append((c, c.timeframe, getattr(c, 'look_ahead', None)))
    pos = 0
    for sec in (sections if sections is not None else [(None, None, False, True)]):
        want = [o for o in table if within(sec, o) and within(window, o)]
        both = M.members(sec, ts, M.probes(ts)) & M.members(window, ts, M.probes(ts))
        if len(both) == 1:
            want = []
        if not want:
            require(pos < len(chunks) and chunks[pos][0].empty, 'section {} without data gave {}', sec,
                    S.rows_of(chunks[pos][0]) if pos < len(chunks) else 'nothing')
            pos += 1
            continue
        got, prev_end, k = [], None, 0
        while True:
            require(pos < len(chunks), 'rows {} of section {} were not delivered', want[len(got):], sec)
            c, tf, la = chunks[pos]
            require(len(c) > 0, 'an empty chunk was delivered although rows {} are outstanding', want[len(got):])
            offs = [table[i] for i in df.index.get_indexer(c.index)]
            if k and offs[0] == got[-1]:
                offs = offs[1:]
                require(offs, 'a chunk holds nothing but the repeated row')
            require(offs == want[len(got):len(got) + len(offs)], 'chunk {} of section {} holds rows {} but {} are next',
                    k, sec, offs, want[len(got):])
            got += offs
            require(len(c) <= chunksize + 1, 'chunk of {} rows for chunksize {}', len(c), chunksize)
            exp = df.loc[c.index]
            if colsel is not None:
                names = {(p or '', a or '') for p, a in colsel}
                require(set(c.columns) == names and len(c.columns) == len(names), 'columns {} requested {}',
                        list(c.columns), names)
                exp = exp[list(c.columns)]
            else:
                require(list(c.columns) == list(df.columns), 'columns {}', list(c.columns))
            require(c.index.equals(exp.index) and (c.index.tz is None) == (df.index.tz is None), 'index differs')
            require((c.to_numpy() == exp.to_numpy()).all(), 'values {} instead of {}', S.rows_of(c), S.rows_of(exp))
            # the chunk's time frame covers its rows, and the frames tile the section
            # one row and an unbounded side: nothing to bound the frame on that side
            open_end = len(c) == 1 and tf.end is None
            open_start = len(c) == 1 and tf.start is None
            require(not tf.empty and (open_start or tf.start <= c.index[0]) and (open_end or c.index[-1] <= tf.end),
                    'timeframe {} rows {}', tf, offs)
            if k:
                require(tf.start == prev_end, 'time frames of consecutive chunks do not meet')
            last = len(got) == len(want)
            if k == 0:
                exp_s = max([x for x in (M.build(sec, ts).start, M.build(window, ts).start) if x is not None],
                            default=None if open_start else c.index[0])
                require(tf.start == exp_s, 'first chunk frame starts at {} instead of {}', tf.start, exp_s)
            if last:
                exp_e = min([x for x in (M.build(sec, ts).end, M.build(window, ts).end) if x is not None],
                            default=None if open_end else c.index[-1])
                require(tf.end == exp_e, 'last chunk frame ends at {} instead of {}', tf.end, exp_e)
            prev_end = tf.end
            # look-ahead: the rows on disk right after the chunk, whatever section they belong to
            if look:
                i = table.index(got[-1])
                want_la = list(table[i + 1:i + 1 + look])
                got_la = [] if la is None or la.empty else [table[j] for j in df.index.get_indexer(la.index)]
                require(got_la == want_la, 'look-ahead rows {} instead of {}', got_la, want_la)
                if want_la:
                    e = df.loc[la.index][list(la.columns)]
                    require(set(la.columns) == set(exp.columns) and (la.to_numpy() == e.to_numpy()).all(), 'look-ahead values')
            pos += 1
            k += 1
            if last:
                break
        chk.state((table, sec, window, chunksize, k))
    require(pos == len(chunks), '{} chunks too many: {}', len(chunks) - pos, [S.rows_of(c[0]) for c in chunks[pos:]])
    return [(S.rows_of(c)[:1], len(c), str(t)) for c, t, _ in chunks]


def make(chk, table, tz, cols=COLS):
    path = S.fresh_path(chk, '.h5')
    df = S.frame(table, cols, tz=tz)
    st = S.new_hdf(path)
    st.put(KEY, df)
    return path, st, df


def sections_x_windows(chk, item):
    table, tz, wins = item
    ts = list(S.times(range(G), tz))
    path, st, df = make(chk, table, tz, COLS[:1])
    secs = M.specs(G, empty=True)
    try:
        for window, sec, cs, look in itertools.product(wins, secs, CHUNKS, (0, 2)):
            if chk.stop:
                break
            if not THOROUGH and look and cs == 4:
                continue

            def run():
                st.window = M.build(window, ts)
                return check_load(chk, st, table, ts, COLS[:1], window, [sec], cs, look, df)
            chk.case('section x window', (table, tz, window, sec, cs, look), run)
    finally:
        st.close()
        S.drop(path)


def whole(chk, item):
    table, tz = item
    ts = list(S.times(range(G), tz))
    path, st, df = make(chk, table, tz)
    try:
        for cs in list(range(1, len(table) + 2)) + [2 ** 28]:
            for look in (0, 1, 3):
                def run():
                    return check_load(chk, st, table, ts, COLS, (None, None, False, True), None, cs, look, df)
                chk.case('whole table', (table, tz, cs, look), run)

        def again():
            require(S.rows_of(st[KEY]) == S.rows_of(df), 'whole-table access differs')
            got = [st.get_timeframe(KEY)]
            require((got[0].start, got[0].end) == (df.index[0], df.index[-1]), 'time frame {}', got)
            return str(got)
        if len(table) > 1:
            chk.case('timeframe', (table, tz), again)
    finally:
        st.close()
        S.drop(path)


def window_timeframe(chk, item):
    table, tz = item
    ts = list(S.times(range(G), tz))
    path, st, df = make(chk, table, tz, COLS[:1])
    pr = M.probes(ts)
    try:
        for w in M.specs(G, enabled=(True, False)):
            def run():
                chk.step()
                st.window = M.build(w, ts)
                got = st.get_timeframe(KEY)
                ref = M.build((table[0], table[-1], False, True), ts).intersection(M.build(w, ts))
                require((got.start, got.end, got.empty) == (ref.start, ref.end, ref.empty), 'time frame {} not {}', got, ref)
                return str(got)
            chk.case('window timeframe', (table, tz, w), run)
    finally:
        st.close()
        S.drop(path)


def pairs(chk, item):
    table, tz, first = item
    ts = list(S.times(range(G), tz))
    path, st, df = make(chk, table, tz, COLS[:1])
    secs = [s for s in M.specs(G, empty=True) if s == 'EMPTY' or (s[0] in (None, 0, 2, 3, 5) and s[1] in (None, 2, 4, 6))]
    try:
        for sec in secs:
            for cs, window in ((1, (None, None, False, True)), (3, (1, 5, False, True)), (100, (None, 5, False, False))):
                def run():
                    st.window = M.build(window, ts)
                    return check_load(chk, st, table, ts, COLS[:1], window, [first, sec], cs, 1, df)
                chk.case('two sections', (table, first, sec, cs, window), run)
    finally:
        st.close()
        S.drop(path)


def columns(chk, item):
    table, tz = item
    ts = list(S.times(range(G), tz))
    path, st, df = make(chk, table, tz)
    win = (None, None, False, True)
    try:
        for k in range(1, 4):
            for sel in itertools.permutations(COLS, k):
                for none in (False, True):
                    for sec in (None, [(1, 5, False, True)]):
                        def run():
                            s = [(p, (a or None) if none else a) for p, a in sel]
                            keep = list(s)
                            r = check_load(chk, st, table, ts, COLS, win, sec, 2, 1, df, colsel=s)
                            require(s == keep, 'the caller\'s column list was changed')
                            return r
                        chk.case('columns', (table, sel, none, sec), run)

        def missing():
            chk.step()
            for args in ({}, {'sections': [TimeFrame(ts[0], ts[3])]}):
                try:
                    list(st.load('/building1/elec/meter9', **args))
                except KeyError:
                    continue
                raise Violation('loading an absent key did not raise KeyError')
            return 'KeyError'
        chk.case('absent key', table, missing)

        def spelled():
            # the key may be written with or without slashes
            for key in ('building1/elec/meter1', '/building1/elec/meter1/', 'building1/elec/meter1/'):
                got = [S.rows_of(c) for c in st.load(key)]
                require(got == [S.rows_of(df)], 'key {!r} gave {}', key, got)
            return 'ok'
        chk.case('key spelling', table, spelled)

        def period_index():
            p = pd.period_range(S.START, periods=3, freq='2s')
            got = [S.rows_of(c) for c in st.load(KEY, sections=p)]
            want = [S.rows_of(df[(df.index >= x.start_time) & (df.index <= x.end_time)]) for x in p]
            require(got == want, 'period sections gave {} not {}', got, want)
            return str(got)
        if tz is None:
            chk.case('periods', table, period_index)
    finally:
        st.close()
        S.drop(path)


def run(chk):
    wins = [w for w in M.specs(G, enabled=(True,)) if w == 'EMPTY' or
            ((w[0] is None or w[0] % 2 == 0) and (w[1] is None or w[1] % 2 == 1 or w[1] == 6) and not w[2])]
    wins += [(2, 4, False, False), (1, 4, True, True)]
    if not THOROUGH:
        wins = wins[::2]
    chk.parallel('section x window', sections_x_windows,
                 [(t, tz, wins[i::6]) for t in TABLES for tz in ('UTC',) for i in range(6)] +
                 [(TABLES[1], tz, wins[i::6]) for tz in (None, 'Europe/London') for i in range(6)])
    tabs = [t for k in range(1, 8) for t in itertools.combinations(range(7), k)]
    chk.parallel('whole table', whole, [(t, tz) for t in tabs for tz in (('UTC', None) if THOROUGH else ('UTC',))])
    chk.parallel('window timeframe', window_timeframe, [(t, 'UTC') for t in tabs if len(t) > 1])
    firsts = M.specs(G, empty=True)
    chk.parallel('two sections', pairs, [(TABLES[1], 'UTC', f) for f in (firsts if THOROUGH else firsts[::3])])
    chk.parallel('columns', columns, [(t, tz) for t in TABLES[:2] for tz in (None, 'UTC')])
