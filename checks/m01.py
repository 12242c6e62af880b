"""M01: loading a group of meters adds up the resampled readings of its meters, period by period."""
import itertools
import math
import pandas as pd
from nilmtk import TimeFrame, MeterGroup
from lib.core import THOROUGH, Violation, require, feq
from lib import stores as S, meters as M
from lib import memstore as MS
from checks.e02 import resample_oracle

N = 6 if THOROUGH else 5
NAN = float('nan')
P = (('power', 'active'),)
START = pd.Timestamp('2013-05-01 00:00:00')
ZONES = ('UTC', 'US/Eastern', 'Europe/London')
SECS = [None, ((0, 4),), ((1, 3), (4, 6)), ((0, 2), (2, 2), (4, 9)), ((2, 3), (5, 6)), ((20, 22),)]
AVERAGED = ('voltage', 'pf', 'frequency', 'power factor', 'phase angle')
BOUNDS = ('sums: two meters, the reading/missing/absent patterns of %d slots%s x periods (own, 1, 2, 3) x %d '
          'section lists x devices, in slots of 1 s and of 2 h; columns: every pair and triple out of 6 meters with different measurements x 7 requests; structure: every '
          'nesting of up to 4 meters; pieces: chunk sizes 1..4 x section starts x periods; daylight saving time changes in 2 zones; the same on files: two meters, all sets of 6 readings, 4 windows'
          % (N, ' with every reading/absent pattern' if THOROUGH else ' with the first present and one missing, with two patterns', len(SECS)))
ASSUMPTIONS = ['the end of a time frame is not part of it, also of that of the data (as the tests of the repository require)', 'periods are whole seconds that divide a day', 'sections have both bounds', 'values exact in single precision', 'every meter has at least two readings',
               'tables come from an in-memory store that behaves as D01 requires']


def val(i, o):
    return float((o * 37) % 50 + 10 * o + 100 * i)


def secs_of(df):
    return [int((t - START.tz_localize('UTC')).total_seconds()) for t in df.index]


def meter_bins(rs, period, section, msp):
    """bin -> value of one meter in one section."""
    inside = [(t, v) for t, v in rs if section is None or section[0] <= t < section[1]]
    return dict(resample_oracle(inside, period, 'mean', math.ceil(msp / period)))


def expected(meters, period, sections):
    """meters: [(rs, msp)] -> [(second, value)]"""
    if sections is None:
        ts = [t for rs, _ in meters for t, _ in rs]
        # the time frame of the data, whose end is not part of it
        spans = [((min(ts), max(ts)), min(ts), max(ts))]
    else:
        spans = [((a, b), a, b) for a, b in sections if a < b]
    out = []
    for sec, a, b in spans:
        per = [meter_bins(rs, period, sec, msp) for rs, msp in meters]
        for k in range(a // period * period, b, period):
            vs = [p[k] for p in per if p.get(k) is not None]
            out.append((k, sum(vs) if vs else None))
    return out


def tfs(sections, unit=1):
    ts = S.times(range(99), 'UTC', start=START, step=unit)
    return [TimeFrame(ts[a], ts[b]) if a < b else TimeFrame(ts[a], ts[a + 1]).intersection(TimeFrame(ts[a + 2], ts[a + 3]))
            for a, b in sections]


def sums(chk, item):
    p1, p2, devi, unit = item
    devs = {'a': M.device(P, unit, (1, 3)[devi] * unit), 'b': M.device(P, (1, 2)[devi] * unit, 2 * unit)}
    offs = [[i for i, k in enumerate(p) if k] for p in (p1, p2)]
    if len(offs[0]) < 2 or len(offs[1]) < 2:
        return
    rs = [[(o, None if p[o] == 2 else val(n, o)) for o in of] for n, (p, of) in enumerate(zip((p1, p2), offs))]
    for period in (None, 1, 2, 3):
        for si, secs in enumerate(SECS):
            def run():
                t = lambda n: S.frame(offs[n], P, tz='UTC', start=START, values=[[NAN if v is None else v] for _, v in rs[n]], step=unit)
                ds = MS.dataset({1: ({1: (t(0), {'site_meter': True, 'device_model': 'a'}),
                                      2: (t(1), {'submeter_of': 1, 'device_model': 'b'})}, [])}, devs)
                g = ds.buildings[1].elec
                kw = {} if period is None else {'sample_period': period * unit}
                if secs is not None:
                    kw['sections'] = tfs(secs, unit)
                chk.step()
                got = [x for c in g.load(**kw) for x in zip([t / unit for t in secs_of(c)] if len(c) else [], [None if v != v else v for v in c.iloc[:, 0]])]
                want = expected([(rs[0], (1, 3)[devi]), (rs[1], 2)], period or (1, 2)[devi], secs)
                require([x[0] for x in got] == [x[0] for x in want], 'times {} instead of {}', got, want)
                require(all(feq(a[1], b[1], 1e-6) for a, b in zip(got, want)), 'every {} s: {} instead of {}', period, got, want)
                chk.state((item, period, si))
                return want
            chk.case('sums', (item, period, si), run)


KINDS = [(('power', 'active'),), (('power', 'active'), ('power', 'reactive')), (('power', 'apparent'), ('voltage', '')),
         (('voltage', ''), ('current', '')), (('power', 'active'), ('voltage', ''), ('frequency', '')), (('phase angle', ''), ('pf', ''))]
ASKS = [{}, {'ac_type': 'best'}, {'physical_quantity': 'power'}, {'physical_quantity': 'power', 'ac_type': 'best'}, {'ac_type': 'active'},
        {'physical_quantity': 'voltage'}, {'physical_quantity': ['power', 'voltage']}]
PREF = ['active', 'apparent', 'reactive']


def asked(cols, ask):
    pq, ac = ask.get('physical_quantity'), ask.get('ac_type')
    out = list(cols)
    if pq:
        out = [c for c in out if c[0] in ([pq] if isinstance(pq, str) else pq)]
    if ac == 'best':
        best = []
        for q in {c[0] for c in out}:
            have = [a for a in PREF if (q, a) in out]
            if have:
                best.append((q, have[0]))
        out = best
    elif ac:
        out = [c for c in out if c[1] == ac]
    return out


def columns(chk, item):
    kinds, ai, missing = item

    def run():
        ask = ASKS[ai]
        rows = {}
        meters = {}
        for n, k in enumerate(kinds):
            cols = KINDS[k]
            offs = [o for o in range(4) if o != missing or n == 0]
            # the last measurement of the first meter is missing once
            v = [[NAN if (n == 0 and o == missing and j == len(cols) - 1) else val(n, o) + 1000 * j for j in range(len(cols))] for o in offs]
            rows[n] = {(o, c): v[i][j] for i, o in enumerate(offs) for j, c in enumerate(cols)}
            meters[n + 1] = (S.frame(offs, cols, tz='UTC', start=START, values=v), {'site_meter': True, 'device_model': 'd%d' % k})
        ds = MS.dataset({1: (meters, [])}, {'d%d' % i: dict(M.device(c, 1, 1), model='d%d' % i) for i, c in enumerate(KINDS)})
        g = ds.buildings[1].elec
        want_cols = [asked(KINDS[k], ask) for k in kinds]
        chk.step()
        if any(not c for c in want_cols):
            try:
                list(g.load(**ask))
            except Exception as e:
                if type(e).__name__ != 'MeasurementError':
                    raise
                return 'refused'
            raise Violation('a request that meter %r cannot serve was accepted' % (want_cols,))
        out = list(g.load(sections=tfs([(0, 4)]), **ask))
        require(len(out) == 1, '%d chunks' % len(out))
        df = out[0]
        union = {c for w in want_cols for c in w}
        require(set(df.columns) == union and len(df.columns) == len(union), 'columns {} instead of {}', list(df.columns), union)
        require(secs_of(df) == [0, 1, 2, 3], 'times {}', secs_of(df))
        for c in union:
            for o in range(4):
                vs = []
                for n, w in enumerate(want_cols):
                    if c in w:
                        v = rows[n].get((o, c))
                        if v is None or v != v:         # filled from the reading before
                            v = rows[n].get((o - 1, c))
                        if v is not None and v == v:
                            vs.append(v)
                want = None if not vs else sum(vs) / (len(vs) if c[0] in AVERAGED else 1)
                got = float(df[c].iloc[o])
                require(feq(None if got != got else got, want, 1e-5), '{} at {}: {} instead of {}', c, o, got, want)
        chk.state(item)
        return sorted(union)
    chk.case('columns', item, run)


def nestings(n):
    """All ways to group the meters 1..n into one or two levels (ordered by smallest member)."""
    def parts(xs):
        if not xs:
            yield []
            return
        h, *t = xs
        for k in range(len(t) + 1):
            for c in itertools.combinations(t, k):
                for rest in parts([x for x in t if x not in c]):
                    yield [(h,) + c] + rest
    return list(parts(list(range(1, n + 1))))


def structure(chk, item):
    part, order, period = item

    def run():
        n = sum(len(p) for p in part)
        offs = {i: [o for o in range(6) if (o * 5 + i) % 4] for i in range(1, n + 1)}
        meters = {i: (S.frame(offs[i], P, tz='UTC', start=START, values=[[val(i, o)] for o in offs[i]]), {'site_meter': True})
                  for i in range(1, n + 1)}
        ds = MS.dataset({1: (meters, [])}, {'dev': M.device(P, 1, 1)})
        e = ds.buildings[1].elec
        g = MeterGroup([e[p[0]] if len(p) == 1 else MeterGroup([e[i] for i in p]) for p in (part if not order else part[::-1])])
        deep = MeterGroup([g])
        rs = [([(o, val(i, o)) for o in offs[i]], 1) for i in range(1, n + 1)]
        want = expected(rs, period, None)
        chk.step(3)
        for x in (g, deep):
            df = pd.concat(list(x.load(sample_period=period)))
            got = list(zip(secs_of(df), [None if v != v else float(v) for v in df.iloc[:, 0]]))
            require(len(got) == len(want) and all(a[0] == b[0] and feq(a[1], b[1], 1e-6) for a, b in zip(got, want)),
                    '{}: {} instead of {}', part, got, want)
        s = g.power_series_all_data(sample_period=period)
        require(len(s) == len(want) and all(feq(a, b[1] if b[1] is not None else NAN, 1e-6) for a, b in zip(s, want)), 'power of the group')
        chk.state(item)
        return want
    chk.case('structure', item, run)


def pieces(chk, item):
    start, end, period, size = item

    def run():
        offs = [[0, 1, 2, 4, 5, 7, 8, 9], [1, 2, 3, 4, 8, 9, 10]]
        rs = [[(o, val(n, o)) for o in of] for n, of in enumerate(offs)]
        t = lambda n: S.frame(offs[n], P, tz='UTC', start=START, values=[[v] for _, v in rs[n]])
        ds = MS.dataset({1: ({1: (t(0), {'site_meter': True}), 2: (t(1), {'site_meter': True})}, [])}, {'dev': M.device(P, 1, 1)})
        g = ds.buildings[1].elec
        chk.step()
        kw = {'sample_period': period}
        if start is not None:
            kw['sections'] = tfs([(start, end)])
        whole = [x for c in g.load(**kw) for x in zip(secs_of(c), c.iloc[:, 0])]
        cs = list(g.load(chunksize=size, **kw))
        got = [x for c in cs for x in zip(secs_of(c), c.iloc[:, 0])]
        require([x[0] for x in got] == [x[0] for x in whole], 'in pieces of {}: {} instead of {}', size, got, whole)
        require(all(len(c) <= size for c in cs), 'pieces of {}', [len(c) for c in cs])
        # values differ at most where a pause was filled across a cut
        for (k, a), (_, b) in zip(got, whole):
            if not any(k // period * period <= o < k + period for of in offs for o in of):
                continue
            raw = [[v for o, v in r if k <= o < k + period and (start or 0) <= o < (end or 10)] for r in rs]
            if all(raw):
                require(feq(a, sum(sum(r) / len(r) for r in raw), 1e-6), 'at {}: {} in pieces of {}', k, a, size)
        chk.state(item)
        return len(cs)
    chk.case('pieces', item, run)


def zones(chk, item):
    zone, when, period, aware = item

    def run():
        base = pd.Timestamp(when)
        idx = pd.DatetimeIndex([base + pd.Timedelta(minutes=10 * i) for i in range(24)]).tz_localize('UTC').tz_convert(zone)
        v = [[float(i)] for i in range(24)]
        c = pd.MultiIndex.from_tuples(P, names=S.LEVELS)
        t = pd.DataFrame(v, index=idx, columns=c)
        ds = MS.dataset({1: ({1: (t, {'site_meter': True}), 2: (t, {'site_meter': True})}, [])}, {'dev': M.device(P, 600, 600)}, tz=zone)
        g = ds.buildings[1].elec
        kw = {'sample_period': period}
        if aware:
            kw['sections'] = [TimeFrame(idx[2], idx[20])]
        chk.step()
        df = pd.concat(list(g.load(**kw)))
        keep = range(2, 20) if aware else range(23)
        want = {}
        for i in keep:
            want.setdefault(idx[i].value // 10 ** 9 // period * period, []).append(2. * i)
        got = {t.value // 10 ** 9: float(x) for t, x in zip(df.index, df.iloc[:, 0])}
        require(len(df) == len(want) and got == {k: sum(x) / len(x) for k, x in want.items()}, '{} instead of {}', got, want)
        require(str(df.index.tz) == zone, 'zone {}', df.index.tz)
        chk.state(item)
        return len(df)
    chk.case('zones', item, run)


def real(chk, item):
    """The same on HDF5 files, with windows."""
    mask1, mask2, window, period = item

    def run():
        offs = [[o for o in range(6) if m >> o & 1] for m in (mask1, mask2)]
        rs = [[(o, val(n, o)) for o in of] for n, of in enumerate(offs)]
        t = lambda n: S.frame(offs[n], P, tz='UTC', start=START, values=[[v] for _, v in rs[n]])
        with M.World(chk, {1: ({1: (t(0), {'site_meter': True}), 2: (t(1), {'submeter_of': 1})}, [])}, {'dev': M.device(P, 1, 2)}) as ds:
            if window:
                ts = S.times(range(10), start=START)
                ds.set_window(ts[window[0]], ts[window[1]])
            g = ds.buildings[1].elec
            chk.step(2)
            df = pd.concat(list(g.load(sample_period=period)))
            a, b = min(min(o) for o in offs), max(max(o) for o in offs)
            if window:
                # of each meter, what it has inside the window
                spans = [(max(o[0], window[0]), min(o[-1], window[1])) for o in offs]
                spans = [x for x in spans if x[0] < x[1]]
                if not spans:
                    return 'only last readings inside the window'
                a, b = min(x for x, _ in spans), max(y for _, y in spans)
            want = expected([(r, 2) for r in rs], period, [(a, b)])
            got = list(zip(secs_of(df), [None if v != v else float(v) for v in df.iloc[:, 0]]))
            require(len(got) == len(want) and all(x[0] == y[0] and feq(x[1], y[1], 1e-6) for x, y in zip(got, want)),
                    'in window {}: {} instead of {}', window, got, want)
            d = g.dataframe_of_meters(sample_period=period)
            for n, m in enumerate(g.meters):
                inside = [x for x in rs[n] if not window or window[0] <= x[0] < window[1]]
                w = dict(resample_oracle(inside, period, 'mean', math.ceil(2 / period)))
                col = [c for c in d.columns if c == m.identifier]
                require(len(d) == 0 or len(col) == (1 if w else 0), 'columns {}', list(d.columns))
                if w:
                    got = {k: None if v != v else float(v) for k, v in zip(secs_of(d), d[m.identifier])}
                    require(all(feq(got.get(k), w.get(k), 1e-6) for k in set(got) | set(w)), 'meter {}: {} instead of {}', n + 1, got, w)
        chk.state(item)
        return want
    chk.case('real', item, run)


def run(chk):
    pats = list(itertools.product((0, 1, 2), repeat=N))
    two = list(itertools.product((0, 1), repeat=N))
    chk.parallel('sums', sums, [(a, b, d, u) for a in pats for b in two for d in (0, 1) for u in (1, 7200)
                                  if THOROUGH and u == 1 or (a.count(2) == 1 and a[0] and b in ((0, 1, 1, 0, 0), (1, 0, 0, 1, 1)))])
    chk.parallel('columns', columns, [(k, a, m) for n in (1, 2, 3) for k in itertools.combinations_with_replacement(range(len(KINDS)), n)
                                      for a in range(len(ASKS)) for m in (None, 1)])
    chk.parallel('structure', structure, [(p, o, s) for n in (1, 2, 3, 4) for p in nestings(n) for o in (0, 1) for s in (1, 2)])
    chk.parallel('pieces', pieces, [(a, b, p, s) for a, b in [(None, None)] + [(a, b) for a in range(4) for b in (7, 10, 12)]
                                    for p in (1, 2, 3) for s in (1, 2, 3, 4)])
    chk.parallel('zones', zones, [(z, w, p, a) for z in ZONES for w in ('2013-11-03 04:00', '2013-03-10 05:00', '2013-10-27 00:00',
                                                                       '2013-03-31 00:00', '2013-06-01 20:00') for p in (600, 1200, 1800)
                                  for a in (0, 1)])
    masks = [m for m in range(64) if bin(m).count('1') >= 2]
    chk.parallel('real', real, [(m, n, w, p) for m in masks for n in (masks if THOROUGH else (0b110110, 0b000011, 0b111000))
                                for w in (None, (0, 3), (2, 5), (1, 9)) for p in (1, 2)])
