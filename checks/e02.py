"""E02: series of a meter do not depend on chunking; resampling averages each period and fills only short gaps."""
import copy
import itertools
import math
import pandas as pd
from nilmtk import TimeFrame
from nilmtk.preprocessing import Clip, Apply
from lib.core import THOROUGH, Violation, require, feq
from lib import stores as S, meters as M
from lib import memstore as MS

N = 8 if THOROUGH else 7
NAN = float('nan')
COLS = (('power', 'active'),)
SECS = [None, ((0, 4),), ((1, 3), (3, 6)), ((0, 2), (4, 7)), ((2, 3), (5, 6))]
PERIODS = (1, 2, 3, 5)
BOUNDS = ('all data: every set of readings on %d slots x %d section lists x chunk sizes 1..4; resampling: every reading/missing/absent pattern of %d '
          'slots (start offsets 0 and 1; slots of 1 s, 1 min and 2 h) x periods %s x sample period/longest gap (1,1),(1,3),(2,5), in one chunk; averages, maxima and no filling; '
          'on/off, lowest power; arguments reused in three calls on two meters' % (N, len(SECS), N - 1, PERIODS))
ASSUMPTIONS = ['tables come from an in-memory store that behaves as D01 requires', 'periods divide the day evenly or start with it',
               'nilm_metadata is replaced by a stand-in']
START = pd.Timestamp('2013-05-01 00:00:00')


def val(o):
    return float((o * 37) % 50 + 10 * o)


def df_of(offs, vals=None, start=START):
    return S.frame(offs, COLS, tz='UTC', values=[[val(o)] for o in offs] if vals is None else [[v] for v in vals], start=start)


def rows(s):
    return [(int((t - START.tz_localize('UTC')).total_seconds()), None if v != v else float(v)) for t, v in s.items()]


def alldata(chk, item):
    offs, secs = item
    ts = S.times(range(12), 'UTC', start=START)
    for size in (1, 2, 3, 4, 100):
        def run():
            m = MS.one_meter(df_of(offs), M.device(COLS, 1, 2))
            kw = {'chunksize': size}
            if secs:
                kw['sections'] = [TimeFrame(ts[a], ts[b]) for a, b in secs]
            want = [(o, val(o)) for a, b in (secs or [(0, 99)]) for o in offs if a <= o < b]
            chk.step(3)
            got = m.power_series_all_data(**kw)
            require((got is None and not want) or (got is not None and rows(got) == want), 'all data {} instead of {}',
                    got is not None and rows(got), want)
            if want:
                require(feq(m.vampire_power(**kw), min(v for _, v in want)), 'lowest power')
            thr = 40
            on = [x for c in m.when_on(on_power_threshold=thr, **kw) for x in c.items()]
            on = [(int((t - START.tz_localize('UTC')).total_seconds()), bool(v)) for t, v in on]
            require(sorted(set(on)) == [(o, v >= thr) for o, v in want], 'on/off {}', on)
            chk.state((item, size))
            return want
        chk.case('all data', (item, size), run)


def resample_oracle(rs, period, how, limit):
    """rs: [(second, value or None)]; one value per period from the first to the last one."""
    if not rs:
        return []
    bins = {}
    for t, v in rs:
        bins.setdefault(t // period, []).append(v)
    out, last, age = [], None, 0
    for b in range(min(bins), max(bins) + 1):
        vs = [v for v in bins.get(b, []) if v is not None]
        if vs:
            v = sum(vs) / len(vs) if how == 'mean' else max(vs)
            last, age = v, 0
        else:
            age += 1
            v = last if limit is not None and age <= limit else None
        out.append((b * period, v))
    return out


def resample(chk, item):
    kinds, shift, unit = item
    offs = [i + shift for i, k in enumerate(kinds) if k]
    if not offs:
        return
    vals = [NAN if kinds[o - shift] == 2 else val(o) for o in offs]
    rs = [(o, None if v != v else v) for o, v in zip(offs, vals)]
    for period, (sp, msp), how in itertools.product(PERIODS, ((1, 1), (1, 3), (2, 5)), ('mean', 'max', 'nofill')):
        def run():
            m = MS.one_meter(df_of([o * unit for o in offs], vals), M.device(COLS, sp * unit, msp * unit))
            limit = math.ceil(msp / period)
            kw = {}
            if how == 'max':
                kw['resample_kwargs'] = {'how': 'max'}
            elif how == 'nofill':
                kw['resample_kwargs'] = {'fill_method': None}
                limit = None
            keep = copy.deepcopy(kw)
            chk.step(2)
            got = list(m.power_series(sample_period=period * unit, **kw))
            require(len(got) == 1, 'chunks')
            want = resample_oracle(rs, period, 'max' if how == 'max' else 'mean', limit)
            g = [(t / unit, v) for t, v in rows(got[0])]
            require([x[0] for x in g] == [x[0] for x in want] and all(feq(a[1], b[1]) for a, b in zip(g, want)),
                    'every {} s ({}, limit {}): {} instead of {}', period, how, limit, g, want)
            require(keep == kw, 'the caller\'s arguments changed: {} became {}', keep, kw)
            if period == sp and how == 'mean':
                g2 = [(t / unit, v) for t, v in rows(list(m.power_series(resample=True))[0])]
                require(g2 == g, 'resample=True differs from the meter\'s own period')
            chk.state((item, period, sp, msp, how))
            return want
        chk.case('resample', (item, period, sp, msp, how), run)


def reuse(chk, item):
    """The same arguments used for several calls on several meters."""
    order, p = item

    def run():
        offs = (0, 1, 5, 6, 12)
        devs = {'a': M.device(COLS, 1, 1), 'b': M.device(COLS, 1, 6)}
        ds = MS.dataset({1: ({1: (df_of(offs), {'site_meter': True, 'device_model': 'a'}),
                              2: (df_of(offs), {'submeter_of': 1, 'device_model': 'b'})}, [])}, devs)
        ms = {1: ds.buildings[1].elec[1], 2: ds.buildings[1].elec[2]}
        rk, pre = {}, []
        for i in order:
            chk.step()
            got = list(ms[i].power_series(sample_period=p, resample_kwargs=rk, preprocessing=pre))
            want = resample_oracle([(o, val(o)) for o in offs], p, 'mean', math.ceil({1: 1, 2: 6}[i] / p))
            require(rows(got[0]) == want, 'meter {}: {} instead of {}', i, rows(got[0]), want)
        require(rk == {} and pre == [], 'the caller\'s arguments changed: {} {}', rk, pre)
        chk.state(item)
        return want
    chk.case('reused arguments', item, run)


def duplicates(chk, item):
    """A repeated time stamp: the first value counts."""
    offs, dup = item

    def run():
        idx = sorted(list(offs) + [dup])
        vals, seen = [], set()
        for o in idx:
            vals.append(999. if o in seen else val(o))
            seen.add(o)
        m = MS.one_meter(df_of(idx, vals), M.device(COLS, 1, 3))
        chk.step()
        got = rows(list(m.power_series(sample_period=1))[0])
        want = resample_oracle([(o, val(o)) for o in offs], 1, 'mean', 3)
        require(got == want, 'with a repeated time stamp {} instead of {}', got, want)
        chk.state(item)
        return want
    chk.case('duplicates', item, run)


def run(chk):
    sub = [c for n in range(1, N + 1) for c in itertools.combinations(range(N), n)]
    chk.parallel('all data', alldata, [(c, s) for c in sub for s in SECS])
    chk.parallel('resample', resample, [(k, s, 1) for k in itertools.product((0, 1, 2), repeat=N - 2) for s in (0, 1)] +
                 [(k, 0, u) for u in (1, 60, 7200) for k in itertools.product((0, 1), repeat=N)])
    chk.serial('reused arguments', reuse, [(o, p) for o in itertools.product((1, 2), repeat=3) for p in (1, 2, 3)])
    chk.parallel('duplicates', duplicates, [(c, d) for c in sub if 2 <= len(c) <= 4 for d in c])
