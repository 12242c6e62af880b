"""E03: activations are exactly the runs of readings at or above the threshold, joined over short pauses, long enough."""
import itertools
import pandas as pd
from nilmtk.electric import get_activations
from lib.core import THOROUGH, Violation, require, feq
from lib import stores as S, meters as M
from lib import memstore as MS

N = 9 if THOROUGH else 8
NAN = float('nan')
COLS = (('power', 'active'),)
LEVELS = {0: 2.0, 1: 10.0, 2: 90.0, 3: NAN}
BOUNDS = ('series: every low/high/missing pattern of %d readings (missing in up to two) at even and uneven spacing x longest pause joined 0..4 x '
          'shortest run 0..3 x border 0..2; the same in days; meters: every low/mid/high pattern of %d readings x 9 sets of appliances, chunk sizes 1, 2, 4 and all; one pattern x every appliance '
          '(3 types) with or without an own threshold, nominal consumption, shortest run and pause, and pairs of them; switching times: every pattern of 6 x thresholds x chunk sizes' % (N, 6 if THOROUGH else 5))
ASSUMPTIONS = ['runs cut by the end of the data are not activations', 'nilm_metadata is replaced by a stand-in']
START = pd.Timestamp('2013-05-01 00:00:00')
SPACING = [tuple(range(12)), (0, 1, 3, 4, 7, 8, 9, 12, 13, 15, 16, 20)]


def oracle(ts, vs, thr, min_off, min_on, border):
    """-> list of (first row, row after last)"""
    on = [v >= thr for v in vs]
    runs, i, n = [], 0, len(vs)
    while i < n:
        if on[i]:
            j = i
            while j < n and on[j]:
                j += 1
            if i > 0 and j < n:
                runs.append([i, j])
            i = j
        else:
            i += 1
    joined = []
    for r in runs:
        if min_off > 0 and joined and ts[r[0]] - ts[joined[-1][1]] < min_off:
            joined[-1][1] = r[1]
        else:
            joined.append(list(r))
    out = []
    for a, b in joined:
        if ts[b] - ts[a] < min_on:
            continue
        lo, hi = max(0, a - 1 - border), min(n, b + border)
        if all(v == v for v in vs[lo:hi]):
            out.append((lo, hi))
    return out


def series(chk, item):
    pat, sp = item
    unit = 50000 if sp == 2 else 1        # long runs and pauses, up to days
    ts = [t * unit for t in SPACING[min(sp, 1)][:len(pat)]]
    vs = [LEVELS[k] for k in pat]
    s = S.frame(ts, COLS, tz='UTC', values=[[v] for v in vs], start=START)[COLS[0]]
    for min_off, min_on, border in itertools.product(range(5), range(4), range(3)):
        min_off, min_on = min_off * unit, min_on * unit

        def run(min_off=min_off, min_on=min_on, border=border):
            keep = s.copy()
            chk.step()
            got = get_activations(s, min_off_duration=min_off, min_on_duration=min_on, border=border, on_power_threshold=50)
            want = oracle(ts, vs, 50, min_off, min_on, border)
            g = [list(a.index) for a in got]
            w = [list(s.index[a:b]) for a, b in want]
            require(g == w, 'pause {} run {} border {}: {} instead of {}', min_off, min_on, border,
                    [(ts[list(s.index).index(a[0])], ts[list(s.index).index(a[-1])]) if a else None for a in g], want)
            for a, (lo, hi) in zip(got, want):
                require(list(a) == vs[lo:hi], 'values of an activation')
            require(keep.equals(s), 'the series was changed')
            chk.state((item, min_off, min_on, border))
            return len(want)
        chk.case('series', (item, min_off, min_on, border), run)


APPS = [
    ([], 10, 0, 0),
    ([{'type': 'fridge'}], 20, 60, 12),
    ([{'type': 'fridge', 'on_power_threshold': 5}], 5, 60, 12),
    ([{'type': 'kettle', 'nominal_consumption': {'on_power': 91}}], 91, 0, 0),
    ([{'type': 'light'}], 10, 0, 0),
    ([{'type': 'kettle'}, {'type': 'freezer'}], 30, 0, 0),
    ([{'type': 'kettle', 'on_power_threshold': 200}, {'type': 'television'}], 10, 0, 0),
    ([{'type': 'fridge'}, {'type': 'kettle', 'on_power_threshold': 8}], 8, 60, 12),
    ([{'type': 'fridge', 'on_power_threshold': 0}, {'type': 'light'}], 0, 60, 12),
]


# what an appliance may say of itself: threshold, nominal consumption, shortest run, shortest pause
OWN = list(itertools.product((None, 5, 0), (None, {}, {'standby': 3}, {'on_power': 91}), (None, 0, 30), (None, 0, 20)))
TYPE = {'fridge': (20, 60, 12), 'light': (None, None, None), 'kettle': (100, None, None)}


def settings(apps):
    """-> metadata, threshold, shortest run, shortest pause"""
    md, thr, on, off = [], [], [], []
    for ty, (t, nominal, a, b) in apps:
        d = {'type': ty}
        for k, v in (('on_power_threshold', t), ('nominal_consumption', nominal), ('min_on_duration', a), ('min_off_duration', b)):
            if v is not None:
                d[k] = v
        md.append(d)
        first = lambda *c: next((x for x in c if x is not None), None)
        thr.append(first(t, (nominal or {}).get('on_power'), TYPE[ty][0], 10))
        on.append(first(a, TYPE[ty][1]))
        off.append(first(b, TYPE[ty][2]))
    return (md, min(thr) if thr else 10, max([x for x in on if x is not None] or [0]), max([x for x in off if x is not None] or [0]))


def meter(chk, item):
    ai, pat = item
    apps, thr, min_on, min_off = APPS[ai] if isinstance(ai, int) else settings(ai)

    def run():
        ts = [10 * i for i in range(len(pat))]
        vs = [LEVELS[k] for k in pat]
        md = [dict(a, instance=i + 1, meters=[1]) for i, a in enumerate(apps)]
        m = MS.one_meter(S.frame(ts, COLS, tz='UTC', values=[[v] for v in vs], start=START), M.device(COLS, 10, 10), apps=md)
        chk.step(4)
        require((m.on_power_threshold(), m.min_on_duration(), m.min_off_duration()) == (thr, min_on, min_off),
                'threshold, shortest run, pause: {}', (m.on_power_threshold(), m.min_on_duration(), m.min_off_duration()))
        load = m.store.load
        for size in (1, 2, 4, None):
            if size:
                m.store.load = lambda *a, **k: load(*a, **dict(k, chunksize=size))
            on = pd.concat([c for c in m.when_on() if len(c)])
            m.store.load = load
            on = on[~on.index.duplicated()]
            require([bool(x) for x in on] == [v >= thr for v in vs], 'on/off with chunks of {}: {}', size, list(on))
        for kw in ({}, {'on_power_threshold': 50}, {'min_off_duration': 21}, {'min_on_duration': 20}, {'border': 0}):
            t, a, b, c = (kw.get('on_power_threshold', thr), kw.get('min_off_duration', min_off), kw.get('min_on_duration', min_on),
                          kw.get('border', 1))
            got = m.get_activations(**kw)
            want = oracle(ts, vs, t, a, b, c)
            g = [list(x) for x in got]
            require(g == [vs[lo:hi] for lo, hi in want], '{}: activations {} instead of {}', kw, g, want)
        chk.state(item)
        return len(want)
    chk.case('meter', item, run)


def switches(chk, item):
    pat, thr, size = item

    def run():
        ts = list(range(len(pat)))
        vs = [{0: 0., 1: 40., 2: 81.}[k] for k in pat]
        df = S.frame(ts, COLS, tz='UTC', values=[[v] for v in vs], start=START)
        ds = MS.dataset({1: ({1: (df, {'site_meter': True})}, [])}, {'dev': M.device(COLS, 1, 2)})
        m = ds.buildings[1].elec[1]
        load = ds.store.load
        ds.store.load = lambda *a, **k: load(*a, **dict(k, chunksize=size))
        chk.step()
        got = [pd.Timestamp(t) for t in m.switch_times(**({} if thr is None else {'threshold': thr}))]
        got = [t.tz_localize('UTC') if t.tz is None else t for t in got]
        want = [df.index[i] for i in range(1, len(vs)) if abs(vs[i] - vs[i - 1]) > (40 if thr is None else thr)]
        require(got == want, 'switching times {} instead of {}', got, want)
        chk.state(item)
        return len(want)
    chk.case('switches', item, run)


def run(chk):
    pats = [p for p in itertools.product((0, 2, 3), repeat=N) if sum(k == 3 for k in p) <= (2 if not THOROUGH else 3)]
    chk.parallel('series', series, [(p, 0) for p in itertools.product((0, 2), repeat=N)] + [(p, 1) for p in itertools.product((0, 2), repeat=N)] +
                 [(p, 1) for p in pats if 3 in p and (THOROUGH or p[0] == 0)])
    long = [p for p in itertools.product((0, 2), repeat=7)]
    chk.parallel('long', series, [(p, 2) for p in long])
    pair = [(t, o) for t in TYPE for o in OWN if o[0] in (None, 5) and o[1] in (None, {'on_power': 91}) and o[2] in (None, 30) and o[3] in (None, 20)]
    chk.parallel('settings', meter, [(((t, o),), (0, 1, 2, 0, 2, 0)) for t in TYPE for o in OWN] +
                 [((a, b), (0, 1, 2, 0, 2, 0)) for n, a in enumerate(pair) for b in (pair[n:] if THOROUGH else pair[n::5])])
    chk.parallel('meter', meter, [(i, p) for i in range(len(APPS)) for p in itertools.product((0, 1, 2), repeat=6 if THOROUGH else 5)])
    chk.parallel('switches', switches, [(p, t, s) for p in itertools.product((0, 1, 2), repeat=6 if THOROUGH else 5) for t in (None, 0, 39, 41, 80)
                                        for s in (1, 2, 3, 100)])
