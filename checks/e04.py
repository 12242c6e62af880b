"""E04: histograms count every reading once in its bin; the activity histogram counts the bins of a day with activity."""
import itertools
import math
import numpy as np
import pandas as pd
from nilmtk.stats.histogram import histogram_from_generator
from lib.core import THOROUGH, Violation, require, feq
from lib import stores as S, meters as M
from lib import memstore as MS

N = 6 if THOROUGH else 5
COLS = (('power', 'active'),)
START = pd.Timestamp('2013-05-01 00:00:00')          # a Wednesday
BOUNDS = ('histograms: every series of %d values out of 0..4%s x all ways of cutting it into chunks x 8 bin and range settings; activity: on/off/absent '
          'patterns of 8 readings (%s) at two spacings x offsets in the day x 5 period and bin pairs x longest gap, in one chunk'
          % (N, '' if THOROUGH else ' not ending lower than they start', 'all' if THOROUGH else 'none or two absent; one absent with one on'))
ASSUMPTIONS = ['no change of daylight saving time within the data', 'a range left open is taken from the first chunk (as documented)',
               'chunks of fewer than five bins are not counted (as implemented)']


def cuts(n):
    for mask in range(2 ** (n - 1)):
        out, cur = [], [0]
        for i in range(1, n):
            if mask >> (i - 1) & 1:
                out.append(cur)
                cur = []
            cur.append(i)
        yield out + [cur]


SETTINGS = [dict(bins=4, range=(0, 4)), dict(bins=2, range=(1, 3)), dict(bins=3, range=(None, 4)), dict(bins=2, range=(0, None)),
            dict(bins=4), dict(range=(0, 3)), dict(bins=5, range=(0, 10)), dict()]


def count(vals, lo, hi, bins):
    h = [0] * bins
    for v in vals:
        if lo <= v <= hi:
            i = min(bins - 1, int((v - lo) * bins / (hi - lo)))
            h[i] += 1
    return h


def hist(chk, item):
    vals = item
    for cut in cuts(len(vals)):
        for si, s in enumerate(SETTINGS):
            def run():
                chunks = [pd.Series([float(vals[i]) for i in c]) for c in cut]
                first = [vals[i] for i in cut[0]]
                lo, hi = s.get('range') or (None, None)
                lo = min(first) if lo is None else lo
                hi = max(first) if hi is None else hi
                bins = s.get('bins') or int(hi - lo)
                if hi <= lo or bins < 1:
                    return 'degenerate'
                chk.step(len(chunks))
                h, edges = histogram_from_generator(iter(chunks), **s)
                require(list(h) == count(vals, lo, hi, bins), '{} in {} chunks: counts {} instead of {}', vals, len(chunks), list(h),
                        count(vals, lo, hi, bins))
                require(np.allclose(edges, np.linspace(lo, hi, bins + 1)), 'edges {}', list(edges))
                chk.state((item, cut, si))
                return tuple(h)
            chk.case('histogram', (item, cut, si), run)


PERIODS = [('D', '6h', 86400, 21600), ('D', 'h', 86400, 3600), ('h', '10min', 3600, 600), ('12h', '3h', 43200, 10800), ('W', 'D', 7 * 86400, 86400)]


def activity(chk, item):
    pat, pi, off, gap = item
    period, b, psec, bsec = PERIODS[pi]

    def run():
        step = bsec // 2 if pi != 4 else bsec * 3 // 2
        ts = [off * bsec // 2 + i * step for i, k in enumerate(pat) if k]
        vs = [{1: 5., 2: 70.}[k] for k in pat if k]
        m = MS.one_meter(S.frame(ts, COLS, tz='UTC', values=[[v] for v in vs], start=START), M.device(COLS, 1, gap * bsec))
        chk.step()
        try:
            got = list(m.activity_histogram(period=period, bin_duration=b, on_power_threshold=50))
        except ValueError as e:
            raise Violation('refused: %s' % e)
        # reference: per bin the highest reading, held over at most `gap` empty bins
        best = {}
        for t, v in zip(ts, vs):
            best[t // bsec] = max(best.get(t // bsec, 0), v)
        last, age, cells = None, 0, []
        for k in range(min(best), max(best) + 1):
            if k in best:
                last, age = best[k], 0
            else:
                age += 1
            cells.append((k, last if age <= gap else 0))
        n = psec // bsec
        want = [0] * n
        if len(cells) >= 5:
            shift = 3 if pi == 4 else 0           # weeks start on Sunday; START is a Wednesday
            for k, v in cells:
                want[(k + shift) % n] += v >= 50
        require(got == want, 'readings {} every {}: {} instead of {}', list(zip(ts, vs)), b, got, want)
        chk.state(item)
        return tuple(want)
    chk.case('activity', item, run)


def refused(chk, item):
    period, b = item

    def run():
        m = MS.one_meter(S.frame(range(8), COLS, tz='UTC', start=START), M.device(COLS, 1, 1))
        ratio = pd.Timedelta(period) / pd.Timedelta(b)
        chk.step()
        try:
            h = m.activity_histogram(period=period, bin_duration=b)
            ok = True
        except ValueError:
            ok = False
        require(ok == (ratio == int(ratio)), '{} in bins of {} {}', period, b, 'accepted' if ok else 'refused')
        require(not ok or len(h) == ratio, 'length')
        chk.state(item)
        return ok
    chk.case('refused', item, run)


def run(chk):
    chk.parallel('histogram', hist, list(itertools.product(range(5), repeat=N)) if THOROUGH else
                 [v for v in itertools.product(range(5), repeat=N) if v[0] <= v[-1]])
    pats = [p for p in itertools.product((1, 2, 0), repeat=8) if p[0] and p[-1] and (THOROUGH or p.count(0) <= 2)]
    chk.parallel('activity', activity, [(p, i, o, g) for k, p in enumerate(pats) for i in range(5) for o in ((0, 1, 5) if THOROUGH else (0, 5)) for g in (1, 2)
                                        if THOROUGH or p.count(0) != 1 or p.count(2) == 1])
    chk.serial('refused', refused, [(p, b) for p in ('1D', '12h', '1h', '6h') for b in ('1h', '5h', '7min', '15min', '2h', '12h')])
