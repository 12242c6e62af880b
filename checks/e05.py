"""E05: correlation, entropy, mutual information and spectrum of meters agree with their definitions."""
import itertools
import math
import numpy as np
import pandas as pd
import matplotlib.pyplot as plt
from scipy.special import digamma
from nilmtk import TimeFrame
from lib.core import THOROUGH, Violation, require, feq
from lib import stores as S, meters as M
from lib import memstore as MS

COLS = (('power', 'active'),)
START = pd.Timestamp('2013-05-01 00:00:00')
GOLOMB = (0., 1., 4., 9., 15., 22., 32., 34.)       # all differences distinct
NE = 5 if THOROUGH else 4
NC = 5 if THOROUGH else 4
SECS = [None, ((0, 3), (4, 9)), ((1, 2), (3, 5), (6, 8))]
BOUNDS = ('entropy and mutual information: every choice of %d out of 8 values (differences distinct) with %s for the other meter in every '
          'order, k 1..3, base 2 (and e for k 1); series and a pair of series of about 10000 values (split in pieces); correlation: series of %d values (0..2 and %s) with a gap at %s places, '
          '%d section lists, and of 3 readings with 6 or 9 of another meter read two or three times as often; spectrum: every series of up to %d values out of 0..2, two sample periods'
          % (NE, 'two choices' if THOROUGH else 'one choice', NC, '0..2' if THOROUGH else '0..1 starting with 0', '4' if THOROUGH else '2', len(SECS), 6 if THOROUGH else 5))
ASSUMPTIONS = ['values are distinct where the definition needs it (the code adds noise of 1e-10)', 'the two meters are aligned, as documented']


def meter_pair(x, y, offs, sp=1, msp=1):
    t = lambda v: S.frame(offs, COLS, tz='UTC', values=[[a] for a in v], start=START)
    ds = MS.dataset({1: ({1: (t(x), {'site_meter': True}), 2: (t(y), {'submeter_of': 1})}, [])}, {'dev': M.device(COLS, sp, msp)})
    return ds.buildings[1].elec[1], ds.buildings[1].elec[2]


def kl(x, k, base):
    n = len(x)
    s = 0.
    for i in range(n):
        s += math.log(sorted(abs(x[i] - x[j]) for j in range(n) if j != i)[k - 1])
    return (digamma(n) - digamma(k) + math.log(2) + s / n) / math.log(base)


def ksg(x, y, k, base):
    n = len(x)
    a = b = 0.
    for i in range(n):
        d = sorted(max(abs(x[i] - x[j]), abs(y[i] - y[j])) for j in range(n) if j != i)[k - 1]
        a += digamma(sum(abs(x[i] - x[j]) < d for j in range(n))) / n
        b += digamma(sum(abs(y[i] - y[j]) < d for j in range(n))) / n
    return (-a - b + digamma(k) + digamma(n)) / math.log(base)


def entropy(chk, item):
    x, y = item

    def run():
        m1, m2 = meter_pair(x, y, range(len(x)))
        for k in (1, 2, 3):
            for base in ((2, math.e) if k == 1 else (2,)):
                chk.step(3)
                require(abs(m1.entropy(k=k, base=base) - kl(x, k, base)) < 1e-6, 'entropy of {}', x)
                got = m1.mutual_information(m2, k=k, base=base)
                want = ksg(x, y, k, base)
                require(abs(got - want) < 1e-6, 'mutual information of {} and {} (k {}): {} instead of {}', x, y, k, got, want)
                require(abs(m2.mutual_information(m1, k=k, base=base) - want) < 1e-6, 'mutual information is not symmetric')
        chk.state(item)
        return round(want, 6)
    chk.case('information', item, run)


def long_series(chk, n):
    def run():
        x = np.array([(i * 7919) % n for i in range(n)], dtype=float)
        offs = range(n)
        m = MS.one_meter(S.frame(offs, COLS, tz='UTC', values=x.reshape(-1, 1), start=START), M.device(COLS, 1, 1))
        chk.step()
        got = m.entropy()
        want = []
        for z in ([x] if n <= 10000 else np.array_split(x, n // 10000 + 1)):
            z = np.sort(z)
            # third nearest neighbour in one dimension
            d = np.full((len(z), 6), np.inf)
            for c, s in enumerate((1, 2, 3)):
                d[s:, c] = z[s:] - z[:-s]
                d[:-s, c + 3] = z[s:] - z[:-s]
            nn = np.sort(d, axis=1)[:, 2]
            want.append((digamma(len(z)) - digamma(3) + math.log(2) + np.log(nn).mean()) / math.log(2))
        require(abs(got - sum(want) / len(want)) < 1e-6, 'entropy of {} values: {} instead of {}', n, got, want)
        chk.state(n)
        return round(got, 6)
    chk.case('long series', n, run)


def long_pair(chk, item):
    n, k, base = item

    def run():
        fixed = np.random.RandomState(1)        # no two distances alike
        x, y = fixed.rand(n) * 1000, fixed.rand(n) * 700
        y = np.where(np.arange(n) % 3 == 0, x * .7 + y * .01, y)
        m1, m2 = meter_pair(x, y, range(n))
        chk.step()
        got = m1.mutual_information(m2, k=k, base=base)
        want = []
        cut = lambda v: [v] if n <= 10000 else np.array_split(v, n // 10000 + 1)
        for a, b in zip(cut(x), cut(y)):
            z = len(a)
            s = 0.
            for j in range(z):
                dx, dy = np.abs(a - a[j]), np.abs(b - b[j])
                d = np.partition(np.maximum(dx, dy), k)[k]
                s += digamma((dx < d).sum()) + digamma((dy < d).sum())
            want.append((digamma(k) + digamma(z) - s / z) / math.log(base))
        require(abs(got - sum(want) / len(want)) < 1e-6, 'mutual information of {} values: {} instead of {}', n, got, want)
        chk.state(item)
        return round(got, 6)
    chk.case('long pair', item, run)


def correlation(chk, item):
    x, y, gap, si = item

    def run():
        offs = [i + (4 if i >= gap else 0) for i in range(len(x))]
        m1, m2 = meter_pair(x, y, offs)
        kw, keep = {}, range(len(x))
        if SECS[si]:
            ts = S.times(range(12), 'UTC', start=START)
            kw['sections'] = [TimeFrame(ts[a], ts[b]) for a, b in SECS[si]]
            keep = [i for i in keep if any(a <= offs[i] < b for a, b in SECS[si])]
        # a gap of two periods or more is filled for one period (the longest sample period)
        pairs, last = [], None
        groups = [keep] if not SECS[si] else [[i for i in keep if a <= offs[i] < b] for a, b in SECS[si]]
        for g in groups:
            for n, i in enumerate(g):
                pairs.append((x[i], y[i]))
                if n + 1 < len(g) and offs[g[n + 1]] - offs[i] > 1:
                    pairs.append((x[i], y[i]))
        xs, ys = [p[0] for p in pairs], [p[1] for p in pairs]
        if len(set(xs)) < 2 or len(set(ys)) < 2:
            return 'constant'
        want = float(np.corrcoef(xs, ys)[0, 1])
        chk.step(2)
        got = m1.correlation(m2, **dict(kw))
        require(abs(got - want) < 1e-9, 'correlation of {} and {}: {} instead of {}', xs, ys, got, want)
        require(abs(m2.correlation(m1, **dict(kw)) - want) < 1e-9, 'correlation is not symmetric')
        require(abs(m1.correlation(m1, **dict(kw)) - 1) < 1e-9, 'correlation with itself')
        chk.state(item)
        return round(want, 6)
    chk.case('correlation', item, run)


def rates(chk, item):
    """Meters of different sample periods are compared at the longer one."""
    x, y, r = item

    def run():
        slow = S.frame([r * i for i in range(len(x))], COLS, tz='UTC', values=[[a] for a in x], start=START)
        fast = S.frame(range(len(y)), COLS, tz='UTC', values=[[a] for a in y], start=START)
        ds = MS.dataset({1: ({1: (slow, {'site_meter': True, 'device_model': 'slow'}), 2: (fast, {'submeter_of': 1})}, [])},
                        {'slow': M.device(COLS, r, r, model='slow'), 'dev': M.device(COLS, 1, 1)})
        m1, m2 = ds.buildings[1].elec[1], ds.buildings[1].elec[2]
        ys = [sum(y[i * r:i * r + r]) / r for i in range(len(x))]
        if len(set(x)) < 2 or max(ys) - min(ys) < 1e-9:
            return 'constant'
        want = float(np.corrcoef(x, ys)[0, 1])
        chk.step(2)
        for a, b in ((m1, m2), (m2, m1)):
            got = a.correlation(b)
            require(abs(got - want) < 1e-9, 'correlation of {} and {}: {} instead of {}', x, y, got, want)
        chk.state(item)
        return round(want, 6)
    chk.case('rates', item, run)


def spectrum(chk, item):
    x, sp = item

    def run():
        m = MS.one_meter(S.frame([i * sp for i in range(len(x))], COLS, tz='UTC', values=[[v] for v in x], start=START), M.device(COLS, sp, sp))
        fig, ax = plt.subplots()
        try:
            chk.step()
            m.plot_spectrum(ax=ax)
            require(len(ax.lines) == 1, 'lines')
            n = len(x)
            fx, fy = ax.lines[0].get_data()
            want = [abs(sum(x[t] * np.exp(-2j * math.pi * t * f / n) for t in range(n))) / n for f in range(n // 2)]
            require(len(fy) == n // 2 and np.allclose(fy, want), 'spectrum {} instead of {}', list(fy), want)
            require(np.allclose(fx, [f / (n * sp) for f in range(n // 2)]), 'frequencies {}', list(fx))
        finally:
            plt.close(fig)
        chk.state(item)
        return tuple(round(float(w), 6) for w in want)
    chk.case('spectrum', item, run)


def run(chk):
    base = list(itertools.combinations(GOLOMB, NE))
    perms = list(itertools.permutations(range(NE)))
    scale = lambda d, p: tuple(round(1.37 * d[i] + .11, 6) for i in p)      # no distance occurs in both series
    chk.parallel('information', entropy, [(c, scale(d, p)) for n, c in enumerate(base) for d in ({base[n], base[-1 - n]} if THOROUGH else {base[-1 - n]}) for p in perms])
    chk.parallel('long series', long_series, [9999, 10001] + ([30001] if THOROUGH else []))
    chk.parallel('long pair', long_pair, [(10001, 3, 4)] + ([(9999, 2, 2), (20003, 1, math.e)] if THOROUGH else []))
    xs = list(itertools.product((0., 1., 2.), repeat=NC))
    ys = xs if THOROUGH else [(0.,) + y for y in itertools.product((0., 1.), repeat=NC - 1)]
    chk.parallel('correlation', correlation, [(x, y, g, s) for x in xs for y in ys if len(set(x)) > 1 and len(set(y)) > 1
                                              for g in ((1, 2, 3, 9) if THOROUGH else (2, 9)) for s in range(len(SECS))])
    chk.parallel('rates', rates, [(x, y, r) for r in (2, 3) for x in itertools.product((0., 1.), repeat=3) for y in itertools.product((0., 3.), repeat=3 * r)
                                  if len(set(x)) > 1 and (r == 2 or THOROUGH or x[0] == 0 and y[:2] == (0., 3.))])
    chk.parallel('spectrum', spectrum, [(x, sp) for n in range(2, 7 if THOROUGH else 6) for x in itertools.product((0., 1., 2.), repeat=n)
                                        for sp in (1, 3)])
