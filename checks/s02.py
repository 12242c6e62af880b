"""S02: total energy equals the integral of the clipped readings, however they are chunked and cut into sections."""
import itertools
import math
import pandas as pd
from nilmtk import TimeFrame
from nilmtk.stats import TotalEnergy
from nilmtk.preprocessing import Clip
from lib.core import THOROUGH, Violation, require, feq
from lib import stores as S, meters as M
from lib.source import Source, chunked

A, R, P = 'active', 'reactive', 'apparent'
COLSETS = [(('power', A),), (('power', A), ('power', P)), (('cumulative energy', A), ('power', A)), (('energy', A), ('power', A)),
           (('energy', R), ('power', P)), (('cumulative energy', P), ('energy', P), ('power', R), ('voltage', '')),
           (('voltage', ''),), (('power', R), ('energy', R), ('power', A))]
N = 8 if THOROUGH else 6
NAN = float('nan')
SECS = [None, ((0, 5),), ((1, 4),), ((0, 3), (3, 7)), ((0, 2), (4, 7)), ((1, 2), (2, 3), (5, 8)), ((6, 8),)]
WINS = [None, (1, 6)]
BOUNDS = ('pipeline: every set of at least 2 readings on %d slots x 8 column sets x longest counted gap 1,2,3 x every chunk size, each '
          'without clipping limits, with both and with one; slots of 1, 0.25 and 50000 s; every value/missing pattern of 4 and 5 readings; meter: every set of at least 5 readings on 7 '
          'slots x %d section lists x %d windows x chunk sizes 1,2,100' % (N, len(SECS), len(WINS)))
ASSUMPTIONS = ['chunks arrive as the stores deliver them (decided by D01/D03)', 'nilm_metadata is replaced by a stand-in',
               'tables with missing values are presented in one chunk']
KWH = 3600 * 1000.


def value(col, o):
    pq, ty = col
    base = {A: 1.0, R: 2.0, P: 3.0, '': 4.0}[ty]
    if pq == 'power':
        return (100 * ((o * 7 + int(base)) % 5) + 10 * o + base - 150)
    if pq == 'energy':
        return 0.01 * (o + 1) * base
    if pq == 'cumulative energy':
        return 0.5 * o * o + base
    return 230 + o


def clip(v, lim):
    if lim is None or v != v:
        return v
    lo, hi = lim
    v = v if lo is None else max(v, lo)
    return v if hi is None else min(v, hi)


def oracle(rows, cols, msp, lim):
    """rows: [(seconds, {col: value})] of one section in order.  kWh per AC type."""
    out = {}
    for ty in (A, R, P):
        have = [pq for pq in ('cumulative energy', 'energy', 'power') if (pq, ty) in cols]
        if not have:
            continue
        s = [(t, clip(v[(have[0], ty)], lim)) for t, v in rows]
        if have[0] == 'power':
            s = [(t, p) for t, p in s if p == p]
            out[ty] = sum(min(t2 - t1, msp) * p for (t1, p), (t2, _) in zip(s, s[1:])) / KWH
        elif have[0] == 'energy':
            out[ty] = math.fsum(p for _, p in s if p == p)
        else:
            out[ty] = s[-1][1] - s[0][1] if s else 0.0
    return out


def same(got, want):
    got = {k: v for k, v in dict(got).items() if not (k not in want and (v != v or v == 0))}
    return set(got) <= set(want) and all(feq(got.get(k, 0.0), want[k], 1e-9) for k in want)   # no data at all: no entry


LIMS = [None, (0, 200), (None, 150), (20, None)]
UNITS = (1, 0.25, 50000)                   # seconds per slot


def pipeline(chk, item):
    offs, cols, msp, unit = item
    for lim in LIMS if unit == 1 else LIMS[:1]:
        dev = M.device(cols, unit, msp * unit, lim)
        df = S.frame(offs, cols, tz='UTC', values=[[value(c, o) for c in cols] for o in offs], step=unit)
        want = oracle([(o * unit, {c: value(c, o) for c in cols}) for o in offs], cols, msp * unit, lim)
        for size in range(1, len(offs)):
            def run():
                clipper = Clip(Source(chunked(df, size), {'device': dev}))
                node = TotalEnergy(clipper)
                n = 0
                for c in node.process():
                    n += 1
                    if lim is not None:
                        v = c.to_numpy()
                        require((lim[0] is None or (v >= lim[0]).all()) and (lim[1] is None or (v <= lim[1]).all()), 'not clipped {}', v)
                chk.step(n)
                got = node.results.simple()
                require(same(got, want), 'total energy {} instead of {} (chunks of {})', dict(got), want, size)
                chk.state((item, lim, size))
                return sorted(want.items())
            chk.case('pipeline', (item, lim, size), run)


def missing(chk, item):
    pattern, gaps, msp = item
    cols = (('power', A), ('energy', R))
    offs = [0]
    for g in gaps:
        offs.append(offs[-1] + g)

    def run():
        rows = [(o, {cols[0]: NAN if k in (1, 3) else 100. + o, cols[1]: NAN if k in (2, 3) else 0.5 + o}) for o, k in zip(offs, pattern)]
        df = S.frame(offs, cols, tz='UTC', values=[[r[c] for c in cols] for _, r in rows])
        node = TotalEnergy(Clip(Source(chunked(df, 100), {'device': M.device(cols, 1, msp, (0, 1000))})))
        node.run()
        chk.step()
        want = oracle(rows, cols, msp, None)
        require(same(node.results.simple(), want), 'total energy {} instead of {}', dict(node.results.simple()), want)
        chk.state(item)
        return want
    chk.case('missing', item, run)


def meter(chk, item):
    offs, cols, secs = item
    df = S.frame(offs, cols, tz='UTC', values=[[value(c, o) for c in cols] for o in offs])
    ts = S.times(range(12), 'UTC')
    for win, size, msp in itertools.product(WINS, (1, 2, 100), (1, 2)):
        lim = (0, 250) if msp == 1 else None
        if not THOROUGH and msp != 1 + (len(offs) + len(secs or ()) + size) % 2:
            continue

        def run():
            with M.one_meter(chk, df, M.device(cols, 1, msp, lim)) as ds:
                if win is not None:
                    ds.store.window = TimeFrame(*[None if w is None else ts[w] for w in win])
                m = ds.buildings[1].elec[1]
                kw = {'chunksize': size}
                if secs is not None:
                    kw['sections'] = [TimeFrame(ts[a], ts[b]) for a, b in secs]
                chk.step()
                got = m.total_energy(**dict(kw))
                want = {}
                for a, b in (secs or [(offs[0], offs[-1] + 1)]):
                    if win is not None:
                        a, b = max(a, win[0]), min(b, win[1])
                    o = oracle([(x, {c: value(c, x) for c in cols}) for x in offs if a <= x < b], cols, msp, lim)
                    for k, v in o.items():
                        want[k] = want.get(k, 0.0) + v
                require(same(got, want), 'total energy {} instead of {}', dict(got), want)
                again = m.total_energy(**dict(kw))
                require(same(again, want), 'asking again: total energy {} instead of {}', dict(again), want)
                chk.state((item, win, size, msp))
                return sorted(want.items())
        chk.case('meter', (item, win, size, msp), run)


def run(chk):
    subsets = [c for n in range(2, N + 1) for c in itertools.combinations(range(N), n)]
    chk.parallel('pipeline', pipeline, [(o, c, m, u) for i, o in enumerate(subsets) for j, c in enumerate(COLSETS) for m in (1, 2, 3) for u in UNITS
                                        if THOROUGH or (i + j) % 2 == m % 2])
    chk.parallel('missing', missing, [(p, g, m) for n in (4, 5) for p in itertools.product(range(4), repeat=n)
                                      for g in ([(1,) * (n - 1), (2, 1, 3, 1)[:n - 1]]) for m in (1, 2)])
    subs = [c for n in (5, 6, 7) for c in itertools.combinations(range(7), n) if THOROUGH or 0 in c]
    cs = COLSETS if THOROUGH else [COLSETS[i] for i in (0, 2, 4)]
    chk.parallel('meter', meter, [(o, c, s) for i, o in enumerate(subs) for j, c in enumerate(cs) for k, s in enumerate(SECS)])
