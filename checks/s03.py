"""S03: the dropout rate is the share of expected readings that are missing, weighted over periods."""
import itertools
import math
import pandas as pd
from nilmtk import TimeFrame
from nilmtk.stats import DropoutRate
from nilmtk.stats.dropoutrate import get_dropout_rate
from lib.core import THOROUGH, Violation, require, feq
from lib import stores as S, meters as M
from lib.source import Source, chunked

N = 12 if THOROUGH else 10
COLS = [('power', 'active')]
SECS = [None, ((0, 9),), ((0, 6), (6, 12)), ((1, 7), (7, 10)), ((0, 5), (5, 12))]
BOUNDS = ('every set of readings on %d slots x sample periods 0.5,1,2,3 (and 1.7,2,4 with the slots 3 s apart; and in slots of 0.25 s and 50000 s), as one period and in chunks of 4..6; meter: every set of at least 9 '
          'readings on 11 slots x %d section lists, gaps ignored or not' % (N, len(SECS)))
ASSUMPTIONS = ['periods with fewer than five readings count as unknown', 'nilm_metadata is replaced by a stand-in']


def rate(offs, period):
    if len(offs) < 5:
        return None
    return max(0.0, 1 - len(offs) / (round((offs[-1] - offs[0]) / period) + 1))


def weighted(parts, period):
    tot = sum(len(p) for p in parts)
    if tot == 0:
        return None
    return sum((rate(p, period) or 0.0) * len(p) / tot for p in parts)


def single(chk, item):
    offs, period, unit = item

    def run():
        df = S.frame(offs, COLS, tz='UTC', step=unit)
        chk.step(2)
        got = get_dropout_rate(df, period * unit)
        want = rate(offs, period)
        require((want is None and got != got) or (want is not None and feq(got, want)), 'dropout rate {} instead of {}', got, want)
        if want is not None:
            require(0 <= got <= 1, 'out of range {}', got)
            g2 = get_dropout_rate(df[COLS[0]], period * unit)
            require(feq(g2, want), 'of a series: {} instead of {}', g2, want)
        chk.state(item)
        return got
    chk.case('single', item, run)


def chunks(chk, item):
    offs, period, size = item

    def run():
        df = S.frame(offs, COLS, tz='UTC')
        cs = chunked(df, size)
        parts = [[int((t - S.times([0], 'UTC')[0]).total_seconds()) for t in c.index] for c in cs]
        node = DropoutRate(Source(cs, {'device': M.device(COLS, period, period)}))
        node.run()
        chk.step(len(cs))
        got, want = node.results.simple(), weighted(parts, period)
        require(feq(got, want), 'dropout rate {} instead of {}', got, want)
        require(0 <= got <= 1, 'out of range {}', got)
        per = node.results.per_period()
        require(list(per['n_samples']) == [len(p) for p in parts], 'samples {}', list(per['n_samples']))
        chk.state(item)
        return got
    chk.case('chunks', item, run)


def runs(offs, msp):
    out, cur = [], []
    for t in offs:
        if cur and t - cur[-1] > msp:
            out.append(cur)
            cur = []
        cur.append(t)
    return [r for r in out + [cur] if len(r) > 1]


def meter(chk, item):
    offs, secs, msp = item

    def run():
        df = S.frame(offs, COLS, tz='UTC')
        ts = S.times(range(14), 'UTC')
        with M.one_meter(chk, df, M.device(COLS, 1, msp)) as ds:
            m = ds.buildings[1].elec[1]
            kw = {} if secs is None else {'sections': [TimeFrame(ts[a], ts[b]) for a, b in secs]}
            parts = [[o for o in offs if a <= o < b] for a, b in (secs or [(0, 99)])]
            parts = [p for p in parts if p]
            want = weighted(parts, 1)
            for _ in range(2):
                chk.step()
                got = m.dropout_rate(ignore_gaps=False, **dict(kw))
                require(feq(got, want), 'dropout rate {} instead of {}', got, want)
            if secs is None:
                # each good section: readings up to but excluding its end, except for the last one
                rs = runs(offs, msp)
                parts = [[o for o in offs if r[0] <= o <= r[-1]] if i == len(rs) - 1 else r[:-1] for i, r in enumerate(rs)]
                want = weighted(parts, 1)
                for kw in ({'ignore_gaps': True}, {}):          # gaps are ignored unless asked otherwise
                    chk.step()
                    got = m.dropout_rate(**kw)
                    require(feq(got, want), 'dropout rate without gaps {} instead of {}', got, want)
                require(0 <= got <= 1, 'out of range')
        chk.state(item)
        return want
    chk.case('meter', item, run)


def run(chk):
    subsets = [c for n in range(1, N + 1) for c in itertools.combinations(range(N), n)]
    chk.parallel('single', single, [(c, p, u) for c in subsets for p in (0.5, 1, 2, 3) for u in (1, 0.25, 50000) if u == 1 or len(c) > 4] +
                 [(tuple(3 * o for o in c), p, 1) for c in subsets if len(c) >= 5 for p in (1.7, 2, 4)])
    chk.parallel('chunks', chunks, [(c, p, k) for c in subsets if len(c) >= N - 4 for p in (1, 2) for k in (4, 5, 6)])
    subs = [c for n in (8, 9, 10, 11) for c in itertools.combinations(range(11), n)]
    chk.parallel('meter', meter, [(c, s, m) for c in subs for s in SECS for m in (1, 2)
                                  if THOROUGH or len(c) >= 9])
