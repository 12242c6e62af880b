"""S01: good sections are exactly the maximal runs of readings without a gap longer than allowed."""
import itertools
import pandas as pd
from nilmtk import TimeFrame
from nilmtk.stats import GoodSections
from lib.core import THOROUGH, Violation, require
from lib import stores as S, meters as M
from lib.source import Source, chunked

N = 9 if THOROUGH else 8                    # time slots
NN = 7 if THOROUGH else 6                   # time slots when readings may be missing values
COLS = [('power', 'active'), ('voltage', '')]
UNITS = (1, 0.25, 50000)             # seconds per slot
SECS = [None, ((0, 7),), ((1, 4),), ((2, 5), (5, 8)), ((0, 3), (4, 8)), ((0, 2), (6, 8)), ((3, 4), (4, 6)),
        ((0, 3), (5, 6), (6, 8))]
WINS = [None, (1, 6), (2, None), (None, 5)] if THOROUGH else [None, (1, 6), (None, 5)]
SIZES = (1, 2, 3, 100) if THOROUGH else (1, 3, 100)
BOUNDS = ('pipeline: every set of readings on %d slots x allowed gap 1..3 x slots of 1, 0.25 and 50000 s x every chunk size; every value/missing/absent pattern of '
          '%d slots; meter: every set of 6 to 8 readings on 8 slots%s x %d section lists x %d windows x chunk sizes %s, each asked '
          'two or three times' % (N, NN, '' if THOROUGH else ' (first slot always present)', len(SECS), len(WINS), SIZES))
ASSUMPTIONS = ['chunks arrive as the stores deliver them (decided by D01/D03)', 'nilm_metadata is replaced by a stand-in']


def runs(stamps, msp):
    """Maximal runs of at least two readings with gaps of at most msp, as (first, last)."""
    out, cur = [], []
    for t in stamps:
        if cur and (t - cur[-1]).total_seconds() > msp:
            if len(cur) > 1:
                out.append((cur[0], cur[-1]))
            cur = []
        cur.append(t)
    if len(cur) > 1:
        out.append((cur[0], cur[-1]))
    return out


def seen(sections):
    return [(s.start, s.end) for s in sections]


def pipeline(chk, item):
    kinds, msp, unit = item               # per slot: 0 absent, 1 reading, 2 row with a missing value; seconds per slot
    msp *= unit
    offs = [i for i, k in enumerate(kinds) if k]
    if len(offs) < 2:
        return
    vals = [[1.0, float('nan') if kinds[o] == 2 else 230.] for o in offs]
    df = S.frame(offs, COLS, tz='UTC', values=vals, step=unit)
    want = runs([t for t, o in zip(df.index, offs) if kinds[o] == 1], msp)
    for size in range(1, len(offs)):
        def run():
            node = GoodSections(Source(chunked(df, size), {'device': {'max_sample_period': msp, 'sample_period': 1}}))
            passed = [c for c in node.process()]
            chk.step(len(passed))
            got = node.results.simple()
            require(seen(got) == want, 'good sections {} instead of {} (chunks of {})', seen(got), want, size)
            require(seen(node.results.simple()) == want, 'asking again gives {} instead of {}', seen(node.results.simple()), want)
            up = got.uptime()
            require(up == sum((b - a for a, b in want), pd.Timedelta(0)), 'uptime {}', up)
            chk.state((item, size))
            return seen(got)
        chk.case('pipeline', (item, size), run)


def bounds_of(stamps, msp, secs, window):
    """(must, may): pairs of consecutive readings no further apart than allowed, clipped to each section and window;
    a section that starts between two such readings may or may not count the part before its first reading."""
    must, may = [], []
    for s, e, inc in secs:
        if window is not None:
            ws, we = window
            s = s if ws is None else max(s, ws)
            e = e if we is None else min(e, we)
            if s >= e:
                continue
        for a, b in zip(stamps, stamps[1:]):
            if (b - a).total_seconds() <= msp:
                if a >= s and a < e:
                    must.append((a, min(b, e)))
                elif a < s < b:
                    may.append((s, min(b, e)))
    return must, may


HALF = pd.Timedelta(seconds=0.5)


def probes(pairs):
    out = set()
    for a, b in pairs:
        t = a
        while t < b:
            out.add(t)
            t += HALF
    return out


def meter(chk, item):
    offs, secs = item
    cols = COLS[:1]
    df = S.frame(offs, cols, tz='UTC')
    ts = S.times(range(12), 'UTC')
    for win, size, msp in itertools.product(WINS, SIZES, (1, 2)):
        def run():
            with M.one_meter(chk, df, M.device(cols, 1, msp)) as ds:
                if win is not None:
                    ds.store.window = TimeFrame(*[None if w is None else ts[w] for w in win])
                m = ds.buildings[1].elec[1]
                kw = {'chunksize': size}
                w = None if win is None else tuple(None if x is None else ts[x] for x in win)
                if secs is None:
                    must, may = bounds_of(list(df.index), msp, [(df.index[0], df.index[-1], True)], w)
                else:
                    kw['sections'] = [TimeFrame(ts[a], ts[b]) for a, b in secs]
                    must, may = bounds_of(list(df.index), msp, [(ts[a], ts[b], False) for a, b in secs], w)
                must, may = probes(must), probes(may)
                for again in range(3 if size == 1 else 2):
                    chk.step()
                    if again == 2:
                        kw['chunksize'] = 100
                    got = seen(m.good_sections(**dict(kw)))
                    require(all(a < b for a, b in got) and all(x[1] <= y[0] for x, y in zip(got, got[1:])), 'malformed {}', got)
                    p = probes(got)
                    require(must <= p <= must | may, 'good sections {} (request {}): missing {}, wrongly good {}', got, again + 1,
                            sorted(must - p), sorted(p - must - may))
                    if secs is None and win is None:
                        require(got == runs(list(df.index), msp), 'good sections {}', got)
                chk.state((item, win, size, msp))
                return got
        chk.case('meter', (item, win, size, msp), run)


def run(chk):
    chk.parallel('pipeline', pipeline, [(k, m, u) for u in UNITS for k in itertools.product((0, 1), repeat=N) for m in (1, 2, 3)
                                        if THOROUGH or u == 1 or sum(k) % 2]
                 + [(k, m, 1) for k in itertools.product((0, 1, 2), repeat=NN) if 2 in k for m in (1, 2)])
    subsets = [c for n in (6, 7, 8) for c in itertools.combinations(range(8), n) if THOROUGH or 0 in c]
    chk.parallel('meter', meter, [(o, s) for o in subsets for s in SECS])
