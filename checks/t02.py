"""T02: splitting, joining and grouping time frames loses no time and invents none."""
import itertools
from datetime import timedelta
import pandas as pd
from nilmtk.timeframe import TimeFrame, merge_timeframes, split_timeframes
from nilmtk.timeframegroup import TimeFrameGroup
from lib.core import THOROUGH, Violation, require
from lib import tf as M

N = 7 if THOROUGH else 6
NG = 6 if THOROUGH else 5
TZS = [None, 'UTC', 'Europe/London', 'UTC@50000', 'Europe/London@0.25']
THRESH = [0.25, 0.5, 0.75, 1, 1.5, 2, 2.5, 3, 4, 5, 5.5, 6, 7, 100]
GAPS = [0, 0.5, 1, 1.5, 2, 3]
BOUNDS = ('split: all bounded frames over %d instants x %d thresholds x 3 zones (instants 1 s apart, 0.25 s and 50000 s); union: all ordered pairs incl. '
          'unbounded/empty; adjacency: all bounded pairs x %d gaps; merge: all sorted lists of up to %d disjoint frames '
          'over %d half-open cells x gaps; groups: all pairs of sorted disjoint groups over %d instants'
          % (N, len(THRESH), len(GAPS), 4, 8 if THOROUGH else 7, NG))
ASSUMPTIONS = ['merge and group inputs are sorted and their members do not overlap',
               'adjacency is only asked of bounded frames (documented limitation)']


def split(chk, item):
    tz, a = item
    ts, u = M.grid(N, tz), M.unit(tz)
    for d in THRESH:
        def run():
            tf = M.build(a, ts)
            before = M.snap(tf)
            chk.step()
            parts = list(tf.split(d * u))
            require(M.snap(tf) == before, 'the frame was changed by split')
            require(parts, 'no parts')
            require(parts[0].start == tf.start, 'first part starts at {}', parts[0].start)
            require(parts[-1].end == tf.end, 'last part ends at {}', parts[-1].end)
            for p, q in zip(parts, parts[1:]):
                require(p.end == q.start, 'gap or overlap between parts: {} {}', p, q)
                require(not p.include_end, 'two parts share an instant')
            for p in parts:
                require(not p.empty and p.timedelta.total_seconds() <= d * u, 'part {} longer than {}s', p, d)
            for p in parts[:-1]:
                require(p.timedelta.total_seconds() == d * u, 'part {} is needlessly short', p)
            require(bool(parts[-1].include_end) == bool(a[2]), 'the last instant was lost or invented')
            require(sum((p.timedelta for p in parts), timedelta(0)) == tf.timedelta, 'total length changed')
            chk.state(('split', len(parts), str(tf.timedelta), d))
            return [M.snap(p) for p in parts]
        chk.case('split', (tz, a, d), run)


def unbounded_split(chk, a):
    ts = M.grid(4)

    def run():
        tf = M.build(a, ts)
        chk.step()
        try:
            list(tf.split(1))
        except ValueError:
            return 'refused'
        raise Violation('splitting an unbounded frame did not raise ValueError')
    chk.case('unbounded split', a, run)


def splitmany(chk, item):
    ts = M.grid(N)
    cells, d = item
    tfs = [TimeFrame(ts[a], ts[b]) for a, b in cells]

    def run():
        chk.step()
        got = [M.snap(p) for p in split_timeframes(tfs, d)]
        want = [M.snap(p) for tf in tfs for p in tf.split(d)]
        require(got == want, 'split of a list differs from the splits of its members')
        return got
    chk.case('split list', item, run)


def union(chk, item):
    tz, a = item
    ts = M.grid(N, tz)
    pr = M.probes(ts)
    for b in M.specs(N):
        def run():
            fa, fb = M.build(a, ts), M.build(b, ts)
            before = M.snap(fa), M.snap(fb)
            ma, mb = M.members(a, ts, pr), M.members(b, ts, pr)
            both = ma | mb
            hull = frozenset(range(min(both), max(both) + 1)) if both else both
            chk.step(2)
            for u in (fa.union(fb), fb.union(fa)):
                got = M.observed_members(u, pr)
                require(got == hull, 'union covers {} instead of {}', sorted(got), sorted(hull))
                require(u.empty == (not hull), 'empty={}', u.empty)
            require((M.snap(fa), M.snap(fb)) == before, 'an operand was changed')
            chk.state(('union', tz, sorted(hull)))
            return sorted(hull)
        chk.case('union', (tz, a, b), run)


def adjacent(chk, item):
    tz, a = item
    ts, u = M.grid(N, tz), M.unit(tz)
    sp = M.specs(N, include_end=(False,), bounded=True)
    for b, g in itertools.product(sp, GAPS):
        def run():
            fa, fb = M.build(a, ts), M.build(b, ts)
            chk.step(2)
            if a == 'EMPTY' or b == 'EMPTY':
                want = False
            else:
                d1 = (fb.start - fa.end).total_seconds() / u
                d2 = (fa.start - fb.end).total_seconds() / u
                want = 0 <= d1 <= g or 0 <= d2 <= g
            got = bool(fa.adjacent(fb, g * u)), bool(fb.adjacent(fa, g * u))
            require(got == (want, want), 'adjacent(gap={}) is {} expected {}', g, got, want)
            if g == 0:
                require(bool(fa.adjacent(fb)) == want, 'default gap')
            return want
        chk.case('adjacent', (tz, a, b, g), run)


def merge(chk, item):
    cells, gaps, n, tz = item
    ts = M.grid(n, tz)

    def run():
        for g in gaps:
            tfs = [TimeFrame(ts[a], ts[b]) for a, b in cells]
            before = [M.snap(t) for t in tfs]
            arg = list(tfs)
            chk.step()
            got = merge_timeframes(arg, g * M.unit(tz)) if g else merge_timeframes(arg)
            want = []
            for a, b in cells:
                if want and a - want[-1][1] <= g:
                    want[-1] = (want[-1][0], b)
                else:
                    want.append((a, b))
            got = [(t.start, t.end) for t in got]
            require(got == [(ts[a], ts[b]) for a, b in want], 'gap {}: merged to {} instead of {}', g, got, want)
            require([M.snap(t) for t in tfs] == before, 'an input frame was changed')
            require(len(arg) == len(tfs) and all(x is y for x, y in zip(arg, tfs)), 'the input list was changed')
            chk.state(('merge', cells, g))
        return str(cells)
    chk.case('merge', item, run)


def disjoint_lists(n, kmax):
    """All sorted lists of up to kmax disjoint [a,b) cells over instants 0..n-1."""
    def rec(lo, k):
        yield ()
        if k == 0:
            return
        for a in range(lo, n):
            for b in range(a + 1, n):
                for rest in rec(b, k - 1):
                    yield ((a, b),) + rest
    return list(rec(0, kmax))


def group(chk, item):
    A, tz = item
    ts, u = M.grid(NG, tz), M.unit(tz)
    pr = M.probes(ts)
    for B in disjoint_lists(NG, 3):
        def run():
            ga = TimeFrameGroup([TimeFrame(ts[a], ts[b]) for a, b in A])
            gb = TimeFrameGroup([TimeFrame(ts[a], ts[b]) for a, b in B])
            before = [M.snap(t) for t in ga], [M.snap(t) for t in gb]
            chk.step(2)
            cover = lambda g: frozenset().union(*[M.observed_members(t, pr) for t in g])
            want = cover(ga) & cover(gb)
            for other in (gb, list(gb)):
                r = ga.intersection(other)
                require(isinstance(r, TimeFrameGroup), 'result is not a group')
                require(cover(r) == want, 'covers {} instead of {}', sorted(cover(r)), sorted(want))
                require(all(not t.empty for t in r), 'contains an empty frame')
                require(sum(len(M.observed_members(t, pr)) for t in r) == len(want), 'members overlap')
                require([t.start for t in r] == sorted(t.start for t in r), 'not in time order')
            require(r.uptime() == gb.intersection(ga).uptime(), 'uptime depends on order')
            require(([M.snap(t) for t in ga], [M.snap(t) for t in gb]) == before, 'an operand was changed')
            chk.state(('group', sorted(want)))
            return sorted(want)
        chk.case('group intersection', (tz, A, B), run)

    def solo():
        ga = TimeFrameGroup([TimeFrame(ts[a], ts[b]) for a, b in A])
        chk.step(4)
        up = ga.uptime()
        require(up == timedelta(seconds=sum(b - a for a, b in A) * u), 'uptime {}', up)
        for thr in (0, 0.5, 1, 1.5, 2, 3, 10):
            r = ga.remove_shorter_than(thr * u)
            want = [(ts[a], ts[b]) for a, b in A if b - a >= thr]
            require(isinstance(r, TimeFrameGroup) and [(t.start, t.end) for t in r] == want,
                    'threshold {} kept {}', thr, list(r))
        require(len(ga) == len(A), 'group changed')
        require(TimeFrameGroup() == [] and TimeFrameGroup([]) == [] and list(TimeFrameGroup(ga)) == list(ga), 'ctor')
        return str(up)
    chk.case('group uptime', (tz, A), solo)


def periods(chk, item):
    freq, n, first = item

    def run():
        chk.step()
        ix = pd.period_range(first, periods=n, freq=freq)
        g = TimeFrameGroup(ix)
        require(len(g) == n, '{} frames for {} periods', len(g), n)
        for p, t in zip(ix, g):
            require(t.start == p.start_time, 'start')
            require(pd.Timedelta(0) <= (p + 1).start_time - t.end <= pd.Timedelta('1ns'), 'end {}', t.end)
        return str(g)
    chk.case('periods', item, run)


def run(chk):
    chk.parallel('split', split, [(tz, a) for tz in TZS for a in M.specs(N, bounded=True, empty=False)])
    chk.parallel('unbounded split', unbounded_split,
                 [a for a in M.specs(3, empty=False) if a[0] is None or a[1] is None])
    chk.parallel('split list', splitmany, [(c, d) for c in disjoint_lists(5, 2) for d in (0.5, 1, 1.5, 3)])
    chk.parallel('union', union, [(tz, a) for tz in TZS for a in M.specs(N)])
    chk.parallel('adjacent', adjacent, [(tz, a) for tz in TZS for a in M.specs(N, include_end=(False,), bounded=True)])
    n = 8 if THOROUGH else 7
    chk.parallel('merge', merge, [(c, GAPS, n, tz) for c in disjoint_lists(n, 4) for tz in TZS])
    chk.parallel('group', group, [(c, tz) for c in disjoint_lists(NG, 3) for tz in TZS])
    chk.parallel('periods', periods, [(f, n, s) for f in ('D', 'h', 'M', 'W') for n in (0, 1, 2, 3)
                                      for s in ('2012-02-28', '2013-12-31')])
