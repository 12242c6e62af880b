"""T01: a time frame denotes a set of instants; intersection is set intersection."""
import itertools
from datetime import datetime, timedelta
import pandas as pd
from nilmtk.timeframe import TimeFrame
from lib.core import THOROUGH, Violation, require
from lib import tf as M

N = 8 if THOROUGH else 6
NT = 6 if THOROUGH else 4
TZS = [None, 'UTC', 'Europe/London', 'US/Eastern']
BOUNDS = ('all frames over %d grid instants (open/closed/unbounded ends, inclusive end, disabled, empty) x 4 time '
          'zones: all pairs, all triples over %d instants (associativity), all setter histories to depth %d'
          % (N, NT, 5 if THOROUGH else 4))
ASSUMPTIONS = ['an intersection of exactly one instant (closed end touching a start) counts as empty',
               'bounds are not assigned while a frame is disabled']


def pair(chk, item):
    tz, a = item
    ts = M.grid(N, tz)
    pr = M.probes(ts)
    frame = pd.DataFrame({'x': range(len(pr))}, index=pd.DatetimeIndex(pr))
    en = (True, False)
    for b in M.specs(N, enabled=en):
        def run():
            fa, fb = M.build(a, ts), M.build(b, ts)
            ma, mb = M.members(a, ts, pr), M.members(b, ts, pr)
            before = M.snap(fa), M.snap(fb)
            want = ma & mb
            chk.step(4)
            r1, r2 = fa.intersection(fb), fb.intersection(fa)
            if len(want) == 1:
                want = frozenset()
            for r in (r1, r2):
                got = M.observed_members(r, pr)
                require(got == want, 'intersection contains probes {} instead of {}', sorted(got), sorted(want))
                require(r.empty == (not want), 'empty is {} but the intersection has {} probes', r.empty, len(want))
            require(r1 == r2 and hash(r1) == hash(r2), 'intersection depends on the order')
            require((M.snap(fa), M.snap(fb)) == before, 'an operand was changed')
            # slice() hands out exactly the rows at contained instants
            got = list(r1.slice(frame)['x'])
            require(got == sorted(want), 'slice returned rows {} not {}', got, sorted(want))
            # overlap check agrees
            for x, y in ((fa, fb), (fb, fa)):
                try:
                    x.check_for_overlap(y)
                    raised = False
                except ValueError:
                    raised = True
                require(raised == bool(want), 'overlap check raised={} for overlap {}', raised, sorted(want))
            # length
            td = r1.timedelta
            if not want:
                require(td == timedelta(0), 'empty frame has length {}', td)
            elif r1.start is not None and r1.end is not None:
                require(td == r1.end - r1.start, 'length')
            else:
                require(td is None, 'unbounded frame has length {}', td)
            r1.start = None
            r1.end = None
            require((M.snap(fa), M.snap(fb)) == before, 'result shares state with an operand')
            chk.state((tz, M.snap(r2)))
            return M.snap(r2)
        chk.case('pairs', (tz, a, b), run)

    def single():
        fa = M.build(a, ts)
        r = fa.intersection(None)
        require(r == fa and r is not fa, 'intersection with None is not an equal copy')
        want = M.members(a, ts, pr)
        got = list(fa.slice(frame)['x'])
        require(got == sorted(want), 'slice returned rows {} not {}', got, sorted(want))
        got = list(fa.slice(frame['x']))
        require(got == sorted(want), 'slice of a series returned {} not {}', got, sorted(want))
        return got
    chk.case('slice', (tz, a), single)


def triple(chk, a):
    ts = M.grid(NT)
    pr = M.probes(ts)
    sp = M.specs(NT)
    for b, c in itertools.product(sp, sp):
        def run():
            fa, fb, fc = (M.build(x, ts) for x in (a, b, c))
            chk.step(4)
            l, r = fa.intersection(fb).intersection(fc), fa.intersection(fb.intersection(fc))
            want = M.members(a, ts, pr) & M.members(b, ts, pr) & M.members(c, ts, pr)
            if len(want) == 1:
                want = frozenset()
            for f in (l, r):
                got = M.observed_members(f, pr)
                require(got == want, 'got {} want {}', sorted(got), sorted(want))
            return sorted(want)
        chk.case('triples', (a, b, c), run)


def setters(chk, item):
    """Explicit-state search over the real setters: start < end is an invariant and a
    refused assignment changes nothing."""
    tz, depth = item
    ts = M.grid(3, tz)
    vals = [None, pd.NaT] + ts
    if tz is None:
        vals += [str(ts[1]), ts[2].to_pydatetime()]
    ops = [(w, v) for w in ('start', 'end') for v in range(len(vals))] + \
          [('clear', 0), ('copy', 0), ('toggle', 0)]

    def model(state, op):
        s, e, en = state
        w, v = op
        if w == 'clear':
            return (None, None, True), False
        if w == 'copy':
            return state, False
        if w == 'toggle':
            return (s, e, not en), False
        x = vals[v]
        x = None if x is None or x is pd.NaT else pd.Timestamp(x)
        ns, ne = (x, e) if w == 'start' else (s, x)
        if ns is not None and ne is not None and ns >= ne:
            return state, True
        return (ns, ne, en), False

    def apply(tf, op):
        w, v = op
        if w == 'clear':
            tf.clear()
        elif w == 'copy':
            return TimeFrame(tf)
        elif w == 'toggle':
            tf.enabled = not tf.enabled
        else:
            setattr(tf, w, vals[v])
        return tf

    init = (None, None, True)
    seen = {init}
    front = [((), init)]
    for d in range(depth):
        nxt = []
        for hist, st in front:
            for op in ops:
                if not st[2] and op[0] in ('start', 'end'):
                    continue

                def run():
                    tf = TimeFrame()
                    for o in hist:
                        try:
                            tf = apply(tf, o)
                        except ValueError:
                            pass
                    chk.step()
                    ns, refused = model(st, op)
                    try:
                        tf = apply(tf, op)
                        raised = False
                    except ValueError:
                        raised = True
                    require(raised == refused, 'refused={} expected {}', raised, refused)
                    s, e, en = ns
                    got = (tf.start, tf.end, tf.enabled)
                    want = (s, e, en) if en else (None, None, en)
                    require(got == want, 'frame is {} expected {}', got, want)
                    if tf.start is not None and tf.end is not None:
                        require(tf.start < tf.end, 'start is not before end')
                    return str(got)
                if not chk.case('setters', (tz, hist + (op,)), run):
                    continue
                ns, refused = model(st, op)
                chk.state(('setters', tz, str(ns)))
                # histories that ended in a refusal are explored further too
                if ns not in seen or refused:
                    if ns not in seen or d < 2:
                        nxt.append((hist + (op,), ns))
                    seen.add(ns)
        front = nxt


def run(chk):
    chk.parallel('pairs+slice', pair, [(tz, a) for tz in TZS for a in M.specs(N, enabled=(True, False))])
    chk.parallel('triples', triple, M.specs(NT))
    chk.parallel('setters', setters, [(tz, 5 if THOROUGH else 4) for tz in TZS])
