"""T03: identity, order, copies and the dict form of time frames."""
import copy
import itertools
import pickle
import pandas as pd
from nilmtk.timeframe import (TimeFrame, list_of_timeframe_dicts, list_of_timeframes_from_list_of_dicts,
                              timeframe_from_dict, convert_none_to_nat, convert_nat_to_none)
from lib.core import THOROUGH, require
from lib import tf as M

N = 7 if THOROUGH else 5
TZS = [None, 'UTC', 'Europe/London', 'US/Eastern', 'Asia/Kolkata']
STEPS = ['1s', '1h', '1d', '1ms', '1ns']
BOUNDS = ('all frames over %d instants x %d zones x %d resolutions: dict round trip, copies; all pairs: equality, hash, '
          'order; all triples over 3 instants: transitivity' % (N, len(TZS), len(STEPS)))


def roundtrip(chk, item):
    tz, step, a = item
    ts = M.grid(N, tz, step)

    def run():
        tf = M.build(a, ts)
        chk.step(6)
        d = tf.to_dict()
        require(set(d) == {k for k, v in (('start', tf.start), ('end', tf.end)) if v is not None}, 'keys {}', d)
        for v in d.values():
            require(isinstance(v, str), 'dict holds {}', type(v))
        for back in (TimeFrame.from_dict(d), timeframe_from_dict(d),
                     list_of_timeframes_from_list_of_dicts(list_of_timeframe_dicts([tf]))[0]):
            require(back.start == tf.start and back.end == tf.end, 'round trip gave {}', back)
            require(tz is None or all(x is None or x.tzinfo is not None for x in (back.start, back.end)), 'zone lost')
        for c in (TimeFrame(tf), copy.deepcopy(tf), pickle.loads(pickle.dumps(tf))):
            require(c == tf and hash(c) == hash(tf) and M.snap(c) == M.snap(tf), 'copy differs')
            c.enabled = False
            c.start = None
            c.end = None
            require(M.snap(tf) == M.snap(M.build(a, ts)), 'copy is not independent')
        return str(d)
    chk.case('round trip', item, run)

    def localize():
        # naive bounds + tz= : same wall clock, in that zone
        s, e, _, _ = a
        chk.step()
        naive = M.grid(N, None, step, base='2013-05-01 12:00:00')
        tf = TimeFrame(None if s is None else str(naive[s]), None if e is None else naive[e], tz=tz)
        for got, i in ((tf.start, s), (tf.end, e)):
            want = None if i is None else naive[i].tz_localize(tz) if tz else naive[i]
            require(got == want, 'bound {} instead of {}', got, want)
        require(not tf.empty and tf.enabled and not tf.include_end, 'flags')
        return M.snap(tf)
    if a != 'EMPTY':
        chk.case('tz argument', item, localize)


def rank(a):
    return -1 if a == 'EMPTY' or a[0] is None else a[0]


def key(a):
    return 'EMPTY' if a == 'EMPTY' else (a[0], a[1])


def pairs(chk, item):
    tz, a = item
    ts = M.grid(N, tz)
    for b in M.specs(N):
        def run():
            fa, fb = M.build(a, ts), M.build(b, ts)
            chk.step(6)
            same = key(a) == key(b)
            require((fa == fb) == same and (fa != fb) == (not same), 'equality is {}', fa == fb)
            if same:
                require(hash(fa) == hash(fb), 'equal frames hash differently')
                require(len({fa, fb}) == 1 and fa in [fb], 'set/list membership')
            ra, rb = rank(a), rank(b)
            require((fa < fb) == (ra < rb), '< is {} for starts {} {}', fa < fb, fa.start, fb.start)
            require((fb < fa) == (rb < ra), 'converse')
            chk.state((tz, key(a), key(b)))
            return (same, ra < rb)
        chk.case('order', (tz, a, b), run)


def sorting(chk, item):
    tz, perm = item
    ts = M.grid(4, tz)

    def run():
        chk.step()
        got = sorted(M.build(a, ts) for a in perm)
        require([(-1 if f.start is None else ts.index(f.start)) for f in got] == sorted(rank(a) for a in perm),
                'sorted to {}', got)
        return str(got)
    chk.case('sorting', item, run)


def nat(chk, _):
    def run():
        t = pd.Timestamp('2013')
        require(convert_none_to_nat(None) is pd.NaT and convert_none_to_nat(t) is t, 'none to nat')
        require(convert_nat_to_none(pd.NaT) is None and convert_nat_to_none(t) is t, 'nat to none')
        return 1
    chk.case('nat', 0, run)


def run(chk):
    chk.parallel('round trip', roundtrip, [(tz, st, a) for tz in TZS for st in STEPS for a in M.specs(N)])
    chk.parallel('order', pairs, [(tz, a) for tz in TZS for a in M.specs(N)])
    sp = M.specs(3, include_end=(False,), empty=False)
    chk.parallel('sorting', sorting, [(tz, p) for tz in (None, 'UTC') for p in itertools.product(sp, repeat=3)])
    chk.serial('nat', nat, [0])
