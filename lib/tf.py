"""Reference model of time frames: a frame is the set of instants it contains.

Frames are written as specs (start, end, include_end, enabled) over a small grid of
instants; start/end None = unbounded; the spec 'EMPTY' is the empty frame.
"""
import pandas as pd
from nilmtk.timeframe import TimeFrame

BASE = '2013-03-31 00:59:58'   # one second grid which straddles a DST change in London


def unit(tz):
    """Seconds between the instants of grid(n, tz): zones may be written 'zone@seconds'."""
    return float(tz.split('@')[1]) if tz and '@' in tz else 1


def grid(n, tz=None, step='1s', base=BASE):
    if tz and '@' in tz:
        tz, step = tz.split('@')
        step = pd.Timedelta(float(step), 's')
    ix = pd.date_range(base, periods=n, freq=step, tz='UTC')
    return list(ix.tz_convert(tz) if tz else ix.tz_localize(None))


def probes(ts):
    """The grid instants, two instants inside every gap, two before and two after: a set of
    exactly one probe is then a single instant, never an interval."""
    d = (ts[1] - ts[0]) / 4
    out = [ts[0] - 2 * d, ts[0] - d]
    for t in ts:
        out += [t, t + d, t + 2 * d]
    return out


def specs(n, include_end=(False, True), enabled=(True,), empty=True, bounded=False):
    out = []
    for s in [None] + list(range(n)):
        for e in [None] + list(range(n)):
            if bounded and (s is None or e is None):
                continue
            if s is not None and e is not None and s >= e:
                continue
            for i in include_end:
                if i and e is None:
                    continue
                for en in enabled:
                    out.append((s, e, i, en))
    if empty:
        out.append('EMPTY')
    return out


def build(spec, ts):
    if spec == 'EMPTY':
        return TimeFrame(ts[0], ts[1]).intersection(TimeFrame(ts[2], ts[3]))
    s, e, i, en = spec
    tf = TimeFrame(None if s is None else ts[s], None if e is None else ts[e])
    tf.include_end = i
    tf.enabled = en
    return tf


def members(spec, ts, pr):
    """Indices of the probes contained in the frame described by spec."""
    if spec == 'EMPTY':
        return frozenset()
    s, e, i, en = spec
    if not en:
        return frozenset(range(len(pr)))
    lo = None if s is None else ts[s]
    hi = None if e is None else ts[e]
    return frozenset(k for k, p in enumerate(pr)
                     if (lo is None or p >= lo) and (hi is None or p < hi or (i and p == hi)))


def observed_members(tf, pr):
    """The same, read off a real frame through its public attributes."""
    if tf.empty:
        return frozenset()
    lo, hi = tf.start, tf.end
    return frozenset(k for k, p in enumerate(pr)
                     if (lo is None or p >= lo) and (hi is None or p < hi or (tf.include_end and p == hi)))


def snap(tf):
    return (str(tf.start), str(tf.end), tf.empty, bool(tf.include_end), tf.enabled)
