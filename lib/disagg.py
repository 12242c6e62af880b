"""Helpers for the disaggregation checks: small frames of power, as the experiment API hands them to a model."""
import numpy as np
import pandas as pd

COLS = pd.MultiIndex.from_tuples([('power', 'active')], names=['physical_quantity', 'type'])
START = pd.Timestamp('2013-05-01 12:00:00', tz='Europe/London')


def power(values, start=0, step=6, ac='active'):
    """One column of power, one row per value; start in rows from START."""
    ix = pd.DatetimeIndex([START + pd.Timedelta(seconds=step * (start + i)) for i in range(len(values))])
    if not len(values):
        ix = pd.DatetimeIndex([], tz=START.tz)
    cols = pd.MultiIndex.from_tuples([('power', ac)], names=COLS.names)
    return pd.DataFrame(np.array(values, dtype=float).reshape(-1, 1), index=ix, columns=cols)


def pieces(values, cuts):
    """values cut before each position of cuts, as consecutive frames."""
    out, lo = [], 0
    for c in list(cuts) + [len(values)]:
        out.append(power(values[lo:c], start=lo))
        lo = c
    return out
