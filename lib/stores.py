"""Building small meters' data and driving stores."""
import os
import shutil
import numpy as np
import pandas as pd
from nilmtk.datastore import HDFDataStore, CSVDataStore
from lib.core import require

LEVELS = ['physical_quantity', 'type']
START = pd.Timestamp('2013-05-01 12:00:00')


def times(offsets, tz=None, step=1.0, start=START):
    ix = pd.DatetimeIndex([start + pd.Timedelta(seconds=o * step) for o in offsets])
    return ix.tz_localize(tz) if tz else ix


def frame(offsets, cols=(('power', 'active'),), tz=None, values=None, step=1.0, named=True, start=START,
          dtype='float64'):
    """A meter's table: one row per offset; by default the value encodes row and column."""
    ix = times(offsets, tz, step, start)
    if values is None:
        values = [[10 * (o + 1) + j for j in range(len(cols))] for o in offsets]
    values = np.array(values, dtype=dtype).reshape(len(offsets), len(cols))
    c = pd.MultiIndex.from_tuples(list(cols), names=LEVELS if named else None)
    return pd.DataFrame(values, index=ix, columns=c)


def new_hdf(path, mode='w'):
    return HDFDataStore(path, mode)


_n = [0]


def fresh_path(chk, suffix):
    _n[0] += 1
    return os.path.join(chk.scratch, 'f%d%s' % (_n[0], suffix))


def drop(path):
    if os.path.isdir(path):
        shutil.rmtree(path)
    elif os.path.exists(path):
        os.remove(path)


def rows_of(df):
    """Rows as ((timestamp, v0, v1, ..)); NaN -> None."""
    return [(t,) + tuple(None if x != x else float(x) for x in r)
            for t, r in zip(df.index, df.to_numpy(dtype=float))]
