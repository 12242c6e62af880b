"""A source of chunks shaped exactly as the stores deliver them (that shape is itself decided by D01/D03)."""
import pandas as pd
from nilmtk import TimeFrame


class Source:
    """Upstream of a pipeline node: metadata plus the chunks of one table."""

    def __init__(self, chunks, metadata):
        self.chunks, self.metadata = chunks, metadata

    def get_metadata(self):
        return self.metadata

    def dry_run_metadata(self):
        return self.metadata

    def process(self):
        return iter(self.chunks)


def chunked(df, size, look_ahead=10, end=None, start=None):
    """Chunks of a table: `size` new rows each, the last row of a chunk repeated as first of the next;
    the frames of the chunks tile the section [start, end] with bounds at the shared rows."""
    n = len(df)
    out = []
    i = 0
    while True:
        j = min(i + size, n - 1)
        c = df.iloc[i:j + 1].copy()
        s = df.index[0] if start is None else start
        e = df.index[-1] if end is None else end
        c.timeframe = TimeFrame(s if i == 0 else df.index[i], e if j == n - 1 else df.index[j])
        c.look_ahead = df.iloc[j + 1:j + 1 + look_ahead]
        out.append(c)
        if j == n - 1:
            return out
        i = j
