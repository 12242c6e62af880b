"""A04: Hart's algorithm finds steady states and edges, pairs on and off edges, and predicts levels between them."""
import itertools
import os
import numpy as np
import pandas as pd
from nilmtk.disaggregate import Hart85
from nilmtk.disaggregate.hart_85 import PairBuffer
from nilmtk.feature_detectors.steady_states import find_steady_states
from lib.core import THOROUGH, feq, require
from lib.disagg import power, START

LEN = 7 if THOROUGH else 6
LEVELS = [0., 10., 60., 120., 1200.]
PAL2 = [(0., 0.), (10., 100.), (100., 10.), (100., 100.)]
EDGES = [200., -200., 150., -290., 1500., -1560., -1440., 60.]
EDGES2 = [1040., -1040., 960., -960., 1000., -1000., -1035., 99., -199., -1.]   # around the size from which tolerance is relative
ELEN = 6 if THOROUGH else 5
BOUNDS = ('all series of %d readings over %d levels (and of 5 pairs of active and reactive power) x 3 thresholds; all sequences of up to '
          '%d edges out of %d (and of up to 3 or 4 around 1 kW) x buffers of 2, 3 and 20; all on/off patterns of %d readings of two appliances after training' % (
              LEN, len(LEVELS), ELEN, len(EDGES), 8 if THOROUGH else 6))
ASSUMPTIONS = ['one power column for training and prediction', 'mains without missing readings (the experiment API drops them)']


def reference(rows, state_threshold, noise):
    """Runs of readings without a change above state_threshold; changes directly after one another are one edge, placed at the first;
    its size is the difference of the average levels around it.  The level before the first reading is zero."""
    dims = len(rows[0])
    chg = [any(abs(a - b) > state_threshold for a, b in zip(r, (rows[i - 1] if i else (0.,) * dims))) for i, r in enumerate(rows)]
    segments = []                                  # [index of the edge, rows of the level]
    for i, r in enumerate(rows):
        if chg[i] and not (i and chg[i - 1]):
            segments.append([i, [r]])
        elif chg[i]:
            segments[-1][1] = [r]
        elif segments:
            segments[-1][1].append(r)
        else:
            segments.append([0, [r]])
    out, before = [], (0.,) * dims
    for i, lv in segments:
        mean = tuple(sum(x) / len(lv) for x in zip(*lv))
        delta = tuple(a - b for a, b in zip(mean, before))
        if any(abs(d) > noise for d in delta):
            out.append((i, mean, delta))
        before = mean
    # the level at the beginning of the data is not an edge
    if out and out[0][0] == 0 and any(v > noise for v in out[0][1]):
        out = out[1:]
    return out


def steady(chk, first):
    for rest in itertools.product(LEVELS, repeat=LEN - 2):
        vals = first + rest
        for thr, noise in [(15, 70), (55, 40), (5, 8)]:
            def run():
                df = power(vals)
                s, t = find_steady_states(df, state_threshold=thr, noise_level=noise)
                chk.step()
                compare(df, [(v,) for v in vals], s, t, thr, noise)
                return list(t.index) if len(t) else []
            chk.case('steady states', (vals, thr, noise), run)
        chk.state(vals)


def compare(df, rows, s, t, thr, noise):
    want = reference(rows, thr, noise)
    require([df.index.get_loc(x) for x in t.index] == [w[0] for w in want], 'edges at {} instead of {}', [df.index.get_loc(x) for x in t.index], want)
    require(list(s.index) == list(t.index), 'steady states at {}, edges at {}', list(s.index), list(t.index))
    for k, (i, mean, delta) in enumerate(want):
        require(all(feq(a, b) for a, b in zip(s.iloc[k], mean)) and s.shape[1] == len(mean), 'level {} instead of {}', list(s.iloc[k]), mean)
        require(all(feq(a, b) for a, b in zip(t.iloc[k], delta)) and t.shape[1] == len(mean), 'edge {} instead of {}', list(t.iloc[k]), delta)


def steady2(chk, rows):
    def run():
        df = power([r[0] for r in rows])
        df['r'] = [r[1] for r in rows]
        s, t = find_steady_states(df, state_threshold=15, noise_level=70)
        chk.step()
        compare(df, rows, s, t, 15, 70)
        chk.state(rows)
        return list(t.index) if len(t) else []
    chk.case('two measurements', rows, run)


def tolerance(a, b, minimum=100, percent=.035, large=1000):
    return minimum if max(abs(a), abs(b)) < large else percent * max(abs(a), abs(b))


def fits(a, b):
    """May the earlier edge a be paired with the later edge b?"""
    return a[0] > 0 and all(abs(x + y) < tolerance(x, y) for x, y in zip(a, b))


def pairing(chk, edges):
    for size in (2, 3, 20):
        def run():
            dims = 1 if isinstance(edges[0], float) else 2
            es = [(e,) if dims == 1 else e for e in edges]
            cols = [('power', 'active')] if dims == 1 else [('power', 'active'), ('power', 'reactive')]
            b = PairBuffer(columns=cols, buffer_size=size, min_tolerance=100, percent_tolerance=.035, large_transition=1000, num_measurements=dims + 1)
            for i, e in enumerate(es):
                if len(b.transition_list) == size:
                    b.clean_buffer()
                b.add_transition((START + pd.Timedelta(seconds=i),) + e if i % 2 else [START + pd.Timedelta(seconds=i)] + list(e))
                b.pair_transitions()
                chk.step()
            pairs = []
            for row in b.matched_pairs.itertuples(index=False):
                r = list(row)
                i, j = [int((r[k * (dims + 1)] - START).total_seconds()) for k in (0, 1)]
                require(tuple(r[1:dims + 1]) == es[i] and tuple(r[dims + 2:]) == es[j], 'pair {} holds {}', (i, j), r)
                pairs.append((i, j))
            used = [k for p in pairs for k in p]
            require(len(used) == len(set(used)), 'an edge is in two pairs: {}', pairs)
            for i, j in pairs:
                require(i < j and fits(es[i], es[j]), 'pair {} of edges {} and {}', (i, j), es[i], es[j])
            require(sorted(pairs) == expected_pairs(es, size), 'pairs {} instead of {}', sorted(pairs), expected_pairs(es, size))
            chk.state((edges, size))
            return sorted(pairs)
        chk.case('pairing', (edges, size), run)


def expected_pairs(es, size):
    """Each new edge is offered to the earlier unpaired ones in the buffer, the nearest first; only edges falling out of a full
    buffer (after those already paired) are forgotten."""
    buf, pairs = [], []
    for j, e in enumerate(es):
        if len(buf) == size:
            buf = [x for x in buf if not x[1]]
        if len(buf) == size:
            buf = buf[1:]
        buf.append([j, False])
        for x in reversed(buf[:-1]):
            if not x[1] and fits(es[x[0]], e):
                x[1] = buf[-1][1] = True
                pairs.append((x[0], j))
                break
    return sorted(pairs)


A = [0] * 3 + [200] * 5 + [0] * 12 + [200] * 5 + [0] * 15
B = [0] * 12 + [1500] * 4 + [0] * 14 + [1500] * 6 + [0] * 4
_model = []


def trained():
    if not _model:
        h = Hart85({})
        a, b = power(A), power(B)
        h.partial_fit([power([x + y for x, y in zip(A, B)])], [('a', [a]), ('b', [b])])
        _model.append(h)
    return _model[0]


def learning(chk, _):
    def run():
        h = trained()
        chk.step()
        require(sorted(float(c) for c in h.centroids.values.flatten()) == [200., 1500.], 'levels {}', h.centroids)
        require([float(h.centroids.loc[h.best_matches[n]].iloc[0]) for n in 'ab'] == [200., 1500.], 'matches {}', h.best_matches)
        t = {(int((r[1] - START).total_seconds()) // 6, int((r[3] - START).total_seconds()) // 6) for r in h.pair_df.itertuples()}
        require(t == {(3, 8), (20, 25), (12, 16), (30, 36)}, 'pairs {}', t)
        chk.state('model')
        return sorted(t)
    chk.case('learning', 'two appliances', run)


def after_edges(levels, level):
    """A level is predicted from its switching-on edge up to its switching-off edge; off until the first edge."""
    out, on, last = [], False, levels[0]
    for v in levels:
        if v > last:
            on = True
        elif v < last:
            on = False
        last = v
        out.append(level if on else 0)
    return out


def predicting(chk, case):
    pa, pb = case

    def run():
        h = trained()
        a, b = [200 * x for x in pa], [1500 * x for x in pb]
        frames = [power([x + y for x, y in zip(a, b)]), power([0, 0, 1500, 1500], start=100), power([0, 0, 0], start=200),
                  power([x + y for x, y in zip(b, a)][::-1], start=300)]
        got = h.disaggregate_chunk(frames)
        chk.step()
        require(len(got) == len(frames), '{} predictions for {} pieces', len(got), len(frames))
        want = [(a, b), ([0] * 4, [0, 0, 1500, 1500]), ([0] * 3, [0] * 3), (a[::-1], b[::-1])]
        for f, g, (wa, wb) in zip(frames, got, want):
            require(g.index.equals(f.index), 'times {}', g.index)
            require(list(g.columns) == ['a', 'b'], 'columns {}', list(g.columns))
            total = list(f.iloc[:, 0])
            if clear(total) and clear(wa) and clear(wb) and not any(x != y and z != w for x, y, z, w in zip(wa, wa[1:], wb, wb[1:])):
                wa, wb = after_edges(wa, 200), after_edges(wb, 1500)
            else:                                   # edges merge or coincide: each goes to the level nearest to its size
                wa, wb = from_reference(total)
            require([float(v) for v in g['a']] == wa and [float(v) for v in g['b']] == wb, 'mains {}: predicted {} and {} instead of {} and {}',
                    list(f.iloc[:, 0]), list(g['a']), list(g['b']), wa, wb)
        chk.state(case)
        return [list(g.sum(axis=1)) for g in got]
    chk.case('predicting', case, run)


def clear(p):
    """Every level is held for at least two readings (shorter ones are one edge with the next)."""
    return all(len(list(g)) >= 2 for _, g in itertools.groupby(p))


def from_reference(total):
    want = {200: [0] * len(total), 1500: [0] * len(total)}
    for i, _, (d,) in reference([(v,) for v in total], 15, 70):
        level = min(want, key=lambda c: abs(abs(d) - c))
        want[level][i:] = [level if d > 0 else 0] * (len(total) - i)
    return want[200], want[1500]


def exporting(chk, _):
    def run():
        h = trained()
        path = os.path.join(chk.scratch, 'hart.pickle')
        h.export_model(path)
        g = Hart85({})
        g.import_model(path)
        os.remove(path)
        frames = [power([0, 0, 200, 200, 1700, 1700, 1500, 1500, 0]), power([0, 0, 1500, 1500, 0, 0], start=30)]
        chk.step(3)
        for x, y in zip(h.disaggregate_chunk(frames), g.disaggregate_chunk(frames)):
            require(x.equals(y), 'the imported model predicts {} instead of {}', y, x)
        chk.state('export')
        return True
    chk.case('export', 'two appliances', run)


def run(chk):
    chk.parallel('steady states', steady, list(itertools.product(LEVELS, repeat=2)))
    chk.parallel('two measurements', steady2, [r for n in (1, 2, 3, 4, 5) for r in itertools.product(PAL2, repeat=n)])
    chk.parallel('pairing', pairing, [e for n in range(1, ELEN + 1) for e in itertools.product(EDGES, repeat=n)]
                 + [e for n in range(2, 5) for e in itertools.product([(200., 150.), (-200., -150.), (-200., 150.), (1500., -1500.), (-1500., 1560.)], repeat=n)])
    chk.parallel('pairing', pairing, [e for n in range(2, 5 if THOROUGH else 4) for e in itertools.product(EDGES2, repeat=n)]
                 + list(itertools.product([(1040., 150.), (-960., -150.), (-1040., -51.), (150., 1040.), (-150., -960.)], repeat=3)))
    chk.serial('learning', learning, [0])
    pats = [p for p in itertools.product((0, 1), repeat=8 if THOROUGH else 6) if p[0] == 0]
    both = [(p, q) for p in pats for q in pats]
    chk.parallel('predicting', predicting, both)
    chk.serial('export', exporting, [0])
