"""A01: combinatorial optimisation picks, at every instant, the combination of states closest to the mains."""
import itertools
import numpy as np
from nilmtk.disaggregate import CO
from nilmtk.feature_detectors import cluster
from nilmtk.utils import find_nearest
from lib.core import THOROUGH, require
from lib.disagg import power, pieces

KNOWN = [0, 1, 2, 4, 5]
TESTS = [x / 2 for x in range(-2, 13)]
STATES = [(0,), (0, 10), (0, 40), (0, 7, 10), (0, 20, 50), (0, 25, 300)]
MAXA = 4 if THOROUGH else 3
MAINS = [0, 1, 3.4, 5, 6, 8.5, 9, 10, 12, 15, 16.9, 17, 24.9, 25, 30, 38, 44.5, 45, 50, 59, 66, 83, 100, 151, 300, 317, 350.5, 700, 2000, -20]
LEVELS = [5, 10, 11, 60, 1500.4]
COUNTS = [0, 1, 9, 10, 11, 19, 20, 21, 40]
APPS = {'kettle': [100, 2000], 'fridge': [80], 'light': []}
DEPTH = 5 if THOROUGH else 4
BOUNDS = ('all lists of up to 4 known values out of %d x %d targets; all models of 1..%d appliances out of %d sets of states x %d mains '
          'readings x cuts; all pairs of levels out of %d x %d counts each, cut anywhere; all histories of training and '
          'predicting up to depth %d' % (len(KNOWN), len(TESTS), MAXA, len(STATES), len(MAINS), len(LEVELS), len(COUNTS), DEPTH))
ASSUMPTIONS = ['mains without missing readings (the experiment API drops them)', 'clustering itself is scikit-learn: levels are far apart']


def nearest(chk, known):
    def run():
        for tests in (TESTS, list(reversed(TESTS))):
            idx, res = find_nearest(np.array(known), np.array(tests))
            chk.step()
            for t, i, r in zip(tests, idx, res):
                best = min(abs(k - t) for k in known)
                require(abs(known[int(i)] - t) == best, 'nearest to {} among {} is not {}', t, known, known[int(i)])
                require(r == t - known[int(i)], 'residual {} of {}', r, t)
        chk.state(known)
        return known
    chk.case('nearest', known, run)


def check_prediction(model, frames, got):
    """model: ordered [(name, states)]."""
    require(len(got) == len(frames), '{} predictions for {} pieces', len(got), len(frames))
    sums = [sum(c) for c in itertools.product(*[s for _, s in model])]
    for f, g in zip(frames, got):
        require(list(g.columns) == [n for n, _ in model], 'columns {}', list(g.columns))
        require(g.index.equals(f.index) and str(g.index.tz) == str(f.index.tz), 'times of the prediction differ from the mains')
        for t, x in enumerate(f.iloc[:, 0]):
            row = [float(v) for v in g.iloc[t]]
            for v, (n, s) in zip(row, model):
                require(v in [float(np.float32(q)) for q in s], '{} is no state of {}: {}', v, n, s)
            best = min(abs(s - x) for s in sums)
            require(abs(abs(sum(row) - x) - best) < 1e-3, 'mains {}: predicted {}, off by {} where {} is possible', x, row, abs(sum(row) - x), best)


def combine(chk, states):
    for cuts in [(), (7,), (0, 12), (30,)]:
        def run():
            co = CO({})
            for i, s in enumerate(states):
                co.model.append({'appliance_name': 'app%d' % i, 'states': np.array(s, dtype=np.int32)})
            frames = pieces(MAINS, cuts)
            chk.step()
            got = co.disaggregate_chunk(frames)
            check_prediction([('app%d' % i, s) for i, s in enumerate(states)], frames, got)
            chk.state((states, cuts))
            return [list(g.sum(axis=1)) for g in got]
        chk.case('combinations', (states, cuts), run)


def want_states(values, few=False):
    on = [v for v in values if v == v and v > 10]
    if len(on) < 20:
        return [0]
    return sorted({0, int(round(sum(on) / len(on)))} if few else {0} | {int(round(v)) for v in on})


def training(chk, case):
    (l1, n1), (l2, n2), layout = case

    def run():
        vals = [l1] * n1 + [float('nan')] + [l2] * n2 + [0.]
        if layout == 'mixed':
            vals = vals[::2] + vals[1::2]
        cuts = {'whole': [], 'cut': [len(vals) // 2], 'mixed': [1, len(vals) - 1]}[layout]
        co = CO({})
        frames = pieces(vals, cuts)
        co.partial_fit([power([0])], [('a', frames)])
        chk.step()
        got = co.model
        require([m['appliance_name'] for m in got] == ['a'], 'model {}', got)
        require([int(s) for s in got[0]['states']] == want_states(vals), 'states {} instead of {}', list(got[0]['states']), want_states(vals))
        chk.state(case)
        return want_states(vals)
    chk.case('states', case, run)


def big(chk, case):
    def run():
        np.random.seed(1)
        kind, n = case
        if kind == 'samples':
            vals = [500.] * n
            st = cluster(power(vals), 3)
            require([int(s) for s in st] == [0, 500], 'states {}', st)
            st = cluster(power([500.] * n + [90.] * n), 3)
            require([int(s) for s in st] == [0, 90, 500], 'states {}', st)
            st = cluster(power([500.] * n + [90.] * n), 3, 1)
            require(len(st) == 2 and 90 <= st[1] <= 500, 'exactly one cluster gave {}', st)
            chk.step(3)
        else:
            co = CO({})
            vals = [100.] * 20 + [300.] * 20
            co.partial_fit([power([0])], [('a%d' % i, [power(vals)]) for i in range(n)])
            for m in co.model:
                require([int(s) for s in m['states']] == want_states(vals, n > 12), '{} appliances: states {}', n, m['states'])
            require(len(co.model) == n, 'appliances')
            chk.step()
        chk.state(case)
        return case
    chk.case('many', case, run)


def readings(levels, flavour):
    return [lv + flavour for lv in levels for _ in range(25)] + [0.] * 5


OPS = [('fit', ('kettle',), 0), ('fit', ('fridge',), 0), ('fit', ('kettle', 'fridge'), 7), ('fit', ('light', 'kettle'), 0), ('predict', 0), ('predict', 1)]


def history(chk, ops):
    def run():
        co = CO({})
        model = []
        outs = []
        for op in ops:
            chk.step()
            if op[0] == 'fit':
                co.partial_fit([power([0])], [(a, pieces(readings(APPS[a], op[2]), [10])) for a in op[1]])
                for a in op[1]:
                    if a not in [n for n, _ in model]:
                        model.append((a, want_states(readings(APPS[a], op[2]))))
            else:
                frames = pieces([0, 60, 95, 130, 1900, 2060, 2100, 3000], [] if op[1] == 0 else [3])
                got = co.disaggregate_chunk(frames)
                check_prediction(model, frames, got)
                outs.append([list(g.sum(axis=1)) for g in got])
            chk.state((op, tuple((n, tuple(s)) for n, s in model)))
        return outs
    chk.case('histories', ops, run)


def histories():
    for n in range(2, DEPTH + 1):
        for h in itertools.product(OPS, repeat=n):
            if h[0][0] == 'fit' and h[-1][0] == 'predict':
                yield h


def run(chk):
    chk.parallel('nearest', nearest, [k for n in (1, 2, 3, 4) for k in itertools.product(KNOWN, repeat=n)])
    chk.parallel('combinations', combine, [s for n in range(1, MAXA + 1) for s in itertools.product(STATES, repeat=n)])
    chk.parallel('states', training, [((a, n), (b, m), lay) for a, b in itertools.combinations(LEVELS, 2)
                                      for n in COUNTS for m in COUNTS for lay in ('whole', 'cut', 'mixed')])
    chk.parallel('many', big, [('samples', 999), ('samples', 1000), ('samples', 1001), ('samples', 2001), ('samples', 3000), ('appliances', 11),
                               ('appliances', 12), ('appliances', 13)])
    chk.parallel('histories', history, histories())
