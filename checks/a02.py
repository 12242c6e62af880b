"""A02: the mean model predicts the mean of all training readings, however they were handed over."""
import itertools
import os
import shutil
import tempfile
import pandas as pd
from nilmtk.disaggregate import Mean, Disaggregator
from lib.core import THOROUGH, feq, require
from lib.disagg import power, pieces

N = float('nan')
SERIES = [[], [0.], [1.5], [N], [N, 2.25], [0.4, 0.4, 0.4], [100.7, N, N, 3], [2000, 0, 0, 0, N], [0.3] * 5]
OPS = [('fit', {'kettle': 2}), ('fit', {'kettle': 6, 'fridge': 4}), ('fit', {'fridge': 5}), ('fit', {'light': 7, 'kettle': 3}), ('fit', {'kettle': 0, 'fridge': 8}),
       ('reload', None)]
DEPTH = 4 if THOROUGH else 3
PARTS = 4 if THOROUGH else 3
BOUNDS = ('all sequences of up to %d training pieces out of %d, handed over together or one after the other; all histories of training and '
          'reloading up to depth %d over three appliances; all sets of checkpoint files' % (PARTS, len(SERIES), DEPTH))
ASSUMPTIONS = ['an appliance without any reading is outside the claim']
TEST = [power([5, 6, 7]), power([1], start=30), power([])]


def check_prediction(got, readings):
    require(len(got) == len(TEST), '{} predictions', len(got))
    for f, g in zip(TEST, got):
        require(sorted(g.columns) == sorted(readings), 'predicts {} instead of {}', list(g.columns), sorted(readings))
        require(len(g) == len(f) and (f.empty or g.index.equals(f.index)), 'times {}', g.index)
        for a in readings:
            have = [v for v in readings[a] if v == v]
            for v in g[a]:
                require(feq(v, sum(have) / len(have), 1e-9), '{}: {} instead of {}', a, v, sum(have) / len(have))


def sequences(chk, parts):
    vals = [v for p in parts for v in SERIES[p]]
    if not [v for v in vals if v == v]:
        return
    for how in ('together', 'apart', 'joined'):
        def run():
            m = Mean({})
            frames = [power(SERIES[p], start=10 * i) for i, p in enumerate(parts)]
            if how == 'together':
                m.partial_fit([power([1])], [('a', frames)])
            elif how == 'joined':
                m.partial_fit([power([1])], [('a', [pd.concat(frames)])])
            else:
                for f in frames:
                    m.partial_fit([power([1])], [('a', [f])])
            chk.step()
            check_prediction(m.disaggregate_chunk(TEST), {'a': vals})
            chk.state((parts, how))
            return sum(v for v in vals if v == v)
        chk.case('sequences', (parts, how), run)


def history(chk, ops):
    def run():
        d = tempfile.mkdtemp(dir=chk.scratch)
        try:
            path = os.path.join(d, 'a', 'model')
            m = Mean({'save-model-path': path})
            readings = {}
            for op in ops:
                chk.step()
                if op[0] == 'fit':
                    m.partial_fit([power([1])], [(a, [power(SERIES[s][:1]), power(SERIES[s][1:])]) for a, s in op[1].items()])
                    for a, s in op[1].items():
                        readings.setdefault(a, []).extend(SERIES[s])
                else:
                    m = Mean({'pretrained-model-path': path, 'save-model-path': path})
                if all([v for v in r if v == v] for r in readings.values()):
                    check_prediction(m.disaggregate_chunk(TEST), readings)
                    # what was saved predicts the same
                    check_prediction(Mean({'pretrained-model-path': path}).disaggregate_chunk(TEST), readings)
                chk.state(tuple(sorted((a, str(r)) for a, r in readings.items())))
            return sorted((a, len(r)) for a, r in readings.items())
        finally:
            shutil.rmtree(d)
    chk.case('histories', ops, run)


NAMES = ['tmp-1.h5', 'tmp-2.h5', 'tmp.h5', 'xtmp-1.h5', 'tmp-1.h5.bak', 'model.h5', 'tmp-dir.h5/']


def checkpoints(chk, names):
    for prefix in (None, 'tmp-', 'tmp', 'other'):
        def run():
            d = tempfile.mkdtemp(dir=chk.scratch)
            here = os.getcwd()
            removed, real = [], os.remove
            try:
                os.chdir(d)
                for n in names:
                    os.mkdir(n) if n.endswith('/') else open(n, 'w').close()
                # the removal itself only records its target and acts inside the scratch directory
                def remove(p, *a, **k):
                    removed.append(os.path.realpath(p))
                    if os.path.dirname(os.path.realpath(p)) == os.path.realpath(d):
                        real(p, *a, **k)
                os.remove = remove
                x = Disaggregator()
                x.MODEL_NAME = 'X'
                x.file_prefix = prefix
                x.clear_model_checkpoints()
                chk.step()
                want = [n for n in names if prefix is not None and n.startswith(prefix) and n.endswith('.h5')]
                left = set(os.listdir(d))
            finally:
                os.remove = real
                os.chdir(here)
                shutil.rmtree(d)
            require(left == {n.rstrip('/') for n in names} - set(want), 'left {}, expected without {}', sorted(left), want)
            require(set(removed) == {os.path.join(os.path.realpath(d), n) for n in want}, 'removed {}', removed)
            chk.state((names, prefix))
            return sorted(left)
        chk.case('checkpoints', (names, prefix), run)


def run(chk):
    chk.parallel('sequences', sequences, [s for n in range(1, PARTS + 1) for s in itertools.product(range(len(SERIES)), repeat=n)])
    chk.parallel('histories', history, [h for n in range(1, DEPTH + 1) for h in itertools.product(OPS, repeat=n) if h[0][0] == 'fit'])
    chk.parallel('checkpoints', checkpoints, [c for n in range(0, 4) for c in itertools.combinations(NAMES, n)])
