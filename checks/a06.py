"""A06: the legacy disaggregators: what combinatorial optimisation learns and predicts, what the factorial model decodes, the data set they write,
and models carried over in files."""
import contextlib
import io
import itertools
import warnings
from collections import OrderedDict
import numpy as np
import pandas as pd
from nilmtk import DataSet, HDFDataStore, TimeFrame
from nilmtk.legacy.disaggregate import CombinatorialOptimisation, FHMM
from nilmtk.legacy.disaggregate import fhmm_exact as F
from lib.core import THOROUGH, feq, require
from lib import stores as S, meters as M
from lib import memstore as MS
from checks import a03

COLS = (('power', 'active'),)
START = pd.Timestamp('2013-05-01', tz='UTC')
PALETTE = [(0, 100), (0, 30, 70), (0, 100, 250), (0,), (0, 12, 2000)]
VALUES = sorted({v + d for v in (0, 30, 70, 100, 130, 170, 200, 250, 320, 2000, 2350) for d in (0, -14.5, 0.25, 13)} | {-500., 50., 9999., 85., 15.})
MAXA = 4 if THOROUGH else 3
CUTS = {'all': [], 'gap': [(20, 29)], 'two gaps': [(7, 9), (20, 31)], 'short piece': [(12, 20), (23, 30)]}
N = 44
BOUNDS = ('combinatorial optimisation: every list of up to %d appliances out of %d sets of states x %d mains readings, in every position of one chunk; training: %d shapes '
          'of readings alone and in pairs, with and without a number of states, 11 and 12 of them; factorial model: permutations and ties of means, joint models and decodings as in A03 (against every '
          'sequence of joint states); data sets: %d patterns of gaps or 2 section lists x periods 10 to 60 s x shortest chunk 1, 4, 12 x 1-2 site meters x appliances of one meter, two or a group x 2 models; '
          'models in files: both models' % (MAXA, len(PALETTE), len(VALUES), 6, len(CUTS)))
ASSUMPTIONS = ['one chunk per section', "fitting one appliance's chain is hmmlearn, whose success is not claimed", 'clusters are well separated',
               'sections end before the reading at their end, the last good section includes it (S01, S02)', 'mains without missing values',
               'nilm_metadata is replaced by a stand-in']
QUIET = contextlib.redirect_stdout


class Name:
    """Stands for a meter where only its identity matters."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'meter %s' % self.n


def series(values, step=10):
    s = pd.Series([float(v) for v in values], index=pd.DatetimeIndex([START + pd.Timedelta(seconds=step * i) for i in range(len(values))]))
    s.name = COLS[0]
    return s


def nearest(chk, sets):
    """Every reading is given the combination of states whose sum is nearest."""
    def run():
        co = CombinatorialOptimisation()
        co.MIN_CHUNK_LENGTH = 1
        names = [Name(i) for i in range(len(sets))]
        for n, st in zip(names, sets):
            co.model.append({'states': np.array(st, dtype=np.int32), 'training_metadata': n})
        sums = [sum(c) for c in itertools.product(*sets)]
        k = 0
        for values in (VALUES, VALUES[::-1], VALUES[5:6], VALUES[3:] + VALUES[:3]):
            s = series(values)
            keep = s.copy()
            with QUIET(io.StringIO()):
                got = co.disaggregate_chunk(s)
            chk.step()
            require(s.equals(keep), 'the mains were changed')
            require(got.index.equals(s.index) and list(got.columns) == names, 'rows or columns of the prediction: {} {}', list(got.columns), list(got.index))
            for v, row in zip(values, got.to_numpy(dtype=float)):
                require(all(float(p) in st for p, st in zip(row, sets)), '{} W: {} are no states of {}', v, list(row), sets)
                best = min(abs(v - x) for x in sums)
                require(feq(abs(v - sum(row)), best, 1e-6), '{} W: predicted {}, off by {}; {} is possible', v, list(row), abs(v - sum(row)), best)
                k += 1
        co.MIN_CHUNK_LENGTH = 3
        try:
            with QUIET(io.StringIO()):
                co.disaggregate_chunk(series([1, 2]))
            require(False, 'a chunk shorter than the shortest was taken')
        except RuntimeError:
            pass
        with QUIET(io.StringIO()):
            require(len(co.disaggregate_chunk(series([1, 2, 3]))) == 3, 'a chunk of the shortest length')
        chk.state(sets)
        return k
    chk.case('nearest', sets, run)


# readings, states without a number of states given, {number: states}
SHAPES = {
    'two levels': ([0, 0, 100, 100, 100, 240, 240, 0] * 10, (0, 100, 240), {3: (0, 100, 240)}),
    'one level': ([0, 60, 60] * 12, (0, 60), {2: (0, 60)}),
    'noisy': ([0, 99, 103, 0, 999, 1003] * 10, (0, 101, 1001), {3: (0, 101, 1001)}),
    'off': ([0, 5, 10, 0] * 15, (0,), {}),
    'seldom': ([0] * 40 + [80] * 19, (0,), {}),
    'just enough': ([0] * 40 + [80] * 20, (0, 80), {2: (0, 80)}),
}
MIXED = {'two levels': 156, 'one level': 60, 'noisy': 551, 'off': 0, 'seldom': 0, 'just enough': 80}


def build(tables, apps, mains=None, two=False, building=3, period=10):
    """tables: {instance: values}"""
    def tb(vs, keep=None):
        k = [i for i in range(len(vs)) if keep is None or i in keep]
        return S.frame([10 * i for i in k], COLS, tz='UTC', values=[[vs[i]] for i in k], start=START.tz_localize(None))
    n = max(len(v) for v in tables.values())
    vs = [sum(v[i] if i < len(v) else 0 for v in tables.values()) for i in range(n)]
    ms = {1: (tb(vs, mains), {'site_meter': True})}
    if two:
        ms[5] = (tb([7. + i % 3 for i in range(n)], mains), {'site_meter': True})
    for i, v in tables.items():
        ms[i] = (tb(v), {'submeter_of': 1, 'name': 'meter number %d' % i} if i % 2 else {'submeter_of': 1})
    return {building: (ms, apps)}, {'dev': M.device(COLS, period, 10)}


def training(chk, item):
    shapes, counts = item

    def run():
        tables = {i + 2: SHAPES[s][0] for i, s in enumerate(shapes)}
        ds = MS.dataset(*build(tables, []), stats=True)
        e = ds.buildings[3].elec
        co = CombinatorialOptimisation()
        try:
            co.disaggregate(e.mains(), None)
            require(False, 'an untrained model was used')
        except RuntimeError:
            pass
        given = {e[i + 2]: c for i, c in enumerate(counts) if c}
        chk.step(2)
        with warnings.catch_warnings(), QUIET(io.StringIO()):
            warnings.simplefilter('ignore')
            co.train(e, given or None)
        want = [(i + 2, SHAPES[s][2][c] if c else SHAPES[s][1] if len(shapes) < 12 else tuple(sorted({0, MIXED[s]})))
                for i, (s, c) in enumerate(zip(shapes, counts))]
        got = [(m['training_metadata'].instance(), tuple(int(x) for x in m['states'])) for m in co.model]
        require(got == want, 'states {} instead of {}', got, want)
        for again in (lambda: co.train(e), lambda: co.train_on_chunk(next(e[2].power_series()), e[2], 3, None)):
            try:
                with QUIET(io.StringIO()):
                    again()
                require(False, 'a meter was trained on twice')
            except RuntimeError:
                pass
        require([(m['training_metadata'].instance(), tuple(int(x) for x in m['states'])) for m in co.model] == want, 'the refused training changed the model')
        chk.state(item)
        return got
    chk.case('training', item, run)


def sorting(chk, means):
    keep = a03.sort_learnt_parameters
    a03.sort_learnt_parameters = F.sort_learnt_parameters
    try:
        a03.sorting(chk, means)
    finally:
        a03.sort_learnt_parameters = keep


def combined(chk, specs):
    keep = a03.create_combined_hmm, a03.decode_hmm
    a03.create_combined_hmm, a03.decode_hmm = F.create_combined_hmm, F.decode_hmm
    try:
        a03.combined(chk, specs)
    finally:
        a03.create_combined_hmm, a03.decode_hmm = keep


def decoding(chk, case):
    specs, T = case
    ind = OrderedDict((Name(i), a03.chain(s)) for i, s in enumerate(specs))
    f = FHMM()
    f.individual, f.model = ind, F.create_combined_hmm(ind)
    for obs in itertools.product(a03.OBS, repeat=T):
        def run():
            s = series(obs)
            got = f.disaggregate_chunk(s)
            chk.step()
            require(got.index.equals(s.index), 'times {}', got.index)
            a03.check_best(ind, a03.noise(f), list(s), got)
            return list(got.sum(axis=1))
        chk.case('decoding', (specs, obs), run)
    chk.state(case)


TRUTH = {2: [(0., 100.)[(k // 5) % 2] for k in range(N)], 7: [(0., 31., 70.)[(k // 3) % 3] for k in range(N)], 8: [(0., 9.)[(k // 4) % 2] for k in range(N)]}
STATES = {2: (0, 100), 7: (0, 31, 70), 8: (0, 9), (7, 8): (0, 9, 31, 40, 70, 79)}
APPS = {
    'own': [{'type': 'kettle', 'instance': 1, 'meters': [2]}, {'type': 'fridge', 'instance': 4, 'meters': [7]}, {'type': 'light', 'instance': 2, 'meters': [8]}],
    'group': [{'type': 'kettle', 'instance': 1, 'meters': [2]}, {'type': 'fridge', 'instance': 12, 'meters': [7, 8]}],
    'shared and bare': [{'type': 'kettle', 'instance': 1, 'meters': [2]}, {'type': 'light', 'instance': 3, 'meters': [2]}, {'type': 'fridge', 'instance': 1, 'meters': [7]}],
}
SECTIONS = {'good': None, 'one': [(5, 33)], 'two': [(0, 16), (24, 40)]}


def viterbi(chains, var, obs):
    """Log likelihood of the likeliest sequence of joint states."""
    joint = list(itertools.product(*[range(len(h.startprob_)) for h in chains]))
    with np.errstate(divide='ignore'):
        start = np.array([sum(np.log(h.startprob_[k]) for h, k in zip(chains, j)) for j in joint])
        trans = np.array([[sum(np.log(h.transmat_[a][b]) for h, a, b in zip(chains, i, j)) for j in joint] for i in joint])
    mu = np.array([sum(h.means_.flatten()[k] for h, k in zip(chains, j)) for j in joint])
    emit = lambda x: -.5 * (x - mu) ** 2 / var
    best = start + emit(obs[0])
    for x in obs[1:]:
        best = (best[:, None] + trans).max(axis=0) + emit(x)
    return best.max(), joint, start, trans, emit


def hand_made(meters, kind):
    """A trained model of the states above."""
    if kind == 'CO':
        co = CombinatorialOptimisation()
        co.model = [{'states': np.array(STATES[m.instance()], dtype=np.int32), 'training_metadata': m} for m in meters]
        return co
    f = FHMM()
    f.individual = OrderedDict()
    for n, m in enumerate(meters):
        st = STATES[m.instance()]
        k = len(st)
        h = a03.hmm.GaussianHMM(k, 'full')
        h.startprob_ = np.array([1. / k] * k)
        h.transmat_ = np.array([[.8 - .1 * n + .03 * i if i == j else (.2 + .1 * n - .03 * i) / (k - 1) for j in range(k)] for i in range(k)])
        h.means_ = np.array([[v + (.2 if v else 0.)] for v in st])
        h.covars_ = np.ones((k, 1, 1))
        f.individual[m] = h
    f.model = F.create_combined_hmm(f.individual)
    f.meters = list(f.individual)
    return f


def judge(model, kind, instances, mains, rows):
    """rows: predicted power per reading, in the order of the meters"""
    for v, r in zip(mains, rows):
        require(all(p in STATES[i] for p, i in zip(r, instances)), '{} W: {} are no states of {}', v, r, instances)
    if kind == 'CO':
        sums = [sum(c) for c in itertools.product(*[STATES[i] for i in instances])]
        for v, r in zip(mains, rows):
            require(feq(abs(v - sum(r)), min(abs(v - x) for x in sums), 1e-5), '{} W: predicted {}', v, r)
        return
    chains = list(model.individual.values())
    best, joint, start, trans, emit = viterbi(chains, a03.noise(model), mains)
    at = [joint.index(tuple(STATES[i].index(p) for p, i in zip(r, instances))) for r in rows]
    mine = start[at[0]] + emit(mains[0])[at[0]] + sum(trans[a][b] + emit(v)[b] for a, b, v in zip(at, at[1:], mains[1:]))
    require(mine >= best - 1e-6 * max(1, abs(best)), 'log likelihood {}, {} is possible: {}', mine, best, rows[:6])


def writing(chk, item):
    kind, gap, secs, period, shortest, two, layout = item
    def run():
        have = [i for i in range(N) if not any(a <= i <= b for a, b in CUTS[gap])]
        blds, devs = build(TRUTH, APPS[layout], mains=have, two=two, building=12 if shortest == 4 else 3)
        b = list(blds)[0]
        ds = MS.dataset(blds, devs, name='SOURCE', stats=True)
        e = ds.buildings[b].elec
        trained = e.submeters().meters
        instances = [m.instance() for m in trained]
        model = hand_made(trained, kind)
        model.MIN_CHUNK_LENGTH = shortest
        before = {i: ds.store.tables[k].copy() for i, k in enumerate(sorted(ds.store.tables))}
        kw = {'sample_period': period} if period != 60 else {}
        if SECTIONS[secs]:
            kw['sections'] = [TimeFrame(START + pd.Timedelta(seconds=10 * lo), START + pd.Timedelta(seconds=10 * hi)) for lo, hi in SECTIONS[secs]]
        # the mains as they should be read
        pieces, lists = [], []
        if SECTIONS[secs]:
            pieces = [(lo, hi) for lo, hi in SECTIONS[secs]]
        else:
            for i in have:
                if pieces and pieces[-1][1] == i - 1:
                    pieces[-1][1] = i
                else:
                    pieces.append([i, i])
            pieces = [tuple(p) for p in pieces]
            pieces[-1] = (pieces[-1][0], pieces[-1][1] + 1)
        val = {i: sum(v[i] for v in TRUTH.values()) + (7. + i % 3 if two else 0.) for i in have}
        for lo, hi in pieces:
            bins = OrderedDict()
            for i in range(lo, hi):
                if i in val:
                    bins.setdefault(10 * i // period * period, []).append(val[i])
            lists.append([(t, sum(x) / len(x)) for t, x in bins.items()])
        path = S.fresh_path(chk, '.h5')
        chk.step(2)
        out = HDFDataStore(path, 'w')
        try:
            with warnings.catch_warnings(), QUIET(io.StringIO()):
                warnings.simplefilter('ignore')
                model.disaggregate(e.mains(), out, **kw)
                out.close()
                long = [l for l in lists if len(l) >= shortest]
                if not long:
                    with pd.HDFStore(path, 'r') as st:
                        require(not st.keys(), 'no piece is long enough, but there is {}', st.keys())
                    return 0
                got = DataSet(path)
            try:
                res = got.buildings[b].elec
                md = got.metadata
                require(md['name'] == kind and list(got.buildings) == [b], 'data set {} with buildings {}', md['name'], list(got.buildings))
                require([m.instance() for m in res.meters] == [1] + instances, 'meters {} instead of {}', [m.instance() for m in res.meters], instances)
                tables = {m.instance(): got.store.store[m.metadata['data_location'] if 'data_location' in m.metadata else m.key] for m in res.meters}
                ts = [int((t - START).total_seconds()) for t in tables[1].index]
                mains = [float(x) for x in tables[1].iloc[:, 0]]
                flat = [r for l in long for r in l]
                require(ts == [t for t, _ in flat], 'mains at {} instead of {}', ts, [t for t, _ in flat])
                require(all(feq(a, v, 1e-5) for a, (_, v) in zip(mains, flat)), 'mains {} instead of {}', mains, flat)
                spans = [len(l) for l in long]
                for m in res.meters:
                    t = tables[m.instance()]
                    require(t.index.equals(tables[1].index) and list(t.columns) == [COLS[0]], 'table of meter {}: {} rows for {} of the mains, columns {}',
                            m.instance(), len(t), len(tables[1]), list(t.columns))
                    require(m.is_site_meter() == (m.instance() == 1) and m.metadata.get('submeter_of') == (None if m.instance() == 1 else 1), 'wiring of meter {}', m.instance())
                    require(m.sample_period() == period and m.device['max_sample_period'] == period, 'period of meter {}', m.instance())
                    require(m.device['model'] == ('mains' if m.instance() == 1 else kind), 'device of meter {}', m.instance())
                    require([(x['physical_quantity'], x['type']) for x in m.device['measurements']] == list(COLS), 'measurements of meter {}', m.instance())
                    tf = TimeFrame.from_dict(m.metadata['statistics']['timeframe'])
                    f = TimeFrame.from_dict(md['timeframe'])
                    require((tf.start, tf.end) == (f.start, f.end), 'time frame of meter {}', m.instance())
                    require(f.start < tables[1].index[0] + pd.Timedelta(seconds=period) and f.start >= tables[1].index[0] and f.end >= tables[1].index[-1], 'time frame {} of data from {} to {}', f, tables[1].index[0], tables[1].index[-1])
                for m, src in zip(res.meters[1:], trained):
                    require({(a.identifier.type, a.identifier.instance) for a in m.appliances} == {(a.identifier.type, a.identifier.instance) for a in src.appliances},
                            'appliances of meter {}: {}', m.instance(), m.appliances)
                    require((m.name or None) == (src.name or None), 'name of meter {}: {}', m.instance(), m.name)
                rows = list(zip(*[[round(float(x), 3) for x in tables[i].iloc[:, 0]] for i in instances]))
                if kind == 'CO':
                    judge(model, kind, instances, mains, rows)
                else:
                    p = 0
                    for n in spans:
                        judge(model, kind, instances, mains[p:p + n], rows[p:p + n])
                        p += n
            finally:
                got.store.close()
        finally:
            out.close()
            S.drop(path)
        require(all(before[i].equals(ds.store.tables[k]) for i, k in enumerate(sorted(ds.store.tables))), 'the source was changed')
        chk.state(item)
        return (len(ts), len(rows[0]))
    chk.case('writing', item, run)


def files(chk, item):
    """A model written to a file and read into another object predicts the same; the first one goes on working."""
    kind, layout = item

    def run():
        blds, devs = build(TRUTH, APPS[layout])
        path = S.fresh_path(chk, '.pkl')
        other = None
        with M.World(chk, blds, devs) as ds:
            e = ds.buildings[3].elec
            trained = [m for m in e.submeters().meters]
            model = hand_made(trained, kind)
            model.MIN_CHUNK_LENGTH = 5
            mains = next(e.mains().power_series(sample_period=10))
            try:
                with QUIET(io.StringIO()):
                    first = model.disaggregate_chunk(mains)
                    model.export_model(path)
                    require(all(m.store is ds.store for m in trained), 'exporting took the stores away')
                    second = model.disaggregate_chunk(mains)
                    try:
                        model.export_model(path + '.d/there is no such directory')
                        require(False, 'exported into a directory that does not exist')
                    except OSError:
                        pass
                    require(all(m.store is ds.store for m in trained), 'a failed export took the stores away')
                    require(np.array_equal(first, model.disaggregate_chunk(mains)), 'predictions after a failed export')
                    if kind == 'FHMM':
                        require(list(model.meters) == trained, 'a failed export took the meters away')
                    other = type(model)()
                    other.import_model(path)
                    if kind == 'FHMM':
                        other.MIN_CHUNK_LENGTH = 5
                    third = other.disaggregate_chunk(mains)
                chk.step(5)
                ids = [m.instance() for m in trained]
                require(np.array_equal(first, second) and [m.instance() for m in second.columns] == ids, 'predictions after exporting')
                require(np.array_equal(first, third) and third.index.equals(mains.index), 'predictions of the imported model')
                require([m.instance() for m in third.columns] == ids, 'meters of the imported model: {}', list(third.columns))
                for m, n in zip(trained, third.columns):
                    require([a.identifier for a in m.appliances] == [a.identifier for a in n.appliances], 'appliances of the imported model')
                    require(np.array_equal(next(m.power_series()), next(n.power_series())), 'readings of a meter of the imported model')
                if kind == 'CO':
                    require(other.MIN_CHUNK_LENGTH == 5, 'shortest chunk of the imported model')
                else:
                    require([m.instance() for m in other.meters] == ids, 'trained meters of the imported model')
                out = S.fresh_path(chk, '.h5')
                store = HDFDataStore(out, 'w')
                try:
                    with warnings.catch_warnings(), QUIET(io.StringIO()):
                        warnings.simplefilter('ignore')
                        other.disaggregate(e.mains(), store, sample_period=10)
                    for i in ids:
                        got = store.store['/building3/elec/meter%s' % (i,)]
                        want = first.iloc[:, ids.index(i)]
                        require(len(got) == len(want) and all(feq(a, b, 1e-6) for a, b in zip(got.iloc[:, 0], want)), 'data set of the imported model, meter {}', i)
                finally:
                    store.close()
                    S.drop(out)
            finally:
                if other is not None:
                    for m in ([p['training_metadata'] for p in other.model] if kind == 'CO' else list(other.individual)):
                        if hasattr(m.store, 'close'):
                            m.store.close()
                S.drop(path)
        chk.state(item)
        return len(first)
    chk.case('files', item, run)


def run(chk):
    chk.parallel('nearest', nearest, [s for n in range(1, MAXA + 1) for s in itertools.product(PALETTE, repeat=n)])
    alone = [((s,), (c,)) for s in SHAPES for c in [None] + list(SHAPES[s][2])]
    pairs = [(a + b, c + d) for a, c in alone for b, d in alone]
    many = [(tuple([s] + [t] * n), (None,) * (n + 1)) for s in SHAPES for t in ('one level', 'two levels') for n in (10, 11)]
    chk.parallel('training', training, alone + pairs + many)
    chk.parallel('sorting', sorting, [m for n in (1, 2, 3, 4) for m in itertools.product([0., 5., 60.5, 100.][:max(n, 2)], repeat=n)])
    small = [(1, 0, 0, 0), (2, 0, 1, 0), (2, 1, 2, 1), (2, 2, 0, 2), (3, 0, 0, 0), (3, 1, 0, 1)]
    chk.parallel('combined', combined, [s for n in (1, 2, 3) for s in itertools.product(small, repeat=n)])
    chk.parallel('decoding', decoding, [((s,), T) for s in small for T in (1, 2, 3)] + [(p, T) for p in itertools.product(small[1:], repeat=2) for T in (1, 2)]
                 + [(p, 3) for p in list(itertools.product(small[1:4], repeat=2))])
    chk.parallel('writing', writing, [(k, g, s, p, n, two, l) for k in ('CO', 'FHMM') for g in CUTS for s in SECTIONS for p in (10, 20, 60) for n in (1, 4, 12)
                                      for two in (False, True) for l in APPS if s == 'good' or g == 'all'])
    chk.parallel('files', files, [(k, l) for k in ('CO', 'FHMM') for l in ('own', 'shared and bare')])
