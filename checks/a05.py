"""A05: the experiment API trains on and compares exactly the common readings of each building's own window."""
import itertools
import math
import os
import numpy as np
import pandas as pd
import matplotlib.pyplot as plt
from nilmtk.api import API
from nilmtk.disaggregate import Mean, CO
from lib.core import THOROUGH, feq, require
from lib import stores as S, meters as M
from checks.e02 import resample_oracle

TZ = 'Europe/London'
START = S.START
PA, PP = (('power', 'active'),), (('power', 'apparent'),)
N = 5
NAN = float('nan')
# readings of a meter: offset -> present (1) or stored as missing (2)
PAT = {'full': (1, 1, 1, 1, 1), 'gap': (1, 0, 0, 0, 1), 'hole': (1, 0, 1, 1, 1), 'late': (0, 0, 1, 1, 1), 'nan': (1, 2, 2, 2, 1), 'early': (1, 1, 0, 0, 0),
       'half': (1, 1, 2, 1, 2)}
WIN = [None, (1, 4), (0, 3), (2, 60)]
APPS = ['fridge', 'kettle']
METRICS = ['mae', 'rmse', 'nonsense', 'f1score', 'nep']
BOUNDS = ('one building: all combinations of %d patterns of readings of mains and two appliances x windows x periods x dropping and artificial '
          'aggregate; several: all lists of up to %d buildings of two data sets for training and testing out of six; chunk sizes 1..6 x '
          'buildings x kinds of models; the mean model and combinatorial optimisation end to end' % (len(PAT), 3))
ASSUMPTIONS = ['each building has readings of the mains and of every appliance in its window', 'one power column per meter',
               'chunk-wise: mains and appliances have readings at the same times, one per period', 'nilm_metadata is replaced by a stand-in']


def value(who, o):
    return float((o * 37 + who * 53) % 90 + 10 * who + 0.5)


def table(pat, who, cols=PA):
    offs = [o for o, k in enumerate(PAT[pat] if isinstance(pat, str) else pat) if k]
    kinds = PAT[pat] if isinstance(pat, str) else pat
    return S.frame(offs, cols, tz=TZ, values=[[NAN if kinds[o] == 2 else value(who, o)] for o in offs])


def readings(pat, who, win):
    kinds = PAT[pat] if isinstance(pat, str) else pat
    lo, hi = win or (0, 10 ** 6)
    return [(o, NAN if k == 2 else value(who, o)) for o, k in enumerate(kinds) if k and lo <= o < hi]


def series(pat, who, win, period):
    rs = [(o, None if v != v else v) for o, v in readings(pat, who, win)]
    return dict(resample_oracle(rs, period, 'mean', math.ceil(1 / period)))


_files = {}


def data_file(chk, key, buildings):
    """buildings: {b: (mains pattern, app patterns, seed)}; written once per process."""
    key = (chk.scratch, key)
    if key not in _files:
        path = S.fresh_path(chk, '.h5')
        bs = {}
        for b, (m, apps, seed) in buildings.items():
            meters = {1: (table(m, seed), {'site_meter': True, 'device_model': 'dev'})}
            al = []
            for k, p in enumerate(apps):
                meters[k + 2] = (table(p, seed + 1 + k, PP if k else PA), {'submeter_of': 1, 'device_model': 'app' if k else 'dev'})
                al.append({'type': APPS[k], 'instance': 1, 'meters': [k + 2]})
            bs[b] = (meters, al)
        M.write(path, bs, {'dev': M.device(PA, 1, 1), 'app': M.device(PP, 1, 1)}, tz=TZ)
        _files[key] = path
    return _files[key]


def at(o):
    return str(START + pd.Timedelta(seconds=o))


def window(win):
    return {'start_time': at(win[0]) if win else None, 'end_time': at(win[1]) if win else None}


class Recorder:
    """A model that notes what it is given; predicts a known function of the mains."""
    MODEL_NAME = 'Recorder'

    def __init__(self, factor, order=1, pad=0, stamped=True, chunk_wise=True, **kw):
        self.factor, self.order, self.pad, self.stamped = factor, order, pad, stamped
        self.chunk_wise_training = chunk_wise
        self.fits, self.tests, self.own_epochs = [], [], []
        self.__dict__.update(kw)

    def partial_fit(self, train_main, train_appliances, do_preprocessing=True, current_epoch=0, **kw):
        require(do_preprocessing is True and not kw, 'unexpected arguments to partial_fit')
        self.own_epochs.append(getattr(self, 'n_epochs', None))
        self.fits.append(([f.copy() for f in train_main], [(n, [f.copy() for f in l]) for n, l in train_appliances], current_epoch))

    def predict_row(self, k, i, x):
        return float(np.float32(x * self.factor + k + i))

    def disaggregate_chunk(self, mains):
        self.tests.append([f.copy() for f in mains])
        out = []
        for f in mains:
            x = list(f.iloc[:, 0])
            names = [(k, a) for k, a in enumerate(APPS)][::self.order]
            df = pd.DataFrame({a: [self.predict_row(k, i, v) for i, v in enumerate(x)] + [1e6] * self.pad for k, a in names},
                              index=f.index if self.stamped and not self.pad else None, columns=[a for _, a in names])
            out.append(df)
        return out


def rows(df):
    return [(int((t - START.tz_localize(TZ)).total_seconds()), None if v != v else float(v)) for t, v in zip(df.index, df.iloc[:, 0])]


def same(got, want, what, tz=True):
    g = rows(got)
    w = [(t, None if v is None or v != v else v) for t, v in want]
    require(got.shape[1] == 1 and len(g) == len(w) and all(a[0] == b[0] and feq(a[1], b[1], 1e-6) for a, b in zip(g, w)), '{}: {} instead of {}', what, g, w)
    require(not len(g) or str(got.index.tz) == TZ, '{}: time zone {}', what, got.index.tz)


def expected(b, win, period, drop, artificial):
    """-> (mains rows, [appliance rows]) of one building."""
    m, apps, seed = b
    mains = series(m, seed, win, period)
    subs = [series(p, seed + 1 + k, win, period) for k, p in enumerate(apps)]
    if drop:
        ok = [t for t in sorted(mains) if all(t in s and s[t] is not None for s in [mains] + subs)]
    if artificial:
        mains = {t: sum(s[t] for s in subs) for t in ok}
    pick = (lambda s: [(t, s[t]) for t in ok]) if drop else (lambda s: sorted(s.items()))
    return pick(mains), [pick(s) for s in subs]


def nonempty(b, win):
    return all(readings(p, 0, win) for p in (b[0],) + tuple(b[1]))


def params(methods, train, test, **kw):
    """train, test: lists of (dataset, path, building, window)."""
    def sets(l):
        out = {}
        for ds, path, b, win in l:
            out.setdefault(ds, {'path': path, 'buildings': {}})['buildings'][b] = window(win)
        return out
    p = {'power': {'mains': ['active'], 'appliance': ['active', 'apparent']}, 'appliances': list(APPS), 'methods': methods,
         'train': {'datasets': sets(train)}, 'test': {'datasets': sets(test), 'metrics': list(METRICS)}}
    p.update(kw)
    return p


def loss(name, g, p):
    n = len(g)
    if name == 'mae':
        return sum(abs(x - y) for x, y in zip(g, p)) / n
    if name == 'rmse':
        return math.sqrt(sum((x - y) ** 2 for x, y in zip(g, p)) / n)
    if name == 'nep':
        return sum(abs(x - y) for x, y in zip(g, p)) / sum(g)
    tp = sum(x >= 10 and y >= 10 for x, y in zip(g, p))
    wrong = sum((x >= 10) != (y >= 10) for x, y in zip(g, p))
    return 2 * tp / (2 * tp + wrong) if tp + wrong else 0.


def check_errors(api, per_test):
    """per_test: [(key, {model: {app: (truth, prediction)}})] in order; pieces without samples have no errors."""
    keys, tables = [], []
    for key, models in per_test:
        if not any(len(t) for t, _ in list(models.values())[0].values()):
            continue
        for metric in [m for m in METRICS if m != 'nonsense']:
            keys.append(key + '_' + metric)
            tables.append({c: {a: loss(metric, t, p) for a, (t, p) in apps.items()} for c, apps in models.items()})
    require(api.errors_keys == keys, 'errors of {} instead of {}', api.errors_keys, keys)
    require(len(api.errors) == len(keys), '{} tables of errors', len(api.errors))
    for k, got, want in zip(keys, api.errors, tables):
        require(list(got.columns) == list(want), '{}: models {}', k, list(got.columns))
        require(sorted(got.index) == sorted(APPS), '{}: appliances {}', k, list(got.index))
        for c in want:
            for a in want[c]:
                require(feq(got.loc[a, c], want[c][a], 1e-5), '{} of {} by {}: {} instead of {}', k, a, c, got.loc[a, c], want[c][a])


def predictions(rec, mains, subs):
    """What the recorder predicts for rows of mains, next to the truth."""
    return {a: ([v for _, v in subs[k]], [rec.predict_row(k, i, v) for i, (_, v) in enumerate(mains)]) for k, a in enumerate(APPS)}


def check_train(rec, want):
    """want: [(mains rows, [app rows])] per building, all in one call."""
    require(len(rec.fits) == 1, 'trained {} times', len(rec.fits))
    mains, apps, _ = rec.fits[0]
    require(len(mains) == len(want), '{} pieces of mains', len(mains))
    require([n for n, _ in apps] == APPS, 'appliances {}', [n for n, _ in apps])
    require(all(len(l) == len(want) for _, l in apps), 'pieces of appliances')
    for i, (m, subs) in enumerate(want):
        same(mains[i], m, 'training mains %d' % i)
        for k, s in enumerate(subs):
            same(apps[k][1][i], s, 'training %s %d' % (APPS[k], i))


def check_overall(api, models, last):
    """Truth and predictions kept after the run are those of the last building."""
    mains, subs = last
    for k, a in enumerate(APPS):
        same(api.gt_overall[[a]], subs[k], 'truth of ' + a)
        for n, rec in models.items():
            want = [(t, rec.predict_row(k, i, v)) for i, (t, v) in enumerate(mains)]
            same(api.pred_overall[n][[a]], want, 'prediction of %s by %s' % (a, n))


def models():
    return {'first': Recorder(1.5), 'second': Recorder(-2., order=-1, pad=2), 'third': Recorder(.25, stamped=False, chunk_wise=False)}


def one(chk, pats):
    m, a, b = pats
    for win, period, (drop, artificial) in itertools.product(WIN if THOROUGH else WIN[:3], (1, 2), ((True, False), (True, True), (False, False))):
        spec = (m, (a, b), 0)
        if not nonempty(spec, win) or (not drop and len({m, a, b}) > 1):
            continue                          # without dropping, predictions have no defined partner unless all tables agree

        def run():
            M.fresh_world()
            path = data_file(chk, pats, {1: spec})
            plt.close('all')
            ms = models()
            if not drop:
                ms.pop('second')
            kw = {} if drop else {'DROP_ALL_NANS': False}
            if artificial:
                kw['artificial_aggregate'] = True
            want = expected(spec, win, period, drop, artificial)
            if not drop and any(v is None for _, v in want[0]):
                return None
            api = API(params(ms, [('D', path, 1, win)], [('D', path, 1, win)], sample_rate=period, **kw))
            chk.step(2)
            for rec in ms.values():
                check_train(rec, [want])
                require(len(rec.tests) == 1 and len(rec.tests[0]) == 1, 'tests')
                same(rec.tests[0][0], want[0], 'test mains')
            check_errors(api, [('D_1', {n: predictions(rec, *want) for n, rec in ms.items()})])
            check_overall(api, ms, want)
            chk.state((pats, win, period, drop, artificial))
            return want
        chk.case('one building', (pats, win, period, drop, artificial), run)


POOL = {('A', 1): ('full', ('full', 'full'), 0), ('A', 2): ('full', ('half', 'hole'), 3), ('B', 1): ('nan', ('full', 'late'), 5), ('B', 2): ('hole', ('gap', 'full'), 7)}
PLACES = [('A', 1, None), ('A', 2, (0, 3)), ('A', 2, (1, 5)), ('B', 1, None), ('B', 2, (0, 60)), ('A', 1, (2, 4))]


def several(chk, case):
    train, test = case

    def run():
        M.fresh_world()
        paths = {d: data_file(chk, 'pool' + d, {b: s for (x, b), s in POOL.items() if x == d}) for d in 'AB'}
        ms = {'x': Recorder(2.), 'y': Recorder(.5, order=-1)}
        api = API(params(ms, [(d, paths[d], b, w) for d, b, w in train], [(d, paths[d], b, w) for d, b, w in test]))
        chk.step(2)
        # the data sets are visited in order, each with all its buildings
        group = lambda l: [x for d in dict.fromkeys(p[0] for p in l) for x in l if x[0] == d]
        want = [expected(POOL[d, b], w, 1, True, False) for d, b, w in group(train)]
        for rec in ms.values():
            check_train(rec, want)
        tests = [(d, b, expected(POOL[d, b], w, 1, True, False)) for d, b, w in group(test)]
        for rec in ms.values():
            require(len(rec.tests) == len(tests), 'tested {} times', len(rec.tests))
            for got, (d, b, w) in zip(rec.tests, tests):
                require(len(got) == 1, 'pieces')
                same(got[0], w[0], 'test mains of %s %d' % (d, b))
        check_errors(api, [('%s_%d' % (d, b), {n: predictions(rec, *w) for n, rec in ms.items()}) for d, b, w in tests])
        check_overall(api, ms, tests[-1][2])
        chk.state(case)
        return len(api.errors)
    chk.case('several buildings', case, run)


CPOOL = {('A', 1): ('full', ('full', 'full'), 0), ('A', 2): ((1,) * 7, ((1,) * 7, (1, 1, 2, 1, 1, 1, 1)), 3), ('B', 1): ((1, 1, 0, 0, 0, 1, 1, 1),) + (((1, 1, 0, 0, 0, 1, 1, 1),) * 2, 5)}
CPLACES = [('A', 1, None), ('A', 2, (1, 6)), ('B', 1, None), ('A', 2, None)]


def uncut(chunks, what, size):
    """Pieces in time order, each at most one row longer than the size, only the last row possibly repeated."""
    out = []
    for c in chunks:
        r = rows(c)
        require(c.shape[1] == 1, '{}: columns', what)
        if out and r and r[0] == out[-1]:
            r = r[1:]
        require(not (out and r) or r[0][0] > out[-1][0], '{}: pieces overlap: {} after {}', what, r, out)
        out += r
    return out


def chunkwise(chk, case):
    train, test, size, epochs, artificial = case

    def run():
        M.fresh_world()
        paths = {d: data_file(chk, 'cpool' + d, {b: s for (x, b), s in CPOOL.items() if x == d}) for d in 'AB'}
        ms = {'x': Recorder(2.), 'y': Recorder(.5, order=-1, chunk_wise=False)}
        if epochs:
            ms['x'].n_epochs = epochs
        api = API(params(ms, [(d, paths[d], b, w) for d, b, w in train], [(d, paths[d], b, w) for d, b, w in test], chunk_size=size,
                         artificial_aggregate=artificial))
        chk.step(2)
        group = lambda l: [x for d in dict.fromkeys(p[0] for p in l) for x in l if x[0] == d]
        want = [expected(CPOOL[d, b], w, 1, True, artificial) for d, b, w in group(train)]
        check_train(ms['y'], want)
        all_m = [r for m, _ in want for r in m]
        all_s = [[r for _, s in want for r in s[k]] for k in (0, 1)]
        # one pass over all pieces per epoch
        n_ep = epochs or 1
        per = {}
        for mains, apps, ep in ms['x'].fits:
            require(len(mains) == 1 and [n for n, _ in apps] == APPS and all(len(l) == 1 for _, l in apps), 'a piece of training data')
            require(all(l[0].index.equals(mains[0].index) for _, l in apps), 'mains and appliances at different times')
            per.setdefault(ep, []).append((mains[0], [l[0] for _, l in apps]))
        require(sorted(per) == list(range(n_ep)), 'epochs {}', sorted(per))
        require(not epochs or set(ms['x'].own_epochs) == {1}, 'a model was told to run {} epochs of its own per piece', ms['x'].own_epochs)
        for ep in per:
            # buildings are recognised by their order: split where the time goes back
            pieces = per[ep]
            require(len(pieces) == len(per[0]), 'epoch {} differs', ep)
            got_m, got_s, i = [], [[], []], 0
            bounds = split(pieces, want)
            for (lo, hi), (m, s) in zip(bounds, want):
                check_piece_sizes([p[0] for p in pieces[lo:hi]], size)
                same_rows(uncut([p[0] for p in pieces[lo:hi]], 'training mains', size), m, 'training mains')
                for k in (0, 1):
                    same_rows(uncut([p[1][k] for p in pieces[lo:hi]], 'training ' + APPS[k], size), s[k], 'training ' + APPS[k])
        # testing: every piece of every building once, each with its own errors
        tests = group(test)
        per_test = []
        for n, rec in ms.items():
            require(all(len(t) == 1 for t in rec.tests), 'pieces')
        pieces = [(t[0], None) for t in ms['x'].tests]
        require(all(a[0].equals(b[0]) for a, b in zip(ms['x'].tests, ms['y'].tests)) and len(ms['x'].tests) == len(ms['y'].tests), 'the models were tested on different mains')
        wt = [expected(CPOOL[d, b], w, 1, True, artificial) for d, b, w in tests]
        for (lo, hi), (m, s), (d, b, w) in zip(split(pieces, wt), wt, tests):
            check_piece_sizes([p[0] for p in pieces[lo:hi]], size)
            same_rows(uncut([p[0] for p in pieces[lo:hi]], 'test mains', size), m, 'test mains of %s %d' % (d, b))
            truth = [dict(x) for x in s]
            for i in range(lo, hi):
                r = rows(pieces[i][0])
                per_test.append(('%s_%d_%d' % (d, b, i - lo), {n: predictions(rec, r, [[(t, x[t]) for t, _ in r] for x in truth]) for n, rec in ms.items()}))
        check_errors(api, per_test)
        chk.state(case)
        return api.errors_keys
    chk.case('chunk-wise', case, run)


def check_piece_sizes(pieces, size):
    if any((b - a).total_seconds() > 1 for p in pieces for a, b in zip(p.index, p.index[1:])):
        return                                # a gap inside a piece is partly filled
    require(all(len(p) <= size + 1 for p in pieces), 'pieces of {} rows where {} were asked for', [len(p) for p in pieces], size)


def same_rows(got, want, what):
    require(len(got) == len(want) and all(a[0] == b[0] and feq(a[1], b[1], 1e-6) for a, b in zip(got, want)), '{}: {} instead of {}', what, got, want)


def split(pieces, want):
    """Ranges of pieces per building: a building ends when its last common instant has been seen."""
    out, lo = [], 0
    for n, (m, _) in enumerate(want):
        hi = lo
        while hi < len(pieces) and (n == len(want) - 1 or not any(r == m[-1] or (r[0] == m[-1][0] and feq(r[1], m[-1][1], 1e-6)) for r in rows(pieces[hi][0]))):
            hi += 1
        hi = min(hi + (n < len(want) - 1), len(pieces))
        # a repeated last row alone forms a further piece
        while n < len(want) - 1 and hi < len(pieces) and len(pieces[hi][0]) and rows(pieces[hi][0])[0][0] == m[-1][0] and rows(pieces[hi][0])[0] == rows(pieces[hi - 1][0])[-1]:
            hi += 1
        out.append((lo, hi))
        lo = hi
    require(lo == len(pieces), '{} pieces left over', len(pieces) - lo)
    return out


def real(chk, case):
    size, train, test = case

    def run():
        M.fresh_world()
        paths = {d: data_file(chk, 'cpool' + d, {b: s for (x, b), s in CPOOL.items() if x == d}) for d in 'AB'}
        ms = {'Mean': Mean({}), 'CO': CO({})}
        kw = {'chunk_size': size} if size else {}
        api = API(params(ms, [(d, paths[d], b, w) for d, b, w in train], [(d, paths[d], b, w) for d, b, w in test], **kw))
        chk.step(2)
        want = [expected(CPOOL[d, b], w, 1, True, False) for d, b, w in train]
        means = []
        for k in (0, 1):
            vals = [v for _, s in want for _, v in s[k]]
            means.append(sum(vals) / len(vals))
        d, b, w = test[-1]
        m, s = expected(CPOOL[d, b], w, 1, True, False)
        if not size:
            for k, a in enumerate(APPS):
                got = api.errors[api.errors_keys.index('%s_%d_mae' % (d, b))]
                require(feq(got.loc[a, 'Mean'], sum(abs(v - means[k]) for _, v in s[k]) / len(s[k]), 1e-5), 'mae of the mean of {}', a)
                # fewer than twenty readings above 10 W: off all the time
                require(feq(got.loc[a, 'CO'], sum(v for _, v in s[k]) / len(s[k]), 1e-5), 'mae of combinatorial optimisation of {}', a)
        else:
            for n in ms:
                p = api.pred_overall[n]
                require(sorted(p.columns) == sorted(APPS), 'predictions {}', list(p.columns))
        for k, a in enumerate(APPS):
            p = list(api.pred_overall['Mean'][a])
            if size and not repeats(size, want):
                require(all(feq(v, means[k], 1e-5) for v in p), 'the mean model predicts {} instead of {}', p, means[k])
        chk.state(case)
        return means
    chk.case('real models', case, run)


def repeats(size, want):
    """Rows at the boundaries of pieces come twice, and count twice in a mean."""
    return any(len(m) > size for m, _ in want)


def options(chk, what):
    def run():
        M.fresh_world()
        plt.close('all')
        path = data_file(chk, 'poolA', {b: s for (x, b), s in POOL.items() if x == 'A'})
        train, test = [('A', path, 1, None)], [('A', path, 2, None)]
        want = expected(POOL['A', 2], None, 1, True, False)
        chk.step()
        ms = {'x': Recorder(2.), 'y': Recorder(.5)}
        kw = {}
        if what.startswith('pretrained'):
            ms['x'].load_model_path = '/nowhere'
            ms['y'].load_model_path = ''
        if what.endswith('chunks'):
            kw['chunk_size'] = 100
        if what == 'display':
            kw['display_predictions'] = True
        nm, num = ('A', 2)
        if what.startswith('site only'):
            kw['site_only'] = True
            if what != 'site only':
                nm, num = ('B', 1)
                kw['DROP_ALL_NANS'] = what == 'site only dropped'
                test = [('B', data_file(chk, 'poolB', {b: s for (x, b), s in POOL.items() if x == 'B'}), num, None)]
        api = API(params(ms, train, test, **kw))
        plt.close('all')
        if what.startswith('pretrained'):
            require(ms['x'].fits == [], 'a model loaded from a file was trained')
        else:
            require(len(ms['x'].fits) == 1, 'not trained')
        require(len(ms['y'].fits) == 1, 'not trained')
        if what.startswith('site only'):
            m = series(POOL[nm, num][0], POOL[nm, num][2], None, 1)
            m = {t: v for t, v in m.items() if v is not None or what == 'site only kept'}
            same(ms['x'].tests[0][0], sorted(m.items()), 'test mains')
            require(api.errors == [] and api.errors_keys == [], 'errors without ground truth')
            for k, a in enumerate(APPS):
                require(all(feq(g, ms['x'].predict_row(k, i, v if v is not None else NAN), 1e-9)
                            for g, (i, v) in zip(api.pred_overall['x'][a], enumerate(x for _, x in sorted(m.items())))), 'predictions')
                require(len(api.pred_overall['x'][a]) == len(m), 'number of predictions')
        else:
            key = 'A_2_0' if what.endswith('chunks') else 'A_2'
            check_errors(api, [(key, {n: predictions(rec, *want) for n, rec in ms.items()})])
            check_overall(api, ms, want)
        chk.state(what)
        return what
    chk.case('options', what, run)


def run(chk):
    names = list(PAT) if THOROUGH else list(PAT)[:5]
    chk.parallel('one building', one, itertools.product(names, repeat=3))
    lists = [l for n in (1, 2, 3) for l in itertools.permutations(PLACES, n) if len({(d, b) for d, b, _ in l}) == n]
    pairs = list(itertools.product(lists, repeat=2)) if THOROUGH else [(a, b) for i, a in enumerate(lists) for b in (lists[i], lists[(7 * i + 5) % len(lists)],
                                                                                                            lists[(11 * i + 3) % len(lists)])]
    chk.parallel('several buildings', several, pairs)
    cl = [l for n in (1, 2) for l in itertools.permutations(CPLACES, n) if len({(d, b) for d, b, _ in l}) == n]
    chk.parallel('chunk-wise', chunkwise, [(a, b, s, e, art) for a in cl for b in (cl if THOROUGH else cl[:1] + cl[4:6]) for s in ((1, 2, 3, 4, 5, 6) if THOROUGH else (1, 2, 3, 5))
                                           for e, art in (((0, False), (2, True)) if not THOROUGH else itertools.product((0, 2), (False, True)))])
    chk.parallel('real models', real, [(s, a, b) for a in cl for b in cl[:2] for s in (None, 2, 100)])
    chk.parallel('options', options, ['plain', 'pretrained', 'pretrained chunks', 'display', 'site only', 'site only dropped', 'site only kept'])
