"""S05: cached statistics are invisible: every answer equals the one computed from scratch, after any history of requests."""
import itertools
import pandas as pd
from nilmtk import TimeFrame, DataSet
from lib.core import THOROUGH, Violation, require, feq
from lib import stores as S, meters as M

COLS = (('power', 'active'), ('power', 'apparent'), ('cumulative energy', 'active'))
OFFS = (0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 13)
DEPTH = 3
TS = S.times(range(16), 'UTC')


def secs(*ps):
    return [TimeFrame(TS[a], TS[b]) for a, b in ps]


OPS = {
    'E': lambda m: m.total_energy(),
    'Ea': lambda m: m.total_energy(ac_type='active'),
    'Ep': lambda m: m.total_energy(ac_type='apparent'),
    'Eb': lambda m: m.total_energy(ac_type='best'),
    'Epow': lambda m: m.total_energy(physical_quantity='power'),
    'Ecol': lambda m: m.total_energy(columns=[('power', 'active')]),
    'Es1': lambda m: m.total_energy(sections=secs((0, 6))),
    'Es12': lambda m: m.total_energy(sections=secs((0, 6), (7, 14))),
    'Es2p': lambda m: m.total_energy(sections=secs((7, 14)), ac_type='apparent'),
    'Es3': lambda m: m.total_energy(sections=secs((0, 4))),
    'Esx': lambda m: m.total_energy(sections=secs((OFFS[0], OFFS[-1]))),
    'Ec': lambda m: m.total_energy(chunksize=4),
    'Ef': lambda m: m.total_energy(full_results=True).combined(),
    'G': lambda m: m.good_sections(),
    'Gs1': lambda m: m.good_sections(sections=secs((0, 6))),
    'Gs12': lambda m: m.good_sections(sections=secs((0, 6), (7, 14))),
    'Gc': lambda m: m.good_sections(chunksize=3),
    'D': lambda m: m.dropout_rate(),
    'Dn': lambda m: m.dropout_rate(ignore_gaps=False),
    'Ds': lambda m: m.dropout_rate(ignore_gaps=False, sections=secs((0, 6), (7, 14))),
    'U': lambda m: m.uptime(),
    # the last good section includes its end; the same sections without it are another request
    'Egs': lambda m: m.total_energy(sections=m.good_sections()),
    'El': lambda m: m.total_energy(sections=secs((0, 5), (7, 11))),
    'Dl': lambda m: m.dropout_rate(ignore_gaps=False, sections=secs((0, 5), (7, 11))),
}
SETS = {'W0': None, 'W1': (0, 9), 'W2': (2, 12), 'W3': (7, 14)}
CORE = ['E', 'Ep', 'Es1', 'Es12', 'Ec', 'G', 'Gs12', 'D', 'Ds', 'Egs', 'El', 'Dl']
ACTIONS = list(OPS) + list(SETS) + ['C']
BOUNDS = ('all histories of up to %d actions%s out of %d (%d statistics requests with different sections, AC types, columns and chunk sizes, %d window '
          'settings, clearing the cache) on one meter; all histories of two requests on two meters, two buildings and two data sets of the same shape; '
          'clearing after any two requests and a change of the data; answers compared with a recomputation without cache' % (DEPTH, '' if THOROUGH else ' (third action: core requests around a window change or clearing only)', len(ACTIONS), len(OPS), len(SETS)))
ASSUMPTIONS = ['reference answers come from the same code with an empty cache (their own correctness is decided by S01..S03)',
               'nilm_metadata is replaced by a stand-in']


def norm(x):
    if isinstance(x, pd.Series):
        return {k: round(float(v), 12) for k, v in sorted(x.items())}
    if isinstance(x, list):
        return [(str(s.start), str(s.end)) for s in x]
    if isinstance(x, float):
        return round(x, 12)
    return str(x)


def table(k=0, offs=OFFS):
    return S.frame(offs, COLS, tz='UTC', values=[[100 + 10 * o + k, 130 + 9 * o + 2 * k, 0.5 * o * o + (k + 1) * o] for o in offs])


DEV = dict(sample_period=1, max_sample_period=1)


def buildings(shape):
    """Same meters everywhere; different data."""
    out = {}
    for b in (1, 2):
        if b == 2 and shape != 'buildings':
            continue
        ms = {}
        for i in (1, 2):
            if i == 2 and shape != 'meters':
                continue
            ms[i] = (table(100 * b + 10 * i, OFFS if (b, i) == (1, 1) else OFFS[1:-1]), {'site_meter': i == 1} if i == 1 else {'submeter_of': 1})
        out[b] = (ms, [])
    return out


_ref = {}


def reference(chk, action, win):
    if (action, win) not in _ref:
        with M.World(chk, buildings('one'), {'dev': M.device(COLS, **DEV)}) as ds:
            if SETS[win]:
                ds.set_window(*[TS[w].tz_localize(None) for w in SETS[win]])
            _ref[(action, win)] = norm(OPS[action](ds.buildings[1].elec[1]))
    return _ref[(action, win)]


def subtree(chk, prefix):
    for tail in [()] + [t for d in range(1, DEPTH - len(prefix) + 1) for t in itertools.product(ACTIONS, repeat=d)]:
        hist = prefix + tail
        if hist[-1] not in OPS:
            continue
        if len(hist) == 3 and not THOROUGH and not (hist[0] in CORE and hist[2] in CORE and hist[1] in ('W1', 'W3', 'C')):
            continue

        def run():
            win = 'W0'
            want = []
            for a in hist:
                if a in SETS:
                    win = a
                elif a in OPS:
                    want.append(reference(chk, a, win))
            with M.World(chk, buildings('one'), {'dev': M.device(COLS, **DEV)}) as ds:
                m = ds.buildings[1].elec[1]
                got = []
                for a in hist:
                    chk.step()
                    if a in SETS:
                        ds.set_window(*[TS[w].tz_localize(None) for w in SETS[a] or ()])
                    elif a == 'C':
                        m.clear_cache()
                    else:
                        got.append(norm(OPS[a](m)))
                        w = want[len(got) - 1]
                        require(got[-1] == w, 'answer {} to {} is {} instead of {}', len(got), a, got[-1], w)
            chk.state(hist)
            return got[-1]
        chk.case('histories', hist, run)


def two(chk, item):
    shape, first, second = item

    def run():
        ref = {}
        dev = {'dev': M.device(COLS, **DEV)}
        for w in ('x', 'y'):
            ref[w] = []
            for a in (first, second):
                with pair(chk, shape, dev) as d:
                    ref[w].append(norm(OPS[a](d[w])))
        with pair(chk, shape, dev) as d:
            chk.step(4)
            got = [('x', 0, norm(OPS[first](d['x']))), ('y', 1, norm(OPS[second](d['y']))),
                   ('y', 0, norm(OPS[first](d['y']))), ('x', 1, norm(OPS[second](d['x'])))]
            for w, k, g in got:
                require(g == ref[w][k], '{} of meter {} is {} instead of {}', (first, second)[k], w, g, ref[w][k])
        chk.state(item)
        return got
    chk.case('two meters', item, run)


CLEAR = {'meter': lambda ds, m: m.clear_cache(), 'group': lambda ds, m: ds.buildings[1].elec.clear_cache(), 'data set': lambda ds, m: ds.clear_cache(),
         'verbose': lambda ds, m: m.clear_cache(verbose=True)}


def forget(chk, item):
    """Once its cache is cleared, a meter answers from the data as they are then."""
    first, second, how = item

    def run():
        changed = {1: ({1: (table(5, OFFS[:-3]), {'site_meter': True}), 2: (table(1), {'submeter_of': 1})}, [])}
        dev = {'dev': M.device(COLS, **DEV)}
        with M.World(chk, changed, dev) as ds:
            want = [norm(OPS[a](ds.buildings[1].elec[1])) for a in (first, second)]
        with M.World(chk, buildings('meters'), dev) as ds:
            chk.step(4)
            m = ds.buildings[1].elec[1]
            for a in (first, second):
                OPS[a](m)
            ds.store.close()
            ds.store.open(mode='a')
            ds.store.put(m.key, changed[1][0][1][0])
            ds.store.close()
            ds.store.open(mode='r')
            CLEAR[how](ds, m)
            got = [norm(OPS[a](m)) for a in (first, second)]
        require(got == want, 'after clearing the cache {} are {} instead of {}', (first, second), got, want)
        chk.state(item)
        return got
    chk.case('forget', item, run)


class pair:
    def __init__(self, chk, shape, dev):
        self.chk, self.shape, self.dev = chk, shape, dev

    def __enter__(self):
        s = self.shape
        if s == 'datasets':
            self.a = M.World(self.chk, buildings('one'), self.dev, name='A')
            self.b = M.World(self.chk, {1: ({1: (table(7, OFFS[:-2]), {'site_meter': True})}, [])}, self.dev, name='B', fresh=False)
            x = self.a.__enter__().buildings[1].elec[1]
            y = self.b.__enter__().buildings[1].elec[1]
        else:
            self.a, self.b = M.World(self.chk, buildings(s), self.dev), None
            ds = self.a.__enter__()
            x = ds.buildings[1].elec[1]
            y = ds.buildings[2].elec[1] if s == 'buildings' else ds.buildings[1].elec[2]
        return {'x': x, 'y': y}

    def __exit__(self, *e):
        self.a.__exit__(*e)
        if self.b:
            self.b.__exit__(*e)


def run(chk):
    chk.parallel('histories', subtree, [(a, b) for a in ACTIONS for b in ACTIONS])
    chk.parallel('two meters', two, [(s, a, b) for s in ('meters', 'buildings', 'datasets') for a in OPS for b in OPS
                                     if THOROUGH or (a[0] == b[0] and a in CORE and b in CORE)])
    chk.parallel('forget', forget, [(a, b, h) for a in OPS for b in (OPS if THOROUGH else ['Ep', 'Es12']) for h in CLEAR])
