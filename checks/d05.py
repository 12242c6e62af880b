"""D05: reports of a building or data set - the activity script and the description - say what its meters say."""
import itertools
import warnings
import math
import pandas as pd
from lib.core import THOROUGH, require, feq
from lib import stores as S, meters as M
from lib import memstore as MS
from checks.e03 import oracle as runs

COLS = (('power', 'active'),)
START = pd.Timestamp('2013-05-01 00:00:00')
N = 7 if THOROUGH else 6
TYPES = {'kettle': (100, 0, 0), 'fridge': (20, 60, 12), 'washing machine': (15, 0, 0), 'light': (10, 0, 0), 'air source heat pump': (10, 0, 0)}
# appliances of submeters 2, 3 and 4; a list of meters makes one nested group of them
LAYOUTS = {
    'plain': [('kettle', 1, [2], {}), ('light', 1, [3], {})],
    'long names': [('air source heat pump', 3, [4], {}), ('washing machine', 1, [2], {})],
    'bare meters': [('light', 12, [3], {})],
    'group': [('washing machine', 2, [2, 3], {}), ('kettle', 1, [4], {})],
    'shared': [('kettle', 1, [2], {}), ('light', 3, [2], {'dominant_appliance': True}), ('kettle', 2, [3], {})],
    'same type': [('washing machine', 1, [2], {}), ('washing machine', 10, [3], {}), ('fridge', 1, [4], {})],
}
PERIODS = {'seconds': 10, 'hours': 5400}
BOUNDS = ('script: every on/off pattern of %d readings of one submeter, 3 patterns of each other, %d sets of appliances (own and shared meters, groups of '
          'meters, none, two-word types, instances to 12), one or three buildings (1, 2 and 11), readings 10 s or 90 min apart; description: every set of 1-2 site meters and 0-3 '
          'submeters below mains or below each other, 3 patterns of hours with readings each, 2 windows, disabled meters; the costly part of it for one to three buildings in any order'
          % (N, len(LAYOUTS)))
ASSUMPTIONS = ["a group's readings are those before the end of its time frame (M01)", 'runs cut by the end of the data are not activations', 'the order of an end and a start at one instant is not claimed',
               'meters in one script have appliances of different names', 'nilm_metadata is replaced by a stand-in']


def script(chk, item):
    layout, unit, pat, nb = item
    apps = LAYOUTS[layout]
    step = PERIODS[unit]

    def run():
        def table(vs):
            return S.frame([step * k for k in range(len(vs))], COLS, tz='UTC', values=[[v] for v in vs], start=START)
        blds, values = {}, {}
        for n, b in enumerate((1, 2, 11)[:nb]):
            rot = pat[n:] + pat[:n]
            v = {1: [500. + k for k in range(N)], 2: [200. if x else 2. for x in rot],
                 3: [(60., 0., 150., 150., 0., 60., 0., 0.)[(k + n) % 8] for k in range(N)], 4: [0., 120., 0., 120., 120., 0., 120., 0.][:N]}
            meters = {i: (table(v[i]), {'site_meter': True} if i == 1 else {'submeter_of': 1}) for i in v}
            md = [dict(extra, type=t, instance=k, meters=list(ms)) for t, k, ms, extra in apps]
            blds[b] = (meters, md)
            values[b] = v
        ds = MS.dataset(blds, {'dev': M.device(COLS, step, step)})
        path = S.fresh_path(chk, '.h5')
        chk.step()
        try:
            ds.get_activity_script(path)
            with pd.HDFStore(path, 'r') as st:
                got = {k: st[k] for k in st.keys()}
        finally:
            S.drop(path)
        want = {}
        for b in blds:
            groups = [ms for _, _, ms, _ in apps if len(ms) > 1]
            for ms in [[i] for i in (2, 3, 4) if not any(i in g for g in groups)] + groups:
                on = [a for a in apps if a[2] == ms]
                if not on:
                    continue
                dom = [a for a in on if a[3]] or on
                own = [TYPES[a[0]] for a in on]
                vs = [sum(c) for c in zip(*[values[b][i] for i in ms])]
                ts = [step * k for k in range(N)]
                if len(ms) > 1:     # (a group's readings: without the one at the end of its time frame)
                    ts, vs = ts[:-1], vs[:-1]
                found = runs(ts, vs, min(o[0] for o in own), max(o[2] for o in own), max(o[1] for o in own), 1)
                want['/building%d/%s__%d' % (b, dom[0][0].replace(' ', '_'), dom[0][1])] = (ts, found)
        require(set(got) == set(want), 'tables {} instead of {}', sorted(got), sorted(want))
        n = 0
        for k, (ts, found) in want.items():
            s = got[k]
            events = sorted([(ts[a], True) for a, b in found] + [(ts[b - 1], False) for a, b in found])
            g = [(int((t - START.tz_localize('UTC')).total_seconds()), bool(v)) for t, v in zip(s.index, s)]
            require([t for t, _ in g] == [t for t, _ in events], '{}: times {} instead of {}', k, g, events)
            require(sorted(g) == events, '{}: {} instead of {}', k, g, events)
            n += len(events)
        chk.state(item)
        return n
    chk.case('script', item, run)


HOURS = {'day': range(24), 'gap': [h for h in range(30) if not 7 < h < 14], 'two days': range(2, 49)}
WINDOWS = {'all': None, 'cut': (4, 20)}
POWER = {1: 900., 2: 100., 3: 60., 4: 30., 5: 800.}
T0 = pd.Timestamp('2012-01-01', tz='UTC')


def power(i, h):
    return POWER[i] * (1 + (h * (i + 2)) % 3)


class Meter:
    """The oracle: one reading per hour."""

    def __init__(self, i, hours, window, period):
        self.i, self.period = i, period
        self.hours = list(hours)
        lo, hi = window or (-99, 999)
        self.seen = [h for h in self.hours if lo <= h < hi]
        self.lo, self.hi = max(self.hours[0], lo), min(self.hours[-1], hi)
        self.sections = []
        for h in self.hours:
            if self.sections and h - self.sections[-1][1] == 1:
                self.sections[-1][1] = h
            else:
                self.sections.append([h, h])
        self.sections = [(max(a, lo), min(b, hi)) for a, b in self.sections]
        self.sections = [(a, b) for a, b in self.sections if a < b]

    def uptime(self):
        return sum(b - a for a, b in self.sections)

    def energy(self, other=None):
        """kWh; within the sections of another meter"""
        if other is None:
            return math.fsum(power(self.i, a) * min(b - a, 1) for a, b in zip(self.seen, self.seen[1:])) / 1000.
        e = 0.0
        for n, (lo, hi) in enumerate(other.sections):
            hs = [h for h in self.seen if lo <= h < hi or (h == hi and n == len(other.sections) - 1)]
            e += math.fsum(power(self.i, a) * min(b - a, 1) for a, b in zip(hs, hs[1:])) / 1000.
        return e


def stamp(h):
    return T0 + pd.Timedelta(hours=h)


def build(item):
    sites, wiring, hours, window, off = item
    metas = {}
    for n, i in enumerate((1, 5)[:sites]):
        metas[i] = {'site_meter': True, 'device_model': 'main'}
        if off == 'site' and n:
            metas[i]['disabled'] = True
    for n, up in enumerate(wiring):
        metas[n + 2] = {'submeter_of': up, 'device_model': 'sub%d' % (n % 2)}
        if off == n:
            metas[n + 2]['disabled'] = True
    data = {i: Meter(i, HOURS[hours[k % len(hours)]], WINDOWS[window], 3600) for k, i in enumerate(sorted(metas))}
    meters = {i: (pd.DataFrame([[power(i, h)] for h in m.hours], index=pd.DatetimeIndex([stamp(h) for h in m.hours]),
                               columns=pd.MultiIndex.from_tuples(COLS, names=S.LEVELS)), metas[i]) for i, m in data.items()}
    return meters, data, metas


DEV = {'main': M.device(COLS, 60, 3600), 'sub0': M.device(COLS, 6, 3600), 'sub1': M.device(COLS, 8, 3600)}


def expected(item, data, metas):
    """-> {row: value}"""
    sites, wiring, hours, window, off = item
    live = [i for i in data if not metas[i].get('disabled')]
    mains = [data[i] for i in live if metas[i].get('site_meter')]
    subs = [data[i] for i in live if not metas[i].get('site_meter')]
    first = mains[0]
    out = {'total_n_meters': len(data), 'total_n_site_meters': sites, 'mains_sample_period': 60}
    if subs:
        out['submeter_sample_period'] = max(6 if m.i % 2 == 0 else 8 for m in subs)
    lo, hi = min(data[i].lo for i in live), max(data[i].hi for i in live)
    out['timeframe'] = 'start={}, end={}'.format(stamp(lo), stamp(hi))
    out['total_duration'] = str(pd.Timedelta(hours=hi - lo))
    out['mains_uptime'] = first.uptime()
    out['proportion_uptime'] = first.uptime() / (hi - lo)
    out['average_mains_energy_per_day'] = sum(m.energy() for m in mains) / (first.uptime() / 24.)
    return out


def compare(got, want, what):
    for k, w in want.items():
        g = got[k]
        if k == 'mains_uptime':
            require(pd.Timedelta(g) == pd.Timedelta(hours=w), '{}: {} is {} instead of {} h', what, k, g, w)
        elif k == 'average_mains_energy_per_day':
            require(list(g.index) == ['active'] and feq(g['active'], w, 1e-9), '{}: {} is {} instead of {}', what, k, g, w)
        elif k == 'total_duration':
            require(pd.Timedelta(g) == pd.Timedelta(w), '{}: {} is {} instead of {}', what, k, g, w)
        elif isinstance(w, float):
            require(feq(float(g), w, 1e-9), '{}: {} is {} instead of {}', what, k, g, w)
        else:
            require(g == w, '{}: {} is {!r} instead of {!r}', what, k, g, w)


OWN = [{'building_type': 'house', 'construction_year': 1960, 'energy_improvements': 'photovoltaics', 'heating': 'gas', 'ownership': 'rented',
        'n_occupants': 3, 'description_of_occupants': 'three'}, {'n_occupants': 0, 'ownership': 'bought'}, {'construction_year': 2001, 'heating': ''}]


def describe(chk, item):
    sites, wiring, hours, window, off = item

    def run():
        meters, data, metas = build(item)
        extra = OWN[sum(len(h) for h in hours) % 3]
        ds = MS.dataset({1: (meters, [])}, DEV, stats=True)
        ds.buildings[1].metadata.update(extra)
        w = WINDOWS[window]
        if w:
            ds.set_window(*[stamp(h).tz_localize(None) for h in w])
        want = expected(item, data, metas)
        chk.step(3)
        elec = ds.buildings[1].elec
        cheap = elec.describe(compute_expensive_stats=False)
        compare(cheap, want, 'group')
        b = ds.buildings[1].describe(compute_expensive_stats=False)
        compare(b, want, 'building')
        require(b['instance'] == 1 and all(b[k] == extra[k] if k in extra else pd.isnull(b[k]) for k in OWN[0]), 'of the building itself: {}', b)
        table = ds.describe(compute_expensive_stats=False)
        require(list(table.columns) == [1], 'columns {}', table.columns)
        compare(table[1], want, 'data set')
        chk.state(item)
        return 1
    chk.case('describe', item, run)


def costly(chk, item):
    """The rest of the description, of several buildings: as their meters give it."""
    numbers, parts, window = item

    def run():
        blds, want = {}, {}
        for b, part in zip(numbers, parts):
            meters, data, metas = build(part + (window, None))
            blds[b] = (meters, [])
            want[b] = expected(part + (window, None), data, metas)
        ds = MS.dataset(blds, DEV, stats=True)
        w = WINDOWS[window]
        if w:
            ds.set_window(*[stamp(h).tz_localize(None) for h in w])
        chk.step(1 + len(numbers))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            table = ds.describe()
            require(list(table.columns) == sorted(numbers), 'columns {}', list(table.columns))
            for b in numbers:
                elec, col = ds.buildings[b].elec, table[b]
                compare(col, want[b], 'building %d' % b)
                require(col['instance'] == b, 'column of building {} is of building {}', b, col['instance'])
                main, downstream = elec.mains(), elec.meters_directly_downstream_of_mains()
                cor = main.correlation(downstream)
                g = col['correlation_of_sum_of_submeters_with_mains']
                require(feq(g, cor, 1e-9), 'building {}: correlation {} instead of {}', b, g, cor)
                share = sum(m.proportion_of_energy(main) for m in downstream.meters)
                g = col['proportion_of_energy_submetered']
                require(feq(g, share, 1e-9), 'building {}: share submetered {} instead of {}', b, g, share)
                rates = [m.dropout_rate() for m in elec.meters]
                g = dict(x.split('=') for x in col['dropout_rates_ignoring_gaps'].split(', '))
                w = {'min': min(rates), 'mean': sum(rates) / len(rates), 'max': max(rates)}
                require(set(g) == set(w) and all(feq(float(g[k]), w[k], 1e-9) for k in w), 'building {}: dropout {} instead of {}', b, g, w)
        chk.state(item)
        return len(numbers)
    chk.case('costly', item, run)


def run(chk):
    parts = [(s, w, h) for s in (1, 2) for w in [(1,), (1, 1), (1, 2, 2)] for h in [('day', 'gap', 'two days'), ('two days', 'day', 'day'), ('gap', 'gap', 'day')]]
    chk.parallel('costly', costly, [(n, (p, parts[(k + d) % len(parts)], parts[(k + 2 * d) % len(parts)])[:len(n)], w) for k, p in enumerate(parts)
                                    for d in (1, 5) for n in ((3,), (1, 2), (11, 2, 1)) if d == 1 or len(n) > 1 for w in WINDOWS])
    pats = list(itertools.product((0, 1), repeat=N))
    chk.parallel('script', script, [(l, u, p, nb) for l in LAYOUTS for u in PERIODS for p in pats for nb in (1, 3)])
    items = []
    for sites in (1, 2):
        for wiring in [(), (1,), (1, 1), (1, 2), (1, 1, 1), (1, 2, 2), (1, 2, 3)]:
            k = sites + len(wiring)
            for hours in itertools.product(HOURS, repeat=min(k, 3)):
                for window in WINDOWS:
                    for off in [None] + ([len(wiring) - 1] if wiring else []) + (['site'] if sites > 1 else []):
                        items.append((sites, wiring, hours, window, off))
    chk.parallel('describe', describe, items)
