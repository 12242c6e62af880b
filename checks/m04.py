"""M04: energy accounting of groups - totals, shares, rankings, remainders and splits follow from the meters' own energies."""
import itertools
import math
import pandas as pd
from nilmtk import MeterGroup, TimeFrame
from lib.core import THOROUGH, require, feq
from lib import meters as M
from lib import memstore as MS

A, P = 'active', 'apparent'
HOURS = 24
T0 = pd.Timestamp('2012-01-01', tz='UTC')
# hours at which a meter has readings
PRESENT = {'full': range(24), 'gap': [h for h in range(24) if not 9 < h < 14], 'late': range(8, 24), 'early': range(0, 12),
           'two gaps': [h for h in range(24) if h not in (6, 7, 15, 16, 17)], 'other': range(20, 24)}
TYPES = {'A': (A,), 'P': (P,), 'AP': (A, P)}
WINDOWS = {'all': None, 'morning': (2, 16)}
BOUNDS = ('a mains, two submeters and two nested ones (in a group or not): every combination of %d x %d x %d patterns of hours with readings, '
          '%d sets of AC types and %d windows; every subgroup, section list, ranking length and split; splits of all patterns of 7 or 8 readings 1 min to '
          '3 days apart')
ASSUMPTIONS = ['one reading per hour and a longest period of one hour', 'sections end before the reading at their end, the whole data '
               'include it (as S02)', 'energies of one meter are decided by S02 and S05', 'the good sections of a group are those of its '
               'first meter (as documented)', 'nilm_metadata is replaced by a stand-in']
BASE = {1: 900., 2: 100., 3: 60., 4: 30., 5: 11.}
SECTIONS = [None, ((0, 24),), ((4, 10), (12, 20)), ((3, 8), (8, 15)), ((21, 23),)]


def power(i, ty, h):
    return BASE[i] * (1 + (h * (i + 1)) % 3) * (1.0 if ty == A else 1.25)


class Meter:
    def __init__(self, i, types, hours, window):
        self.i, self.types = i, types
        self.hours = [h for h in hours if window is None or window[0] <= h < window[1]]
        self.lo, self.hi = (-99, 99) if window is None else window
        self.every = list(hours)

    def runs(self):
        """Good sections: they reach to the end of the window if readings continue there; the last one includes its end."""
        out = []
        for h in self.every:
            if out and out[-1][1] == h - 1:
                out[-1][1] = h
            else:
                out.append([h, h])
        out = [(max(a, self.lo), min(b, self.hi)) for a, b in out]
        out = [(a, b) for a, b in out if a < b]
        return out[:-1] + [(a, b + 0.5) for a, b in out[-1:]]

    def span(self):
        return (max(self.every[0], self.lo), min(self.every[-1], self.hi)) if self.every[0] <= self.hi and self.every[-1] >= self.lo else None

    def energy(self, sections=None, types=None):
        """kWh per AC type, {} where there is no reading at all"""
        secs = [(0, 99)] if sections is None else sections
        out = {}
        for ty in self.types if types is None else [t for t in types if t in self.types]:
            e = None
            for lo, hi in secs:
                hs = [h for h in self.hours if lo <= h < hi]
                if hs:
                    e = (e or 0.0) + math.fsum(power(self.i, ty, a) for a, b in zip(hs, hs[1:])) / 1000.
            if e is not None:
                out[ty] = e
        # a gap counts for one hour only, which is what summing the power of each reading but the last of a section gives
        return out

    def best(self):
        return [A if A in self.types else P]


def add(*es):
    out = {}
    for e in es:
        for k, v in e.items():
            out[k] = out.get(k, 0.0) + v
    return out


def uptime(m):
    return sum(math.floor(b) - a for a, b in m.runs())


def same(got, want):
    """Energies per AC type; an AC type without any reading is absent, NaN or zero."""
    got = {k: v for k, v in dict(got).items() if v == v}
    return all(feq(got.get(k, 0.0), want.get(k, 0.0), 1e-9) for k in set(got) | set(want)) and set(want) <= set(got)


def tf(sections):
    return [TimeFrame(T0 + pd.Timedelta(a, 'h'), T0 + pd.Timedelta(b, 'h')) for a, b in sections]


def world(item):
    pats, types, nested, win = item
    dev = {k: M.device(tuple(('power', t) for t in ts), 3600, 3600) for k, ts in TYPES.items()}
    up = {2: 1, 3: 1, 4: 2, 5: 2}
    ms, ref = {}, {}
    for i in range(1, 6):
        hours, ty = list(PRESENT[pats[i - 1]]), types[i - 1]
        idx = pd.DatetimeIndex([T0 + pd.Timedelta(h, 'h') for h in hours])
        df = pd.DataFrame({('power', t): [power(i, t, h) for h in hours] for t in TYPES[ty]}, idx)
        df.columns = pd.MultiIndex.from_tuples(list(df.columns))
        md = {'device_model': ty}
        md.update({'site_meter': True} if i == 1 else {'submeter_of': up[i]})
        ms[i] = (df, md)
        ref[i] = Meter(i, TYPES[ty], hours, WINDOWS[win])
    apps = [dict(type='fridge', instance=1, meters=[2]), dict(type='light', instance=1, meters=[3])]
    apps += [dict(type='kettle', instance=1, meters=[4, 5])] if nested else [dict(type='kettle', instance=1, meters=[4]),
                                                                             dict(type='washing machine', instance=1, meters=[5])]
    ds = MS.dataset({1: (ms, apps)}, dev, stats=True)
    if WINDOWS[win]:
        ds.set_window(*['2012-01-01 %02d:00:00' % h for h in WINDOWS[win]])
    return ds.buildings[1].elec, ref


def members(m):
    return [m.instance()] if not isinstance(m, MeterGroup) else [i for x in m.meters for i in members(x)]


def has_data(ref, sections=None):
    return any(ref.energy(sections))


def energies(chk, item):
    def run():
        e, ref = world(item)
        node = {tuple(members(m)): m for m in e.meters}
        E = lambda m, **kw: add(*[ref[i].energy(**kw) for i in members(m)])
        best = lambda m, sections=None: add(*[ref[i].energy(sections, ref[i].best()) for i in members(m)])
        # ---- totals of every subgroup
        for r in (1, 2, len(node)):
            for part in itertools.combinations(node.values(), r):
                g = MeterGroup(list(part))
                for secs in SECTIONS if r != 1 else SECTIONS[:3]:
                    chk.step()
                    kw = {} if secs is None else {'sections': tf(secs)}
                    got = g.total_energy(**kw)
                    want = E(g, sections=secs)
                    require(same(got, want), 'total of {} in {}: {} instead of {}', members(g), secs, dict(got), want)
                    if secs is not None and r == 2:
                        try:
                            full = g.total_energy(full_results=True, **kw)
                        except RuntimeError:
                            full = None
                        if full is not None:
                            require(same(full.combined(), want), 'full results of {} in {}: {} instead of {}', members(g), secs,
                                    dict(full.combined()), want)
                        elif all(any(lo <= h < hi for h in ref[i].hours) for i in members(g) for lo, hi in secs):
                            require(False, 'full results refused although all meters have data in {}', secs)
                        if WINDOWS[item[3]] is None and full is not None:
                            rows = full.per_period()
                            for (lo, hi), f in zip(secs, tf(secs)):
                                w = E(g, sections=((lo, hi),))
                                if w:
                                    require(f.start in rows.index and same(rows.loc[f.start].drop('end'), w), 'period {}: {} instead of {}',
                                            (lo, hi), rows, w)
        # ---- energy per meter, with and without mains
        for g in (e, e.submeters(), MeterGroup(list(node.values())[1:3])):
            order = [members(m) for m in g.meters]
            per = g.energy_per_meter()
            require(list(per.columns) == [m.identifier for m in g.meters] and list(per.index) == ['active', 'apparent', 'reactive'], 'axes')
            for k, m in enumerate(g.meters):
                require(same(per.iloc[:, k], best(m)), 'energy of {}: {} instead of {}', members(m), dict(per.iloc[:, k]), best(m))
            lab = g.energy_per_meter(use_meter_labels=True)
            require(list(lab.columns) == [m.label(pretty=True) for m in g.meters] and lab.fillna(-1).values.tolist() ==
                    per.fillna(-1).values.tolist(), 'labels {}', lab)
            chk.step(2)
            for alias, hours in (('D', 24.), ('12h', 12.), ('h', 1.)):
                avg = g.energy_per_meter(per_period=alias)
                chk.step()
                for k, m in enumerate(g.meters):
                    span = {h for i in members(m) for h in ref[i].span() or ()}
                    if span:
                        want = {t: v / ((max(span) - min(span)) / hours) for t, v in best(m).items()}
                        require(same(avg.iloc[:, k], want), 'energy of {} per {}: {} instead of {}', members(m), alias, dict(avg.iloc[:, k]), want)
            # fractions
            top = [max(best(m).values(), default=float('nan')) for m in g.meters]
            total = math.fsum(x for x in top if x == x)
            if total:
                fr = g.fraction_per_meter()
                chk.step()
                require(list(fr.index) == [m.identifier for m in g.meters], 'fractions of {}', list(fr.index))
                for x, f in zip(top, fr.values):
                    require(feq(f, x / total, 1e-9) or (x != x and (f != f or f == 0)), 'fraction {} instead of {}', f, x / total)
            mains = e[1]
            sub = [v for m in g.meters for t, v in best(m).items()]
            kinds = [t for m in g.meters for t in best(m)]
            if g is not e and kinds and ref[1].hours:
                most = [t for t in (A, P) if kinds.count(t) == max(kinds.count(A), kinds.count(P))]
                rem = g.energy_per_meter(mains=mains)
                chk.step()
                allowed = {t if t in ref[1].types else ref[1].best()[0] for t in most}
                wants = [ref[1].energy(types=[t])[t] - math.fsum(sub) for t in allowed]
                require(any(feq(rem['Remainder'], w, 1e-9) for w in wants), 'remainder {} instead of {}', rem['Remainder'], wants)
                require(feq(rem.sum(), rem['Remainder'] + math.fsum(sub), 1e-9) and len(rem) == len(order) + 1, 'energies {}', rem)
                require(list(rem.values) == sorted(rem.values, reverse=True), 'not sorted: {}', rem)
            # rankings
            if not g.meters or any(x != x for x in top):
                continue
            for k in (range(1, len(top) + 1) if THOROUGH else (1, 2) if g is not e else ()):
                for asc in (False, True):
                    got = g.select_top_k(k, asc=asc, group_remainder=False)
                    rank = sorted(range(len(top)), key=lambda n: top[n] if asc else -top[n])
                    chk.step()
                    require([top[order.index(members(m))] for m in got.meters] == [top[n] for n in rank[:k]], 'top {}: {} of {}', k, got, top)
                    rest = g.select_top_k(k, asc=asc, group_remainder=True)
                    require([members(m) for m in rest.meters[:k]] == [members(m) for m in got.meters] and len(rest.meters) == k + 1 and
                            rest.meters[k].name == 'others' and sorted(members(m) for m in rest.meters[k].meters) ==
                            sorted(o for o in order if o not in [members(m) for m in got.meters]), 'others: {}', rest)
        chk.state(item)
        return item
    chk.case('energies', item, run)


def shares(chk, item):
    def run():
        e, ref = world(item)
        mains, up = e[1], {(2,): 1, (3,): 1, (4,): 2, (5,): 2, (4, 5): 2}
        nodes = {tuple(members(m)): m for m in e.meters}
        sub = e.submeters()
        E = lambda k, secs: add(*[ref[i].energy(secs) for i in k])
        # ---- share of the meter upstream, in its good sections
        share = {}
        for k, m in nodes.items():
            if k == (1,):
                continue
            u = ref[up[k]]
            if not u.runs():
                continue
            chk.step()
            mine, its = E(k, u.runs()), u.energy(u.runs())
            both = [t for t in (A, P) if t in mine and its.get(t)]
            got = m.proportion_of_upstream()
            if both:
                share[k] = mine[both[0]] / its[both[0]]
                require(feq(got, share[k], 1e-9), 'share of {} in {}: {} instead of {}', k, u.i, got, share[k])
            else:
                require(got != got or (got == 0 and not any(mine.values())), 'share of {} in {}: {}', k, u.i, got)
                share[k] = got
        if ref[2].runs() and ref[1].runs():
            tot = sub.proportion_of_upstream_total_per_meter()
            chk.step()
            require(sorted(map(str, tot.index)) == sorted(str(m.identifier) for m in sub.meters), 'shares of {}', list(tot.index))
            for m in sub.meters:
                got = [v for i, v in tot.items() if i == m.identifier][0]
                w = share[tuple(members(m))]
                require(feq(got, w, 1e-9) or (got != got and w != w), 'share of {}: {} instead of {}', members(m), got, w)
            vals = [v for v in tot.values if v == v]
            require(vals == sorted(vals, reverse=True), 'not sorted {}', vals)
        # ---- share of the mains
        props = {}
        for k, m in nodes.items():
            for other in (1, 2):
                o = ref[other]
                if k == (other,) or not o.runs():
                    continue
                for secs in (None, ((4, 10), (12, 20))):
                    chk.step()
                    s = o.runs() if secs is None else secs
                    mine, its = E(k, s), o.energy(s)
                    got = m.proportion_of_energy(e[other], **({} if secs is None else {'sections': tf(secs)}))
                    if not sum(its.values()):
                        require(got != got, 'share of nothing: {}', got)
                        continue
                    both = [t for t in its if t in mine]
                    if both:
                        want = sum(mine[t] / its[t] for t in both) / len(both)
                    elif mine:
                        want = mine[A if A in mine else P] / its[A if A in its else P]
                    else:
                        want = 0.0
                    require(feq(got, want, 1e-9) or (not mine and got != got), 'share of {} in {}: {} instead of {}', k, other, got, want)
                    if other == 1 and secs is None:
                        props[k] = got
        if ref[1].runs():
            got = e.proportion_of_energy_submetered()
            vals = [props[k] for k in ((2,), (3,)) if props[k] == props[k]]
            chk.step()
            require(feq(got, sum(vals), 1e-9) if vals else got != got, 'submetered: {} instead of {}', got, vals)
        # ---- averages, uptime, dropout rate
        for g in [MeterGroup(list(p)) for p in itertools.combinations(nodes.values(), 2)] + [e, e[1], e[2], e[3]]:
            first = ref[members(g)[0]]
            want = E(members(g), None)
            span = [h for i in members(g) for h in ref[i].span() or ()]
            up_h = uptime(first)
            chk.step(3)
            require(g.uptime().total_seconds() == up_h * 3600, 'uptime of {}: {} instead of {} h', members(g), g.uptime(), up_h)
            for alias, hours in (('D', 24.), ('h', 1.)):
                for use, dur in ((True, up_h), (False, max(span) - min(span) if span else 0)):
                    got = g.average_energy_per_period(alias, use_uptime=use)
                    if not dur:
                        require(isinstance(got, float) and got != got, 'average over nothing: {}', got)
                    else:
                        require(same(got, {t: v / (dur / hours) for t, v in want.items()}), 'average per {} of {}: {} instead of {}', alias,
                                members(g), dict(got), want)
            got = g.dropout_rate() if isinstance(g, MeterGroup) else None
            if got is not None:
                each = [m.dropout_rate() for m in g.meters]
                require(all(isinstance(x, float) for x in each), 'dropout rates {}', each)
                require((got != got) == any(x != x for x in each) and (got != got or feq(got, sum(each) / len(each), 1e-12)), 'dropout {}', got)
        # ---- splitting: the share of the good time before the split
        runs = [(a, math.floor(b)) for a, b in ref[1].runs()]
        if runs:
            total = sum(b - a for a, b in runs)
            for frac in (0.1, 0.25, 1 / 3, 0.5, 0.6, 0.75, 0.9):
                chk.step()
                t = (e.train_test_split(frac) - T0).total_seconds() / 3600
                before = sum(max(0, min(b, t) - a) for a, b in runs)
                require(abs(before - frac * total) < 1e-3, 'split at {} h: {} of {} h before it instead of {}', t, before, total, frac * total)
                require(any(a <= t <= b for a, b in runs), 'split in a gap: {}', t)
        chk.state(item)
        return item
    chk.case('shares', item, run)


def splits(chk, item):
    """Splitting where good sections are shorter and longer than a day."""
    unit, have = item

    def run():
        idx = pd.DatetimeIndex([T0 + pd.Timedelta(k * unit, 's') for k, h in enumerate(have) if h])
        df = pd.DataFrame({('power', A): [1.0] * len(idx)}, idx)
        df.columns = pd.MultiIndex.from_tuples(list(df.columns))
        runs = []
        for k, h in enumerate(have):
            if h and k and have[k - 1]:
                runs[-1][1] = k
            elif h:
                runs.append([k, k])
        runs = [(a * unit, b * unit) for a, b in runs if a < b]
        total = sum(b - a for a, b in runs)
        if not total:
            return None
        ds = MS.dataset({1: ({1: (df, {'site_meter': True, 'device_model': 'A'}), 2: (df[:2] * 0.0, {'submeter_of': 1, 'device_model': 'A'})}, [])},
                        {'A': M.device((('power', A),), unit, unit)}, stats=True)
        e = ds.buildings[1].elec
        energy, span = (len(idx) - 1) * unit / 3.6e6, (idx[-1] - idx[0]) / pd.Timedelta(1, 's')
        for g in (e[1], e):
            chk.step(3)
            require(g.uptime().total_seconds() == total, 'uptime {} instead of {} s', g.uptime(), total)
            for alias, secs in (('D', 86400.), ('h', 3600.)):
                for use, dur in ((True, total), (False, span)):
                    got = g.average_energy_per_period(alias, use_uptime=use)
                    require(feq(got[A], energy / (dur / secs), 1e-9), 'average per {}: {} instead of {}', alias, got[A], energy / (dur / secs))
            require(feq(g.average_energy_per_period()[A], energy / (total / 86400.), 1e-9), 'average per day')
        per = e.energy_per_meter(per_period='D')
        require(feq(per[e[1].identifier][A], energy / (span / 86400.), 1e-9), 'energy per meter and day {}', per)
        require(e.train_test_split() == e.train_test_split(0.5), 'default share of a split')
        for frac in (0.1, 0.25, 1 / 3, 0.5, 0.6, 0.75, 0.9):
            chk.step()
            t = (e.train_test_split(frac) - T0).total_seconds()
            before = sum(max(0, min(b, t) - a) for a, b in runs)
            require(abs(before - frac * total) <= 1.0, 'split {} at {}: {} s before it instead of {}', frac, t, before, frac * total)
            require(any(a <= t <= b for a, b in runs), 'split in a gap: {}', t)
        chk.state(item)
        return runs
    chk.case('splits', item, run)


def run(chk):
    units = (60, 3600, 20 * 3600, 3 * 86400) if THOROUGH else (60, 20 * 3600)
    chk.parallel('splits', splits, [(u, h) for u in units for h in itertools.product((0, 1), repeat=8 if THOROUGH else 7)])
    m = ['full', 'gap', 'two gaps', 'late']
    s2 = ['full', 'gap', 'early', 'other', 'late']
    s3 = ['full', 'two gaps', 'other', 'early', 'gap']
    tys = [('AP', 'A', 'P', 'A', 'A'), ('A', 'A', 'A', 'P', 'A'), ('P', 'AP', 'P', 'A', 'P'), ('AP', 'P', 'AP', 'AP', 'A'), ('A', 'P', 'P', 'P', 'P')]
    if THOROUGH:
        m, s2, s3, tys = m[:3], s2[:4], s3[:3], tys[:4]
        last = {0: [('full', 'all'), ('late', 'morning')], 1: [('full', 'all'), ('late', 'morning')]}
    else:
        m, s2, s3, tys = m[:2], s2[1:4], s3[1:3], tys[:3]
        last = {0: [('late', 'morning')], 1: [('full', 'all')]}
    chk.bounds = BOUNDS % (len(m), len(s2), len(s3), len(tys), 2)
    work = [((a, b, c, d, 'full'), ty, nested, win) for a in m for b in s2 for c in s3 for ty in tys for nested in (0, 1)
            for d, win in last[nested]]
    chk.parallel('energies', energies, work)
    chk.parallel('shares', shares, work)
