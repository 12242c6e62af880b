"""S04: statistics of separate periods combine exactly, refuse overlaps, and survive the cache."""
import copy
import itertools
import pandas as pd
from nilmtk import TimeFrame
from nilmtk.stats.totalenergyresults import TotalEnergyResults
from nilmtk.stats.dropoutrateresults import DropoutRateResults
from nilmtk.stats.goodsectionsresults import GoodSectionsResults
from lib.core import THOROUGH, Violation, require, feq
from lib import stores as S, tf as T

TZS = ['UTC', 'Europe/London', None]
SLOTS = 5
FRAMES = [(a, b) for a in range(SLOTS) for b in range(a + 1, SLOTS)]
DEPTH = 4 if THOROUGH else 3
BOUNDS = ('all histories of up to %d appends of periods over %d instants (all %d periods, overlapping ones included) for energy and dropout '
          'results, every split of the history into two results merged by update, unify of every pair, cache round trip with every subset '
          'of periods, in zones %s' % (DEPTH, SLOTS, len(FRAMES), TZS))
ASSUMPTIONS = ['the cache is driven through export/import, as the statistics code does']


def stamp(i, tz):
    # around the end of British summer time, so that a time zone lost in the cache shows
    t = pd.Timestamp('2013-10-26 22:00').as_unit('ns') + pd.Timedelta(hours=2 * i)
    return t.tz_localize('UTC').tz_convert(tz) if tz else t


def frame(f, tz):
    return TimeFrame(stamp(f[0], tz), stamp(f[1], tz))


def overlap(f, g):
    return f[0] < g[1] and g[0] < f[1]


def energy_values(f, k=0):
    v = {'active': f[0] + 10 * f[1] + 0.25 + k}
    if (f[0] + f[1]) % 2 == 0:
        v['apparent'] = 100 * f[0] + f[1] + 0.5
    return v


def drop_values(f, k=0):
    return {'dropout_rate': ((f[0] * 3 + f[1] + k) % 7) / 8., 'n_samples': 5 + f[0] + 2 * f[1] + k}


KINDS = {'energy': (TotalEnergyResults, energy_values), 'dropout': (DropoutRateResults, drop_values)}


def check_against(res, model, kind, tz):
    """res holds exactly the periods of the model."""
    tfs = [(t.start, t.end) for t in res.timeframes()]
    want = [(stamp(a, tz), stamp(b, tz)) for a, b in sorted(model)]
    require(tfs == want, 'covers {} instead of {}', tfs, want)
    if not model:
        return
    per = res.per_period()
    for (a, b) in model:
        row = per.loc[stamp(a, tz)]
        require(row['end'] == stamp(b, tz), 'end of {} is {}', (a, b), row['end'])
        for k, v in model[(a, b)].items():
            require(feq(row[k], v), '{} of {} is {} not {}', k, (a, b), row[k], v)
    got = res.combined()
    if kind == 'energy':
        tot = {}
        for v in model.values():
            for k, x in v.items():
                tot[k] = tot.get(k, 0) + x
        require(set(got.keys()) == set(tot) and all(feq(got[k], tot[k]) for k in tot), 'combined {} not {}', dict(got), tot)
    else:
        n = sum(v['n_samples'] for v in model.values())
        want = sum(v['dropout_rate'] * v['n_samples'] for v in model.values()) / n
        require(feq(got, want), 'combined {} not {}', got, want)


def try_append(res, model, f, vals, tz, kind):
    bad = any(overlap(f, g) for g in model)
    try:
        res.append(frame(f, tz), dict(vals))
        require(not bad, 'overlapping period {} was accepted next to {}', f, sorted(model))
        model[f] = dict(vals)
    except ValueError:
        require(bad, 'period {} was refused next to {}', f, sorted(model))
    check_against(res, model, kind, tz)


def build(hist, kind, tz, k=0):
    cls, val = KINDS[kind]
    res, model = cls(), {}
    for f in hist:
        try_append(res, model, f, val(f, k), tz, kind)
    return res, model


def histories(chk, item):
    kind, tz, hist = item
    cls, val = KINDS[kind]

    def run():
        chk.step(len(hist))
        res, model = build(hist, kind, tz)
        chk.state((kind, tz, sorted(model)))
        # merging two results: every split point
        for cut in range(len(hist) + 1):
            a, ma = build(hist[:cut], kind, tz)
            b, mb = build(hist[cut:], kind, tz)
            bad = any(overlap(f, g) for f in ma for g in mb)
            chk.step()
            try:
                a.update(b)
                require(not bad, 'update merged overlapping periods')
                ma.update(mb)
            except ValueError:
                require(bad, 'update refused {} and {}', sorted(ma), sorted(mb))
            check_against(a, ma, kind, tz)
            check_against(b, mb, kind, tz)
        # cache: every subset of the periods, plus one that is not there
        if model and tz is not None:
            cached = res.export_to_cache()
            for r in range(len(model) + 1):
                for want in itertools.combinations(sorted(model), r):
                    fresh = cls()
                    chk.step()
                    fresh.import_from_cache(cached, [frame(f, tz) for f in want] + [frame((0, 9), tz)])
                    m = {f: dict(model[f]) for f in want}
                    if kind == 'energy' and want:
                        for f in m:                        # a column absent from one period is stored as zero
                            for k in set().union(*model.values()):
                                m[f].setdefault(k, 0.0)
                    check_against(fresh, m, kind, tz)
            check_against(res, model, kind, tz)
        return (kind, sorted(model))
    chk.case('histories', item, run)


def reactive_values(f, k=0):
    """A meter with other AC types than energy_values."""
    v = {'reactive': 3. * f[0] + f[1] + k}
    if f[0] % 2:
        v['active'] = 7. + f[1]
    return v


def unify(chk, item):
    """Three meters unified in turn."""
    kind, tz, fs, gs = item

    def run():
        a, ma = build(fs, kind, tz)
        b, mb = build(gs, kind, tz, k=1)
        cls, val = KINDS[kind]
        val = reactive_values if kind == 'energy' else val
        c, mc = cls(), {}
        for f in gs:
            try_append(c, mc, f, val(f, 2), tz, kind)
        chk.step()
        same = set(ma) == set(mb)
        try:
            a.unify(b)
        except RuntimeError:
            require(not same, 'refused to unify equal periods {} {}', fs, gs)
            check_against(a, ma, kind, tz)
            check_against(b, mb, kind, tz)
            return 'refused'
        require(same, 'unified different periods {} {}', fs, gs)

        def merged(*models):
            out = {}
            for f in ma:
                vs = [m[f] for m in models]
                if kind == 'energy':
                    out[f] = {k: sum(v.get(k, 0.0) for v in vs) for k in set().union(*vs)}
                else:
                    out[f] = {'dropout_rate': sum(v['dropout_rate'] for v in vs) / len(vs), 'n_samples': sum(v['n_samples'] for v in vs)}
            return out
        check_against(a, merged(ma, mb), kind, tz)
        check_against(b, mb, kind, tz)
        a.unify(c)
        check_against(a, merged(ma, mb, mc), kind, tz)
        check_against(c, mc, kind, tz)
        # the other way round
        a2, _ = build(fs, kind, tz)
        b.unify(c)
        b.unify(a2)
        check_against(b, merged(ma, mb, mc), kind, tz)
        chk.state(item)
        return sorted(ma)
    chk.case('unify', item, run)


def good_unify(chk, item):
    """Good sections of two meters unify to the time good in both."""
    xs, ys, tz = item

    def run():
        chk.step()
        def make(secs):
            r = GoodSectionsResults(1)
            r.append(frame((0, 9), tz), {'sections': [[frame(s, tz) for s in secs]]})
            return r
        a, b = make(xs), make(ys)
        a.unify(b)
        got = [(s.start, s.end) for s in a.combined()]
        want = []
        for x in xs:
            for y in ys:
                lo, hi = max(x[0], y[0]), min(x[1], y[1])
                if lo < hi:
                    want.append((stamp(lo, tz), stamp(hi, tz)))
        require(sorted(got) == sorted(want), 'unified {} instead of {}', got, want)
        require([(s.start, s.end) for s in b.combined()] == [(stamp(p, tz), stamp(q, tz)) for p, q in ys], 'other changed')
        chk.state(item)
        return want
    chk.case('good sections unify', item, run)


def good_cache(chk, item):
    """Good sections survive the cache, open ends and time zone included."""
    rows, tz = item            # rows: list of (period, sections)

    def run():
        r = GoodSectionsResults(3600)
        for per, secs in rows:
            r.append(frame(per, tz), {'sections': [[TimeFrame(None if a is None else stamp(a, tz), None if b is None else stamp(b, tz))
                                                    for a, b in secs]]})
        want = [(s.start, s.end) for s in r.combined()]
        require([(s.start, s.end) for s in r.combined()] == want, 'combined twice differs')
        q = GoodSectionsResults(3600)
        chk.step(2)
        q.import_from_cache(r.export_to_cache(), [frame(p, tz) for p, _ in rows])
        got = [(s.start, s.end) for s in q.combined()]
        require(got == want, 'from the cache {} instead of {}', got, want)
        require([(t.start, t.end) for t in q.timeframes()] == [(t.start, t.end) for t in r.timeframes()], 'periods')
        d = r.to_dict()['statistics']['good_sections']
        require(d == [{'start': a.isoformat(), 'end': b.isoformat()} for a, b in want], 'as dictionary {}', d)
        chk.state(item)
        return want
    chk.case('good sections cache', item, run)


def sections_in(a, b, lo_open, hi_open):
    """All lists of up to two disjoint sections of [a, b] on the grid, with open ends where allowed."""
    starts = ([None] if lo_open else []) + list(range(a, b))
    out = []
    for x in starts:
        for y in list(range(a + 1, b + 1)) + ([None] if hi_open else []):
            if y is not None and (a if x is None else x) >= y:
                continue
            out.append([(x, y)])
            if y is not None:
                for x2 in range(y + 1, b):
                    for y2 in list(range(x2 + 1, b + 1)) + ([None] if hi_open else []):
                        out.append([(x, y), (x2, y2)])
    return out


def run(chk):
    hs = [h for d in range(1, DEPTH + 1) for h in itertools.product(FRAMES, repeat=d)]
    items = [(k, tz, h) for h in hs for k in KINDS for tz in TZS if len(h) < DEPTH or (THOROUGH and len(h) < 4) or
             (tz == 'Europe/London' and (k == 'energy' or THOROUGH))]
    chk.parallel('histories', histories, items)
    sets = [h for d in (1, 2) for h in itertools.combinations(FRAMES, d)
            if all(not overlap(f, g) for f, g in itertools.combinations(h, 2))]
    chk.parallel('unify', unify, [(k, tz, f, g) for k in KINDS for tz in TZS[:2] for f in sets for g in sets])
    pairs = [h for d in (1, 2) for h in itertools.combinations(FRAMES, d) if all(not overlap(f, g) and f[1] < g[0] or f == g
             for f, g in itertools.combinations(sorted(h), 2))]
    chk.parallel('good sections unify', good_unify, [(x, y, tz) for x in pairs for y in pairs for tz in TZS[:2]])
    one = sections_in(0, 3, False, True)
    two = sections_in(3, 6, True, True)
    items = []
    for x in one:
        items += [([((0, 3), x)], tz) for tz in TZS[:2]]
        for y in two:
            if (x[-1][1] is None) == (y[0][0] is None):
                items += [([((0, 3), x), ((3, 6), y)], tz) for tz in TZS[:2]]
                items += [([((0, 3), x), ((4, 6), [s for s in y if s[0] is None or s[0] >= 4] or [(4, 5)])], tz) for tz in TZS[:2]
                          if y[0][0] is not None]
    chk.parallel('good sections cache', good_cache, items)
