"""M05: identity, set operations and pairwise statistics of groups - they depend on the members only, whatever their order and nesting."""
import itertools
import math
import random
import pandas as pd
from nilmtk import MeterGroup, TimeFrame
from nilmtk.elecmeter import ElecMeterID
from nilmtk.metergroup import MeterGroupID, replace_dataset, iterate_through_submeters_of_two_metergroups
from lib.core import THOROUGH, require, Violation
from lib import stores as S
from lib import meters as M
from lib import memstore as MS

PA = (('power', 'active'),)
PP = (('power', 'apparent'), ('voltage', None))
EA = (('energy', 'active'),)
DEV = {'dev': M.device(PA, 1, 1), 'slow': M.device(PP, 6, 6), 'energy': M.device(EA, 3, 3)}
FACTS = {'dev': (1, {('power', 'active')}), 'slow': (6, {('power', 'apparent'), ('voltage', None)}),
         'energy': (3, {('energy', 'active')})}
# building: instance -> (device, metadata, appliance type)
B1 = {1: ('slow', {'site_meter': True}, None), 2: ('dev', {'submeter_of': 1}, 'fridge'), 3: ('energy', {'submeter_of': 1}, 'kettle'),
      4: ('dev', {'submeter_of': 1}, 'electric oven'), 5: ('slow', {'submeter_of': 1}, 'electric oven')}
B2 = {1: ('slow', {'site_meter': True}, None), 2: ('energy', {'submeter_of': 1}, 'light'), 3: ('dev', {'submeter_of': 2}, 'freezer')}
SPEC = {('A', 1): B1, ('A', 2): B2, ('B', 1): B1, ('B', 2): B2}
UNITS = [('A', 1, 1), ('A', 1, 2), ('A', 1, 3), ('A', 1, (4, 5)), ('A', 1, (5, 4)), ('A', 2, 2), ('B', 1, 2), ('B', 1, (4, 5))]
SMALL = UNITS if THOROUGH else [u for u in UNITS if u not in (('A', 1, 3),)]
BOUNDS = ('every ordered list of up to 3 of %d members (two data sets, two buildings, nested groups, also reassembled in another order) '
          'against every list of up to %d; every list of up to 3 identifiers in every form; every order and nesting of 3 submeters; all '
          'patterns of %d readings of 3 submeters x thresholds') % (len(SMALL), 3 if THOROUGH else 2, 4 if THOROUGH else 3)
ASSUMPTIONS = ['the order of the members of a union is not part of the property', 'correlation and mutual information of two meters are '
               'E05, loading of nested groups is M01, switching times of one meter are E03', 'identifiers of single meters inside a nested '
               'group are not looked up', 'nilm_metadata is replaced by a stand-in']


def building(spec, values=None):
    meters, apps = {}, {}
    for i, (dev, md, typ) in spec.items():
        cols = {'dev': PA, 'slow': PP, 'energy': EA}[dev]
        v = [[float((o * 37 * (i + 1)) % 200)] * len(cols) for o in range(6)] if values is None else [[x] for x in values[i]]
        meters[i] = (S.frame(range(len(v)), cols, tz='UTC', values=v), dict(md, device_model=dev))
        if typ:
            apps.setdefault(typ, []).append(i)
    return meters, [{'type': t, 'instance': 1, 'meters': ms} for t, ms in apps.items()]


def worlds():
    a = MS.dataset({1: building(B1), 2: building(B2)}, DEV, name='A')
    b = MS.dataset({1: building(B1), 2: building(B2)}, DEV, name='B', fresh=False)
    return {'A': a, 'B': b}


def unit(ds, u):
    name, b, i = u
    e = ds[name].buildings[b].elec
    if not isinstance(i, tuple):
        return e[i]
    g = [m for m in e.meters if isinstance(m, MeterGroup)][0]
    return g if i == (4, 5) else MeterGroup([g[k] for k in i])


def norm(u):
    """What a member is: groups are the same whatever the order of their meters."""
    return (u[0], u[1], frozenset(u[2]) if isinstance(u[2], tuple) else u[2])


def flat(us):
    return [(d, b, k) for d, b, i in us for k in (i if isinstance(i, tuple) else (i,))]


def eid(u):
    return ElecMeterID(u[2], u[1], u[0])


def ident(u):
    return MeterGroupID(tuple(ElecMeterID(k, u[1], u[0]) for k in u[2])) if isinstance(u[2], tuple) else eid(u)


def same(got, us, what):
    """got is a group holding exactly the members us in this order"""
    require(isinstance(got, MeterGroup), '{}: {!r}', what, type(got))
    require([m.identifier for m in got.meters] == [ident(u) for u in us], '{}: {} instead of {}', what,
            [m.identifier for m in got.meters], us)


def simplest(values):
    v = set(values)
    return list(v)[0] if len(v) == 1 else (None if not v else v)


def equal_simplest(got, want):
    return set(got) == want and len(got) == len(want) if isinstance(want, set) else got == want


def lists(units, n):
    return [c for k in range(n + 1) for c in itertools.permutations(units, k)]


def sets(chk, item):
    def run():
        ds = worlds()
        ms = {u: unit(ds, u) for u in UNITS}
        g = MeterGroup([ms[u] for u in item])
        keep = list(g.meters)
        what = 'group of %s' % (item,)
        # what a group says about itself
        chk.step(8)
        require(g.identifier == MeterGroupID(tuple(ident(u) for u in item)), '{}: identifier {}', what, g.identifier)
        require(g.instance() == tuple(u[2] for u in item), '{}: instance {}', what, g.instance())
        require(equal_simplest(g.building(), simplest(u[1] for u in item)), '{}: building {}', what, g.building())
        require(equal_simplest(g.dataset(), simplest(u[0] for u in item)), '{}: dataset {}', what, g.dataset())
        require(g.contains_meters_from_multiple_buildings() is (len({u[1] for u in item}) > 1), '{}: several buildings', what)
        require([len(g.nested_metergroups())] == [sum(isinstance(u[2], tuple) for u in item)], '{}: nested groups', what)
        devs = [SPEC[u[:2]][u[2]][0] for u in flat(item)]
        if item:
            require(g.sample_period() == max(FACTS[d][0] for d in devs), '{}: sample period {}', what, g.sample_period())
        cols = set().union(*[FACTS[d][1] for d in devs]) if devs else set()
        require(sorted(g.available_physical_quantities()) == sorted({c[0] for c in cols}), '{}: quantities {}', what,
                g.available_physical_quantities())
        for pq in ('power', 'energy'):
            require(sorted(g.available_ac_types(pq)) == sorted({c[1] for c in cols if c[0] == pq}), '{}: AC types of {}: {}', what, pq,
                    g.available_ac_types(pq))
        require(sorted(g.available_ac_types(['power', 'energy'])) == sorted({c[1] for c in cols if c[1]}), '{}: AC types {}', what,
                g.available_ac_types(['power', 'energy']))
        site = [u for u in item if u[2] == 1]
        require(g.is_site_meter() is bool(site), '{}: is_site_meter', what)
        same(g.submeters(), [u for u in item if u not in site], what + ': submeters')
        if len({u[1] for u in item}) <= 1:
            m = g.mains()
            require((m is None) if not site else (m is ms[site[0]]) if len(site) == 1 else isinstance(m, MeterGroup), '{}: mains {}', what, m)
        if len({norm(u) for u in item}) == len(item):
            for asked in itertools.permutations(item):
                labels = g.get_labels([ident(u) for u in asked])
                require(labels == [ms[u].label(pretty=True) for u in asked], '{}: labels of {}: {}', what, asked, labels)
        mine = {norm(u) for u in item}
        for other in lists(SMALL, 3 if THOROUGH else 2):
            o = MeterGroup([ms[u] for u in other])
            theirs = {norm(u) for u in other}
            chk.step(2)
            eq = mine == theirs
            require((g == o) is eq and (o == g) is eq and (g != o) is (not eq), '{} and of {}: equal {}', what, other, g == o)
            require(not eq or hash(g) == hash(o), '{} and of {}: hashes differ', what, other)
            require(((o in [g]) is eq) and ((o in {g: 1}) is eq), '{} and of {}: as a key', what, other)
            n = g.union(o)
            require(isinstance(n, MeterGroup) and n is not g and n is not o, '{}, union: not a new group', what)
            require(len(n.meters) == len(mine | theirs) and set(n.meters) == {ms[u] for u in item + other}, '{} union {}: {}', what,
                    other, n.identifier)
            require(len(o.meters) == len(other) and all(a is ms[u] for a, u in zip(o.meters, other)), 'the other group was changed')
            n.meters[:] = []
        for bad in (None, 'fridge', [ms[UNITS[0]]], ms[UNITS[0]]):
            try:
                g.union(bad)
            except TypeError:
                pass
            else:
                raise Violation('union with %r is not refused' % (bad,))
            require(g != bad and not (g == bad), 'equal to {!r}', bad)
        require(len(keep) == len(g.meters) and all(a is b for a, b in zip(keep, g.meters)), 'the group was changed')
        chk.state(item)
        return len(mine)
    chk.case('sets', item, run)


# members asked for by identifier; the container is building 1 of A with everything else
FORMS = [('id', ('A', 1, 1)), ('id', ('A', 1, 2)), ('id', ('A', 1, (4, 5))), ('id', ('A', 1, (5, 4))), ('new', (2, 3)), ('new', (3, 2)),
         ('tuple', (2, 3)), ('tuple', (4, 5)), ('tuple', (5, 4)), ('absent', ('A', 1, 9)), ('absent', ('C', 1, 1)), ('bad', 3), ('bad', 'x')]


def rebuild(chk, item):
    def run():
        ds = worlds()
        e = ds['A'].buildings[1].elec
        keep = list(e.meters)
        nest = [m for m in e.meters if isinstance(m, MeterGroup)][0]
        ids, want, err = [], [], None
        for kind, x in item:
            if kind == 'id':
                i, w = ident(x), (e[x[2]] if not isinstance(x[2], tuple) else nest)
            elif kind in ('new', 'tuple'):
                t = tuple(ElecMeterID(k, 1, 'A') for k in x)
                i, w = (MeterGroupID(t) if kind == 'new' else t), (nest if set(x) == {4, 5} else x)
            elif kind == 'absent':
                i, w = eid(x), KeyError
            else:
                i, w = x, TypeError
            if i in ids:        # a repeated identifier counts once
                continue
            ids.append(i)
            want.append(w)
            if isinstance(w, type) and err is None:
                err = w
        chk.step()
        for arg in (list(ids), tuple(ids), iter(ids), list(ids) + list(ids)):
            try:
                g = e.from_list(arg)
            except (KeyError, TypeError) as ex:
                require(err is not None and isinstance(ex, err), '{}: {!r}', item, ex)
                continue
            require(err is None, '{} is not refused', item)
            require(len(g.meters) == len(want), '{}: {}', item, g.identifier)
            for m, w in zip(g.meters, want):
                if isinstance(w, tuple):
                    require(isinstance(m, MeterGroup) and len(m.meters) == len(w) and all(a is e[k] for a, k in zip(m.meters, w)),
                            '{}: assembled {}', item, m)
                else:
                    require(m is w, '{}: {} instead of {}', item, m, w)
        require(len(keep) == len(e.meters) and all(a is b for a, b in zip(keep, e.meters)), 'the container was changed')
        chk.state(item)
        return err.__name__ if err else len(want)
    chk.case('rebuild', item, run)


def transfer(chk, item):
    """The same meters in another data set."""
    us, slave_order = item

    def run():
        ds = worlds()
        ms = [unit(ds, u) for u in us]
        g = MeterGroup(ms)
        before = g.identifier
        for target in ('B', 'A'):
            chk.step(2)
            new = MeterGroup.from_other_metergroup(g, target)
            same(new, [(target,) + u[1:] for u in us], 'from_other_metergroup(%s)' % (us,))
            for m, u in zip(new.meters, us):
                e = ds[target].buildings[u[1]].elec
                parts, ks = (m.meters, u[2]) if isinstance(u[2], tuple) else ([m], (u[2],))
                require(all(p is e[k] for p, k in zip(parts, ks)), 'not the meters of {}', target)
            i = replace_dataset(g.identifier, target)
            require(i == MeterGroupID(tuple(ident((target,) + u[1:]) for u in us)), 'replace_dataset: {}', i)
            require(g.identifier == before, 'the identifier was changed')
        try:
            MeterGroup.from_other_metergroup(g, 'C')
        except KeyError:
            pass
        else:
            require(not us, 'meters of an absent data set are not refused')
        for bad in (('A', 1, 1), 'A', None):
            try:
                replace_dataset(bad, 'B')
            except TypeError:
                pass
            else:
                raise Violation('replace_dataset(%r) is not refused' % (bad,))
        # pairs of submeters
        pool = ds['B'].buildings[1].elec.meters + ds['B'].buildings[2].elec.meters[1:2]
        slave = MeterGroup([pool[k] for k in slave_order])
        there = {norm(('A', m.building(), m.instance())) for m in slave.meters}
        want = [u for u in us if u[2] != 1]
        chk.step()
        try:
            got = iterate_through_submeters_of_two_metergroups(g, slave)
        except KeyError:
            require(any(norm(u) not in there for u in want), 'pairs of {} refused', us)
            return 'refused'
        require(all(norm(u) in there for u in want), 'pairs of {} with {} are not refused', us, slave.instance())
        require(len(got) == len(want), 'pairs of {}: {}', us, got)
        for (a, b), u in zip(got, want):
            require(a is ms[us.index(u)] and b in slave.meters and b.dataset() == 'B'
                    and norm(('A', b.building(), b.instance())) == norm(u), 'pair {} {} for {}', a, b, u)
        chk.state(item)
        return len(want)
    chk.case('transfer', item, run)


def near(a, b):
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) < 1e-6 * max(1., abs(a), abs(b))


ONE = {i: ('dev', md, t) for i, (_, md, t) in B1.items()}


def pairs(chk, item):
    order, apps = item

    def run():
        # values without equal distances: the estimates do not depend on how ties fall
        vals = {i: [random.Random(100 * i + k).uniform(1, 300) for k in range(7)] for i in ONE}
        ds = MS.dataset({1: building({i: (d, md, t if apps else None) for i, (d, md, t) in ONE.items()}, vals)}, DEV, name='A')
        e = ds.buildings[1].elec
        g = MeterGroup([e.meters[k] for k in order])
        ids = [m.identifier for m in g.meters]
        for name in ('entropy', 'sample_period', 'vampire_power'):
            chk.step()
            got = g.call_method_on_all_meters(name)
            require(list(got.index) == ids, '{}: index {}', name, list(got.index))
            for m in g.meters:
                require(near(got[m.identifier], getattr(m, name)()), '{} of {}: {}', name, m, got[m.identifier])
        got = g.entropy_per_meter()
        require(list(got.index) == ids and all(near(got[m.identifier], m.entropy()) for m in g.meters), 'entropies: {}', got)
        for name, f in (('correlation', g.pairwise_correlation), ('mutual_information', g.pairwise_mutual_information)):
            if name != 'correlation' and any(isinstance(m, MeterGroup) for m in g.meters):
                continue        # only defined for series of one length
            chk.step()
            for got in (f(), g.pairwise(name)):
                require(list(got.index) == ids and list(got.columns) == ids, '{}: labels', name)
                for i, j in itertools.product(range(len(ids)), repeat=2):
                    if i == j and name != 'correlation':
                        continue        # all distances tie
                    a, b = sorted((i, j))
                    w = getattr(g.meters[a], name)(g.meters[b])
                    require(near(got.iloc[i, j], w), '{} of {} and {}: {} instead of {}', name, ids[i], ids[j], got.iloc[i, j], w)
        chk.state(item)
        return len(ids)
    chk.case('pairs', item, run)


def switches(chk, item):
    pats, nested, thr = item

    def run():
        level = {0: 0., 1: 50., 2: 130.}
        n = len(pats[0])
        vals = {1: [200.] * n, 2: [level[k] for k in pats[0]], 3: [level[k] for k in pats[1]], 4: [level[k] for k in pats[2]],
                5: [1000. * (i % 2) for i in range(n)] if nested == 'own' else [0.] * n}
        # one more reading, the same again: the end of the time frame of a nested group is not part of it (M01)
        vals = {i: v + v[-1:] for i, v in vals.items()}
        spec = {i: (d, md, t if i > 3 and nested else None) for i, (d, md, t) in ONE.items()}
        if not nested:
            del spec[5]
        e = MS.dataset({1: building(spec, vals)}, DEV, name='A').buildings[1].elec
        want = {}
        subs = [vals[2], vals[3]] + ([vals[4]] if not nested else [[a + b for a, b in zip(vals[4], vals[5])]])
        for k in range(1, n):
            c = sum(abs(v[k] - v[k - 1]) > (40 if thr is None else thr) for v in subs)
            if c > 1:
                want[k] = c
        chk.step()
        got = e.simultaneous_switches(**({} if thr is None else {'threshold': thr}))
        ix = [pd.Timestamp(t) for t in got.index]
        ix = [t.tz_localize('UTC') if t.tz is None else t for t in ix]
        t0 = S.times([0], 'UTC')[0]
        g = {int((t - t0).total_seconds()): int(c) for t, c in zip(ix, got)}
        require(len(ix) == len(g) and g == want, 'simultaneous switches {} instead of {}', g, want)
        chk.state(item)
        return tuple(sorted(want.items()))
    chk.case('switches', item, run)


def corrsum(chk, item):
    tree, order, pat = item

    def run():
        vals = {1: [30., 51., 92., 13., 7.], 2: [10., 31., 2., 43., 8.], 3: [5., 7., 40., 1., 9.], 4: [[8., 9., 1., 2., 5.], [0., 50., 0., 50., 0.]][pat]}
        spec = {1: ('dev', {'site_meter': True}, None)}
        for i in order:
            spec[i] = ('dev', {'submeter_of': tree[i - 2]}, None)
        e = MS.dataset({1: building(spec, vals)}, DEV, name='A').buildings[1].elec
        direct = [i for i in (2, 3, 4) if tree[i - 2] in (0, 1)]
        total = [sum(vals[i][k] for i in direct) for k in range(5)]
        x, y = vals[1][:-1], total[:-1]     # a section makes the meters aligned, as correlation needs
        mx, my = sum(x) / len(x), sum(y) / len(y)
        cov = sum((a - mx) * (b - my) for a, b in zip(x, y))
        want = cov / math.sqrt(sum((a - mx) ** 2 for a in x) * sum((b - my) ** 2 for b in y))
        chk.step(2)
        got = e.correlation_of_sum_of_submeters_with_mains(sections=[TimeFrame(*S.times([0, 4], 'UTC'))])
        require(near(got, want), 'correlation with the mains {} instead of {}', got, want)
        require(e.meters_directly_downstream_of_mains() == MeterGroup([e[i] for i in direct]), 'direct submeters')
        chk.state(item)
        return round(want, 6)
    chk.case('corrsum', item, run)


def run(chk):
    chk.parallel('sets', sets, lists(UNITS if THOROUGH else SMALL, 3))
    chk.parallel('rebuild', rebuild, [c for n in range(4) for c in itertools.product(FORMS, repeat=n)])
    ua = [u for u in UNITS if u[0] == 'A']
    orders = [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (1, 0), (3, 0), (4, 1)]
    if THOROUGH:
        orders += list(itertools.permutations(range(5), 4))
    chk.parallel('transfer', transfer, [(c, o) for c in lists(ua, 3) if len({norm(u) for u in c}) == len(c) for o in orders])
    chk.parallel('pairs', pairs, [(o, a) for a in (False, True) for n in (1, 2, 3)
                                  for o in itertools.permutations(range(4 if a else 5), n)])
    n = 4 if THOROUGH else 3
    pats = list(itertools.product((0, 1, 2), repeat=n))
    if not THOROUGH:
        third = [(0, 1, 1), (0, 1, 0), (1, 1, 0), (2, 1, 0), (0, 0, 0), (0, 2, 2)]
    else:
        third = [(0, 1, 1, 0), (0, 2, 0, 2), (0, 0, 0, 0), (1, 0, 0, 1), (2, 1, 0, 0)]
    chk.parallel('switches', switches, [((a, b, c), nest, t) for a in pats for b in pats for c in third
                                        for nest, t in ((None, None), (None, 80), ('with', None), ('own', 50))])
    trees = [t for t in itertools.product((0, 1, 2, 3, 4), repeat=3)
             if all(t[i - 2] != i for i in (2, 3, 4)) and acyclic(t) and any(x in (0, 1) for x in t)]
    chk.parallel('corrsum', corrsum, [(t, o, p) for t in trees for o in itertools.permutations((2, 3, 4)) for p in (0, 1)])


def acyclic(t):
    for i in (2, 3, 4):
        seen = set()
        while i in (2, 3, 4):
            if i in seen:
                return False
            seen.add(i)
            i = t[i - 2]
    return True
