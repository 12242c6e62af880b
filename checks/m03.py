"""M03: the wiring of a building is the tree its metadata describe, inside the data set it belongs to."""
import itertools
import pandas as pd
from nilmtk import MeterGroup, TimeFrame
from nilmtk.elecmeter import ElecMeterID
from lib.core import THOROUGH, require
from lib import meters as M
from lib import memstore as MS

BOUNDS = ('every tree of up to %d submeters below one or two site meters (or below "the mains"), every order of listing up to 5 meters (two orders of more), '
          'disabled alternative mains, dual supplies nested in a group; one to three data sets open at once, with equal and different '
          'names, device models and windows')
ASSUMPTIONS = ['submeter_of = 0 means the mains of the building in use', 'an upstream meter exists and the wiring has no cycle',
               'a building whose site meters are all disabled has no mains (not claimed)', 'nilm_metadata is replaced by a stand-in']
DEV = {'dev': M.device((('power', 'active'),), 1, 2)}


BIG = (0, 3, 12, 20, 100, 21, 7, 8, 9)          # other numbers for the meters


def acyclic(up):
    for i in up:
        seen = set()
        while i in up and up[i] != 0:
            if i in seen:
                return False
            seen.add(i)
            i = up[i]
    return True


def trees(n_sites, n_sub):
    subs = [n_sites + 1 + k for k in range(n_sub)]
    parents = [0] + list(range(1, n_sites + n_sub + 1))
    for ups in itertools.product(parents, repeat=n_sub):
        up = dict(zip(subs, ups))
        if all(k != v for k, v in up.items()) and acyclic(up):
            yield up


def metas(sites, up, disabled=()):
    ms = {s: {'site_meter': True} for s in sites}
    ms.update({k: {'submeter_of': v} for k, v in up.items()})
    for d in disabled:
        ms[d]['disabled'] = True
    return ms


def build(ms, order, apps=(), name='TEST', fresh=True, buildings=(1,), dev=None):
    return MS.dataset({b: ({i: (None, dict(ms[i])) for i in order}, [dict(a) for a in apps]) for b in buildings}, dev or DEV, name=name,
                      fresh=fresh)


def flat(g):
    out = []
    for m in g.meters:
        out += flat(m) if isinstance(m, MeterGroup) else [m]
    return out


def name(m):
    return tuple(sorted(m.instance())) if isinstance(m, MeterGroup) else m.instance()


def outcome(f):
    try:
        return f()
    except RuntimeError as e:
        return RuntimeError


def check_building(elec, own, ms, mains, store, chk):
    """own: instances in the group; mains: instances of the site meters in use."""
    byid = {m.instance(): m for m in flat(elec)}
    byid.update({m.instance(): m for m in elec.disabled_meters})
    require(set(m.instance() for m in flat(elec)) == set(own), 'meters {} instead of {}', elec.instance(), own)
    require(all(m.store is store for m in byid.values()), 'a meter reads another store')

    def up_of(i):
        if ms[i].get('site_meter'):
            return None
        p = ms[i]['submeter_of']
        return p if p else mains[0] if len(mains) == 1 else tuple(sorted(mains))

    def same(m, want):
        """m is the very object of this data set (or a group of such objects)"""
        if want is None:
            return m is None
        if isinstance(want, tuple):
            return isinstance(m, MeterGroup) and len(m.meters) == len(want) and {id(x) for x in m.meters} == {id(byid[w]) for w in want}
        return m is byid[want]
    edges = set()
    for i in own:
        chk.step()
        u = byid[i].upstream_meter(raise_warning=False)
        require(same(u, up_of(i)), 'upstream of {}: {} (expected {})', i, u, up_of(i))
        if u is not None:
            edges.add((up_of(i), i))
    m = elec.mains()
    require(same(m, mains[0] if len(mains) == 1 else tuple(sorted(mains))), 'mains {} instead of {}', m, mains)
    subs = elec.submeters()
    require({id(x) for x in flat(subs)} == {id(byid[i]) for i in own if not ms[i].get('site_meter')}, 'submeters {}', subs.instance())
    require(len(subs.meters) == len([x for x in elec.meters if not x.is_site_meter()]), 'submeters counted twice')
    require(subs.mains() is None, 'mains among the submeters')
    require(elec.is_site_meter() and not subs.is_site_meter(), 'is_site_meter of a group')
    nodes = {n for e in edges for n in e}
    roots = [n for n in nodes if all(n != b for _, b in edges)]
    for g in (elec, subs):
        chk.step()
        graph = g.wiring_graph()
        require({(name(a), name(b)) for a, b in graph.edges()} == edges and len(graph.edges()) == len(edges), 'wiring {} instead of {}',
                [(name(a), name(b)) for a, b in graph.edges()], edges)
        require(all(same(n, name(n)) for n in graph.nodes()), 'a node of the wiring is not a meter of this data set')
        down = outcome(g.meters_directly_downstream_of_mains)
        if len(roots) != 1:
            require(down is RuntimeError, 'meters below {} roots: {}', len(roots), down)
        else:
            require(down is not RuntimeError and sorted(map(name, down.meters)) == sorted(b for a, b in edges if a == roots[0]),
                    'directly below the mains: {}', down)
            require(all(same(x, name(x)) for x in down.meters), 'a meter below the mains is not of this data set')
    for size in (1, 2):
        for part in itertools.combinations([i for i in own if not ms[i].get('site_meter')], size):
            want = {up_of(i) for i in part}
            u = outcome(MeterGroup([byid[i] for i in part]).upstream_meter)
            chk.step()
            require(u is RuntimeError if len(want) > 1 else (u is not RuntimeError and same(u, next(iter(want)))), 'upstream of {}: {}', part, u)
    chk.state((tuple(sorted(edges, key=str)), tuple(mains)))


def wiring(chk, item):
    n_sites, up, order = item
    num = dict(zip(range(9), BIG if order == tuple(range(1, len(order) + 1)) else range(9)))
    up = {num[k]: num[v] for k, v in up}
    order = tuple(num[k] for k in order)
    sites = [num[k] for k in range(1, n_sites + 1)]

    def run():
        ms = metas(sites, up)
        ds = build(ms, order)
        check_building(ds.buildings[1].elec, list(order), ms, sites, ds.store, chk)
        return sorted(up.items())
    chk.case('wiring', item, run)


def alternative(chk, item):
    """site meters 1..3, some of them disabled; submeters 4, 5."""
    off, up, conns = item
    up = dict(up)
    apps = [dict(type='fridge', instance=k + 1, meters=list(c)) for k, c in enumerate(conns)]

    def run():
        ms = metas((1, 2, 3), up, off)
        ds = build(ms, sorted(ms), apps)
        e = ds.buildings[1].elec
        on = [s for s in (1, 2, 3) if s not in off]
        subs = sorted(up)
        check_building(e, on + subs, ms, on, ds.store, chk)
        require(sorted(m.instance() for m in e.disabled_meters) == sorted(off), 'disabled meters')
        require(sorted(m.instance() for m in e.all_meters()) == sorted(ms), 'all_meters')
        if not off:
            require(outcome(e.use_alternative_mains) is RuntimeError, 'there are no alternative mains')
            check_building(e, on + subs, ms, on, ds.store, chk)
            return 0
        for now, rest in ((off, on), (on, off), (off, on)):
            e.use_alternative_mains()
            check_building(e, list(now) + subs, ms, list(now), ds.store, chk)
            require(sorted(m.instance() for m in e.disabled_meters) == sorted(rest), 'disabled meters after the swap')
        return len(off)
    chk.case('alternative mains', item, run)


def dual(chk, item):
    """Appliances on one, two or three meters, or on the mains."""
    n_sites, up, conns = item
    up = dict(up)

    def run():
        sites = list(range(1, n_sites + 1))
        ms = metas(sites, up)
        apps = [dict(type='fridge', instance=k + 1, meters=list(c)) for k, c in enumerate(conns)]
        ds = build(ms, sorted(ms), apps)
        e = ds.buildings[1].elec
        check_building(e, sorted(ms), ms, sites, ds.store, chk)
        many = [c for c in conns if len(c) > 1]
        got = sorted(name(m) for m in e.meters if isinstance(m, MeterGroup))
        require(got == sorted(tuple(sorted(c)) for c in many), 'nested groups {} instead of {}', got, many)
        require(len(flat(e)) == len(ms), 'a meter appears twice')
        for m in flat(e):
            i = m.instance()
            want = [k + 1 for k, c in enumerate(conns) if i in c or (c == (0,) and i in sites)]
            require([a.identifier.instance for a in m.appliances] == want, 'appliances of meter {}: {} instead of {}', i, m.appliances, want)
        chk.step(len(ms))
        return len(many)
    chk.case('appliances', item, run)


def several(chk, item):
    """Data sets opened one after the other: names, order of meters, a device per data set, windows."""
    names, ups, orders = item
    idx = pd.date_range('2012-01-01', periods=20, freq='1s', tz='UTC')

    def run():
        MS.dataset({}, DEV)
        sets = []
        for k, (nm, up, order) in enumerate(zip(names, ups, orders)):
            ms = metas((1,), dict(up))
            dev = {'dev': dict(M.device((('power', ['active', 'reactive', 'apparent'][k]),), k + 1, 10 * (k + 1)), wireless=bool(k % 2))}
            frame = pd.DataFrame([float(k)] * 20, idx, columns=pd.MultiIndex.from_tuples([('power', ['active', 'reactive', 'apparent'][k])]))
            ds = MS.dataset({b: ({i: (frame, dict(ms[i])) for i in order}, []) for b in (1, 2)}, dev, name=nm, fresh=False)
            ds.set_window('2012-01-01 00:00:%02d' % (k + 1), '2012-01-01 00:00:%02d' % (k + 11))
            sets.append((ds, ms, order))
        for k, (ds, ms, order) in enumerate(sets):
            require(list(ds.buildings) == [1, 2] and ds.metadata['name'] == names[k], 'buildings {}', ds.buildings)
            for b in (1, 2):
                e = ds.buildings[b].elec
                check_building(e, list(order), ms, [1], ds.store, chk)
                require(e.building() == b and e.dataset() == names[k], 'identity')
                for m in flat(e):
                    require(m.sample_period() == k + 1 and m.device['max_sample_period'] == 10 * (k + 1) and
                            m.available_ac_types('power') == [['active', 'reactive', 'apparent'][k]] and m.device['wireless'] == bool(k % 2),
                            'the device of another data set')
                    lo, hi = idx[0] + pd.Timedelta(k + 1, 's'), idx[0] + pd.Timedelta(k + 11, 's')
                    require(m.get_timeframe() == TimeFrame(lo, hi), 'window {}', m.get_timeframe())
                    u = m.upstream_meter(raise_warning=False)
                    require(u is None or u.get_timeframe() == TimeFrame(lo, hi), 'the window of the upstream meter: {}', u and u.get_timeframe())
                    data = pd.concat(list(m.load()))
                    require(len(data) == 10 and (data.values == k).all(), 'data {}', len(data))
        return len(sets)
    chk.case('several data sets', item, run)


def several_buildings(chk, k):
    def run():
        nums = [1, 2, 10, 11, 3][:k]
        ds = build(metas((1,), {2: 1}), (1, 2), buildings=nums)
        require(sorted(ds.buildings) == sorted(nums), 'buildings {}', list(ds.buildings))
        for n, b in ds.buildings.items():
            require(b.identifier == (n, 'TEST') and b.metadata['original_name'] == 'b%d' % n, 'building {}', n)
            check_building(b.elec, [1, 2], metas((1,), {2: 1}), [1], ds.store, chk)
            require(all(m.building() == n and m.key == '/building%d/elec/meter%d' % (n, m.instance()) for m in flat(b.elec)), 'meters of {}', n)
        require([e.building() for e in ds.elecs()] == list(ds.buildings), 'elecs')
        for pair in itertools.combinations(ds.buildings.values(), 2):
            g = MeterGroup([m for b in pair for m in b.elec.meters])
            require(outcome(g.mains) is RuntimeError, 'mains of two buildings')
        return k
    chk.case('buildings', k, run)


def run(chk):
    top = 5 if THOROUGH else 3
    chk.bounds = BOUNDS % top
    work = []
    for n_sites in (1, 2):
        for n in range(1, top + 1):
            ids = list(range(1, n_sites + n + 1))
            for up in trees(n_sites, n):
                few = n > 4 or (n == 4 and n_sites == 2)
                for order in ((tuple(ids), tuple(ids[::-1])) if few else itertools.permutations(ids)):
                    if few or n < top or order[0] <= order[-1]:
                        work.append((n_sites, tuple(up.items()), order))
    chk.parallel('wiring', wiring, work)
    offs = [c for r in (0, 1, 2) for c in itertools.combinations((1, 2, 3), r)]
    ups = [((4, a), (5, b)) for a in (0, 1, 2, 3, 5) for b in (0, 1, 2, 3, 4) if not (a == 5 and b == 4)]
    chk.parallel('alternative mains', alternative, itertools.product(offs, ups, ((), ((0,),), ((1,), (4,), (2,)))))
    singles = [(), ((2,),), ((0,),), ((2,), (2,), (0,)), ((2, 3),), ((3, 2),), ((0,), (2, 3), (4,)), ((4,), (3, 2), (4,)), ((2, 3, 4),),
               ((4, 2, 3), (1,)), ((1,), (2,), (3,), (4,))]
    dual_work = [(1, tuple(u.items()), c) for u in trees(1, 3) for c in singles]
    dual_work += [(2, ((3, u), (4, v)), c) for u in (0, 1) for v in (0, 1, 3) for c in
                  [(), ((0,),), ((3, 4),), ((0,), (4, 3)), ((1,), (3,), (0,))]]
    chk.parallel('appliances', dual, dual_work)
    t3 = [((2, 1), (3, 1)), ((2, 1), (3, 2)), ((3, 1), (2, 3)), ((2, 0), (3, 2))]
    o3 = [(1, 2, 3), (3, 2, 1), (2, 3, 1)]
    sev = [(nm, (a, b), (x, y)) for nm in (('A', 'B'), ('A', 'A')) for a in t3 for b in t3 for x in o3 for y in o3]
    sev += [(nm, (a, b, a), (x, y, y)) for nm in (('A', 'A', 'A'), ('A', 'B', 'A')) for a in t3 for b in t3[:2] for x in o3 for y in o3]
    chk.parallel('several data sets', several, sev)
    chk.parallel('buildings', several_buildings, range(1, 6))
