"""M02: looking up and selecting meters finds exactly the meters whose metadata (or whose appliances') match."""
import itertools
import nilmtk
from nilmtk import MeterGroup, ElecMeter, Appliance
from nilmtk.elecmeter import ElecMeterID
from nilmtk.metergroup import MeterGroupID
from lib.core import THOROUGH, Violation, require
from lib import meters as M
from lib import memstore as MS

BOUNDS = ('every way of connecting up to 4 appliances (two of one type, rooms, counts, a dominant one) to 3 submeters, none, or as a dual '
          'supply to a pair of them%s x every lookup key form over small instances, and every selection by one criterion, a pair of '
          'criteria or a list of values out of 36 (synonyms and lists included); the same on a group over two buildings; every one to two (four) nested groups sharing meters, in any order, x every key')
ASSUMPTIONS = ['appliance types are known', 'a meter of a dual supply serves no other appliance (as documented)',
               'a criterion unknown to an appliance or meter does not match it', 'nilm_metadata is replaced by a stand-in']
TYPES = {'fridge': ['cold', 'large', 'induction motor', 'single-phase'], 'kettle': ['wet', 'small', 'resistive'],
         'light': ['lighting', 'resistive']}
SYNONYMS = {'fridge': ['refrigerator', 'cooler']}
CONTROL = {'fridge': ['thermostat', 'timer'], 'kettle': ['manual', 'thermostat']}
ON = {'fridge': 20, 'kettle': 100}
APPS = [dict(type='fridge', instance=1), dict(type='fridge', instance=2, room='kitchen'),
        dict(type='kettle', instance=1, room='kitchen', count=2, dominant_appliance=True), dict(type='light', instance=1, room='hall')]
PLACES = [None, (2,), (3,), (4,), (2, 3), (3, 4)]
METERS = {1: {'site_meter': True, 'device_model': 'a'}, 2: {'submeter_of': 1, 'room': 'kitchen', 'device_model': 'a'},
          3: {'submeter_of': 2, 'room': 'hall', 'name': 'x', 'device_model': 'b'}, 4: {'submeter_of': 1, 'device_model': 'b'}}
DEVS = {'a': dict(M.device((('power', 'active'),), 1, 2), model='a', manufacturer='m', wireless=True),
        'b': dict(M.device((('power', 'active'),), 6, 20), model='b', manufacturer='n', tags=['p', 'q'])}


def worlds():
    for place in itertools.product(PLACES, repeat=4):
        duals = [p for p in place if p and len(p) == 2]
        if len(duals) > 1 or (duals and any(p and len(p) == 1 and p[0] in duals[0] for p in place)):
            continue
        yield place


def build(place, n=2):
    bs = {}
    for b in range(1, n + 1):
        apps = [dict(a, meters=list(p)) for a, p in zip(APPS, place) if p and (b == 1 or a['type'] != 'kettle')]
        bs[b] = ({i: (None, dict(m)) for i, m in METERS.items()}, apps)
    return MS.dataset(bs, DEVS)


# ------------------------------------------------------------------ reference
class Ref:
    """nodes: list of tuples of meter instances (one per element of the group), in order"""

    def __init__(self, place, building=1):
        self.b = building
        place = [p if building == 1 or a['type'] != 'kettle' else None for a, p in zip(APPS, place)]
        dual = [p for p in place if p and len(p) == 2]
        self.nodes = [(i,) for i in METERS if not dual or i not in dual[0]] + dual
        self.apps = {i: [a for a, p in zip(APPS, place) if p and i in p] for i in METERS}

    def app_value(self, a, k):
        if k == 'building':
            return [self.b]
        if k == 'dataset':
            return ['TEST']
        if k == 'category':
            return TYPES[a['type']]
        if k in a:
            return [a[k]] + (SYNONYMS.get(a['type'], []) if k == 'type' else [])
        if k == 'control':
            return CONTROL.get(a['type'], [])
        if k == 'on_power_threshold' and a['type'] in ON:
            return [ON[a['type']]]
        return []

    def matching_apps(self, key):
        return [n for n in self.nodes
                if any(all(v in self.app_value(a, k) for k, v in key.items()) for i in n for a in self.apps[i])]

    def meter_value(self, i, k):
        m, d = METERS[i], DEVS[METERS[i]['device_model']]
        if k in ('instance', 'building', 'dataset'):
            return [{'instance': i, 'building': self.b, 'dataset': 'TEST'}[k]]
        v = m[k] if k in m else d.get(k)
        return [] if v is None else v if isinstance(v, list) and k in d else [v]

    def matching(self, key):
        return [n for n in self.nodes if any(all(v in self.meter_value(i, k) for k, v in key.items()) for i in n)]


def node(m):
    return tuple(m.instance()) if isinstance(m, MeterGroup) else (m.instance(),)


def nodes(g):
    require(isinstance(g, MeterGroup), 'not a group: {}', g)
    return [node(m) for m in g.meters]


def attempt(f):
    try:
        return f()
    except (KeyError, TypeError) as e:
        return type(e)
    except Exception as e:
        if type(e) is Exception:
            return Exception
        raise


MID = lambda i, b=1, d='TEST': ElecMeterID(i, b, d)


def lookups(ref):
    """-> (key, expected node(s) or exception type)"""
    flat = {n[0]: n for n in ref.nodes if len(n) == 1}
    dual = [n for n in ref.nodes if len(n) == 2]
    for i in range(6):
        yield i, ((i,) if i in METERS else KeyError)
        for key in (MID(i), (i, 1, 'TEST')):
            if i and i not in METERS:
                yield key, KeyError
            elif i:
                if i in flat:
                    yield key, (i,)
            else:
                yield key, (1,)
        yield MID(i or 7, 2), KeyError
        yield MID(i or 7, 1, 'OTHER'), KeyError
    for pair in itertools.permutations((1, 2, 3, 4), 2):
        want = [n for n in dual if set(n) == set(pair)]
        want = want[0] if want else KeyError
        yield MID(pair), want
        yield MeterGroupID(meters=tuple(MID(i) for i in pair)), want
        yield [MID(i) for i in pair], want
        yield (pair, 1, 'TEST'), want
        yield pair, [(pair[0],), (pair[1],)]
    for ty in ('fridge', 'kettle', 'light', 'television', 'refrigerator'):
        for n in (1, 2, 3):
            found = ref.matching_apps({'type': ty, 'instance': n})
            want = found[0] if len(found) == 1 else Exception if found else KeyError
            yield (ty, n), want
            yield {'type': ty, 'instance': n}, want
            yield {'type': ty, 'instance': n, 'building': 1, 'dataset': 'TEST'}, want
            yield {'type': ty, 'instance': n, 'building': 2}, KeyError
            if n == 1:
                yield ty, want
    for key in ({'type': 'fridge'}, {'room': 'kitchen'}, {'room': 'kitchen', 'type': 'kettle'}, {'count': 2}, {'category': 'cold'},
                {'original_name': 'zzz'}, {'room': 'hall', 'type': 'fridge'}):
        found = ref.matching_apps(key)
        yield key, found[0] if len(found) == 1 else Exception if found else KeyError
    for bad in (True, False, 1.5, None, ['fridge'], (1, 2, 3, 4), (1,)):
        yield bad, TypeError


def lookup(chk, place):
    ref = Ref(place)

    def run():
        g = build(place, 1).buildings[1].elec
        before = nodes(g)
        require(sorted(before) == sorted(ref.nodes), 'elements {} instead of {}', before, ref.nodes)
        for key, want in lookups(ref):
            chk.step()
            got = attempt(lambda: g[key])
            if isinstance(want, list):
                require(isinstance(got, MeterGroup) and nodes(got) == want, '{!r}: {} instead of {}', key, got, want)
            elif isinstance(want, tuple):
                require(not isinstance(got, type) and node(got) == want, '{!r}: {} instead of {}', key, got, want)
                require(not isinstance(key, int) or isinstance(got, ElecMeter), '{!r}: not a meter', key)
            else:
                require(got is want, '{!r}: {} instead of {}', key, got, want)
        for key, ty in (({'control': ['manual', 'thermostat']}, 'kettle'), ({'control': ['thermostat', 'manual']}, None)):
            found = ref.matching_apps({'type': ty}) if ty else []       # a whole list matches that list only
            got = attempt(lambda: g[key])
            chk.step()
            require(node(got) == found[0] if len(found) == 1 else got is KeyError, '{}: {} instead of {}', key, got, found)
        for a in g.appliances:
            require(a.matches({}), 'empty criteria')
        require(all(m.matches({}) for m in g.meters if isinstance(m, ElecMeter)), 'empty criteria')
        Appliance.allow_synonyms = False
        try:
            require(attempt(lambda: g['cooler', 1]) is KeyError, 'synonym although switched off')
            found = ref.matching_apps({'type': 'fridge', 'instance': 1})
            got = attempt(lambda: g['fridge', 1])
            require(node(got) == found[0] if found else got is KeyError, 'fridge: {}', got)
        finally:
            Appliance.allow_synonyms = True
        require(nodes(g) == before, 'the group changed')
        chk.state(place)
        return len(before)
    chk.case('lookup', place, run)


APP_CRIT = [('type', 'fridge'), ('type', 'kettle'), ('type', 'light'), ('type', 'television'), ('instance', 1), ('instance', 2), ('room', 'kitchen'),
            ('room', 'hall'), ('category', 'cold'), ('category', 'resistive'), ('category', 'single-phase'), ('count', 2), ('building', 1),
            ('building', 2), ('dataset', 'TEST'), ('on_power_threshold', 20), ('nothing', 1), ('dominant_appliance', True), ('type', 'cooler'), ('control', 'timer'),
            ('control', 'thermostat'), ('control', 'none')]
MET_CRIT = [('instance', 1), ('instance', 3), ('building', 1), ('building', 2), ('dataset', 'TEST'), ('dataset', 'X'), ('room', 'kitchen'),
            ('room', 'hall'), ('name', 'x'), ('submeter_of', 1), ('submeter_of', 2), ('site_meter', True), ('device_model', 'b'),
            ('sample_period', 6), ('manufacturer', 'm'), ('wireless', True), ('tags', 'q'), ('tags', 'zz'), ('nothing', 1)]
APP_LISTS = [('type', ['fridge', 'kettle']), ('type', ['light', 'fridge']), ('type', ['kettle']), ('type', ['fridge', 'television']),
             ('room', ['hall', 'kitchen']), ('instance', [1, 2]), ('category', ['cold', 'single-phase', 'large']), ('count', [2, 2]), ('control', ['manual', 'timer'])]
MET_LISTS = [('instance', [1, 3]), ('instance', [3, 1, 3]), ('room', ['kitchen', 'hall']), ('sample_period', [6, 1]), ('submeter_of', [1, 5])]


def selection(chk, place):
    ref = Ref(place)

    def run():
        g = build(place, 1).buildings[1].elec
        order = nodes(g)
        for crits, lists, find, call in ((APP_CRIT, APP_LISTS, ref.matching_apps, g.select_using_appliances), (MET_CRIT, MET_LISTS, ref.matching, g.select)):
            asks = [dict([c]) for c in crits] + [dict(p) for p in itertools.combinations(crits, 2) if p[0][0] != p[1][0]]
            for key in asks:
                chk.step()
                got = attempt(lambda: call(**key))
                want = find(key)
                if not want:
                    require(got is KeyError, '{}: {} instead of an error', key, got)
                else:
                    require(not isinstance(got, type), '{}: {} instead of {}', key, got, want)
                    require(nodes(got) == [n for n in order if n in want], '{}: {} instead of {}', key, nodes(got), want)
            for k, vs in lists:
                chk.step()
                got = attempt(lambda: call(**{k: list(vs)}))
                per = [find({k: v}) for v in vs]
                if not all(per):
                    require(got is KeyError, '{}: {} instead of an error', vs, got)
                else:
                    require(not isinstance(got, type), '{} in {}: {}', k, vs, got)
                    have = nodes(got)
                    require(len(have) == len(set(have)), '{} in {}: {} contains a meter twice', k, vs, have)
                    require(set(have) == {n for p in per for n in p}, '{} in {}: {} instead of {}', k, vs, have, per)
        require(nodes(g) == order, 'the group changed')
        chk.state(place)
        return len(order)
    chk.case('selection', place, run)


def grouping(chk, place):
    ref = Ref(place)

    def run():
        e = build(place, 1).buildings[1].elec
        for g in (e, e.submeters()):
            mine = nodes(g)
            dom = {}
            for n in mine:
                apps = [a for i in n for a in ref.apps[i]]
                if apps:
                    dom[n] = ([a for a in apps if a.get('dominant_appliance')] or apps)[0]
                elem = [m for m in g.meters if node(m) == n][0]
                d = elem.dominant_appliance()
                require((d.identifier.type, d.identifier.instance) == (dom[n]['type'], dom[n]['instance']) if apps else d is None,
                        'dominant appliance of {}: {}', n, d)
            require({(a.identifier.type, a.identifier.instance) for a in g.appliances} ==
                    {(a['type'], a['instance']) for n in mine for i in n for a in ref.apps[i]}, 'appliances {}', g.appliances)
            for k in ('type', 'room', 'category'):
                chk.step()
                vals = {v for a in dom.values() for v in ([a['type']] if k == 'type' else ref.app_value(a, k))}
                require(set(g.values_for_appliance_metadata_key(k)) == vals, 'values of {}: {} instead of {}', k,
                        g.values_for_appliance_metadata_key(k), vals)
                by = g.groupby(k)
                require({x.name: nodes(x) for x in by.meters} == {v: [n for n in mine if n in ref.matching_apps({k: v})] for v in vals},
                        'grouped by {}: {}', k, {x.name: nodes(x) for x in by.meters})
        chk.state(place)
        return len(dom)
    chk.case('grouping', place, run)


def several(chk, place):
    """A group over two buildings."""
    refs = [Ref(place, b) for b in (1, 2)]

    def run():
        ds = build(place, 2)
        g = MeterGroup(ds.buildings[1].elec.meters + ds.buildings[2].elec.meters)
        tag = lambda m: (m.building(), node(m))
        for c in APP_CRIT + MET_CRIT:
            for name, call in (('matching_apps', g.select_using_appliances), ('matching', g.select)):
                chk.step()
                got = attempt(lambda: call(**dict([c])))
                want = {(r.b, n) for r in refs for n in getattr(r, name)(dict([c]))}
                require((got is KeyError) if not want else (not isinstance(got, type) and {tag(m) for m in got.meters} == want and
                                                            len(got.meters) == len(want)), '{} ({}): {} instead of {}', c, name, got, want)
        for ty in ('fridge', 'kettle', 'light'):
            for key in ({'type': ty, 'instance': 1}, {'type': ty, 'instance': 1, 'building': 2}):
                want = [(r.b, n) for r in refs for n in r.matching_apps(key)]
                got = attempt(lambda: g[key])
                chk.step()
                if len(want) == 1:
                    require(not isinstance(got, type) and tag(got) == want[0], '{}: {}', key, got)
                else:
                    require(got is (Exception if want else KeyError), '{}: {}', key, got)
        for b in (1, 2):
            require(g[MID(0, b)].building() == b and g[MID(0, b)].instance() == 1, 'mains of building {}', b)
        require(attempt(lambda: g[1]) is Exception, 'meter 1 exists twice')
        require(g.building() in ((1, 2), (2, 1)) and g.contains_meters_from_multiple_buildings(), 'buildings {}', g.building())
        chk.state(place)
        return len(g.meters)
    chk.case('several buildings', place, run)


def nests(chk, subsets):
    """Nested groups which share meters: an identifier finds the group of exactly its meters."""
    def run():
        ds = build((None,) * 4, 2)
        e, f = ds.buildings[1].elec, ds.buildings[2].elec
        for extra in (None, 1, 2):
            groups = {s: MeterGroup([e[i] for i in s]) for s in subsets}
            first = [] if extra is None else [MeterGroup([f[i] for i in subsets[0]])]
            g = MeterGroup(([e[1]] if extra != 2 else []) + first + list(groups.values()))
            for n in (2, 3, 4):
                for s in itertools.combinations((1, 2, 3, 4), n):
                    for ids in (s, s[::-1]):
                        for b in (1, 2):
                            want = groups.get(s) if b == 1 else first[0] if first and s == subsets[0] else None
                            for key in (MID(ids, b), MeterGroupID(meters=tuple(MID(i, b) for i in ids)), [MID(i, b) for i in ids], (ids, b, 'TEST')):
                                chk.step()
                                got = attempt(lambda: g[key])
                                require(got is (KeyError if want is None else want), '{!r}: {} instead of {}', key, got, want)
            chk.state((subsets, extra))
        return subsets
    chk.case('nested groups', subsets, run)


def labels(chk, item):
    place, name = item
    ref = Ref(place)

    def run():
        g = build(place, 1).buildings[1].elec
        for m in g.meters:
            if isinstance(m, MeterGroup):
                continue
            i = m.instance()
            apps = ref.apps[i]
            if name and i == 4:
                m.name = 'my meter'
            nm = 'x' if i == 3 else 'my meter' if name and i == 4 else None
            dom = ([a for a in apps if a.get('dominant_appliance')] or apps or [None])[0]
            cap = lambda s: s[0].upper() + s[1:]
            pretty = cap(nm) if nm else 'Site meter' if i == 1 else cap(dom['type']) if dom else ''
            text = lambda a: str((a['type'], a['instance'])).upper() if a.get('dominant_appliance') else str((a['type'], a['instance']))
            plain = 'SITE METER' if i == 1 else nm if nm else ', '.join(text(a) for a in apps)
            chk.step(2)
            require(m.label() == pretty and m.label(pretty=True) == pretty, 'label {} instead of {}', m.label(), pretty)
            require(m.label(pretty=False) == plain, 'label {} instead of {}', m.label(pretty=False), plain)
            require(g.get_labels([m.identifier]) == [pretty], 'labels')
            for a in m.appliances:
                t, n = a.identifier
                require(a.label(pretty=True) == cap(t) + (' %d' % n if n > 1 else '') and a.label() == str((t, n)), 'label of {}', a)
        chk.state(item)
        return place
    chk.case('labels', item, run)


def run(chk):
    ws = list(worlds())
    if not THOROUGH:
        ws = [w for w in ws if w[3] in (None, (4,)) or any(p and len(p) == 2 for p in w)]
    chk.bounds = BOUNDS % ('' if THOROUGH else ' (the fourth one to none, meter 4 or a pair)')
    chk.parallel('lookup', lookup, ws)
    chk.parallel('selection', selection, ws)
    chk.parallel('grouping', grouping, ws)
    chk.parallel('several buildings', several, ws)
    subsets = [s for n in (2, 3, 4) for s in itertools.combinations((1, 2, 3, 4), n)]
    chk.parallel('nested groups', nests, [p for n in ((1, 2, 3, 4) if THOROUGH else (1, 2)) for p in itertools.permutations(subsets, n)])
    chk.parallel('labels', labels, [(w, n) for w in ws for n in (0, 1)])
