"""E01: asking a meter for quantities, AC types or columns delivers exactly the matching measurements."""
import itertools
import pandas as pd
from nilmtk.exceptions import MeasurementError
from lib.core import THOROUGH, Violation, require, feq
from lib import stores as S, meters as M
from lib import memstore as MS

A, R, P = 'active', 'reactive', 'apparent'
PALETTE = [('power', A), ('power', R), ('power', P), ('energy', A), ('energy', P), ('cumulative energy', R), ('voltage', ''), ('current', '')]
MAXC = 5 if THOROUGH else 4
PQS = [None, 'power', 'energy', 'cumulative energy', 'voltage', ['power', 'energy'], ['power', 'voltage'], ['voltage', 'current']]
ACS = [None, 'best', A, R, P, [A, P], [R, P]]
COLS = [[('power', A)], [('power', A), ('voltage', '')], [('energy', P), ('power', R)], [('power', '')]]
BOUNDS = ('every set of 1..%d measurements out of %d x every combination of %d quantity and %d AC type requests, %d column lists, and '
          'series requests; invalid names' % (MAXC, len(PALETTE), len(PQS), len(ACS), len(COLS)))
ASSUMPTIONS = ['tables come from an in-memory store that behaves as D01 requires', 'nilm_metadata is replaced by a stand-in']
PREF = [A, P, R]
OFFS = (0, 1, 3)


def as_list(x):
    return x if isinstance(x, list) else [x]


def expected(have, pq, ac):
    """Set of columns, or None for a measurement error."""
    if pq is None and ac is None:
        return set(have)
    if ac == 'best':
        out = set()
        for q in (as_list(pq) if pq is not None else sorted({c[0] for c in have})):
            tys = [t for t in PREF if (q, t) in have]
            if tys:
                out.add((q, tys[0]))
        return out or None
    out = set(have)
    if ac is not None:
        out &= {c for c in have if c[1] in as_list(ac)}
    if pq is not None:
        out &= {c for c in have if c[0] in as_list(pq)}
    return out or None


def value(c, o):
    return 100 * PALETTE.index(c) + o


def make(have):
    df = S.frame(OFFS, have, tz='UTC', values=[[value(c, o) for c in have] for o in OFFS])
    return MS.one_meter(df, M.device(have))


def check_frame(df, want):
    cols = [tuple(c) for c in df.columns]
    require(len(cols) == len(set(cols)) and set(cols) == set(want), 'columns {} instead of {}', cols, sorted(want))
    for c in want:
        require(list(df[c]) == [value(c, o) for o in OFFS], '{} holds {}', c, list(df[c]))


def load(chk, have):
    def selections():
        for pq, ac in itertools.product(PQS, ACS):
            def run():
                m = make(have)
                kw = {}
                if pq is not None:
                    kw['physical_quantity'] = list(pq) if isinstance(pq, list) else pq
                if ac is not None:
                    kw['ac_type'] = list(ac) if isinstance(ac, list) else ac
                want = expected(have, pq, ac)
                chk.step()
                try:
                    got = list(m.load(**kw))
                except MeasurementError:
                    # a list of AC types of which some are not there may also be refused
                    require(want is None or (isinstance(ac, list) and any(not any(c[1] == a for c in have) for a in ac)),
                            'refused, but {} match', want)
                    return 'refused'
                require(want is not None, 'loaded {} although nothing matches', [list(g.columns) for g in got])
                require(len(got) == 1, '{} chunks', len(got))
                check_frame(got[0], want)
                chk.state((have, str(pq), str(ac)))
                return sorted(want)
            yield ('select', (have, pq, ac), run)
        for cols in COLS:
            def run():
                m = make(have)
                chk.step(2)
                try:
                    got = list(m.load(columns=list(cols)))
                    require(set(cols) <= set(have), 'loaded {}', cols)
                    check_frame(got[0], cols)
                except MeasurementError:
                    require(not set(cols) <= set(have), 'refused available columns {}', cols)
                for kw in ({'ac_type': A}, {'physical_quantity': 'power'}):
                    try:
                        list(m.load(columns=list(cols), **kw))
                    except ValueError:
                        continue
                    raise Violation('columns together with %s accepted' % kw)
                return cols
            yield ('columns', (have, cols), run)

        def listing():
            m = make(have)
            chk.step(6)
            require(set(m.available_columns()) == set(have), 'available columns')
            require(set(m.available_physical_quantities()) == {c[0] for c in have}, 'available quantities')
            for q in ('power', 'energy', 'voltage'):
                require(sorted(m.available_ac_types(q)) == sorted(c[1] for c in have if c[0] == q and c[1]), 'AC types of {}', q)
            require(set(m.available_ac_types(['power', 'energy'])) == {c[1] for c in have if c[0] in ('power', 'energy')}, 'AC types of a list')
            for bad in ({'ac_type': 'loud'}, {'physical_quantity': 'noise'}):
                try:
                    list(m.load(**bad))
                except Exception:
                    continue
                raise Violation('%s accepted' % bad)
            return sorted(m.available_columns())
        yield ('listing', have, listing)

        def series():
            m = make(have)
            chk.step(4)
            for q, ac in [('power', 'best'), ('power', None), ('energy', None), ('energy', 'best')]:
                want = expected(have, q, ac)
                kw = {} if (q == 'power' and ac == 'best') else {'ac_type': ac}
                try:
                    got = list(m.power_series(**kw) if q == 'power' else m.load_series(physical_quantity=q, **kw))
                except MeasurementError:
                    require(want is None, 'series refused')
                    continue
                require(want is not None, 'series of nothing')
                require(list(got[0]) == [sum(value(c, o) for c in want) for o in OFFS], 'series {} of {}', list(got[0]), want)
                require(got[0].name[0] == q and set(got[0].name[1].split('+')) == {c[1] for c in want}, 'name {}', got[0].name)
            return have
        yield ('series', have, series)

    for label, case, fn in selections():
        chk.case(label, case, fn)


def run(chk):
    chk.parallel('measurement sets', load, [h for n in range(1, MAXC + 1) for h in itertools.combinations(PALETTE, n)])
