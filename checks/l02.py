"""L02: the metrics comparing a predicted data set with the measured one equal their definitions, appliance by appliance."""
import itertools
import math
import numpy as np
from nilmtk import metrics
from nilmtk.electric import align_two_meters
from lib.core import THOROUGH, feq, require
from lib import stores as S, meters as M, memstore as MS

PA = (('power', 'active'),)
N = 6 if THOROUGH else 5
GTV = [0., 200., 200., 5., 90., 11., 300.]
PRV = [0., 190., 0., 60., 100., 0., 280.]
L = 4 if THOROUGH else 3
LEVELS = [0., 60., 200.]
BOUNDS = ('predicted and measured appliance with readings at every pair of subsets of %d instants; all pairs of complete series of %d '
          'readings over %d levels; all on/off patterns of predictions in two or three sections of different lengths; one to three appliances, one of them on two meters, in all orders' % (N, L, len(LEVELS)))
ASSUMPTIONS = ['one reading per sample period, a pause of two periods does not end a good section', 'a good section other than the last '
               'leaves out its very last reading (sections exclude their end)', 'a metric without any common reading is outside the claim',
               'tables come from an in-memory store that behaves as D01 requires', 'nilm_metadata is replaced by a stand-in']


def runs(present):
    """Good sections as lists of instants: pauses of at most two, the last section includes its last reading."""
    out = []
    for t in sorted(present):
        if out and t - out[-1][-1] <= 2:
            out[-1].append(t)
        else:
            out.append([t])
    out = [r for r in out if len(r) > 1]
    # a section ends before its last reading, unless it is the last one
    return [(r[0], r[-1], r if r is out[-1] else r[:-1]) for r in out]


def energy(series, lo, hi, closed):
    rows = [t for t in sorted(series) if lo <= t < hi or (closed and t == hi)]
    return sum(series[a] * min(b - a, 2) for a, b in zip(rows, rows[1:])) / 3.6e6 if rows else None


def f1(pairs):
    tp = sum(x and y for x, y in pairs)
    wrong = sum(x != y for x, y in pairs)
    return 2 * tp / (2 * tp + wrong) if tp + wrong else 0.


class Ref:
    """pr, gt: {instant: power}"""

    def __init__(self, pr, gt, threshold):
        self.pr, self.gt = pr, gt
        self.sections = runs(pr)
        self.chunks = []                              # per section: (instants with both, measured readings in it)
        for lo, hi, rows in self.sections:
            if len(rows) < 2:
                continue
            inside = [t for t in gt if rows[0] <= t <= rows[-1]]
            if inside:
                self.chunks.append(([t for t in rows if t in gt], inside))
        both = [t for c, _ in self.chunks for t in c]
        total = sum(gt[t] for _, i in self.chunks for t in i)
        self.rms = math.sqrt(sum((pr[t] - gt[t]) ** 2 for t in both) / len(both)) if both else None
        self.mne = sum(abs(pr[t] - gt[t]) for t in both) / total if total else None
        ws = [(f1([(pr[t] >= threshold, gt[t] >= threshold) for t in c]), len(c)) for c, _ in self.chunks if c]
        self.f1 = sum(s * w for s, w in ws) / sum(w for _, w in ws) if ws else None
        e = [[energy(x, lo, hi, (lo, hi) == self.sections[-1][:2]) for lo, hi, _ in self.sections] for x in (pr, gt)]
        e = [[v for v in x if v is not None] for x in e]
        self.error = abs(sum(e[0]) - sum(e[1])) if e[0] and e[1] else None
        every = [sum(s[a] * min(b - a, 2) for a, b in zip(sorted(s), sorted(s)[1:])) for s in (pr, gt)]
        self.energy = every


APPS = [('fridge', 1), ('kettle', 1), ('light', 1)]
THRESHOLD = {'fridge': 50, 'kettle': 2000, 'light': 10}


def dataset(name, series, order, fresh, nested):
    """series: one dict per appliance; nested: the last appliance is split over two meters."""
    meters = {1: (S.frame(range(max(N, 12)), PA, tz='UTC'), {'site_meter': True})}
    apps = []
    for k, s in enumerate(series):
        ids = [2 + k] if not (nested and k == len(series) - 1) else [2 + k, 3 + k]
        for i in ids:
            share = 1. if len(ids) == 1 else .5
            meters[i] = (S.frame(sorted(s), PA, tz='UTC', values=[[s[t] * share] for t in sorted(s)]), {'submeter_of': 1})
        apps.append({'type': APPS[k][0], 'instance': 1, 'meters': ids, 'on_power_threshold': 10})
    return MS.dataset({1: ({i: meters[i] for i in order(sorted(meters))}, apps)}, {'dev': M.device(PA, sample_period=1, max_sample_period=2)},
                      name=name, stats=fresh, fresh=fresh).buildings[1].elec


def compare(chk, prs, gts, order=list, nested=False):
    P = dataset('PRED', prs, list, True, nested)
    G = dataset('TRUE', gts, order, False, nested)
    refs = [Ref(p, g, 10) for p, g in zip(prs, gts)]
    inst = [k + 2 for k in range(len(prs))]
    if nested:
        inst[-1] = (inst[-1], inst[-1] + 1)
    chk.step(5)

    def check(fn, attr):
        if any(getattr(r, attr) is None for r in refs):
            return None                               # undefined for one of the appliances
        got = getattr(metrics, fn)(P, G)
        have = {k: v for k, v in got.items()}
        require(sorted(map(str, have)) == sorted(map(str, inst)), '{} lists {} instead of {}', fn, list(have), inst)
        for i, r in zip(inst, refs):
            v = [have[k] for k in have if str(k) == str(i)][0]
            v = float(v['active']) if hasattr(v, 'index') else float(v)
            want = getattr(r, attr)
            require(feq(v, want, 1e-6 if isinstance(i, tuple) else 1e-9), '{} of appliance {}: {} instead of {}', fn, i, v, want)
        return [round(getattr(r, attr), 9) for r in refs]

    out = [check('rms_error_power', 'rms'), check('mean_normalized_error_power', 'mne'), check('f1_score', 'f1'),
           check('error_in_assigned_energy', 'error') if not nested else None]
    tot = [sum(r.energy[k] for r in refs) for k in (0, 1)]
    if all(tot) and not nested:
        got = metrics.fraction_energy_assigned_correctly(P, G)
        want = sum(min(r.energy[0] / tot[0], r.energy[1] / tot[1]) for r in refs)
        require(feq(got, want, 1e-9), 'fraction assigned correctly {} instead of {}', got, want)
        out.append(round(want, 9))
    for i, r in zip(inst, refs):
        if isinstance(i, tuple):
            continue
        got = list(align_two_meters(P[i], G[i]))
        require(len(got) == len(r.chunks), '{} aligned pieces instead of {}', len(got), len(r.chunks))
        for g, (both, inside) in zip(got, r.chunks):
            at = {int((t - S.times([0], 'UTC')[0]).total_seconds()): row for t, row in zip(g.index, g.values)}
            require(sorted(t for t in at if at[t][0] == at[t][0] and at[t][1] == at[t][1]) == both, 'aligned at {}', sorted(at))
            require(all(tuple(at[t]) == (r.pr[t], r.gt[t]) for t in both), 'aligned readings {}', at)
    return out


def subsets(n):
    return [s for k in range(2, n + 1) for s in itertools.combinations(range(n), k)]


def presence(chk, sub):
    for other in subsets(N):
        def run():
            pr = {t: PRV[t] for t in sub}
            gt = {t: GTV[t] for t in other}
            out = compare(chk, [pr], [gt])
            chk.state((sub, other))
            return out
        chk.case('presence', (sub, other), run)


def levels(chk, p):
    for g in itertools.product(LEVELS, repeat=L):
        def run():
            out = compare(chk, [dict(enumerate(p))], [dict(enumerate(g))])
            chk.state((p, g))
            return out
        chk.case('levels', (p, g), run)


SHAPES = [((0, 1, 2), (5, 6, 7, 8)), ((0, 1, 2, 3, 4), (7, 8)), ((0, 1), (4, 5, 6), (9, 10, 11))]
TRUE = [lambda t: 100. if t % 3 else 0., lambda t: 0. if 1 < t < 6 else 250., lambda t: 10. * t]
MISSING = [(), (1, 6), (5, 7, 8), (0, 2, 10)]


def sections(chk, item):
    """Several good sections of different lengths: every on and off pattern of the prediction."""
    shape, missing, k = item
    at = [t for part in shape for t in part]
    for bits in itertools.product((0., 100.), repeat=len(at)):
        def run():
            gt = {t: TRUE[k](t) for t in range(at[-1] + 1) if t not in missing}
            out = compare(chk, [dict(zip(at, bits))], [gt])
            chk.state((item, bits))
            return out
        chk.case('sections', (item, bits), run)


SER = [{0: 0., 1: 100., 2: 100., 3: 0., 4: 20.}, {0: 50., 1: 0., 3: 0., 4: 0., 5: 70.}, {0: 9., 1: 11., 5: 11.}, {t: 10. * t for t in range(6)}]


def several(chk, case):
    prs, gts, order, nested = case

    def run():
        fn = {'as': list, 'reversed': lambda x: list(reversed(x)), 'rotated': lambda x: x[1:] + x[:1]}[order]
        prs_, gts_ = [[SER[i] for i in x] for x in (prs, gts)]
        if nested:                                  # groups fill pauses: the appliance on two meters has complete readings
            prs_[-1], gts_[-1] = [{t: s.get(t, 40. + t) for t in range(6)} for s in (prs_[-1], gts_[-1])]
        out = compare(chk, prs_, gts_, fn, nested)
        chk.state(case)
        return out
    chk.case('several appliances', case, run)


def run(chk):
    chk.parallel('presence', presence, subsets(N))
    chk.parallel('levels', levels, list(itertools.product(LEVELS, repeat=L)))
    chk.parallel('sections', sections, [(s, m, k) for s in SHAPES for m, k in (itertools.product(MISSING, range(3)) if THOROUGH else [((), 0), ((1, 6), 1)])])
    small = range(4) if THOROUGH else range(3)
    cases = [(p, g, o, n) for k in (1, 2) for p in itertools.product(small, repeat=k) for g in itertools.product(small, repeat=k)
             for o in ('as', 'reversed', 'rotated')[:k + 1] for n in (False, True)]
    cases += [(p, g, o, n) for p in itertools.permutations(range(4), 3) for g in ((1, 2, 3), (3, 0, 1)) for o in ('reversed', 'rotated') for n in (False, True)]
    chk.parallel('several appliances', several, cases)
