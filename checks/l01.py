"""L01: the loss functions and the RMS error of predictions equal their definitions."""
import itertools
import math
import numpy as np
import pandas as pd
from nilmtk import losses
from nilmtk.utils import compute_rmse
from lib.core import THOROUGH, feq, require
from lib import stores as S, meters as M, memstore as MS
from lib.disagg import power

VALS = [0., 9.75, 10., 150.]
N = 4 if THOROUGH else 3
NAN = float('nan')
BOUNDS = ('all pairs of series of 1..%d values out of %d x 7 losses; all sets of up to 3 appliances x columns present, absent, without '
          'values or partly missing in the predictions x orders x labels' % (N, len(VALS)))
ASSUMPTIONS = ['an undefined loss (dividing by zero) may be anything but a finite number, or a refusal']


def mean(xs):
    xs = list(xs)
    return sum(xs) / len(xs)


def f1(g, p):
    tp = sum(x >= 10 and y >= 10 for x, y in zip(g, p))
    wrong = sum((x >= 10) != (y >= 10) for x, y in zip(g, p))
    return 2 * tp / (2 * tp + wrong) if tp + wrong else 0.


def r2(g, p):
    tot = sum((x - mean(g)) ** 2 for x in g)
    return 1 - sum((x - y) ** 2 for x, y in zip(g, p)) / tot if tot and len(g) > 1 else None


REF = {
    'mae': lambda g, p: mean(abs(x - y) for x, y in zip(g, p)),
    'rmse': lambda g, p: math.sqrt(mean((x - y) ** 2 for x, y in zip(g, p))),
    'f1score': f1,
    'relative_error': lambda g, p: mean(abs(x - y) / (1 + y) for x, y in zip(g, p)),
    'r2score': r2,
    'nde': lambda g, p: math.sqrt(sum((x - y) ** 2 for x, y in zip(g, p)) / sum(x * x for x in g)) if any(g) else None,
    'nep': lambda g, p: sum(abs(x - y) for x, y in zip(g, p)) / sum(g) if any(g) else None,
}


def loss(chk, g):
    for p in itertools.product(VALS, repeat=len(g)):
        def run():
            ix = power(g).index
            a, b = pd.Series(g, index=ix, dtype='float64'), pd.Series(p, index=ix, dtype='float64')
            out = {}
            for name, ref in REF.items():
                want = ref(g, p)
                chk.step()
                if want is None:
                    continue
                got = getattr(losses, name)(a, b)
                require(feq(got, want, 1e-9), '{} of {} and {} is {} instead of {}', name, g, p, got, want)
                out[name] = round(float(got), 9)
            require(list(a) == list(g) and list(b) == list(p), 'the series were changed')
            return out
        chk.case('losses', (g, p), run)
    chk.state(g)


KINDS = ['present', 'absent', 'without values', 'missing some', 'shifted']
GT = [[0., 10., 20., 35.], [100., 100., 0., 100.], [5., NAN, 7., 2000.]]


def rms(chk, case):
    kinds, order, labels = case

    def run():
        n = len(kinds)
        if labels == 'meters':
            M.fresh_world()
            types = ['fridge', 'kettle', 'fridge']
            PA = (('power', 'active'),)
            ds = MS.dataset({1: ({i + 1: (S.frame(range(4), PA, tz='UTC'), {'site_meter': True} if i == 0 else {'submeter_of': 1}) for i in range(n + 1)},
                                 [{'type': types[i], 'instance': 1 + (i == 2), 'meters': [i + 2]} for i in range(n)])}, {'dev': M.device(PA)})
            names = [ds.buildings[1].elec[i + 2] for i in range(n)]
            shown = ['Fridge (1, 2)' if i == 0 and n > 2 else 'Fridge (1, 4)' if i == 2 else ['Fridge', 'Kettle'][i] for i in range(n)]
        else:
            names = shown = ['a', 'b', 'c'][:n]
        gt = pd.DataFrame({k: GT[i] for i, k in enumerate(names)}, index=power(GT[0]).index)
        cols, want = {}, {}
        for i, k in enumerate(kinds):
            p = [x + 3 + i * j for j, x in enumerate(GT[i])]
            if k == 'without values':
                p = [NAN] * 4
            elif k == 'missing some':
                p[0] = p[2] = NAN
            elif k == 'shifted':
                p = [NAN] + p[:3]
            if k != 'absent':
                cols[names[i]] = p
            if k in ('absent', 'without values'):
                continue
            both = [(x, y) for x, y in zip(GT[i], p) if x == x and y == y]
            want[i] = math.sqrt(mean((x - y) ** 2 for x, y in both))
        pred = pd.DataFrame(cols, index=gt.index, columns=[names[i] for i in order if names[i] in cols])
        gt0, pred0 = gt.copy(), pred.copy()
        got = compute_rmse(gt, pred, pretty=labels != 'plain')
        chk.step()
        require(gt.equals(gt0) and pred.equals(pred0), 'arguments changed')
        have = {str(k): float(v) for k, v in got.items()}
        # appliances of the same type are told apart by building and instance only if both are listed
        names_want = {}
        for i in want:
            lab = shown[i]
            if labels == 'meters' and i in (0, 2) and not (0 in want and 2 in want):
                lab = 'Fridge'
            names_want[str(lab)] = want[i]
        require(sorted(have) == sorted(names_want), 'lists {} instead of {}', sorted(have), sorted(names_want))
        for k in have:
            require(feq(have[k], names_want[k], 1e-9), '{}: {} instead of {}', k, have[k], names_want[k])
        chk.state(case)
        return sorted(have.items())
    chk.case('rms error', case, run)


def run(chk):
    chk.parallel('losses', loss, [g for n in range(1, N + 1) for g in itertools.product(VALS, repeat=n)])
    chk.parallel('rms error', rms, [(k, o, lab) for n in (1, 2, 3) for k in itertools.product(KINDS, repeat=n) for o in itertools.permutations(range(n))
                                    for lab in ('plain', 'names', 'meters') if 'present' in k or n < 3])
