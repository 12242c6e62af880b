"""A03: the factorial hidden Markov model is the product of its appliances' chains and decodes the likeliest states."""
import itertools
import math
from collections import OrderedDict
import numpy as np
from hmmlearn import hmm
from nilmtk.disaggregate import FHMMExact
from nilmtk.disaggregate.fhmm_exact import create_combined_hmm, decode_hmm, sort_learnt_parameters
from lib.core import THOROUGH, feq, require
from lib.disagg import power

PIS = {1: [(1.,)], 2: [(.5, .5), (.9, .1), (1., 0.)], 3: [(.2, .3, .5), (1., 0., 0.)]}
AS = {1: [((1.,),)], 2: [((.5, .5), (.5, .5)), ((.9, .1), (.3, .7)), ((1., 0.), (.25, .75))],
      3: [((.8, .1, .1), (.2, .5, .3), (.4, .4, .2))]}
MEANS = {1: [(0.,)], 2: [(0., 100.), (0., 37.), (3., 60.)], 3: [(0., 50., 220.), (1., 20., 41.)]}
MAXA = 4 if THOROUGH else 3
MAXT = 4 if THOROUGH else 3
OBS = [0., 40., 62., 100., 160., 270.]
ZERO = [0.] * 12
TRAIN = [ZERO, [0., 0, 0, 100, 100, 100] * 4, [5., 5, 2000, 2000, 2000] * 5, [300.] * 15, [0.] * 6 + [float('nan')] * 3 + [80.] * 6 + [0.] * 3]
BOUNDS = ('all permutations and ties of the means of chains of up to 4 states; all joint models of 1..%d appliances out of a palette of '
          'chains with 1..3 states and all joint states; all mains sequences of up to %d readings out of %d for two appliances, against '
          'every sequence of joint states; training on all pairs and triples of %d series' % (MAXA, MAXT, len(OBS), len(TRAIN)))
ASSUMPTIONS = ['fitting one appliance\'s chain is hmmlearn; the joint model is judged against the chains it learnt']


def sorting(chk, means):
    def run():
        n = len(means)
        pi = np.array([2. ** -(i + 1) for i in range(n)])
        cov = np.array([[[i + 1.]] for i in range(n)])
        A = np.array([[10. * i + j for j in range(n)] for i in range(n)])
        mu = np.array(means, float).reshape(-1, 1)
        before = [x.copy() for x in (pi, mu, cov, A)]
        p2, m2, c2, A2 = sort_learnt_parameters(pi, mu, cov, A)
        chk.step()
        require(all((a == b).all() for a, b in zip(before, (pi, mu, cov, A))), 'arguments changed')
        require(list(m2.flatten()) == sorted(means), 'means {}', list(m2))
        # which old state each new one is, told by its covariance
        old = [int(round(float(c[0][0]))) - 1 for c in c2]
        require(sorted(old) == list(range(n)), 'states {} of {} used', old, n)
        for i in range(n):
            require(means[old[i]] == float(m2[i][0]), 'state {} has the mean of another', i)
            require(p2[i] == pi[old[i]], 'start probability of state {}', i)
            for j in range(n):
                require(A2[i][j] == A[old[i]][old[j]], 'transition {} to {}', i, j)
        chk.state(means)
        return old
    chk.case('sorting', means, run)


def chain(spec):
    k, a, b, c = spec
    h = hmm.GaussianHMM(k, 'full')
    h.startprob_, h.transmat_ = np.array(PIS[k][a]), np.array(AS[k][b])
    h.means_ = np.array(MEANS[k][c]).reshape(-1, 1)
    h.covars_ = np.ones((k, 1, 1))
    return h


def model(specs):
    return OrderedDict(('app%d' % i, chain(s)) for i, s in enumerate(specs))


def combined(chk, specs):
    def run():
        ind = model(specs)
        c = create_combined_hmm(ind)
        joint = list(itertools.product(*[range(s[0]) for s in specs]))
        require(len(c.startprob_) == len(joint) and c.transmat_.shape == (len(joint),) * 2, 'size of the joint model')
        means = {n: h.means_.flatten().tolist() for n, h in ind.items()}
        st, pw = decode_hmm(len(joint), means, list(means), list(range(len(joint))))
        chk.step(2)
        seen = []
        for q in range(len(joint)):
            s = [int(st[n][q]) for n in ind]
            seen.append(tuple(s))
            require([float(pw[n][q]) for n in ind] == [means[n][k] for n, k in zip(ind, s)], 'power of joint state {}', q)
            require(feq(c.means_[q][0], sum(means[n][k] for n, k in zip(ind, s))), 'mean of joint state {} is not the sum', s)
            require(feq(c.startprob_[q], math.prod(h.startprob_[k] for h, k in zip(ind.values(), s))), 'start probability of {}', s)
            for r in range(len(joint)):
                t = [int(st[n][r]) for n in ind]
                require(feq(c.transmat_[q][r], math.prod(h.transmat_[k][m] for h, k, m in zip(ind.values(), s, t))), 'transition {} to {}', s, t)
        require(sorted(seen) == joint, 'decoded states {}', seen)
        c.n_features = 1
        require(len({float(v.flatten()[0]) for v in c.covars_}) == 1, 'noise differs between joint states')
        chk.state(specs)
        return seen
    chk.case('combined', specs, run)


def loglik(ind, var, path, obs):
    """path: per time a tuple of individual states."""
    total = 0.
    for t, s in enumerate(path):
        for h, k in zip(ind.values(), s):
            q = None
            p = h.startprob_[k] if t == 0 else h.transmat_[path[t - 1][list(ind.values()).index(h)]][k]
            total += math.log(p) if p > 0 else -math.inf
        mu = sum(h.means_.flatten()[k] for h, k in zip(ind.values(), s))
        total += -.5 * math.log(2 * math.pi * var) - (obs[t] - mu) ** 2 / (2 * var)
    return total


def noise(f):
    return float(f.model.covars_.flatten()[0])


def check_best(ind, var, obs, pred):
    levels = [[int(round(v)) for v in h.means_.flatten()] for h in ind.values()]
    names = list(ind)
    require(list(pred.columns) == names, 'columns {}', list(pred.columns))
    rows = [tuple(float(pred[n].iloc[t]) for n in names) for t in range(len(obs))]
    for r in rows:
        require(all(v in lv for v, lv in zip(r, levels)), 'powers {} are no states of {}', r, levels)
    joint = list(itertools.product(*[range(len(lv)) for lv in levels]))
    best = max(loglik(ind, var, p, obs) for p in itertools.product(joint, repeat=len(obs)))
    # states with the same power cannot be told apart in the answer
    fit = [[j for j in joint if tuple(float(lv[k]) for lv, k in zip(levels, j)) == r] for r in rows]
    mine = max(loglik(ind, var, p, obs) for p in itertools.product(*fit))
    require(mine >= best - 1e-6 * max(1, abs(best)), 'mains {}: predicted {} with log likelihood {}, {} is possible', obs, rows, mine, best)


def decoding(chk, case):
    specs, T = case
    ind = model(specs)
    f = FHMMExact({})
    f.individual, f.model = ind, create_combined_hmm(ind)
    for obs in itertools.product(OBS, repeat=T):
        def run():
            frames = [power(obs), power(obs[::-1], start=50)]
            got = f.disaggregate_chunk(frames)
            chk.step()
            require(len(got) == 2, '{} predictions', len(got))
            for fr, g in zip(frames, got):
                require(g.index.equals(fr.index), 'times {}', g.index)
                check_best(ind, noise(f), list(fr.iloc[:, 0]), g)
            return [list(g.sum(axis=1)) for g in got]
        chk.case('decoding', (specs, obs), run)
    chk.state(case)


def training(chk, combo):
    def run():
        np.random.seed(3)
        f = FHMMExact({})
        apps = [('app%d' % i, TRAIN[c]) for i, c in enumerate(combo)]
        f.partial_fit([power([1])], [(n, [power(v[:7]), power(v[7:], start=7)]) for n, v in apps])
        chk.step(2)
        for n, v in apps:
            h = f.individual[n]
            mu = list(h.means_.flatten())
            require(mu == sorted(mu), 'means {} of {}', mu, n)
            have = sorted({x for x in v if x == x})
            for m in mu:
                require(min(abs(m - x) for x in have) < 2, 'learnt level {} of {}: readings {}', m, n, have)
            require(all(min(abs(m - x) for m in mu) < 2 for x in have), 'no state for some of {}: {}', have, mu)
            require(feq(sum(h.startprob_), 1, 1e-6) and all(feq(sum(r), 1, 1e-6) for r in h.transmat_), 'no distribution in the chain of {}', n)
        total = sum(max(x for x in v if x == x) for _, v in apps)
        obs = [0., total, total / 2]
        fr = power(obs)
        got = f.disaggregate_chunk([fr])
        require(len(got) == 1 and got[0].index.equals(fr.index), 'prediction')
        check_best(f.individual, noise(f), obs, got[0])
        chk.state(combo)
        return combo
    chk.case('training', combo, run)


def run(chk):
    chk.parallel('sorting', sorting, [m for n in (1, 2, 3, 4) for m in itertools.product([0., 5., 60.5, 100.][:max(n, 2)], repeat=n)])
    palette = [(k, a, b, c) for k in PIS for a in range(len(PIS[k])) for b in range(len(AS[k])) for c in range(len(MEANS[k]))]
    small = [(1, 0, 0, 0), (2, 0, 1, 0), (2, 1, 2, 1), (2, 2, 0, 2), (3, 0, 0, 0), (3, 1, 0, 1)]
    chk.parallel('combined', combined, [s for n in (1, 2) for s in itertools.product(palette, repeat=n)]
                 + [s for n in range(3, MAXA + 1) for s in itertools.product(small if n == 3 else small[:4], repeat=n)])
    two = [(2, a, b, c) for a in range(3) for b in range(3) for c in range(3)]
    pairs = [(s, t) for s, t in itertools.combinations_with_replacement(two[::1 if THOROUGH else 2], 2)]
    chk.parallel('decoding', decoding, [((s,), T) for s in palette for T in range(1, MAXT + 1)]
                 + [(p, 2) for p in pairs] + [(p, 3) for p in pairs[::1 if THOROUGH else 7]])
    chk.parallel('training', training, [c for n in (1, 2, 3) for c in itertools.product(range(len(TRAIN)), repeat=n)])
