"""N01: a pipeline of steps runs only when every step's requirements are met upstream, before any data are read; steps
change exactly what they announce."""
import copy
import itertools
import pandas as pd
from nilmtk import TimeFrame
from nilmtk.node import Node, UnsatisfiedRequirementsError, find_unsatisfied_requirements
from nilmtk.preprocessing import Clip, Apply
from nilmtk.stats import TotalEnergy, GoodSections, DropoutRate
from lib.core import THOROUGH, Violation, require, feq
from lib import stores as S, meters as M
from lib.source import Source, chunked

DEPTH = 4 if THOROUGH else 3
COLS = [('power', 'active'), ('voltage', '')]
BOUNDS = ('requirements: every requirement of up to two leaves (nested to depth 2, exact or any value) x every state of up to three leaves; '
          'pipelines: every sequence of up to %d steps out of clip, apply, energy, good sections, dropout and three steps with requirements of '
          'their own x 6 device descriptions x 2 chunkings; clipping: every pair of limits and values around them, own and device limits'
          % DEPTH)
ASSUMPTIONS = ['merging of nested metadata is done by the stand-in of nilm_metadata', 'a limit not given does not limit']


# ------------------------------------------------------------------ requirements
LEAVES = [('a', 1), ('a', 2), ('b', 1), ('b', None), ('c.a', 1), ('c.a', 0), ('c.b', 2), ('d.a', 1), ('d.b', {}), ('b', '')]
REQ = [('a', 1), ('a', 'ANY VALUE'), ('b', 'ANY VALUE'), ('b', None), ('c.a', 1), ('c.a', 'ANY VALUE'), ('c.b', 2), ('d.b', 'ANY VALUE'), ('d.a', 2)]


def tree(leaves):
    out = {}
    for p, v in leaves:
        d = out
        *pre, last = p.split('.')
        for q in pre:
            d = d.setdefault(q, {})
        d[last] = copy.deepcopy(v)
    return out


def unmet(state, req):
    st = dict(state)
    heads = {p.split('.')[0] for p in st}
    n, missing_heads = 0, set()
    for p, v in req:
        h = p.split('.')[0]
        if '.' in p and h not in heads:
            missing_heads.add(h)
        elif p not in st or (v != 'ANY VALUE' and st[p] != v):
            n += 1
    return n + len(missing_heads)


def requirements(chk, item):
    req = item
    for n in range(4):
        for state in itertools.combinations(LEAVES, n):
            if len({p for p, _ in state}) < n:
                continue

            def run():
                st, rq = tree(state), tree(req)
                k = copy.deepcopy((st, rq))
                chk.step()
                got = find_unsatisfied_requirements(st, rq)
                want = unmet(state, req)
                require(len(got) == want, '{} unmet requirements {} instead of {}', len(got), got, want)
                require(k == (st, rq), 'the arguments changed')
                chk.state((item, state))
                return want
            chk.case('requirements', (item, state), run)


# ------------------------------------------------------------------ pipelines
class Log:
    def __init__(self):
        self.pulled = 0


class Up(Source):
    def __init__(self, chunks, md, log):
        super().__init__(chunks, md)
        self.log = log

    def process(self):
        for c in self.chunks:
            self.log.pulled += 1
            yield c


class NeedsA(Node):
    requirements = {'preprocessing_applied': {'resampled': 'ANY VALUE'}}
    postconditions = {'preprocessing_applied': {'a': {}}}

    def process(self):
        self.check_requirements()
        return self.upstream.process()


class GivesR(Node):
    postconditions = {'preprocessing_applied': {'resampled': {'rule': '1s'}}, 'extra': [1]}

    def process(self):
        self.check_requirements()
        return self.upstream.process()


class NeedsValue(Node):
    requirements = {'device': {'model': 'dev'}, 'preprocessing_applied': {'resampled': {'rule': '1s'}}}
    postconditions = {}

    def process(self):
        self.check_requirements()
        return self.upstream.process()


STEPS = {'C': Clip, 'P': Apply, 'E': TotalEnergy, 'G': GoodSections, 'D': DropoutRate, 'A': NeedsA, 'R': GivesR, 'V': NeedsValue}
NEEDS = {'C': {'dev.measurements'}, 'P': set(), 'E': {'dev.max', 'clip'}, 'G': {'dev.max'}, 'D': {'dev.sample'}, 'A': {'res'},
         'R': set(), 'V': {'dev.model', 'res'}}
GIVES = {'C': {'clip'}, 'R': {'res'}}


def devices():
    full = M.device(COLS, 1, 2, limits=(15, 52))
    for drop in ((), ('measurements',), ('max_sample_period',), ('sample_period',), ('model',), ('measurements', 'max_sample_period')):
        d = copy.deepcopy(full)
        for k in drop:
            del d[k]
        yield drop, d


def pipeline(chk, item):
    seq, di, size = item
    drop, dev = list(devices())[di]

    def run():
        offs = (0, 1, 2, 3, 5, 6)
        df = S.frame(offs, COLS, tz='UTC')
        log = Log()
        md = {'device': dev}
        keep = copy.deepcopy(md)
        src = Up(chunked(df, size), md, log)
        last = src
        posts = {k: copy.deepcopy(STEPS[k].postconditions) for k in STEPS}
        nodes = []
        for k in seq:
            node = Apply(last, func=lambda d: d * 2) if k == 'P' else STEPS[k](last)
            nodes.append(node)
            last = node
        have = {{'measurements': 'dev.measurements', 'max_sample_period': 'dev.max', 'sample_period': 'dev.sample',
                 'model': 'dev.model'}[k] for k in dev if k in ('measurements', 'max_sample_period', 'sample_period', 'model')}
        ok, cur = True, set(have)
        for k in seq:
            ok = ok and NEEDS[k] <= cur
            cur |= GIVES.get(k, set())
        chk.step(len(seq))
        try:
            state = last.dry_run_metadata()
            out = [(c, getattr(c, 'timeframe', None)) for c in last.process()]
            ran = True
        except UnsatisfiedRequirementsError:
            ran = False
        require(ran == ok, 'the pipeline {} although its requirements are{} met', 'ran' if ran else 'was refused', '' if ok else ' not')
        applied = {k for k in ('clip', 'resampled', 'a') if k in (state.get('preprocessing_applied') or {})}
        require(applied == {{'C': 'clip', 'R': 'resampled', 'A': 'a'}[k] for k in seq if k in 'CRA'}, 'announced {}', applied)
        require(posts == {k: STEPS[k].postconditions for k in STEPS}, 'a step\'s own announcement changed')
        require(md == keep, 'metadata of the source changed')
        if not ran:
            # refused before any data were read, unless a later step pulled nothing
            require(log.pulled == 0, '{} chunks were read before the refusal', log.pulled)
        else:
            want = df.copy()
            for k in seq:
                if k == 'C':
                    want = want.clip(15, 52)
                elif k == 'P':
                    want = want * 2
            wc = chunked(want, size)
            require(len(out) == len(wc) and log.pulled == len(wc), 'chunks {}', len(out))
            for (c, tf), w in zip(out, wc):
                require(list(c.index) == list(w.index) and (c.values == w.values).all(), 'rows changed: {}', c.values.tolist())
                require(tf is not None and tf == w.timeframe, 'time frame lost')
            got = last.get_metadata()
            stats = set(got.get('statistics', {})) | (set(got) & {'total_energy', 'energy', 'good_sections', 'dropout_rate'})
            stats = {'energy' if s == 'total_energy' else s for s in stats}
            require(stats == {{'E': 'energy', 'G': 'good_sections', 'D': 'dropout_rate'}[k] for k in seq if k in 'EGD'}, 'statistics {}', stats)
            for k, node in zip(seq, nodes):
                if k == 'D':
                    require(int(node.results.per_period()['n_samples'].sum()) == sum(len(w) for w in wc), 'samples counted')
                elif k in 'EG':
                    require(len(node.results.timeframes()) == len(wc), 'results for {} chunks', len(node.results.timeframes()))
            require(md == keep, 'metadata of the source changed by the statistics')
        chk.state((item, ok))
        return ok
    chk.case('pipeline', item, run)


# ------------------------------------------------------------------ clipping and applying
def clipping(chk, item):
    dev_lim, own, vals = item

    def run():
        cols = [('power', 'active'), ('power', 'apparent'), ('voltage', '')]
        offs = range(len(vals))
        df = S.frame(offs, cols, tz='UTC', values=[[v, v + 1, v + 2] for v in vals])
        dev = M.device(cols, 1, 2)
        for i, lim in enumerate(dev_lim):
            if lim:
                for k, x in zip(('lower_limit', 'upper_limit'), lim):
                    if x is not None:
                        dev['measurements'][i][k] = x
        node = Clip(Source(chunked(df, 2), {'device': dev}))
        if own:
            node.lower, node.upper = own
        out = list(node.process())
        chk.step(len(out))
        got = pd.concat(out)
        got = got[~got.index.duplicated()]
        for j in range(3):
            lo, hi = [x if x is not None else y for x, y in zip(own or (None, None), dev_lim[j] or (None, None))]
            want = [v + j if v != v else max(v + j, v + j if lo is None else lo) for v in vals]
            want = [v if v != v or hi is None else min(v, hi) for v in want]
            g = list(got[cols[j]])
            require(all(feq(a, b) for a, b in zip(g, want)) and len(g) == len(want), 'column {}: {} instead of {}', j, g, want)
        chk.state(item)
        return len(set(vals))
    chk.case('clip', item, run)


def run(chk):
    reqs = [c for n in range(1, 3) for c in itertools.combinations(REQ, n) if len({p for p, _ in c}) == n]
    chk.parallel('requirements', requirements, reqs)
    chk.parallel('pipeline', pipeline, [(s, d, z) for n in range(1, DEPTH + 1) for s in itertools.product('CPEGDARV', repeat=n) for d in range(6)
                                        for z in (2, 100)])
    lims = [None, (10, 20), (-5, 0), (0, 0), (None, 10), (20, None)]
    vals = [(9, 10, 11), (19, 20, 21), (-6, 0, 25), (float('nan'), 5, 30), (0, 0, 0)]
    chk.parallel('clip', clipping, [((a, b, c), o, v) for a in lims for b in lims for c in lims for o in [None, (5, 15), (0, 12), (None, 20), (0, None)] for v in vals])
