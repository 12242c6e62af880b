"""Shared machinery of the checks: loading nilmtk from /repo, exhaustive drivers, verdicts, evidence.

A check is a function run(chk) which enumerates a finite space completely and calls
chk.case(...) for every execution.  Nothing here samples: VERIF_SEED only permutes the
order in which the (complete) space is visited.
"""
import contextlib
import gc
import hashlib
import io
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
THOROUGH = TIER == 'thorough'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
OUT = os.environ.get('VERIF_OUT', os.path.join(VERIF, 'evidence'))
NPROC = min(8, os.cpu_count() or 1)
CASE_CPU_S = 60
DEADLINE_S = 780 if TIER == 'quick' else 6 * 3600


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    """Raised by an oracle: the property does not hold on this execution.
    `key` names a specific way of failing, for known_findings.txt."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def load_nilmtk():
    """Import nilmtk from /repo's working tree; nilm_metadata is replaced by the stand-in."""
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.dont_write_bytecode = True
    for p in (os.path.join(VERIF, 'stubs'), REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    # nilmtk asks for a full garbage collection in almost every call, only to save memory; the automatic one does here
    gc.collect = lambda *a: 0
    import nilmtk
    assert os.path.realpath(nilmtk.__file__).startswith(os.path.realpath(REPO) + os.sep), nilmtk.__file__
    return nilmtk


@contextlib.contextmanager
def quiet():
    """Silence what the code under test prints."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield


def short(x, n=1500):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=10).hexdigest()


def _on_alarm(signum, frame):
    raise CaseTimeout()


class Stats:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []      # (key, case, detail)
        self.outcomes = set()
        self.aborted = None

    def merge(self, o):
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.transitions += o.transitions
        self.traces += o.traces
        if len(self.samples) < 6:
            self.samples += o.samples[:6 - len(self.samples)]
        self.violations += o.violations
        self.aborted = self.aborted or o.aborted


class Check:
    """One property's run."""

    def __init__(self, pid, bounds='', assumptions=(), level='model_checking'):
        self.pid, self.level = pid, level
        self.bounds, self.assumptions = bounds, list(assumptions)
        self.t0 = time.time()
        self.s = Stats()
        self.sections = {}
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.scratch = tempfile.mkdtemp(prefix='nilmtk-mc-', dir=base)
        self.known = load_known(pid)
        self.max_viol = 5

    # ---------------------------------------------------------------- one execution
    def case(self, label, case, fn, key=None):
        """Run one execution fn() under quiet(); fn returns an outcome (anything with a
        stable repr) or raises Violation.  Any other exception of the code is a violation."""
        s = self.s
        s.traces += 1
        detail = None
        outcome = None
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
        try:
            with quiet():
                outcome = fn()
        except Violation as e:
            detail = str(e)
            key = e.key or key
        except CaseTimeout:
            detail = 'no result after %d CPU seconds' % CASE_CPU_S
        except MemoryError:
            detail = 'out of memory'
        except Exception as e:
            tb = traceback.format_exc(limit=-6)
            detail = 'unexpected %s: %s\n%s' % (type(e).__name__, e, tb)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        if detail is not None:
            s.violations.append((key or label, case, short(detail, 4000), label))
            return False
        s.outcomes.add(digest((label, outcome)))
        if len(s.samples) < 3 and s.traces % 97 == 1:
            s.samples.append({'case': short((label, case), 400), 'outcome': short(outcome, 300)})
        return True

    def step(self, n=1):
        self.s.transitions += n

    def state(self, x):
        self.s.states.add(digest(x))

    @property
    def stop(self):
        if len([v for v in self.s.violations if v[0] not in self.known]) >= self.max_viol:
            return True
        if time.time() - self.t0 > DEADLINE_S:
            self.s.aborted = 'time cap %d s hit' % DEADLINE_S
            return True
        return False

    # ---------------------------------------------------------------- many executions
    def parallel(self, label, worker, items, chunk=None):
        """worker(chk, item) for every item, over NPROC forked processes; results merged."""
        items = list(items)
        random.Random(SEED).shuffle(items)      # order only: all items are visited
        n0 = (self.s.traces, self.s.transitions)
        if not items:
            return
        nshard = min(len(items), NPROC * 4)
        shards = [items[i::nshard] for i in range(nshard)]
        gc.freeze()                             # nilmtk calls gc.collect() a lot: keep those calls cheap
        ctx = multiprocessing.get_context('fork')
        q = ctx.Queue()
        todo = list(enumerate(shards))
        running = {}

        def body(i, shard):
            status = 1
            try:
                signal.signal(signal.SIGPROF, _on_alarm)
                resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
                self.s = Stats()
                self.scratch = os.path.join(self.scratch, 's%d_%d' % (os.getpid(), i))
                os.mkdir(self.scratch)
                for it in shard:
                    if self.stop:
                        break
                    try:
                        worker(self, it)
                    except CaseTimeout:
                        self.s.violations.append((label, it, 'no result in time (setup)', label))
                    except Exception as e:
                        self.s.violations.append(
                            (label, it, 'unexpected %s outside a case: %s\n%s' % (
                                type(e).__name__, e, traceback.format_exc(limit=-8)), label))
                shutil.rmtree(self.scratch, ignore_errors=True)
                q.put((i, self.s))
                q.close()
                q.join_thread()
                status = 0
            finally:
                os._exit(status)

        done = set()
        while todo or running:
            while todo and len(running) < NPROC:
                i, shard = todo.pop(0)
                p = ctx.Process(target=body, args=(i, shard))
                p.start()
                running[i] = (p, shard)
            got = None
            try:
                got = q.get(timeout=0.2)
            except Exception:
                pass
            if got is not None:
                i, st = got
                self.s.merge(st)
                done.add(i)
                p, _ = running.pop(i)
                p.join()
                if self.stop:
                    todo = []
                continue
            for i, (p, shard) in list(running.items()):
                if not p.is_alive() and q.empty():
                    p.join()
                    time.sleep(0.3)
                    if not q.empty():
                        break
                    running.pop(i)
                    self.s.violations.append(
                        (label, short(shard[:1]), 'worker process died with exit code %r' % p.exitcode, label))
            if time.time() - self.t0 > DEADLINE_S + 60:
                for i, (p, _) in running.items():
                    p.kill()
                self.s.aborted = 'time cap hit'
                break
        a = self.sections.setdefault(label, {'cases': 0, 'impl_steps': 0})
        a['cases'] += self.s.traces - n0[0]
        a['impl_steps'] += self.s.transitions - n0[1]

    def serial(self, label, worker, items):
        n0 = (self.s.traces, self.s.transitions)
        signal.signal(signal.SIGPROF, _on_alarm)
        for it in items:
            if self.stop:
                break
            worker(self, it)
        a = self.sections.setdefault(label, {'cases': 0, 'impl_steps': 0})
        a['cases'] += self.s.traces - n0[0]
        a['impl_steps'] += self.s.transitions - n0[1]

    # ---------------------------------------------------------------- verdict
    def finish(self):
        s = self.s
        shutil.rmtree(self.scratch, ignore_errors=True)
        fresh, known = [], {}
        for v in s.violations:
            if v[0] in self.known:
                known.setdefault(v[0], v)
            else:
                fresh.append(v)
        for k, what in sorted(self.known.items()):
            if k in known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        ev = {
            'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.level,
            'coverage': {
                'states': len(s.states), 'transitions': s.transitions,
                'traces_validated_against_impl': s.traces,
                'distinct_outcomes': len(s.outcomes),
                'bounds': self.bounds,
                'sub_spaces': self.sections,
                'samples': s.samples[:6] or [{'case': 'none'}],
                'exhaustive': s.aborted is None and not fresh,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(fresh),
        }
        if s.aborted:
            ev['coverage']['cap'] = s.aborted
        if known:
            ev['coverage']['known_findings_seen'] = sorted(known)
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, self.pid + '.json')
        with open(path, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: states=%d transitions=%d traces=%d outcomes=%d violations=%d wall=%.1fs%s' % (
            self.pid, len(s.states), s.transitions, s.traces, len(s.outcomes), len(fresh),
            time.time() - self.t0, ' CAP: ' + s.aborted if s.aborted else ''))
        if fresh:
            fresh.sort(key=lambda v: (len(repr(v[1])), repr(v[1])))
            key, case, detail, label = fresh[0]
            rp = os.path.join(OUT, 'replay-%s.txt' % self.pid)
            with open(rp, 'w') as f:
                f.write('property %s\nsub-space: %s\ncase (complete input/history): %r\nkey: %s\n\n%s\n' % (
                    self.pid, label, case, key, detail))
                f.write('\nreplay: VERIF_CASE=%r runs the same enumeration; %d violating executions in total.\n'
                        % (label, len(fresh)))
                for k2, c2, d2, l2 in fresh[1:40]:
                    f.write('\n--- also [%s] %s\n%s\n' % (l2, short(c2, 600), short(d2, 800)))
            print('first violation [%s] case=%s' % (label, short(case, 600)))
            print(short(detail, 3000))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        rp = os.path.join(OUT, 'replay-%s.txt' % self.pid)
        if os.path.exists(rp):
            os.remove(rp)
        return 0


def load_known(pid):
    """known: property=<id> key=<key> <what> lines of known_findings.txt."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2].strip()
                assert rest.startswith('key=')
                key, _, what = rest[4:].partition(' ')
                out[key] = what
    return out


# -------------------------------------------------------------------- comparison helpers
def feq(a, b, tol=1e-9):
    """Equality of floats / NaN / None with a relative tolerance for float32 storage."""
    if a is None or b is None:
        return a is b
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
