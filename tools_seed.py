#!/usr/bin/env python3
"""Development aid: build /verif/seeded/<id>/ from seeds_table.py and try each planted change in a scratch copy.
   tools_seed.py [--check] [id ...]     --check also runs the property's quick check on the changed copy"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDS = {}


def seed(id, property, needs, breaks, edits, demo):
    assert id not in SEEDS
    SEEDS[id] = dict(property=property, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo)


exec(open(os.path.join(HERE, 'seeds_table.py')).read())
args = [a for a in sys.argv[1:] if not a.startswith('--')]
results = {}
rp = os.path.join(HERE, 'seed_results.json')
if os.path.exists(rp):
    results = json.load(open(rp))
for id, s in SEEDS.items():
    if args and id not in args:
        continue
    d = os.path.join(HERE, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(os.path.join(HERE, 'stubs', 'nilm_metadata'), os.path.join(d, 'nilm_metadata'),
                    ignore=shutil.ignore_patterns('__pycache__'))
    for f in ('kit.py', 'demo.sh'):
        shutil.copy(os.path.join(HERE, 'seedkit', f), d)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write('from kit import *\n' + s['demo'].strip('\n') + '\n')
    json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    w = tempfile.mkdtemp(prefix='seedwt')
    try:
        r = os.path.join(w, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', r])
        subprocess.check_call(['git', '-C', r, 'checkout', '-q', '--', '.'])
        ok = subprocess.run([d + '/demo.sh'], cwd=r, capture_output=True, text=True)
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            t = open(p, newline='').read()
            if '\r\n' in t:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert t.count(old) == 1, (id, f, t.count(old), old)
            open(p, 'w', newline='').write(t.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'wb').write(subprocess.check_output(['git', '-C', r, 'diff']))
        bad = subprocess.run([d + '/demo.sh'], cwd=r, capture_output=True, text=True)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONPATH=os.path.join(HERE, 'stubs'), TZ='UTC')
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-o', 'addopts=',
                            'nilmtk/tests/test_timeframe.py'], cwd=r, env=env, capture_output=True, text=True)
        line = '%-28s %s clean=%d patched=%d tests=%s' % (id, s['property'], ok.returncode, bad.returncode, 'ok' if t.returncode == 0 else 'FAIL')
        good = ok.returncode == 0 and bad.returncode != 0 and t.returncode == 0
        if not good:
            line += '  <<<<<\n' + (ok.stdout + ok.stderr)[-600:] + '\n--\n' + (bad.stdout + bad.stderr)[-600:] + t.stdout[-300:] * (t.returncode != 0)
        elif 'Traceback' in bad.stderr:
            line += '  (traceback: %s)' % bad.stderr.strip().splitlines()[-1][:150]
        else:
            line += '  ' + bad.stdout.strip().splitlines()[-1][:150]
        if '--check' in sys.argv and good:
            env = dict(os.environ, VERIF_REPO=r, VERIF_OUT=os.path.join(w, 'out'))
            c = subprocess.run([os.path.join(HERE, 'check.py'), s['property'], 'quick'], env=env, capture_output=True, text=True)
            line += '\n    check rc=%d %s' % (c.returncode, 'CAUGHT' if 'VIOLATION property=%s ' % s['property'] in c.stdout else 'MISSED')
            results[id] = 'caught' if c.returncode == 1 else 'missed'
        print(line, flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
json.dump(results, open(rp, 'w'), indent=1, sort_keys=True)
