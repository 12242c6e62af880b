#!/usr/bin/env python3
"""usage: check.py ID [quick|thorough]   Decide one property on /repo's working tree."""
import os
import sys

PY = '/opt/venv/bin/python'
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
want = {'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': '/opt/venv/mpl', 'TZ': 'UTC',
        'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
        'NUMEXPR_MAX_THREADS': '1', 'BLOSC_NTHREADS': '1'}
if sys.executable != PY or any(os.environ.get(k) != v for k, v in want.items()):
    os.environ.update(want)
    os.environ.pop('PYTHONPATH', None)
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
import shutil
import tempfile
import traceback


def main():
    pid = sys.argv[1]
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    tmp = tempfile.mkdtemp(prefix='nilmtk-tmp-', dir=base)
    tempfile.tempdir = tmp          # nilmtk's own temporary stores land here and are removed
    os.environ['TMPDIR'] = tmp
    from lib import core
    os.chdir(tmp)                   # relative paths written by the code under test stay here
    try:
        try:
            core.load_nilmtk()
            mod = importlib.import_module('checks.' + pid.lower())
            chk = core.Check(pid, bounds=mod.BOUNDS, assumptions=getattr(mod, 'ASSUMPTIONS', ()))
            mod.run(chk)
            rc = chk.finish()
        except Exception:
            # The tree cannot even be loaded and driven: the property does not hold on it.
            traceback.print_exc()
            rp = os.path.join(core.OUT, 'replay-%s.txt' % pid)
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            open(rp, 'w').write(traceback.format_exc())
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            rc = 1
    finally:
        os.chdir('/')
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


main()
