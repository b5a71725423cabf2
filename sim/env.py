"""Paths, interpreter set-up and the build of the code under test."""
import fcntl
import os
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
RUN_ENV = {
    'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
    'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg',
    'PYTHONHASHSEED': '0', 'LANG': 'C.UTF-8', 'TZ': 'UTC',
    'PYTHONWARNINGS': 'ignore',
}


def build():
    """Rebuild the compiled parts from /repo's current tree if they changed.
    Returns (ok, log)."""
    lockfn = '/tmp/.verif-build.lock'
    with open(lockfn, 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        return p.returncode == 0, p.stdout


def reexec(argv):
    """Re-exec under the pinned interpreter and environment."""
    if os.environ.get('VERIF_REEXEC') == '1':
        return
    env = dict(os.environ)
    hs = env.get('VERIF_HASHSEED')
    env.update(RUN_ENV)
    if hs:
        env['PYTHONHASHSEED'] = hs
    env['PYTHONPATH'] = REPO
    env['VERIF_REEXEC'] = '1'
    env.setdefault('HOME', '/root')
    env['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    os.execve(PY, [PY, '-W', 'ignore'] + argv, env)


def setup_path():
    for p in (REPO, VERIF):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
