"""Demonstrations run the real code on a scratch site of their own."""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get('HYPERSHELL_REPO') or os.getcwd()
SCRATCH = tempfile.mkdtemp(prefix='hs-demo-')
_pid = os.getpid()
atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True) if os.getpid() == _pid else None)
for _k in [k for k in os.environ if k.startswith('HYPERSHELL_') and k != 'HYPERSHELL_REPO']:
    del os.environ[_k]
os.environ['HOME'] = SCRATCH
os.environ['HYPERSHELL_SITE'] = SCRATCH
for _d in ('lib/task', 'log', 'etc', 'run'):
    os.makedirs(os.path.join(SCRATCH, _d), exist_ok=True)
os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(SCRATCH, 'task.db')
os.environ['HYPERSHELL_LOGGING_LEVEL'] = 'CRITICAL'
os.chdir(SCRATCH)
sys.path.insert(0, os.path.join(REPO, 'src'))


def fresh():
    """An empty database."""
    from hypershell.data import initdb
    initdb()
    return __import__('hypershell.data.model', fromlist=['Task'])


def check(ok, text):
    if not ok:
        print('BROKEN:', text)
        sys.stdout.flush()
        os._exit(1)


def done():
    print('holds')
    sys.stdout.flush()
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os._exit(0)
