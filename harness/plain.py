"""
Workers which run the real code in ordinary processes, on a scratch site of their own.

  plain.py worker MODULE JOBS.json OUT.json     MODULE offers run(job) -> list of events (or a dict with 'events')
"""
import os
import sys
import json
import time
import atexit
import shutil
import tempfile
import importlib
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')
SCRATCH = None


def setup(extra_env=None):
    """A scratch site, and the repository on the path (nothing imported yet)."""
    global SCRATCH
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    SCRATCH = tempfile.mkdtemp(prefix='verif-hs-', dir=base)
    pid = os.getpid()
    atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True) if os.getpid() == pid else None)
    for key in list(os.environ):
        if key.startswith('HYPERSHELL') or key.startswith('TASK_'):
            del os.environ[key]
    os.environ['HOME'] = SCRATCH
    site = os.path.join(SCRATCH, 'site')
    for sub in ('lib/task', 'log', 'etc', 'run'):
        os.makedirs(os.path.join(site, sub), exist_ok=True)
    os.environ['HYPERSHELL_SITE'] = site
    os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(SCRATCH, 'task.db')
    os.environ['HYPERSHELL_LOGGING_LEVEL'] = 'CRITICAL'
    os.environ['TZ'] = 'Etc/GMT+5'
    os.environ.update(extra_env or {})
    time.tzset()
    os.chdir(SCRATCH)
    sys.path.insert(0, os.path.join(REPO, 'src'))


def forked(fn, stdin=None, timeout=60):
    """Run fn() in a forked process; (exit code or None if it had to be killed, stdout, stderr, what fn returned)."""
    names = [os.path.join(SCRATCH, f'.fork{k}') for k in ('in', 'out', 'err', 'res')]
    with open(names[0], 'w') as f:
        f.write(stdin or '')
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            for k, flags in ((0, os.O_RDONLY), (1, os.O_WRONLY | os.O_CREAT | os.O_TRUNC), (2, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)):
                fd = os.open(names[k], flags, 0o600)
                os.dup2(fd, k)
                os.close(fd)
            sys.stdin = os.fdopen(0, 'r', closefd=False)
            sys.stdout = os.fdopen(1, 'w', closefd=False)
            sys.stderr = os.fdopen(2, 'w', closefd=False)
            try:
                res = fn()
                code = 0
            except SystemExit as exc:
                res, code = None, exc.code if isinstance(exc.code, int) else 1
            with open(names[3], 'w') as f:
                json.dump(res, f)
        except BaseException:   # noqa
            import traceback
            traceback.print_exc()
            code = 71
        finally:
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(code & 255)
    deadline = time.time() + timeout
    while True:
        got, status = os.waitpid(pid, os.WNOHANG)
        if got:
            break
        if time.time() > deadline:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            status = None
            break
        time.sleep(0.001)
    out = [open(n, errors='replace').read() for n in names[1:3]]
    res = None
    if os.path.exists(names[3]):
        with open(names[3]) as f:
            try:
                res = json.load(f)
            except ValueError:
                pass
        os.unlink(names[3])
    return (None if status is None else os.waitstatus_to_exitcode(status)), out[0], out[1], res


def worker(module, jobs_file, out_file):
    sys.path.insert(0, HERE)
    sys.modules.setdefault('plain', sys.modules['__main__'])
    with open(jobs_file) as f:
        jobs = json.load(f)
    mod = importlib.import_module(module)
    mod.start()
    with open(out_file, 'w') as out:
        for job in jobs:
            t0 = time.time()
            try:
                res = {'job': job, 'events': mod.run(job)}
            except Exception:   # noqa: reported by the parent
                import traceback
                res = {'job': job, 'error': traceback.format_exc()[-2500:]}
            res['secs'] = round(time.time() - t0, 3)
            out.write(json.dumps(res) + '\n')
            out.flush()
    sys.stdout.flush()
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os._exit(0)


def run(module, jobs, scratch, procs=8, timeout=300):
    """Results of all jobs (None for a job whose worker died or never ended), in order."""
    os.makedirs(scratch, exist_ok=True)
    procs = max(1, min(procs, len(jobs)))
    running = []
    for k in range(procs):
        part = jobs[k::procs]
        jf, of = os.path.join(scratch, f'jobs{k}.json'), os.path.join(scratch, f'out{k}.jsonl')
        with open(jf, 'w') as f:
            json.dump(part, f)
        open(of, 'w').close()
        log = open(os.path.join(scratch, f'log{k}.txt'), 'w')
        running.append((k, of, subprocess.Popen([PYTHON, os.path.join(HERE, 'plain.py'), 'worker', module, jf, of],
                                                stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                                start_new_session=True,
                                                env={**os.environ, 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
                                                     'PYTHONPYCACHEPREFIX': os.path.join(scratch, 'pyc')}), log))
    deadline = time.time() + timeout
    results = [None] * len(jobs)
    for k, of, p, log in running:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, 9)     # also whatever it left behind
        except ProcessLookupError:
            pass
        p.wait()
        log.close()
        with open(of) as f:
            for i, line in enumerate(f):
                try:
                    results[k + i * procs] = json.loads(line)
                except ValueError:
                    pass
    return results


if __name__ == '__main__':
    worker(sys.argv[2], sys.argv[3], sys.argv[4])
