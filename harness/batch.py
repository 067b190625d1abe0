"""
Run many scenarios in worker processes (one fresh interpreter each, the simulated runtime is per process).

  batch.py worker JOBS.json OUT.json     JOBS: list of scenarios (with 'family' and 'seed') or [family, seed] pairs
"""
import os
import sys
import json
import time
import shutil
import tempfile
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python'


def worker(jobs_file, out_file):
    sys.path.insert(0, HERE)
    import world
    world.setup()
    import scenarios
    import cluster_sim
    with open(jobs_file) as f:
        jobs = json.load(f)
    with open(out_file, 'w') as out:
        for job in jobs:
            sc = scenarios.FAMILIES[job[0]](job[1]) if isinstance(job, list) else job
            if isinstance(job, list):
                sc['family'] = job[0]
            t0 = time.time()
            try:
                res = cluster_sim.run_scenario(sc)
            except Exception:   # noqa: reported by the parent
                import traceback
                out.write(json.dumps({'sc': sc, 'error': traceback.format_exc()[-2000:]}) + '\n')
                out.flush()
                break           # the state of this process is unknown
            out.write(json.dumps({'sc': sc, 'events': res['events'], 'outcome': res['outcome'], 'steps': res['steps'], 'walk': res.get('walk'),
                                  'secs': round(time.time() - t0, 3)}) + '\n')
            out.flush()
    sys.stdout.flush()
    os._exit(0)     # simulated processes may hold abandoned threads


def run(jobs, scratch, procs=8, timeout=600):
    """Results of all jobs (None for a job whose worker died), in order."""
    os.makedirs(scratch, exist_ok=True)
    fast = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else scratch
    home = tempfile.mkdtemp(prefix='verif-batch-', dir=fast)
    try:
        return run_parts(jobs, scratch, procs, timeout, home)
    finally:
        shutil.rmtree(home, ignore_errors=True)


def run_parts(jobs, scratch, procs, timeout, home):
    parts = [jobs[k::procs] for k in range(procs)]
    running = []
    for k, part in enumerate(parts):
        if not part:
            continue
        jf, of = os.path.join(scratch, f'jobs{k}.json'), os.path.join(scratch, f'out{k}.jsonl')
        with open(jf, 'w') as f:
            json.dump(part, f)
        open(of, 'w').close()
        log = open(os.path.join(scratch, f'log{k}.txt'), 'w')
        running.append((k, of, subprocess.Popen([PYTHON, '-X', 'faulthandler', os.path.join(HERE, 'batch.py'), 'worker', jf, of],
                                                stdout=log, stderr=subprocess.STDOUT, start_new_session=True,
                                                env={**os.environ, 'VERIF_SCRATCH': home, 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
                                                     'PYTHONPYCACHEPREFIX': os.path.join(scratch, 'pyc')}), log))
    deadline = time.time() + timeout
    results = [None] * len(jobs)
    for k, of, p, log in running:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
        log.close()
        with open(of) as f:
            for i, line in enumerate(f):
                try:
                    results[k + i * procs] = json.loads(line)
                except ValueError:
                    pass
    return results


if __name__ == '__main__':
    worker(sys.argv[2], sys.argv[3])
