"""Whole runs of the real programs: processes, sockets, files and time are those of the system; only what is left at the end counts."""
import os
import sys
import time
import signal
import random
import shutil
import sqlite3
import subprocess
import plain
from w_queues import free_port

SCRIPT = '''#!/bin/sh
d=BOX/task.$1
n=$(cat $d/n); n=$((n + 1)); echo $n > $d/n
echo "$1 $n $TASK_ID" >> BOX/marks
echo "out $1 $n"
echo "err $1 $n" >&2
s=$(sed -n ${n}p $d/sleep)
[ -z "$s" ] || sleep $s
c=$(sed -n ${n}p $d/code)
case "$c" in k*) kill -${c#k} $$; sleep 5;; esac
exit ${c:-0}
'''


def start():
    plain.setup()


def options(rng, box, job, kind):
    """Options of the parts; what they mean is kept as well."""
    o = dict(retries=0 if kind == 'lost' else rng.choice([0, 0, 1, 2]), nodb=False, fail=rng.random() < 0.6 or bool(job.get('fail')), capture=False, out=False,
             n=rng.choice([1, 2, 3]), tmpl=rng.random() < 0.3)
    srv, cl = ['-b', str(rng.choice([1, 1, 2, 3]))], ['-N', str(o['n'])]
    if o['retries']:
        srv += ['-r', str(o['retries'])] + (['--eager'] if rng.random() < 0.5 else [])
    elif rng.random() < 0.25:
        o['nodb'] = True
        srv += ['--no-db']
    both = ['--no-confirm'] if rng.random() < 0.2 else []
    if o['fail']:
        srv += ['-f', os.path.join(box, 'failures')]
    where = rng.random() * (0.7 if job.get('redirect') else 1)
    if where < 0.3:
        o['capture'] = True
        cl += ['--capture']
    elif where < 0.7:
        o['out'] = True
        cl += ['-o', 'OUT', '-e', 'ERR']
    if o['tmpl']:
        cl += ['-t', 'EXE {}']
    return o, srv, cl, both


def launch(box, env, argv, name):
    log = open(os.path.join(box, name + '.log'), 'w')
    p = subprocess.Popen([plain.PYTHON, '-c', 'import sys; from hypershell import main; sys.exit(main())', *argv], env=env, cwd=box,
                         stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    log.close()
    return p


def listening(port, until):
    """Wait until somebody listens (without connecting)."""
    want = f':{int(port):04X}'
    while time.time() < until:
        for name in ('/proc/net/tcp', '/proc/net/tcp6'):
            if os.path.exists(name):
                with open(name) as f:
                    if any(x[1].endswith(want) and x[3] == '0A' for x in map(str.split, f)):
                        return
        time.sleep(0.05)


def end(p, timeout):
    try:
        return p.wait(max(0.1, timeout))
    except subprocess.TimeoutExpired:
        return None


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def lines(path):
    try:
        with open(path, errors='replace') as f:
            return f.read().splitlines()
    except FileNotFoundError:
        return []


def table(path):
    """The rows of all tasks."""
    if not os.path.exists(path):
        return 'none', []
    c = sqlite3.connect(path)
    try:
        if not c.execute("select 1 from sqlite_master where name = 'task'").fetchall():
            return 'none', []
        names = {}
        rows = c.execute('select id, args, exit_status, attempt, previous_id, next_id, retried, completion_time, client_id, schedule_time, '
                         'outpath, errpath, start_time from task order by submit_time, attempt').fetchall()
        num = lambda x: names.setdefault(str(x).replace('-', ''), len(names) + 1) if x else 0  # noqa
        for r in rows:
            num(r[0])
        return names, [dict(id=num(r[0]), args=r[1], ex=-9999 if r[2] is None else r[2], att=r[3], prev=num(r[4]), next=num(r[5]),
                            rtr=bool(r[6]), done=r[7] is not None, held=r[8] is not None, sch=r[9] is not None, ran=r[8] is not None and r[9] is not None and r[12] is not None,
                            outp=r[10] or '', errp=r[11] or '') for r in rows]
    finally:
        c.close()


def plan(rng, names, direct, kind):
    out = {}
    for n in names:
        bad = rng.choice([0, 0, 0, 1, 1, 2, 9])
        codes = [rng.choice(['1', '2', '3', '127', '255'] + (['k9', 'k15', 'k1'] if direct else [])) for _ in range(bad)][:6] + ['0'] * 6
        sleeps = [rng.choice(['', '', '0.1', '0.5'] + (['1.5', '3'] if kind in ('killed', 'lost', 'stopped') else [])) for _ in codes]
        out[n] = dict(codes=codes[:6], sleeps=sleeps[:6])
    return out


def run(job):
    rng = random.Random(job['seed'])
    box = os.path.join(plain.SCRATCH, f'real{job["seed"]}')
    os.makedirs(box)
    procs = []
    try:
        begin = time.time()
        kind = rng.choice(job.get('kinds') or ['cluster', 'cluster', 'remote', 'remote', 'killed', 'stopped', 'lost', 'interrupted'])
        o, srv, cl, both = options(rng, box, job, kind)
        if kind in ('killed', 'stopped', 'lost', 'interrupted') and o['nodb']:
            o['nodb'] = False
            srv.remove('--no-db')
        if kind in ('killed', 'lost', 'interrupted') and both:
            both.remove('--no-confirm')
        names = [f't{i}' for i in range(1, (40 if kind == 'interrupted' else rng.choice([1, 3, 5, 8])) + 1)]
        direct = rng.random() < 0.5     # no shell in between
        exe = f'{"exec " if direct else ""}sh {box}/w.sh'
        todo = plan(rng, names, direct, kind)
        if kind == 'interrupted' and '-b' in srv:
            srv[srv.index('-b') + 1] = '4'
        with open(os.path.join(box, 'w.sh'), 'w') as f:
            f.write(SCRIPT.replace('BOX', box))
        for n, p in todo.items():
            d = os.path.join(box, 'task.' + n)
            os.mkdir(d)
            for name, rows in (('n', ['0']), ('code', p['codes']), ('sleep', p['sleeps'])):
                with open(os.path.join(d, name), 'w') as f:
                    f.write('\n'.join(rows) + '\n')
        args = {n: n if o['tmpl'] else f'{exe} {n}' for n in names}
        cl = [x.replace('EXE', exe) for x in cl]
        with open(os.path.join(box, 'tasks.in'), 'w') as f:
            f.write('\n'.join(args[n] for n in names) + '\n')
        db = os.path.join(box, 'task.db')
        env = {k: v for k, v in os.environ.items() if not k.startswith(('HYPERSHELL', 'TASK_'))}
        site = os.path.join(box, 'site')
        for sub in ('lib/task', 'log', 'etc', 'run'):
            os.makedirs(os.path.join(site, sub))
        env.update(HYPERSHELL_SITE=site, HYPERSHELL_DATABASE_FILE=db, HYPERSHELL_SERVER_WAIT='1', HYPERSHELL_CLIENT_HEARTRATE='1',
                   HYPERSHELL_SERVER_EVICT='11' if kind == 'lost' else '600', HYPERSHELL_CLIENT_BUNDLEWAIT='1', HYPERSHELL_SUBMIT_BUNDLEWAIT='1',
                   HYPERSHELL_SERVER_AUTH='key-' + str(job['seed']), HYPERSHELL_LOGGING_LEVEL='WARNING',
                   PYTHONPATH=os.path.join(plain.REPO, 'src'), HOME=box)
        port = str(free_port())
        deadline = time.time() + job.get('limit', 120)
        st, ok, hurt = None, True, kind in ('killed', 'lost', 'stopped', 'interrupted')

        def cluster(extra, tag):
            mine = [x.replace('OUT', f'{box}/out.{tag}').replace('ERR', f'{box}/err.{tag}') for x in cl]
            return launch(box, env, ['cluster', *extra, *srv, *mine, *both, '-p', port, '-w', '1'], tag)

        def client(tag):
            mine = [x.replace('OUT', f'{box}/out.{tag}').replace('ERR', f'{box}/err.{tag}') for x in cl]
            return launch(box, env, ['client', '-H', 'localhost', '-p', port, '-k', env['HYPERSHELL_SERVER_AUTH'], '-w', '1',
                                     '-b', str(rng.choice([1, 1, 2])), *mine, *both], tag)
        if kind in ('cluster', 'killed', 'stopped', 'interrupted'):
            procs.append(cluster(['tasks.in'], 'first'))
            if kind != 'cluster':
                if kind == 'interrupted':   # in the middle of its work
                    some, until = rng.randint(1, 20), time.time() + 20
                    while procs[0].poll() is None and time.time() < until and len(lines(os.path.join(box, 'marks'))) < some:
                        time.sleep(0.02)
                else:
                    time.sleep(rng.uniform(0.6, 6))
                if kind == 'killed':
                    kill(procs[0])
                    st = 0
                else:
                    if procs[0].poll() is None:
                        procs[0].send_signal(signal.SIGINT if kind == 'interrupted' else rng.choice([signal.SIGINT, signal.SIGUSR1, signal.SIGUSR2]))
                    st = end(procs[0], min(40.0, deadline - time.time()))
                    ok = st is not None
                _, got = table(db)
                if ok and got:
                    port = str(free_port())
                    procs.append(cluster(['--restart'], 'again'))
                    st = end(procs[-1], deadline - time.time())
            else:
                st = end(procs[0], deadline - time.time())
        else:
            procs.append(launch(box, env, ['server', 'tasks.in', *srv, *both, '-H', 'localhost', '-p', port, '-w', '1'], 'server'))
            m = rng.choice([1, 2, 3]) if kind == 'remote' else 2
            late = rng.random() < 0.3
            listening(port, time.time() + 20)
            if late:
                time.sleep(1.0)
            procs += [client(f'client{i}') for i in range(m)]
            if kind == 'lost':
                time.sleep(rng.uniform(1.0, 5))
                kill(procs[1])
            st = end(procs[0], deadline - time.time())
            for p in procs[1:]:
                if not (kind == 'lost' and p is procs[1]):
                    ok = end(p, 25 if st is not None else 1) is not None and ok
        stopped = st is not None and ok
        for p in procs:
            kill(p)
        ids, rows = table(db)
        marks = []
        for ln in lines(os.path.join(box, 'marks')):
            name, n, i = ln.split(' ')
            marks.append([name, int(n), 0 if ids == 'none' else ids.get(i.replace('-', ''), 0)])
        outs = [ln for f in sorted(os.listdir(box)) if f.startswith('out.') for ln in lines(os.path.join(box, f))]
        errs = [ln for f in sorted(os.listdir(box)) if f.startswith('err.') for ln in lines(os.path.join(box, f))]
        back = {v: k for k, v in args.items()}
        return [dict(e='real', kind=kind, took=round(time.time() - begin, 1), hurt=hurt, opt=o, st=-1 if st is None else st, stopped=stopped, table=ids != 'none',
                     tasks=[dict(name=n, codes=[-int(c[1:]) if c[0] == 'k' else int(c) for c in todo[n]['codes']]) for n in names],
                     rows=[dict({k: v for k, v in r.items() if k not in ('outp', 'errp')}, name=back.get(r['args'], '?'),
                                outl=lines(r['outp']) if r['outp'] else [], errl=lines(r['errp']) if r['errp'] else []) for r in rows],
                     marks=marks, fails=[back.get(x, '?') for x in lines(os.path.join(box, 'failures'))], outs=outs, errs=errs,
                     logs={f: lines(os.path.join(box, f))[-4:] for f in sorted(os.listdir(box)) if f.endswith('.log')})]
    finally:
        for p in procs:
            kill(p)
        subprocess.run(['pkill', '-9', '-f', f'{box}/w.sh'], stdin=subprocess.DEVNULL)
        shutil.rmtree(box, ignore_errors=True)
