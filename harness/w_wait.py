"""`hs task submit`, `wait`, `run` and `info` of the real code, while other processes record what happens to the tasks.

The clock of a command only advances when it sleeps: each sleep is announced to the driver, which first lets the others do what is
due by then.  (A command which waits by other means simply takes its time: the clock never lags behind the real one.)
"""
import os
import json
import time
import random
import select
import sqlite3
import sys
import uuid
import plain

STATUS = [0, 0, 0, 1, 2, 3, 126, 127, 255, -1, -2, -9, -15]
ARGS = [['echo', '1'], ['true'], ['echo', 'a  b', 'c'], ['sleep 1; echo "x y"'], ['echo', '{}'], ['./run.sh', '-n', '3', '--flag'], ["it's"], ['αβγ', '日'],
        ['echo', '$HOME', '|', 'cat'], [' x ']]
TAGS = [[], [], ['a:1'], ['site:b', 'n:2'], ['flag'], ['a:1', 'flag', 'r:1.5'], ['x:true']]


def start():
    plain.setup()
    import hypershell, hypershell.data, hypershell.task     # noqa
    rc, out, err, _ = plain.forked(lambda: hypershell.data.initdb())
    if rc:
        raise RuntimeError(err)


def db():
    return sqlite3.connect(os.environ['HYPERSHELL_DATABASE_FILE'], isolation_level=None, timeout=30)


def stamp():
    return time.strftime('%Y-%m-%d %H:%M:%S.000000')


class Command:
    """A command in a process of its own, run up to each of its sleeps."""

    def __init__(self, argv, slow=20.0):
        self.argv, self.clock, self.t0, self.slow = argv, 0.0, time.time(), slow
        names = [os.path.join(plain.SCRATCH, f'.cmd{k}') for k in ('out', 'err')]
        self.names = names
        up, down = os.pipe(), os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 70
            try:
                os.close(up[0])
                os.close(down[1])
                for k, n in enumerate(names, 1):
                    fd = os.open(n, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                    os.dup2(fd, k)
                    os.close(fd)
                sys.stdin = open(os.devnull)
                sys.stdout = os.fdopen(1, 'w', closefd=False)
                sys.stderr = os.fdopen(2, 'w', closefd=False)

                def sleep(secs):
                    os.write(up[1], f'{float(secs)}\n'.encode())
                    if not os.read(down[0], 1):
                        os._exit(72)
                time.sleep = sleep
                import hypershell
                sys.argv = ['hs', *argv]
                code = hypershell.main()
            except SystemExit as exc:
                code = exc.code if isinstance(exc.code, int) else int(bool(exc.code))
            except BaseException:   # noqa
                import traceback
                traceback.print_exc()
                code = 71
            finally:
                try:
                    sys.stdout.flush()
                    sys.stderr.flush()
                finally:
                    os._exit((code or 0) & 255)
        os.close(up[1])
        os.close(down[0])
        self.up, self.down = up[0], down[1]
        self.sleeping, self.rc, self.buf = None, None, b''

    def now(self):
        return self.clock + (time.time() - self.t0 if time.time() - self.t0 > 2 else 0)

    def step(self, until):
        """Run until it sleeps (True), has ended (False), or time `until` is reached (None)."""
        while self.rc is None and self.sleeping is None:
            ready, _, _ = select.select([self.up], [], [], 0.05)
            if ready:
                data = os.read(self.up, 4096)
                if not data:
                    _, status = os.waitpid(self.pid, 0)
                    self.rc = os.waitstatus_to_exitcode(status)
                    break
                self.sleeping = float(data.split()[-1])
            elif self.now() >= until and time.time() - self.t0 > 2:
                return None
        return self.rc is None

    def wake(self):
        self.clock += self.sleeping
        self.sleeping = None
        os.write(self.down, b'x')

    def close(self):
        if self.rc is None:
            os.kill(self.pid, 9)
            os.waitpid(self.pid, 0)
        os.close(self.up)
        os.close(self.down)
        return [open(n, errors='replace').read() for n in self.names]


def ms(t):
    return int(round(t * 1000))


def new_task(con, rng, **over):
    h = '%032x' % rng.getrandbits(128)
    tid = f'{h[:8]}-{h[8:12]}-4{h[13:16]}-a{h[17:20]}-{h[20:]}'
    row = dict(id=tid, args=rng.choice(['echo 1', 'true', 'x']), submit_id=tid, submit_time=stamp(), submit_host='h', attempt=1, retried=0, tag='{}')
    row.update(over)
    con.execute(f'insert into task ({", ".join(row)}) values ({", ".join("?" * len(row))})', list(row.values()))
    return tid


def run(job):
    rng = random.Random(job['seed'])
    con = db()
    con.execute('delete from task')
    known = {}
    events = []
    lib = os.path.join(os.environ['HYPERSHELL_SITE'], 'lib', 'task')

    def put(tid, status):
        events.append({'e': 'task', 'id': tid, 'has': status is not None, 'status': status if status is not None else 0})

    for _ in range(rng.choice([1, 2, 3])):
        st = rng.choice([None, None, rng.choice(STATUS)])
        tid = new_task(con, rng, **({} if st is None else dict(schedule_time=stamp(), start_time=stamp(), completion_time=stamp(), exit_status=st)))
        known[tid] = st
        put(tid, st)

    def change(tid, clock, kind, box):
        """What others do to a task."""
        if tid is None:
            return
        if kind == 'schedule':
            con.execute('update task set schedule_time=?, server_id=?, waited=1 where id=?', (stamp(), tid, tid))
        elif kind == 'client':
            con.execute('update task set client_id=?, client_host=? where id=?', (tid, 'h', tid))
        elif kind == 'start':
            con.execute('update task set start_time=? where id=?', (stamp(), tid))
        elif kind == 'complete-later':      # completion is written before the status
            con.execute('update task set completion_time=? where id=?', (stamp(), tid))
        elif kind == 'revert':
            con.execute('update task set schedule_time=null, client_id=null, client_host=null where id=?', (tid,))
        elif kind == 'tag':
            con.execute('update task set tag=? where id=?', ('{"q": 1}', tid))
        elif kind == 'other':
            new_task(con, rng, exit_status=1)
        elif kind == 'delete':
            con.execute('delete from task where id=?', (tid,))
            known[tid] = 'gone'
            events.append({'e': 'delete', 'id': tid, 'at': clock})
        else:
            st = rng.choice(STATUS)
            out = os.path.join(lib, f'{tid}.out')
            err = os.path.join(lib, f'{tid}.err')
            if box.get('capture'):
                with open(out, 'w') as f:
                    f.write(box['stdout'])
                with open(err, 'w') as f:
                    f.write(box['stderr'])
            con.execute('update task set exit_status=?, completion_time=?, duration=1, client_host=?, outpath=?, errpath=? where id=?',
                        (st, stamp(), box['host'], out if box.get('capture') else None, err if box.get('capture') else None, tid))
            known[tid] = st
            events.append({'e': 'record', 'id': tid, 'status': st, 'at': clock})

    import socket
    for _ in range(job.get('steps', 5)):
        what = rng.choice(['wait', 'wait', 'wait', 'run', 'submit', 'bad', 'info'])
        box = {'capture': rng.random() < 0.8, 'stdout': rng.choice(['', 'out\n', 'a\nb', 'x y\n\n', 'é\n']), 'stderr': rng.choice(['', 'err\n', 'warn']),
               'host': socket.gethostname()}
        if what == 'bad':
            bad = rng.choice(['nonsense', '', '1234', 'zzzzzzzz-0000-4000-a000-000000000000', str(uuid.UUID(int=rng.getrandbits(128), version=4)),
                              '00000000-0000-4000-a000-00000000000', *[t + '0' for t in known], *[t[:-1] for t in known]])
            cmd = rng.choice([['task', 'wait', bad, *rng.choice([[], ['-s'], ['-r'], ['-i', '--json']])], ['task', 'info', bad], ['task', 'info', bad, '-x', 'args']])
            c = Command(cmd)
            slept = False
            while c.step(30):
                slept = True
                if c.clock > 30:
                    break
                c.wake()
            out, err = c.close()
            events.append({'e': 'bad', 'id': bad, 'rc': -99 if c.rc is None else c.rc, 'out': out, 'slept': slept, 'cmd': ' '.join(cmd)})
            continue
        if what == 'info':
            done = [t for t, s in known.items() if s != 'gone']
            if not done:
                continue
            tid = rng.choice(done)
            c = Command(['task', 'info', tid, '-x', 'exit_status'])
            c.step(30)
            out, err = c.close()
            events.append({'e': 'info', 'id': tid, 'rc': -99 if c.rc is None else c.rc, 'out': out.strip()})
            continue
        if what == 'submit':
            args, tags = rng.choice(ARGS), rng.choice(TAGS)
            before = {r[0] for r in con.execute('select id from task')}
            c = Command(['task', 'submit', *(['-t', *tags] if tags else []), '--', *args])
            c.step(30)
            out, err = c.close()
            rows = [r for r in con.execute('select id, args, tag, exit_status, schedule_time from task') if r[0] not in before]
            events.append({'e': 'submit', 'rc': -99 if c.rc is None else c.rc, 'out': out.strip(), 'args': ' '.join(args).strip(), 'tag': expected(tags),
                           'rows': [{'id': r[0], 'args': r[1], 'tag': tagged(r[2]), 'fresh': r[3] is None and r[4] is None} for r in rows],
                           'kept': len(before - {r[0] for r in con.execute('select id from task')}) == 0})
            for r in rows:
                known[r[0]] = None
                put(r[0], None)
            continue
        interval = rng.choice([1, 2, 3, 5, None])
        step = 5 if interval is None else interval
        opts = [] if interval is None else [rng.choice(['-n', '--interval']), str(interval)]
        # when the others do what
        plan, t = [], 0.0
        for kind in rng.choice([['schedule', 'client', 'start'], ['schedule'], ['schedule', 'revert', 'schedule'], [], ['other', 'tag'],
                                ['schedule', 'client', 'complete-later']]):
            t += rng.choice([0, 0.2, step * 0.5, step, step * 1.7])
            plan.append((t, kind))
        t += rng.choice([0, 0.1, step * 0.99, step, step * 2.5])
        plan.append((t, rng.choice(['record'] * 7 + ['delete'])))
        if what == 'wait':
            tids = [x for x, s in known.items() if s is None] or [x for x, s in known.items() if s != 'gone']
            tid = rng.choice(tids) if tids and rng.random() < 0.7 else rng.choice(sorted(known))
            mode = rng.choice(['', '', '-s', '-r', '-i', '-i'])
            fmt = rng.choice([[], ['--json'], ['-f', 'json'], ['--yaml']]) if mode == '-i' else []
            names = {'-s': ['-s', '--status'], '-r': ['-r', '--return'], '-i': ['-i', '--info']}
            argv = ['task', 'wait', tid, *opts, *([rng.choice(names[mode])] if mode else []), *fmt]
            events.append({'e': 'wait', 'id': tid, 'step': ms(step)})
        else:
            args, tags = rng.choice(ARGS), rng.choice(TAGS)
            before = {r[0] for r in con.execute('select id from task')}
            argv = ['task', 'run', *opts, *(['-t', *tags] if tags else []), '--', *args]
            tid = None
        if tid is not None and known.get(tid) is not None:
            plan = []
        c = Command(argv)
        late = False
        while True:
            due = plan[0][0] if plan else c.now() + 3 * step + 5
            more = c.step(due)
            if what == 'run' and tid is None:
                new = [r[0] for r in con.execute('select id from task') if r[0] not in before]
                if new:
                    tid = new[0]
                    known[tid] = None
                    put(tid, None)
                    events.append({'e': 'wait', 'id': tid, 'step': ms(step)})
            if more is False:
                break
            horizon = c.clock + c.sleeping if more else c.now()
            while plan and plan[0][0] <= horizon:
                when, kind = plan.pop(0)
                change(tid, ms(max(when, c.clock)), kind, box)
            if more:
                c.wake()
            if not plan and c.now() > (due if plan else 0) + 300:
                late = True
                break
        out, err = c.close()
        e = {'e': 'done', 'id': tid or '', 'what': what, 'rc': -99 if c.rc is None else c.rc, 'at': ms(c.now()), 'out': out, 'err': err, 'mode': mode if what == 'wait' else 'run',
             'shown': '', 'capture': box['capture'], 'stdout': box['stdout'], 'stderr': box['stderr']}
        if what == 'wait' and mode == '-i':
            e['shown'] = shown(out, tid)
        if what == 'run':
            rows = [r for r in con.execute('select id, args, tag from task') if r[0] == tid]
            others = len([r for r in con.execute('select id, submit_host from task') if r[0] not in before and r[1] != 'h'])
            e.update(args=' '.join(args).strip(), tag=expected(tags), others=others, row=[{'args': r[1], 'tag': tagged(r[2])} for r in rows])
        events.append(e)
    con.close()
    return json.loads(json.dumps(events))


def tagged(text):
    return {k: json.dumps(v) for k, v in json.loads(text or '{}').items()}


def expected(tags):
    out = {}
    for t in tags:
        k, _, v = t.partition(':')
        if v in ('true', 'false'):
            v = v == 'true'
        else:
            for kind in (int, float):
                try:
                    v = kind(v)
                    break
                except ValueError:
                    pass
        out[k] = json.dumps(v)
    return out


def shown(out, tid):
    """The exit status in the output of --info, if it is about this task."""
    import yaml
    try:
        if out.lstrip().startswith('{'):
            d = json.loads(out)
        else:
            d = yaml.safe_load(out) if not out.startswith(' ') else {x.partition(':')[0].strip(): x.partition(':')[2].strip() for x in out.split('\n')}
        return str(d.get('exit_status')) if d.get('id') == tid else 'other task'
    except Exception:   # noqa
        return 'unreadable'
