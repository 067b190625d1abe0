"""The autoscaler of the real code, on a virtual clock, with clients which only count, and a real database."""
import os
import sys
import time
import random
import signal
import sqlite3
import subprocess
import datetime as dt
import plain

REAL_SLEEP, REAL_DT = time.sleep, dt.datetime
CLOCK = None        # the clock of the current run


class Over(BaseException):
    """It has been told to stop and has not."""


class Clock:
    def __init__(self, base):
        self.base, self.t, self.due = base, 0.0, []

    def sleep(self, secs):
        self.move(self.t + max(0.0, float(secs)) + self.lag())

    def move(self, to):
        while self.due and self.due[0][0] <= to:
            at, fn = self.due.pop(0)
            self.t = max(self.t, at)
            fn()
        self.t = max(self.t, to)


class Meta(type):
    def __instancecheck__(cls, other):
        return isinstance(other, REAL_DT)


class Datetime(REAL_DT, metaclass=Meta):
    @classmethod
    def now(cls, tz=None):
        if CLOCK is None:
            return REAL_DT.now(tz)
        return REAL_DT.fromtimestamp(CLOCK.base + CLOCK.t, tz)


def start():
    plain.setup()
    import hypershell, hypershell.data, hypershell.cluster.remote     # noqa
    rc, out, err, _ = plain.forked(lambda: hypershell.data.initdb())
    if rc:
        raise RuntimeError(err)
    for mod in [m for n, m in sys.modules.items() if n.startswith('hypershell')]:
        if getattr(mod, 'datetime', None) is REAL_DT:
            mod.datetime = Datetime


def db():
    return sqlite3.connect(os.environ['HYPERSHELL_DATABASE_FILE'], isolation_level=None, timeout=30)


def uid(rng):
    h = '%032x' % rng.getrandbits(128)
    return f'{h[:8]}-{h[8:12]}-4{h[13:16]}-a{h[17:20]}-{h[20:]}'


class Site:
    """What other processes write to the database."""

    def __init__(self, rng, base):
        self.rng, self.base, self.con = rng, base, db()
        self.con.execute('delete from task')
        self.con.execute('delete from client')
        self.server = self.servers = None
        self.rows, self.up = {}, {}     # task -> row, client -> connected
        self.used = {}                  # clients with something completed -> start of the first, end of the last
        self.later = 0
        self.brief = rng.random() < 0.15
        self.new_server()

    def new_server(self):
        self.server = uid(self.rng)
        self.later += 1     # no two servers schedule at the same time

    def stamp(self, t):
        return None if t < 0 else REAL_DT.fromtimestamp(self.base - 1000 + t).strftime('%Y-%m-%d %H:%M:%S.000000')

    def put(self, tid):
        r = self.rows[tid]
        row = dict(id=tid, args='x', submit_id=tid, submit_time=self.stamp(0), submit_host='h', attempt=1, retried=0, tag='{}', server_id=r['sv'] or None,
                   client_id=r['cl'] or None, schedule_time=self.stamp(r['sch']), start_time=self.stamp(r['beg']), completion_time=self.stamp(r['end']),
                   duration=r['dur'] if r['dur'] >= 0 else None, exit_status=r['st'])
        self.con.execute(f'insert or replace into task ({", ".join(row)}) values ({", ".join("?" * len(row))})', list(row.values()))

    def submit(self, k):
        for _ in range(k):
            tid = uid(self.rng)
            self.rows[tid] = dict(sv='', cl='', sch=-1, beg=-1, end=-1, dur=-1, st=None)
            self.put(tid)

    def connect(self):
        if len(self.up) >= 5:
            return
        c = uid(self.rng)
        self.up[c] = True
        self.con.execute('insert into client (id, host, server_id, server_host, connected_at, evicted) values (?, ?, ?, ?, ?, 0)',
                         [c, 'h', self.server, 'h', self.stamp(1)])

    def disconnect(self):
        for c in self.rng.sample(sorted(self.up), min(1, len(self.up))):
            self.up[c] = False
            self.con.execute('update client set disconnected_at = ?, evicted = ? where id = ?', [self.stamp(2), self.rng.randint(0, 1), c])

    def step(self, now):
        """Something happens."""
        rng = self.rng
        now = int(now) + 1000
        kind = rng.choice(['submit', 'submit', 'connect', 'work', 'work', 'work', 'finish', 'finish', 'cancel', 'disconnect', 'schedule', 'revert', 'server'])
        open_ = [i for i, r in self.rows.items() if r['end'] < 0 and r['st'] is None]
        ready = [i for i in open_ if r_unscheduled(self.rows[i])]
        if kind == 'submit' and len(open_) < 20:
            self.submit(rng.choice([1, 2, 4, 8, 16]) if len(open_) < 4 else 1)
        elif kind == 'connect':
            self.connect()
        elif kind == 'disconnect':
            self.disconnect()
        elif kind == 'schedule' and ready:
            r = self.rows[ready[0]]
            r.update(sv=self.server, sch=now + self.later)
            self.put(ready[0])
        elif kind == 'revert' and open_:
            i = rng.choice(open_)
            self.rows[i].update(sv='', cl='', sch=-1)
            self.put(i)
        elif kind == 'cancel' and open_:
            i = rng.choice(open_)
            self.rows[i].update(sch=now + self.later, st=-1)
            self.put(i)
        elif kind == 'server' and rng.random() < 0.3:
            self.new_server()
        elif kind == 'finish':      # only few are left
            for i in open_[rng.randint(0, 2):]:
                self.complete(i, now)
        elif kind == 'work':
            for i in rng.sample(open_, min(len(open_), rng.choice([1, 2, 4]))):
                self.complete(i, now)

    def complete(self, i, now):
        rng = self.rng
        live = [c for c, on in self.up.items() if on]
        some = live or sorted(self.up)
        if not some or sum(r['end'] >= 0 for r in self.rows.values()) >= 20:
            self.rows.pop(i)
            self.con.execute('delete from task where id = ?', [i])
            return
        c = rng.choice(some[:3] if rng.random() < 0.6 else some[:1])
        old = self.used.get((c, self.server))
        dur = 0 if self.brief else rng.choice([0, 1, 1, 2, 4, 8, 8, 16, 3, 10])
        if old is None:
            beg, end = 900 + now - 1000, 900 + now - 1000 + max(1, dur)
            dur = max(1, dur) if not self.brief and rng.random() < 0.9 else dur
        else:       # between the first start and at most 40 seconds later
            beg = min(old[1], old[0] + 40 - dur)
            beg = max(old[0], beg if rng.random() < 0.7 else old[0])
            end = beg + dur
        if old is not None and rng.random() < 0.08:     # its command could not be made
            end, dur = beg, -1
        self.used[(c, self.server)] = (beg if old is None else min(old[0], beg), end if old is None else max(old[1], end))
        r = self.rows[i]
        r.update(sv=r['sv'] or self.server, cl=c, sch=r['sch'] if r['sch'] >= 0 else now + self.later, beg=beg, end=end, dur=dur, st=rng.choice([0, 0, 0, 1]))
        if r['sv'] != self.server:
            r.update(sv=self.server, sch=now + self.later)
        self.put(i)

    def balance(self, num, den):
        """As many tasks remain as make for a pressure close to one."""
        over = [r for r in self.rows.values() if r['end'] >= 0]
        last = max((r for r in self.rows.values() if r['sch'] >= 0), key=lambda r: r['sch'], default=None)
        done = [r for r in over if r['sv'] == last['sv'] and self.up.get(r['cl'])]
        timed = [r['dur'] for r in done if r['dur'] >= 0]
        if not timed:
            return
        rate = 0
        for c in {r['cl'] for r in done}:
            mine = [r for r in done if r['cl'] == c]
            rate += len(mine) / (max(r['end'] for r in mine) - min(r['beg'] for r in mine))
        want = int(num / den * (sum(timed) / len(timed) or 1) * rate + 1e-9) + self.rng.choice([0, 0, 1])
        open_ = [i for i, r in self.rows.items() if r['end'] < 0 and r['st'] is None]
        if 1 <= want <= 20:
            self.submit(want - len(open_))
            for i in open_[want:]:
                self.rows.pop(i)
                self.con.execute('delete from task where id = ?', [i])

    def event(self, t):
        order = sorted(self.rows)
        return {'e': 'db', 't': int(round(t * 1000)), 'up': [c for c, on in sorted(self.up.items()) if on],
                'rows': [{k: r[k] for k in ('sv', 'cl', 'sch', 'beg', 'end', 'dur')} | {'over': r['st'] is not None} for r in (self.rows[i] for i in order)]}


def r_unscheduled(r):
    return r['sch'] < 0


def run(job):
    global CLOCK
    import hypershell.cluster.remote as remote
    from hypershell.data.core import Session
    rng = random.Random(job['seed'])
    base = int(time.time()) + rng.randint(0, 10 ** 6)
    site = Site(rng, base)
    events = []
    clock = CLOCK = Clock(base)
    clock.lag = lambda: rng.choice([0.0005, 0.001, 0.01])
    lo = rng.choice([0, 0, 1, 1, 2, 3])
    num, den = rng.choice([(1, 1), (1, 1), (2, 1), (1, 2), (4, 1), (3, 2), (1, 4), (8, 1)])
    cfg = {'dynamic': rng.random() < 0.65, 'num': num, 'den': den, 'period': rng.choice([1, 5, 10, 60]) * 1000, 'init': rng.choice([0, 1, 1, 2, 3]), 'min': lo,
           'max': max(1, lo + rng.choice([0, 1, 2, 3]))}
    period = cfg['period'] / 1000
    horizon = period * rng.choice([8, 16, 24]) + 20
    launched = []
    command = ['srun', '-n1', 'hs', 'client']

    class Proc:
        def __init__(self, argv, *a, **k):
            self.pid, self.returncode, self.args = 10 ** 6 + len(launched), None, argv
            events.append({'e': 'launch', 't': now(), 'n': len(launched), 'ok': list(argv) == command and not k.get('shell')})
            launched.append(self)
            if len(launched) > 300:
                raise Over()

        def poll(self):
            return self.returncode

        def wait(self, timeout=None):
            while self.returncode is None:
                clock.sleep(0.1)
            return self.returncode

        def terminate(self):
            pass
        kill = terminate

    def now():
        return int(round(clock.t * 1000))

    def change():
        for _ in range(rng.choice([1, 1, 2, 4])):
            site.step(clock.t)
        if rng.random() < 0.4:
            site.balance(num, den)
        events.append(site.event(clock.t))

    def leave():
        alive = [i for i, p in enumerate(launched) if p.returncode is None]
        for i in rng.sample(alive, min(len(alive), rng.choice([1, 1, 1, 2, 5]))):
            launched[i].returncode = rng.choice([0, 0, 1, -9])
            events.append({'e': 'exit', 't': now(), 'n': i})

    def tick():
        events.append({'e': 'tick', 't': now()})

    for _ in range(rng.choice([0, 4, 10])):
        site.step(0)
    thread = None

    def halt():
        events.append({'e': 'halt', 't': now()})
        thread.stop()

    def over():
        raise Over()
    pace = rng.choice([0.3, 1, 1, 3])
    t = 0
    while t < horizon:
        t += rng.expovariate(1 / (period * pace))
        clock.due.append((round(t, 3), rng.choice([change, change, leave, tick])))
    clock.due = sorted([x for x in clock.due if x[0] < horizon] + [(horizon, halt), (horizon + 30, over)], key=lambda x: x[0])
    real = remote.Popen, subprocess.Popen, time.sleep, time.time, time.monotonic
    try:
        remote.Popen = subprocess.Popen = Proc
        time.sleep, time.time, time.monotonic = clock.sleep, lambda: clock.base + clock.t, lambda: clock.t
        signal.signal(signal.SIGALRM, lambda *a: over())
        signal.setitimer(signal.ITIMER_REAL, 10)
        events.append({'e': 'start', 't': 0, 'cfg': cfg})
        events.append(site.event(0))
        try:
            thread = remote.AutoScalerThread(command, policy='dynamic' if cfg['dynamic'] else 'fixed', factor=num / den, period=int(period), init_size=cfg['init'],
                                             min_size=cfg['min'], max_size=cfg['max'])
            thread.run_with_exceptions()
            events.append({'e': 'end', 't': now()})
        except Over:
            events.append({'e': 'endless', 't': now()})
        except Exception as exc:    # noqa
            events.append({'e': 'error', 't': now(), 'what': f'{type(exc).__name__}: {exc}'})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        remote.Popen, subprocess.Popen, time.sleep, time.time, time.monotonic = real
        CLOCK = None
        Session.close()
        site.con.close()
    return events
