"""
Deterministic cooperative runtime for the real hypershell code.

Every hypershell thread runs as a real OS thread holding a baton; it gives the baton back at each blocking
or externally visible operation (local queue, shared queue, sleep, SQL statement, process wait).  A controller
picks the next thread (seeded policy), advances a virtual clock only when nothing is runnable, injects faults,
and records observable events.  Nothing in the repository is changed: standard library entry points are replaced
in place (``queue.Queue``, ``multiprocessing.JoinableQueue``, ``BaseManager``, ``threading.Thread``, ``time.sleep``,
``datetime.datetime``, ``subprocess.Popen``) and behave as usual outside of a simulation.
"""
import os
import sys
import time
import queue
import random
import pickle
import threading
import subprocess
import datetime as _dt
import multiprocessing
import multiprocessing.managers as _mgr
from queue import Empty, Full

REAL_DT = _dt.datetime
REAL_SLEEP = time.sleep
REAL_TIME = time.time
REAL_MONO = time.monotonic
REAL_POPEN = subprocess.Popen
REAL_JQ = multiprocessing.JoinableQueue
EPOCH = REAL_DT(2024, 3, 1, 12, 0, 0)          # local (TZ of the harness), naive
EPOCH_TS = EPOCH.timestamp()

CUR = None     # the active Sim (one at a time)
_tls = threading.local()


class SimKilled(BaseException):
    """Raised inside threads of a killed process."""


class Stuck(Exception):
    """A simulated thread did not give the baton back within the watchdog period."""


def me():
    """The SimThread of the calling thread (None outside of a simulation)."""
    if getattr(_tls, 'raw', False):
        return None
    return getattr(_tls, 'sim_thread', None)


class SimThread:
    def __init__(self, sim, proc, name, target):
        self.sim, self.proc, self.name, self.target = sim, proc, name, target
        self.sem = threading.Semaphore(0)
        self.state = 'ready'
        self.pred = None
        self.deadline = None
        self.op = ('begin', )
        self.killed = False
        self.paused_until = 0
        self.exc = None
        self.prio = sim.rng.random()
        self.idx = len(sim.threads)
        self.os_thread = threading.Thread(target=self._main, name=f'sim-{name}', daemon=True)

    def _main(self):
        _tls.sim_thread = self
        self.sem.acquire()
        try:
            if not self.killed:
                self.target()
        except SimKilled:
            pass
        except BaseException as exc:   # noqa
            self.exc = exc
        self.state = 'done'
        self.sim.ctl.release()

    def runnable(self, now):
        if self.state == 'done' or self.state == 'new':
            return False
        if self.paused_until > now:
            return False
        if self.state == 'ready':
            return True
        if self.pred is not None and self.pred():
            return True
        return self.deadline is not None and now >= self.deadline


class Proc:
    """A simulated process: named group of threads with its own module-level identity."""
    def __init__(self, sim, name, host, instance):
        self.sim, self.name, self.host, self.instance = sim, name, host, instance
        self.threads = []
        self.alive = True
        self.main = None
        self.globals = {}
        self.tasks = []        # simulated child processes
        self.result = None
        self.ended = None


class Sim:
    def __init__(self, seed=0, policy='random', horizon=3_600_000, max_steps=60_000, step_ms=(0, 1), jitter=0.0):
        self.rng = random.Random(seed)
        self.policy = policy
        self.threads = []
        self.procs = {}
        self.now = 0
        self.horizon = horizon
        self.max_steps = max_steps
        self.step_ms = step_ms
        self.steps = 0
        self.ctl = threading.Semaphore(0)
        self.current = None
        self.cur_proc = None
        self.events = []
        self.servers = {}
        self.registry = {}
        self.triggers = []          # list of (fn() -> bool fired)
        self.hooks_after_step = []  # callables run by controller after each step
        self.outcome = None
        self.popen_handler = None
        self.sql_points = 0
        self.holds = []
        self.sql_kill = None        # (proc name, nth sql point)
        self.kill_cb = None
        self.done_when = None
        self.raw_conns = []
        self.conn_owner = {}        # id(connection) -> (process which has it checked out, connection)
        self.dead_conns = {}
        self.pct_points = set()
        self.children = []          # live simulated task processes
        self.stop_flag = False
        self.victim = None
        self.guide = None
        self.time_skew = 0.0        # probability that time moves although something is runnable
        if policy == 'pct':
            self.pct_points = {self.rng.randrange(1, 600) for _ in range(4)}

    # ---- thread-side ---------------------------------------------------------------------------
    def wait(self, op, pred=None, timeout=None):
        """Give the baton back; return True if pred holds, False on timeout."""
        t = me()
        if t.killed:
            raise SimKilled()
        t.op = op
        t.pred = pred
        if pred is None and timeout is None:
            t.state, t.deadline = 'ready', None
        else:
            t.state = 'blocked'
            t.deadline = None if timeout is None else self.now + max(0, int(round(timeout * 1000)))
        self.ctl.release()
        t.sem.acquire()
        if t.killed:
            raise SimKilled()
        if pred is None:
            return False
        return bool(pred())

    def yield_(self, op):
        self.wait(op)

    def crash_point(self, op):
        """A place where the process can die but no other thread can run (inside a transaction)."""
        t = me()
        if t.killed:
            raise SimKilled()
        if self.hit_sql_point(t):
            self.wait(('crash', ))

    def hit_sql_point(self, t):
        if self.sql_kill and t.proc.name == self.sql_kill[0]:
            self.sql_points += 1
            if self.sql_points == self.sql_kill[1]:
                self.sql_kill = None
                self.pending_kill = t.proc.name
                return True
        return False

    pending_kill = None

    def hit_hold(self, t):
        """A thread stops for a while in front of the n-th statement it sends to the database."""
        for h in self.holds:
            if h['nth'] > 0 and h['thread'] in t.name:
                if h['after'] and sum(e['e'] == h['after'][0] for e in self.events) < h['after'][1]:
                    continue
                h['nth'] -= 1
                if h['nth'] == 0:
                    self.emit('slow', ms=h['ms'])
                    t.paused_until = max(t.paused_until, self.now + h['ms'])

    # ---- controller ----------------------------------------------------------------------------
    def add_proc(self, name, main, host=None, instance=None):
        proc = Proc(self, name, host or f'host-{name}', instance or f'{name}')
        self.procs[name] = proc
        proc.globals = default_globals(proc)
        proc.main = self.spawn(proc, f'{name}:main', main)
        return proc

    def spawn(self, proc, name, target):
        was, _tls.raw = getattr(_tls, 'raw', False), True
        try:
            t = SimThread(self, proc, name, target)
            self.threads.append(t)
            proc.threads.append(t)
            t.os_thread.start()
        finally:
            _tls.raw = was
        return t

    def emit(self, e, **kw):
        self.events.append({'e': e, 't': self.now, **kw})

    def enter(self, proc):
        if self.cur_proc is proc:
            return
        if self.cur_proc is not None:
            self.cur_proc.globals = read_globals(self.cur_proc.globals)
        self.cur_proc = proc
        if proc is not None:
            write_globals(proc)

    def switch(self, t):
        self.current = t
        self.enter(t.proc)
        t.sem.release()
        if not self.ctl.acquire(timeout=60):
            raise Stuck(f'{t.name} at {t.op}')

    def kill(self, name, crash=True):
        """Kill a process: no further effects from any of its threads."""
        proc = self.procs.get(name)
        if proc is None or not proc.alive:
            return
        proc.alive = False
        held = [raw for owner, raw in self.conn_owner.values() if owner is proc]
        self.dead_conns.update({id(raw): raw for raw in held})
        for raw in held:
            try:
                raw.rollback()
            except Exception:   # noqa
                pass
        for key, srv in list(self.servers.items()):
            if srv['proc'] is proc:
                srv['up'] = False
                del self.servers[key]
        self.enter(proc)
        for t in proc.threads:
            if t.state != 'done':
                t.killed = True
                t.sem.release()
                if not self.ctl.acquire(timeout=60):
                    raise Stuck(f'kill {t.name} at {t.op}')
        for raw in held:
            try:
                raw.close()
            except Exception:   # noqa
                pass
        for child in proc.tasks:
            child.detached = True
        if self.kill_cb:
            self.kill_cb(proc, crash)

    def choose(self, ready):
        rng = self.rng
        if len(ready) == 1:
            return ready[0]
        if self.policy == 'pct':
            if self.steps in self.pct_points:
                max(ready, key=lambda t: t.prio).prio = rng.random() * 0.01
            if rng.random() < 0.02:
                return rng.choice(ready)
            return max(ready, key=lambda t: t.prio)
        if self.policy == 'sticky':
            if self.current in ready and rng.random() < 0.85:
                return self.current
            return rng.choice(ready)
        if self.policy == 'rr':
            later = [t for t in ready if self.current and t.idx > self.current.idx]
            return (later or ready)[0]
        if self.policy == 'starve':
            others = [t for t in ready if self.victim is None or self.victim not in t.name]
            return rng.choice(others or ready)
        return rng.choice(ready)

    def reap_children(self):
        done = [c for c in self.children if c.exit_at is not None and c.exit_at <= self.now]
        if done:
            for c in sorted(done, key=lambda c: c.exit_at):
                c.finish()
            self.children = [c for c in self.children if c.returncode is None]

    def run(self):
        global CUR
        CUR = self
        try:
            return self._run()
        finally:
            for name in list(self.procs):
                self.kill(name, crash=False)
            for raw in self.raw_conns:
                try:
                    raw.close()
                except Exception:  # noqa
                    pass
            self.enter(None)
            restore_globals()
            CUR = None

    def _run(self):
        lo, hi = self.step_ms
        while True:
            self.reap_children()
            for fn in self.hooks_after_step:
                fn()
            if self.pending_kill:
                name, self.pending_kill = self.pending_kill, None
                self.emit('kill', p=name)
                self.kill(name)
            for trig in list(self.triggers):
                if trig():
                    self.triggers.remove(trig)
            # daemon semantics: when main ends, the process ends
            for proc in list(self.procs.values()):
                if proc.alive and proc.main.state == 'done':
                    proc.ended = self.now
                    exc = proc.main.exc
                    self.emit('proc_end', p=proc.name, ok=exc is None, why='' if exc is None else type(exc).__name__)
                    if exc is not None:
                        proc.result = exc
                    self.kill(proc.name, crash=False)
            if self.stop_flag or (self.done_when and self.done_when()):
                self.outcome = 'done'
                return
            if self.steps >= self.max_steps:
                self.outcome = 'steps'
                return
            ready = [t for t in self.threads if t.proc.alive and t.runnable(self.now)]
            if self.guide:
                ready = self.guide(ready)
            if not ready or (self.time_skew and self.rng.random() < self.time_skew):
                ds = [t.deadline for t in self.threads
                      if t.proc.alive and t.state == 'blocked' and t.deadline is not None and t.deadline > self.now]
                ds += [t.paused_until for t in self.threads
                       if t.proc.alive and t.state != 'done' and t.paused_until > self.now]
                ds += [c.exit_at for c in self.children if c.exit_at is not None]
                ds += [w for w in (getattr(trig, 'at', None) for trig in self.triggers) if w is not None]
                ds = [d for d in ds if d > self.now]
                if ds:
                    self.now = min(ds)
                    if self.now > self.horizon:
                        self.outcome = 'timeout'
                        return
                    continue
                elif not ready and self.guide and self.guide.stuck():
                    continue
                elif not ready:
                    self.outcome = 'deadlock'
                    return
            t = self.choose(ready)
            self.steps += 1
            self.now += self.rng.randint(lo, hi)
            if self.now > self.horizon:
                self.outcome = 'timeout'
                return
            self.switch(t)


# ---- per-process module globals -------------------------------------------------------------------
DYNAMIC = [('hypershell.core.signal', 'RECEIVED', None), ('hypershell.client', 'CLIENT_STANDALONE_MODE', True)]
_ident = {'INSTANCE': [], 'HOSTNAME': []}
_orig = {}


def scan_identity():
    """Find every module attribute and function default which holds this process' INSTANCE or HOSTNAME."""
    import types
    logging_mod = sys.modules['hypershell.core.logging']
    for key in ('INSTANCE', 'HOSTNAME'):
        value = getattr(logging_mod, key)
        _orig[key] = value
        for name, mod in list(sys.modules.items()):
            if not name.startswith('hypershell') or mod is None:
                continue
            for attr, v in list(vars(mod).items()):
                if isinstance(v, str) and v == value and attr == key:
                    _ident[key].append(('mod', mod, attr))
                if isinstance(v, type) and getattr(v, '__module__', '') == name:
                    for f in list(vars(v).values()):
                        f = getattr(f, '__func__', f)
                        if isinstance(f, types.FunctionType) and f.__defaults__ and value in [
                                d for d in f.__defaults__ if isinstance(d, str)]:
                            _ident[key].append(('def', f, [i for i, d in enumerate(f.__defaults__)
                                                           if isinstance(d, str) and d == value]))


def default_globals(proc):
    g = {(m, a): v for m, a, v in DYNAMIC}
    g['INSTANCE'], g['HOSTNAME'] = proc.instance, proc.host
    return g


def read_globals(g):
    for m, a, _ in DYNAMIC:
        mod = sys.modules.get(m)
        if mod is not None and hasattr(mod, a):
            g[(m, a)] = getattr(mod, a)
    return g


def _write_ident(key, value):
    for kind, obj, where in _ident[key]:
        if kind == 'mod':
            setattr(obj, where, value)
        else:
            d = list(obj.__defaults__)
            for i in where:
                d[i] = value
            obj.__defaults__ = tuple(d)


def write_globals(proc):
    for m, a, _ in DYNAMIC:
        mod = sys.modules.get(m)
        if mod is not None and hasattr(mod, a):
            setattr(mod, a, proc.globals[(m, a)])
    _write_ident('INSTANCE', proc.globals['INSTANCE'])
    _write_ident('HOSTNAME', proc.globals['HOSTNAME'])


def restore_globals():
    for m, a, v in DYNAMIC:
        mod = sys.modules.get(m)
        if mod is not None and hasattr(mod, a):
            setattr(mod, a, v)
    for key in _ident:
        if key in _orig:
            _write_ident(key, _orig[key])


# ---- time ----------------------------------------------------------------------------------------
def _simnow():
    return EPOCH + _dt.timedelta(milliseconds=CUR.now)


class _DTMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, REAL_DT)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, REAL_DT)


class SimDatetime(REAL_DT, metaclass=_DTMeta):
    """Stands in for datetime.datetime within hypershell modules."""
    def __new__(cls, *a, **k):
        return REAL_DT.__new__(REAL_DT, *a, **k)

    @classmethod
    def now(cls, tz=None):
        if me() is None and (CUR is None or not getattr(CUR, 'virtual_main', False)):
            return REAL_DT.now(tz)
        n = _simnow()
        return n if tz is None else n.astimezone(tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        return cls.now(_dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def fromisoformat(cls, s):
        return REAL_DT.fromisoformat(s)

    @classmethod
    def fromtimestamp(cls, *a, **k):
        return REAL_DT.fromtimestamp(*a, **k)

    @classmethod
    def strptime(cls, *a, **k):
        return REAL_DT.strptime(*a, **k)

    @classmethod
    def combine(cls, *a, **k):
        return REAL_DT.combine(*a, **k)


def sim_sleep(seconds):
    if me() is None:
        return REAL_SLEEP(seconds)
    CUR.wait(('sleep', seconds), None, max(0.0, seconds))


def sim_time():
    return REAL_TIME() if me() is None else EPOCH_TS + CUR.now / 1000


def sim_mono():
    return REAL_MONO() if me() is None else 1000 + CUR.now / 1000


def sim_perf():
    return _real_perf() if me() is None else 1000 + CUR.now / 1000


_real_perf = time.perf_counter

# ---- local queues --------------------------------------------------------------------------------
_q_put, _q_get, _q_join = queue.Queue.put, queue.Queue.get, queue.Queue.join


def q_put(self, item, block=True, timeout=None):
    if me() is None:
        return _q_put(self, item, block, timeout)
    if self.maxsize > 0:
        if not block:
            CUR.yield_(('lput', ))
            if self._qsize() >= self.maxsize:
                raise Full
        elif not CUR.wait(('lput', ), lambda: self._qsize() < self.maxsize, timeout):
            raise Full
    else:
        CUR.yield_(('lput', ))
    self._put(item)
    self.unfinished_tasks += 1


def q_get(self, block=True, timeout=None):
    if me() is None:
        return _q_get(self, block, timeout)
    if not block:
        CUR.yield_(('lget', ))
        if not self._qsize():
            raise Empty
    elif not CUR.wait(('lget', ), lambda: self._qsize() > 0, timeout):
        raise Empty
    return self._get()


def q_join(self):
    if me() is None:
        return _q_join(self)
    CUR.wait(('ljoin', ), lambda: self.unfinished_tasks == 0)


# ---- shared queues -------------------------------------------------------------------------------
class SimJoinableQueue:
    """Queue owned by a (simulated) server; the owner's objects are pickled later, as by a feeder thread."""
    def __init__(self, maxsize=0, **_):
        self.maxsize = maxsize
        self.items = []     # [obj, pickled, owner_step]
        self.name = None
        self.unfinished = 0
        self.sim = CUR

    def settle(self, force=False):
        for it in self.items:
            if it[1] is None and (force or self.sim.steps - it[2] >= it[3]):
                it[1] = pickle.dumps(it[0])

    def _put(self, obj, remote):
        self.unfinished += 1
        lag = 0 if remote else self.sim.rng.choice((1, 1, 2, 3, 5, 8))
        self.items.append([obj, pickle.dumps(obj) if remote else None, self.sim.steps, lag])

    def _get(self):
        self.settle(True)
        it = self.items.pop(0)
        return pickle.loads(it[1])

    def put(self, obj, block=True, timeout=None, remote=False):
        sim = self.sim
        if not block:
            timeout = 0
        if self.maxsize > 0:
            if not sim.wait(('put', self.name), lambda: len(self.items) < self.maxsize, timeout):
                raise Full
        else:
            sim.yield_(('put', self.name))
        self._put(obj, remote)
        if sim.on_queue:
            sim.on_queue('put', self, pickle.loads(pickle.dumps(obj)), me().proc)

    def get(self, block=True, timeout=None, remote=False):
        sim = self.sim
        if not block:
            timeout = 0
        if not sim.wait(('get', self.name), lambda: len(self.items) > 0, timeout):
            raise Empty
        obj = self._get()
        if sim.on_queue:
            sim.on_queue('get', self, obj, me().proc)
        return obj

    def put_nowait(self, obj):
        return self.put(obj, False)

    def get_nowait(self):
        return self.get(False)

    def task_done(self):
        if self.unfinished <= 0:
            raise ValueError('task_done() called too many times')
        self.unfinished -= 1

    def join(self):
        self.sim.wait(('join', self.name), lambda: self.unfinished == 0)

    def qsize(self):
        return len(self.items)

    def empty(self):
        return not self.items

    def full(self):
        return 0 < self.maxsize <= len(self.items)

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


Sim.on_queue = None


class SimProxy:
    """What a client holds: the remote queue, failing once the server is gone."""
    def __init__(self, q, srv):
        self._q, self._srv = q, srv

    def _call(self, fn, *a, **k):
        if not self._srv['up']:
            raise ConnectionRefusedError(111, 'Connection refused')
        sim = self._q.sim
        srv = self._srv
        return fn(*a, **k)

    def put(self, obj, block=True, timeout=None):
        q, srv = self._q, self._srv
        sim = q.sim
        if not block:
            timeout = 0
        ok = sim.wait(('put', q.name, obj), lambda: not srv['up'] or q.maxsize <= 0 or len(q.items) < q.maxsize, timeout)
        if not srv['up']:
            raise EOFError()
        if not ok:
            raise Full
        q._put(obj, True)
        if sim.on_queue:
            sim.on_queue('put', q, pickle.loads(pickle.dumps(obj)), me().proc)

    def get(self, block=True, timeout=None):
        q, srv = self._q, self._srv
        sim = q.sim
        if not block:
            timeout = 0
        ok = sim.wait(('get', q.name), lambda: not srv['up'] or len(q.items) > 0, timeout)
        if not srv['up']:
            raise EOFError()
        if not ok:
            raise Empty
        obj = q._get()
        if sim.on_queue:
            sim.on_queue('get', q, obj, me().proc)
        return obj

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def call(*a, **k):
            if not self._srv['up']:
                raise EOFError()
            return getattr(self._q, name)(*a, **k)
        return call


def sim_joinable(*a, **k):
    if me() is None:
        return REAL_JQ(*a, **k)
    maxsize = a[0] if a else k.get('maxsize', 0)
    return SimJoinableQueue(maxsize)


_BM = _mgr.BaseManager
_bm = {n: getattr(_BM, n) for n in ('start', 'connect')}
_bm_register = _BM.__dict__['register']


def bm_register(cls, typeid, callable=None, *a, **k):
    if me() is None:
        return _bm_register.__func__(cls, typeid, callable, *a, **k)
    if callable is not None:
        reg = CUR.registry.setdefault(me().proc.name, {})
        reg[typeid] = callable
    else:
        def temp(self, *args, **kwargs):
            if me() is None:
                raise RuntimeError('simulated manager used outside of simulation')
            srv = self._sim_srv
            if not srv['up']:
                raise ConnectionRefusedError(111, 'Connection refused')
            q = srv['reg'][typeid](*args, **kwargs)
            return SimProxy(q, srv) if isinstance(q, SimJoinableQueue) else q
        temp.__name__ = typeid
        setattr(cls, typeid, temp)


def bm_start(self, *a, **k):
    if me() is None:
        return _bm['start'](self, *a, **k)
    for attr, v in list(vars(self).items()):
        if isinstance(v, SimJoinableQueue):
            v.name = attr.lstrip('_')
    proc = me().proc
    key = self.address[1]
    if key in CUR.servers and CUR.servers[key]['up']:
        raise OSError(98, 'Address already in use')
    self._sim_srv = {'up': True, 'proc': proc, 'reg': dict(CUR.registry.get(proc.name, {}))}
    CUR.servers[key] = self._sim_srv


def bm_connect(self):
    if me() is None:
        return _bm['connect'](self)
    CUR.yield_(('connect', ))
    srv = CUR.servers.get(self.address[1])
    if srv is None or not srv['up']:
        raise ConnectionRefusedError(111, 'Connection refused')
    self._sim_srv = srv


def bm_shutdown(self, *a, **k):
    if me() is None:
        return _bm['shutdown'](self, *a, **k)
    srv = getattr(self, '_sim_srv', None)
    if srv is not None and not me().killed:
        srv['up'] = False
        CUR.servers.pop(self.address[1], None)


class _ShutdownDescriptor:
    """`shutdown` is an instance attribute (Finalize) of real managers; a method here."""
    def __get__(self, obj, cls=None):
        if obj is None:
            return bm_shutdown
        real = obj.__dict__.get('_real_shutdown')
        if real is not None and me() is None:
            return real
        return lambda *a, **k: bm_shutdown(obj, *a, **k)

    def __set__(self, obj, value):
        obj.__dict__['_real_shutdown'] = value


# ---- threads -------------------------------------------------------------------------------------
_t_start, _t_join, _t_alive = threading.Thread.start, threading.Thread.join, threading.Thread.is_alive


def t_start(self):
    t = me()
    if t is None:
        return _t_start(self)
    if t.killed:
        raise SimKilled()
    if getattr(self, '_sim', None) is not None:
        raise RuntimeError('threads can only be started once')
    sim = t.sim
    owner = self

    def body():
        owner.run()
        excs = [v for v in vars(owner).values() if isinstance(v, Exception)]
        if excs and sim.on_thread_exc:
            sim.on_thread_exc(t.proc, owner.name, excs[0])
    self._sim = sim.spawn(t.proc, f'{t.proc.name}:{self.name}', body)
    sim.yield_(('spawn', ))


Sim.on_thread_exc = None


def t_join(self, timeout=None):
    t = me()
    st = getattr(self, '_sim', None)
    if t is None or (st is None and self._started.is_set()):
        return _t_join(self, timeout)
    if st is None:
        raise RuntimeError('cannot join thread before it is started')
    CUR.wait(('join', st.name), lambda: st.state == 'done', timeout)


def t_alive(self):
    st = getattr(self, '_sim', None)
    if st is None:
        return _t_alive(self)
    return st.state != 'done'


_ev_wait = threading.Event.wait


def ev_wait(self, timeout=None):
    if me() is None:
        return _ev_wait(self, timeout)
    return CUR.wait(('event', ), lambda: self._flag, timeout) or self._flag


# ---- processes -----------------------------------------------------------------------------------
class PopenShim(REAL_POPEN):
    """Real Popen outside of simulation, otherwise whatever the scenario's handler returns."""
    def __new__(cls, *args, **kwargs):
        if me() is not None and CUR is not None and CUR.popen_handler is not None:
            obj = CUR.popen_handler(args, kwargs)
            if obj is not None:
                return obj
        return REAL_POPEN.__new__(cls)


class SimTaskProc:
    """A task process with a scripted life."""
    _pid = 5000

    def __init__(self, sim, proc, tid, beh, stdout, stderr, on_exit, on_signal):
        SimTaskProc._pid += 1
        self.pid = SimTaskProc._pid
        self.sim, self.proc, self.tid, self.beh = sim, proc, tid, beh
        self.returncode = None
        self.args = None
        self.stdin = self.stdout = self.stderr = None
        self.code = beh.get('code', 0)
        dur = beh.get('dur', 0)
        self.exit_at = None if dur is None else sim.now + dur
        self.on_exit, self.on_signal = on_exit, on_signal
        self.detached = False
        self.fds = []
        for stream, tag in ((stdout, 'O'), (stderr, 'E')):
            fd = None
            if stream is not None:
                fd = os.dup(stream if isinstance(stream, int) else stream.fileno())
                os.write(fd, f'{tag}1:{tid}\n'.encode())
            self.fds.append((fd, tag))
        sim.children.append(self)
        proc.tasks.append(self)

    def finish(self):
        if self.returncode is not None:
            return
        self.returncode = self.code
        for fd, tag in self.fds:
            if fd is not None:
                try:
                    os.write(fd, f'{tag}2:{self.tid}\n'.encode())
                finally:
                    os.close(fd)
        if not self.detached:
            self.on_exit(self)

    def poll(self):
        if self.returncode is None and self.exit_at is not None and self.exit_at <= self.sim.now:
            self.finish()
        return self.returncode

    def wait(self, timeout=None):
        ok = self.sim.wait(('pwait', ), lambda: self.poll() is not None, timeout)
        if not ok and self.returncode is None:
            raise subprocess.TimeoutExpired(self.args, timeout)
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        return None, None

    def send_signal(self, sig):
        self.sim.yield_(('kill', ))
        if self.poll() is not None:
            return
        sig = int(sig)
        self.on_signal(self, sig)
        reaction = self.beh.get('on', {}).get(sig, (0, -sig))
        if reaction is not None:
            delay, code = reaction
            if self.exit_at is None or self.sim.now + delay < self.exit_at:
                self.exit_at, self.code = self.sim.now + delay, code
            if delay == 0:
                self.reap = True

    def terminate(self):
        self.send_signal(15)

    def kill(self):
        self.send_signal(9)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


def install():
    """Replace the standard library entry points (call before hypershell is imported)."""
    queue.Queue.put, queue.Queue.get, queue.Queue.join = q_put, q_get, q_join
    multiprocessing.JoinableQueue = sim_joinable
    _BM.start, _BM.connect = bm_start, bm_connect
    _BM.register = classmethod(bm_register)
    _BM.shutdown = _ShutdownDescriptor()
    threading.Thread.start, threading.Thread.join, threading.Thread.is_alive = t_start, t_join, t_alive
    threading.Event.wait = ev_wait
    time.sleep, time.time, time.monotonic = sim_sleep, sim_time, sim_mono
    time.perf_counter = sim_perf
    subprocess.Popen = PopenShim
