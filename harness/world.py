"""
The hypershell world under simulation: imports the repository with the runtime installed, observes the database,
the shared queues and task processes, and turns them into a trace of events (plain JSON records).
"""
import os
import sys
import json
import atexit
import random
import shutil
import sqlite3
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
SCRATCH = None
IDENT = random.Random(0)


def setup(extra_env=None):
    """Import hypershell with a scratch site and database, runtime installed."""
    global SCRATCH, hs
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    SCRATCH = tempfile.mkdtemp(prefix='verif-hs-', dir=os.environ.get('VERIF_SCRATCH') or base)
    pid = os.getpid()
    atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True) if os.getpid() == pid else None)
    for key in list(os.environ):
        if key.startswith('HYPERSHELL') or key.startswith('TASK_'):
            del os.environ[key]
    os.environ['HOME'] = SCRATCH
    site = os.path.join(SCRATCH, 'site')
    for sub in ('lib/task', 'log', 'etc', 'run'):
        os.makedirs(os.path.join(site, sub), exist_ok=True)
    os.environ['HYPERSHELL_SITE'] = site
    os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(SCRATCH, 'task.db')
    os.environ['HYPERSHELL_LOGGING_LEVEL'] = 'CRITICAL'
    os.environ['TZ'] = 'Etc/GMT+5'
    os.environ.update(extra_env or {})
    import time
    time.tzset()
    os.chdir(SCRATCH)
    sys.path.insert(0, os.path.join(REPO, 'src'))
    # third party modules first, so that only hypershell sees the stand-ins
    import sqlalchemy, sqlalchemy.orm, sqlalchemy.dialects.sqlite, cmdkit.app, cmdkit.cli, cmdkit.config  # noqa
    import rich.console, rich.syntax, rich.table, yaml, tomlkit, paramiko  # noqa
    import logging, logging.handlers, uuid, csv, shlex, secrets  # noqa
    import datetime
    import simrt
    uuid.uuid4 = lambda: uuid.UUID(int=IDENT.getrandbits(128), version=4)   # reproducible identifiers
    simrt.install()
    datetime.datetime = simrt.SimDatetime
    import hypershell
    import hypershell.client, hypershell.server, hypershell.submit, hypershell.task  # noqa
    import hypershell.cluster, hypershell.config, hypershell.data.core  # noqa
    import logging
    logging.disable(logging.CRITICAL + 10)
    simrt.scan_identity()
    from sqlalchemy import event
    from hypershell.data.core import engine

    @event.listens_for(engine, 'connect')
    def on_connect(raw, record):
        raw.execute('pragma synchronous=off')
        raw.execute('pragma journal_mode=memory')
        t = simrt.me()
        if t is not None:
            t.sim.raw_conns.append(raw)

    @event.listens_for(engine, 'checkout')
    def on_checkout(raw, record, proxy):
        t = simrt.me()
        if t is None:
            return
        if id(raw) in t.sim.dead_conns:
            raise sqlalchemy.exc.DisconnectionError('owner was killed')
        t.sim.conn_owner[id(raw)] = (t.proc, raw)

    @event.listens_for(engine, 'checkin')
    def on_checkin(raw, record):
        sim = simrt.CUR
        if sim is not None and raw is not None:
            sim.conn_owner.pop(id(raw), None)

    @event.listens_for(engine, 'before_cursor_execute')
    def before(conn, cursor, statement, params, context, many):
        t = simrt.me()
        if t is None:
            return
        raw = conn.connection.dbapi_connection
        if raw.in_transaction:
            t.sim.crash_point(('sql', ))
        else:
            if t.sim.hit_sql_point(t):
                t.sim.wait(('crash', ))
            t.sim.hit_hold(t)
            t.sim.yield_(('sql', statement[:20]))

    @event.listens_for(engine, 'commit')
    def on_commit(conn):
        t = simrt.me()
        if t is None:
            return
        t.sim.crash_point(('commit', ))

    from hypershell.data import initdb
    initdb()
    engine.dispose()
    return hypershell


NONE_INT = -1
NONE_EX = -9999
NONE_STR = '~'


def db_path():
    return os.path.join(SCRATCH, 'task.db')


def reset_db():
    """Empty tables (nothing is running)."""
    from hypershell.data.core import engine, Session
    Session.remove()
    engine.dispose()
    con = sqlite3.connect(db_path())
    con.execute('delete from task')
    con.execute('delete from client')
    con.commit()
    con.close()


def stamp(ms):
    """Text of a time as the database driver stores it (local time)."""
    import simrt
    return simrt.REAL_DT.fromtimestamp(simrt.EPOCH_TS + ms / 1000).strftime('%Y-%m-%d %H:%M:%S.%f')


def preset_db(rows):
    """Tasks left in the database by earlier runs; later entries were submitted later."""
    con = sqlite3.connect(db_path())
    n = 0

    def put(**kw):
        nonlocal n
        n += 1
        r = dict(id=f'00000000-0000-4000-8000-{n:012d}', submit_id='old-submit', submit_host='host-old', attempt=1,
                 retried=0, tag='{}')
        r.update(kw)
        con.execute(f"insert into task ({', '.join(r)}) values ({', '.join('?' * len(r))})", list(r.values()))
        return r['id']
    for row in rows:
        kind, t = row['kind'], row['sub']
        r = dict(args=row['args'], submit_time=stamp(t), tag=json.dumps(row.get('tag') or {}))
        sched = dict(schedule_time=stamp(t + 100), server_id='old-server', server_host='host-old')
        taken = dict(client_id='old-client', client_host='host-old')
        ran = dict(command=row['args'], start_time=stamp(t + 200), completion_time=stamp(t + 900), waited=0, duration=0)
        if kind == 'new':
            put(**r)
        elif kind == 'sched':
            put(**r, **sched)
        elif kind == 'conf':
            put(**r, **sched, **taken)
        elif kind == 'cancel':
            put(**r, schedule_time=stamp(t + 100), exit_status=-1)
        elif kind == 'done':
            put(**r, **sched, **taken, **ran, exit_status=0)
        elif kind == 'fail':
            put(**r, **sched, **taken, **ran, exit_status=row.get('code', 1))
        elif kind == 'retried':
            first, second = (f'00000000-0000-4000-8000-{k:012d}' for k in (n + 1, n + 2))
            put(**r, **sched, **taken, **ran, exit_status=1)
            put(**{**r, 'submit_time': stamp(t + 1000)}, **sched, **taken, **{**ran, 'start_time': stamp(t + 1200),
                'completion_time': stamp(t + 1900)}, exit_status=0, attempt=2, previous_id=first)
            con.execute('update task set retried = 1, next_id = ? where id = ?', (second, first))
        else:
            raise ValueError(kind)
    con.commit()
    con.close()


TASK_COLS = ['id', 'args', 'submit_id', 'submit_time', 'submit_host', 'server_id', 'server_host', 'schedule_time',
             'client_id', 'client_host', 'command', 'start_time', 'completion_time', 'exit_status', 'outpath',
             'errpath', 'attempt', 'retried', 'waited', 'duration', 'previous_id', 'next_id', 'tag']
SHORT = dict(zip(TASK_COLS, ['id', 'args', 'si', 'sub', 'sh', 'srv', 'srvh', 'sch', 'cli', 'clih', 'cmd', 'st', 'ct',
                             'ex', 'outp', 'errp', 'att', 'rtr', 'wt', 'du', 'prev', 'next', 'tag']))
TIMES = {'submit_time', 'schedule_time', 'start_time', 'completion_time'}
IDS = {'id', 'previous_id', 'next_id'}
INTS = {'attempt', 'waited', 'duration'}


def to_ms(value):
    """Milliseconds since the simulation epoch of an ISO or naive time (None: -1)."""
    import simrt
    if value is None:
        return NONE_INT
    if isinstance(value, str):
        try:
            value = simrt.REAL_DT.fromisoformat(value)
        except ValueError:
            return -77
    if not isinstance(value, simrt.REAL_DT):
        return -77
    if value.tzinfo is None:
        value = value.astimezone()
    ms = (value.timestamp() - simrt.EPOCH_TS) * 1000
    ms = int(round(ms))
    return ms if -2**31 < ms < 2**31 else -78


class Ids:
    """Task identifiers to small integers, in order of first sight."""
    def __init__(self):
        self.m = {}

    def __call__(self, uuid):
        if uuid is None:
            return 0
        if uuid not in self.m:
            self.m[uuid] = len(self.m) + 1
        return self.m[uuid]

    def back(self, n):
        return next((u for u, k in self.m.items() if k == n), None)


def norm_task(d, ids):
    """Short, fully defined record for a task row or message (dict of columns)."""
    r = {}
    for col in TASK_COLS:
        v = d.get(col, '!missing')
        k = SHORT[col]
        if v == '!missing':
            v = None
        if col in IDS:
            r[k] = ids(v)
        elif col in TIMES:
            r[k] = to_ms(v)
        elif col == 'exit_status':
            r[k] = NONE_EX if v is None else v if isinstance(v, int) and abs(v) < 2**31 else -9998
        elif col in INTS:
            r[k] = NONE_INT if v is None else int(v) if isinstance(v, (int, float)) and abs(v) < 2**31 else -79
        elif col == 'retried':
            r[k] = bool(v)
        elif col == 'tag':
            if isinstance(v, str):
                try:
                    v = json.loads(v)
                except ValueError:
                    pass
            r[k] = json.dumps(v, sort_keys=True)
        else:
            r[k] = NONE_STR if v is None else str(v).replace(SCRATCH, '$') if col in ('outpath', 'errpath') else str(v)
    return r


class Observer:
    """Watches the database file and the shared queues of one simulation."""
    def __init__(self, sim, ids=None):
        self.sim = sim
        self.ids = ids or Ids()
        self.con = sqlite3.connect(db_path(), isolation_level=None, check_same_thread=False)
        self.con.row_factory = sqlite3.Row
        self.version = None
        self.tasks, self.clients = {}, {}
        self.msgs = {}
        sim.hooks_after_step.append(self.poll)
        sim.on_queue = self.on_queue
        sim.on_thread_exc = self.on_exc
        tasks, clients = self.snapshot()
        self.tasks, self.clients = tasks, clients
        self.version = self.con.execute('pragma data_version').fetchone()[0]

    on_items = None
    preset = True

    def emit_preset(self):
        """Rows which are there before the run begins."""
        if self.tasks:
            self.sim.emit('preset', rows=list(self.tasks.values()))

    def snapshot(self):
        # rowid order = insertion order
        tasks = {}
        for row in self.con.execute('select * from task order by rowid'):
            r = norm_task(dict(row), self.ids)
            tasks[r['id']] = r
        clients = {}
        for row in self.con.execute('select * from client order by rowid'):
            clients[row['id']] = {'id': row['id'], 'host': row['host'], 'srv': row['server_id'],
                                  'con': to_ms(row['connected_at']), 'dis': to_ms(row['disconnected_at']),
                                  'ev': bool(row['evicted'])}
        return tasks, clients

    def poll(self):
        v = self.con.execute('pragma data_version').fetchone()[0]
        if v == self.version:
            return
        self.version = v
        tasks, clients = self.snapshot()
        ins = [r for i, r in tasks.items() if i not in self.tasks]
        dele = [i for i in self.tasks if i not in tasks]
        upd = [{'id': i, 'f': {k: r[k] for k in r if r[k] != self.tasks[i][k]}}
               for i, r in tasks.items() if i in self.tasks and r != self.tasks[i]]
        cins = [r for i, r in clients.items() if i not in self.clients]
        cupd = [{'id': i, 'f': {k: r[k] for k in r if r[k] != self.clients[i][k]}}
                for i, r in clients.items() if i in self.clients and r != self.clients[i]]
        cdel = [i for i in self.clients if i not in clients]
        self.tasks, self.clients = tasks, clients
        if ins or dele or upd or cins or cupd or cdel:
            actor = self.sim.current.proc.name if self.sim.current else ''
            self.sim.emit('db', p=actor, user=actor.startswith('U'), ins=ins, upd=upd, dele=dele, cins=cins, cupd=cupd, cdel=cdel)

    def item(self, data):
        try:
            return norm_task(json.loads(data.decode()), self.ids)
        except Exception:   # noqa: other encodings of the repository's own choosing
            from hypershell.data.model import Task
            return norm_task(Task.unpack(data).to_dict(), self.ids)

    def on_queue(self, op, q, obj, proc):
        name = q.name
        self.poll()
        if name in ('scheduled', 'completed'):
            e = {'scheduled': 'sq_', 'completed': 'dq_'}[name] + op
            items = [] if obj is None else [self.item(x) for x in obj]
            self.msgs.update({it['id']: it for it in items if e == 'sq_put'})
            if e == 'dq_put' and items and self.on_items:
                self.on_items(proc, items)
            self.sim.emit(e, p=proc.name, none=obj is None, items=items)
        elif name == 'confirmed':
            if obj is None:
                self.sim.emit('cq_' + op, p=proc.name, none=True, c='', h='', ids=[])
            else:
                from hypershell.client import ClientInfo
                info = ClientInfo.unpack(obj)
                self.sim.emit('cq_' + op, p=proc.name, none=False, c=info.client_id, h=info.client_host,
                              ids=[self.ids(i) for i in info.task_ids])
        elif name == 'heartbeat':
            if obj is None:
                self.sim.emit('hb_' + op, p=proc.name, none=True, c='', h='', at=0, fin=False)
            else:
                from hypershell.core.heartbeat import Heartbeat, ClientState
                hb = Heartbeat.unpack(obj)
                self.sim.emit('hb_' + op, p=proc.name, none=False, c=hb.uuid, h=hb.host, at=to_ms(hb.time),
                              fin=hb.state is ClientState.FINISHED)
        else:
            self.sim.emit('xq_' + op, p=proc.name, q=str(name))

    def on_exc(self, proc, thread, exc):
        self.sim.emit('thread_exc', p=proc.name, th=thread, why=f'{type(exc).__name__}: {exc}'[:200])
        if os.environ.get('VERIF_DEBUG'):
            import traceback
            traceback.print_exception(exc)

    def close(self):
        self.con.close()
