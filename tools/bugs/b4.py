S = 'src/hypershell/server.py'
C = 'src/hypershell/client.py'
M = 'src/hypershell/data/model.py'
Q = 'src/hypershell/core/queue.py'
D = 'src/hypershell/data/core.py'
I = 'src/hypershell/data/__init__.py'
U = 'src/hypershell/submit.py'
R = 'src/hypershell/cluster/remote.py'
HEAD = '''
import demolib
from demolib import check, done
'''
QUEUES = '''
import queue, types
def queues(size=0):
    return types.SimpleNamespace(scheduled=queue.Queue(size), completed=queue.Queue(size), heartbeat=queue.Queue(),
                                 confirmed=queue.Queue())
'''
PORT = '''
import socket
def port():
    with socket.socket() as s:
        s.bind(('localhost', 0))
        return s.getsockname()[1]
'''
BUGS = [
 dict(id='c29-completed-unbounded', property='C29', file=Q,
      edits=[('''        self.completed = JoinableQueue(maxsize=self.config.size)''', '''        self.completed = JoinableQueue(maxsize=0)''')],
      needs='more results than the server takes',
      breaks='the queue of results is not bounded by the configured size',
      demo=HEAD + PORT + '''
import queue
from hypershell.core.queue import QueueServer, QueueClient, QueueConfig
conf = QueueConfig(host='localhost', port=port(), auth='key', size=2)
with QueueServer(config=conf):
    with QueueClient(config=conf) as c:
        full = 0
        for i in range(4):
            try:
                c.completed.put([b'x'], timeout=1)
            except queue.Full:
                full += 1
check(full == 2, f'refused {full} of 4')
done()
'''),
 dict(id='c29-key-prefix', property='C29', file=Q,
      edits=[('''authkey=self.config.auth.encode())''', '''authkey=self.config.auth.encode()[:32])''')],
      needs='two keys which begin with the same 32 characters',
      breaks='a client with another key is let in if the first 32 characters are the same',
      demo=HEAD + PORT + '''
from hypershell.core.queue import QueueServer, QueueClient, QueueConfig
n = port()
seen = None
with QueueServer(config=QueueConfig(host='localhost', port=n, auth='a' * 40, size=2)):
    try:
        with QueueClient(config=QueueConfig(host='localhost', port=n, auth='a' * 39 + 'b', size=2)) as c:
            pass
    except Exception as exc:
        seen = exc
check(type(seen).__name__ == 'AuthenticationError', f'with another key: {seen!r}')
done()
'''),
 dict(id='c30-eval-variant', property='C30', file=D,
      edits=[('''            key_ = cls._strip_endings(key, '_env', '_eval')''', '''            key_ = cls._strip_endings(key, '_env')''')],
      needs='a database parameter given by its _eval variant',
      breaks='parameters given by an _eval variant are taken for an option of that name',
      demo=HEAD + '''
from cmdkit.config import Namespace
from hypershell.data.core import DatabaseURL
url = DatabaseURL.from_namespace(Namespace({'provider': 'postgresql', 'database': 'tasks', 'host_eval': 'echo box'}))
check(url.encode() == 'postgresql://box/tasks', url.encode())
done()
'''),
 dict(id='c31-clients-kept', property='C31', file=I,
      edits=[('''    Entity.metadata.drop_all(engine)''', '''    Entity.metadata.drop_all(engine, tables=[Task.__table__])''')],
      needs='a database with clients which is truncated',
      breaks='truncating the database leaves the clients there',
      demo=HEAD + '''
import datetime, uuid
m = demolib.fresh()
from hypershell.data import truncatedb
now = datetime.datetime.now().astimezone()
a, s = (str(uuid.uuid4()) for _ in range(2))
m.Client.add(m.Client(id=a, host='node', server_id=s, server_host='h', connected_at=now, disconnected_at=None, evicted=False))
m.Task.add(m.Task.new(args='x'))
truncatedb()
check(m.Task.count() == 0 and m.Client.count() == 0, (m.Task.count(), m.Client.count()))
done()
'''),
 dict(id='c09-first-beat', property='C09', file=S,
      edits=[('''                    except Client.NotFound:
                        Client.add(new_client)
            self.beats[hb.uuid] = hb
''', '''                    except Client.NotFound:
                        Client.add(new_client)
                self.beats[hb.uuid] = hb
''')],
      needs='a client which is connected for longer than the eviction period',
      breaks='later heartbeats are not counted, a living client is evicted',
      demo=HEAD + QUEUES + '''
import datetime, uuid
m = demolib.fresh()
from hypershell import server
from hypershell.core.heartbeat import Heartbeat, ClientState
h = server.HeartMonitor(queue=queues(), evict_after=10)
me, now = str(uuid.uuid4()), datetime.datetime.now().astimezone()
for age in (30, 0):
    h.latest_heartbeat = Heartbeat(uuid=me, host='h', time=now - datetime.timedelta(seconds=age), state=ClientState.RUNNING)
    h.update_client()
h.last_check = now
h.check_clients()
check(me in h.beats, 'a living client is evicted')
done()
'''),
 dict(id='c16-final-full', property='C16', file=U,
      edits=[('''                self.tasks = []
                self.bundle = []
                self.previous_submit = datetime.now()
            return QueueCommitterState.GET
        except QueueFull:
            return QueueCommitterState.COMMIT
''', '''                self.tasks = []
                self.bundle = []
                self.previous_submit = datetime.now()
            return QueueCommitterState.GET
        except QueueFull:
            return QueueCommitterState.GET
''')],
      needs='a full queue for more than two seconds when the source ends',
      breaks='without database the last bundle is dropped when the clients are busy',
      demo=HEAD + QUEUES + '''
import threading, time
from hypershell import submit
from hypershell.data.model import Task
q, local = queues(1), queue.Queue()
q.scheduled.put([b'other'])
c = submit.QueueCommitter(local=local, client=q, bundlesize=3, bundlewait=60)
local.put(Task.new(args='last'))
local.put(None)
got = []
def late():
    time.sleep(3.5)
    for _ in range(2):
        try:
            got.append(q.scheduled.get(timeout=4))
        except queue.Empty:
            pass
th = threading.Thread(target=late)
th.start()
c.run()
th.join()
check(len(got) == 2, 'the last bundle is lost')
done()
'''),
 dict(id='c23-registered-max', property='C23', file=R,
      edits=[('''                if launched_size >= self.max_size:''', '''                if registered_size >= self.max_size:''')],
      needs='clients which need longer to connect than the scaling period, under high pressure',
      breaks='the autoscaler launches more clients than the maximum while these have not connected yet',
      demo=HEAD + '''
import types
m = demolib.fresh()
from hypershell.cluster import remote
a = remote.AutoScaler(launcher=['true'], policy='dynamic', factor=1, period=1, init_size=1, min_size=1, max_size=2)
a.clients = [types.SimpleNamespace(poll=lambda: None, pid=i) for i in range(2)]
m.Task.task_pressure = classmethod(lambda cls, factor: 5.0)
m.Task.count_remaining = classmethod(lambda cls: 9)
a.phase = remote.AutoScalerPhase.STEADY
state = a.check_dynamic()
check(state is remote.AutoScalerState.WAIT, state)
done()
'''),
 dict(id='c03-eager-bundle', property='C03', file=M,
      edits=[('''            new_tasks = cls.select_new(limit=limit - len(tasks))''', '''            new_tasks = cls.select_new(limit=limit)''')],
      needs='eager mode, a bundle size above one and failed tasks',
      breaks='bundles of more tasks than the bundle size',
      demo=HEAD + '''
import datetime
m = demolib.fresh()
now = datetime.datetime.now().astimezone()
m.Task.add_all([m.Task.new(args=str(i)) for i in range(5)]
               + [m.Task.new(args='bad', schedule_time=now, start_time=now, completion_time=now, exit_status=1)])
got = m.Task.next(limit=3, attempts=2, eager=True)
check(len(got) == 3, len(got))
done()
'''),
 dict(id='c22-monitor-quits', property='C22', file=S,
      edits=[('''        if not self.beats and self.scheduler_done:''', '''        if not self.beats:''')],
      needs='all clients leave before the work is done and others come later',
      breaks='clients which come after all others have left are not registered, never told to leave',
      demo=HEAD + QUEUES + '''
import datetime, uuid
m = demolib.fresh()
from hypershell import server
from hypershell.core.heartbeat import Heartbeat, ClientState
h = server.HeartMonitor(queue=queues(), evict_after=100)
me, now = str(uuid.uuid4()), datetime.datetime.now().astimezone()
h.startup_phase = False
for state in (ClientState.RUNNING, ClientState.FINISHED):
    h.latest_heartbeat = Heartbeat(uuid=me, host='h', time=now, state=state)
    h.update_client()
state = h.switch_mode()
check(state is not server.HeartbeatState.FINAL, 'the heart monitor ends although the work is not done')
done()
'''),
 dict(id='c10-join-each', property='C10', file=C,
      edits=[('''        for _ in self.executors:
            self.inbound.put(None)  # signal executors to shut down
        for thread in self.executors:
            log.trace(f'Waiting (executor-{thread.id})')
''', '''        for thread in self.executors:
            self.inbound.put(None)  # signal executors to shut down
            log.trace(f'Waiting (executor-{thread.id})')
''')],
      needs='several executors, the request is taken by another one than is waited for',
      breaks='the client waits for an executor which was never asked to leave and never ends',
      demo=HEAD + '''
import queue, signal, threading, types
from hypershell import client
box = queue.Queue(4)
class Executor(threading.Thread):
    def __init__(self, i, first):
        super().__init__(daemon=True)
        self.id, self.first = i, first
    def run(self):
        if self.first:
            self.first.join()   # the other one is quicker
        box.get()
second = Executor(2, None)
first = Executor(1, second)
signal.signal(signal.SIGALRM, lambda *a: check(False, 'waits for an executor nobody asked to leave'))
signal.alarm(10)
second.start()
first.start()
client.ClientThread.wait_executors(types.SimpleNamespace(executors=[first, second], inbound=box))
done()
'''),
 dict(id='c25-microseconds', property='C25', file=M,
      edits=[('''    return value if not isinstance(value, datetime) else value.isoformat(sep=' ')''',
              '''    return value if not isinstance(value, datetime) else value.isoformat(sep=' ', timespec='milliseconds')''')],
      needs='times which differ by less than a millisecond',
      breaks='times lose their microseconds on the way between server and client',
      demo=HEAD + '''
import datetime
from hypershell.data.model import Task
at = datetime.datetime(2024, 3, 1, 12, 0, 0, 123456).astimezone()
t = Task.unpack(Task.new(args='x', schedule_time=at).pack())
check(t.schedule_time == at, t.schedule_time)
done()
'''),
]
