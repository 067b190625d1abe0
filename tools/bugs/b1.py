S = 'src/hypershell/server.py'
C = 'src/hypershell/client.py'
M = 'src/hypershell/data/model.py'
HEAD = '''
import demolib
from demolib import check, done
'''
QUEUES = '''
import queue, types
class Rec(queue.Queue):
    pass
def queues(size=0):
    return types.SimpleNamespace(scheduled=queue.Queue(size), completed=queue.Queue(size), heartbeat=queue.Queue(),
                                 confirmed=queue.Queue())
'''
BUGS = [
 dict(id='c08-interrupted-batch', property='C08', file=M,
      edits=[('''        while tasks := cls.select_interrupted(100):
            cls.revert_all([task.id for task in tasks])''',
              '''        cls.revert_all([task.id for task in cls.select_interrupted(100)])''')],
      needs='a crash with more than 100 tasks in flight',
      breaks='a restarted server recovers only 100 of the interrupted tasks; it waits forever for the rest',
      demo=HEAD + '''
m = demolib.fresh()
m.Task.add_all([m.Task.new(args=f'echo {i}') for i in range(150)])
m.Task.next(limit=150)
m.Task.revert_interrupted()
left = m.Task.query().filter(m.Task.schedule_time.isnot(None)).count()
check(left == 0, f'{left} interrupted tasks are not recovered')
done()
'''),
 dict(id='c12-trickle', property='C12', file=C,
      edits=[('''            if task:
                self.tasks.append(task)
                return CollectorState.CHECK_BUNDLE''',
              '''            if task:
                if not self.tasks:
                    self.previous_send = datetime.now()  # wait for the bundle from its first task
                self.tasks.append(task)
                return CollectorState.CHECK_BUNDLE'''),
             ('''        wait_time = (datetime.now() - self.previous_send)
            ''', '''        wait_time = (datetime.now() - self.previous_send)
            ''')][:1],
      needs='a result that arrives a while after the previous send, with a bundle size above one',
      breaks='the bundle wait is counted from the first result of a bundle instead of from the previous send, results arrive late',
      demo=HEAD + QUEUES + '''
import datetime as dt, time
from hypershell import client
from hypershell.data.model import Task
q, local = queues(), queue.Queue()
c = client.ClientCollector(queue=q, local=local, bundlesize=10, bundlewait=2)
c.start()
time.sleep(2.5)
local.put(Task.new(args='x'))
state = c.get_local()
state = c.actions[state]()
check(state is client.CollectorState.PACK_BUNDLE, 'bundle wait since the previous send has passed, yet the result is kept')
done()
'''),
 dict(id='c13-carry-over', property='C13', file=C,
      edits=[('''        self.stop_requested = None
        self.attempted_sigint = False
        self.attempted_sigterm = False
        self.attempted_sigkill = False
''', '''        self.stop_requested = None
        self.attempted_sigint = False
        self.attempted_sigkill = False
'''), ('''        self.timeout = timeout
        self.signalwait = signalwait

    @functools''', '''        self.timeout = timeout
        self.signalwait = signalwait
        self.attempted_sigterm = False

    @functools''')],
      needs='two tasks on the same executor which both ignore the interrupt',
      breaks='the second task is never sent a terminate, the escalation skips to kill',
      demo=HEAD + QUEUES + '''
import io, os
from hypershell import client
from hypershell.data.model import Task
out = open(os.devnull, 'w')
ex = client.TaskExecutor(id=1, inbound=queue.Queue(), outbound=queue.Queue(), redirect_output=out, redirect_errors=out,
                         timeout=1, signalwait=1)
sent = []
for name in ('first', 'second'):
    ex.inbound.put(Task.new(args="trap '' INT TERM; while true; do sleep 0.1; done"))
    ex.get_local()
    state = ex.create_task()
    while state is not client.TaskState.PUT_LOCAL:
        sent.append((name, state.name)) if state.name in ('STOP_TASK', 'TERM_TASK', 'KILL_TASK') else None
        state = ex.actions[state]()
check(sent == [(n, s) for n in ('first', 'second') for s in ('STOP_TASK', 'TERM_TASK', 'KILL_TASK')], sent)
done()
'''),
 dict(id='c04-duration-days', property='C04', file=C,
      edits=[('''            self.task.exit_status = self.process.wait(timeout=1)
            self.task.completion_time = datetime.now().astimezone()
            self.task.duration = int((self.task.completion_time - self.task.start_time).total_seconds())''',
              '''            self.task.exit_status = self.process.wait(timeout=1)
            self.task.completion_time = datetime.now().astimezone()
            self.task.duration = (self.task.completion_time - self.task.start_time).seconds''')],
      needs='a task which runs for more than a day',
      breaks='whole days are missing from the recorded duration',
      demo=HEAD + QUEUES + '''
import datetime as dt, types
from hypershell import client
from hypershell.data.model import Task
ex = client.TaskExecutor(id=1, inbound=queue.Queue(), outbound=queue.Queue())
ex.task = Task.new(args='x')
ex.task.start_time = dt.datetime.now().astimezone() - dt.timedelta(days=2, seconds=5)
ex.process = types.SimpleNamespace(wait=lambda timeout: 0, pid=1)
ex.wait_task()
check(abs(ex.task.duration - (2 * 86400 + 5)) <= 1, f'duration {ex.task.duration}')
done()
'''),
 dict(id='c05-tags-lost', property='C05', file=M,
      edits=[('''                                 tag=task.tag)
                         for task in failed_tasks]''', '''                                 tag=(task.tag if task.attempt == 1 else None))
                         for task in failed_tasks]''')],
      needs='a tagged task which fails twice',
      breaks='the third attempt of a task has lost its tags',
      demo=HEAD + '''
m = demolib.fresh()
import datetime
m.Task.add(m.Task.new(args='echo', tag={'site': 'a'}))
for k in range(2):
    for t in m.Task.next(limit=5, attempts=4):
        m.Task.update(t.id, exit_status=1, start_time=datetime.datetime.now().astimezone(),
                      completion_time=datetime.datetime.now().astimezone())
m.Task.next(limit=5, attempts=4)
tags = [t.tag for t in m.Task.query().order_by(m.Task.attempt).all()]
check(tags == [{'site': 'a'}] * 3, tags)
done()
'''),
 dict(id='c06-retry-order', property='C06', file=M,
      edits=[('''                .order_by(cls.completion_time)
                .filter(cls.exit_status.isnot(None))''', '''                .order_by(cls.submit_time)
                .filter(cls.exit_status.isnot(None))''')],
      needs='two failed tasks which completed in another order than they were submitted',
      breaks='failed tasks are retried in submission order',
      demo=HEAD + '''
m = demolib.fresh()
import datetime
now = datetime.datetime.now().astimezone()
m.Task.add_all([m.Task.new(args='first'), m.Task.new(args='second')])
tasks = {t.args: t.id for t in m.Task.next(limit=2)}
m.Task.update(tasks['second'], exit_status=1, completion_time=now)
m.Task.update(tasks['first'], exit_status=1, completion_time=now + datetime.timedelta(seconds=5))
again = m.Task.next(limit=1, attempts=2)
check([t.args for t in again] == ['second'], [t.args for t in again])
done()
'''),
 dict(id='c11-order', property='C11', file=C,
      edits=[('''        try:
            self.local.put(self.task, timeout=1)
            return SchedulerState.POP_TASK
        except QueueFull:
            return SchedulerState.PUT_LOCAL

    @staticmethod''', '''        try:
            self.local.put(self.task, timeout=1)
            return SchedulerState.POP_TASK
        except QueueFull:
            self.tasks.append(self.task)  # try another
            return SchedulerState.POP_TASK

    @staticmethod''')],
      needs='executors busy for longer than a second while a bundle is being handed to them',
      breaks='tasks of a bundle are started out of order when the executors are busy',
      demo=HEAD + QUEUES + '''
from hypershell import client
from hypershell.data.model import Task
import threading, time
local, qs = queue.Queue(maxsize=1), queues()
qs.scheduled.put([Task.new(args=str(i)).pack() for i in range(4)])
qs.scheduled.put(None)
c = client.ClientScheduler(queue=qs, local=local, no_confirm=True)
t = threading.Thread(target=c.run, daemon=True)
t.start()
got = []
for _ in range(4):
    time.sleep(1.6)     # executors are busy
    got.append(local.get(timeout=10).args)
check(got == ['0', '1', '2', '3'], got)
done()
'''),
 dict(id='c15-stale-confirm', property='C15', file=C,
      edits=[('''        if not self.no_confirm:
            self.client_info = ClientInfo.from_tasks(self.tasks).pack()
            return SchedulerState.PUT_CONFIRM''', '''        if not self.no_confirm:
            if len(self.tasks) > 1 or self.client_info is None:
                self.client_info = ClientInfo.from_tasks(self.tasks).pack()
            return SchedulerState.PUT_CONFIRM''')],
      needs='a client which takes a second bundle of a single task',
      breaks='the confirmation repeats the task identifiers of an earlier bundle',
      demo=HEAD + QUEUES + '''
from hypershell import client
from hypershell.data.model import Task
q = queues()
c = client.ClientScheduler(queue=q, local=queue.Queue())
for k in range(2):
    t = Task.new(args='x')
    c.bundle = [t.pack()]
    c.unpack_bundle()
    c.put_confirm()
    info = client.ClientInfo.unpack(q.confirmed.get())
    check(info.task_ids == [t.id], 'confirmation names other tasks')
done()
'''),
 dict(id='c17-signalled', property='C17', file=S,
      edits=[('''                if self.redirect_failures:
                    print(task.args, file=self.redirect_failures)''', '''                if self.redirect_failures and task.exit_status > 0:
                    print(task.args, file=self.redirect_failures)''')],
      needs='a task ended by a signal or one whose command cannot be expanded (negative exit status)',
      breaks='failures with a negative status are missing from the failure stream',
      demo=HEAD + QUEUES + '''
import io
from hypershell import server
from hypershell.data.model import Task
out = io.StringIO()
r = server.Receiver(queue=queues(), in_memory=True, redirect_failures=out)
r.tasks = [Task.new(args=a, exit_status=s) for a, s in (('a', 0), ('b', 1), ('c', -9), ('d', -1))]
r.update_tasks()
check(out.getvalue().split() == ['b', 'c', 'd'], out.getvalue().split())
done()
'''),
 dict(id='c22-reregister', property='C22', file=S,
      edits=[('''                        Client.update(old_client.id, disconnected_at=None, evicted=False)''',
              '''                        Client.update(old_client.id, disconnected_at=None)''')],
      needs='a client which is evicted, heard from again and then leaves normally',
      breaks='the record of a returned client stays marked as evicted',
      demo=HEAD + QUEUES + '''
m = demolib.fresh()
from hypershell import server
from hypershell.core.heartbeat import Heartbeat, ClientState
import datetime
h = server.HeartMonitor(queue=queues(), evict_after=10)
hb = Heartbeat.new(state=ClientState.RUNNING)
h.latest_heartbeat = hb
h.update_client()
h.last_check = datetime.datetime.now().astimezone() + datetime.timedelta(seconds=60)
h.check_clients()
check(m.Client.from_id(hb.uuid).evicted is True, 'evicted')
h.latest_heartbeat = Heartbeat.new(state=ClientState.RUNNING)
h.update_client()
c = m.Client.from_id(hb.uuid)
check(c.evicted is False and c.disconnected_at is None, 'client is connected again')
done()
'''),
 dict(id='c14-fresh-idle', property='C14', file=C,
      edits=[('''            self.bundle = self.queue.scheduled.get(timeout=2)
            self.queue.scheduled.task_done()
            self.previous_received = datetime.now()
''', '''            waiting_since = datetime.now()
            self.bundle = self.queue.scheduled.get(timeout=2)
            self.queue.scheduled.task_done()
            self.previous_received = max(waiting_since, self.previous_received) if len(self.tasks) else self.previous_received
''')],
      needs='a client with idle time-out which receives work for longer than the time-out',
      breaks='the idle time-out is counted from the start of the client: it leaves although it just received a bundle',
      demo=HEAD + QUEUES + '''
import time
from hypershell import client
from hypershell.data.model import Task
q = queues()
c = client.ClientScheduler(queue=q, local=queue.Queue(), timeout=3, no_confirm=True)
state = client.SchedulerState.GET_REMOTE
time.sleep(3.2)
q.scheduled.put([Task.new(args='x').pack()])
state = c.get_remote()
while state is not client.SchedulerState.GET_REMOTE:
    state = c.actions[state]()
state = c.get_remote()
check(state is client.SchedulerState.GET_REMOTE, 'client leaves although it just received a bundle')
done()
'''),
]
