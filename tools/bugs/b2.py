S = 'src/hypershell/server.py'
C = 'src/hypershell/client.py'
M = 'src/hypershell/data/model.py'
T = 'src/hypershell/task.py'
P = 'src/hypershell/core/template.py'
HEAD = '''
import demolib
from demolib import check, done
'''
QUEUES = '''
import queue, types
def queues(size=0):
    return types.SimpleNamespace(scheduled=queue.Queue(size), completed=queue.Queue(size), heartbeat=queue.Queue(),
                                 confirmed=queue.Queue())
'''
BUGS = [
 dict(id='c18-capture-append', property='C18', file=C,
      edits=[('''            self.redirect_output = open(self.task.outpath, mode='w')''',
              '''            self.redirect_output = open(self.task.outpath, mode='a')''')],
      needs='a task which is run a second time (its first client or server was lost) with captured output',
      breaks='the captured output of an earlier, lost run of a task stays in front of that of its last run',
      demo=HEAD + '''
import queue
m = demolib.fresh()
from hypershell import client
from hypershell.core.template import Template
t = m.Task.new(args='echo $RANDOM; echo done')
for turn in range(2):
    e = client.TaskExecutor(id=1, inbound=queue.Queue(), outbound=queue.Queue(), template='{}', capture=True)
    again = m.Task.from_dict({**t.to_dict()}) if hasattr(m.Task, 'from_dict') else t
    e.task = again
    state = client.TaskState.CREATE_TASK
    while state not in (client.TaskState.GET_LOCAL, client.TaskState.PUT_LOCAL):
        state = e.actions[state]()
    path = again.outpath
text = open(path).read().split()
check(text.count('done') == 1, f'output of an earlier run remains: {text}')
done()
'''),
 dict(id='c27-wait-cached', property='C27', file=T,
      edits=[('''            task = Task.from_id(self.uuid, caching=False)''', '''            task = Task.from_id(self.uuid)''')],
      needs='a task which completes while another process waits for it',
      breaks='task wait never notices the completion of the task',
      demo=HEAD + '''
import os, signal, sqlite3, threading, time
m = demolib.fresh()
from hypershell.task import TaskWaitApp
t = m.Task.new(args='x')
m.Task.add(t)
uuid = t.id
if os.fork() == 0:
    time.sleep(1.5)
    con = sqlite3.connect(os.environ['HYPERSHELL_DATABASE_FILE'])
    con.execute("update task set exit_status = 0, schedule_time = submit_time, start_time = submit_time, completion_time = submit_time")
    con.commit()
    os._exit(0)
def late(*a):
    check(False, 'the task is completed but the wait goes on')
signal.signal(signal.SIGALRM, late)
signal.alarm(12)
app = TaskWaitApp()
app.uuid, app.interval = uuid, 1
app.wait_task()
done()
'''),
 dict(id='c19-value-equals', property='C19', file=T,
      edits=[('''                field, value = arg.split('=', 1)''', '''                field, value = arg.rsplit('=', 1)''')],
      needs='an assignment whose value contains an equals sign',
      breaks='task update refuses to assign values with an equals sign',
      demo=HEAD + '''
m = demolib.fresh()
from hypershell.task import TaskUpdateApp
t = m.Task.new(args='x')
m.Task.add(t)
app = TaskUpdateApp()
app.update_args = ['args=run --n=1 --k=2']
app.order_by = app.limit = None
app.order_desc = False
try:
    fields, tags = app.process_arguments()
except Exception as exc:
    check(False, exc)
check(fields == {'args': 'run --n=1 --k=2'} and not tags, fields)
done()
'''),
 dict(id='c21-killed-failed', property='C21', file=T,
      edits=[('''            self.where_clauses.append('exit_status != 0')''', '''            self.where_clauses.append('exit_status > 0')''')],
      needs='a task which was ended by a signal or cancelled',
      breaks='--failed does not find tasks with a negative exit status',
      demo=HEAD + '''
m = demolib.fresh()
from hypershell.task import TaskSearchApp
for code in (0, 1, -9):
    m.Task.add(m.Task.new(args=f'x {code}', exit_status=code))
import subprocess, os, sys
p = subprocess.run([sys.executable, '-c', 'import sys; from hypershell import main; sys.argv[0] = "hs"; sys.exit(main())',
                    'task', 'search', '--failed', 'args', '-f', 'plain'], capture_output=True, text=True,
                   env={**os.environ, 'PYTHONPATH': demolib.REPO + '/src'})
got = sorted(p.stdout.split('\\n'))
check(sorted(l for l in p.stdout.splitlines() if l) == ['x -9', 'x 1'], (p.stdout, p.stderr))
done()
'''),
 dict(id='c24-shell-once', property='C24', file=P,
      edits=[('''key.replace('@', args)''', '''key.replace('@', args, 1)''')],
      needs='a shell pattern which uses its argument more than once',
      breaks='only the first @ of a shell pattern is replaced',
      demo=HEAD + '''
from hypershell.core.template import Template
got = Template('{% echo @-@ %}').expand('7')
check(got == '7-7', got)
done()
'''),
 dict(id='c05-retry-command', property='C05', file=M,
      edits=[('''            new_tasks = [cls.new(args=task.args,''', '''            new_tasks = [cls.new(args=task.command or task.args,''')],
      needs='a client template other than {}',
      breaks='a retry of a task gets the expanded command of the first attempt as arguments and is expanded twice',
      demo=HEAD + '''
import datetime
m = demolib.fresh()
now = datetime.datetime.now().astimezone()
m.Task.add(m.Task.new(args='7', command='run 7 now', exit_status=1, schedule_time=now, start_time=now, completion_time=now))
got = [t.args for t in m.Task.next(limit=5, attempts=3)]
check(got == ['7'], got)
done()
'''),
 dict(id='c12-final-drop', property='C12', file=C,
      edits=[('''        while self.put_remote() is CollectorState.PUT_REMOTE:''',
              '''        if self.put_remote() is CollectorState.PUT_REMOTE:''')],
      needs='a full completed queue for more than a second when the client ends',
      breaks='the last results of a client are dropped when the server is slow to take them',
      demo=HEAD + QUEUES + '''
import threading, time
from hypershell import client
from hypershell.data.model import Task
q, local = queues(1), queue.Queue()
q.completed.put([b'other'])
c = client.ClientCollector(queue=q, local=local, bundlesize=10, bundlewait=60)
local.put(Task.new(args='last', exit_status=0))
local.put(None)
got = []
def late():
    time.sleep(4.5)
    for _ in range(2):
        try:
            got.append(q.completed.get(timeout=5))
            q.completed.task_done()
        except queue.Empty:
            pass
th = threading.Thread(target=late)
th.start()
c.run_with_exceptions() if hasattr(c, 'run_with_exceptions') else c.run()
th.join()
check(len(got) == 2, f'the last result is lost: {len(got)}')
done()
'''),
 dict(id='c09-same-host', property='C09', file=M,
      edits=[('''            .filter(cls.client_id == client_id)
            .limit(limit)''', '''            .filter(cls.client_host == Client.from_id(client_id).host)
            .limit(limit)''')],
      needs='two clients on one host, one of which is evicted',
      breaks='tasks of another client on the host of an evicted client are reverted and run twice',
      demo=HEAD + '''
import datetime, uuid
m = demolib.fresh()
now = datetime.datetime.now().astimezone()
a, b, s = (str(uuid.uuid4()) for _ in range(3))
for c in (a, b):
    m.Client.add(m.Client(id=c, host='node', server_id=s, server_host='h', connected_at=now, disconnected_at=None, evicted=False))
ts = [m.Task.new(args=str(i), schedule_time=now, server_id=s, server_host='h', client_id=c, client_host='node') for i, c in enumerate((a, b))]
m.Task.add_all(ts)
m.Task.revert_orphaned(a)
left = [t.args for t in m.Task.query().filter(m.Task.schedule_time.isnot(None))]
check(left == ['1'], left)
done()
'''),
 dict(id='c08-forever-recovery', property='C08', file=S,
      edits=[('''            if tasks_remaining == 0:''', '''            if tasks_remaining == 0 or self.forever_mode:''')],
      needs='a server that runs forever, started after a crash',
      breaks='a server that runs forever does not recover the tasks interrupted by a crash',
      demo=HEAD + QUEUES + '''
import datetime
m = demolib.fresh()
from hypershell import server
now = datetime.datetime.now().astimezone()
m.Task.add_all([m.Task.new(args=str(i), schedule_time=now) for i in range(3)])
s = server.Scheduler(queue=queues(), bundlesize=1, forever_mode=True)
state = server.SchedulerState.START
for _ in range(3):
    state = s.actions[state]()
    if state not in (server.SchedulerState.START, server.SchedulerState.LOAD):
        break
left = m.Task.query().filter(m.Task.schedule_time.isnot(None)).count()
check(left <= 1, f'{left} interrupted tasks are not recovered')
done()
'''),
]
