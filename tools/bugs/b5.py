S = 'src/hypershell/server.py'
C = 'src/hypershell/client.py'
M = 'src/hypershell/data/model.py'
U = 'src/hypershell/submit.py'
F = 'src/hypershell/core/config.py'
H = 'src/hypershell/cluster/ssh.py'
HEAD = '''
import demolib
from demolib import check, done
'''
BUGS = [
 dict(id='c01-post-full', property='C01', file=S,
      edits=[('''                return SchedulerState.FINAL
            return SchedulerState.POST
''', '''                return SchedulerState.FINAL
            return SchedulerState.LOAD
''')],
      needs='a scheduled queue which stays full for more than two seconds',
      breaks='a bundle is forgotten when the clients are slow to take it; its tasks never get a result',
      demo=HEAD + '''
import queue, types
M = demolib.fresh()
from hypershell.server import Scheduler, SchedulerState
M.Task.add_all([M.Task.new(args=x) for x in 'ab'])
box = queue.Queue(1)
m = Scheduler(queue=types.SimpleNamespace(scheduled=box), bundlesize=1)
got = []
for i in range(12):
    m.state = m.actions[m.state]()
    if box.full() and i > 7:
        got += [M.Task.unpack(d).args for d in box.get()]
    if len(got) == 2:
        break
check(got == ['a', 'b'], f'sent to the clients: {got}')
done()
'''),
 dict(id='c07-startup-kept', property='C07', file=S,
      edits=[('''        if self.tasks:
            self.startup_phase = False
            return SchedulerState.PACK
''', '''        if self.tasks:
            return SchedulerState.PACK
''')],
      needs='a server without a source of tasks of its own (e.g., serve_from([])) and not in restart mode, on a database with unfinished tasks',
      breaks='a server which was not given any tasks itself does not end when those in the database are finished',
      demo=HEAD + '''
import datetime, queue, types
M = demolib.fresh()
from hypershell import server
from hypershell.server import Scheduler, SchedulerState
server.time.sleep = lambda s: None
M.Task.add_all([M.Task.new(args='a')])
box = queue.Queue(4)
m = Scheduler(queue=types.SimpleNamespace(scheduled=box), bundlesize=1)
for i in range(30):
    m.state = m.actions[m.state]()
    if m.state is SchedulerState.FINAL:
        break
    if not box.empty():
        t = M.Task.unpack(box.get()[0])
        M.Task.update_all([{'id': t.id, 'exit_status': 0, 'completion_time': datetime.datetime.now().astimezone()}])
check(m.state is SchedulerState.FINAL, 'still scheduling')
done()
'''),
 dict(id='c20-revert-status', property='C20', file=M,
      edits=[('''                'exit_status': None,
                'outpath': None,''', '''                'outpath': None,''')],
      needs='a task which is cancelled and reverted later',
      breaks='a task reverted after it was cancelled keeps its status, does not count as unfinished and is not waited for',
      demo=HEAD + '''
M = demolib.fresh()
t = M.Task.new(args='x')
M.Task.add_all([t])
id = t.id
M.Task.cancel(id)
check(M.Task.count_remaining() == 0, 'cancelled but unfinished')
M.Task.revert(id)
t = M.Task.from_id(id)
check(M.Task.count_remaining() == 1 and t.exit_status is None, f'status after it was reverted: {t.exit_status}')
done()
'''),
 dict(id='c02-count-full', property='C02', file=U,
      edits=[('''            self.queue.put(self.task, timeout=1)
            self.count += 1
            return LoaderState.GET
''', '''            self.count += 1
            self.queue.put(self.task, timeout=1)
            return LoaderState.GET
''')],
      needs='a commit which takes longer than a second',
      breaks='the reported number of submitted tasks is too high when the database was slow',
      demo=HEAD + '''
import time
M = demolib.fresh()
from hypershell import submit
real = submit.Task.add_all
def slow(tasks):
    time.sleep(1.5)
    real(tasks)
submit.Task.add_all = slow
n = submit.submit_from([f'echo {i}' for i in range(4)], bundlesize=1)
check(n == 4 == M.Task.count(), f'{n} reported, {M.Task.count()} there')
done()
'''),
 dict(id='c28-serve-file-eager', property='C28', file=S,
      edits=[('''                   max_retries=max_retries,
                   eager=eager,
                   redirect_failures=redirect_failures,
                   evict_after=evict_after)


def serve_forever''', '''                   max_retries=max_retries,
                   redirect_failures=redirect_failures,
                   evict_after=evict_after)


def serve_forever''')],
      needs='a server started by serve_file with eager retries',
      breaks='serve_file forgets that failed tasks are to be preferred',
      demo=HEAD + '''
demolib.fresh()
from hypershell import server
seen = []
class Spy:
    @classmethod
    def new(cls, **kw):
        seen.append(kw)
        return cls()
    def join(self):
        pass
server.ServerThread = Spy
open('tasks', 'w').write('true')
server.serve_file('tasks', max_retries=2, eager=True)
check(seen[0].get('eager') is True, f"eager: {seen[0].get('eager')}")
done()
'''),
 dict(id='c28-pad-cross', property='C28', file=H,
      edits=[('''apply_padding = str if start_chars[0] != '0' else''', '''apply_padding = str if start_chars[0] != '0' or len(start_chars) != len(stop_chars) else''')],
      needs='a padded range of host names whose upper number has another number of digits (n[08-120])',
      breaks='hosts of a padded range are named without the zeros in front',
      demo=HEAD + '''
from hypershell.cluster.ssh import NodeList
got = list(NodeList.from_pattern('n[098-101],m[08-100]'))
check(got[:4] == ['n098', 'n099', 'n100', 'n101'] and got[4:6] == ['m08', 'm09'] and len(got) == 97, got[:6])
done()
'''),
 dict(id='c26-style-over-format', property='C26', file=F,
      edits=[('''    return Configuration(**{
        'default': default, **preload,
        'system': {} if not system else load_file(system),
        'user': {} if not user else load_file(user),
        'local': {} if not user else load_file(local),
        'env': load_env(),''', '''    return Configuration(**{
        'default': default,
        'system': {} if not system else load_file(system),
        'user': {} if not user else load_file(user),
        **preload,
        'local': {} if not user else load_file(local),
        'env': load_env(),''')],
      needs='a logging format given in the system or user file',
      breaks='the format which belongs to a logging style wins over the one given in the system and user files',
      demo=HEAD + '''
import os
os.makedirs(os.path.join(demolib.SCRATCH, '.hypershell'), exist_ok=True)
open(os.path.join(demolib.SCRATCH, '.hypershell', 'config.toml'), 'w').write("[logging]\\nformat = '%(message)s'\\n")
os.environ.pop('HYPERSHELL_SITE')
os.mkdir('w')
os.chdir('w')
from hypershell.core.config import config
check(config.logging.format == '%(message)s', config.logging.format)
done()
'''),
]
