"""Run one scenario (a server and clients, or local clusters) of the real code under simulation and return its trace."""
import io
import os
import sys
import json
import simrt
import world
import guide
from world import Observer, Ids, reset_db


class FailStream:
    """Failure stream: each write is an event."""
    def __init__(self, sim, proc):
        self.sim, self.proc, self.buf = sim, proc, ''

    def write(self, text):
        self.buf += text
        while '\n' in self.buf:
            line, self.buf = self.buf.split('\n', 1)
            self.sim.emit('fail_out', p=self.proc, line=line)
        return len(text)

    def flush(self):
        pass

    def close(self):
        pass


def default_server(**kw):
    return {**dict(src=None, gaps={}, bs=1, bw=5, retries=0, eager=False, forever=False, restart=False, noconfirm=False,
                   inmem=False, evict=600, redirect=False, qs=1, tags=None), **kw}


def default_client(name, **kw):
    return {**dict(name=name, start=0, n=1, bs=1, bw=5, hr=10, timeout=None, limit=None, sw=10, capture=False,
                   noconfirm=False, template='{}', delay=0), **kw}


class World:
    """One scenario under way."""
    def __init__(self, sc):
        self.sc = sc
        world.IDENT.seed(sc.get('seed', 0))
        self.sim = simrt.Sim(seed=sc.get('seed', 0), policy=sc.get('policy', 'random'),
                             horizon=sc.get('horizon', 1_800_000), max_steps=sc.get('max_steps', 40_000),
                             step_ms=tuple(sc.get('step_ms', (0, 1))))
        self.sim.victim = sc.get('victim')
        self.sim.time_skew = sc.get('skew', 0.0)
        if not sc.get('keep_db'):
            reset_db()
        if sc.get('preset'):
            world.preset_db(sc['preset'])
        self.obs = Observer(self.sim, sc.get('ids'))
        self.sim.popen_handler = self.popen
        self.sim.kill_cb = self.on_kill
        self.plans = {}
        self.gen = {}
        self.src_no = 0
        self.running = {}
        self.env_base = dict(os.environ)
        self.ran = {}
        self.unstarted = set()
        self.locals = set()
        from hypershell.core.config import config
        self.cwd = config.task.cwd
        self.obs.on_items = self.check_files
        lib = os.path.join(world.SCRATCH, 'site', 'lib', 'task')
        for name in os.listdir(lib):        # identifiers repeat from run to run
            os.unlink(os.path.join(lib, name))
        self.sim.emit('cfg', slack=sc.get('slack', 2500), qs=(sc.get('server') or {}).get('qs', 1),
                      expect=sc.get('expect', 'done'), hosts=sc.get('hosts', True))
        if sc.get('keep_db') or sc.get('preset'):
            self.obs.emit_preset()
        if sc.get('sqlkill'):
            self.sim.sql_kill = tuple(sc['sqlkill'])
        self.sim.holds = [dict(zip(('thread', 'nth', 'ms', 'after'), h)) for h in sc.get('holds', ())]

    def host(self, name):
        return f'host-{name}' if self.sc.get('hosts', True) else 'host'

    # ---- processes ------------------------------------------------------------------------------
    def source(self, name, lines, gaps):
        sim = self.sim
        for i, line in enumerate(lines):
            gap = gaps.get(i, gaps.get(str(i), 0))
            simrt.CUR.wait(('src', ), None, (gap or 1) / 1000)   # distinct submission times
            self.src_no += 1
            sim.emit('src', p=name, i=self.src_no, args=str(line).strip())
            yield line
        gap = gaps.get('end', 0) or (1 if sim.guide else 0)
        if gap:
            simrt.CUR.wait(('src', ), None, gap / 1000)
        sim.emit('src_end', p=name)

    def start_server(self, name, o):
        from hypershell import server as hs_server
        from hypershell.core.config import config
        sim = self.sim

        def main():
            config.server.queuesize = o['qs']
            # without a configured database the server does without one by itself
            hs_server.DATABASE_ENABLED = not o.get('nodb', False)
            sim.emit('srv_start', p=name)
            src = None
            if o['src'] is not None:
                src = self.source(name, o['src'], o['gaps'])
            common = dict(bundlesize=o['bs'], in_memory=o['inmem'] and not o.get('nodb', False), no_confirm=o['noconfirm'],
                          address=('localhost', 50001), auth='k', max_retries=o['retries'], eager=o['eager'],
                          redirect_failures=FailStream(sim, name) if o['redirect'] else None, evict_after=o['evict'])
            if o['forever']:
                hs_server.serve_forever(**common)
            else:
                hs_server.serve_from(source=src, restart_mode=o['restart'], bundlewait=o['bw'], **common)
        self.plans[name] = o
        self.gen[name] = 's'
        sim.emit('srv_new', p=name, **self.srv_cfg(o))
        sim.add_proc(name, main, host=self.host(name))

    @staticmethod
    def srv_cfg(o):
        return dict(bs=o['bs'], bw=o['bw'] * 1000, attempts=o['retries'] + 1, eager=o['eager'], forever=o['forever'],
                    restart=o['restart'], noconfirm=o['noconfirm'], inmem=o['inmem'], evict=o['evict'] * 1000,
                    redirect=o['redirect'], src=o['src'] is not None and not o['forever'],
                    tags='{}', tmpl='{}', tab={})

    def start_client(self, o):
        from hypershell import client as hs_client
        sim, name = self.sim, o['name']

        def main():
            if o['start']:
                simrt.CUR.wait(('boot', ), None, o['start'] / 1000)
            up = lambda: any(s['up'] for s in sim.servers.values())  # noqa
            if not sim.wait(('boot', ), up, o.get('boot', 120)):
                sim.emit('cl_skip', p=name)
                return
            out = open(os.path.join(world.SCRATCH, f'{name}.out'), 'w')
            err = open(os.path.join(world.SCRATCH, f'{name}.err'), 'w')
            sim.emit('cl_start', p=name)
            try:
                hs_client.run_client(num_tasks=o['n'], bundlesize=o['bs'], bundlewait=o['bw'],
                                     address=('localhost', 50001), auth='k', template=o['template'],
                                     redirect_output=out, redirect_errors=err, capture=o['capture'],
                                     heartrate=o['hr'], delay_start=o['delay'], no_confirm=o['noconfirm'],
                                     client_timeout=o['timeout'], task_timeout=o['limit'], task_signalwait=o['sw'])
            finally:
                self.check_streams(name, o, out, err)
        self.plans[name] = o
        self.gen[name] = 'c'
        sim.emit('cl_new', p=name, solo=True, **self.cl_cfg(o, name))
        sim.add_proc(name, main, host=self.host(name))

    def cl_cfg(self, o, name):
        return dict(n=o['n'], bs=o['bs'], bw=o['bw'] * 1000, hr=o['hr'] * 1000,
                    timeout=-1 if o['timeout'] is None else o['timeout'] * 1000,
                    limit=-1 if o['limit'] is None else o['limit'] * 1000, sw=o['sw'] * 1000,
                    noconfirm=o['noconfirm'], capture=o['capture'], host=self.host(name), delay=int(o['delay'] * 1000),
                    tmpl=o['template'], tab=o.get('tab') or {})

    def start_local(self, o):
        """A cluster whose server and client share one process: what happens to the process happens to both."""
        from hypershell import cluster, server as hs_server
        from hypershell.core.config import config
        sim, name, so, co = self.sim, o['name'], o['server'], o['client']

        def main():
            config.server.queuesize, config.server.evict, config.client.heartrate = so['qs'], so['evict'], co['hr']
            hs_server.DATABASE_ENABLED = not so.get('nodb', False)
            out = open(os.path.join(world.SCRATCH, f'{name}.out'), 'w')
            err = open(os.path.join(world.SCRATCH, f'{name}.err'), 'w')
            sim.emit('srv_start', p=name)
            src = None if so['src'] is None else self.source(name, so['src'], so['gaps'])
            try:
                cluster.run_local(source=src, num_tasks=co['n'], template=co['template'], bundlesize=so['bs'],
                                  bundlewait=so['bw'], in_memory=so['inmem'] and not so.get('nodb', False), no_confirm=so['noconfirm'],
                                  forever_mode=so['forever'], restart_mode=so['restart'], max_retries=so['retries'],
                                  eager=so['eager'], redirect_failures=FailStream(sim, name) if so['redirect'] else None,
                                  redirect_output=out, redirect_errors=err, delay_start=co['delay'], capture=co['capture'],
                                  client_timeout=co['timeout'], task_timeout=co['limit'], task_signalwait=co['sw'])
            finally:
                self.check_streams(name, co, out, err)

        def started():
            if any(t.proc.name == name and t.name.endswith(':hypershell-client') for t in sim.threads):
                sim.emit('cl_start', p=name)
                return True
        co.update(bs=so['bs'], bw=so['bw'], noconfirm=so['noconfirm'])
        self.plans[name] = co
        self.gen[name] = 's'
        self.locals.add(name)
        sim.emit('srv_new', p=name, **self.srv_cfg(so))
        sim.emit('cl_new', p=name, solo=False, **self.cl_cfg(co, name))
        sim.triggers.append(started)
        sim.add_proc(name, main, host=self.host(name))

    def check_streams(self, name, o, out, err):
        """What the tasks of this client wrote to the streams it was given."""
        if simrt.me().killed:
            return
        for st in (out, err):
            try:
                st.close()
            except Exception:   # noqa
                pass
        want = [] if o['capture'] else [t for t in self.ran.get(name, ())]
        ok = True
        for st, tag in ((out, 'O'), (err, 'E')):
            with open(st.name) as f:
                lines = f.read().splitlines()
            ok = ok and sorted(lines) == sorted(f'{tag}{k}:{t}' for t, n in want for k in range(1, n + 1))
        self.sim.emit('streams', p=name, ok=ok)

    def check_files(self, proc, items):
        """Captured output of the tasks in a returned bundle, as the server could read it now."""
        o = self.plans.get(proc.name)
        if not o or not o.get('capture'):
            return
        ok = True
        for it in items:
            if it['ex'] == -1 and (it['cmd'] == '~' or it['id'] in self.unstarted):
                continue
            uuid = self.obs.ids.back(it['id'])
            for path, tag, ext in ((it['outp'], 'O', 'out'), (it['errp'], 'E', 'err')):
                want = os.path.join('$', 'site', 'lib', 'task', f'{uuid}.{ext}')
                try:
                    with open(path.replace('$', world.SCRATCH)) as f:
                        text = f.read()
                except OSError:
                    ok = False
                else:
                    ok = ok and path == want and text == f"{tag}1:{it['id']}\n{tag}2:{it['id']}\n"
        self.sim.emit('files', p=proc.name, ok=ok)

    def on_kill(self, proc, crash):
        pass

    # ---- task processes ---------------------------------------------------------------------------
    def popen(self, args, kw):
        env = kw.get('env') or {}
        if 'TASK_ID' not in env:
            return None
        sim = self.sim
        proc = simrt.me().proc
        sim.yield_(('popen', ))
        argv = args[0] if args else kw.get('args')
        tid = self.obs.ids(env['TASK_ID'])
        targs, attempt = env.get('TASK_ARGS', ''), int(env.get('TASK_ATTEMPT') or 0)
        beh = self.behaviour(targs, attempt)
        stdout, stderr = kw.get('stdout'), kw.get('stderr')
        failed = beh.get('fail_start')
        child = None if failed else simrt.SimTaskProc(sim, proc, tid, beh, stdout, stderr, None, None)
        sim.emit('nostart' if failed else 'start', p=proc.name, id=tid, cmd=argv if isinstance(argv, str) else json.dumps(argv),
                 shell=bool(kw.get('shell')), args=targs, att=attempt, env=self.env_record(env),
                 cwd=os.path.realpath(kw.get('cwd') or '.') == os.path.realpath(self.cwd))
        if failed:
            self.unstarted.add(tid)
            raise {'null': ValueError('embedded null byte')}.get(failed) or OSError(7, 'Argument list too long')
        mine = [tid, 1]
        self.ran.setdefault(proc.name, []).append(mine)

        def on_exit(ch):
            mine[1] = 2
            sim.emit('exit', p=proc.name, id=tid, code=ch.returncode, at=ch.exit_at)
        child.on_exit = on_exit
        child.on_signal = lambda ch, s: sim.emit('sig', p=proc.name, id=tid, sig=s,
                                                 deaf=beh.get('on', {}).get(9, 0) is None)
        return child

    def behaviour(self, args, attempt):
        """Scripted life of the process of a task: by argument and attempt."""
        table = self.sc.get('tasks') or {}
        rows = table.get(args.strip()) or table.get('*') or [{'dur': 1000, 'code': 0}]
        beh = dict(rows[min(max(attempt, 1), len(rows)) - 1])
        beh['args'] = args.strip()
        beh['on'] = {int(k): (tuple(v) if v is not None else None) for k, v in (beh.get('on') or {}).items()}
        return beh

    def want_tags(self, tid):
        row = self.obs.msgs.get(tid) or {'tag': '{}'}
        text = lambda v: v if isinstance(v, str) else json.dumps(v)  # noqa
        return {k.upper(): text(v) for k, v in json.loads(row['tag']).items()}

    def env_record(self, env):
        """The task's own fields as its environment shows them."""
        def txt(key):
            v = env.get(key, '!missing')
            return '~' if v == 'null' else v

        def num(key):
            v = env.get(key, '!')
            return int(v) if v.lstrip('-').isdigit() else -1 if v == 'null' else -77

        def ref(key):
            v = env.get(key, '!')
            return 0 if v == 'null' else self.obs.ids.m.get(v, -77)
        base = {k: v for k, v in self.env_base.items() if not k.startswith('TASK_')}
        base.update(self.sc.get('export') or {})
        tags = {k[9:]: v for k, v in env.items() if k.startswith('TASK_TAG_')}
        known = {'TASK_' + c.upper() for c in world.TASK_COLS} | {'TASK_CWD'}
        uuid = env.get('TASK_ID')
        lib = os.path.join(world.SCRATCH, 'site', 'lib', 'task')
        return dict(id=ref('TASK_ID'), args=env.get('TASK_ARGS', '!missing'), att=num('TASK_ATTEMPT'), si=txt('TASK_SUBMIT_ID'),
                    sh=txt('TASK_SUBMIT_HOST'), srv=txt('TASK_SERVER_ID'), srvh=txt('TASK_SERVER_HOST'),
                    cli=txt('TASK_CLIENT_ID'), clih=txt('TASK_CLIENT_HOST'), cmd=env.get('TASK_COMMAND', '!missing'),
                    prev=ref('TASK_PREVIOUS_ID'), next=ref('TASK_NEXT_ID'),
                    sub=world.to_ms(env.get('TASK_SUBMIT_TIME')), rtr=env.get('TASK_RETRIED') == 'true',
                    tags=tags == self.want_tags(ref('TASK_ID')),
                    base=all(env.get(k) == v for k, v in base.items()),
                    extra=all(k in known or k.startswith('TASK_TAG_') for k in env if k.startswith('TASK_')),
                    cwd=env.get('TASK_CWD') == self.cwd,
                    outs=env.get('TASK_OUTPATH') == f'{lib}/{uuid}.out' and env.get('TASK_ERRPATH') == f'{lib}/{uuid}.err')

    # ---- faults and operations ----------------------------------------------------------------------
    def do(self, act):
        sim, kind = self.sim, act[0]
        if kind == 'kill':
            if act[1] in sim.procs and sim.procs[act[1]].alive:
                sim.emit('kill', p=act[1])
                sim.kill(act[1])
        elif kind == 'server':
            self.start_server(act[1], act[2])
        elif kind == 'client':
            self.start_client(act[1])
        elif kind == 'local':
            self.start_local(act[1])
        elif kind == 'signal':
            p = sim.procs.get(act[1])
            if act[1] == 'server':      # the one which runs
                p = ([q for n, q in sim.procs.items() if n[0] == 'S' and q.alive] or [None])[0]
            if p is not None and p.alive:
                sim.emit('usr', p=p.name, sig=int(act[2]))
                sim.enter(p)
                from hypershell.core import signal as hs_signal
                import signal as pysig
                hs_signal.handler({10: pysig.SIGUSR1, 12: pysig.SIGUSR2}[int(act[2])], None)
        elif kind == 'pause':
            p = sim.procs.get(act[1])
            if p is not None and p.alive:
                sim.emit('pause', p=act[1], ms=act[2])
                for t in p.threads:
                    t.paused_until = sim.now + act[2]
        elif kind == 'pause_thread':
            for t in sim.threads:
                if t.proc.alive and act[1] in t.name:
                    t.paused_until = sim.now + act[2]
            sim.emit('slow', ms=act[2])
        elif kind == 'jump':
            sim.emit('slow', ms=act[1])
            sim.now += act[1]
        elif kind == 'user':
            self.user(act[1], dict(act[2]))
        elif kind == 'stop':
            sim.stop_flag = True
        else:
            raise ValueError(kind)

    def user(self, op, o):
        """A user's command in a process of its own, through the real code."""
        self.user_no += 1
        name = f'U{self.user_no}'
        sim = self.sim

        def submit():
            from hypershell.submit import SubmitThread
            sim.emit('sub_new', p=name, bs=o.get('bs', 1), bw=o.get('bw', 5) * 1000,
                     tags=json.dumps(o.get('tags') or {}, sort_keys=True), src=True,
                     tmpl=o.get('template') or '{}', tab=o.get('tab') or {})
            thread = SubmitThread.new(self.source(name, o['src'], o.get('gaps') or {}),
                                      bundlesize=o.get('bs', 1), bundlewait=o.get('bw', 5), tags=o.get('tags'),
                                      template=o.get('template') or '{}')
            thread.join()
            sim.emit('count', p=name, of=name, n=thread.task_count)

        def update():
            from hypershell.data.model import Task
            found = Task.query().filter(Task.args.in_(o['args']))
            if o.get('waiting'):
                found = found.filter(Task.schedule_time.is_(None))
            ids = [t.id for t in found.order_by(Task.submit_time).all()]
            sim.emit('user', p=name, op=op, ids=[self.obs.ids(i) for i in ids])
            {'cancel': Task.cancel_all, 'revert': Task.revert_all}[op](ids)
        self.sim.add_proc(name, {'submit': submit}.get(op, update), host=self.host(name))

    user_no = 0

    def arm(self, when, act):
        """when: ('t', ms) | ('ev', name, nth[, filter dict]) | ('step', n)."""
        sim, state = self.sim, {'n': 0, 'pos': 0}

        def trig():
            if when[0] == 't':
                hit = sim.now >= when[1]
            elif when[0] == 'step':
                hit = sim.steps >= when[1]
            else:
                hit = False
                while state['pos'] < len(sim.events):
                    ev = sim.events[state['pos']]
                    state['pos'] += 1
                    flt = when[3] if len(when) > 3 else {}
                    if ev['e'] == when[1] and all(ev.get(k) == v for k, v in flt.items()):
                        state['n'] += 1
                        if state['n'] == when[2]:
                            hit = True
                            break
            if hit:
                self.do(act)
            return hit
        if when[0] == 't':
            trig.at = when[1]
        sim.triggers.append(trig)

    # ---- run --------------------------------------------------------------------------------------
    def run(self):
        sc, sim = self.sc, self.sim
        if sc.get('server'):
            self.start_server('S', sc['server'])
        if sc.get('local'):
            self.start_local(sc['local'])
        for c in sc.get('clients', ()):
            self.start_client(c)
        for when, act in sc.get('faults', ()):
            self.arm(when, act)
        if sc.get('walk'):
            sim.guide = guide.Guide(self, sc['walk'])

        def finished():
            if [t for t in sim.triggers]:
                pend = [t for t in sim.triggers if getattr(t, 'at', None) is not None]
                if pend:
                    return False
            return all(not p.alive for p in sim.procs.values())
        sim.done_when = finished
        try:
            sim.run()
        except simrt.Stuck as exc:
            sim.outcome = 'stuck'
            sim.emit('stuck', p='', why=str(exc)[:200])
        self.obs.poll()
        self.obs.close()
        sim.emit('end', outcome=sim.outcome)
        g = sim.guide
        # a local cluster is a server and a client
        events = [x for e in sim.events
                  for x in ([e, e] if e['e'] in ('kill', 'proc_end') and e['p'] in self.locals else [e])]
        return {'events': events, 'outcome': sim.outcome, 'steps': sim.steps,
                **({'walk': g.finish()} if g else {})}


def run_scenario(sc):
    return World(sc).run()
