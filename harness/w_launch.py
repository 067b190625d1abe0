"""`hs server`, `hs client` and `hs cluster` of the real code: what the servers and clients they launch are told.

The threads of the server and client do not run: what they are constructed with is recorded.  External clients are not launched either:
the command is recorded, put through a shell as on a remote host, and then run as the `hs client` which it is, to see what that one does.
"""
import os
import sys
import json
import random
import shlex
import subprocess
import plain
import w_config

TEMPLATES = ['{}', './run.sh {} -o {/-}.out', 'echo "{}" > \'x y\'', "awk '{print $1}' {}", 'echo $HOME {}', 'printf "%s\\n" {}', 'a  b\t{}', "it's {}",
             'echo `date` {} | cat', 'echo {[0]} {= x =}', 'x=1; echo $x {}', 'αβ {}', '\\{} *']
ARGS = ['-i ~/.ssh/key', '-o "ProxyCommand nc x 1" -p 22', '-v']
HOSTS = ['a00.cluster', 'n1', 'x-y.z', 'user@node', '10.0.0.1']
LAUNCHERS = ['srun', 'srun --mpi=pmi2', "wrap 'a b' -x", 'mpirun -n 4']
CFG = {'server.bundlesize': [2, 5, 100], 'server.attempts': [1, 2, 4], 'server.eager': [True, False], 'server.port': [50123, 1024], 'server.bind': ['0.0.0.0', '127.0.0.1'],
       'server.auth': ['secret', 'key with space'], 'server.evict': [60, 30], 'server.queuesize': [4, 9], 'submit.bundlewait': [1, 9], 'submit.bundlesize': [3, 7], 'client.bundlesize': [11, 13],
       'client.bundlewait': [17, 19], 'client.heartrate': [3, 4], 'client.timeout': [120, 77], 'task.timeout': [33, 44], 'task.signalwait': [5, 6],
       'autoscale.policy': ['fixed', 'dynamic'], 'autoscale.factor': [0.5, 2], 'autoscale.period': [30, 7], 'autoscale.size.init': [3, 0], 'autoscale.size.min': [2, 1],
       'autoscale.size.max': [8, 9], 'ssh.args': ARGS, 'ssh.nodelist': [], 'export.foo': ['a b', 'x$y', "it's", '"q"'], 'database.file': []}
INT = {'N': (1, 64), 'b': (1, 99), 'w': (1, 60), 'r': (0, 5), 'p': (2000, 60000), 'T': (1, 900), 'W': (1, 900), 'S': (1, 60), 'P': (1, 300), 'X': (0, 5), 'Y': (1, 9), 'I': (0, 6)}
LONG = {'N': '--num-tasks', 'b': '--bundlesize', 'w': '--bundlewait', 'r': '--max-retries', 'p': '--port', 'T': '--timeout', 'W': '--task-timeout', 'S': '--signalwait',
        'P': '--period', 'X': '--min-size', 'Y': '--max-size', 'I': '--init-size', 't': '--template', 'd': '--delay-start', 'F': '--factor', 'k': '--auth', 'H': '--bind',
        'o': '--output', 'e': '--errors', 'f': '--failures'}
LINES = ['echo 1', 'echo "a b"', 'true', '']


def start():
    w_config.start()


def text(v):
    return '~' if v is None else 'true' if v is True else 'false' if v is False else str(v)


def group(rng):
    """A group of hosts with one range of numbers (or none), in parts."""
    if rng.random() < 0.4:
        return {'pre': rng.choice(HOSTS), 'segs': [], 'post': ''}
    segs = []
    for _ in range(rng.randint(1, 3)):
        a, b = sorted([rng.randint(0, 12), rng.randint(0, 14)])
        pad = rng.choice([0, 0, 2, 3])
        if pad == 2 and rng.random() < 0.3:
            b += 95     # more digits than the lower one
        fmt = (lambda x: str(x).zfill(pad)) if pad else str
        if rng.random() < 0.4:
            segs.append({'one': fmt(a), 'text': fmt(a), 'a': 0, 'b': 0, 'w': 0})
        else:
            lo = fmt(a)
            segs.append({'one': '', 'text': f'{lo}-{fmt(b)}', 'a': a, 'b': b, 'w': len(lo) if lo.startswith('0') else 0})
    return {'pre': rng.choice(['cluster-a', 'n', 'gpu.']), 'segs': segs, 'post': rng.choice(['', '.xyz', '-ib'])}


def pattern(groups):
    return ','.join(g['pre'] + (('[' + ','.join(s['text'] for s in g['segs']) + ']') if g['segs'] else '') + g['post'] for g in groups)


class Case:
    """What is asked for."""
    def __init__(self, seed):
        rng = self.rng = random.Random(seed)
        self.kind = rng.choice(['server', 'server', 'client', 'submit', 'submit', 'local', 'launch', 'mpi', 'ssh', 'ssh', 'autoscaling', 'autoscaling', 'local'])
        self.api = rng.random() < (0.2 if self.kind not in ALONE else 0.45)
        self.encoding = rng.choice([None, None, 'utf-16']) if self.api and self.kind in ('server', 'submit') else None
        self.tags, self.live = {}, False
        self.opt, self.flags, self.argv, self.cfg = {}, set(), [], {}
        self.groups, self.hosts_from = [], ''
        self.stdin = ''.join(f'{x}\n' for x in rng.choices(LINES, k=rng.randint(0, 4)))
        self.file = None
        for k in rng.sample(sorted(CFG), rng.choice([0, 2, 6, 12])):
            if CFG[k] and not self.api:
                self.cfg[k] = (rng.choice(CFG[k]), rng.choice(['env', 'file', 'file']))
        getattr(self, 'make_' + (self.kind if self.kind in ALONE else 'cluster'))()
        if not self.argv and self.kind in ALONE:  # shows how it is used
            self.put('b', 7, LONG['b'])

    def put(self, name, value, long=None):
        self.opt[name] = f'{float(value):g}' if name in 'dF' else text(value)
        flag = long if long and self.rng.random() < 0.5 else f'-{name}'
        value = str(value)
        if flag.startswith('--') and (value.startswith('-') or self.rng.random() < 0.3):
            self.argv.append([f'{flag}={value}'])
        else:
            self.argv.append([flag, value])

    def flag(self, name, p=0.3, short=None):
        if self.rng.random() < p:
            self.flags.add(name)
            self.argv.append([short if short and self.rng.random() < 0.5 else '--' + name])

    def ints(self, names, p=0.4, **long):
        for n in names:
            if self.rng.random() < p:
                self.put(n, self.rng.randint(*INT[n]), long.get(n, LONG[n]))

    def source(self):
        if self.rng.random() < 0.6:
            self.file = self.rng.choice(['tasks.in', 'a file.txt'])
            self.argv.append([self.file])

    def make_server(self):
        rng = self.rng
        self.ints('bwrp')
        if rng.random() < 0.3:
            self.put('H', rng.choice(['0.0.0.0', '127.0.0.1', 'localhost']), LONG['H'])
        if rng.random() < 0.3:
            self.put('k', rng.choice(['abc', 'a b']), LONG['k'])
        for f in ('eager', 'no-confirm'):
            self.flag(f)
        if rng.random() < 0.3:
            self.put('f', rng.choice(['failed.out', '-']), LONG['f'])
        elif not self.api:
            self.flag('print', 0.2)
        r = rng.random()
        self.flag('forever', 0.3)
        self.flag('restart', 0.3 if 'forever' not in self.flags else 0.08 if not self.api else 0)
        if 'forever' not in self.flags and 'restart' not in self.flags:
            self.flag('no-db', 0.3)
            self.source()
        elif r < 0.08 and 'forever' in self.flags and not self.api:
            self.source()

    def make_submit(self):
        rng = self.rng
        self.ints('bw')
        if rng.random() < 0.5:
            self.put('t', rng.choice(TEMPLATES), LONG['t'])
        self.tags = {k: rng.choice(['b', 'x.y', '']) for k in rng.sample(['a', 'site', 'group'], rng.choice([0, 0, 1, 2]))}
        if self.tags:
            self.argv.append(['--tag', *(f'{k}:{v}' if v else k for k, v in self.tags.items())])
        self.live = self.api and rng.random() < 0.4
        self.source()

    def make_client(self):
        rng = self.rng
        self.ints('NbwpTWS', T='--timeout', S=rng.choice(['--signalwait', '--task-signalwait']))
        if rng.random() < 0.3:
            self.put('H', rng.choice(['0.0.0.0', 'login01']), '--host')
        if rng.random() < 0.3:
            self.put('k', rng.choice(['abc', 'a b']), LONG['k'])
        if rng.random() < 0.5:
            self.put('t', rng.choice(TEMPLATES), LONG['t'])
        if rng.random() < 0.4:
            self.put('d', rng.choice([0, 3, 2.5, -600]), LONG['d'])
        self.flag('no-confirm')
        self.flag('capture', 0.3, '-c')
        if rng.random() < (0.4 if 'capture' not in self.flags else 0.1 * (not self.api)):
            self.put('o', 'out.txt', LONG['o'])
        if rng.random() < (0.4 if 'capture' not in self.flags else 0.1 * (not self.api)):
            self.put('e', 'err.txt', LONG['e'])

    def make_cluster(self):
        rng = self.rng
        self.ints('NbwrpTWS')
        if rng.random() < 0.6:
            self.put('t', rng.choice(TEMPLATES), LONG['t'])
        if rng.random() < 0.4:
            self.put('d', rng.choice([0, 3, 2.5, -600, -1.5]), LONG['d'])
        if rng.random() < 0.3:
            self.put('f', 'failed.out', LONG['f'])
        self.flag('eager')
        self.flag('no-confirm')
        self.flag('capture', 0.3, '-c')
        if self.kind == 'local' or rng.random() < 0.03:
            for n, path in (('o', 'out.txt'), ('e', 'err.txt')):
                if rng.random() < (0.3 if 'capture' not in self.flags else 0.1):
                    self.put(n, path, LONG[n])
        self.flag('no-db', 0.2 if self.kind != 'autoscaling' else 0.05)
        self.flag('forever', 0.2 if 'no-db' not in self.flags else 0.1)
        self.flag('restart', 0.2 if not self.flags & {'no-db', 'forever'} else 0.1)
        if 'restart' not in self.flags:
            self.source()
        if self.kind == 'launch' or self.kind == 'autoscaling' and rng.random() < 0.8:
            self.opt['launcher'] = rng.choice(LAUNCHERS)
            self.argv.append([f"--launcher={self.opt['launcher']}"])
        if self.kind == 'mpi':
            self.argv.append(['--mpi'])
            self.opt['launcher'] = 'mpirun'
        if self.kind == 'ssh':
            self.groups = [group(rng) for _ in range(rng.randint(1, 3))]
            r = rng.random()
            if r < 0.5 or self.api:
                self.hosts_from = 'argv'
                self.argv.append([f'--ssh={pattern(self.groups)}'] if rng.random() < 0.5 else ['--ssh', pattern(self.groups)])
            else:
                self.hosts_from = rng.choice(['config', 'group', 'list'])
                self.argv.append(['--ssh'])
                if self.hosts_from == 'group':
                    self.argv.append(['--ssh-group', 'mine'])
            if rng.random() < 0.4:
                self.opt['ssh-args'] = rng.choice(ARGS)
                self.argv.append([f"--ssh-args={self.opt['ssh-args']}"])
            self.flag('env', 0.4, '-E')
        elif rng.random() < 0.03:
            self.opt['ssh-args'] = '-v'
            self.argv.append(['--ssh-args=-v'])
        if self.kind == 'autoscaling' or (self.kind in ('ssh', 'mpi') and rng.random() < 0.05 and not self.api):
            self.opt['A'] = rng.choice(['', 'fixed', 'dynamic', 'DYNAMIC'])
            self.argv.append([f"--autoscaling={self.opt['A']}"] if self.opt['A'] else ['-A'])
            self.ints('PXYI')
            if rng.random() < 0.4:
                self.put('F', rng.choice([2, 0.5, 10.0]), LONG['F'])
        if rng.random() < 0.3:
            self.opt['remote-exe'] = 'other-hs'
            self.argv.append(['--remote-exe', 'other-hs'])

    def tail(self):
        """Options which may take a value are followed by other options, or come last."""
        bare = [a for a in self.argv if a in (['-A'], ['--ssh']) or a[0] == '--tag']
        rest = [a for a in self.argv if a not in bare]
        self.rng.shuffle(rest)
        files = [a for a in rest if a == [self.file]]
        return [w for a in files + [x for x in rest if x not in files] + bare for w in a]


API = {'N': 'num_tasks', 'b': 'bundlesize', 'w': 'bundlewait', 'r': 'max_retries', 't': 'template', 'd': 'delay_start', 'T': 'client_timeout', 'W': 'task_timeout',
       'S': 'task_signalwait', 'P': 'period', 'X': 'min_size', 'Y': 'max_size', 'I': 'init_size', 'F': 'factor', 'A': 'policy', 'launcher': 'launcher', 'remote-exe': 'remote_exe'}
API_FLAGS = {'no-db': 'in_memory', 'no-confirm': 'no_confirm', 'forever': 'forever_mode', 'restart': 'restart_mode', 'eager': 'eager', 'capture': 'capture', 'env': 'export_env'}


COUNT = 4711


def api_call(c, lines):
    """The same as a call of the documented functions."""
    from hypershell.server import serve_from, serve_file, serve_forever
    from hypershell.client import run_client
    from hypershell.cluster import run_local, run_cluster, run_ssh, NodeList
    kw = {API_FLAGS[f]: True for f in c.flags}
    for k, v in c.opt.items():
        if k in API and not (k == 'A' and not v):
            kw[API[k]] = v if k in ('t', 'A', 'launcher', 'remote-exe') else float(v) if k in 'dF' else int(v)
    for k, name in (('f', 'redirect_failures'), ('o', 'redirect_output'), ('e', 'redirect_errors')):
        if k in c.opt:
            kw[name] = sys.stdout if c.opt[k] == '-' else open(c.opt[k], 'w')
    if c.kind == 'submit':
        from hypershell.submit import submit_from, submit_file
        if c.live:
            from hypershell.core.queue import QueueConfig
            kw['queue_config'] = QueueConfig(host='login01', port=4321, auth='q key')
        if c.tags:
            kw['tags'] = dict(c.tags)
        if c.file:
            return 0 if submit_file(c.file, **kw, **({'encoding': c.encoding} if c.encoding else {})) == COUNT else 98
        return 0 if submit_from(lines, **kw) == COUNT else 98
    if c.kind in ('server', 'client'):
        if 'H' in c.opt or 'p' in c.opt:
            kw['address'] = (c.opt.get('H', 'localhost'), int(c.opt.get('p', 50001)))
        if 'k' in c.opt:
            kw['auth'] = c.opt['k']
        if c.kind == 'client':
            run_client(**kw)
        elif kw.pop('forever_mode', False):
            kw.pop('bundlewait', None)
            serve_forever(**kw)
        elif c.file:
            serve_file(c.file, **kw, **({'encoding': c.encoding} if c.encoding else {}))
        else:
            serve_from(None if 'restart' in c.flags else lines, **kw)
        return 0
    if 'p' in c.opt and c.kind != 'local':
        kw['bind'] = ('0.0.0.0', int(c.opt['p']))
    if 'restart' not in c.flags:
        kw['source'] = lines
    if c.kind == 'local':
        run_local(**kw)
    elif c.kind == 'ssh':
        if 'ssh-args' in c.opt:
            kw['launcher_args'] = shlex.split(c.opt['ssh-args'])
        run_ssh(nodelist=NodeList.from_pattern(pattern(c.groups)), **kw)
    else:
        run_cluster(**kw, **({'autoscaling': True} if c.kind == 'autoscaling' else {}))
    return 0


def toml(tree):
    return ''.join(f'[{sec}]\n' + ''.join(f'{k} = {json.dumps(v, ensure_ascii=False)}\n' for k, v in sub.items()) for sec, sub in tree.items())


SITE = 0
ALONE = ('server', 'client', 'submit')      # (not a cluster)


def recorded(argv, env, stdin_text, files, call=None):
    """(exit code, record) of a command in a process of its own."""
    def child():
        names = [n for n in sys.modules if n == 'hypershell' or n.startswith('hypershell.')]
        for n in names:
            del sys.modules[n]
        for k in [k for k in os.environ if k.startswith('HYPERSHELL')]:
            del os.environ[k]
        os.environ.update(env)
        os.chdir(files)
        rec = {'servers': [], 'clients': [], 'scalers': [], 'submits': [], 'procs': []}

        class Proc:
            pid, returncode = 4242, 0

            def __init__(self, args, *more, **kw):
                e = kw.get('env')
                rec['procs'].append({'argv': [args] if isinstance(args, str) else [str(a) for a in args],
                                     'env': dict(os.environ if e is None else e), 'shell': bool(kw.get('shell')),
                                     'out': stream(kw.get('stdout')), 'err': stream(kw.get('stderr'))})

            def wait(self, timeout=None):
                return 0
            poll = communicate = terminate = kill = wait

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass
        import subprocess as sp
        import time
        import inspect
        real = sp.Popen

        class Popen(Proc):
            pass
        sp.Popen = Popen
        stdio = (sys.stdout, sys.stderr)

        def stream(s):
            return '~' if s is None else '<stdout>' if s in (stdio[0], 1) else '<stderr>' if s in (stdio[1], 2) else os.path.basename(getattr(s, 'name', '?'))
        sys.argv = ['/opt/x/hs', *argv]
        import hypershell
        import hypershell.server, hypershell.client, hypershell.cluster, hypershell.submit     # noqa
        import hypershell.cluster.remote as remote
        time.sleep = lambda s: None

        def spy(cls, where):
            sig = inspect.signature(cls.__init__)

            def init(self, *a, **k):
                b = sig.bind(self, *a, **k)
                b.apply_defaults()
                got = {n: v for n, v in list(b.arguments.items())[1:]}
                got.update(got.pop('kwargs', None) or {})
                rec[where].append(got)
                self.rec = got
            cls.__init__ = init
            cls.start = lambda self: self.rec.update(started=True, src=[x for x in self.rec.get('source') or ()])
            for name in ('join', 'stop'):
                setattr(cls, name, lambda self, *a, **k: None)
        spy(hypershell.server.ServerThread, 'servers')
        spy(hypershell.client.ClientThread, 'clients')
        spy(remote.AutoScalerThread, 'scalers')
        for cls in (hypershell.submit.SubmitThread, hypershell.submit.LiveSubmitThread):
            spy(cls, 'submits')
            cls.task_count = COUNT
        code = call() if call else hypershell.main()
        out = {'rc': code, 'procs': rec['procs']}
        out['servers'] = [dict(bs=text(s['bundlesize']), bw=text(s['bundlewait']), nodb=bool(s['in_memory']), noconfirm=bool(s['no_confirm']),
                               forever=bool(s['forever_mode']), restart=bool(s['restart_mode']), host=s['address'][0], port=text(s['address'][1]),
                               auth=s['auth'], retries=text(s['max_retries']), eager=bool(s['eager']), fail=stream(s['redirect_failures']),
                               evict=text(s['evict_after']), src=[str(x) for x in s.get('src') or []], started=bool(s.get('started'))) for s in rec['servers']]
        out['clients'] = [dict(n=text(c['num_tasks']), bs=text(c['bundlesize']), bw=text(c['bundlewait']), host=c['address'][0], port=text(c['address'][1]),
                               auth=c['auth'], tmpl=c['template'], out=stream(c['redirect_output']), err=stream(c['redirect_errors']), hr=text(c['heartrate']),
                               capture=bool(c['capture']), delay=float(c['delay_start']), noconfirm=bool(c['no_confirm']), timeout=text(c['client_timeout']),
                               limit=text(c['task_timeout']), sw=text(c['task_signalwait']), started=bool(c.get('started'))) for c in rec['clients']]
        for c in out['clients']:
            c['delay'] = f"{c['delay']:g}"
        out['scalers'] = [dict(argv=[str(x) for x in s['launcher']], policy=s['policy'].lower(), factor=f"{float(s['factor']):g}", period=text(s['period']),
                               init=text(s['init_size']), min=text(s['min_size']), max=text(s['max_size']), started=bool(s.get('started'))) for s in rec['scalers']]
        out['submits'] = [dict(bs=text(s['bundlesize']), bw=text(s['bundlewait']), tmpl=s['template'], tags=sorted(f'{k}={v}' for k, v in (s['tags'] or {}).items()),
                               src=[str(x).rstrip('\n') for x in s.get('src') or []], started=bool(s.get('started')),
                               queue=[s['queue_config'].host, text(s['queue_config'].port), s['queue_config'].auth] if s.get('queue_config') else []) for s in rec['submits']]
        from hypershell.core.logging import HOSTNAME
        out['host'] = HOSTNAME
        return out
    rc, out, err, res = plain.forked(child, stdin=stdin_text, timeout=60)
    return rc, res, out, err


def remote_words(argv, exe):
    """What a shell makes of a command: the variables set in front of it and its words (None: nothing was run)."""
    box = os.path.join(plain.SCRATCH, 'remote')
    os.makedirs(box, exist_ok=True)
    got = os.path.join(box, 'got')
    if os.path.exists(got):
        os.unlink(got)
    tool = os.path.join(box, os.path.basename(exe))
    with open(tool, 'w') as f:
        f.write(f'#!{plain.PYTHON}\nimport sys, os, json\njson.dump([dict(os.environ), sys.argv[1:]], open({got!r}, "w"))\n')
    os.chmod(tool, 0o755)
    line = ' '.join(argv).replace('/opt/x/hs', 'hs')
    subprocess.run(['/bin/sh', '-c', line], env={'PATH': box, 'HOME': '/remote/home'}, cwd=box, timeout=20,
                   stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.unlink(tool)
    if not os.path.exists(got):
        return None
    with open(got) as f:
        env, words = json.load(f)
    return {k: v for k, v in env.items() if k.startswith('HYPERSHELL')}, words


def run(job):
    global SITE
    SITE += 1
    c = Case(job['seed'])
    home = os.path.join(plain.SCRATCH, f'case{SITE}')
    site = os.path.join(home, 'site')
    for sub in ('lib/task', 'log', 'etc', 'run'):
        os.makedirs(os.path.join(site, sub))
    env = {'HYPERSHELL_SITE': site, 'HYPERSHELL_LOGGING_LEVEL': 'CRITICAL', 'HYPERSHELL_CONFIG_FILE': os.path.join(home, 'config.toml')}
    tree = {}
    cfg = {'database.file': (os.path.join(plain.SCRATCH, 'task.db'), 'env'), **c.cfg}
    if c.hosts_from in ('config', 'group', 'list'):
        if c.hosts_from == 'list':
            c.groups = [g for g in c.groups if not g['segs']] or [{'pre': 'n1', 'segs': [], 'post': ''}]
        hosts = [g['pre'] for g in c.groups] if c.hosts_from == 'list' else pattern(c.groups)
        cfg['ssh.nodelist'] = ({'mine': hosts, 'other': ['zzz']} if c.hosts_from == 'group' else hosts, 'file')
    for key, (value, where) in cfg.items():
        if where == 'env':
            env['HYPERSHELL_' + key.upper().replace('.', '_')] = 'true' if value is True else 'false' if value is False else str(value)
        else:
            *secs, name = key.split('.')
            if isinstance(value, dict):
                tree['.'.join([*secs, name])] = value
            else:
                tree.setdefault('.'.join(secs), {})[name] = value
    with open(env['HYPERSHELL_CONFIG_FILE'], 'w') as f:
        f.write(toml(tree))
    lines = c.stdin
    if c.file:
        with open(os.path.join(home, c.file), 'w', encoding=c.encoding) as f:
            f.write(lines)
    argv = [c.kind if c.kind in ALONE else 'cluster', *c.tail()]
    call = None
    if c.api:
        if c.kind not in ('local', 'client'):
            c.opt.pop('o', None)
            c.opt.pop('e', None)
        if c.kind == 'local':
            c.opt.pop('p', None)
            c.opt.pop('remote-exe', None)
        if c.kind == 'autoscaling':
            c.flags -= {'no-db'}
        if c.kind != 'ssh':
            c.opt.pop('ssh-args', None)
        call = lambda: api_call(c, lines.splitlines())  # noqa
    rc, res, out, err = recorded(argv, env, '' if c.file else lines, home, call)
    ev = {'e': 'case', 'kind': c.kind, 'api': c.api, 'argv': argv, 'opt': {k: [c.opt[k]] if k in c.opt else [] for k in
          [*'NbwrptdkHoefTWSPXYIFA', 'launcher', 'ssh-args', 'remote-exe']}, 'flags': sorted(c.flags), 'file': c.file is not None, 'lines': lines.splitlines(),
          'cfg': {k: [text(cfg[k][0])] if k in cfg else [] for k in CFG if k not in ('ssh.nodelist', 'server.attempts')},
          'sent': {k: [text(cfg[k][0])] if k in cfg and cfg[k][1] == 'env' else [] for k in CFG if k not in ('ssh.nodelist', 'server.attempts')},
          'attempts': cfg.get('server.attempts', (1,))[0], 'groups': c.groups, 'policy': c.opt.get('A', '').lower(),
          'launcher': shlex.split(c.opt.get('launcher', 'mpirun' if c.api and c.kind == 'launch' else '')),
          'sshargs': shlex.split(c.opt.get('ssh-args', text(cfg['ssh.args'][0]) if 'ssh.args' in cfg else '')),
          'rc': -99 if rc is None or res is None else res['rc'], 'err': err[-300:], 'servers': [], 'local': [], 'scalers': [], 'submits': [], 'procs': [], 'host': '', 'tags': sorted(f'{k}={v}' for k, v in c.tags.items()), 'live': c.live}
    if res:
        ev.update(host=res['host'], submits=res['submits'], servers=res['servers'], local=res['clients'])
        for s in ev['servers']:
            s['src'] = [x.rstrip('\n') for x in s['src']]
        exe = c.opt.get('remote-exe', 'hyper-shell' if c.api else '/opt/x/hs')
        launches = [(p['argv'], p['env'], p) for p in res['procs']]
        for s in res['scalers']:
            launches.append((s.pop('argv'), env, None))
            ev['scalers'].append(s)
        seen = {}
        for words, penv, p in launches:
            k = len(shlex.split(c.opt.get('launcher', '')))
            if c.kind == 'ssh':
                k = 2 + len(shlex.split(c.opt.get('ssh-args', text(cfg['ssh.args'][0]) if 'ssh.args' in cfg else '')))
            prefix, rest = words[:k], words[k:]
            one = {'prefix': prefix, 'ran': False, 'client': [], 'std': p is None or (p['out'] in ('~', '<stdout>') and p['err'] in ('~', '<stderr>') and not p['shell']),
                   'env': True, 'vars': True, 'exports': True}
            if p is not None and c.kind != 'ssh':
                one['env'] = all(penv.get(k) == v for k, v in env.items())
                if 'export.foo' in cfg:
                    one['exports'] = penv.get('FOO') == str(cfg['export.foo'][0])
            if c.kind == 'ssh':
                key = json.dumps(rest)
                sent = {}
                if key not in seen:
                    got = remote_words(rest, os.path.basename(exe))
                    if got is not None:
                        sent, args = got
                        want = env if 'env' in c.flags else {}
                        good = sent == {k: v for k, v in want.items()}
                        rsite = os.path.join(home, 'remote')
                        for sub in ('lib/task', 'log', 'etc', 'run'):
                            os.makedirs(os.path.join(rsite, sub), exist_ok=True)
                        cenv = {**env, **{k: '' for k in ()}} if 'env' in c.flags and good else {'HYPERSHELL_SITE': rsite, 'HYPERSHELL_CONFIG_FILE': '', 'HYPERSHELL_LOGGING_LEVEL': 'CRITICAL', **sent}
                        if 'env' in c.flags:
                            cenv.update(HYPERSHELL_CONFIG_FILE='', HYPERSHELL_SITE=rsite)
                        seen[key] = (good, args and recorded(args, cenv, '', home))
                    else:
                        seen[key] = (False, None)
                one['vars'], got = seen[key]
            elif rest and rest[0] == exe:
                key = json.dumps(rest)
                if key not in seen:
                    seen[key] = recorded(rest[1:], {k: v for k, v in penv.items() if k.startswith('HYPERSHELL')}, '', home)
                got = seen[key]
            else:
                got = None
            if got and got[1] and got[1]['rc'] == 0 and len(got[1]['clients']) == 1:
                one['ran'], one['client'] = True, got[1]['clients']
            ev['procs'].append(one)
            one['words'] = words
    return [ev]
