"""The database the real code works on: what its settings make of it, and what initialising and truncating do to its contents."""
import os
import sys
import json
import random
import shutil
import sqlite3
import compileall
import importlib
import plain

NAMES = ['me', 'Some.One', 'a b', 'p@ss', 'with/slash', 'co:lon', 'per%cent', '%41', 'ha#sh', 'quest?ion', 'plus+', 'am&p=x', 'ünï', 'x' * 40,
         'back\\slash', '[br]', "quo'te", 'semi;colon', '$HOME', '12345', '007', 'true']
PLAIN = ['me', 'you', 'Some.One', 'user_1']
HOSTS = ['localhost', 'db.example.com', '10.1.2.3', 'node-1']
DATABASES = ['main', 'hyper_shell', 'tasks-2', 'a.b']
FILES = ['task.db', 'with space.db', 'üñ.db', 'at@home.db', 'per%41cent.db', 'ha#sh.db', 'plus+.db', 'quest?ion.db', "quo'te.db", 'a&b=c.db', 'co:lon.db']
EXTRA = [('client_encoding', 'utf8'), ('application_name', 'my app'), ('sslmode', 'require'), ('options', '-c a=b&c'), ('x', '1')]
ANSWERS = ['', 'y', 'Y', 'yes', 'Yes', 'YES', ' y ', '\t', 'n', 'N', 'no', 'No', ' no', 'x', 'ye', 'yess', 'nope', 'on', '0', '1', 'true', 'sure', 'y n', 'o']


def start():
    plain.setup()
    for key in list(os.environ):
        if key.startswith('HYPERSHELL_DATABASE'):
            del os.environ[key]

    def needed():
        os.environ['HYPERSHELL_DATABASE_FILE'] = os.path.join(plain.SCRATCH, 'needed.db')
        os.environ['HYPERSHELL_CONFIG_FILE'] = ''
        import hypershell   # noqa
        import psycopg2     # noqa
        import sqlalchemy.dialects.sqlite, sqlalchemy.dialects.postgresql   # noqa
        return [m for m in sys.modules if not m.startswith('hypershell')]
    rc, out, err, names = plain.forked(needed)
    if rc:
        raise RuntimeError(err)
    for name in names:
        try:
            importlib.import_module(name)
        except ImportError:
            pass
    compileall.compile_dir(os.path.join(plain.REPO, 'src'), quiet=2)


def text(v):
    """A value as TOML (basic strings share their escapes with JSON)."""
    return json.dumps(v, ensure_ascii=False)


def pick(rng, p, values):
    return rng.choice(values) if rng.random() < p else None


def settings(rng):
    """What is set: name -> value; None: not at all."""
    provider = rng.choice(['sqlite'] * 4 + ['postgres'] * 5 + ['postgresql'] * 4 + ['mysql', 'oracle', 'SQLite', 'Postgres', 'sqlite3', ''])
    f = dict(provider=provider)
    if provider == 'sqlite' and rng.random() < 0.85:
        f['file'] = pick(rng, 0.85, ['', ':memory:'] + FILES * 3)
        f['database'] = pick(rng, 0.25, ['', ':memory:'] + FILES)
        for k in ('user', 'password', 'host', 'port'):
            f[k] = pick(rng, 0.03, ['x'])
    else:
        f['file'] = pick(rng, 0.05, ['x.db'])
        f['database'] = pick(rng, 0.95, DATABASES)
        both = rng.random() < 0.6
        f['user'] = rng.choice(NAMES) if both or rng.random() < 0.1 else None
        f['password'] = rng.choice(NAMES) if both and rng.random() < 0.95 or rng.random() < 0.05 else None
        f['host'] = pick(rng, 0.5, HOSTS)
        f['port'] = pick(rng, 0.4, [5432, 5433, 1, 65535])
        f['schema'] = pick(rng, 0.3, ['public', 'mine', 'My Schema'])
        for k, v in EXTRA:
            f[k] = pick(rng, 0.12, [v])
    return {k: v for k, v in f.items() if v is not None}


def written(rng, f, via):
    """(lines of the [database] section, environment) which say the same."""
    lines, env, extra = [], {}, {}
    for k, v in f.items():
        how = rng.random()
        if via == 'env' and plainly(v) and '_' not in k:   # variables are taken apart at underscores
            env['HYPERSHELL_DATABASE_' + k.upper()] = str(v)
        elif k != 'provider' and how < 0.25 and plainly(v):
            extra['VERIF_' + k.upper()] = str(v)
            lines.append(f'{k}_env = {text("VERIF_" + k.upper())}')
        elif k != 'provider' and how < 0.4 and isinstance(v, str) and v and v == v.strip() and "'" not in v:
            lines.append(f'{k}_eval = {text("printf %s " + chr(39) + v + chr(39))}')
        else:
            lines.append(f'{k} = {text(v)}')
    rng.shuffle(lines)
    return lines, env, extra


def plainly(v):
    """Does this look the same after having been taken from the environment?"""
    if isinstance(v, int):
        return True
    return bool(v) and not v.lower() in ('true', 'false', 'null') and not v[0].isdigit() and v == v.strip()


def imported(env, lines, cwd, fn):
    """fn in a process which has this environment and configuration."""
    site = os.path.join(plain.SCRATCH, 'dbsite')
    os.makedirs(os.path.join(site, 'log'), exist_ok=True)
    with open(os.path.join(site, 'only.toml'), 'w') as f:
        f.write('\n'.join(['[database]', *lines]) + '\n')

    def child():
        os.environ.update(env, HYPERSHELL_SITE=site, HYPERSHELL_CONFIG_FILE=os.path.join(site, 'only.toml'))
        os.chdir(cwd)
        return fn()
    return plain.forked(child)


def engine(rng, box):
    f = settings(rng)
    via = rng.choice(['file', 'file', 'env'])
    lines, env, extra = written(rng, f, via)
    args = {}
    if f['provider'] == 'sqlite' and rng.random() < 0.3:
        args = dict(timeout=rng.choice([1, 3, 70]))
        lines += ['[database.connection_args]', *[f'{k} = {v}' for k, v in args.items()]]

    def look():
        from hypershell.data.core import engine, schema, in_memory
        from hypershell.data.model import Task, Client
        u = engine.url
        busy, where = '~', '~'
        if u.drivername == 'sqlite' and args:
            c = engine.raw_connection()
            busy = str(c.cursor().execute('pragma busy_timeout').fetchone()[0] // 1000)
        if u.drivername == 'sqlite':
            c = engine.raw_connection()
            c.cursor().execute('create table if not exists probe (x int)')
            where = '*' if in_memory else c.cursor().execute('pragma database_list').fetchone()[2]
            where = os.path.relpath(where, os.path.realpath('.')) if where not in ('*', '') else '*'
        s = lambda x: '~' if x is None else str(x)  # noqa
        return dict(driver=u.drivername, user=s(u.username), password=s(u.password), host=s(u.host), port=s(u.port), database=s(u.database),
                    query={k: s(v) for k, v in u.query.items()}, schema=s(schema), tables=[s(Task.__table__.schema), s(Client.__table__.schema)],
                    memory=in_memory, busy=busy, where=where)
    rc, out, err, got = imported({**env, **extra}, lines, box, look)
    known = {'provider', 'file', 'database', 'user', 'password', 'host', 'port', 'schema'}
    return dict(e='engine', set={k: str(v) for k, v in f.items() if k in known}, more={k: str(v) for k, v in f.items() if k not in known},
                busy=str(args.get('timeout', '~')), st=-1 if rc is None else rc, got=got or {}, said=bool(err.strip()),
                how=dict(lines=lines, env={**env, **extra}, err=err[-300:]))


def contents(path):
    """Number of tasks and clients, and whether anything else is in the file."""
    if not os.path.exists(path):
        return dict(tasks='none', clients='none', sig='')
    c = sqlite3.connect(path)
    try:
        tables = {x[0] for x in c.execute("select name from sqlite_master where type = 'table'")}
        sig = ''
        out = {}
        for name, key in (('task', 'tasks'), ('client', 'clients')):
            if name in tables:
                rows = sorted(map(repr, c.execute(f'select * from {name}')))
                out[key], sig = str(len(rows)), sig + repr(rows)
            else:
                out[key] = 'none'
        import hashlib
        return dict(**out, sig=hashlib.md5(sig.encode()).hexdigest() if sig else '')
    finally:
        c.close()


def initdb(rng, box):
    """A history of one database: filled, initialised, truncated."""
    path = os.path.join(box, rng.choice(['task.db', 'with space.db']))
    memory = rng.random() < 0.08
    lines = [rng.choice([f'file = {text(path)}'] * 3 + ['file_env = "VERIF_FILE"', f'file_eval = {text("echo " + chr(39) + path + chr(39))}'])]
    if memory:
        lines = rng.choice([[], ['file = ":memory:"'], ['file = ""']])
    events = [dict(e='new', memory=memory)]
    for _ in range(rng.choice([3, 4, 6])):
        what = rng.choice(['fill', 'init', 'init', 'init', 'init', 'submit', 'server', 'cluster'] if not memory else ['init', 'init', 'server', 'cluster'])
        before = contents(path)
        opts, answer, tty, n = [], None, False, 0
        if what == 'init':
            opts = rng.choice([[], [], ['--truncate'], ['-t'], ['--truncate', '--yes'], ['-t', '-y'], ['--yes'], ['-ty'],
                               ['--truncate'], ['-t'], ['--truncate'], ['--truncate']])
            tty = rng.random() < 0.85
            answer = rng.choice(ANSWERS + ['', 'y', 'n', None])
        elif what in ('server', 'cluster'):
            opts = ['tasks.in', *rng.choice([[], ['--no-db'], ['--no-db'], ['--initdb'], ['--no-db', '--no-confirm']])]
        else:
            n = rng.choice([1, 2, 5])

        def act():
            import hypershell
            if what == 'init':
                if tty:
                    sys.stdout.isatty = lambda: True
                sys.argv = ['hs', 'initdb', *opts]
                return hypershell.main()
            if what == 'submit':
                with open('tasks.in', 'w') as f:
                    f.write(''.join(f'echo {i}\n' for i in range(n)))
                sys.argv = ['hs', 'submit', 'tasks.in', *(['--initdb'] if rng.random() < 0.5 else [])]
                return hypershell.main()
            if what in ('server', 'cluster'):
                # what they do before they start
                ran = []
                from hypershell import server, cluster
                server.serve_from = lambda **kw: ran.append(kw)
                cluster.run_local = lambda **kw: ran.append(kw)
                open('tasks.in', 'w').close()
                sys.argv = ['hs', what, *opts]
                return hypershell.main() or (0 if len(ran) == 1 and ran[0]['in_memory'] == ('--no-db' in opts) else 99)
            from hypershell.data.model import Task, Client
            from hypershell.data import ensuredb
            ensuredb()
            tasks = [Task.new(args=f'echo {i}') for i in range(n)]
            for t in tasks[:n // 2]:
                t.exit_status = rng.choice([0, 1])
            Task.add_all(tasks)
            Client.add_all([Client.new(id=t.id, host='h', server_id='s', server_host='h') for t in tasks[:n // 2]])
            return 0
        rc, out, err, res = imported({'VERIF_FILE': path}, lines, box, act) if answer is None or what != 'init' else \
            with_input(answer + '\n', {'VERIF_FILE': path}, lines, box, act)
        events.append(dict(e=what, n=n, clients=n // 2 if what == 'fill' else 0, trunc=any(o in ('--truncate', '-t', '-ty') for o in opts),
                           yes=any(o in ('--yes', '-y', '-ty') for o in opts), tty=tty, nodb='--no-db' in opts, answer='~' if answer is None else answer.strip().lower(),
                           st=-1 if rc is None else (rc or res or 0), before=before, after=contents(path), said=bool(err.strip()),
                           how=dict(opts=opts, answer=str(answer), out=out[-200:], err=err[-300:])))
    return events


def with_input(answer, env, lines, cwd, fn):
    keep = plain.forked
    try:
        plain.forked = lambda f: keep(f, stdin=answer)
        return imported(env, lines, cwd, fn)
    finally:
        plain.forked = keep


def run(job):
    rng = random.Random(job['seed'])
    box = os.path.join(plain.SCRATCH, f'box{job["seed"]}')
    os.makedirs(box)
    try:
        events = []
        if job['kind'] == 'engine':
            for _ in range(job.get('steps', 6)):
                events.append(engine(rng, box))
        else:
            events += initdb(rng, box)
        return events
    finally:
        shutil.rmtree(box, ignore_errors=True)
