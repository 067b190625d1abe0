"""Configuration files, environment variables and the config commands of the real code."""
import os
import re
import sys
import json
import random
import shutil
import tomllib
import builtins
import compileall
import importlib
import plain

# path -> (kind of values, ...)
KNOWN = {
    'server.port': 'int', 'server.bind': 'str', 'server.auth': 'str', 'server.eager': 'bool', 'server.evict': 'int', 'server.wait': 'num',
    'server.attempts': 'count', 'server.bundlesize': 'int', 'server.queuesize': 'int', 'client.heartrate': 'num', 'client.timeout': 'num',
    'client.bundlewait': 'num', 'submit.bundlesize': 'int', 'submit.bundlewait': 'num', 'task.cwd': 'str', 'task.timeout': 'num',
    'task.signalwait': 'num', 'database.provider': 'sqlite', 'database.file': 'str',
    'autoscale.size.init': 'int', 'autoscale.size.min': 'int', 'autoscale.size.max': 'int',
    'autoscale.factor': 'num', 'autoscale.policy': 'str', 'autoscale.launcher': 'str', 'console.theme': 'str', 'ssh.args': 'str',
    'ssh.nodelist.mycluster': 'list', 'ssh.nodelist.other': 'list', 'export.foo': 'str', 'export.path': 'list', 'export.bar_baz': 'str',
    'logging.datefmt': 'str', 'logging.format': 'format', 'logging.style': 'style', 'database.connection_args.x': 'int',
}
STYLES = ['default', 'system', 'detailed', 'detailed-compact', 'Detailed', 'SYSTEM']
FORMATS = ['%(message)s', '%(levelname)s "%(message)s" %%', '[%(name)s] # %(message)s']
STRS = ['abc', '', 'a b', 'with "quotes"', "it's", 'C:\\path\\new', 'tab\there', 'x=1', '# no comment', '[section]', 'a.b', 'αβγ', '日本',
        '/some/path', 'line1\nline2', '%Y-%m-%d', 'echo "$HOME"', '"', "''", '{a}', '12', 'true', '1.5', 'null', ' lead', 'trail ', '1,2',
        '\\', '"""', 'a\\"b', '\x1b[0m', '[[x]]', 'x # y', '2024-05-06', '0x1f', '10:30:00', 'inf']
SETS = ['abc', '', 'a b', 'with "quotes"', "it's", 'C:\\path\\new', 'x=1', '# no comment', '[section]', 'a.b', 'αβγ', '/some/path', '12', '-3',
        '0', '1.5', '2.0', 'true', 'FALSE', 'True', '1e3', 'line1\nline2', '"', '\\', 'a\\"b', 'x # y', '2024-05-06', '0x1f', 'tab\there',
        'infinite', '007', '1_000', ' 5', '+4', '-0.5', '99999999999', '"""', 'trail ', '-x']
TEXTS = [t for t in SETS if '\n' not in t] + ['null', 'NULL', '']
EVALS = [('echo hi', 'hi'), ('printf "a b"', 'a b'), ('echo "x y  z"; true', 'x y  z'), ('echo $((1+2))', '3'), ('printf "secret\\n"', 'secret')]
COMMENTS = ['# a comment', '#', '# server.port = 9', '# [database]', '# "quoted" and \'single\'', '# αβγ']


def start():
    plain.setup()
    # everything but the code under test (which loads its configuration as it is imported)
    def needed():
        import hypershell   # noqa
        return [m for m in sys.modules if not m.startswith('hypershell')]
    rc, out, err, names = plain.forked(needed)
    if rc:
        raise RuntimeError(err)
    for name in names:
        try:
            importlib.import_module(name)
        except ImportError:
            pass
    compileall.compile_dir(os.path.join(plain.REPO, 'src'), quiet=2)    # below the scratch directory (PYTHONPYCACHEPREFIX)
    for style in sorted({x.lower() for x in STYLES}):
        rc, out, err, _ = plain.forked(lambda: format_of(style))
        STYLE_FORMATS[style] = out[:-1]
        if rc or not out.strip():
            raise RuntimeError(err)


STYLE_FORMATS = {}


def format_of(style):
    os.environ.update(HYPERSHELL_CONFIG_FILE='', HYPERSHELL_LOGGING_STYLE=style)
    import hypershell
    sys.argv = ['hs', 'config', 'get', 'logging.format', '-r']
    sys.exit(hypershell.main())


def value(v):
    """Kind and text of a value, the text as it is shown."""
    if v is None:
        return {'k': 'null', 's': 'null'}
    if isinstance(v, bool):
        return {'k': 'bool', 's': 'true' if v else 'false'}
    if isinstance(v, str):
        return {'k': 'str', 's': str(v)}
    if isinstance(v, int):
        return {'k': 'int', 's': str(int(v))}
    if isinstance(v, float):
        return {'k': 'float', 's': repr(float(v))}
    return {'k': 'list', 's': json.dumps(list(v)), 'j': ':'.join(str(x) for x in v)}


def number(text):
    for kind in (int, float):
        try:
            return kind(text)
        except ValueError:
            pass


def coerce(text, env):
    """What the text of a command line argument or environment variable stands for."""
    low = text.lower()
    if low in (('', 'null') if env else ('null', 'none')):
        return None
    if low in ('true', 'false'):
        return low == 'true'
    n = number(text)
    return text if n is None else n


def leaves(tree, at=()):
    out = []
    for k, v in tree.items():
        out += leaves(v, at + (k,)) if isinstance(v, dict) else [{'p': list(at + (k,)), 'v': value(v)}]
    return out


def pick(rng, kind):
    return {'int': lambda: rng.choice([0, 1, 2, 7, 50123, -1, 10 ** 10]), 'bool': lambda: rng.random() < 0.5,
            'num': lambda: rng.choice([0, 1, 5, 30, 0.5, 2.25, 1e-3, 600]), 'str': lambda: rng.choice(STRS),
            'list': lambda: rng.sample(['n-01', 'n-02', '/bin', 'x y', 'a"b', ''], rng.randint(0, 3)),
            'style': lambda: rng.choice(STYLES), 'count': lambda: rng.randint(1, 9), 'format': lambda: rng.choice(FORMATS), 'sqlite': lambda: 'sqlite'}[kind]()


def quote(rng, text):
    if "'" not in text and rng.random() < 0.3 and not re.search(r'[\x00-\x08\x0a-\x1f]', text):
        return f"'{text}'"
    return json.dumps(text, ensure_ascii=False).replace('\x7f', '\\u007f')


def literal(rng, v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, str):
        return quote(rng, v)
    if isinstance(v, list):
        if len(v) > 1 and rng.random() < 0.3:
            return '[\n    ' + ',\n    '.join(quote(rng, x) for x in v) + rng.choice(['', ',']) + '\n]'
        return '[' + ', '.join(quote(rng, x) for x in v) + ']'
    return repr(v)


def make_file(rng, tree):
    """TOML text of a tree of settings, in one of many styles; and the comment lines in it."""
    comments, lines = [], []

    def remark():
        if rng.random() < 0.3:
            c = rng.choice(COMMENTS) + f' {len(comments)}'
            comments.append(c)
            lines.append(c)
        if rng.random() < 0.2:
            lines.append('')

    def section(path, tree):
        plain_, subs = [], []
        for k, v in tree.items():
            (subs if isinstance(v, dict) else plain_).append((k, v))
        if plain_ or rng.random() < 0.3 or not subs:
            remark()
            if lines and rng.random() < 0.7:
                lines.append('')
            lines.append('[' + '.'.join(path) + ']' + rng.choice(['', '', '  # section']))
        for k, v in plain_:
            remark()
            tail = rng.choice(['', '', '', '  # note'])
            lines.append(f'{k}{rng.choice([" = ", " = ", "="])}{literal(rng, v)}{tail}')
        for k, v in subs:
            section(path + (k,), v)
    remark()
    tops = list(tree.items())
    rng.shuffle(tops)
    for k, v in tops:
        section((k,), v)
    remark()
    return '\n'.join(lines) + rng.choice(['\n', '\n', '']), comments


def make_tree(rng, n, only=None):
    tree = {}
    for p in rng.sample(sorted(only or KNOWN), min(n, len(only or KNOWN))):
        *secs, name = p.split('.')
        d = tree
        for s in secs:
            d = d.setdefault(s, {})
        kind = KNOWN[p]
        if kind == 'str' and rng.random() < 0.15 and p.startswith(('database.', 'server.', 'autoscale.')):
            if rng.random() < 0.5:
                d[name + '_env'] = rng.choice(['MY_SECRET', 'MY_OTHER', 'MY_UNSET'])
            else:
                d[name + '_eval'] = rng.choice(EVALS)[0]
        else:
            d[name] = pick(rng, kind)
    return tree


def redirect(real):
    """The system file is looked for below the scratch directory."""
    name = '/etc/hypershell.toml'

    def swap(fn):
        def inner(path, *args, **kwargs):
            return fn(real if isinstance(path, (str, os.PathLike)) and os.fspath(path) == name else path, *args, **kwargs)
        return inner
    builtins.open = swap(builtins.open)
    import io
    io.open = builtins.open
    os.path.exists, os.path.isfile, os.stat = swap(os.path.exists), swap(os.path.isfile), swap(os.stat)
    os.access = swap(os.access)


def run(job):
    rng = random.Random(job['seed'])
    home = os.path.join(plain.SCRATCH, 'h')
    shutil.rmtree(home, ignore_errors=True)
    site = os.path.join(home, 'site')
    for d in (site, os.path.join(home, '.hypershell'), os.path.join(home, 'etc')):
        os.makedirs(d)
    files = {'system': os.path.join(home, 'etc', 'hypershell.toml'), 'user': os.path.join(home, '.hypershell', 'config.toml'),
             'local': os.path.join(site, 'config.toml')}
    mode = rng.choice(['all', 'all', 'all', 'all', 'only', 'none'])
    if mode == 'only':
        files['local'] = os.path.join(home, 'etc', 'special.toml')
    # few settings are used often, so that they meet in several sources
    focus = rng.sample(sorted(KNOWN), rng.choice([3, 6, 12, len(KNOWN)]))
    if 'logging.style' not in focus and rng.random() < 0.3:
        focus += ['logging.style', 'logging.format']
    comments, trees = {}, {}
    init = {}
    for name, path in files.items():
        comments[name] = []
        if rng.random() < 0.75:
            trees[name] = make_tree(rng, rng.choice([0, 1, 3, 6, 12]), focus)
            text, comments[name] = make_file(rng, trees[name])
            assert tomllib.loads(text) == trees[name], text
            with open(path, 'w') as f:
                f.write(text)
        init[name] = leaves(trees.get(name, {}))
    env = {}
    for p in focus:
        if rng.random() < 0.2 and '_' not in p and KNOWN[p] != 'list':
            t = rng.choice({'style': STYLES, 'format': FORMATS, 'sqlite': ['sqlite'], 'count': ['1', '3']}.get(KNOWN[p], TEXTS))
            if p == 'console.theme':
                continue
            env['HYPERSHELL_' + '_'.join(p.upper().split('.'))] = t
    for name, text in (('FOO', 'x y'), ('Bar_Baz', '1.0'), ('N', '007'), ('lower_case', '/a:/b'), ('E', '')):
        if rng.random() < 0.3:
            env['HYPERSHELL_EXPORT_' + name] = text
    env['HYPERSHELL_SITE'] = site
    if mode != 'all':
        env['HYPERSHELL_CONFIG_FILE'] = files['local'] if mode == 'only' else ''
    others = {'MY_SECRET': 's3cret', 'MY_OTHER': 'a "b" c'}

    def child(argv=None, alone=False):
        for key in list(os.environ):
            if key.startswith('HYPERSHELL'):
                del os.environ[key]
        os.environ.update(env)
        os.environ.update(others)
        os.environ['HOME'] = home
        if alone:
            for key in env:
                del os.environ[key]
            os.environ.update(HYPERSHELL_CONFIG_FILE='', HYPERSHELL_SITE=site)
        os.chdir(home)
        redirect(files['system'])
        if argv is not None:
            import hypershell
            sys.argv = ['hs', *argv]
            sys.exit(hypershell.main())
        from hypershell.core.config import config, load_task_env
        out, seen = [], set()

        def walk(ns, at):
            for k, v in ns.items():
                if isinstance(v, dict):
                    walk(v, at + (k,))
                    continue
                for ext in ('_env', '_eval'):
                    k = k[:-len(ext)] if k.endswith(ext) else k
                if at + (k,) in seen:
                    continue
                seen.add(at + (k,))
                try:
                    got = {'ok': True, 'v': value(getattr(ns, k))}
                except Exception as exc:   # noqa
                    got = {'ok': False, 'v': {'k': 'error', 's': str(exc)}}
                out.append({'p': list(at + (k,)), **got})
        walk(config, ())
        return {'leaves': out, 'export': {k: str(v) for k, v in load_task_env().items()}}

    errors = []

    def hs(*argv):
        rc, out, err, _ = plain.forked(lambda: child(argv), timeout=60)
        if rc:
            errors.append(f'{argv}: {err[-400:]}')
        return (-99 if rc is None else rc), out, err

    first = {'e': 'init', 'mode': mode, 'files': init, 'env': {k: {'t': t, 'v': value(coerce(t, True))} for k, t in env.items()},
             'others': {k: value(v) for k, v in others.items()}, 'evals': {c: value(o) for c, o in EVALS}}
    rc, out, err, res = plain.forked(lambda: child(('config', 'get', '--default'), True), timeout=60)
    tree = tomllib.loads(out)
    first['defaults'] = [x for x in leaves(tree) if x['p'] != ['logging', 'format']]
    for p in (['task', 'timeout'], ['client', 'timeout']):
        first['defaults'].append({'p': p, 'v': value(None)})     # these have no value in TOML
    if not any(x['p'] == ['task', 'timeout'] for x in first['defaults']):
        raise RuntimeError('no defaults')
    first['styles'] = STYLE_FORMATS
    events = [first]

    def runtime():
        rc, out, err, res = plain.forked(lambda: child(), timeout=60)
        res = res or {'leaves': [], 'export': {}}
        if rc:
            errors.append(err[-400:])
        events.append({'e': 'runtime', 'rc': -99 if rc is None else rc, 'leaves': res['leaves'],
                       'export': {k: v for k, v in res['export'].items()}})

    def a_path():
        r = rng.random()
        p = rng.choice(focus)
        if r < 0.1:
            return rng.choice(sorted(KNOWN))
        if r < 0.15:
            return rng.choice(['server.nothing', 'nosection.x', 'autoscale.size.other', 'database.connection_args.y'])
        if r < 0.25:
            return rng.choice([p + '_env', p + '_eval'])
        return p

    def get(p=None, where=None, x=None):
        p = p or a_path()
        where = where or (rng.choice(['user', 'local', 'system', 'default']) if rng.random() < 0.25 else '')
        if mode == 'none' and where == 'local':
            where = ''
        x = rng.random() < 0.25 if x is None else x
        rc, out, err = hs('config', 'get', p, *(['-x'] if x else []), *([f'--{where}'] if where else []), *(['-r'] if rng.random() < 0.5 else []))
        events.append({'e': 'get', 'p': p.split('.'), 'where': where, 'x': x, 'rc': rc, 'out': out[:-1] if out.endswith('\n') else out,
                       'there': os.path.exists(files[where]) if where in files else True})

    runtime()
    for _ in range(job.get('steps', 6)):
        what = rng.choice(['set', 'set', 'get', 'get', 'which', 'section', 'runtime'])
        if what == 'get':
            get()
        elif what == 'which':
            p = a_path()
            rc, out, err = hs('config', 'which', p, '--site')
            events.append({'e': 'which', 'p': p.split('.'), 'rc': rc, 'out': out.strip()})
        elif what == 'section':
            p = rng.choice(sorted({q.rsplit('.', 1)[0] for q in focus} | {'.'}))
            if '.' in p and p != '.':
                p = p.split('.')[0]
            rc, out, err = hs('config', 'get', p)
            try:
                got = leaves(tomllib.loads(out))
            except tomllib.TOMLDecodeError as exc:
                got = [{'p': [], 'v': {'k': 'error', 's': str(exc)}}]
            events.append({'e': 'section', 'p': p.split('.') if p != '.' else [], 'rc': rc, 'leaves': got, 'raw': out[:2000]})
        elif what == 'runtime':
            runtime()
        else:
            p = a_path()
            where = rng.choice(['user', 'local', 'user'])
            if mode == 'none':
                where = 'user'
            if p.endswith(('_env', '_eval')) or KNOWN.get(p) == 'list':
                continue
            text = rng.choice({'style': STYLES, 'format': FORMATS, 'sqlite': ['sqlite'], 'count': ['1', '3']}.get(KNOWN.get(p), SETS))
            # both variants of the same option in one file exclude each other
            *secs, name = p.split('.')
            d = trees.get(where, {})
            for s in secs:
                d = d.get(s, {})
            if f'{name}_env' in d or f'{name}_eval' in d or p == 'console.theme':
                continue
            rc, out, err = hs('config', 'set', p, *([] if where == 'user' and rng.random() < 0.5 else [f'--{where}']), *(['--'] if text.startswith('-') else []), text)
            events.append({'e': 'set', 'p': p.split('.'), 'where': where, 'v': value(coerce(text, False)), 't': text, 'rc': rc})
            for name, path in files.items():
                if not os.path.exists(path):
                    events.append({'e': 'file', 'where': name, 'leaves': [], 'kept': True, 'ok': True})
                    continue
                with open(path) as f:
                    text = f.read()
                try:
                    got, ok = leaves(tomllib.loads(text)), True
                except tomllib.TOMLDecodeError:
                    got, ok = [], False
                have = text.split('\n')
                events.append({'e': 'file', 'where': name, 'leaves': got, 'ok': ok,
                               'kept': all(any(c == h or h.endswith(c) for h in have) for c in comments[name])})
            if rng.random() < 0.7:
                get(p, where if rng.random() < 0.4 else '', False)
    runtime()
    if errors:
        events.append({'e': 'note', 'errors': errors[:5]})
    return events
