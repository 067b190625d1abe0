"""Sessions of submissions by the real commands and library calls: from files, standard input and iterables, alone, at once, cut short."""
import os
import json
import time
import random
import sqlite3
import plain
from w_template import table

TEMPLATES = ['{}', '{}', '{}', 'run {} now', 'cp {} {/}', '{-.}', '{[1]} {[0]}', ' {} ', 'x', '{++}']
WRONG = ['{x}', '{[a]}', '{0}']
NAMES = ['site', 'n', 'a.b', 'flag', 'x-y', 'Group', 'é', 'a b', '1', 'id']
VALUES = ['b', 'x.y', '12', '-3', '+5', '007', '0', '3.5', '-0.25', 'true', 'False', 'TRUE', 'null', 'None', '', ' ', 'A_b-c+d', '2024-05-06',
          '12x', '1.2.3', 'nullx', 'y' * 120, ' 7 ', '--', '1234567890123']
BADV = ['a b', 'x;y', 'y' * 121, 'a:b', 'x!', 'a/b', 'é', '"q"', '10:30']


def start():
    plain.setup()
    import hypershell.submit, hypershell.task, hypershell.data    # noqa


def tags(rng):
    out = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5, 7])):
        name = rng.choice(NAMES)
        r = rng.random()
        if r < 0.25:
            out.append(rng.choice(['', ' ']) + name)
        elif r < 0.95:
            out.append(name + rng.choice([':', ':', ': ', ' :']) + rng.choice(VALUES))
        else:
            out.append(name + ':' + rng.choice(BADV))
    return out


def line(rng, mark):
    words = [rng.choice(['a', 'file.txt', '/some/dir/f.h5', '12', 'x=1', 'αβ', "'q'", '#c', '--opt', 'k', '-1', '3.0', 'true', '@', '%s', '\\n', '$HOME'])
             for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    return ' '.join([mark, *words]) if rng.random() < 0.8 or not words else rng.choice(['  ', ' ']).join(words)


def one(rng, mark):
    """A submission to be made."""
    sub = dict(how=rng.choice(['file', 'file', 'stdin', 'lib', 'lib', 'libfile', 'task']), tags=tags(rng),
               t=rng.choice(WRONG if rng.random() < 0.04 else TEMPLATES), cut=False, missing=False)
    if sub['how'] == 'task':
        sub['lines'] = [line(rng, mark)]
        sub['t'] = '{}'
    else:
        n = rng.choice([0, 1, 2, 3, 5, 8, 8, 40, 250])
        sub['lines'] = [line(rng, f'{mark}.{i}') for i in range(n)] if rng.random() < 0.9 or not n else \
            [rng.choice(['same', '', 'x']) for _ in range(n)]
        sub['bs'] = rng.choice([None, 1, 2, 3, 10, 100])
        sub['bw'] = rng.choice([None, None, 1, 5])
        if n > 8:
            sub['bs'] = rng.choice([7, 10, 100])
    return sub


def perform(rng, sub):
    """fn() which makes the submission, and its standard input."""
    pad = random.Random(rng.random())
    text = ''.join(pad.choice(['', '', ' ', '\t']) + ln + pad.choice(['', '', '  ', '\t']) + pad.choice(['\n', '\n', '\n', '\r\n'])
                   for ln in sub['lines'])
    if text and sub['lines'][-1] and pad.random() < 0.3:
        text = text.rstrip('\r\n')
    path = os.path.join(plain.SCRATCH, f'tasks-{sub["no"]}.in')
    with open(path, 'w', newline='') as f:
        f.write(text)
    opts = []
    if sub['how'] in ('file', 'stdin'):
        for o, k in (('-b', 'bs'), ('-w', 'bw')):
            if sub[k] is not None:
                opts += [o, str(sub[k])]
        if sub['t'] != '{}' or pad.random() < 0.3:
            opts += ['-t', sub['t']]
        if pad.random() < 0.2:
            opts += ['--initdb']
    kw = {k: v for k, v in (('bundlesize', sub.get('bs')), ('bundlewait', sub.get('bw'))) if v is not None}

    def go():
        from hypershell.submit import SubmitApp, submit_from, submit_file
        from hypershell.task import TaskSubmitApp, Tag
        from hypershell.data import ensuredb
        if sub['how'] in ('file', 'stdin'):
            argv = ([path] if not sub['missing'] else [path + '.no']) if sub['how'] == 'file' else pad.choice([[], ['-']])
            tag = ['--tag', *sub['tags']] if sub['tags'] or pad.random() < 0.1 else []
            app = [*argv, *opts, *tag] if argv or not tag else [*opts, *tag]
            return {'rc': SubmitApp.main(app), 'count': -1}
        if sub['how'] == 'task':
            argv = sub['lines'][0].split(' ')
            tag = ['--tag', *sub['tags']] if sub['tags'] else []
            return {'rc': TaskSubmitApp.main([*tag, '--', *argv]), 'count': -1}
        ensuredb()
        tag = Tag.parse_cmdline_list(sub['tags'])
        if sub['how'] == 'lib':
            kind = pad.choice([list, iter, lambda x: (y for y in x)])
            n = submit_from(kind([ln if pad.random() < 0.7 else f' {ln}\n' for ln in sub['lines']]), template=sub['t'], tags=tag or None, **kw)
        else:
            n = submit_file(path, template=sub['t'], tags=tag or None, **kw)
        return {'rc': 0, 'count': n}
    return go, text


def tagval(v):
    if v is None:
        return 'n:'
    if isinstance(v, bool):
        return f'b:{str(v).lower()}'
    if isinstance(v, int):
        return f'i:{v}'
    if isinstance(v, float):
        return f'f:{v!r}'
    return f's:{v}' if isinstance(v, str) else f'?:{v!r}'


def rows():
    db = os.environ['HYPERSHELL_DATABASE_FILE']
    if not os.path.exists(db):
        return []
    con = sqlite3.connect(db, timeout=20)
    con.row_factory = sqlite3.Row
    out = []
    try:
        got = con.execute('select * from task order by submit_time, rowid').fetchall()
    except sqlite3.OperationalError as exc:
        if 'no such table' not in str(exc):
            raise
        got = []
    con.close()
    for r in got:
        out.append(dict(id=r['id'], args=r['args'], sid=r['submit_id'], host=r['submit_host'] or '', attempt=r['attempt'],
                        retried=bool(r['retried']), tags={k: tagval(v) for k, v in json.loads(r['tag'] or '{}').items()},
                        others=sorted(k for k in r.keys() if r[k] is not None and k not in
                                      ('id', 'args', 'submit_id', 'submit_host', 'submit_time', 'attempt', 'retried', 'tag')),
                        time=r['submit_time']))
    return out


def run(job):
    import socket
    rng = random.Random(job['seed'])
    no = 0
    events = []
    db = os.environ['HYPERSHELL_DATABASE_FILE']
    for x in (db, db + '-journal', db + '-wal', db + '-shm'):
        if os.path.exists(x):
            os.unlink(x)
    for step in range(job.get('steps', 4)):
        kind = rng.choice(['one', 'one', 'one', 'many', 'cut'])
        subs = [one(rng, f'{step}{c}') for c in 'abc'[:rng.choice([2, 3]) if kind == 'many' else 1]]
        if kind == 'many' and not os.path.exists(db):
            subs = subs[:1]     # tables are created by whoever comes first
        if len(subs) > 1:
            for s, c in zip(subs, 'abc'):      # which tells them apart
                s['tags'] = [*s['tags'], 'who:' + c]
        if kind == 'cut':
            s = subs[0]
            s.update(how=rng.choice(['file', 'stdin', 'lib', 'libfile']), cut=True, bs=rng.choice([1, 3, 10, 50]), bw=None, t=rng.choice(['{}', 'run {}']),
                     lines=[f'{step}z.{i}' for i in range(rng.choice([200, 600]))])
        elif len(subs) == 1 and subs[0]['how'] == 'file' and rng.random() < 0.06:
            subs[0]['missing'] = True
        for s in subs:
            s['no'] = no
            no += 1
        before = time.time()
        plans = [perform(rng, s) for s in subs]
        done = []
        if len(subs) == 1:
            limit = rng.choice([0.05, 0.1, 0.2, 0.3, 0.5]) if subs[0]['cut'] else 60
            done.append(plain.forked(plans[0][0], stdin=plans[0][1], timeout=limit))
        else:
            done = together(plans)
        after = rows()
        for s, (rc, out, err, res) in zip(subs, done):
            s['rc'] = -99 if rc is None else rc if rc else (res or {}).get('rc') or 0
            s['count'] = (res or {}).get('count', -1)
            s['out'] = out.strip()
            s['tab'] = {}
            s.pop('bs', None), s.pop('bw', None)
        events.append({'e': 'submit', 'subs': subs, 'rows': after, 'host': socket.gethostname()})
        del before
    times = sorted({r['time'] for e in events for r in e['rows']})
    at = {t: i for i, t in enumerate(times)}
    for e in events:
        for r in e['rows']:
            r['time'] = at[r['time']]
    # only what is new, and whether the rest is as it was
    seen = {}
    for e in events:
        e['kept'] = all(any(r == x for x in e['rows']) for r in seen.values()) if len(seen) < 50 else \
            seen == {r['id']: r for r in e['rows'] if r['id'] in seen}
        e['ids'] = len({r['id'] for r in e['rows']}) == len(e['rows'])
        new = [r for r in e['rows'] if r['id'] not in seen]
        seen = {r['id']: r for r in e['rows']}
        e['rows'] = new
    return json.loads(json.dumps(events))


def together(plans):
    """Several submissions at once, each in a process of its own."""
    import threading
    here = plain.SCRATCH
    out = [None] * len(plans)
    pids = []
    for k, (fn, text) in enumerate(plans):
        pid = os.fork()
        if pid == 0:
            plain.SCRATCH = os.path.join(here, f'sub{k}')
            os.makedirs(plain.SCRATCH, exist_ok=True)
            res = plain.forked(fn, stdin=text, timeout=60)
            with open(os.path.join(here, f'sub{k}.json'), 'w') as f:
                json.dump(res, f)
            os._exit(0)
        pids.append(pid)
    for k, pid in enumerate(pids):
        os.waitpid(pid, 0)
        path = os.path.join(here, f'sub{k}.json')
        with open(path) as f:
            out[k] = tuple(json.load(f))
        os.unlink(path)
    return out
