"""Task search, update and listing commands of the real code, run on tables of a scratch database."""
import csv
import io
import json
import os
import random
import sqlite3
import time
from datetime import datetime
import plain

EPOCH = datetime(2024, 1, 1)
TEXT = ['args', 'submit_id', 'submit_host', 'server_id', 'server_host', 'client_id', 'client_host', 'command', 'outpath',
        'errpath', 'previous_id', 'next_id']
INT = ['exit_status', 'attempt', 'waited', 'duration']
TIME = ['submit_time', 'schedule_time', 'start_time', 'completion_time']
COLS = ['id', 'args', 'submit_id', 'submit_time', 'submit_host', 'server_id', 'server_host', 'schedule_time', 'client_id',
        'client_host', 'command', 'start_time', 'completion_time', 'exit_status', 'outpath', 'errpath', 'attempt', 'retried',
        'waited', 'duration', 'previous_id', 'next_id', 'tag']
WORDS = ['echo 1', 'echo 10', 'Echo 1', 'ls -l', 'a/b.txt', 'a/b.csv', 'x.20230627.gz', 'x.20230627.gz.bak', 'it\'s "q"',
         'a,b', 'αβγ', '10', '9', 'null1', '= 5', 'x=5', 'echo 1 ', 'run %d', 'a%b', 'a_b']
HOSTS = ['node1', 'node10', 'node2', 'NODE1', 'a.b.c', 'h-1']
TAGKEYS = ['site', 'n', 'part', 'flag', 'v1.2', 'a-b', 'site2']
TAGVALS = ['b', 'q', 'b2', '', 1, 0, 2, 10, True, False, 1.5, 'x.y', 3.0]


def start():
    plain.setup()
    import sqlalchemy, sqlalchemy.orm, sqlalchemy.dialects.sqlite    # noqa
    import hypershell.task, hypershell.data    # noqa
    rc, out, err, _ = plain.forked(lambda: hypershell.data.initdb())
    if rc:
        raise RuntimeError(err)


def db():
    con = sqlite3.connect(os.environ['HYPERSHELL_DATABASE_FILE'])
    con.execute('pragma synchronous=off')
    return con


# ---- values ---------------------------------------------------------------------------------------------
def val(v):
    """A python value (never a time) as a value of the specification; the rank of text is filled in later."""
    if v is None:
        return {'k': 'n', 'i': 0, 's': ''}
    if isinstance(v, bool):
        return {'k': 'b', 'i': int(v), 's': ''}
    if isinstance(v, int):
        return {'k': 'i', 'i': v, 's': ''}
    if isinstance(v, float):
        return {'k': 'f', 'i': 0, 's': repr(v)}
    if not isinstance(v, str):
        return {'k': '?', 'i': 0, 's': json.dumps(v)}
    return {'k': 's', 'i': 0, 's': v}


def secs(v):
    if v is None:
        return val(None)
    try:
        t = datetime.fromisoformat(v)
        if t.tzinfo is not None:
            t = t.astimezone().replace(tzinfo=None)
        return {'k': 't', 'i': int((t - EPOCH).total_seconds()), 's': ''}
    except (ValueError, TypeError):
        return {'k': '?', 'i': 0, 's': str(v)}


def typed(field, v):
    if field in TIME:
        return secs(v)
    if field == 'retried' and v in (0, 1):
        return val(bool(v))
    if field == 'tag':
        d = v if isinstance(v, dict) else json.loads(v)
        return {k: val(x) for k, x in d.items()}
    return val(v)


def rows_now():
    con = db()
    try:
        out = {}
        for r in con.execute(f'select {",".join(COLS)} from task'):
            row = dict(zip(COLS, r))
            out[row['id']] = {f: typed(f, row[f]) for f in COLS if f != 'id'}
        return out
    finally:
        con.close()


def ranks(events):
    """Fill in the ranks of all texts of a trace."""
    texts, spots = set(), []

    def walk(x):
        if isinstance(x, dict):
            if set(x) == {'k', 'i', 's'}:
                if x['k'] == 's':
                    texts.add(x['s'])
                    spots.append(x)
            else:
                for y in x.values():
                    walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(events)
    order = {t: n for n, t in enumerate(sorted(texts, key=lambda t: t.encode()), 1)}
    for x in spots:
        x['i'] = order[x['s']]
    return events


# ---- making tables and commands ---------------------------------------------------------------------------
def uid(rng):
    h = '%032x' % rng.getrandbits(128)
    return f'{h[:8]}-{h[8:12]}-4{h[13:16]}-a{h[17:20]}-{h[20:]}'


def make_table(rng):
    n = rng.choice([0, 1, 3, 6, 9, 14, 25]) if rng.random() < 0.98 else rng.choice([103, 160, 230])
    ids = [uid(rng) for _ in range(n)]
    cl, sv, sb = [uid(rng) for _ in range(2)], [uid(rng) for _ in range(2)], uid(rng)
    rows = []
    for k, i in enumerate(ids):
        kind = rng.choice(['new', 'new', 'sched', 'done', 'done', 'fail', 'fail', 'cancel'])
        at = 60_000_000 + rng.randrange(50) * 100
        row = dict.fromkeys(COLS)
        row.update(id=i, args=rng.choice(WORDS).strip(), submit_id=sb, submit_time=at, submit_host=rng.choice(HOSTS + [None]),
                   attempt=rng.choice([1, 1, 2, 3]), retried=0,
                   tag={rng.choice(TAGKEYS): rng.choice(TAGVALS) for _ in range(rng.choice([0, 0, 1, 2, 3]))})
        if kind in ('sched', 'done', 'fail'):
            c = rng.randrange(2)
            row.update(schedule_time=at + rng.choice([1, 5, 30]), server_id=sv[c], server_host=HOSTS[c], client_id=cl[c],
                       client_host=rng.choice(HOSTS))
        if kind == 'cancel':
            row.update(schedule_time=at + 7, exit_status=-1)
        if kind in ('done', 'fail'):
            w, d = rng.choice([0, 2, 9, 10, 100]), rng.choice([0, 5, 9, 10, 59, 60, 61, 600])
            row.update(command=row['args'], start_time=row['schedule_time'] + w, completion_time=row['schedule_time'] + w + d,
                       exit_status=0 if kind == 'done' else rng.choice([1, 2, 9, 10, 127, -9, -15]), waited=w, duration=d)
            if rng.random() < 0.3:
                row.update(outpath=f'/x/{i}.out', errpath=f'/x/{i}.err')
            row['retried'] = int(kind == 'fail' and rng.random() < 0.4)
        if k and rng.random() < 0.2 and not any(r['previous_id'] == ids[k - 1] for r in rows):
            row['previous_id'] = ids[k - 1]
            rows[k - 1]['next_id'] = i
        rows.append(row)
    return rows


def stamp(n):
    return None if n is None else datetime.fromtimestamp(EPOCH.timestamp() + n).strftime('%Y-%m-%d %H:%M:%S.000000')


def store(rows):
    con = db()
    con.execute('delete from task')
    for r in rows:
        r = dict(r)
        for f in TIME:
            r[f] = stamp(r[f])
        r['tag'] = json.dumps(r['tag'])
        con.execute(f'insert into task ({",".join(COLS)}) values ({",".join("?" * len(COLS))})', [r[f] for f in COLS])
    con.commit()
    con.close()


def pick_text(rng, rows, f):
    have = [r[f] for r in rows if r[f]]
    base = {'args': WORDS, 'submit_host': HOSTS, 'server_host': HOSTS, 'client_host': HOSTS}.get(f, ['zz'])
    return rng.choice(have) if have and rng.random() < 0.75 else rng.choice(base).strip()


def make_regex(rng, text):
    """A random expression derived from a text; (its notation, its parts)."""
    a = rng.randrange(len(text) + 1)
    b = rng.randrange(a, min(len(text), a + 6) + 1)
    atoms, out = [], ''
    for ch in text[a:b]:
        r = rng.random()
        if r < 0.2:
            c, s, t = 'any', [], '.'
        elif r < 0.3:
            s = sorted({ch, rng.choice('abc019')} - set('^]\\-[')) or ['a']
            c, t = 'in', '[' + ''.join(s) + ']'
        elif r < 0.38:
            s = sorted(set(rng.sample('qzw7', 2)))
            c, t = 'out', '[^' + ''.join(s) + ']'
        else:
            c, s, t = 'in', [ch], ('\\' + ch if ch in '.^$*+?{}[]\\|()' else ch)
        q = rng.choice(['1', '1', '1', '1', '*', '+', '?'])
        atoms.append({'c': c, 's': s, 'q': q})
        out += t + ('' if q == '1' else q)
    head, tail = rng.random() < 0.25, rng.random() < 0.35
    out = ('^' if head else '') + out + ('$' if tail else '')
    return out, {'atoms': atoms, 'start': head, 'end': tail}


NOREX = {'atoms': [], 'start': False, 'end': False}


def make_cond(rng, rows):
    f = rng.choice(INT + INT + ['args', 'args', 'submit_host', 'client_host', 'server_host', 'command', 'client_id', 'retried',
                                'previous_id', 'schedule_time', 'completion_time', 'exit_status', 'id'])
    pad = rng.choice([' ', ' ', '', '  '])
    if f in TIME or rng.random() < 0.12:
        if f == 'id':
            f = 'command'
        op = rng.choice(['==', '!='])
        word = rng.choice(['null', 'None', 'none', 'NULL'])
        return f'{f}{pad}{op}{pad}{word}', {'f': f, 'op': op, 'v': val(None), 're': NOREX}
    if f == 'retried':
        op, b = rng.choice(['==', '!=']), rng.random() < 0.5
        return f'{f}{pad}{op}{pad}{str(b).lower()}', {'f': f, 'op': op, 'v': val(b), 're': NOREX}
    if f in INT:
        op = rng.choice(['==', '!=', '<', '<=', '>', '>='])
        have = [r[f] for r in rows if r[f] is not None]
        v = rng.choice(have) if have and rng.random() < 0.8 else rng.choice([0, 1, 9, 10, 60, -9])
        return f'{f}{pad}{op}{pad}{v}', {'f': f, 'op': op, 'v': val(v), 're': NOREX}
    text = pick_text(rng, rows, f)
    if rng.random() < 0.35 and text:
        out, re_ = make_regex(rng, text)
        if out and not out[0].isspace() and out.lower() not in ('null', 'none'):
            return f'{f}{pad}~{pad}{out}', {'f': f, 'op': '~', 'v': val(''), 're': re_}
    op = rng.choice(['==', '!=', '<', '<=', '>', '>='])
    if not pad and text[:1] == '=':
        pad = ' '
    return f'{f}{pad}{op}{pad}{text}', {'f': f, 'op': op, 'v': val(text), 're': NOREX}


def word_of(v):
    return str(v).lower() if isinstance(v, bool) else str(v)


def make_select(rng, rows, plain_order=True):
    """Options which select tasks: (argv, description)."""
    argv, q = [], dict(conds=[], tags=[], alias='', order='', desc=False, limit=-1)
    most = len(rows) > 100 and rng.random() < 0.8
    conds = [make_cond(rng, rows) for _ in range(0 if most else rng.choice([0, 0, 1, 1, 2, 3]))]
    if conds:
        argv += ['-w' if rng.random() < 0.7 else '--where', *[c for c, _ in conds]]
        q['conds'] = [c for _, c in conds]
    for key in rng.sample(TAGKEYS, 0 if most else rng.choice([0, 0, 0, 1, 1, 2])):
        have = [r['tag'][key] for r in rows if key in r['tag']]
        if rng.random() < 0.35:
            word, t = key + rng.choice(['', '', ':']), dict(key=key, any=True, v=val(None))
        else:
            v = rng.choice(have) if have and rng.random() < 0.8 else rng.choice(TAGVALS)
            word = f'{key}:{word_of(v)}'
            t = dict(key=key, any=v == '' and isinstance(v, str), v=val(v))
        argv += [rng.choice(['-t', '--with-tag']), word] if not q['tags'] else [word]
        q['tags'].append(t)
    if rng.random() < (0.05 if most else 0.3):
        q['alias'] = rng.choice(['failed', 'succeeded', 'completed', 'remaining'])
        argv.append({'failed': rng.choice(['-F', '--failed']), 'succeeded': rng.choice(['-S', '--succeeded']),
                     'completed': rng.choice(['-C', '--completed']), 'remaining': rng.choice(['-R', '--remaining'])}[q['alias']])
    if rng.random() < (0.85 if most else 0.5):
        q['limit'] = rng.choice([0, 1, 2, 3, 5, 8, 100]) if plain_order else rng.choice([1, 2, 3, 5, 8, 100])
        if len(rows) > 100:
            q['limit'] = rng.choice([70, 101, 130, 199, 205, 300])
        argv += [rng.choice(['-l', '--limit']), str(q['limit'])]
    if rng.random() < 0.6 and (plain_order or q['limit'] > 0):
        q['order'] = rng.choice(INT + TIME + ['args', 'submit_host', 'command', 'retried', 'client_host'])
        argv += [rng.choice(['-s', '--order-by']), q['order']]
        if rng.random() < 0.5:
            q['desc'] = True
            argv.append('--desc')
    return argv, q


# ---- running commands ----------------------------------------------------------------------------------------
def app(kind, argv, stdin=''):
    from hypershell import task

    def go():
        return {'search': task.TaskSearchApp, 'update': task.TaskUpdateApp, 'info': task.TaskInfoApp}[kind].main([str(a) for a in argv])
    rc, out, err, res = plain.forked(go, stdin=stdin)
    return (res if rc == 0 and isinstance(res, int) else rc if rc else 0), out, err


DEVICES = ('json', 'yaml')


def do_info(rng, rows):
    r = rng.random()
    if r < 0.08 or not rows:
        what, uuid = 'unknown', uid(rng)
    elif r < 0.16:
        what, uuid = 'malformed', rng.choice(['5', 'abc', rows[0]['id'] + 'a', rows[0]['id'][1:], 'g' + rows[0]['id'][1:]])
    else:
        what, uuid = 'known', rng.choice(rows)['id']
    got, rc = {}, 0
    if what != 'known' or rng.random() < 0.3:
        fmt = rng.choice(DEVICES)
        argv = [uuid, *rng.choice([['-f', fmt], [f'--{fmt}']])]
        rc, out, err = app('info', argv)
        if rc == 0:
            import yaml
            got = {f: typed(f, v) for f, v in (json.loads(out) if fmt == 'json' else yaml.safe_load(out)).items()}
            if got.pop('id', {}).get('s') != uuid or set(got) != set(COLS) - {'id'}:
                rc = 99
    else:
        f = rng.choice(COLS[1:])
        argv = [uuid, '-x', f]
        if f == 'tag':
            argv += ['--json']
        rc, out, err = app('info', argv)
        if rc == 0:
            got = {f: typed(f, parse_plain(f, out[:-1] if out.endswith('\n') else out))}
    return {'e': 'info', 'argv': argv, 'what': what, 'id': uuid, 'rc': rc, 'got': got}


def parse_plain(f, x):
    if f == 'tag' or f in INT or f == 'retried':
        return json.loads(x)
    return None if x == 'null' else x


def do_search(rng, rows):
    argv, q = make_select(rng, rows)
    names = ['id'] + rng.sample([c for c in COLS if c != 'id'], rng.choice([0, 1, 3, 5, 22]))
    if rng.random() < 0.15:
        rc, out, err = app('search', [*(['-c'] if rng.random() < 0.5 else ['--count']), *argv])
        n = int(out) if out.strip().isdigit() else -1
        return {'e': 'count', 'argv': argv, 'rc': rc, 'n': n, **q}
    before = rows_now()
    fmt = rng.choice(['json', 'json', 'csv', 'plain', 'table', 'normal'])
    if fmt == 'table' and len(names) > 1:
        fmt = 'json'
    if fmt == 'normal':
        rc, out, err = app('search', [*argv, '--format=normal'])
        ids = [ln.split(':', 1)[1].strip() for ln in out.splitlines() if ln.startswith('          id: ')]
        vals = []
    else:
        rc, out, err = app('search', [*names, *argv, f'--format={fmt}'])
        ids, vals = [], []
        if rc == 0 and fmt == 'json':
            recs = json.loads(out)
        elif rc == 0 and fmt == 'csv':
            lines = list(csv.reader(io.StringIO(out, newline='')))
            recs = [{f: parse_plain(f, x) for f, x in zip(lines[0], ln)} for ln in lines[1:]]
        elif rc == 0 and fmt == 'plain':
            recs = [{f: parse_plain(f, x) for f, x in zip(names, ln.split('\t'))} for ln in out.splitlines()]
        else:
            recs = [{'id': ln.strip(' ┃│|')} for ln in out.splitlines() if len(ln.strip(' ┃│|')) == 36]
        for r in recs:
            ids.append(r.pop('id'))
            vals.append({f: typed(f, v) for f, v in r.items()})
        if [set(v) for v in vals] != [set(names) - {'id'}] * len(vals) and fmt in ('json', 'csv', 'plain'):
            rc = 99
    return {'e': 'search', 'argv': argv, 'rc': rc, 'ids': ids, 'vals': vals, 'same': rows_now() == before, **q}


def do_list(rng, rows):
    if rng.random() < 0.5:
        rc, out, err = app('search', ['--tag-keys'])
        return {'e': 'keys', 'list': out.splitlines(), 'rc': rc}
    key = rng.choice(TAGKEYS)
    rc, out, err = app('search', [key, '--tag-values'])
    return {'e': 'values', 'key': key, 'list': out.splitlines(), 'rc': rc}


def do_update(rng, rows):
    argv, q = make_select(rng, rows, plain_order=False)
    rc0, out, err = app('search', ['id', '--json', *argv])
    found = [r['id'] for r in json.loads(out)] if rc0 == 0 else []
    u = dict(assign={}, settag={}, rmtag=[], act='', invalid=False, answer='')
    pos = []
    what = rng.choice(['field', 'tag', 'rm', 'act', 'act', 'field+tag', 'field+tag', 'tag+rm', 'all', 'act+tag', 'bad', 'legacy'])
    if what == 'legacy' and not rows:
        what = 'field'
    if what == 'legacy':
        row = rng.choice(rows)
        f, word, v = rng.choice([('args', 'new args', 'new args'), ('exit_status', '-10', -10), ('duration', '77', 77),
                                 ('command', 'null', None), ('exit_status', 'null', None), ('retried', 'true', True),
                                 ('tag', 'site:zz', None), ('tag', 'part', None)])
        if f == 'tag':
            k, _, w = word.partition(':')
            u['settag'] = {k: val(w)}
        else:
            u['assign'] = {f: val(v)}
        q = dict(conds=[{'f': 'rid', 'op': '==', 'v': val(row['id']), 're': NOREX}], tags=[], alias='', order='', desc=False, limit=-1)
        argv, found, cmd = [], [row['id']], [row['id'], f, word]
    else:
        if 'field' in what or what == 'all':
            for f, word, v in rng.sample([('args', 'echo new', 'echo new'), ('args', 'a=b', 'a=b'), ('exit_status', '-10', -10),
                                          ('exit_status', '0', 0), ('exit_status', 'null', None), ('attempt', '7', 7),
                                          ('command', 'None', None), ('client_host', 'nodeX', 'nodeX'), ('retried', 'true', True),
                                          ('duration', '61', 61), ('schedule_time', 'null', None), ('submit_host', '5', '5'),
                                          ('waited', '3', 3), ('retried', 'false', False)], rng.choice([1, 1, 2])):
                if f not in u['assign']:
                    u['assign'][f] = val(v)
                    pos.append(f'{f}={word}')
        if 'tag' in what or what == 'all':
            for k in rng.sample(TAGKEYS, rng.choice([1, 1, 2])):
                v = rng.choice(TAGVALS)
                u['settag'][k] = val(v)
                pos.append(f'{k}:{word_of(v)}')
        if what in ('rm', 'tag+rm', 'all'):
            u['rmtag'] = rng.sample(TAGKEYS, rng.choice([1, 2]))
        if what in ('act', 'act+tag'):
            u['act'] = rng.choice(['cancel', 'revert', 'delete'])
        if what == 'bad':
            u['invalid'] = True
            pos = [rng.choice(['exit_status=1', 'site:ok', 'n:3']) if rng.random() < 0.4 else 'attempt=1',
                   rng.choice(['id=5', 'nofield=3', 'x:a b', 'x:a;b', 'x:' + 'y' * 121, 'justaword', 'attempt==3', 'x: y!', 'x:a:b'])]
            if rng.random() < 0.3:
                pos.insert(0, 'flag:')
        rng.shuffle(pos)
        u['answer'] = rng.choice(['', '', '', 'y', 'yes', 'YES', 'n', 'no', 'maybe', ' ', 'yep', 'yesno', 'ok'])
        cmd = [*pos, *argv]
        if u['rmtag']:
            cmd += ['--remove-tag', *u['rmtag']]
        if u['act']:
            cmd.append('--' + u['act'])
        if not u['answer']:
            cmd.append(rng.choice(['-f', '--no-confirm']))
    t0 = int(time.time() - EPOCH.timestamp()) - 1
    rc, out, err = app('update', cmd, stdin=(u['answer'] + '\n') if u['answer'] else '')
    t1 = int(time.time() - EPOCH.timestamp()) + 1
    return {'e': 'update', 'argv': cmd, 'rc': rc, 'found': found, 'after': rows_now(), 't0': t0, 't1': t1,
            'err': err[-300:] if rc else '', **q, **u}


def raw_rows(now):
    """Rows as python data again, for making the next command."""
    out = []
    for i, r in now.items():
        row = {f: (None if v['k'] == 'n' else v['s'] if v['k'] == 's' else v['i']) for f, v in r.items() if f != 'tag'}
        row['tag'] = {k: (v['s'] if v['k'] == 's' else float(v['s']) if v['k'] == 'f' else bool(v['i']) if v['k'] == 'b' else v['i'])
                      for k, v in r['tag'].items()}
        out.append({'id': i, **row})
    return out


def run(job):
    rng = random.Random(job['seed'])
    store(make_table(rng))
    now = rows_now()
    events = [{'e': 'table', 'rows': now}]
    for _ in range(job.get('steps', 8)):
        rows = raw_rows(rows_now())
        kind = rng.choice(job.get('kinds') or ['search'])
        ev = {'search': do_search, 'list': do_list, 'update': do_update, 'info': do_info}[kind](rng, rows)
        events.append(ev)
    for ev in events:       # identifiers are a field like any other
        for rows in (ev.get('rows'), ev.get('after')):
            for i, r in (rows or {}).items():
                r['rid'] = val(i)
        for c in ev.get('conds', ()):
            if c['f'] == 'id':
                c['f'] = 'rid'
    return json.loads(json.dumps(ranks(json.loads(json.dumps(events)))))
