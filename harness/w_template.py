"""Template expansion by the real code, directly and through the submit command, on random templates and arguments."""
import os
import re
import math
import json
import random
import datetime
import subprocess
import plain

WORDS = ['a', 'file.txt', '/some/path/to/file.h5', 'x.tar.gz', '.hidden', '/a/.b/c', 'dir.d/name', 'dir.d/', '/', '//x', '/a//b.c',
         '..', '.', '-v', '12', '3.5', 'null', 'None', 'TRUE', 'false', '0', '-7', 'name.', '..x.y', 'a.b/c', 'αβ.γ', 'k=v', '100%',
         '@', 'a/b/', '///', '1e3', 'x/.y.z', 'é', 'q:r', '/usr/../etc/x.conf', 'a.b.', '[0]', '_', 'A,B']
SIMPLE = ['{}', '{.}', '{..}', '{/}', '{/-}', '{-}', '{+}', '{++}']
LAMBDA = ['x', 'x + 1', 'x == 12', 'str(x).upper()', 'path.basename(x)', 'math.sqrt(x)', 'x != 3', 'x >= 2', 'type(x).__name__',
          "os.path.join(x, 'y')", 'dt.timedelta(seconds=x)', 'x * math.pi', "str(x).split('=')[0]", 'x if x else "none"',
          'round(math.exp(x), 3)', 'x is None', 'not x', 'int(x) % 5 == 2', 'undefined', '1 +', "str(x)[::-1]", 'x <= 5 or x == 12']
SHELL = ['basename @', 'echo @ | tr a-z A-Z', 'printf %s.%s @ b', 'date -u -d 2020-01-01 +%F', 'echo $(( 3 + 4 ))', 'false', 'exit 3',
         'echo "@ @"', 'printf "100%%"', 'dirname @', 'echo one; echo two', 'nosuchcommand_x', 'echo "" ', 'echo @ 1>&2', 'true', 'printf "  %s  " @',
         'printf "\\t@\\n\\n"']
WRONG = ['{x}', '{0}', '{...}', '{//}', '{[a]}', '{[0}', '{[1.5]}', '{[0]x}', '{[]}', '{[1:2:3:4]}', '{[1-2]}', '{+-}', '{%}', '{=}', '{args}',
         '{[0:1,2]}', '{[::0]}', '{[1 2]}', '{-+}', '{=x}', '{%ls}', '{[--1]}']
TEXT = ['', ' ', 'echo ', 'x', ' > out.', '/', '-', '}', ' "', "'", 'a }b', '\t', '$', '\\', '%', '=', '[0]', 'é', '@', '.', '# ']


def start():
    plain.setup()


def coerce(text):
    if text.lower() in ('null', 'none'):
        return None
    if text.lower() in ('true', 'false'):
        return text.lower() == 'true'
    for kind in (int, float):
        try:
            return kind(text)
        except ValueError:
            pass
    return text


def table(template, lines):
    """What the lambda and shell patterns of a template yield."""
    tab = {}
    for m in re.finditer('{([^}]*)}', template):
        key = m[1].strip()
        if len(key) < 2 or key[0] not in '=%' or key[-1] != key[0]:
            continue
        tab[key] = {}
        for a in lines:
            try:
                if key[0] == '=':
                    got = str(eval(key[1:-1].strip(), {'os': os, 'path': os.path, 'math': math, 'dt': datetime, 'x': coerce(a)}))
                else:
                    got = subprocess.run(['sh', '-c', key[1:-1].replace('@', a)], check=True, stdout=subprocess.PIPE,
                                         stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL).stdout.decode().strip()
                tab[key][a] = {'ok': True, 's': got}
            except Exception:   # noqa: any failure of the expression is one
                tab[key][a] = {'ok': False, 's': ''}
    return tab


def num(rng):
    return rng.choice(['', '', '0', '1', '2', '3', '-1', '-2', '-3', '5', '-9', '12'])


def part(rng, wrong=0.04, code=True, shell=True):
    r = rng.random()
    if r < wrong:
        return rng.choice(WRONG)
    if r < 0.45:
        return rng.choice(SIMPLE)
    if r < 0.75 or not code:
        k = rng.choice([1, 1, 2, 2, 3])
        if k == 1:
            return '{[' + (num(rng) or '0') + ']}'
        p = [num(rng) for _ in range(k)]
        if k == 3 and p[2] == '0' and rng.random() < 0.9:
            p[2] = '2'
        return '{[' + ':'.join(p) + ']}'
    sp = rng.choice(['', ' ', ' '])
    if r < 0.9 or not shell:
        return '{=' + sp + rng.choice(LAMBDA) + sp + '=}'
    return '{%' + sp + rng.choice(SHELL) + sp + '%}'


def template(rng, wrong=0.04, **kw):
    k = rng.choice([0, 1, 1, 1, 2, 2, 3])
    return ''.join(rng.choice(TEXT) + part(rng, wrong, **kw) for _ in range(k)) + rng.choice(TEXT)


def arguments(rng):
    words = [rng.choice(WORDS) for _ in range(rng.choice([1, 1, 1, 1, 2, 3, 4, 6]))]
    return ''.join(w + rng.choice([' ', ' ', '  ', '\t']) for w in words).strip()


def do_expand(rng):
    from hypershell.core.template import Template
    t, a = template(rng), arguments(rng)
    if '%' in t:
        a = a.replace("'", '')
    try:
        with open(os.devnull, 'w') as null:
            saved = os.dup(2)
            os.dup2(null.fileno(), 2)
            try:
                ok, got = True, Template(t).expand(a)
            finally:
                os.dup2(saved, 2)
                os.close(saved)
    except Exception:   # noqa: an error is an answer
        ok, got = False, ''
    return {'e': 'expand', 't': t, 'args': a, 'tab': table(t, [a]), 'ok': ok, 's': got}


def submit(path, tmpl, extra):
    from hypershell.submit import SubmitApp
    return SubmitApp.main([path, '-t', tmpl, *extra])


def do_submit(rng, k):
    import sqlite3
    lines = [arguments(rng) for _ in range(rng.choice([1, 2, 3, 5, 8]))]
    t = template(rng, wrong=0.1)
    while t.startswith('-'):
        t = template(rng)
    db = os.environ['HYPERSHELL_DATABASE_FILE']
    path = os.path.join(plain.SCRATCH, 'tasks.in')
    with open(path, 'w', newline='') as f:
        for ln in lines:
            f.write(rng.choice(['', '', ' ', '\t']) + ln + rng.choice(['', '', '  ', '\t']) + rng.choice(['\n', '\n', '\n', '\r\n']))
    extra = rng.choice([[], ['-b', '2'], ['-b', '3', '-w', '1']])
    rc, out, err, res = plain.forked(lambda: submit(path, t, extra), timeout=40)
    rc = res if rc == 0 and isinstance(res, int) else rc
    got = []
    if os.path.exists(db):
        con = sqlite3.connect(db)
        try:
            got = [r[0] for r in con.execute('select args from task order by submit_time, rowid')]
        except sqlite3.OperationalError:
            pass
        con.close()
        os.unlink(db)
    return {'e': 'submit', 't': t, 'lines': lines, 'tab': table(t, lines), 'got': got, 'rc': -99 if rc is None else rc, 'err': err[-400:] if rc else ''}


def run(job):
    rng = random.Random(job['seed'])
    events = [do_expand(rng) for _ in range(job.get('expand', 40))]
    events += [do_submit(rng, k) for k in range(job.get('submit', 1))]
    return json.loads(json.dumps(events))
