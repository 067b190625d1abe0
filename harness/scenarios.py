"""
Scenario families: each builds, from a seed, one run of the real server and clients (plain JSON data, so that a
failing run can be saved and replayed).
"""
import random

POLICIES = ['random', 'random', 'pct', 'sticky', 'rr']


def server(**kw):
    return {**dict(src=None, gaps={}, bs=1, bw=5, retries=0, eager=False, forever=False, restart=False, noconfirm=False,
                   inmem=False, evict=600, redirect=False, qs=1), **kw}


def client(name, **kw):
    return {**dict(name=name, start=0, n=1, bs=1, bw=5, hr=10, timeout=None, limit=None, sw=10, capture=False,
                   noconfirm=False, template='{}', delay=0), **kw}


def names(k, prefix='t'):
    return [f'{prefix}{i:02d}' for i in range(1, k + 1)]


def base(seed, rng, **kw):
    policy = rng.choice(POLICIES)
    sc = dict(seed=seed, policy=policy, step_ms=[0, 1], horizon=3_600_000, max_steps=30_000)
    if rng.random() < 0.25:
        sc['policy'] = 'starve'
        sc['victim'] = rng.choice(['scheduler', 'receiver', 'confirm', 'heartmonitor', 'collector', 'executor',
                                   'committer', 'loader', 'client-scheduler', 'server:main', 'heartbeat'])
    if random.Random(seed + 17).random() < 0.3:
        sc['hosts'] = False   # all on one host
    sc.update(kw)
    return sc


def durations(rng):
    return rng.choice([0, 200, 900, 1000, 1700, 3200, 6500])


def task_table(rng, args, retries, p_fail=0.3):
    table = {}
    for a in args:
        if rng.random() < p_fail:
            k = rng.randint(1, retries + 1)
            rows = [dict(dur=durations(rng), code=rng.choice([1, 2, 127, -9, -15])) for _ in range(k)]
            if rng.random() < 0.15:
                rows[0] = dict(fail_start=rng.choice(['null', 'os']), dur=0, code=-1)
            if rng.random() < 0.6:
                rows.append(dict(dur=durations(rng), code=0))
        else:
            rows = [dict(dur=durations(rng), code=0)]
        table[a] = rows
    return table


def clients(rng, k=None, **kw):
    k = k or rng.randint(1, 3)
    other = random.Random(repr(rng.getstate()))
    out = []
    for i in range(k):
        out.append(client(f'C{i + 1}', n=rng.choice([1, 1, 2, 3]), bs=rng.choice([1, 1, 2, 3, 5]),
                          bw=rng.choice([1, 2, 5]), hr=rng.choice([1, 3, 10]),
                          start=rng.choice([0, 0, 0, 400, 2600, 7000]) if i else 0,
                          capture=rng.random() < 0.15, **kw))
        if other.random() < 0.08:
            out[-1].update(bs=rng.choice([2, 3, 20]), bw=rng.choice([70, 100]))    # results are kept for long
        if other.random() < 0.08:
            out[-1].update(delay=other.choice([2, 4, -4]))    # asked to start later than it was launched
    return out


def basic(seed):
    """Ordinary runs: any bundle sizes, clients, executors, retries, order of events."""
    rng = random.Random(seed)
    k = rng.randint(1, 9)
    args = names(k)
    retries = rng.choice([0, 0, 1, 2])
    src_gaps = {str(rng.randrange(k)): rng.choice([500, 1500, 4000]) for _ in range(rng.randint(0, 2))}
    return base(seed, rng,
                server=server(src=args, gaps=src_gaps, bs=rng.choice([1, 1, 2, 3, 5]), bw=rng.choice([1, 2, 5]),
                              retries=retries, eager=rng.random() < 0.5, redirect=rng.random() < 0.5,
                              qs=rng.choice([1, 1, 1, 2])),
                clients=clients(rng), tasks=task_table(rng, args, retries))


def source(seed):
    """Slow, bursty and idle sources; submission buffering."""
    rng = random.Random(seed)
    k = rng.randint(1, 8)
    args = names(k)
    gaps = {str(rng.randrange(k)): rng.choice([100, 2500, 6000, 12_000, 20_000]) for _ in range(rng.randint(1, 3))}
    if rng.random() < 0.6:
        gaps['end'] = rng.choice([3000, 9000, 25_000])
    if random.Random(seed + 37).random() < 0.15:
        args[-1] = ''       # blank lines
    return base(seed, rng,
                server=server(src=args, gaps=gaps, bs=rng.choice([1, 2, 3, 5, 20]), bw=rng.choice([1, 2, 5, 8]),
                              retries=rng.choice([0, 1]), inmem=False),
                clients=clients(rng, k=1), tasks=task_table(rng, args, 1, 0.2))


def retry(seed):
    """Many failures, several attempts, both modes."""
    rng = random.Random(seed)
    k = rng.randint(2, 8)
    args = names(k)
    retries = rng.choice([1, 1, 2, 3])
    sc = base(seed, rng,
              server=server(src=args, bs=rng.choice([1, 2, 3, 4]), bw=1, retries=retries, eager=rng.random() < 0.5,
                            redirect=rng.random() < 0.3),
              clients=clients(rng, k=rng.randint(1, 2)), tasks=task_table(rng, args, retries, 0.7))
    if random.Random(seed + 29).random() < 0.3:
        for c in sc['clients']:
            c['template'] = 'run {} now'
    if rng.random() < 0.3:
        # tagged tasks left by an earlier run
        sc['server'].update(src=None, restart=True)
        sc['preset'] = [dict(args=a, kind=rng.choice(['new', 'new', 'fail', 'sched']), sub=-100_000 + 1000 * i,
                             tag=rng.choice([{}, {'site': 'b'}, {'n': 3, 'x': 'y'}])) for i, a in enumerate(args)]
        rng.shuffle(sc['preset'])
    return sc


def bulk(seed):
    """Many tasks in flight at once: large bundles, recovery of more than a hundred tasks."""
    rng = random.Random(seed)
    k = rng.randint(101, 135)
    args = [f'{i:03d}' for i in range(1, k + 1)]
    how = rng.choice(['plain', 'evict', 'restart', 'crash', 'inmem'])
    bs = rng.choice([k, k + 20, 110])
    cl = [client('C1', n=rng.choice([8, 12]), bs=rng.choice([10, 40, 120]), bw=1, hr=3)]
    table = {'*': [dict(dur=rng.choice([0, 0, 300]), code=0)]}
    sc = base(seed, rng, server=server(src=args, bs=bs, bw=1, inmem=how == 'inmem', evict=20), clients=cl, tasks=table, faults=[])
    sc.update(step_ms=[0, 0], max_steps=60_000)
    if how == 'evict':
        table['*'][0]['dur'] = 60_000
        sc['faults'].append([['ev', 'start', rng.randint(1, 4)], ['kill', 'C1']])
        sc['faults'].append([['ev', 'kill', 1], ['client', client('C2', n=12, bs=40, bw=1, hr=3, start=rng.choice([100, 30_000]))]])
        table['*'] = [dict(dur=1000, code=0)]
        if rng.random() < 0.5:
            sc['faults'].insert(0, [['ev', 'cq_get', 1], ['kill', 'C1']])
            del sc['faults'][1]
    elif how == 'restart':
        sc['preset'] = [dict(args=a, kind=rng.choice(['sched', 'sched', 'sched', 'conf', 'new']) if i > 104 else
                             rng.choice(['sched', 'conf']), sub=-100_000 + 10 * i) for i, a in enumerate(args)]
        sc['server'].update(src=None, restart=True)
    elif how == 'crash':
        sc['faults'].append([['ev', rng.choice(['sq_get', 'start']), 1], ['kill', 'S']])
        sc['faults'].append([['ev', 'kill', 1], ['kill', 'C1']])
        sc['faults'].append([['ev', 'kill', 1], ['server', 'S2', server(restart=True, bs=bs, bw=1)]])
        sc['faults'].append([['ev', 'kill', 1], ['client', client('C2', n=12, bs=40, bw=1, hr=3, start=100)]])
    return sc


def long(seed):
    """The clock jumps ahead by hours or days while the system waits or tasks run."""
    rng = random.Random(seed)
    k = rng.randint(2, 5)
    args = names(k)
    sc = base(seed, rng, server=server(src=args, bs=rng.choice([1, 2, 3]), bw=rng.choice([1, 5]), retries=rng.choice([0, 1]),
                                       evict=900_000, inmem=rng.random() < 0.2),
              clients=clients(rng, k=rng.randint(1, 2)), tasks=task_table(rng, args, 1, 0.2), faults=[], horizon=1_500_000_000)
    for rows in sc['tasks'].values():
        rows[0]['dur'] = rows[0]['dur'] or 500
    ev = rng.choice(['start', 'start', 'src', 'sq_put', 'dq_put'])
    sc['faults'].append([['ev', ev, rng.randint(1, k)],
                         ['jump', rng.choice([3_700_000, 86_400_000 + 7000, 180_000_000, 400_000_000])]])
    return sc


def lost(seed):
    """A client dies after taking a bundle, before it could confirm that (a known finding)."""
    rng = random.Random(seed)
    sc = evict(seed)
    sc['horizon'] = 450_000
    sc['faults'] = [[['ev', 'sq_get', rng.randint(1, 2), {'p': 'C1'}], ['kill', 'C1']]]
    return sc


def silent(seed):
    """A client that stays silent for much longer than the eviction period, hours or days."""
    sc = evict(seed)
    rng = random.Random(seed)
    sc['horizon'] = 1_500_000_000
    sc['clients'] = sc['clients'][:1]
    sc['faults'] = [[['ev', rng.choice(['cq_get', 'start', 'exit']), rng.randint(1, 2)], ['kill', 'C1']],
                    [['ev', 'kill', 1], ['client', client('C2', n=2, bs=2, bw=1, hr=3, start=rng.choice([100, 40_000]))]],
                    [['ev', 'kill', 1], ['jump', rng.choice([86_400_000, 86_400_000 + 3000, 2 * 86_400_000 + 1000])]]]
    return sc


def preset_tasks(rng, k):
    """Rows of a database left behind by earlier runs (finished, failed, interrupted, cancelled, unscheduled)."""
    rows = []
    for i in range(k):
        kind = rng.choice(['new', 'new', 'done', 'fail', 'retried', 'sched', 'conf', 'cancel'])
        rows.append(dict(args=f'p{i:02d}', kind=kind, sub=-100_000 + 1000 * i))
        if rng.random() < 0.25:
            rows[-1]['tag'] = rng.choice([{'site': 'b'}, {'n': 3, 'x': 'y'}, {'bare': ''}])
    if rng.random() < 0.5:
        rng.shuffle(rows)       # order of insertion is not the order of submission
    return rows


def crash(seed):
    """The server dies at any point (also inside transactions); another one takes over the same database."""
    rng = random.Random(seed)
    k = rng.randint(1, 7)
    args = names(k)
    retries = rng.choice([0, 1, 1, 2])
    bs = rng.choice([1, 2, 3])
    eager = rng.random() < 0.5
    first = server(src=args, bs=bs, bw=1, retries=retries, eager=eager)
    again = server(restart=True, bs=rng.choice([1, 2, 3]), bw=1, retries=retries, eager=eager)
    sc = base(seed, rng, server=first, clients=clients(rng, k=rng.randint(1, 2)),
              tasks=task_table(rng, args, retries, 0.5), faults=[], horizon=900_000)
    if random.Random(seed + 23).random() < 0.2:
        again.update(restart=False, forever=True)
        for when in (150_000, 450_000):   # the second for a server which was started after the first
            sc['faults'].append([['t', when], ['signal', 'server', 10]])
        if random.Random(seed + 24).random() < 0.5:
            # everything submitted was scheduled when the first server died
            sc['faults'].append([['ev', 'sq_get', k if first['bs'] == 1 else -(-k // first['bs'])], ['kill', 'S']])
    capture = random.Random(seed + 25).random() < 0.3
    for c in sc['clients']:
        c['capture'] = capture
    deaths = rng.choice([1, 1, 1, 2])
    how = rng.random()
    if how < 0.6:
        sc['sqlkill'] = ['S', rng.randint(1, 25 + 14 * k)]
    elif how < 0.8:
        sc['faults'].append([['step', rng.randint(5, 60 + 40 * k)], ['kill', 'S']])
    else:
        ev = rng.choice(['sq_put', 'sq_get', 'dq_put', 'dq_get', 'cq_get', 'start', 'exit', 'db', 'src', 'hb_get'])
        sc['faults'].append([['ev', ev, rng.randint(1, 2 * k)], ['kill', 'S']])
    for d in range(deaths):
        name = f'S{d + 2}'
        sc['faults'].append([['ev', 'kill', d + 1], ['server', name, again]])
        sc['faults'].append([['ev', 'kill', d + 1], ['client', client(f'D{d + 1}', n=rng.randint(1, 3), bs=rng.choice([1, 2]),
                                                                    bw=1, start=rng.choice([10, 1500]), capture=capture)]])
        if d + 1 < deaths:
            sc['faults'].append([['ev', rng.choice(['sq_put', 'dq_get', 'db', 'exit']), rng.randint(3, 12 + 3 * k),
                                  {'p': name}], ['kill', name]])
    return sc


def evict(seed):
    """Clients which fall silent: killed, or stopped for a while and heard from again."""
    rng = random.Random(seed)
    k = rng.randint(2, 6)
    args = names(k)
    ev = rng.choice([10, 12, 20, 30])
    cl = [client('C1', n=rng.choice([1, 2]), bs=rng.choice([1, 2]), bw=1, hr=rng.choice([1, 3, 5])),
          client('C2', n=rng.choice([1, 2]), bs=rng.choice([1, 2]), bw=1, hr=rng.choice([1, 3, 5]))]
    sc = base(seed, rng, server=server(src=args, bs=rng.choice([1, 2, 3]), bw=1, retries=rng.choice([0, 1]), evict=ev),
              clients=cl, tasks={a: [dict(dur=rng.choice([500, 3000, 9000, 40_000, ev * 1500]), code=0)] for a in args},
              faults=[])
    how = rng.random()
    name = rng.choice(['C1', 'C2'])
    if how < 0.65:
        sc['faults'].append([['ev', rng.choice(['cq_put', 'start', 'exit', 'dq_put', 'hb_put']), rng.randint(1, 3), {'p': name}],
                             ['kill', name]])
    elif how < 0.85:
        sc['faults'].append([['ev', rng.choice(['cq_put', 'start']), 1, {'p': name}],
                             ['pause', name, rng.choice([3000, ev * 1000 - 4000, ev * 1300 + 3000, ev * 2000])]])
    return sc


def shutdown(seed):
    """Clients that come late, leave early or are busy when the work is over."""
    rng = random.Random(seed)
    k = rng.randint(1, 5)
    args = names(k)
    cl = [client('C1', n=rng.choice([1, 2]), bs=rng.choice([1, 3]), bw=rng.choice([1, 5, 30]), hr=rng.choice([1, 3, 10]))]
    for i in range(rng.randint(0, 3)):
        cl.append(client(f'C{i + 2}', n=rng.choice([1, 2]), bs=rng.choice([1, 2, 4]), bw=rng.choice([1, 5, 30]),
                         start=rng.choice([0, 1000, 2000 + 500 * k, 4000 + rng.randint(0, 9000)]),
                         hr=rng.choice([1, 3, 10])))
    return base(seed, rng, server=server(src=args, bs=rng.choice([1, 2, 4]), bw=1, retries=rng.choice([0, 1])),
                clients=cl, tasks=task_table(rng, args, 1, 0.3))


def limit(seed):
    """Task time limits and tasks which ignore signals."""
    rng = random.Random(seed)
    k = rng.randint(1, 5)
    args = names(k)
    lim, sw = rng.choice([2, 3, 5]), rng.choice([1, 2, 3])
    table = {}
    for a in args:
        r = rng.random()
        if r < 0.3:
            table[a] = [dict(dur=rng.choice([0, 500, lim * 1000 - 1500]), code=rng.choice([0, 0, 3]))]
        else:
            on = {}
            if rng.random() < 0.6:
                on[2] = None if rng.random() < 0.7 else [rng.choice([0, 700, 1500, 2500]), rng.choice([0, 4, -2])]
            if rng.random() < 0.5:
                on[15] = None if rng.random() < 0.7 else [rng.choice([0, 700, 1500]), 5]
            if rng.random() < 0.1:
                on[9] = None
            table[a] = [dict(dur=rng.choice([None, None, lim * 1000 + 2500, lim * 1000 + sw * 1000 + 700]), code=0, on=on)]
            if 9 in on and rng.random() < 0.7:
                table[a][0]['dur'] = 200_000
    n = rng.choice([1, 2])
    lim_given = rng.random() < 0.9
    if not lim_given:
        for rows in table.values():
            if rows[0]['dur'] in (None, 200_000):
                rows[0]['dur'] = 12_000
    sc = base(seed, rng, server=server(src=args, bs=rng.choice([1, 2, 3]), bw=1, retries=rng.choice([0, 0, 1])),
              clients=[client('C1', n=n, bs=rng.choice([1, 2]), bw=1, limit=lim if lim_given else None, sw=sw)], tasks=table,
              horizon=400_000)
    if random.Random(seed + 31).random() < 0.1:
        # days
        sc['clients'][0].update(limit=86_400 + rng.choice([20, 50]))
        sc['server'].update(evict=900_000)
        for i, a in enumerate(args):
            table[a] = [dict(dur=rng.choice([None, 40_000]) if i == 0 else 1000, code=0)]
        sc['server']['retries'] = 0
        sc['faults'] = [[['ev', 'start', 1], ['jump', 86_400_000]]]
        sc.update(horizon=1_500_000_000)
    return sc


def signals(seed):
    """User interrupts to server and clients; idle time-outs."""
    rng = random.Random(seed)
    k = rng.randint(2, 8)
    args = names(k)
    inmem = rng.random() < 0.2
    forever = not inmem and rng.random() < 0.3
    sw = rng.choice([1, 2, 4])
    cl = [client(f'C{i + 1}', n=rng.choice([1, 2]), bs=rng.choice([1, 2, 3]), bw=rng.choice([1, 5]), sw=sw,
                 hr=rng.choice([1, 5])) for i in range(rng.randint(1, 2))]
    table = {a: [dict(dur=rng.choice([500, 2000, 8000, 20_000]), code=0,
                      on={2: None} if rng.random() < 0.3 else {})] for a in args}
    sc = base(seed, rng, server=server(src=None if forever else args, forever=forever, bs=rng.choice([1, 2, 3]), bw=1,
                                       inmem=inmem), clients=cl, tasks=table, faults=[])
    who = rng.choice(['S', 'S', 'C1', 'C1', 'timeout', 'timeout'])
    when = rng.choice([['t', rng.randint(100, 15_000)], ['ev', rng.choice(['start', 'sq_get', 'exit', 'dq_put']), rng.randint(1, 4)]])
    if forever:
        sc['faults'].append([['t', 50], ['user', 'submit', dict(src=args, bs=2, bw=1)]])
        who = 'S'
        when = ['t', rng.randint(100, 25_000)]
    if inmem and who == 'S':
        who = 'C1'
    if who == 'timeout':
        to = rng.choice([3, 5, 9])
        cl[0]['timeout'] = to
        sc['server']['gaps'] = {str(rng.randrange(k)): rng.choice([1000 * to - 2500, 1000 * to + 4000, 2500 * to])}
        cl.append(client('C9', n=1, bw=1))
    else:
        sig = rng.choice([10, 10, 12])
        sc['faults'].append([when, ['signal', who, sig]])
        if sig == 12 and who == 'S':
            sc['faults'].append([when, ['signal', 'C1', 12]])
        if who != 'S':
            cl.append(client('C9', n=2, bw=1, start=100))
    other = random.Random(seed + 31)
    if other.random() < 0.3:
        for c in cl:
            c['limit'] = 600
    if other.random() < 0.12 and not (forever or inmem):
        # the client is idle when interrupted, and receives another bundle right after
        gap = other.choice([8000, 14_000])
        at = other.randrange(max(1, k - 1), k)
        sc['server'].update(gaps={str(at): gap}, bs=3)
        for rows in table.values():
            rows[0]['dur'] = 500
        del cl[1:]
        cl[0].update(timeout=None, n=other.choice([1, 2]))
        cl.append(client('C9', n=1, bw=1, start=gap + 6000))
        sc['faults'] = [[['t', gap + other.randint(-3000, 2500)], ['signal', 'C1', other.choice([10, 12, 12])]]]
    return sc


def busy(seed):
    """The server stops while several clients are still busy with what they have, so that disconnect requests pile up
    and are taken by whoever is free first."""
    rng = random.Random(seed)
    n = rng.randint(2, 4)
    bs = rng.choice([2, 3, 4])
    cl = [client(f'C{i + 1}', n=rng.choice([1, 1, 2]), bs=1, bw=1, hr=rng.choice([10, 20, 30]),
                 start=rng.choice([0, 0, 1500, 4000]) if i else 0) for i in range(n)]
    args = names(n * bs + rng.randint(0, 4))
    table = {a: [dict(dur=rng.choice([300, 900, 1500, 4000]), code=0)] for a in args}
    sc = base(seed, rng, server=server(src=args, bs=bs, bw=1), clients=cl, tasks=table,
              faults=[[['ev', 'sq_get', rng.randint(2, n + 1)], ['signal', 'S', 10]]])
    if rng.random() < 0.3:
        sc['server']['evict'] = 2 * max(c['hr'] for c in cl) + 10
        sc['faults'].append([['ev', 'sq_put', rng.randint(n, n + 3)], ['kill', f'C{rng.randint(2, n)}']])
        sc['expect'] = 'any' if n == 2 else 'done'
    return sc


def inmem(seed):
    """Database-free mode."""
    rng = random.Random(seed)
    k = rng.randint(1, 9)
    args = names(k)
    gaps = {str(rng.randrange(k)): rng.choice([100, 2500, 9000]) for _ in range(rng.randint(0, 2))}
    if rng.random() < 0.4:
        gaps['end'] = rng.choice([3000, 15_000])
    cl = clients(rng)
    if rng.random() < 0.35:
        cl[0]['start'] = rng.choice([5000, 12_000])
        del cl[1:]
    table = task_table(rng, args, 0, 0.3)
    if rng.random() < 0.3:
        for rows in table.values():
            rows[0]['dur'] = rng.choice([4000, 9000])
    sc = base(seed, rng, server=server(src=args, gaps=gaps, bs=rng.choice([1, 2, 3, 5]), bw=rng.choice([1, 2, 5]), inmem=True,
                                       redirect=rng.random() < 0.5, retries=rng.choice([0, 0, 1])),
              clients=cl, tasks=table)
    if random.Random(seed + 31).random() < 0.3:
        sc['server']['nodb'] = True     # not asked for, but there is no database
    return sc


def noconfirm(seed):
    rng = random.Random(seed)
    sc = basic(seed)
    sc['server']['noconfirm'] = True
    for c in sc['clients']:
        c['noconfirm'] = True
    return sc


def forever(seed):
    """A server which runs forever, submissions by other processes, then an interrupt."""
    rng = random.Random(seed)
    k = rng.randint(1, 4)
    retries = rng.choice([0, 1])
    args = names(k) + names(k, 'u')
    sc = base(seed, rng, server=server(forever=True, bs=rng.choice([1, 2, 3]), retries=retries, eager=rng.random() < 0.5),
              clients=clients(rng, k=rng.randint(1, 2)), tasks=task_table(rng, args, retries, 0.3), faults=[])
    sc['faults'] = [[['t', rng.randint(10, 6000)], ['user', 'submit', dict(src=names(k), bs=rng.choice([1, 3]), bw=1)]],
                    [['t', rng.randint(15_000, 60_000)], ['user', 'submit', dict(src=names(k, 'u'), bs=rng.choice([1, 3]), bw=1,
                                                                                tags={'site': 'b', 'n': 3})]],
                    [['t', 150_000], ['signal', 'S', 10]]]
    other = random.Random(seed + 41)
    if other.random() < 0.3:
        more = names(12)
        sc['faults'][0][1][2].update(src=more, bs=1)
        for a in more:
            sc['tasks'].setdefault(a, [dict(dur=500, code=0)])
        sc['holds'] = [['committer', other.randint(1, 4), 6000, None]]
    return sc


def local(seed):
    """Local clusters: server and client in one process, killed or interrupted together."""
    rng = random.Random(seed)
    k = rng.randint(1, 7)
    args = names(k)
    retries = rng.choice([0, 0, 1, 2])
    inmem = rng.random() < 0.2
    so = server(src=args, bs=rng.choice([1, 2, 3]), bw=rng.choice([1, 5]), retries=0 if inmem else retries,
                eager=rng.random() < 0.5, inmem=inmem, noconfirm=inmem or rng.random() < 0.15, redirect=rng.random() < 0.3)
    if rng.random() < 0.3:
        so['gaps'] = {str(rng.randrange(k)): rng.choice([800, 6000, 20_000])}
    if inmem and random.Random(seed + 31).random() < 0.3:
        so['nodb'] = True
    co = client('L', n=rng.choice([1, 2, 3]), hr=rng.choice([1, 5, 10]), sw=rng.choice([1, 2, 10]),
                capture=rng.random() < 0.3, delay=rng.choice([0, 0, 0, 3]), template=rng.choice(['{}', '{}', 'run {} now']))
    sc = base(seed, rng, local=dict(name='L', server=so, client=co), tasks=task_table(rng, args, so['retries']), faults=[])
    kind = rng.choice(['plain', 'signal', 'signal', 'crash', 'crash', 'forever', 'limit', 'client'])
    if inmem and kind in ('crash', 'forever', 'client'):
        kind = 'signal'
    if kind == 'signal':
        for a in args:
            sc['tasks'][a] = [dict(dur=rng.choice([500, 4000, 20_000]), code=0, on={2: None} if rng.random() < 0.3 else {})]
        sc['faults'] = [[rng.choice([['t', rng.randint(100, 20_000)], ['ev', rng.choice(['start', 'sq_get', 'exit', 'sq_put']), rng.randint(1, 4)]]),
                         ['signal', 'L', rng.choice([10, 10, 12])]]]
    elif kind == 'crash':
        when = rng.choice([['t', rng.randint(10, 15_000)], ['step', rng.randint(20, 900)],
                           ['ev', rng.choice(['db', 'sq_put', 'sq_get', 'dq_put', 'start', 'exit', 'cq_put']), rng.randint(1, 4)]])
        so2 = server(src=rng.choice([None, names(2, 'x')]), bs=so['bs'], bw=1, retries=retries, eager=so['eager'],
                     noconfirm=so['noconfirm'])
        so2['restart'] = so2['src'] is None
        for a in so2['src'] or ():
            sc['tasks'][a] = [dict(dur=500, code=0)]
        again = rng.randint(20_000, 60_000)
        sc['faults'] = [[when, ['kill', 'L']], [['t', again], ['kill', 'L']],
                        [['t', again], ['local', dict(name='L2', server=so2, client=dict(co, name='L2'))]]]
    elif kind == 'forever':
        so.update(src=None, forever=True, noconfirm=False, redirect=False)
        sc['faults'] = [[['t', rng.randint(10, 9000)], ['user', 'submit', dict(src=args, bs=rng.choice([1, 3]), bw=1)]],
                        [['t', 150_000], ['signal', 'L', rng.choice([10, 12])]]]
    elif kind == 'limit':
        co['limit'] = rng.choice([2, 5])
        for a in args:
            sc['tasks'][a] = [dict(dur=rng.choice([500, 4000, 20_000]), code=0, on={2: None} if rng.random() < 0.3 else {})]
    elif kind == 'client':
        # another client joins
        sc['clients'] = [client('C1', n=rng.choice([1, 2]), bs=rng.choice([1, 3]), bw=1, noconfirm=so['noconfirm'],
                                template=co['template'], start=rng.choice([0, 3000, 9000]))]
    return sc


def cancel(seed):
    """Tasks cancelled, and reverted again, by users while a server runs or before it starts."""
    rng = random.Random(seed)
    k = rng.choice([2, 3, 4, 5, 7, 8, 9])
    args = names(k)
    retries = rng.choice([0, 1, 2])
    table = {a: [dict(dur=rng.choice([1500, 4000]), code=rng.choice([0, 0, 1])), dict(dur=500, code=0)] for a in args}
    pre = [dict(args=a, kind='new', sub=-100_000 + 1000 * i) for i, a in enumerate(args)]
    gone = rng.sample(args, rng.randint(1, max(1, k - 1)))
    sc = base(seed, rng, server=server(restart=True, bs=rng.choice([1, 2]), retries=retries, eager=rng.random() < 0.5),
              clients=[client('C1', n=1, bw=1)], tasks=table, preset=pre, faults=[])
    how = rng.random()
    if how < 0.5:
        for r in pre:
            if r['args'] in gone:
                r['kind'] = 'cancel'
        if rng.random() < 0.4:
            sc['faults'].append([['t', rng.choice([200, 3000])], ['user', 'revert', dict(args=gone[:1])]])
            sc['expect'] = 'any' if len(gone) == k else 'done'
    else:
        # the last in the queue is far from being scheduled
        sc['server']['bs'] = 1
        last = args[-1:] if k > 6 else []
        if last:
            sc['faults'].append([['ev', 'start', 1], ['user', 'cancel', dict(args=last)]])
        if last and rng.random() < 0.4:
            sc['server'] = server(forever=True, bs=1, retries=retries)
            sc['faults'].append([['t', 40_000], ['user', 'revert', dict(args=last)]])
            sc['faults'].append([['t', 90_000], ['signal', 'S', 10]])
    if how < 0.1:
        # submitted and cancelled again before the scheduler looks for tasks
        gone = args[:rng.choice([1, 1, 2])]
        sc.update(preset=[], policy='random', faults=[[['t', 3000], ['user', 'cancel', dict(args=gone, waiting=True)]]])
        sc['server'] = server(src=gone if rng.random() < 0.7 else args[:3], bs=rng.choice([1, 3]), bw=1, retries=retries,
                              gaps={'end': rng.choice([2000, 6000])} if rng.random() < 0.5 else {})
    elif rng.random() < 0.3 and how < 0.5:
        sc['faults'].append([['ev', 'sq_put', 2], ['kill', 'S']])
        sc['faults'].append([['ev', 'kill', 1], ['server', 'S2', server(restart=True, bs=2, retries=retries)]])
        sc['faults'].append([['ev', 'kill', 1], ['client', client('D1', n=2, bw=1, start=100)]])
    return sc


def restart(seed):
    """A database left by earlier runs, server in restart mode (or with a new source)."""
    rng = random.Random(seed)
    k = rng.randint(0, 7)
    pre = preset_tasks(rng, k)
    if rng.random() < 0.2:
        for r in pre:
            r['kind'] = rng.choice(['done', 'cancel', 'retried'])
    src = names(rng.randint(1, 3)) if (rng.random() < 0.4 or k == 0) else None
    args = [r['args'] for r in pre] + (src or [])
    retries = rng.choice([0, 1, 2])
    sc = base(seed, rng, preset=pre,
              server=server(src=src, restart=src is None, bs=rng.choice([1, 2, 3]), bw=1, retries=retries,
                            eager=rng.random() < 0.5),
              clients=clients(rng, k=rng.randint(1, 2)), tasks=task_table(rng, args, retries, 0.4))
    if src is None and any(r['kind'] in ('new', 'sched', 'conf') for r in pre) and random.Random(seed + 29).random() < 0.4:
        sc['server'].update(restart=False)      # without a source but not in restart mode (there is something to do)
    if random.Random(seed + 23).random() < 0.2:
        sc['server'].update(src=None, restart=False, forever=True)
        for c in sc['clients']:
            c['timeout'] = None
        sc['faults'] = [[['t', 150_000], ['signal', 'S', 10]]]
        if random.Random(seed + 24).random() < 0.4:
            for r in pre:
                r['kind'] = rng.choice(['sched', 'conf', 'done'])
    return sc


def environment(seed):
    """Templates, tags, capture, odd argument text."""
    rng = random.Random(seed)
    odd = ['echo  two  words', '12', '3.14', 'a=b;c', "it's \"x\" y", 'nul', 'αβγ', '/a/b/c.txt', 'x' * 40, 'true',
           '2024-05-06', '2024-05-06 10:00:00', '1e5']
    args = rng.sample(odd, rng.randint(2, 6))
    import w_template
    cl = [client(f'C{i + 1}', n=rng.choice([1, 2, 3]), bs=rng.choice([1, 2]), bw=1, capture=rng.random() < 0.5)
          for i in range(rng.randint(1, 2))]
    sub = {}
    if rng.random() < 0.2:
        args = ['7', 'oops', '12', 'zz']
        tmpl = ['calc {= int(x) + 1 =}'] * 2
    elif rng.random() < 0.6:
        args = [w_template.arguments(rng) for _ in args]
        tmpl = [w_template.template(rng, shell=False) for _ in cl]
        if rng.random() < 0.5:
            tmpl = [w_template.template(rng, shell=False, code=False) for _ in cl]
            sub = dict(template=rng.choice(['x {}', '{/}', 'do {-}.out', '{[-1:]} {[::2]}', '{}']), tab={})
    else:
        tmpl = [rng.choice(['{}', '{}', 'run {} now', 'sh -c {}'])] * 2
    for c, t in zip(cl, tmpl):
        c.update(template=t, tab=w_template.table(t, args))
    sc = base(seed, rng, server=server(forever=True, bs=rng.choice([1, 2, 3]), retries=rng.choice([0, 1]), redirect=True),
              clients=cl, tasks={'*': [dict(dur=durations(rng), code=0)]})
    tags = rng.choice([None, {'a': 1, 'b': 'x'}, {'site': 'q-1', 'flag': True}, {'nk': ''}])
    sc['faults'] = [[['t', 100], ['user', 'submit', dict(src=args, bs=3, bw=1, tags=tags, **sub)]],
                    [['t', 120_000], ['signal', 'S', 10]]]
    return sc


def hold(seed):
    """A thread falls asleep in front of a statement it sends to the database; others, and users, go on."""
    rng = random.Random(seed)
    k = rng.choice([1, 1, 2, 2, 3, 5])
    args, more = names(k), names(rng.choice([1, 1, 2]), 'u')
    retries = rng.choice([0, 0, 1, 2])
    how = rng.choice(['source', 'source', 'restart', 'evict'])
    srv = server(src=args, bs=rng.choice([1, 2, 3]), bw=1, retries=retries, eager=rng.random() < 0.5)
    sc = base(seed, rng, server=srv, clients=clients(rng, k=rng.choice([1, 1, 2])), faults=[],
              tasks=task_table(rng, args + more, retries, 0.4), policy=rng.choice(['random', 'pct', 'sticky', 'rr']))
    for rows in sc['tasks'].values():
        for row in rows:
            row['dur'] = rng.choice([0, 200, 700, 1500])
    if how == 'restart':
        sc['preset'] = [dict(args=a, kind=rng.choice(['new', 'new', 'fail', 'sched', 'conf']), sub=-100_000 + 1000 * i)
                        for i, a in enumerate(args)]
        srv.update(src=None, restart=True)
    elif how == 'evict':
        srv['evict'] = 12
        sc['clients'] = clients(rng, k=2)
        sc['faults'].append([['ev', rng.choice(['start', 'sq_get', 'dq_put', 'exit']), rng.randint(1, 2)], ['pause', 'C1', 20_000]])
    sc['holds'] = [[rng.choice(['scheduler', 'scheduler', 'scheduler', 'receiver', 'confirm', 'heartmonitor', 'committer']),
                    rng.randint(1, 12 + 8 * k), rng.choice([20, 300, 1500, 5000]), None] for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.6:
        # close to the end, while the last tasks run
        sc['holds'] = [['scheduler', rng.randint(1, 6), rng.choice([1500, 5000]),
                        [rng.choice(['sq_get', 'start', 'start', 'exit', 'dq_put']), rng.choice([k, max(1, k - 1)])]]]
    user = rng.choice(['submit', 'submit', 'submit', 'cancel', ''])
    if user == 'submit':
        act = ['user', 'submit', dict(src=more, bs=rng.choice([1, 3]), bw=1)]
    elif user:
        act = ['user', user, dict(args=[args[-1]], waiting=True)]
    if user:
        sc['faults'].append([['ev', 'slow', len(sc['holds']) if rng.random() < 0.5 else 1], act])
        sc['expect'] = 'any'
    return sc


def pile(seed):
    """Results pile up in front of a sleeping receiver while the clients go on, or leave."""
    rng = random.Random(seed)
    args = names(rng.choice([6, 9, 12]))
    sc = base(seed, rng, server=server(src=args, bs=rng.choice([1, 2, 3]), bw=1),
              clients=[client(f'C{i + 1}', n=rng.choice([1, 2]), bs=rng.choice([1, 1, 2, 3]), bw=rng.choice([1, 5]))
                       for i in range(rng.choice([2, 3]))],
              tasks={'*': [dict(dur=rng.choice([0, 200, 700]), code=0)]}, faults=[])
    thread = rng.choice(['receiver', 'receiver', 'receiver', 'confirm', 'heartmonitor'])
    sc['holds'] = [[thread, rng.randint(1, 3), rng.choice([5000, 9000]), ['start', rng.choice([1, 2, 4])]]]
    if rng.random() < 0.7:
        who = rng.choice(['C1', 'S', 'S'])
        sc['faults'] = [[['ev', rng.choice(['slow', 'slow', 'start', 'exit']), rng.choice([1, 1, 4]) if who == 'S' else 1], ['signal', who, 10]]]
    if thread == 'receiver' and random.Random(seed + 31).random() < 0.4:
        # a client with unreturned results leaves while nobody takes them
        who = random.Random(seed + 32).choice(['C1', 'C1', 'S'])
        sc['clients'][0].update(bs=5, bw=30)
        sc['clients'][1].update(bs=1, n=2)
        sc['faults'] = [[['ev', 'slow', 1], ['signal', who, 10]]]
    return sc


FAMILIES = {f.__name__: f for f in (basic, source, retry, crash, evict, shutdown, limit, signals, inmem, noconfirm,
                                    forever, cancel, restart, environment, bulk, long, silent, lost, busy, hold, pile, local)}
