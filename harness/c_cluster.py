"""
Cluster component: the real server and clients run under the controlled scheduler; the recorded traces are judged
by the specification (HSTrace over HSCore).
"""
import os
import json
import collections
import batch
import tlc

PLAN = {   # property -> families and their weights
    'C01': dict(local=1, hold=1, bulk=0.5, busy=1, lost=0.3, basic=3, source=2, retry=2, shutdown=3, crash=2, evict=1, environment=1, signals=1, limit=1),
    'C02': dict(local=0.5, bulk=0.3, source=5, basic=2, forever=1, inmem=2),
    'C03': dict(hold=1, bulk=0.4, basic=3, retry=3, crash=2, noconfirm=1, inmem=1, restart=1),
    'C04': dict(hold=1, long=2, basic=2, evict=3, retry=2, limit=2, shutdown=1, environment=1),
    'C05': dict(local=0.5, hold=1, retry=5, crash=3, basic=1, cancel=1, evict=1, restart=1),
    'C06': dict(retry=6, cancel=1, restart=2, basic=1),
    'C07': dict(local=0.7, hold=3, long=1, source=3, retry=2, forever=1, restart=4, shutdown=1, cancel=1),
    'C08': dict(local=1, bulk=1, crash=8, restart=2),
    'C09': dict(hold=1, busy=1, bulk=1, silent=2, evict=8, shutdown=1),
    'C10': dict(local=1, pile=1, hold=1, busy=2, shutdown=6, signals=2, evict=2, inmem=1, restart=1, source=1),
    'C11': dict(local=0.7, pile=1, basic=3, limit=2, noconfirm=1, shutdown=2, environment=2),
    'C12': dict(local=0.7, pile=2.5, hold=1, bulk=0.5, shutdown=4, basic=3, inmem=2, signals=1),
    'C13': dict(local=0.7, long=1, limit=8, signals=2),
    'C14': dict(local=1.5, busy=1, long=1, signals=9, limit=1),
    'C15': dict(local=0.5, hold=1, basic=3, noconfirm=3, evict=2, environment=1, restart=1),
    'C16': dict(local=0.5, bulk=0.3, inmem=9, noconfirm=1),
    'C17': dict(local=0.5, basic=3, inmem=3, environment=2, retry=2),
    'C18': dict(local=2, crash=1.5, environment=5, basic=2, retry=1, limit=1),
    'C20': dict(hold=1, busy=1, cancel=7, restart=3),
    'C22': dict(busy=1, silent=1, evict=5, shutdown=4, signals=1),
    'C24': dict(environment=1),
    'C25': dict(environment=6, basic=2, retry=2),
}

QUICK = {'C24': 60, 'C25': 80}     # runs in the quick tier, where not the usual number


def jobs_for(pid, total, seed):
    plan = PLAN[pid]
    weight = sum(plan.values())
    jobs = []
    for fam, w in plan.items():
        n = max(1, round(total * w / weight))
        base = seed * 100_000 + int(pid[1:]) * 1000
        jobs += [[fam, base + i] for i in range(n)]
    return jobs


def matches(rule, pid):
    tags = rule.split(':')[:-1]
    return pid in tags or 'ALL' in tags


def strip(ev):
    return {k: v for k, v in ev.items() if k not in ('env',)}


def explain(sc, events, pos):
    e = strip(events[pos - 1])
    return f"family {sc.get('family')} seed {sc.get('seed')} event {pos} of {len(events)}: {json.dumps(e)[:400]}"


def simulate(ctx, jobs, timeout):
    """Run all jobs; a run that never ends is tried once more by itself."""
    rs = batch.run(jobs, os.path.join(ctx.scratch, 'batch'), timeout=timeout)
    missing = [i for i, r in enumerate(rs) if r is None]
    if missing:
        # a worker that died or hung takes its remaining jobs with it
        first, rest = missing[:8], missing[8:]
        again = batch.run([jobs[i] for i in missing], os.path.join(ctx.scratch, 'again'), procs=min(8, len(missing)),
                          timeout=min(timeout, 150))
        for i, r in zip(missing, again):
            rs[i] = r
    return rs


def check(ctx, pid, quick=220, thorough=3000):
    quick = QUICK.get(pid, quick)
    jobs = jobs_for(pid, ctx.pick(quick, thorough), ctx.seed)
    step = 640
    dead = 0
    for k in range(0, len(jobs), step):
        if ctx.left() < 120 or len(ctx.violations) >= 3:
            break
        part = jobs[k:k + step]
        rs = simulate(ctx, part, timeout=300)
        lost = [j for j, r in zip(part, rs) if r is None or r.get('error')]
        dead += len(lost)
        for j in lost[:3]:
            r = rs[part.index(j)]
            ctx.error(f'no trace for {j}: {(r or {}).get("error")}')
        rs = [r for r in rs if r and not r.get('error')]
        verdicts, results = tlc.judge('HSTrace', [r['events'] for r in rs], ctx.scratch)
        ctx.states(*results)
        kinds, fams = collections.Counter(), collections.Counter()
        for r in rs:
            fams[r['sc'].get('family', '?')] += 1
            kinds.update(e['e'] for e in r['events'])
        ctx.add(traces_validated_against_impl=len(rs), runs_per_family=dict(fams), events_per_kind=dict(kinds))
        if rs:
            ctx.sample({'scenario': rs[0]['sc'], 'first_events': [strip(e) for e in rs[0]['events'][:12]]}, limit=2)
        hits = []
        for r, v in zip(rs, verdicts):
            hits += [(rule, pos, r) for rule, pos in v or () if matches(rule, pid)]
        confirm(ctx, hits)
    if dead and not ctx.violations and dead > 0.5 * len(jobs):
        ctx.violation('ALL:no-run', f'{dead} of {len(jobs)} runs never ended', {'jobs': jobs[:5]})


def confirm(ctx, hits):
    """Run each suspicious scenario once more, and report what happens again."""
    by = {}
    for rule, pos, r in hits:
        by.setdefault(rule, []).append((pos, r))
    todo = [(rule, *x) for rule, c in list(by.items())[:8] for x in sorted(c, key=lambda x: len(x[1]['events']))[:3]]
    if not todo:
        return
    again = batch.run([r['sc'] for _, _, r in todo], os.path.join(ctx.scratch, 'confirm'), timeout=150)
    ok = [(t, a) for t, a in zip(todo, again) if a and not a.get('error')]
    verdicts, _ = tlc.judge('HSTrace', [a['events'] for _, a in ok], ctx.scratch)
    for ((rule, pos, r), a), v in zip(ok, verdicts):
        at = [p for n, p in v if n == rule]
        if at:
            ctx.violation(rule, explain(a['sc'], a['events'], at[0]),
                          {'kind': 'cluster', 'scenario': a['sc'], 'broken': v, 'trace': a['events']},
                          key=rule.split(':')[-1])


def replay(ctx, saved):
    rs = batch.run([saved['scenario']], os.path.join(ctx.scratch, 'batch'), procs=1, timeout=300)
    verdicts, _ = tlc.judge('HSTrace', [r['events'] for r in rs if r], ctx.scratch)
    for v, r in zip(verdicts, rs):
        for rule, pos in v:
            print(rule, explain(r['sc'], r['events'], pos))
