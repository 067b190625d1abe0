"""
Components which run the real code in ordinary processes and have a trace specification judge what was recorded.
"""
import os
import collections
import json
import plain
import tlc

# property -> list of (worker module, trace specification, job parameters, runs in the quick tier, in the thorough tier)
PLAN = {
    'C19': [('w_query', 'HSQueryTrace', dict(kinds=['update', 'update', 'update', 'search'], steps=8), 300, 6000)],
    'C21': [('w_query', 'HSQueryTrace', dict(kinds=['search', 'search', 'search', 'list', 'update', 'info'], steps=8), 300, 6000)],
    'C24': [('w_template', 'HSTemplateTrace', dict(expand=40, submit=3), 200, 8000)],
    'C02': [('w_submit', 'HSSubmit', dict(steps=4), 120, 3000)],
    'C01': [('w_real', 'HSReal', dict(kinds=['cluster', 'remote', 'killed', 'lost', 'interrupted']), 16, 400)],
    'C04': [('w_real', 'HSReal', dict(kinds=['interrupted', 'interrupted', 'cluster', 'remote']), 16, 400)],
    'C05': [('w_real', 'HSReal', dict(kinds=['cluster', 'remote', 'killed']), 16, 400)],
    'C08': [('w_real', 'HSReal', dict(kinds=['killed', 'interrupted']), 16, 400)],
    'C10': [('w_real', 'HSReal', dict(kinds=['cluster', 'remote', 'stopped', 'lost']), 16, 400)],
    'C17': [('w_real', 'HSReal', dict(kinds=['cluster', 'remote'], fail=True), 16, 400)],
    'C18': [('w_config', 'HSConfigTrace', dict(steps=2), 60, 1000),
            ('w_real', 'HSReal', dict(kinds=['cluster', 'remote'], redirect=True), 16, 400)],
    'C26': [('w_config', 'HSConfigTrace', dict(steps=6), 100, 4000)],
    'C27': [('w_wait', 'HSWait', dict(steps=5), 500, 12000)],
    'C23': [('w_scale', 'HSScaleTrace', {}, 600, 12000)],
    'C28': [('w_launch', 'HSLaunch', {}, 560, 9000)],
    'C29': [('w_queues', 'HSQueues', dict(sessions=1), 80, 2000)],
    'C30': [('w_database', 'HSDatabase', dict(kind='engine', steps=6), 150, 4000)],
    'C31': [('w_database', 'HSDatabase', dict(kind='init'), 150, 4000)],
    'C16': [('w_database', 'HSDatabase', dict(kind='init'), 40, 800)],
    'C25': [('w_fidelity', 'HSFidelity', dict(n=6), 120, 5000)],
}
LIMITS = {}                 # worker module -> number of processes
STEPS = {'w_real': 80}      # worker module -> runs at once


def matches(rule, pid):
    tags = rule.split(':')[:-1]
    return pid in tags or 'ALL' in tags


def short(e):
    return json.dumps({k: v for k, v in e.items() if k not in ('rows', 'after', 'vals')})[:600]


def check(ctx, pid):
    for worker, spec, params, quick, thorough in PLAN[pid]:
        total = ctx.pick(quick, thorough)
        step = STEPS.get(worker, 1200)
        for k in range(0, total, step):
            if ctx.left() < 100 or len(ctx.violations) >= 3:
                break
            base = ctx.seed * 1_000_000 + int(pid[1:]) * 20_000
            jobs = [dict(params, seed=base + i) for i in range(k, min(total, k + step))]
            rs = plain.run(worker, jobs, os.path.join(ctx.scratch, worker), procs=LIMITS.get(worker, 8),
                           timeout=min(400, max(60, ctx.left() - 60)))
            rs = again(ctx, worker, rs, jobs)
            judge(ctx, pid, worker, spec, [r for r in rs if r and not r.get('error')])


def again(ctx, worker, rs, jobs):
    """Runs without a result are tried once more."""
    lost = [i for i, r in enumerate(rs) if r is None or r.get('error')]
    if not lost:
        return rs
    for i, r in zip(lost[:40], plain.run(worker, [jobs[i] for i in lost[:40]], os.path.join(ctx.scratch, 'again'), timeout=120)):
        rs[i] = r
    lost = [i for i, r in enumerate(rs) if r is None or r.get('error')]
    for i in lost[:2]:
        ctx.error(f'{worker}: no result for {jobs[i]}: {(rs[i] or {}).get("error")}')
    return rs


def judge(ctx, pid, worker, spec, rs):
    verdicts, results = tlc.judge(spec, [r['events'] for r in rs], ctx.scratch)
    ctx.states(*results)
    kinds = collections.Counter(e['e'] for r in rs for e in r['events'])
    ctx.add(traces_validated_against_impl=len(rs), events_per_kind=dict(kinds), runs_per_worker={worker: len(rs)})
    if rs:
        ctx.sample({'worker': worker, 'job': rs[0]['job'], 'events': [short(e) for e in rs[0]['events'][:6]]}, limit=3)
    hits = {}
    for r, v in zip(rs, verdicts):
        for rule, pos in v or ():
            if matches(rule, pid):
                hits.setdefault(rule, []).append((pos, r))
    todo = [(rule, *x) for rule, c in list(hits.items())[:6] for x in sorted(c, key=lambda x: len(x[1]['events']))[:3]]
    if not todo:
        return
    # run once more by itself: what cannot be seen again is not reported
    second = plain.run(worker, [r['job'] for _, _, r in todo], os.path.join(ctx.scratch, 'confirm'), timeout=200)
    ok = [(t, a) for t, a in zip(todo, second) if a and not a.get('error')]
    again_v, _ = tlc.judge(spec, [a['events'] for _, a in ok], ctx.scratch)
    for ((rule, pos, r), a), v in zip(ok, again_v):
        at = [p for n, p in v or () if n == rule]
        if at:
            ctx.violation(rule, f'{worker} {json.dumps(a["job"])[:200]} event {at[0]}: {short(a["events"][at[0] - 1])}',
                          {'kind': 'plain', 'worker': worker, 'spec': spec, 'job': a['job'], 'broken': v, 'trace': a['events']},
                          key=rule.split(':')[-1])


def replay(ctx, saved):
    rs = plain.run(saved['worker'], [saved['job']], os.path.join(ctx.scratch, 'w'), timeout=300)
    verdicts, _ = tlc.judge(saved['spec'], [r['events'] for r in rs if r], ctx.scratch)
    for v, r in zip(verdicts, rs):
        for rule, pos in v:
            print(rule, pos, short(r['events'][pos - 1]))
