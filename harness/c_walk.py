"""
Replay component: behaviours of the model (HSModel) which reach as many situations as possible are performed by the
real server and clients under the controlled scheduler (guide), and what the code then does is judged like any trace.
"""
import os
import re
import gzip
import json
import random
import collections
import batch
import tlc
import c_cluster
import c_model

CORPUS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'walks.json.gz')


def conf(name):
    """The bounds of a configuration as the code has them: one bundle size for submission and scheduling."""
    c = {**c_model.BASE, **c_model.CONFIGS[name]}
    if not c['inmem']:
        c['subBS'] = c['bs']
    return c


def corpus():
    with gzip.open(CORPUS, 'rt') as f:
        return json.load(f)


def draw(name, n, seed, scratch, workers=8, timeout=300):
    """Let TLC choose behaviours: lists of {a, p, x, v, w}."""
    path = os.path.join(scratch, 'walk-' + re.sub(r'\W+', '-', name) + '.json')
    with open(path, 'w') as f:
        json.dump(conf(name), f)
    r = tlc.run('HSWalk', env={'MODEL': path}, workers=workers, timeout=timeout, scratch=scratch,
                args=['-simulate', f'num={-(-n // workers)}', '-depth', '600', '-seed', str(seed)])
    return [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'<<"WALK", "(.*?)">>', r.out)]


def scenarios(picks):
    import guide
    return [{**guide.scenario(conf(name), [[a, p, x, bool(v)] for a, p, x, v in w], seed), 'family': f'walk {name}'}
            for name, w, seed in picks]


def check(ctx, pid, quick=140, thorough=2500):
    names = [n for part in c_model.PLAN.get(pid, ([], [])) for n in part]
    if not names:
        return
    rng = random.Random(ctx.seed * 1000 + int(pid[1:]))
    have = corpus()
    total = ctx.pick(quick, thorough)
    picks = []
    for name in names:
        ws = have[name]
        k = min(len(ws), max(1, total // len(names)))
        chosen = rng.sample(range(len(ws)), k)
        picks += [(name, ws[i], ctx.seed * 1000 + i) for i in chosen]
    if ctx.thorough:      # and new ones
        for name in names:
            ws = draw(name, 400, ctx.seed * 77 + int(pid[1:]), ctx.scratch, timeout=120)
            picks += [(name, [[st['a'], st['p'], st['x'], st['v']] for st in w], ctx.seed * 1000 + i) for i, w in enumerate(ws)]
    for k in range(0, len(picks), 640):
        if ctx.left() < 120 or len(ctx.violations) >= 3:
            break
        jobs = scenarios(picks[k:k + 640])
        rs = [r for r in c_cluster.simulate(ctx, jobs, timeout=300) if r and not r.get('error')]
        verdicts, results = tlc.judge('HSTrace', [r['events'] for r in rs], ctx.scratch)
        ctx.states(*results)
        per, steps = collections.Counter(), collections.Counter()
        for r in rs:
            done, missed, left, _ = r['walk']
            per[r['sc']['family'][5:]] += 1
            steps['performed as in the behaviour'] += done
            steps['not performed'] += missed + left
            steps['behaviours followed to the end'] += missed + left == 0
        ctx.add(traces_validated_against_impl=len(rs), behaviours_replayed=dict(per), steps_replayed=dict(steps))
        hits = []
        for r, v in zip(rs, verdicts):
            hits += [(rule, pos, r) for rule, pos in v or () if c_cluster.matches(rule, pid)]
        c_cluster.confirm(ctx, hits)
