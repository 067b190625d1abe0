"""
Model component: TLC explores every interleaving of the explicit model of servers and clients (HSModel) within bounds,
and must find the defect in each faulty variant of the model (negative controls: the rules are not vacuous).
"""
import os
import re
import json
import concurrent.futures
import tlc

BASE = dict(items=2, subBS=1, bs=1, attempts=1, eager=False, forever=False, noconfirm=False, inmem=False, qs=1,
            clients=[['A']], ccrash=0, evict=0, cancel=0, usr=0, cusr=0, cBS=1, n=1, ctimeout=-1, fails=0,
            redirect=False, lossy=False, mutant='')
AB = [['A', 'B']]
CRASH = [['A'], ['B']]

CONFIGS = {
    # small: some thousand up to a hundred thousand states
    'plain': {},
    'bundles': dict(items=3, subBS=2, bs=2, cBS=2, n=2),
    'two clients': dict(clients=AB),
    'three clients': dict(clients=[['A', 'B', 'C']], items=1),
    'retry': dict(attempts=2, fails=1),
    'retry eager': dict(attempts=2, fails=1, eager=True),
    'retry once': dict(attempts=3, fails=3, items=1, redirect=True),
    'crash': dict(clients=CRASH, items=1),
    'crash retry': dict(clients=CRASH, items=1, attempts=2, fails=1),
    'client dies': dict(clients=AB, items=1, ccrash=1),
    'evicted': dict(clients=AB, items=1, evict=1),
    'cancel': dict(items=2, cancel=1),
    'cancel retry': dict(items=1, cancel=1, attempts=2, fails=1),
    'signal': dict(items=2, usr=1),
    'signal bundles': dict(items=3, bs=2, usr=1),
    'client signal': dict(clients=AB, items=1, cusr=1),
    'forever': dict(forever=True, usr=1, items=1),
    'idle': dict(clients=AB, items=1, ctimeout=0),
    'in memory': dict(inmem=True, items=2, clients=AB, redirect=True, fails=1),
    'in memory bundles': dict(inmem=True, items=3, subBS=2, cBS=2, redirect=True, fails=1),
    'no confirm': dict(noconfirm=True, items=2, attempts=2, fails=1),
    'no confirm dies': dict(noconfirm=True, items=1, clients=AB, ccrash=1, lossy=True),
    # large: up to some million states
    'bundles retry': dict(items=3, bs=2, cBS=2, n=2, attempts=2, fails=1),
    'bundles eager': dict(items=3, bs=2, cBS=2, attempts=2, fails=1, eager=True),
    'two clients three tasks': dict(clients=AB, items=3),
    'two clients bundles': dict(clients=AB, items=3, bs=2, cBS=2),
    'two clients retry': dict(clients=AB, items=1, attempts=3, fails=2),
    'crash bundles': dict(clients=CRASH, items=2, bs=2),
    'crash twice': dict(clients=[['A'], ['B'], ['C']], items=1),
    'crash cancel': dict(clients=CRASH, items=2, cancel=1),
    'crash two clients': dict(clients=[['A', 'B'], ['C']], items=1),
    'dies retry': dict(clients=AB, items=1, attempts=2, fails=1, ccrash=1),
    'dies twice': dict(clients=[['A', 'B', 'C']], items=1, ccrash=2),
    'evicted retry': dict(clients=AB, items=1, evict=1, attempts=2, fails=1),
    'evicted two tasks': dict(clients=AB, items=2, evict=1),
    'evicted no confirm': dict(clients=AB, items=2, evict=1, noconfirm=True),
    'cancel two clients': dict(clients=AB, items=2, cancel=1),
    'cancel twice': dict(items=3, cancel=2, bs=2),
    'signal two clients': dict(clients=AB, items=2, usr=1),
    'signal dies': dict(clients=AB, items=1, usr=1, ccrash=1),
    'client signal retry': dict(clients=AB, items=1, cusr=1, attempts=2, fails=1),
    'in memory dies': dict(inmem=True, items=1, clients=AB, ccrash=1, lossy=True),
    'room': dict(clients=AB, items=2, qs=2),
}

PLAN = {   # property -> what the quick tier explores, what the thorough tier explores besides, faulty variants
    'C01': (['retry', 'crash', 'cancel'], ['bundles retry', 'two clients', 'two clients three tasks', 'crash retry', 'signal', 'evicted', 'client dies', 'room']),
    'C02': (['bundles', 'in memory bundles', 'plain'], ['two clients bundles', 'bundles retry']),
    'C03': (['retry', 'plain', 'no confirm'], ['two clients', 'two clients bundles', 'bundles retry', 'two clients retry']),
    'C04': (['retry', 'plain'], ['bundles retry', 'evicted', 'client dies', 'two clients']),
    'C05': (['retry', 'retry eager', 'crash retry'], ['bundles retry', 'two clients retry', 'evicted retry', 'dies retry']),
    'C06': (['retry', 'retry eager'], ['bundles retry', 'bundles eager']),
    'C07': (['retry', 'cancel', 'forever'], ['crash retry', 'bundles retry', 'cancel twice', 'two clients']),
    'C08': (['crash', 'crash retry'], ['crash bundles', 'crash twice', 'crash cancel', 'crash two clients']),
    'C09': (['client dies'], ['evicted', 'evicted retry', 'dies retry', 'evicted two tasks', 'dies twice']),
    'C10': (['three clients', 'client signal'], ['two clients', 'evicted', 'client dies', 'signal two clients', 'room']),
    'C11': (['bundles', 'no confirm'], ['two clients', 'two clients bundles', 'two clients three tasks']),
    'C12': (['bundles', 'in memory bundles', 'signal'], ['two clients bundles', 'client signal', 'client signal retry']),
    'C13': (['idle'], ['two clients']),
    'C14': (['signal', 'forever', 'client signal'], ['signal bundles', 'signal two clients', 'signal dies', 'client signal retry']),
    'C15': (['plain', 'no confirm', 'no confirm dies'], ['evicted', 'client dies', 'two clients', 'evicted no confirm']),
    'C16': (['in memory', 'in memory bundles'], ['in memory dies']),
    'C17': (['retry once', 'in memory bundles'], ['in memory']),
    'C20': (['cancel', 'cancel retry'], ['cancel twice', 'cancel two clients', 'crash cancel']),
    'C22': (['client dies'], ['evicted', 'two clients', 'evicted two tasks', 'dies twice']),
}

MUTANTS = {   # faulty variant -> where it shows, and the properties whose rules are to find it
    'no-recovery': ('crash', {'C08', 'C01'}),
    'retry-two-commits': ('crash retry', {'C05'}),
    'ignore-submit': ('bundles', {'C07'}),
    'no-failed-check': ('retry', {'C07'}),
    'overwrite-lineage': ('dies retry', {'C05'}),
    'signal-once': ('two clients', {'C10', 'C22'}),
    'revert-finished': ('client dies', {'C09', 'C04'}),
    'no-late-revert': ('client dies', {'C09'}),
    'late-register': ('client dies', {'C22'}),
    'run-before-confirm': ('plain', {'C15'}),
    'no-drain': ('in memory bundles', {'C12', 'C16'}),
    'no-retell': ('client signal', {'C10'}),
    'blind-schedule': ('cancel', {'C20'}),
    'startup': ('cancel retry', {'C20'}),
}

SCALE = dict(dynamic=True, num=1, den=1, period=2000, init=1, min=0, max=2)
AUTOSCALER = {    # the model of the autoscaler (HSScaleModel)
    'dynamic': {}, 'dynamic minimum': dict(min=1, init=2), 'dynamic empty': dict(init=0, max=1), 'fixed': dict(dynamic=False),
    'fixed minimum': dict(dynamic=False, min=2, init=2), 'factor': dict(num=1, den=2, period=1000), 'no period': dict(period=0),
}
SCALE_MUTANTS = {'one-more': 'dynamic', 'impatient': 'dynamic', 'no-clean': 'dynamic', 'above-min': 'dynamic', 'no-max': 'dynamic',
                 'one-over': 'dynamic', 'any-pressure': 'dynamic', 'without-tasks': 'dynamic', 'same-check': 'dynamic', 'fixed-pressure': 'fixed'}


def explore(name, scratch, over=None, workers=3, timeout=600, heap='4g', liveness=False):
    conf = {**BASE, **CONFIGS[name], **(over or {})}
    path = os.path.join(scratch, re.sub(r'\W+', '-', f'{name} {conf["mutant"]} {liveness}') + '.json')
    with open(path, 'w') as f:
        json.dump(conf, f)
    return tlc.run('MCBasic', config='MCLive.cfg' if liveness else 'MCBasic.cfg', env={'MODEL': path}, workers=workers, timeout=timeout, heap=heap, scratch=scratch)


def outcome(r):
    """What TLC found: None if nothing, else a description."""
    if r.code == 0:
        return None
    if r.out.endswith('TIMEOUT'):
        return 'timeout'
    if r.code == 11:
        return 'deadlock'
    if r.code in (12, 13):
        bad = re.findall(r'bad = (\{.*?\})', r.out, re.S)
        what = re.search(r'(?:Invariant|Action property|property) (\w+)', r.out)
        return f'{what[1] if what else "property"} {bad[-1] if bad else ""}'
    raise RuntimeError(f'TLC: {r.error()}')


def autoscaler(ctx, pid):
    def go(job):
        name, mutant = job
        conf = dict(cfg={**SCALE, **AUTOSCALER[name]}, horizon=ctx.pick(7000, 14000), exits=ctx.pick(2, 4), halt=True, mutant=mutant)
        path = os.path.join(ctx.scratch, re.sub(r'\W+', '-', f'scale {name} {mutant}') + '.json')
        with open(path, 'w') as f:
            json.dump(conf, f)
        return job, tlc.run('HSScaleModel', env={'MODEL': path}, workers=2, timeout=900, heap='3g', scratch=ctx.scratch)
    jobs = [(n, '') for n in AUTOSCALER] + ([(n, m) for m, n in SCALE_MUTANTS.items()] if ctx.thorough else [])
    done = {}
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        for (name, mutant), r in pool.map(go, jobs):
            what = outcome(r)
            if mutant:
                if what in (None, 'timeout'):
                    ctx.error(f'the faulty variant {mutant} of the model of the autoscaler was not found')
                ctx.add(faulty_variants_found=1)
                continue
            ctx.states(r)
            done[name] = f'{r.distinct} states' + (', not all within the time' if what == 'timeout' else '')
            if what not in (None, 'timeout'):
                ctx.violation(f'{pid}:model', f'the model breaks a rule in "{name}": {what}', {'kind': 'model', 'config': name, 'out': r.out[-20000:]})
    ctx.cov['model'] = done


def check(ctx, pid):
    if pid == 'C23':
        return autoscaler(ctx, pid)
    quick, more = PLAN.get(pid, ([], []))
    configs = quick + (more if ctx.thorough else [])
    controls = [(m, c) for m, (c, ps) in MUTANTS.items() if pid in ps] if ctx.thorough else []
    jobs = [(c, None, False) for c in configs] + [(c, m, False) for m, c in controls]
    if ctx.thorough:
        jobs += [(c, None, True) for c in quick[:2]]
    if not jobs:
        return

    def go(job):
        c, m, live = job
        return job, explore(c, ctx.scratch, {'mutant': m} if m else None, timeout=900 if ctx.thorough else 300, liveness=live)
    done = {}
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        for (c, m, live), r in pool.map(go, jobs):
            what = outcome(r)
            if m:
                if what in (None, 'timeout'):
                    ctx.error(f'the faulty variant {m} of the model was not found in {c}')
                ctx.add(faulty_variants_found=1)
                continue
            ctx.states(r)
            done[c + (' (termination)' if live else '')] = f'{r.distinct} states' + (', not all within the time' if what == 'timeout' else '')
            if what not in (None, 'timeout'):
                ctx.violation(f'{pid}:model', f'the model breaks a rule in "{c}": {what}', {'kind': 'model', 'config': c, 'out': r.out[-20000:]})
    ctx.cov['model'] = done


def replay(ctx, saved):
    print(saved['out'])
