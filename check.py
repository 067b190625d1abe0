#!/usr/bin/env python3
"""
Decide one property on the current tree of /repo.

  check.py <property> [--tier quick|thorough] [--seed N]
  check.py --replay FILE

Exit 0: it held on everything explored; 1: VIOLATION lines; 2: the machinery itself failed.
"""
import os
import sys
import json
import signal
import argparse
import importlib
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.dont_write_bytecode = True
import engine  # noqa

# property -> components (module names under harness), each offering check(ctx, pid)
COMPONENTS = {f'C{i:02d}': ['c_cluster'] for i in
              (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 22)}
COMPONENTS.update({'C18': ['c_cluster', 'c_plain'], 'C26': ['c_plain'], 'C28': ['c_plain'], 'C29': ['c_plain'], 'C30': ['c_plain'], 'C31': ['c_plain'], 'C23': ['c_plain'], 'C27': ['c_plain'], 'C19': ['c_plain'], 'C21': ['c_plain'], 'C24': ['c_plain', 'c_cluster'], 'C25': ['c_plain', 'c_cluster']})
# the models, and the replay of their behaviours in the code
for _pid in [f'C{i:02d}' for i in range(1, 18)] + ['C20', 'C22']:
    COMPONENTS[_pid] = ['c_model', *COMPONENTS[_pid], 'c_walk']
COMPONENTS['C02'].insert(1, 'c_plain')
COMPONENTS['C16'].insert(1, 'c_plain')
for _pid in ('C01', 'C04', 'C05', 'C08', 'C10', 'C17'):    # whole runs of the real programs
    COMPONENTS[_pid].append('c_plain')
COMPONENTS['C23'] = ['c_model', *COMPONENTS['C23']]


def default_signals():
    """What we run must not inherit signals which whoever runs us ignores (e.g., nohup, background jobs)."""
    for num in (signal.SIGHUP, signal.SIGQUIT, signal.SIGTERM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM, signal.SIGCHLD):
        signal.signal(num, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])


def main():
    default_signals()
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    opts = ap.parse_args()
    if opts.replay:
        with open(opts.replay) as f:
            saved = json.load(f)
        ctx = engine.Context(saved['property'], 'quick', 1)
        importlib.import_module({'cluster': 'c_cluster'}.get(saved['kind'], 'c_' + saved['kind'])).replay(ctx, saved)
        return 0
    ctx = engine.Context(opts.property, opts.tier, opts.seed)
    for name in COMPONENTS[opts.property]:
        try:
            importlib.import_module(name).check(ctx, opts.property)
        except Exception:   # noqa: reported as an error of the check
            ctx.error(f'{name}: {traceback.format_exc()}')
    return ctx.finish('model_checking')


if __name__ == '__main__':
    sys.exit(main())
