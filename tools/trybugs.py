#!/usr/bin/env python3
"""
Try planted bugs in scratch copies: demo on the unchanged copy and with the patch, stable tests, the property's check.
  trybugs.py [--check-only] [--props C01,C02] [ids...]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
check_only = '--check-only' in args
args = [a for a in args if a != '--check-only']
props = None
if '--props' in args:
    k = args.index('--props')
    props = args[k + 1].split(',')
    del args[k:k + 2]
ids = args or sorted(os.listdir(os.path.join(HERE, 'seeded')))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


for i in ids:
    d = os.path.join(HERE, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    wt = tempfile.mkdtemp(prefix='trybug-')
    shutil.rmtree(wt)
    shutil.copytree('/repo', wt, symlinks=True)
    line = [f'{i:28s} {meta["property"]}']
    try:
        if not check_only:
            clean, o1 = sh(['bash', os.path.join(d, 'demo.sh')], wt)
            line.append(f'demo clean={clean}')
        rc, out = sh(['git', 'apply', os.path.join(d, 'patch.diff')], wt)
        if rc:
            print(line, 'patch does not apply', out)
            continue
        if not check_only:
            bad, o2 = sh(['bash', os.path.join(d, 'demo.sh')], wt)
            line.append(f'patched={bad}')
            if clean != 0:
                print(o1[-1500:])
            if bad == 0:
                print('NOT SHOWN', o2[-1500:])
            rc, out = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests/unit/test_database/test_core.py'],
                         wt, {'PYTHONPATH': os.path.join(wt, 'src'), 'PYTHONDONTWRITEBYTECODE': '1'})
            line.append(f'tests={rc}')
        for prop in props or [meta['property']]:
            rc, out = sh(['python3', os.path.join(HERE, 'check.py'), prop], HERE, {'VERIF_REPO': wt, 'VERIF_SEED': '1'})
            rules = [x.strip()[5:].split(': ')[0] for x in out.splitlines() if x.startswith('  rule ')]
            line.append(f'{prop}: rc={rc} {rules[:3]}' + ('' if rc in (0, 1) else out[-600:]))
        print(' | '.join(line), flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
