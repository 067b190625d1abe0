#!/usr/bin/env python3
"""
Plant a bug: mkbug.py SPEC.py  where SPEC.py defines BUGS, a list of dicts
  id, property, file, edits [(old, new)], needs, breaks, demo (python source; exit 0 holds, nonzero broken)
Writes /verif/seeded/<id>/{patch.diff,demo.sh,demo.py,demolib.py,meta.json}.
"""
import json
import os
import shutil
import subprocess
import sys
import runpy

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(HERE, 'tools', 'demolib.py')
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 HYPERSHELL_REPO="$PWD"
exec timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for b in bugs:
        wt = f'/tmp/mkbug-{os.getpid()}'
        subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', wt, 'HEAD'], check=True)
        try:
            edits = b['edits'] if isinstance(b['edits'], dict) else {b['file']: b['edits']}
            for file, pairs in edits.items():
                path = os.path.join(wt, file)
                s = open(path).read()
                for old, new in pairs:
                    assert s.count(old) == 1, (b['id'], file, s.count(old), old)
                    s = s.replace(old, new)
                open(path, 'w').write(s)
            diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True, check=True).stdout
        finally:
            subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', wt], check=True)
        d = os.path.join(HERE, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        for name, text in (('patch.diff', diff), ('demo.sh', DEMO), ('demo.py', b['demo'].lstrip()),
                           ('meta.json', json.dumps({'property': b['property'], 'needs': b['needs'],
                                                     'what_it_breaks': b['breaks']}, indent=1) + '\n')):
            with open(os.path.join(d, name), 'w') as f:
                f.write(text)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        shutil.copy(LIB, os.path.join(d, 'demolib.py'))
        print('planted', b['id'])


if __name__ == '__main__':
    main()
