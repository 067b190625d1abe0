#!/usr/bin/env python3
"""Check that the tools are there and the specifications parse."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import tlc  # noqa

for name in sorted(os.listdir(tlc.SPEC)):
    if name.endswith('.tla'):
        p = subprocess.run(['java', '-cp', tlc.JARS, 'tla2sany.SANY', name], cwd=tlc.SPEC, capture_output=True, text=True)
        if p.returncode:
            print(p.stdout[-3000:])
            sys.exit(1)
subprocess.run(['/opt/venv/bin/python', '-c', 'import sqlalchemy, cmdkit'], check=True)
print('ready')
