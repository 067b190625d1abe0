#!/usr/bin/env python3
"""Write MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = ('TLA+ (HSCore, HSModel) with TLC: exhaustive exploration of the model within bounds, replay of its behaviours in the real '
         'server and clients, and validation of the recorded traces against the specification')
NOTE = ('The model is explored exhaustively within small bounds; executions of the real server and clients (replayed behaviours, '
        'sampled schedules, faults and scenarios) are each judged by the specification. The virtual scheduler stands in for '
        'threads, processes, sockets and time.')
PLAIN = 'TLA+ ({}) with TLC: recorded behaviours of the real code on generated inputs are validated against the specification'
PNOTE = 'Inputs and histories are sampled with a seed; each recorded behaviour is judged by the specification.'
SPECIAL = {
    'C18': ('TLA+ (HSCore, HSConfig) with TLC: recorded traces of simulated clusters and of the configuration code are validated against the specification', NOTE),
    'C19': (PLAIN.format('HSQuery'), PNOTE),
    'C21': (PLAIN.format('HSQuery'), PNOTE),
    'C23': ('TLA+ (HSScale, HSScaleModel) with TLC: exhaustive exploration of a model of the autoscaler, and validation of recorded '
            'behaviours of the real one against the same rules', PNOTE),
    'C24': (PLAIN.format('HSTemplate, HSCore'), PNOTE),
    'C25': (PLAIN.format('HSFidelity, HSCore'), PNOTE),
    'C26': (PLAIN.format('HSConfig'), PNOTE),
    'C27': (PLAIN.format('HSWait'), PNOTE),
    'C28': (PLAIN.format('HSLaunch'), PNOTE),
    'C29': (PLAIN.format('HSQueues'), PNOTE),
    'C30': (PLAIN.format('HSDatabase'), PNOTE),
    'C31': (PLAIN.format('HSDatabase'), PNOTE),
}


def main():
    checks = []
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        ids = [json.loads(line)['id'] for line in f]
    import sys
    sys.path.insert(0, HERE)
    import check
    for pid in ids:
        if pid not in check.COMPONENTS:
            continue
        tech, note = SPECIAL.get(pid, (TRACE, NOTE))
        checks.append({'property': pid, 'quick_cmd': f'python3 check.py {pid} --tier quick',
                       'thorough_cmd': f'python3 check.py {pid} --tier thorough', 'technique': tech,
                       'level': 'model_checking', 'level_note': note})
    man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
           'checks': checks,
           'not_applicable': [{'property': p, 'reason': 'check under construction'} for p in ids if p not in check.COMPONENTS],
           'notes': 'No hooks: the harness replaces standard library entry points before it imports the unmodified code. Known findings: known_findings.txt. Replay: python3 check.py --replay FILE.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
