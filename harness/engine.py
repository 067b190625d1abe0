"""What every check shares: scratch space, reporting, evidence, known findings."""
import os
import re
import sys
import json
import time
import shutil
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.path.join(VERIF, 'evidence') if REPO == '/repo' else os.path.join(REPO, '.git', 'verif-evidence')
FINDINGS = os.path.join(VERIF, 'known_findings.txt')


def findings(pid):
    """Open findings of a property: key -> text."""
    out = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
                if m and m[1] == pid:
                    out[m[2]] = m[3].strip()
    return out


class Context:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f'verif-{pid}-')
        self.violations = []        # (rule, detail, replay path)
        self.known = {}
        self.open = findings(pid)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.seen = set()
        self.errors = []
        self.replays = os.path.join(EVIDENCE, 'replay')

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self):
        """Seconds of the time budget that remain."""
        return (3000 if self.thorough else 700) - (time.time() - self.t0)

    def states(self, *results):
        for r in results:
            self.cov['states'] += r.distinct
            self.cov['transitions'] += r.generated

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, dict):
                d = self.cov.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            elif isinstance(v, list):
                self.cov.setdefault(k, []).extend(v)
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v

    def sample(self, x, limit=4):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(x)

    def violation(self, rule, detail, replay, key=None):
        """Report a broken rule, once per rule; `key` names a specific failing case for the known findings file."""
        if key is not None and key in self.open:
            self.known[key] = self.open[key]
            return
        if rule in self.seen:
            return
        self.seen.add(rule)
        os.makedirs(self.replays, exist_ok=True)
        path = os.path.join(self.replays, f'{self.pid}-{len(self.violations) + 1}.json')
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'rule': rule, 'detail': detail, 'key': key, **replay}, f, indent=1, default=str)
        self.violations.append((rule, detail, path))
        print(f'VIOLATION property={self.pid} replay={path}')
        print(f'  rule {rule}: {detail}')
        sys.stdout.flush()

    def error(self, text):
        self.errors.append(text)

    def finish(self, level):
        for key, what in sorted(self.known.items()):
            print(f'KNOWN-FINDING: property={self.pid} {what}')
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            return 1
        if self.errors:
            print('ERROR:', *self.errors[:5], sep='\n  ')
            return 2
        print(f'OK property={self.pid} ' + ' '.join(f'{k}={v}' for k, v in self.cov.items() if isinstance(v, (int, float)))
              + f' wall={ev["wall_s"]}s')
        return 0
