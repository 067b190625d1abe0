"""Run TLC on the specifications under /verif/spec."""
import os
import re
import json
import shutil
import tempfile
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcResult:
    def __init__(self, code, out):
        self.code, self.out = code, out
        m = None
        for m in re.finditer(r'([\d,]+) states generated.*?([\d,]+) distinct states found', out):
            pass
        self.generated = int(m[1].replace(',', '')) if m else 0
        self.distinct = int(m[2].replace(',', '')) if m else 0

    @property
    def ok(self):
        return self.code == 0

    def error(self):
        """The message of TLC, shortened."""
        k = self.out.find('Error:')
        return self.out[k:k + 1500] if k >= 0 else self.out[-1500:]


def run(module, config=None, env=None, workers=8, timeout=800, heap='6g', args=(), scratch=None):
    meta = tempfile.mkdtemp(prefix='verif-tlc-', dir=scratch)
    cmd = ['java', f'-Xmx{heap}', '-Xss64m', f'-Djava.io.tmpdir={meta}', '-XX:+UseParallelGC', '-cp', JARS, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
           '-workers', str(workers), '-config', config or f'{module}.cfg', *args, f'{module}.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
        return TlcResult(p.returncode, p.stdout + p.stderr)
    except subprocess.TimeoutExpired as exc:
        return TlcResult(-1, (exc.stdout or b'').decode(errors='replace') + '\nTIMEOUT')
    finally:
        shutil.rmtree(meta, ignore_errors=True)


VERDICT = re.compile(r'<<\s*"VERDICT",\s*(\d+),\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)
RULE = re.compile(r'<<\s*"([^"]+)",\s*(\d+)\s*>>')


def judge(module, traces, scratch, env=None, workers=8, timeout=800):
    """Judge recorded traces with a trace specification; per trace a list of (rule, position), and the TLC results.
    A trace which the specification cannot even evaluate is broken by the rule ALL:uninterpretable."""
    path = os.path.join(scratch, 'traces.json')
    verdicts, results = {}, []

    def go(idx, many):
        with open(path, 'w') as f:
            json.dump([traces[i] for i in idx], f)
        r = run(module, env={**(env or {}), 'TRACES': path}, workers=workers, timeout=timeout, scratch=scratch)
        results.append(r)
        for m in VERDICT.finditer(r.out):
            verdicts[idx[int(m[1]) - 1]] = sorted(((n, int(p)) for n, p in RULE.findall(m[3])), key=lambda x: x[1])
        rest = [i for i in idx if i not in verdicts]
        if not rest:
            return
        if r.code == 150:
            raise RuntimeError(f'{module} does not parse: {r.out[-1500:]}')
        if r.out.endswith('TIMEOUT'):
            raise RuntimeError('TLC ran out of time')
        if len(idx) == 1:
            verdicts[idx[0]] = [('ALL:uninterpretable', len(traces[idx[0]]))]
            results[-1].why = r.error()
            return
        mid = (len(rest) + 1) // 2
        go(rest[:mid], True)
        go(rest[mid:], True)

    live = [i for i, t in enumerate(traces) if t]
    if live:
        go(live, True)
    return [verdicts.get(i) for i in range(len(traces))], results
