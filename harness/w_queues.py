"""Real queue servers and clients over the loopback network: several processes put and take at the same time."""
import os
import sys
import json
import time
import random
import socket
import signal
import plain

QUEUES = ['scheduled', 'completed', 'heartbeat', 'confirmed']
LATE = 5.0      # seconds beyond its timeout which an operation may take


def start():
    plain.setup()
    import hypershell.core.queue    # noqa


def free_port():
    s = socket.socket()
    s.bind(('localhost', 0))
    port = s.getsockname()[1]
    s.close()
    return port


def script(rng, k, hot):
    """What one process does."""
    ops = []
    for i in range(rng.choice([2, 3, 4, 5])):
        q = rng.choice(hot)
        if rng.random() < 0.55:
            v = None if rng.random() < 0.15 else f'{k}.{i}'
            ops.append(dict(op='put', q=q, v=v, size=rng.choice([1, 1, 3, 2000]), timeout=rng.choice([0.3, 0.8])))
        else:
            ops.append(dict(op='get', q=q, timeout=rng.choice([0.8, 1.2])))
        ops[-1]['pause'] = rng.choice([0, 0, 0.01, 0.1, 0.4])
    return ops


def message(q, v, size):
    if v is None:
        return None
    one = (v + '|').encode() + os.urandom(size)
    return [one, *[os.urandom(3) for _ in range(size % 3)]] if q in ('scheduled', 'completed') else one


def label(x, sent):
    if x is None:
        return 'none'
    one = x[0] if isinstance(x, list) else x
    name = bytes(one).split(b'|')[0].decode(errors='replace')
    return name


def act(queues, ops, put, who):
    """Perform ops, tell put() about the start and the end of each."""
    from queue import Empty, Full
    for op in ops:
        time.sleep(op['pause'])
        q = getattr(queues, op['q'])
        put({'e': 'inv', 'p': who, 'op': op['op'], 'q': op['q'], 'v': 'none' if op.get('v') is None else op['v']})
        t0 = time.monotonic()
        whole = True
        try:
            if op['op'] == 'put':
                msg = message(op['q'], op['v'], op['size'])
                with open(os.path.join(plain.SCRATCH, f'msg-{op["q"]}-{op["v"]}'), 'w') as f:
                    f.write(repr(msg))
                q.put(msg, timeout=op['timeout'])
                res = 'ok'
            else:
                got = q.get(timeout=op['timeout'])
                q.task_done()
                res = label(got, None)
                if got is not None:
                    with open(os.path.join(plain.SCRATCH, f'msg-{op["q"]}-{res}')) as f:
                        whole = f.read() == repr(got)
        except Full:
            res = 'full'
        except Empty:
            res = 'empty'
        except (EOFError, ConnectionError, BrokenPipeError, OSError) as exc:
            res, whole = 'error', False
            _ = exc
        put({'e': 'res', 'p': who, 'q': op['q'], 'r': res, 'whole': whole, 'late': time.monotonic() - t0 > op['timeout'] + LATE})
        if res == 'error':
            break


def recorder(path):
    f = open(path, 'a')

    def put(e):
        e['t'] = time.monotonic_ns()
        f.write(json.dumps(e) + '\n')
        f.flush()
    return put


def child(fn):
    pid = os.fork()
    if pid:
        return pid
    code = 1
    try:
        signal.alarm(40)
        fn()
        code = 0
    except BaseException:   # noqa
        import traceback
        traceback.print_exc()
    finally:
        sys.stdout.flush()
        os._exit(code)


def attempt(port, key):
    """A connection made and left at once."""
    from hypershell.core.queue import QueueClient, QueueConfig
    try:
        with QueueClient(config=QueueConfig(host='localhost', port=port, auth=key)):
            return 'ok'
    except Exception as exc:    # noqa
        return type(exc).__name__


def session(rng, no):
    """One or two servers, some clients each; the recorded events per server."""
    from hypershell.core.queue import QueueServer, QueueClient, QueueConfig, _config
    servers = []
    for k in range(rng.choice([1, 1, 2])):
        size = rng.choice([1, 1, 2, 3])
        key = rng.choice(['key', 'other', 'K' * 40, 'é', 'a b']) + str(k) if rng.random() < 0.9 else _config.server.auth
        servers.append(dict(k=k, size=size, key=key, port=free_port(), log=os.path.join(plain.SCRATCH, f'ev{no}-{k}.jsonl')))
    cleanup = []
    for s in servers:
        open(s['log'], 'w').close()
        s['hot'] = rng.sample(QUEUES, rng.choice([1, 1, 2]))
        s['put'] = recorder(s['log'])
        s['put']({'e': 'server', 'size': s['size']})
        s['server'] = QueueServer(config=QueueConfig(host='localhost', port=s['port'], auth=s['key'], size=s['size']))
    try:
        for s in servers:
            s['server'].__enter__()
        pids = []
        for s in servers:
            wrong = [w for w in ['', 'key', s['key'] + 'x', s['key'][:-1], _config.server.auth, *[o['key'] for o in servers]] if w != s['key']]
            for key in rng.sample(wrong, 1) + ([s['key']] if rng.random() < 0.3 else []):
                s['put']({'e': 'connect', 'same': key == s['key'], 'r': attempt(s['port'], key)})

            def client(s=s, who='', ops=()):
                put = recorder(s['log'])
                try:
                    with QueueClient(config=QueueConfig(host='localhost', port=s['port'], auth=s['key'])) as q:
                        put({'e': 'connect', 'same': True, 'r': 'ok'})
                        act(q, ops, put, who)
                except Exception as exc:    # noqa
                    put({'e': 'connect', 'same': True, 'r': type(exc).__name__, 'why': str(exc)[-700:]})
            for c in range(rng.choice([1, 2, 2, 3])):
                ops = script(rng, f'{s["k"]}c{c}', s['hot'])
                pids.append(child(lambda s=s, c=c, ops=ops: client(s, f'c{c}', ops)))
            s['ops'] = script(rng, f'{s["k"]}s', s['hot']) if rng.random() < 0.7 else []
        for s in servers:       # as the server does: in its own process
            act(s['server'], s['ops'], s['put'], 'server')
        deadline = time.time() + 45
        for pid in pids:
            while os.waitpid(pid, os.WNOHANG)[0] == 0:
                if time.time() > deadline:
                    os.kill(pid, 9)
                time.sleep(0.005)
        # what is left is still there, in order
        for s in servers:
            if rng.random() < 0.5:
                act(s['server'], [dict(op='get', q=q, timeout=0.8, pause=0) for q in s['hot'] for _ in range(3)], s['put'], 'server')
    finally:
        for s in servers:
            if getattr(s['server'], 'shutdown', None):
                s['server'].__exit__(None, None, None)
            s['put']({'e': 'connect', 'same': True, 'r': attempt(s['port'], s['key']), 'down': True})
    out = []
    for s in servers:
        with open(s['log']) as f:
            ev = sorted((json.loads(ln) for ln in f), key=lambda e: e['t'])
        os.unlink(s['log'])
        for e in ev:
            e.pop('t')
            if e['e'] == 'connect':
                e.setdefault('down', False)
        out += ev
    del cleanup
    return out


def run(job):
    rng = random.Random(job['seed'])
    events = []
    for no in range(job.get('sessions', 1)):
        events += session(rng, no)
    for name in os.listdir(plain.SCRATCH):
        if name.startswith('msg-'):
            os.unlink(os.path.join(plain.SCRATCH, name))
    return events
