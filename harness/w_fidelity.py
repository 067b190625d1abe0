"""Tasks and messages encoded, transported between processes in different time zones, stored and loaded by the real code."""
import os
import json
import time
import base64
import random
from datetime import datetime, timezone, timedelta
import plain

ZONES = ['UTC0', 'EST5', 'JST-9', 'XXX-5:45', 'AAA11', 'EST5EDT,M3.2.0,M11.1.0']
TEXT = ['echo 1', '12', '3.14', '1e5', 'true', 'null', 'None', '', ' x', '2024-05-06', '2024-05-06 10:00:00', '2024-05-06T10:00:00+02:00',
        '20240506', '2024-W01-1', '10:00:00', "it's", 'say "hi"', '"q"', 'a\\b\\n', 'line1\nline2', 'tab\there', 'αβγ', '日本語', '😀', 'é',
        '{"a": 1}', '[1, 2]', '{}', '%s %d', '$HOME `x`', '\x01\x7f', '\u2028', 'x' * 3000, "'; drop table task; --", 'a=b;c', '~', '-1',
        '2024-05-06 10:00:00.123456-04:00', 'NaN', '0x10', '1_000', '  ', '\r', 'a\x00b']
TAGV = ['b', '', 1, 0, -5, True, False, 1.5, 3.0, 1e300, None, 'x.y', '2024-05-06', '12', 'true', 'null', 2 ** 40]
TAGK = ['site', 'n', 'a.b', 'x-y', 'flag', '2024-05-06', 'tag', 'id', 'é', 'A B', 'submit_time']
INTS = [None, 0, 1, -1, 255, -15, 2 ** 31, -2 ** 40]


def start():
    plain.setup()
    import hypershell.data.model, hypershell.data, hypershell.core.heartbeat, hypershell.client    # noqa
    rc, out, err, _ = plain.forked(lambda: hypershell.data.initdb())
    if rc:
        raise RuntimeError(err)


def uid(rng):
    h = '%032x' % rng.getrandbits(128)
    return f'{h[:8]}-{h[8:12]}-4{h[13:16]}-a{h[17:20]}-{h[20:]}'


def val(v):
    if isinstance(v, datetime):
        u = v.astimezone(timezone.utc)      # without a zone: local time
        return {'k': 't', 's': u.strftime('%Y-%m-%d %H:%M:%S.%f')}
    if v is None:
        return {'k': 'n', 's': ''}
    if isinstance(v, dict):
        return {'k': 'd', 's': json.dumps([[k, val(x)] for k, x in sorted(v.items())])}
    if isinstance(v, (list, tuple)):
        return {'k': 'l', 's': json.dumps([val(x) for x in v])}
    return {'k': type(v).__name__, 's': str(v)}


def fields(obj):
    return {k: val(v) for k, v in obj.items()}


def when(rng, zone):
    # never in the hour which exists twice
    t = datetime(2024, rng.randint(1, 12), rng.randint(4, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60),
                 rng.choice([0, 1, 123456, 999999, 500000]), tzinfo=timezone.utc)
    return t.astimezone(zone) if zone else t


def maybe(rng, x, p=0.7):
    return x if rng.random() < p else None


def make_task(rng, zone):
    ids = [uid(rng) for _ in range(5)]
    return dict(id=ids[0], args=rng.choice(TEXT), submit_id=ids[1], submit_time=when(rng, zone), submit_host=maybe(rng, rng.choice(TEXT)),
                server_id=maybe(rng, ids[1]), server_host=maybe(rng, rng.choice(TEXT)), schedule_time=maybe(rng, when(rng, zone)),
                client_id=maybe(rng, ids[2]), client_host=maybe(rng, rng.choice(TEXT)), command=maybe(rng, rng.choice(TEXT)),
                start_time=maybe(rng, when(rng, zone)), completion_time=maybe(rng, when(rng, zone)), exit_status=rng.choice(INTS),
                outpath=maybe(rng, rng.choice(TEXT)), errpath=maybe(rng, rng.choice(TEXT)), attempt=rng.choice([1, 2, 7]),
                retried=rng.random() < 0.5, waited=rng.choice(INTS), duration=rng.choice(INTS), previous_id=maybe(rng, ids[3], 0.3),
                next_id=maybe(rng, ids[4], 0.3), tag={rng.choice(TAGK): rng.choice(TAGV) for _ in range(rng.choice([0, 1, 2, 4]))})


def there(zone, fn, timeout=60):
    """fn() in a process of its own which lives in the given time zone."""
    def go():
        os.environ['TZ'] = zone
        time.tzset()
        return fn()
    rc, out, err, res = plain.forked(go, timeout=timeout)
    return res if rc == 0 else None


def b64(b):
    return base64.b64encode(b).decode()


def run(job):
    from hypershell.data.model import Task, Client
    from hypershell.core.heartbeat import Heartbeat, ClientState
    from hypershell.client import ClientInfo
    rng = random.Random(job['seed'])
    events = []
    here, away = rng.sample(ZONES, 2)
    n = job.get('n', 6)
    now = datetime.now(timezone.utc)

    def zone(name):
        hours = {'UTC0': 0, 'EST5': -5, 'JST-9': 9, 'XXX-5:45': 5.75, 'AAA11': -11}.get(name, -4)
        return timezone(timedelta(hours=hours))

    made = [make_task(rng, zone(here)) for _ in range(n)]

    # transport
    def pack():
        return [b64(Task(**t).pack()) for t in made]

    def unpack(msgs):
        return [fields(Task.unpack(base64.b64decode(m)).to_dict()) for m in msgs]
    for t in made:
        events.append({'e': 'put', 'key': t['id'], 'v': fields(t)})
    got = there(away, lambda: unpack(there_msgs)) if (there_msgs := there(here, pack)) else None
    for k, t in enumerate(made):
        events.append({'e': 'get', 'how': 'wire', 'key': t['id'], 'ok': got is not None, 'v': got[k] if got else {}})

    # storage by one process, reading by another, and transport from there
    def store():
        # as every process does: in its own time zone
        Task.add_all([Task(**{k: v.astimezone() if isinstance(v, datetime) else v for k, v in t.items()}) for t in made])

    def load():
        return [fields(Task.from_id(t['id']).to_dict()) for t in made]

    def again():
        return [b64(Task.from_id(t['id']).pack()) for t in made]
    there(here, store)
    got = there(here, load)
    for k, t in enumerate(made):
        events.append({'e': 'get', 'how': 'stored', 'key': t['id'], 'ok': got is not None, 'v': got[k] if got else {}})
    msgs = there(here, again)
    got = there(away, lambda: unpack(msgs)) if msgs else None
    for k, t in enumerate(made):
        events.append({'e': 'get', 'how': 'stored-wire', 'key': t['id'], 'ok': got is not None, 'v': got[k] if got else {}})

    # results made elsewhere, recorded here
    results = [{k: v for k, v in make_task(rng, zone(away)).items() if k in ('start_time', 'completion_time', 'exit_status', 'duration', 'waited',
                                                                            'command', 'client_host', 'outpath')} for _ in made]

    def finish():
        out = []
        for m, r in zip(msgs or [], results):
            t = Task.unpack(base64.b64decode(m))
            for k, v in r.items():
                setattr(t, k, v)
            out.append(b64(t.pack()))
        return out

    def record(back):
        Task.update_all([{k: v for k, v in Task.unpack(base64.b64decode(m)).to_dict().items() if k in results[0] or k == 'id'} for m in back])

    back = there(away, finish)
    if back:
        there(here, lambda: record(back))
    got = there(here, load)
    for k, (t, r) in enumerate(zip(made, results)):
        events.append({'e': 'change', 'key': t['id'], 'v': fields(r)})
        events.append({'e': 'get', 'how': 'result', 'key': t['id'], 'ok': got is not None, 'v': got[k] if got else {}})

    # heartbeats, confirmations, clients
    beats = [dict(uuid=uid(rng), host=rng.choice(TEXT), time=when(rng, zone(here)), state=rng.choice(list(ClientState))) for _ in range(3)]

    def hb(x):
        return {'uuid': val(x['uuid']), 'host': val(x['host']), 'time': val(x['time']), 'state': val(x['state'].name)}
    msgs = there(here, lambda: [b64(Heartbeat(**b).pack()) for b in beats])
    got = there(away, lambda: [hb(vars(Heartbeat.unpack(base64.b64decode(m)))) for m in msgs]) if msgs else None
    for k, b in enumerate(beats):
        events.append({'e': 'put', 'key': b['uuid'], 'v': hb(b)})
        events.append({'e': 'get', 'how': 'heartbeat', 'key': b['uuid'], 'ok': got is not None, 'v': got[k] if got else {}})

    def register():
        from hypershell.data.core import Session    # noqa
        for m in msgs:
            Client.add(Client.from_heartbeat(Heartbeat.unpack(base64.b64decode(m))))

    def clients():
        return [{'uuid': val(c.id), 'host': val(c.host), 'time': val(c.connected_at), 'state': val(b['state'].name)}
                for b in beats for c in [Client.from_id(b['uuid'])]]
    there(away, register)
    got = there(away, clients)
    for k, b in enumerate(beats):
        events.append({'e': 'get', 'how': 'client', 'key': b['uuid'], 'ok': got is not None, 'v': got[k] if got else {}})
    infos = [dict(client_id=uid(rng), client_host=rng.choice(TEXT), task_ids=[uid(rng) for _ in range(rng.choice([0, 1, 5]))]) for _ in range(2)]
    msgs = there(here, lambda: [b64(ClientInfo(**i).pack()) for i in infos])
    got = there(away, lambda: [fields(vars(ClientInfo.unpack(base64.b64decode(m)))) for m in msgs]) if msgs else None
    for k, i in enumerate(infos):
        events.append({'e': 'put', 'key': i['client_id'], 'v': fields(i)})
        events.append({'e': 'get', 'how': 'confirmation', 'key': i['client_id'], 'ok': got is not None, 'v': got[k] if got else {}})
    return json.loads(json.dumps(events))
