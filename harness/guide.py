"""
Replay of a behaviour of the specification (HSWalk) in the real server and clients.

The behaviour is a list of steps [action, client, details, visible].  Threads are stopped before each operation which
could be a step of the model (a shared queue, the database, the input, starting a process); the one which is to perform
the next step is let go until the observable event of the step has happened.  Operations which are no steps (polling,
local queues, heartbeats of registered clients) are not restricted.  A step which does not happen within some number of
operations is passed over and counted, and at the end of the behaviour all restrictions are lifted.
"""
import collections

SERVER_ROLES = {'hypershell-submit-loader': 'loader', 'hypershell-submit-committer': 'committer',
                'hypershell-scheduler': 'scheduler', 'hypershell-receiver': 'receiver', 'hypershell-confirm': 'confirm',
                'hypershell-heartmonitor': 'heart', 'hypershell-server': 'main'}
CLIENT_ROLES = {'hypershell-client-scheduler': 'sched', 'hypershell-client-collector': 'collector',
                'hypershell-heartbeat': 'beat', 'hypershell-client': 'main'}

STEPS = {   # action -> role which performs it, and the event which shows it
    'SubRead': ('loader', 'src'), 'SubEnd': ('loader', 'src_end'), 'SubFlush': ('committer', ('db', 'sq_put')),
    'SchStart': ('scheduler', 'db'), 'SchLoad': ('scheduler', 'db'), 'SchPost': ('scheduler', ('sq_put', 'db')),
    'RecGet': ('receiver', 'dq_get'), 'RecUpd': ('receiver', ('db', 'fail_out')),
    'ConGet': ('confirm', 'cq_get'), 'ConUpd': ('confirm', 'db'),
    'HbGet': ('heart', 'hb_get'), 'HbUpd': ('heart', 'db'), 'HbSignal': ('heart', 'sq_put'), 'HbEvict': ('heart', 'db'),
    'HbRevert': ('heart', 'db'), 'HbLate': ('heart', 'db'),
    'MainHb': ('main', 'dq_put'), 'MainRec': ('main', 'cq_put'), 'MainEnd': ('main', 'proc_end'),
    'CReg': (('main', 'beat'), 'hb_put'), 'CBeat': ('beat', 'hb_put'), 'CGet': ('sched', 'sq_get'), 'CConf': ('sched', 'cq_put'),
    'CExec': ('executor', 'start'), 'CSend': ('collector', 'dq_put'), 'CFinal': (('main', 'beat'), 'hb_put'), 'CBye': ('main', 'proc_end'),
}
UNTIL = {'MainSub': ('loader', 'committer'), 'MainSched': ('scheduler', )}     # these threads have ended
DONE = {'CStart', 'CExit', 'ClientDies', 'ServerDies', 'UserCancel', 'UserSignal', 'ClientSignal'}     # done by the guide itself
SILENT = {'SchSelect', 'SchStart', 'SchLoad', 'SchCount', 'SchFailed'}    # one query each


class Guide:
    PATIENCE = 150       # operations within which a step must happen

    def __init__(self, world, spec):
        self.world, self.sim = world, world.sim
        self.steps = spec['steps']
        self.clients = spec['clients']
        self.k = 0
        self.age = 0
        self.pos = len(self.sim.events)
        self.done = self.missed = 0
        self.registered = set()
        self.server = 'S'
        self.restart = spec.get('restart')
        self.gens = 1
        self.user = None            # process of a user's command under way
        self.misses = {}
        self.early = collections.Counter()      # steps which happened before their turn

    # ---- what threads are about to do ------------------------------------------------------------
    def role(self, t):
        name = t.name.split(':', 1)[1]
        if t.proc.name == self.server:
            return SERVER_ROLES.get(name)
        if t.proc.name in self.clients:
            return 'executor' if name.startswith('hypershell-executor') else CLIENT_ROLES.get(name)
        return None

    def gated(self, t, role):
        """Whether the next operation of a thread is (or may be) a step of the model."""
        op = t.op
        if role is None:
            return False
        if op[0] in ('src', 'sql'):
            return True
        if op[0] == 'popen':
            return True
        if op[0] in ('put', 'get'):
            if t.pred is not None and not t.pred():
                return False                                # a poll which finds nothing, or no room
            if op[1] == 'heartbeat':
                if op[0] == 'put':
                    return t.proc.name not in self.registered or self.final(op) or self.doomed() == t.proc.name
                return not self.routine(t)
            return True
        return False

    def doomed(self):
        """The client which is to be evicted next: its heartbeats are late."""
        a, p, x, v = self.steps[self.k] if self.k < len(self.steps) else ('', '', [], False)
        return x[0] if a == 'HbEvict' and x else None

    @staticmethod
    def final(op):
        from hypershell.core.heartbeat import Heartbeat, ClientState
        return len(op) > 2 and op[2] is not None and Heartbeat.unpack(op[2]).state is ClientState.FINISHED

    def routine(self, t):
        """The next heartbeat is one of a client which has been seen before."""
        return self.hbq and self.hbq[0] in self.known

    # ---- following the behaviour -----------------------------------------------------------------
    hbq = known = None

    def watch(self):
        """Events since the last decision; whether the awaited one is among them."""
        ev = self.sim.events
        if self.hbq is None:
            self.hbq, self.known = [], set()
        want = self.want()
        while self.pos < len(ev):
            e = ev[self.pos]
            self.pos += 1
            if e['e'] == 'hb_put' and not e['none']:
                self.hbq.append((e['c'], e['fin']))
                self.registered.add(e['p'])
            elif e['e'] == 'hb_get' and self.hbq:
                c, fin = self.hbq.pop(0)
                if not fin and (c, False) in self.known:
                    continue                # (one of a client which has been seen before is no step)
                if not want or want[1] != ('hb_get', ):
                    self.early['HbGet'] += 1
                self.known.discard((c, False)) if fin else self.known.add((c, False))
            elif e['e'] == 'db' and any(u['f'].get('ev') for u in e['cupd']):
                for u in e['cupd']:
                    self.known.discard((u['id'], False))
                    self.registered.discard(u['id'])
            if want and e['e'] in want[1] and e.get('p') == want[0] and self.fits(e):
                self.advance(True)
                while self.k < len(self.steps) and self.inside():
                    self.k += 1
                want = self.want()

    def fits(self, e):
        """Whether a write to the database is the one of the current step."""
        a = self.steps[self.k][0]
        if e['e'] != 'db':
            return True
        gone = [u for u in e['cupd'] if u['f'].get('ev')]
        if a == 'HbEvict':
            return any(u['id'] in self.steps[self.k][2] for u in gone)
        if a == 'HbUpd':
            return bool(e['cins'] or e['cupd']) and not gone
        back = any(u['f'].get('sch') == -1 for u in e['upd'])
        if a in ('HbRevert', 'HbLate'):
            return back
        if a in ('SchLoad', 'SchStart'):
            return bool(e['upd'] or e['ins'] or e['dele'])
        if a == 'ConUpd':
            return any(set(u['f']) <= {'cli', 'clih'} for u in e['upd'])
        if a == 'RecUpd':
            return any('ct' in u['f'] or 'ex' in u['f'] or 'st' in u['f'] for u in e['upd'])
        return True

    def inside(self):
        """Whether the current step is one inside of a thread, which cannot be seen."""
        a, p, x, v = self.steps[self.k]
        return not v and a not in SILENT and a not in UNTIL and a not in DONE

    def want(self):
        if self.k >= len(self.steps):
            return None
        a, p, x, v = self.steps[self.k]
        if a not in STEPS or not v:
            return None
        e = STEPS[a][1]
        return (p or self.server), ((e,) if isinstance(e, str) else e)

    def advance(self, ok):
        a = self.steps[self.k][0]
        if ok:
            self.done += 1
        else:
            self.missed += 1
            self.misses[a] = self.misses.get(a, 0) + 1
        self.k += 1
        self.age = 0

    def finish(self):
        """The run is over; what came last may not have been counted."""
        self.watch()
        while self.k < len(self.steps) and self.inside():
            self.k += 1
        return [self.done, self.missed, len(self.steps) - self.k, self.misses]

    def stuck(self):
        """Nothing can happen while the current step is awaited: pass it over."""
        if self.k >= len(self.steps):
            return False
        self.advance(False)
        return True

    def perform(self):
        """Steps which are no operations of a thread. Returns False if the current step is none of these."""
        a, p, x, v = self.steps[self.k]
        do = self.world.do
        if a == 'CStart':
            do(['client', self.clients[p]])
        elif a == 'CExit':
            child = next((c for c in self.sim.children if c.proc.name == p and c.returncode is None
                          and c.beh.get('args') == x[0] and c.exit_at is None), None)
            if child is None:
                return None
            child.code, child.exit_at = x[2], self.sim.now
            self.sim.reap_children()
        elif a == 'ClientDies':
            do(['kill', p])
        elif a == 'ServerDies':
            for name, proc in list(self.sim.procs.items()):
                if proc.alive:
                    do(['kill', name])
            self.gens += 1
            self.server = f'S{self.gens}'
            self.hbq, self.known, self.registered = [], set(), set()
            do(['server', self.server, self.restart])
        elif a == 'UserCancel':
            do(['user', 'cancel', {'args': [x[0]], 'waiting': True}])
            self.user = self.sim.procs[f'U{self.world.user_no}']
        elif a in ('UserSignal', 'ClientSignal'):
            do(['signal', p or self.server, 10])
        else:
            return False
        return True

    def __call__(self, ready):
        self.watch()
        while self.k < len(self.steps) and not self.user:
            a, p, x, v = self.steps[self.k]
            r = self.perform()
            if r is True:
                self.advance(True)
                self.watch()
                continue
            if r is None:
                self.age += 1
                if self.age > 40:
                    self.advance(False)
                    continue
                break
            if a in ('CBye', 'MainEnd') and not self.sim.procs[p or self.server].alive:
                self.advance(True)      # (the end of a process cannot be put off)
                continue
            if a in STEPS and v:
                if self.early[a]:
                    self.early[a] -= 1
                    self.advance(False)
                    continue
                break
            if a in SILENT:
                break
            if a in UNTIL and any(t.state != 'done' and self.role(t) in UNTIL[a] for t in self.sim.procs[self.server].threads):
                break
            self.k += 1          # a step inside of a thread
        ready = [t for t in self.sim.threads if t.proc.alive and t.runnable(self.sim.now)]
        if self.user:
            if self.user.alive:
                return [t for t in ready if t.proc is self.user]     # the user's command, at once
            self.user = None
        if self.k >= len(self.steps):
            for c in self.sim.children:
                if c.exit_at is None and c.returncode is None:
                    c.exit_at = self.sim.now
            return ready
        a, p, x, v = self.steps[self.k]
        self.age += 1
        if self.age > (4 * self.PATIENCE if a == 'HbEvict' else self.PATIENCE):
            self.advance(False)
            return self(ready)
        roles = STEPS[a][0] if a in STEPS else UNTIL.get(a) or ('scheduler' if a in SILENT else None)
        roles = (roles,) if not isinstance(roles, tuple) else roles
        free, mine = [], []
        for t in ready:
            role = self.role(t)
            if t.proc.name == (p or self.server) and role in roles:
                mine.append(t)
            elif not self.gated(t, role):
                free.append(t)
        if a in SILENT and not v and mine and mine[0].op[0] == 'sql':
            if a == 'SchSelect':                       # all that is read before something is written
                if not mine[0].op[1].startswith('SELECT'):
                    self.advance(True)
                    return self(ready)
            else:
                self.advance(True)
            return mine[:1]
        if mine:
            stopped = [t for t in mine if self.gated(t, self.role(t))]
            if stopped:
                return stopped
            return mine + free
        return free


# ---- from behaviours to scenarios ------------------------------------------------------------------
import random   # noqa
import scenarios   # noqa


def scenario(conf, steps, seed):
    """A run of the real code which follows a behaviour of the model with these bounds."""
    rng = random.Random(seed)
    mortal = conf['ccrash'] or conf['evict']
    kw = dict(bs=conf['subBS'] if conf['inmem'] else conf['bs'], bw=1, retries=conf['attempts'] - 1, eager=conf['eager'], forever=conf['forever'],
              noconfirm=conf['noconfirm'], inmem=conf['inmem'], evict=rng.choice([12, 20]) if mortal else 36_000,
              redirect=conf['redirect'], qs=conf['qs'])
    src = ['a', 'b', 'c', 'd'][:conf['items']]
    leave = {st[1] for st in steps if st[0] == 'CLeave'}
    cl = {name: scenarios.client(name, n=conf['n'], bs=conf['cBS'], bw=1, hr=4 if mortal else 1000, noconfirm=conf['noconfirm'] or conf['inmem'],
                                 timeout=3 if conf['ctimeout'] >= 0 and name in leave else None)
          for g in conf['clients'] for name in g}
    return dict(seed=seed, policy=rng.choice(['random', 'sticky', 'rr']), step_ms=[0, 0], horizon=36_000_000, max_steps=30_000, slack=500_000_000,
                family='walk', server=scenarios.server(src=src, **kw), clients=[], tasks={'*': [dict(dur=None, code=0)]},
                walk=dict(steps=steps, clients=cl, restart=scenarios.server(src=None, restart=True, **kw)))
