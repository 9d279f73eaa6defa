from replay.base import require
from multiprocess import Value, Array, SimpleQueue
import os, time
import skdecide.domains as dm

RULE = 'random sequences of calls on one to three piped or shared-memory domains in real processes; forwarding table of every domain method'
BOUNDS = 'bounded: at most 3 domains and 12 calls, two sessions'
ROUNDS = 1

FORWARD = {'reset': [], 'get_initial_state_distribution': [], 'get_initial_state': [], 'get_observation_space': [],
           'is_observation': ['observation'], 'get_observation_distribution': ['state', 'action'], 'get_observation': ['state', 'action'],
           'get_enabled_events': ['memory'], 'is_enabled_event': ['event', 'memory'], 'get_action_space': [], 'is_action': ['event'],
           'get_applicable_actions': ['memory'], 'is_applicable_action': ['action', 'memory'], 'step': ['action'],
           'sample': ['memory', 'action'], 'get_next_state_distribution': ['memory', 'action'], 'get_next_state': ['memory', 'action'],
           'get_transition_value': ['memory', 'action', 'next_state'], 'is_transition_value_dependent_on_next_state': [], 'get_goals': [],
           'is_goal': ['observation'], 'is_terminal': ['state'], 'check_value': ['value'], 'render': ['memory'],
           'some_other_method': [None, None, None]}


def cases(rng, tier):
    yield dict(k='fwd')
    yield dict(k='run', shm=True, n=2, ops=[[dict(i=None, name=nm, args=['B'])] for nm in ('mute', 'm', 'fail', 'none')], layout=1, seed=1,
               lazy=False, wait=0, again=True, ipc=True)
    for shm in (False, True):
        for n in (1, 2):
            op = lambda nm: dict(i=None, name=nm, args=['A'])
            yield dict(k='run', shm=shm, n=n, ops=[[op('m')], [op(0)], [op(1)]], layout=0, seed=n, lazy=True, wait=.03, again=True, ipc=False)
    for _ in range(40 if tier == 'quick' else 300):
        n = rng.randint(1, 3)
        ops = []
        for _ in range(rng.randint(2, 4)):       # rounds of simultaneous calls
            doms = rng.sample(range(n), rng.randint(1, n))
            ops.append([dict(i=i if rng.random() < .6 else None, name=rng.choice(['m', 'm', 'three', 'pair', 'none', 'fail', 'mute', 1, 0]),
                             args=[rng.choice('AABK') for _ in range(rng.randint(0, 3))]) for i in doms])
            if rng.random() < .5:
                ops[-1].reverse()
        yield dict(k='run', shm=rng.random() < .6, n=n, ops=ops, layout=rng.randrange(3), seed=rng.randrange(10 ** 6),
                   lazy=rng.random() < .3, wait=rng.choice([0, 0, .02]), again=rng.random() < .3, ipc=rng.random() < .3)
    for lay in range(3):
        yield dict(k='full', layout=lay)


class V:
    def __init__(self, v): self.v = v
    def __eq__(self, o): return type(o) is type(self) and o.v == self.v
    def __repr__(self): return '%s(%r)' % (type(self).__name__, self.v)


class A(V): pass
class B(V): pass
class K(V): pass


T = dict(A=A, B=B, K=K)


class Proxy:
    """Values are triples of integers; A uses two cells, B one array, K three cells."""
    def __init__(self, layout): self.layout = layout
    def copy(self): return Proxy(self.layout)
    def register(self): return self.layout
    def initialize(self, t): return Array('d', [0, 0]) if t is B else [Value('d', 0.) for _ in range(2 if t is A else 3)]

    def encode(self, v, cells):
        if type(v) is B:
            cells[0], cells[1] = v.v
        else:
            cells[0].value, cells[1].value = v.v

    def decode(self, t, cells):
        return t((cells[0], cells[1]) if t is B else (cells[0].value, cells[1].value))


LAYOUTS = [[(A, 4), (B, 4), (K, 4)], [(K, 3), (B, 3), (A, 3)], [(B, 3), (A, 4), (K, 3)]]


def tot(args, k): return (float(sum((j + 2) * a.v[0] for j, a in enumerate(args)) + k), float(len(args)))


class Dom:
    def m(self, *a): return A(tot(a, 1))
    def three(self, *a): return A(tot(a, 1)), A(tot(a, 2)), B(tot(a, 3))
    def pair(self, *a): return K(tot(a, 1)), B(tot(a, 2))
    def none(self, *a): return None
    def echo(self, *a): return a
    def many(self, a): return tuple(type(a)(a.v) for _ in range(int(a.v[1])))

    def fail(self, *a):
        raise ValueError('not applicable')

    def mute(self, *a):
        raise ValueError()


def lam0(d, *a): return K(tot(a, 7)) if type(d) is Dom else None
def lam(d, *a): return B(tot(a, 9)) if type(d) is Dom else None


def check(case):
    if case['k'] == 'fwd':
        log = []

        class P(dm.ParallelDomain):
            def launch(self, i, name, *args):
                log.append((i, name, args))
                return 'job'
        p = P(None, nb_domains=3)
        for name, ps in FORWARD.items():
            for args in [tuple('x%d' % k for k in range(len(ps)))] + [(v,) * len(ps) for v in (None, 1, True)]:
              for kw in ({}, {'i': 0}, {'i': 2}):
                require(getattr(p, name)(*args, **kw) == 'job', 'job of %s' % name)
                require(log.pop() == (kw.get('i'), name, args), '%s%r launches another call' % (name, args))
            if ps and None not in ps:
                getattr(p, name)(**dict(zip(ps, args)))
                require(log.pop() == (None, name, args), '%s by keyword' % name)
        p.call(1, 4, 'a')
        require(log.pop() == (1, 4, ('a',)), 'call')
        p.call(0, 0, None)
        require(log.pop() == (0, 0, (None,)), 'call')
        p.wake_up_domain(0)
        require([p.wake_up_domain(), p.wake_up_domain(2)] == [1, 2] and list(p._active_domains) == [1, 1, 1], 'busy domains')
        require(p.wake_up_domain(0) == 0, 'requested domain')
        return
    if case['k'] == 'full':
        return full(case)
    import random
    rng = random.Random(case['seed'])
    lams, ipc = [lam0, lam], case.get('ipc', False)
    if case['shm']:
        p = dm.ShmParallelDomain(Dom, Proxy(LAYOUTS[case['layout']]), lambdas=lams, nb_domains=case['n'], ipc_notify=ipc)
    else:
        p = dm.PipeParallelDomain(Dom, lambdas=lams, nb_domains=case['n'], ipc_notify=ipc)
    if ipc:
        Push.box, dm.Push0 = SimpleQueue(), Push
    for again in range(1 + case.get('again', 0)):
        pids = []
        if case.get('lazy') and not ipc:
            session(case, p, rng, False, pids)
            p.close()
        else:
            with p as q:
                require(q is p and all(p._processes), 'entering the context launches the domains')
                session(case, p, rng, ipc, pids)
        for pid in pids:
            require(not alive(pid), 'a process is still there after closing')
        require(not any(p._processes), 'processes left after closing')


def alive(pid):
    try:
        os.kill(pid, 0)
        return True
    except ProcessLookupError:
        return False


class Push:
    """Stand-in for the notification socket: the messages of all domain processes, with their address."""
    box = None
    def dial(self, addr): self.addr = addr
    def send(self, m): Push.box.put((self.addr, bytes(m)))
    def close(self): pass


def full(case):
    """All registers of a type used by arguments and results; one more is refused, and the domain goes on working."""
    lay = LAYOUTS[case['layout']]
    with dm.ShmParallelDomain(Dom, Proxy(lay), nb_domains=1) as p:
        for t, n in lay + lay[::-1]:
            args = [t((float(j), float(n))) for j in range(n)]
            got = p.get_result(p.echo(*args))
            require(list(got) == args, '%d arguments and results of type %s: %r' % (n, t.__name__, got))
            got = p.get_result(p.many(t((1., float(n)))))
            require(list(got) == [t((1., float(n)))] * n, '%d results of type %s: %r' % (n, t.__name__, got))
            got = p.get_result(p.many(t((1., n + 1.))))
            require(got is None, '%d results of type %s when %d can be returned: %r' % (n + 1, t.__name__, n, got))
            mixed = [u((float(j), 1.)) for j in range(1) for u, _ in lay]
            require(list(p.get_result(p.echo(*mixed))) == mixed, 'one argument of each type')


def session(case, p, rng, ipc, pids):
    for ops in case['ops']:
        sent, used = [], []
        for op in sorted(ops, key=lambda o: o['i'] is None):
            if ipc and not case['shm'] and op['name'] in ('fail', 'mute'):
                continue          # a notified failure of a piped domain has no result to fetch
            args = [T[t]((float(rng.randrange(100)), 0.)) for t in op['args']]
            j = p.launch(op['i'], op['name'], *args) if op['name'] in (0, 1) else getattr(p, op['name'])(*args, i=op['i'])
            require(j not in used and j in range(case['n']) and (op['i'] is None or j == op['i']), 'domain %r for request %r' % (j, op['i']))
            require(p._active_domains[j], 'domain not busy during the call')
            used.append(j)
            d = Dom()
            want = None if op['name'] in ('fail', 'mute') else (lam0, lam)[op['name']](d, *args) if op['name'] in (0, 1) else getattr(d, op['name'])(*args)
            sent.append((j, op, args, want))
        if rng.random() < .5:
            sent.reverse()
        if ipc:
            addr = p.get_ipc_connections()
            require(len(set(addr)) == case['n'] and None not in addr, 'addresses %r' % (addr,))
            notes = {}
            for _ in sent:
                require(Push.box._reader.poll(10), 'no notification of a call')
                a, m = Push.box.get()
                require(a in addr and a not in notes, 'address %r of a notification' % (a,))
                notes[a] = m
            for j, op, args, want in sent:
                require(notes.get(addr[j]) == (b'not applicable' if op['name'] == 'fail' else b'' if op['name'] == 'mute' else b'0'), 'notification of call %r' % (op['name'],))
        if case.get('wait'):
            time.sleep(case['wait'])
        for j, op, args, want in sent:
            got = p.get_result(j)
            if type(want) is tuple:
                got = tuple(got)
            require(got == want, 'call %r%r on domain %d returned %r instead of %r' % (op['name'], tuple(args), j, got, want))
            require(not p._active_domains[j], 'domain still busy after its answer')
    pids += [q.pid for q in p._processes]
    require(not ipc or Push.box.empty(), 'more notifications than calls')
