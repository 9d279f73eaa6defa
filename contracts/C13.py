"""Parallel domains: calls made through pipes or shared memory (skdecide.domains)."""
import types
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
import skdecide.domains as dm

CONTRACTS = contract = Registry()
ASSUMPTIONS = ['operating system processes, pipes, conditions and shared arrays behave as documented (replaced by sequential stand-ins: '
               'a server runs until it waits for something that is not there yet)',
               'the shared-memory proxy encodes and decodes each registered type without loss',
               'register layouts, method and argument lists are enumerated; every value carried is arbitrary']
M = 'skdecide.domains:'
PD, PP, SH = 'ParallelDomain', 'PipeParallelDomain', 'ShmParallelDomain'


class Wait(BaseException):
    """A server waits for something that is not there."""


class Arr(list):
    def __init__(self, t, v): super().__init__(v if not isinstance(v, (bytes, bytearray)) else [bytes([x]) for x in v])

    def __setitem__(self, k, v):
        n = len(self)
        super().__setitem__(k, [bytes([x]) for x in v] if isinstance(v, (bytes, bytearray)) else v)
        if len(self) != n:
            raise ValueError('must be same size')

    def __getitem__(self, k):
        r = super().__getitem__(k)
        return Bytes(b''.join(r)) if isinstance(k, slice) and r and isinstance(r[0], bytes) else r

    def get_lock(self): return Cond()
    def __enter__(self): return self
    def __exit__(self, *a): return False


class Bytes(bytes):
    pass


class Val:
    def __init__(self, t, v, lock=True): self.value = v
    def get_lock(self): return Cond()


class Cond:
    hook = None
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def notify_all(self): pass
    notify = notify_all
    def acquire(self, *a): return True
    def release(self): pass

    def wait_for(self, p, timeout=None):
        while not p():
            if not (self.hook and self.hook()):
                raise Wait()
        return True


class Pipe:
    def __init__(self): self.q, self.hook, self.closed = [], None, False

    def recv(self):
        while not self.q:
            if not (self.hook and self.hook()):
                raise Wait()
        return self.q.pop(0)

    def poll(self, *a): return bool(self.q)
    def send(self, x): self.peer.q.append(x)
    def close(self): self.closed = True


class Proc:
    def __init__(self, target, args=(), kwargs={}):
        self.target, self.args, self.kw, self.started, self.state = target, args, kwargs, 0, 'new'

    def start(self): self.started += 1

    def run_server(self):
        try:
            self.target(*self.args, **self.kw)
            self.state = 'ended'
        except Wait:
            self.state = 'waiting'

    def join(self, *a):
        self.run_server()
        engine.CTX.prove('a joined process ends', self.state == 'ended')

    def close(self): self.state = 'closed'


def fake_mp():
    def pipe():
        a, b = Pipe(), Pipe()
        a.peer, b.peer = b, a
        return a, b
    mp = types.SimpleNamespace(Array=lambda t, v, lock=True: Arr(t, v), Value=Val, Condition=Cond, Pipe=pipe, Process=Proc,
                               Manager=lambda: types.SimpleNamespace(list=lambda v: list(v)))
    old, dm.mp = dm.mp, mp
    return lambda: setattr(dm, 'mp', old)


class A:
    def __init__(self, v): self.v = v


class B:
    def __init__(self, v): self.v = v


class K:
    def __init__(self, v): self.v = v


class Cell:
    def __init__(self): self.value = None


class Proxy:
    """Registered types with their number of registers; A uses two cells, B one, K three."""
    def __init__(self, layout): self.layout = layout
    def copy(self): return Proxy(self.layout)
    def register(self): return self.layout
    def initialize(self, t): return Cell() if t is B else [Cell() for _ in range(2 if t is A else 3)]

    def encode(self, v, cells):
        cells = cells if isinstance(cells, list) else [cells]
        engine.CTX.prove('encoded in the right number of cells', len(cells) == {A: 2, B: 1, K: 3}[type(v)])
        for k, x in enumerate(cells):
            x.value = (type(v).__name__, k, v.v)

    def decode(self, t, cells):
        cells = cells if isinstance(cells, list) else [cells]
        engine.CTX.prove('decoded from the right number of cells', len(cells) == {A: 2, B: 1, K: 3}[t])
        for k, x in enumerate(cells):
            engine.CTX.prove('decoded cells hold one value of the type', x.value is not None and x.value[:2] == (t.__name__, k) and
                             x.value[2] is cells[0].value[2])
        return t(cells[0].value[2])


FORWARD = {'reset': [], 'get_initial_state_distribution': [], 'get_initial_state': [], 'get_observation_space': [],
           'is_observation': ['observation'], 'get_observation_distribution': ['state', 'action'], 'get_observation': ['state', 'action'],
           'get_enabled_events': ['memory'], 'is_enabled_event': ['event', 'memory'], 'get_action_space': [], 'is_action': ['event'],
           'get_applicable_actions': ['memory'], 'is_applicable_action': ['action', 'memory'], 'step': ['action'],
           'sample': ['memory', 'action'], 'get_next_state_distribution': ['memory', 'action'], 'get_next_state': ['memory', 'action'],
           'get_transition_value': ['memory', 'action', 'next_state'], 'is_transition_value_dependent_on_next_state': [], 'get_goals': [],
           'is_goal': ['observation'], 'is_terminal': ['state'], 'check_value': ['value'], 'render': ['memory'],
           'some_other_method': [None, None, None]}


def forward(c):
    log = []

    class P(dm.ParallelDomain):
        def launch(self, i, name, *args):
            log.append((i, name, args))
            return job
    p, job = P(None, nb_domains=3), OBJ.fresh('job')
    values = c.case('arguments', ['any', None, 1])
    for name, ps in FORWARD.items():
        for i in ('omitted', 0, 2):
            kw = {} if i == 'omitted' else {'i': i}
            for by in ('position', 'keyword'):
                if by == 'keyword' and (None in ps or not ps):
                    continue
                args = [OBJ.fresh('arg') for _ in ps] if values == 'any' else [values] * len(ps)
                r = getattr(p, name)(*args, **kw) if by == 'position' else getattr(p, name)(**dict(zip(ps, args)), **kw)
                c.prove(name + ': one job', len(log) == 1 and eqf(r, job))
                j, n, a = log.pop()
                c.prove(name + ': method and domain', n == name and j == (None if i == 'omitted' else i))
                c.prove(name + ': arguments in order', len(a) == len(args) and And(True, *[x is y if values != 'any' else eqf(x, y) for x, y in zip(a, args)]))
    a, b = OBJ.fresh('arg'), OBJ.fresh('arg')
    c.prove('lambda call', eqf(p.call(1, 4, a, b), job))
    j, n, ar = log.pop()
    c.prove('lambda and arguments', (j, n) == (1, 4) and len(ar) == 2 and And(eqf(ar[0], a), eqf(ar[1], b)))


contract('forwarding', *[M + PD + '.' + k for k in FORWARD if k != 'some_other_method'], M + PD + '.call', M + PD + '.__getattr__',
         setup=fake_mp)(forward)


@contract('choice of a domain', M + PD + '.wake_up_domain', M + PD + '.nb_domains', M + PD + '.get_parallel_capacity', setup=fake_mp)
def wake(c):
    n = c.case('domains', [1, 2, 3])
    p = dm.ParallelDomain(None, nb_domains=n)
    busy = [c.case('busy %d' % k, [False, True]) for k in range(n)]
    for k, b in enumerate(busy):
        p._active_domains[k] = b
    c.prove('capacity', p.nb_domains() == n and p.get_parallel_capacity() == n)
    i = c.case('requested', [None] + list(range(n)))
    if i is None and all(busy):
        return
    r = p.wake_up_domain(i)
    c.prove('a free domain, or the requested one', (not busy[r]) if i is None else r == i)
    c.prove('only that one becomes busy', [bool(x) for x in p._active_domains] == [b or k == r for k, b in enumerate(busy)])


def jobs(c, values):
    """A small set of calls: (name or lambda, argument types)."""
    return c.case('call', values)


def make_domain(c, shm, log):
    f = {}

    def out(name, args):
        vals = [x.v if shm else x for x in args]
        log.append(vals)
        g = lambda k: func('%s_%d_%d' % (name, len(vals), k), *([OBJ] * len(vals)))(*vals) if vals else \
            SymObj(z3.Const('%s!%d' % (name, k), U))
        if name == 'fail':
            raise ValueError('not applicable')
        if name == 'none':
            return None
        if not shm:
            return g(0)
        return {'m': lambda: A(g(0)), 'three': lambda: (A(g(0)), A(g(1)), B(g(2))), 'pair': lambda: (K(g(0)), B(g(1)), B(g(2))),
                'lam': lambda: B(g(0)), 'lam0': lambda: K(g(0))}[name]()

    class Dom:
        made = 0
        def __init__(self): Dom.made += 1
        def m(self, *a): return out('m', a)
        def three(self, *a): return out('three', a)
        def pair(self, *a): return out('pair', a)
        def none(self, *a): return out('none', a)
        def fail(self, *a): return out('fail', a)
    return Dom, [lambda d, *a: out('lam0', a) if type(d) is Dom else None, lambda d, *a: out('lam', a) if type(d) is Dom else None], out


CALLS = [('m', 'AB'), ('m', 'BAA'), ('three', 'AA'), ('pair', 'K'), ('none', 'A'), ('fail', 'AB'), (1, 'BK'), (0, 'B'), (1, ''), ('m', '')]


def expected_ok(c, tag, got, name, args, log, shm, out):
    c.prove(tag + ': executed once with the arguments', len(log) == 1 and len(log[0]) == len(args) and And(
        True, *[eqf(x, y.v if shm else y) for x, y in zip(log[0], args)]))
    want = None
    if name != 'fail':
        want = out({0: 'lam0', 1: 'lam'}.get(name, name), args)
    log.clear()
    if shm:
        if type(want) is tuple:
            c.prove(tag + ': results', type(got) in (list, tuple) and [type(x) for x in got] == [type(x) for x in want] and And(
                *[eqf(x.v, y.v) for x, y in zip(got, want)]))
        else:
            c.prove(tag + ': result', got is None if want is None else type(got) is type(want) and eqf(got.v, want.v))
    else:
        c.prove(tag + ': result', got is None if want is None else eqf(got, want))


def build(c, shm, n, log):
    Dom, lams, out = make_domain(c, shm, log)
    if shm:
        layout = [[(A, 3), (B, 2), (K, 1)], [(K, 2), (B, 3), (A, 2)]][c.case('layout', [0, 1])]
        p = dm.ShmParallelDomain(Dom, Proxy(layout), lambdas=lams, nb_domains=n)
    else:
        p = dm.PipeParallelDomain(Dom, lambdas=lams, nb_domains=n)
    return p, out


def calm(c, p):
    c.prove('no message left over', all(not a.q and not a.peer.q for q in p._processes for a in q.args if isinstance(a, Pipe)))


def arguments(shm, types_):
    return [{'A': A, 'B': B, 'K': K}[t](OBJ.fresh('arg')) if shm else OBJ.fresh('arg') for t in types_]


def session(shm):
    fns = [M + '_shm_launch_domain_server_', M + SH + '.__init__', M + SH + '.launch', M + SH + '.get_result', M + SH + '._launch_processes',
           M + SH + '.close'] if shm else [M + '_launch_domain_server_', M + PP + '.__init__', M + PP + '.launch', M + PP + '.get_result',
                                           M + PP + '._launch_processes', M + PP + '.close']
    kind = 'shared memory' if shm else 'pipes'

    @contract(kind + ': two domains at once', *fns, setup=fake_mp)
    def two(c):
        log = []
        p, out = build(c, shm, 2, log)
        first = c.case('first domain', [0, 1, None])
        one, other = CALLS[c.case('call', list(range(len(CALLS))))], CALLS[c.case('other call', [0, 2, 6])]
        order, answer = c.case('order', ['same', 'reversed']), c.case('answers', ['same', 'reversed'])
        todo = []
        for k, (name, ts) in enumerate((one, other)):
            args = arguments(shm, ts)
            i = first if k == 0 or first is None else 1 - first
            j = p.launch(i, name, *args) if name in (0, 1) else getattr(p, name)(*args, i=i)
            c.prove('requested domain, or a free one', j == i if i is not None else j in (0, 1) and j not in [t[0] for t in todo])
            todo.append((j, name, args))
        c.prove('two servers started once', [q.started for q in p._processes] == [1, 1] and all(p._active_domains))
        logs = {}
        for j, name, args in (todo if order == 'same' else todo[::-1]):
            p._processes[j].run_server()
            logs[j] = list(log)
            log.clear()
        for j, name, args in (todo if answer == 'same' else todo[::-1]):
            got = p.get_result(j)
            log[:] = logs[j]
            expected_ok(c, 'job', got, name, args, log, shm, out)
            c.prove('domain free again', not p._active_domains[j])
        calm(c, p)
        p.close()
        c.prove('every process ended', all(q is None for q in p._processes))

    @contract(kind + ': successive calls of one server', *fns, setup=fake_mp)
    def seq(c):
        log = []
        p, out = build(c, shm, 1, log)
        plan = [CALLS[c.case('call', list(range(len(CALLS))))], CALLS[c.case('next call', [0, 2, 4, 5, 6])], CALLS[3]]
        jobs_, done = [], []

        def parent():
            """Called when the server waits: read the answer to the last call and send the next one."""
            if jobs_:
                name, args = jobs_[-1]
                got = p.get_result(0)
                expected_ok(c, 'job %d' % len(jobs_), got, name, args, log, shm, out)
                done.append(name)
            if len(jobs_) == len(plan):
                return False
            name, ts = plan[len(jobs_)]
            args = arguments(shm, ts)
            jobs_.append((name, args))
            j = p.launch(0, name, *args) if name in (0, 1) else getattr(p, name)(*args)
            c.prove('same domain', j == 0)
            return True
        p._launch_processes()
        proc = p._processes[0]
        conns = [a for a in proc.args if isinstance(a, (Pipe, Cond))]
        if len(conns) != 1:
            raise Unsupported('connection of the server not recognised')
        conns[0].hook = parent
        proc.run_server()
        calm(c, p)
        c.prove('all jobs served by one domain', len(done) == 3 and proc.state == 'waiting' and p._domain_factory.made == 1)
        conns[0].hook = None
        p.close()


    @contract(kind + ': answer fetched during the call', *fns, setup=fake_mp)
    def early(c):
        log = []
        p, out = build(c, shm, c.case('domains', [1, 2, 3]), log)
        for k in range(2):
            name, ts = CALLS[c.case('call %d' % k, list(range(len(CALLS))) if k == 0 else [0, 3, 5, 7])]
            args = arguments(shm, ts)
            j = p.launch(None, name, *args) if name in (0, 1) else getattr(p, name)(*args)
            c.prove('domains launched by the first call, one busy', all(q.started == 1 for q in p._processes) and p._active_domains[j] and
                    sum(bool(x) for x in p._active_domains) == 1)
            proc = p._processes[j]
            conns = [a for a in proc.args if isinstance(a, (Pipe, Cond))]
            if len(conns) != 1:
                raise Unsupported('connection of the server not recognised')
            conn = conns[0] if shm else conns[0].peer

            def serve():
                if conn.hook is None:
                    return False
                conn.hook = None
                proc.run_server()
                return True
            conn.hook = serve
            got = p.get_result(j)
            c.prove('the answer waits for the end of the call', conn.hook is None)
            expected_ok(c, 'job %d' % k, got, name, args, log, shm, out)
            c.prove('domain free again', not p._active_domains[j])
            calm(c, p)
        p.close()
        c.prove('every process ended', all(q is None for q in p._processes))


session(False)
session(True)
