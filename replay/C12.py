from replay.base import require
from skdecide import Domain, Solver
from skdecide.core import Memory, Distribution, DiscreteDistribution
from skdecide.builders.domain import *
from skdecide.builders.solver import Policies, UncertainPolicies, DeterministicPolicies, QValues, Restorable, ParallelSolver
import skdecide.builders.solver.parallelability as par

RULE = 'scripted solvers of every policy kind and generality on scripted domains; repeated solve/load sequences; contexts with failing bodies'
BOUNDS = 'bounded: sequences of at most 4 solves; parallel domains replaced by recorders'


def cases(rng, tier):
    for multi in (0, 1):
        for parl in (0, 1):
            for hist in (0, 1):
                for _ in range(6):
                    yield dict(k='solve', multi=multi, par=parl, hist=hist, sub=rng.random() < .5, fresh=rng.random() < .5,
                               seq=[rng.choice(['solve', 'with', 'default', 'load', 'same']) for _ in range(rng.randint(1, 4))])
    for kind in ('sampled', 'distribution', 'deterministic'):
        yield dict(k='policy', kind=kind, seed=rng.randrange(10 ** 6))
    for f in (None, 'KeyError', 'KeyboardInterrupt', 'SystemExit', 'GeneratorExit', 'StopIteration'):
        yield dict(k='ctx', fails=f)
    for mode in ('seq', 'pipe', 'shm'):
        for how in ('with', 'get', 'init'):
            yield dict(k='par', mode=mode, how=how, n=rng.randint(1, 4))


def check(case):
    globals()['_' + case['k']](case)


def _policy(case):
    import random
    rng = random.Random(case['seed'])
    acts = {o: 'a%d' % rng.randrange(9) for o in range(6)}
    K = {'sampled': Policies, 'distribution': UncertainPolicies, 'deterministic': DeterministicPolicies}[case['kind']]

    class S(K, QValues):
        def _is_policy_defined_for(self, o): return o in acts
        def _get_utility(self, o): return ('u', o)
        def _get_q_value(self, o, a): return ('q', o, a)
    if case['kind'] == 'sampled':
        S._sample_action = lambda self, o: acts[o]
    elif case['kind'] == 'distribution':
        S._get_next_action_distribution = lambda self, o: DiscreteDistribution([(acts[o], 1.), ('never', 0.)])
    else:
        S._get_next_action = lambda self, o: acts[o]
    s = S()
    for o in range(6):
        require(s.is_policy_defined_for(o) is True and s.is_policy_defined_for(o + 10) is False, 'is_policy_defined_for')
        require(s.sample_action(o) == acts[o], 'sample_action(%d) = %r, policy says %r' % (o, s.sample_action(o), acts[o]))
        if case['kind'] == 'deterministic':
            require(s.get_next_action(o) == acts[o], 'next action')
            require(s.get_next_action_distribution(o).get_values() == [(acts[o], 1)], 'distribution of a deterministic policy')
        require(s.get_utility(o) == ('u', o) and s.get_q_value(o, 1) == ('q', o, 1), 'values')


def _solve(case):
    multi, parl, hist = case['multi'], case['par'], case['hist']
    T = type('T', (Domain,) + ((() if multi else (SingleAgent,)) + (() if parl else (Sequential,)) + (DeterministicTransitions,)
                               + (() if hist else (Markovian,))), {})
    made, log = [], []

    class D(*([T] if case['sub'] else [Domain]), SingleAgent, Sequential, DeterministicTransitions, Markovian):
        def __init__(self): made.append(self)
        def _get_next_state(self, memory, action): return ('next', memory, action)

    def up(a):
        a = [a] if parl else a
        return {'agent': a} if multi else a

    def see(f, tag):
        d = f()
        if case['fresh'] and more[0]:
            e = f()
            require(e is more[0] and e is not d, 'calling the factory again does not make another domain')
            require(e.get_next_state(Memory(['old', 's']) if hist else 's', up('a')) == ('next', 's', 'a'), 'second domain of the factory')
        r = d.get_next_state(Memory(['old', 's']) if hist else 's', up('a'))
        require(r == ('next', 's', 'a'), 'the solver calling the domain function gets %r' % (r,))
        log.append((tag, d))

    class S(Solver, DeterministicPolicies, Restorable):
        T_domain = T
        def _solve_domain(self, f): see(f, 'solve')
        def _load(self, path, f):
            require(path == '/p', 'path %r' % (path,))
            see(f, 'load')
        def _get_next_action(self, o): return up(('best', o['agent'] if multi else o))
        def _is_policy_defined_for(self, o): return True
    s = S()
    last = D()
    feed, more = [], [None]
    for how in case['seq']:
        d = last if how == 'same' else D() if how != 'default' else None
        feed[:] = [D(), d] if d is not None and case['fresh'] else []
        more[0] = feed[0] if feed else None
        fac = (lambda: feed.pop() if feed else d)
        if how == 'solve':
            s.solve(fac)
            r = s
        else:
            kw = {} if how == 'default' else dict(domain_factory=fac)
            if how == 'load':
                kw['load_path'] = '/p'
            r = D.solve_with(s, **kw)
            o = s.get_next_action('o')
            require(o == ('best', 'o'), 'policy answer %r after %r' % (o, case['seq']))
        require(r is s, 'other solver returned')
        require(len(log) == 1 and log[0][0] == ('load' if how == 'load' else 'solve') and (d is None or log[0][1] is d), 'log %r' % (log,))
        last = log.pop()[1]


def _ctx(case):
    log = []

    class S(Solver):
        def _initialize(self): log.append('init')
        def _cleanup(self): log.append('clean')
    s = S()
    import builtins
    for again in range(3):
        del log[:]
        X = getattr(builtins, case['fails'] or 'KeyError')
        try:
            with s as t:
                require(t is s and log == ['init'], 'entering: %r' % log)
                if case['fails']:
                    raise X()
            require(not case['fails'], 'exception swallowed')
        except X:
            require(case['fails'], 'exception')
        require(log == ['init', 'clean'], 'context: %r' % log)


def _par(case):
    made, seqs = [], []

    class Fake:
        def __init__(self, factory, *a, lambdas=None, ipc_notify=False):
            self.a = (factory, a, lambdas, ipc_notify)
            self.log, self.jobs = [], []
            made.append(self)
        def _launch_processes(self): self.log.append('launch')
        def close(self): self.log.append('close')
        def method(self, *args):
            self.jobs.append(('r',) + args)
            return len(self.jobs) - 1
        def get_result(self, k): return self.jobs[k]

    class Shm(Fake): pass

    class Seq:
        def __init__(self): seqs.append(self)
        def method(self, *args): return ('r',) + args
    old = par.PipeParallelDomain, par.ShmParallelDomain
    par.PipeParallelDomain, par.ShmParallelDomain = Fake, Shm
    proxy = object() if case['mode'] == 'shm' else None
    try:
        class S(ParallelSolver, Solver):
            def __init__(self):
                ParallelSolver.__init__(self, Seq, case['mode'] != 'seq', proxy)
                self._lambdas, self._ipc_notify = ['h'], True
        s = S()

        def use():
            for i in range(case['n']):
                require(s.call_domain_method('method', i, 'x') == ('r', i, 'x'), 'call_domain_method')
            d = s.get_domain()
            if case['mode'] == 'seq':
                require(seqs == [d] and not made, 'sequential domain')
            else:
                require(made == [d] and type(d) is (Shm if proxy else Fake), 'parallel domain')
                require(d.a == (Seq, (proxy,) if proxy else (), ['h'], True) and d.log == ['launch'], 'parallel domain %r %r' % (d.a, d.log))
            return d
        if case['how'] == 'with':
            with s:
                d = use()
        else:
            s._initialize() if case['how'] == 'init' else s.get_domain()
            d = use()
            s.close()
        if case['mode'] != 'seq':
            require(d.log == ['launch', 'close'], 'closing: %r' % d.log)
            s.close()
            require(d.log == ['launch', 'close'], 'closing twice: %r' % d.log)
            require(s.get_domain() is not d, 'closed domain used again')
    finally:
        par.PipeParallelDomain, par.ShmParallelDomain = old
