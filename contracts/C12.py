"""Solver layer: policies, solving through the cast layer, restoring, context handling, parallel solvers."""
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
from contracts.common import with_memory
import skdecide.solvers as sol
import skdecide.builders.solver.parallelability as par
from skdecide import Domain, Solver
from skdecide.core import Memory, Distribution, SingleValueDistribution, ImplicitDistribution
from skdecide.builders.domain import *
from skdecide.builders.solver import Policies, UncertainPolicies, DeterministicPolicies, Utilities, QValues, Restorable, ParallelSolver

CONTRACTS = contract = Registry()
ASSUMPTIONS = ['the solving algorithm, policy and restoring hooks are arbitrary functions of their arguments',
               'domain types: single agent, sequential, Markovian, solved by solvers of every more general agent/concurrency/memory '
               'level (the cast layer itself is under contract in C05)',
               'the piped and shared-memory domains are replaced by their contracts in the parallel solver (C13)']
B = 'skdecide.builders.solver.'


@contract('policies', B + 'policy:UncertainPolicies._sample_action', B + 'policy:DeterministicPolicies._get_next_action_distribution',
          B + 'policy:Policies.sample_action', B + 'policy:UncertainPolicies.get_next_action_distribution',
          B + 'policy:DeterministicPolicies.get_next_action', B + 'policy:Policies.is_policy_defined_for')
def policies(c):
    best, o, kind = func('best', OBJ), OBJ.fresh('observation'), c.case('kind', ['sampled', 'distribution', 'deterministic'])
    draws = []

    class Dist(Distribution):
        def __init__(self, o): self.o = o

        def sample(self):
            draws.append(self.o)
            return best(self.o)
    d = func('defined', OBJ, ret=BOOL)

    class S({'sampled': Policies, 'distribution': UncertainPolicies, 'deterministic': DeterministicPolicies}[kind]):
        def _is_policy_defined_for(self, observation): return d(observation)
    if kind == 'sampled':
        S._sample_action = lambda self, observation: best(observation)
    elif kind == 'distribution':
        S._get_next_action_distribution = lambda self, observation: Dist(observation)
    else:
        S._get_next_action = lambda self, observation: best(observation)
    s = S()
    c.prove('defined exactly where the solver says so', Iff(s.is_policy_defined_for(o), d(o)))
    c.prove('defined, by keyword', Iff(s.is_policy_defined_for(observation=o), d(o)))
    c.prove('sampled action', eqf(s.sample_action(o), best(o)))
    if kind == 'distribution':
        c.prove('one draw from the distribution of the observation', len(draws) == 1 and eqf(draws[0], o))
        c.prove('distribution of the observation', eqf(s.get_next_action_distribution(o).o, o))
    if kind == 'deterministic':
        c.prove('next action', eqf(s.get_next_action(o), best(o)))
        q = s.get_next_action_distribution(o)
        vals = q.get_values()
        c.prove('a single action with probability one', len(vals) == 1 and And(eqf(vals[0][0], best(o)), eqf(vals[0][1], 1)))
        c.prove('sampling gives the action', eqf(q.sample(), best(o)))


@contract('values', B + 'assessability:Utilities.get_utility', B + 'assessability:QValues.get_q_value')
def values(c):
    u, q, o, a = func('u', OBJ), func('q', OBJ, OBJ), OBJ.fresh('observation'), OBJ.fresh('action')

    class S(QValues):
        def _get_utility(self, observation): return u(observation)
        def _get_q_value(self, observation, action): return q(observation, action)
    s = S()
    c.prove('utility', eqf(s.get_utility(o), u(o)))
    c.prove('Q value', And(eqf(s.get_q_value(o, a), q(o, a)), eqf(s.get_q_value(action=a, observation=o), q(o, a))))


def setting(c):
    multi, parallel, hist = [c.case(k, [False, True]) for k in ('multi-agent solver', 'parallel-action solver', 'history solver')]
    T = type('T', (Domain,) + ((() if multi else (SingleAgent,)) + (() if parallel else (Sequential,)) + (DeterministicTransitions,)
                               + (() if hist else (Markovian,))), {})
    nxt, best, made, log = func('next', OBJ, OBJ), func('best', OBJ), [], []

    class D(Domain, SingleAgent, Sequential, DeterministicTransitions, Markovian):
        def __init__(self): made.append(self)
        def _get_next_state(self, memory, action): return nxt(memory, action)

    def up(a):
        a = [a] if parallel else a
        return {'agent': a} if multi else a

    def see(domain_factory, tag):
        n0, old = len(made), made[-1:] and made[-1]
        dom = domain_factory()
        x, a = OBJ.fresh('state'), OBJ.fresh('action')
        m = Memory([OBJ.fresh('older'), x]) if hist else x
        log.append((tag, dom, eqf(dom.get_next_state(m, up(a)), nxt(x, a)),
                    eqf(dom.get_next_state(action=up(a), memory=m), nxt(x, a))))

    class S(Solver, DeterministicPolicies, Restorable):
        T_domain = T
        def _solve_domain(self, domain_factory): see(domain_factory, 'solve')
        def _load(self, path, domain_factory):
            self.path = path
            see(domain_factory, 'load')
        def _get_next_action(self, observation): return up(best(observation['agent'] if multi else observation))
        def _is_policy_defined_for(self, observation): return True
    return D, S, made, log, best


def seen(c, log, d, tag, what):
    c.prove(what + ': exactly one solving or loading', len(log) == 1 and log[0][0] == tag)
    if d is not None:
        c.prove(what + ': the given domain', log[0][1] is d)
    c.prove(what + ': domain functions at the level of the solver', And(log[0][2], log[0][3]))
    log.clear()


@contract('solve', 'skdecide.solvers:Solver.solve', 'skdecide.solvers:Solver._solve', setup=with_memory)
def solve(c):
    D, S, made, log, best = setting(c)
    s = S()
    if c.case('factory', ['class', 'function']) == 'class':
        s.solve(D)
        seen(c, log, made[-1], 'solve', 'class')
        return
    d = D()
    s.solve(lambda: d)
    seen(c, log, d, 'solve', 'function')
    s.solve(lambda: d)
    seen(c, log, d, 'solve', 'second time')


@contract('solve_with', 'skdecide.domains:Domain.solve_with', setup=with_memory)
def solve_with(c):
    D, S, made, log, best = setting(c)
    s, how = S(), c.case('factory', ['default', 'given'])
    load = c.case('load', [False, True])
    tag, kw = ('load', dict(load_path='/some/path')) if load else ('solve', {})

    def ask(what):
        o = OBJ.fresh('observation')
        c.prove(what + ': policy at the level of the domain', And(eqf(s.get_next_action(o), best(o)), eqf(s.sample_action(o), best(o)),
                                                                  eqf(s.get_next_action_distribution(o).get_values()[0][0], best(o))))
    for k in ('first', 'again'):
        d = None if how == 'default' else D()
        r = D.solve_with(s, **({} if how == 'default' else dict(domain_factory=lambda: d)), **kw)
        c.prove(k + ': same solver returned', r is s)
        c.prove(k + ': fresh domain of the class', how == 'given' or type(made[-1]) is D and log[0][1] is made[-1])
        c.prove(k + ': path', not load or s.path == '/some/path')
        seen(c, log, d, tag, k)
        ask(k)


@contract('restore', B + 'restorability:Restorable.save', B + 'restorability:Restorable.load')
def restore(c):
    log, p, q, f = [], OBJ.fresh('path'), OBJ.fresh('path2'), lambda: None

    class S(Solver, Restorable):
        T_domain = Domain
        def _save(self, path): log.append(path)
        def _load(self, path, domain_factory): log.append((path, domain_factory))
    s = S()
    s.save(p)
    s.load(q, f)
    c.prove('forwarded', len(log) == 2 and And(eqf(log[0], p), eqf(log[1][0], q), log[1][1] is f))


@contract('solve_from and reset', 'skdecide.solvers:Solver.solve_from', 'skdecide.solvers:Solver.reset')
def from_(c):
    log, m = [], OBJ.fresh('memory')

    class S(Solver):
        def _solve_from(self, memory): log.append(memory)
        def _reset(self): log.append('reset')
    s = S()
    s.reset()
    s.solve_from(m)
    c.prove('forwarded', len(log) == 2 and log[0] == 'reset' and eqf(log[1], m))


@contract('context', 'skdecide.solvers:Solver.__enter__', 'skdecide.solvers:Solver.__exit__')
def context(c):
    log = []

    class S(Solver):
        def _initialize(self): log.append('init')
        def _cleanup(self): log.append('clean')
    s, fails = S(), c.case('body raises', [False, True])
    got = None
    try:
        with s as t:
            c.prove('initialized first, nothing cleaned', log == ['init'] and t is s)
            if fails:
                raise KeyError('body')
    except KeyError as e:
        got = e
    c.prove('cleaned up once, after', log == ['init', 'clean'])
    c.prove('exceptions of the body are passed on', (got is not None) == fails)


def stub_parallel():
    old = par.PipeParallelDomain, par.ShmParallelDomain

    def undo():
        par.PipeParallelDomain, par.ShmParallelDomain = old
    return undo


@contract('parallel solver', B + 'parallelability:ParallelSolver._initialize', B + 'parallelability:ParallelSolver.close',
          B + 'parallelability:ParallelSolver.get_domain', B + 'parallelability:ParallelSolver.call_domain_method',
          B + 'parallelability:ParallelSolver.__init__', setup=stub_parallel)
def parallel(c):
    mode = c.case('mode', ['sequential', 'pipe', 'shm'])
    f, made, made_seq = func('method', OBJ, OBJ), [], []

    class Fake:
        def __init__(self, factory, *a, lambdas=None, ipc_notify=False):
            self.factory, self.proxy, self.lambdas, self.ipc, self.log, self.jobs = factory, a, lambdas, ipc_notify, [], {}
            made.append(self)

        def _launch_processes(self): self.log.append('launch')
        def close(self): self.log.append('close')

        def method(self, *args):
            c.prove('processes launched before the call', self.log[:1] == ['launch'])
            k = OBJ.fresh('job')
            self.jobs[len(self.jobs)] = (k, f(*args))
            return k

        def get_result(self, k):
            hit = [v for kk, v in self.jobs.values() if kk is k]
            c.prove('result of the launched job', len(hit) == 1)
            return hit[0]

    class Shm(Fake): pass
    par.PipeParallelDomain, par.ShmParallelDomain = Fake, Shm
    proxy = object() if mode == 'shm' else None

    class Seq:
        def __init__(self): made_seq.append(self)
        def method(self, *args): return f(*args)

    class S(ParallelSolver, Solver):
        def __init__(self):
            ParallelSolver.__init__(self, Seq, mode != 'sequential', proxy)
            self._lambdas, self._ipc_notify = ['heuristic'], True
    s = S()
    how = c.case('created by', ['with', 'get_domain', 'initialize'])

    def use():
        x, y = OBJ.fresh('x'), OBJ.fresh('y')
        c.prove('call of a domain method', eqf(s.call_domain_method('method', x, y), f(x, y)))
        x, y = OBJ.fresh('x'), OBJ.fresh('y')
        c.prove('second call', eqf(s.call_domain_method('method', x, y), f(x, y)))
        d = s.get_domain()
        if mode == 'sequential':
            c.prove('domain of the factory', type(d) is Seq and made_seq == [d] and not made)
        else:
            c.prove('one parallel domain of the right kind', made == [d] and type(d) is (Fake if mode == 'pipe' else Shm) and not made_seq)
            c.prove('with the factory, the lambdas and the notifications', d.factory is Seq and d.lambdas == ['heuristic'] and d.ipc is True
                    and list(d.proxy) == ([proxy] if proxy else []))
            c.prove('launched once', d.log == ['launch'])
        return d
    if how == 'with':
        with s:
            d = use()
    else:
        if how == 'initialize':
            s._initialize()
        else:
            s.get_domain()
        d = use()
        s.close()
    if mode != 'sequential':
        c.prove('closed once', d.log == ['launch', 'close'])
        s.close()
        c.prove('closing again does nothing', d.log == ['launch', 'close'])
        e = s.get_domain()
        c.prove('a closed domain is not used again', e is not d and e.log == ['launch'])
