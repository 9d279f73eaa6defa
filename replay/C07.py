from replay.base import require
from skdecide import Domain
from skdecide.core import ImplicitDistribution, DiscreteDistribution, SingleValueDistribution, TransitionValue
from skdecide.builders.domain import *
from skdecide.builders.domain.dynamics import UncertainTransitions, EnumerableTransitions, DeterministicTransitions

RULE = 'random finite models (states 0..n-1, so falsy states occur) for every dynamics / initialization / observability level'
BOUNDS = 'bounded: up to 4 states and 3 actions'
ROUNDS = 3
DYN = {'uncertain': UncertainTransitions, 'enumerable': EnumerableTransitions, 'deterministic': DeterministicTransitions}
INI = {'uncertain': UncertainInitialized, 'deterministic': DeterministicInitialized}
OBS = {'partial': PartiallyObservable, 'transformed': TransformedObservable, 'full': FullyObservable}


class Ob(tuple):
    def __bool__(self): return False


class Tv(TransitionValue):
    def __bool__(self): return False


def cases(rng, tier):
    for a in DYN:
        for b in INI:
            for c in OBS:
                for m in ('markovian', 'history', 'finite', 'memoryless'):
                    for _ in range(3):
                        yield dict(dyn=a, ini=b, obs=c, mem=m, seed=rng.randrange(10 ** 6))


def check(case):
    import random
    rng = random.Random(case['seed'])
    n, k = rng.randint(1, 4), rng.randint(1, 3)
    supp = {(s, a): rng.sample(range(n), 1 if case['dyn'] == 'deterministic' else rng.randint(1, n)) for s in range(n) for a in range(k)}
    val = {(s, a, t): rng.randint(-9, 9) for s in range(n) for a in range(k) for t in list(range(n)) + [None]}
    term = [rng.random() < .4 for _ in range(n)]
    init = rng.sample(range(n), 1 if case['ini'] == 'deterministic' else rng.randint(1, n))
    last = lambda m: m[-1] if case['mem'] in ('history', 'finite') else 0 if m is None else m
    drawn = []

    class D(Domain, SingleAgent, Sequential, DYN[case['dyn']], INI[case['ini']], {'markovian': Markovian, 'history': History, 'finite': FiniteHistory, 'memoryless': Memoryless}[case['mem']],
            OBS[case['obs']]):
        def _get_transition_value(self, memory, action, next_state=None):
            return Tv(reward=val[last(memory), action, next_state])

        def _is_terminal(self, state):
            return term[state]

        def _get_memory_maxlen_(self):
            return 2 if case['mem'] == 'finite' else super()._get_memory_maxlen_()
    dist = lambda vs: (lambda: DiscreteDistribution([(v, 1. / len(vs)) for v in vs]))()
    if case['dyn'] == 'deterministic':
        D._get_next_state = lambda self, m, a: supp[last(m), a][0]
    else:
        D._get_next_state_distribution = lambda self, m, a: dist(supp[last(m), a])
    if case['ini'] == 'deterministic':
        D._get_initial_state_ = lambda self: init[0]
    else:
        D._get_initial_state_distribution_ = lambda self: dist(init)
    want_obs = lambda s, a: s if case['obs'] == 'full' else Ob(('o', s, a))
    if case['obs'] == 'partial':
        D._get_observation_distribution = lambda self, s, a=None: SingleValueDistribution(Ob(('o', s, a)))
    elif case['obs'] == 'transformed':
        D._get_observation = lambda self, s, a=None: Ob(('o', s, a))
    d = D()
    ini_seen = set()
    for ep in range(6):
        o = d.reset()
        none = case['mem'] == 'memoryless'
        s = (o if case['obs'] == 'full' else o[1]) if none else last(d._memory)
        require(s in init, 'reset to %r, initial states %r' % (s, init))
        ini_seen.add(s)
        require(o == want_obs(s, None), 'reset returns %r for %r' % (o, s))
        if case['ini'] == 'deterministic':
            require(d.get_initial_state() == init[0], 'get_initial_state')
        require(sorted(v for v, p in d.get_initial_state_distribution().get_values()) == sorted(init), 'initial distribution')
        for step in range(5):
            a = rng.randrange(k)
            s = 0 if none else s
            m = d._memory if case['mem'] in ('markovian', 'memoryless') else type(d._memory)(d._memory)
            if rng.random() < .5:
                out = d.step(a)
                t = (out.observation if case['obs'] == 'full' else out.observation[1]) if none else last(d._memory)
            else:
                out = d.sample(m, a)
                t = out.observation if case['obs'] == 'full' else out.observation[1]
            require(t in supp[s, a], 'state %r reached from %r by %r, model says %r' % (t, s, a, supp[s, a]))
            require(out.observation == want_obs(t, a), 'observation %r of %r' % (out.observation, t))
            require(out.value.reward == val[s, a, t] and out.value.cost == -val[s, a, t], 'value %r' % out.value)
            require(out.termination == term[t], 'termination in %r' % t)
            q = rng.choice(range(n))
            require(d.is_terminal(q) == term[q], 'is_terminal')
            require(sorted(v for v, p in d.get_next_state_distribution(m, a).get_values()) == sorted(supp[s, a]), 'distribution')
            require(d.get_transition_value(m, a, q).reward == val[s, a, q] and d.get_transition_value(m, a).reward == val[s, a, None], 'value query')
            if case['dyn'] == 'deterministic':
                require(d.get_next_state(m, a) == supp[s, a][0], 'get_next_state')
                gv = d.get_next_state_distribution(m, a).get_values()
                require(len(gv) == 1 and gv[0][1] == 1, 'certain next state')
            gv = d.get_observation_distribution(q, a).get_values()
            require(len(gv) == 1 and gv[0] == (want_obs(q, a), 1), 'observation distribution %r' % (gv,))
            s = last(d._memory)
