from replay.base import require
from skdecide import Domain
from skdecide.builders.domain import *
from skdecide.builders.domain.dynamics import UncertainTransitions
import copy

RULE = 'every cached query, up to 60 domains of the same class queried in random order, also copies of domains'
BOUNDS = 'bounded: 60 domains'
ROUNDS = 2
G = {'get_action_space': Events, 'get_goals': Goals, 'get_observation_space': PartiallyObservable, 'get_constraints': Constrained,
     '_get_memory_maxlen': FiniteHistory, 'get_initial_state': DeterministicInitialized,
     'get_initial_state_distribution': UncertainInitialized, 'is_transition_value_dependent_on_next_state': UncertainTransitions}


def cases(rng, tier):
    for g in G:
        for n in (1, 2, 5, 60):
            yield dict(g=g, n=n, seed=rng.randrange(10 ** 6))


def check(case):
    import random
    rng = random.Random(case['seed'])
    g = case['g']
    helper = ('_' if not g.startswith('_') else '') + g + '_'
    D = type('D', (Domain, G[g]), {})
    n = {}

    def hook(self):
        n[id(self)] = n.get(id(self), 0) + 1
        return ('v', self.tag, n[id(self)])
    setattr(D, helper, hook)
    ds = []
    for i in range(case['n']):
        d = D()
        d.tag = i
        ds.append(d)
    for r in range(3 * case['n']):
        d = rng.choice(ds)
        v = getattr(d, g)()
        require(v == ('v', d.tag, 1), '%s of domain %d gives %r' % (g, d.tag, v))
    c = copy.copy(ds[0])
    c.tag = 'copy'
    require(getattr(c, g)()[1] == 'copy', 'a copy answers for the original')
    require(all(v == 1 for v in n.values()), 'recomputed')
