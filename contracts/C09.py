"""Cached constant queries of a domain."""
from pyvc.contract import Registry
from pyvc.engine import *
from skdecide import Domain
from skdecide.builders.domain import *
from skdecide.builders.domain.dynamics import UncertainTransitions

CONTRACTS = contract = Registry()
ASSUMPTIONS = ['functools.lru_cache answers a repeated call with the same arguments by the stored result while fewer than maxsize '
               'other entries were stored (assumed contract); domains are compared by identity']
B = 'skdecide.builders.domain.'
# public query -> (helper the author overrides, internal cached method, builder)
GETTERS = {
    'get_action_space': ('_get_action_space_', '_get_action_space', 'events:Events', [Events]),
    'get_goals': ('_get_goals_', '_get_goals', 'goals:Goals', [Goals]),
    'get_observation_space': ('_get_observation_space_', '_get_observation_space', 'observability:PartiallyObservable', [PartiallyObservable]),
    'get_constraints': ('_get_constraints_', '_get_constraints', 'constraints:Constrained', [Constrained]),
    '_get_memory_maxlen': ('_get_memory_maxlen_', '_get_memory_maxlen', 'memory:FiniteHistory', [FiniteHistory]),
    'get_initial_state': ('_get_initial_state_', '_get_initial_state', 'initialization:DeterministicInitialized', [DeterministicInitialized]),
    'get_initial_state_distribution': ('_get_initial_state_distribution_', '_get_initial_state_distribution',
                                       'initialization:UncertainInitialized', [UncertainInitialized]),
    'is_transition_value_dependent_on_next_state': (
        '_is_transition_value_dependent_on_next_state_', '_is_transition_value_dependent_on_next_state',
        'dynamics:UncertainTransitions', [UncertainTransitions])}


def getter(pub):
    helper, cached, where, bases = GETTERS[pub]

    @contract(pub, B + where + '.' + cached, B + where + '.' + pub)
    def verify(c):
        calls = []
        vals = {}

        class D(Domain, *bases):
            pass

        def hook(self):
            calls.append(self)
            return vals[id(self)][min(calls.count(self), 2) - 1]
        setattr(D, helper, hook)
        d1, d2 = D(), D()
        for d in (d1, d2):
            vals[id(d)] = [OBJ.fresh('v'), OBJ.fresh('w')]
        order = c.case('order', [(1, 1, 2, 2, 1), (1, 2, 1, 2, 1), (2, 1, 1, 2, 2)])
        for n, i in enumerate(order):
            d = (d1, d2)[i - 1]
            c.prove('own value, the first one computed, on every call', eqf(getattr(d, pub)(), vals[id(d)][0]))
        c.prove('computed once per domain', sorted(map(id, calls)) == sorted([id(d1), id(d2)]))
        if pub != cached:
            c.prove('internal query agrees', eqf(getattr(d1, cached)(), vals[id(d1)][0]))
    return verify


for _p in GETTERS:
    getter(_p)
