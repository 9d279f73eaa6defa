"""Random deterministic goal domains and reference shortest paths."""
import random, heapq
from skdecide import DeterministicPlanningDomain, TransitionValue
from skdecide.builders.domain import UnrestrictedActions
from skdecide.core import EnumerableSpace, ImplicitSpace
from skdecide.hub.space.gym import ListSpace


def graph(rng, n=None, zero=True):
    """successors {state: [[action, next, cost]]}, start, goals"""
    n = n or rng.randint(1, 7)
    edges = {s: [[a, rng.randrange(n), rng.choice([0, 1, 1, 2, 3, 7] if zero else [1, 1, 2, 3, 7])] for a in range(rng.randint(1, 3))] for s in range(n)}
    return dict(n=n, edges={str(s): e for s, e in edges.items()}, start=rng.randrange(n), goals=[s for s in range(n) if rng.random() < .25])


def make(g, restricted=True):
    E = {int(s): {a: (t, c) for a, t, c in e} for s, e in g['edges'].items()}

    class Graph(DeterministicPlanningDomain):
        T_state = T_observation = T_event = int
        T_value = float
        calls = 0

        def _get_next_state(self, memory, action):
            return E[memory][action][0]

        def _get_transition_value(self, memory, action, next_state=None):
            return TransitionValue(cost=E[memory][action][1])

        def _is_terminal(self, state):
            return state in g['goals']

        def _get_action_space_(self):
            return ListSpace([0, 1, 2])

        def _get_applicable_actions_from(self, memory):
            return ListSpace(sorted(E[memory]))

        def _get_goals_(self):
            return ImplicitSpace(lambda o: o in g["goals"])

        def _get_initial_state_(self):
            return g['start']

        def _get_observation_space_(self):
            return ListSpace(list(range(g['n'])))
    return Graph, E


def distances(g):
    """Cheapest cost to a goal, for every state from which one can be reached."""
    back = {}
    for s, e in g['edges'].items():
        for _, t, c in e:
            back.setdefault(t, []).append((int(s), c))
    d, q = {}, [(0, s) for s in g['goals']]
    heapq.heapify(q)
    while q:
        v, s = heapq.heappop(q)
        if s in d:
            continue
        d[s] = v
        for p, c in back.get(s, ()):
            heapq.heappush(q, (v + c, p))
    return d


def follow(sv, E, g, start, limit=400):
    """Cost of following the policy from start to a goal (None if it does not get there)."""
    s, cost, seen = start, 0, [start]
    while s not in g['goals']:
        if not sv.is_policy_defined_for(s):
            return None, seen
        a = sv.sample_action(s)
        if a not in E[s]:
            return None, seen
        t, c = E[s][a]
        cost, s = cost + c, t
        seen.append(s)
        if len(seen) > limit:
            return None, seen
    return cost, seen
