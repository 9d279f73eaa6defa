import contextlib, io
from replay.base import require
from replay.graphref import *
from skdecide import Domain, DiscreteDistribution, TransitionValue
from skdecide.builders.domain import *
from skdecide.hub.space.gym import ListSpace
from skdecide.hub.solver.lrtastar import LRTAstar
from skdecide.hub.solver.simple_greedy import SimpleGreedy

RULE = 'random graphs played by LRTA* (policies followed to a goal) and by SimpleGreedy (compared with the best expected reward)'
BOUNDS = 'bounded: at most 7 states, 3 actions per state, 4 outcomes per action'
ROUNDS = 8


def cases(rng, tier):
    for _ in range(30):
        g = graph(rng)
        yield dict(what='lrta', g=g, h=rng.choice([0, .5, 1]), start=rng.choice([None, rng.randrange(g['n'])]), other=rng.choice([None, graph(rng)]))
    for _ in range(30):
        n = rng.randint(1, 4)
        yield dict(what='greedy', dep=rng.random() < .5, par=rng.random() < .5, n=n, acts=[sorted(rng.sample(range(4), rng.randint(1, 4))) for _ in range(n)],
                   out=[[[[rng.randrange(n), w] for w in rng.choice([[1], [.5, .5], [.25, .75], [.25, .25, .5], [.25] * 4])] for _ in range(4)] for _ in range(n)],
                   r=[[[rng.choice([-2, -1, 0, 0, 1, 3]) for _ in range(n)] for _ in range(4)] for _ in range(n)])


def check(case):
    (lrta if case['what'] == 'lrta' else greedy)(case)


def lrta(case):
    sv = None
    for g in [case['g']] + ([case['other']] if case['other'] else []):
        cls, E = make(g)
        d = distances(g)
        k = case['h']
        start = case['start'] if case['start'] is not None and case['start'] < g['n'] else None
        if sv is None:
            sv = LRTAstar(from_state=start, heuristic=(lambda dom, s: k * dd.get(s, 50)) if k else None)
        dd = d
        sv._from_state = start
        with contextlib.redirect_stdout(io.StringIO()):
            cls.solve_with(sv)
        s0 = start if start is not None else g['start']
        if s0 in d:
            require(sv.is_policy_defined_for(s0), 'no policy at the start %r, from which a goal can be reached' % s0)
        if sv.is_policy_defined_for(s0):
            cost, seen = follow(sv, E, g, s0)
            require(cost is not None, 'the policy does not lead from %r to a goal: %r' % (s0, seen))
            require(len(set(seen)) == len(seen), 'a state is visited twice: %r' % seen)
        for s in range(g['n']):
            require(sv.is_policy_defined_for(s) == (s in sv._policy), 'policy defined at %r' % s)
            u = sv.get_utility(s)
            require(u == (sv.values[s] if s in sv.values else (k * d.get(s, 50) if k else 0)), 'utility of %r is %r' % (s, u))
        s = max(range(g['n']), key=lambda s: (s in sv.values and s not in g.get('goals', ()), s))
        if k and s in sv.values:                # a learned value of zero is a learned value
            old, sv.values[s] = sv.values[s], 0.
            sv._heuristic, h = (lambda dom, s: 7.), sv._heuristic
            require(sv.get_utility(s) == 0, 'utility of %r is %r, learned value 0' % (s, sv.get_utility(s)))
            sv.values[s], sv._heuristic = old, h


def greedy(case):
    R, out = case['r'], case['out']

    class Dom(Domain, SingleAgent, Parallel if case['par'] else Sequential, EnumerableTransitions, Actions, Initializable, Markovian, FullyObservable, Rewards):
        T_state = T_observation = T_event = int
        T_value = float
        T_info = None

        def _get_next_state_distribution(self, m, a):
            a = a[0] if case['par'] else a
            return DiscreteDistribution([(s, w) for s, w in out[m][a]])

        def _get_transition_value(self, m, a, s=None):
            a = a[0] if case['par'] else a
            return TransitionValue(reward=R[m][a][s] if case['dep'] else R[m][a][0])

        def _is_transition_value_dependent_on_next_state_(self): return case['dep']
        def _is_terminal(self, s): return False
        def _get_action_space_(self): return ListSpace([0, 1, 2, 3])
        def _get_applicable_actions_from(self, m): return ListSpace(case['acts'][m])
        def _state_reset(self): return 0
        def _get_observation_space_(self): return ListSpace(list(range(case['n'])))
    sv = SimpleGreedy()
    Dom.solve_with(sv)
    for s in range(case['n']):
        def ev(a):
            if not case['dep']:
                return R[s][a][0]
            tot = sum(w for _, w in out[s][a])
            return sum(w * R[s][a][t] for t, w in out[s][a]) / tot
        vals = {a: ev(a) for a in case['acts'][s]}
        a = sv.sample_action(s)
        require(sv.is_policy_defined_for(s), 'policy defined everywhere')
        if case['par']:
            require(isinstance(a, list) and len(a) == 1, 'parallel action %r' % (a,))
            a = a[0]
        require(a in vals, 'action %r does not apply in %r' % (a, s))
        require(vals[a] >= max(vals.values()) - 1e-9, 'action %r earns %r, the best %r' % (a, vals[a], vals))
