from replay.base import require
from replay.graphref import *
from skdecide.hub.solver.lazy_astar import LazyAstar

RULE = 'random graphs with random consistent heuristics: plan, values and policy compared with Dijkstra'
BOUNDS = 'bounded: at most 7 states and 3 actions per state'
ROUNDS = 40


def cases(rng, tier):
    for _ in range(60):
        g = graph(rng)
        yield dict(g=g, h=rng.choice(['none', 'exact', 'half', 'graded']), start=rng.choice([None, rng.randrange(g['n'])]), again=rng.randrange(g['n']))


def check(case):
    g = case['g']
    cls, E = make(g)
    d = distances(g)
    k = dict(none=0, exact=1, half=.5, graded=.75).get(case['h'])
    h = None if case['h'] == 'none' else (lambda dom, s: k * d.get(s, 50))
    sv = LazyAstar(from_state=case['start'], heuristic=h)
    for turn in range(3):
        start = case['start'] if case['start'] is not None else g['start']
        if turn == 2:
            sv._from_state = start = case['again']
        cls.solve_with(sv)
        check_plan(sv, E, g, d, start, h)


def check_plan(sv, E, g, d, start, h):
    if start not in d:
        require(not sv.is_policy_defined_for(start), 'a policy at %r which cannot reach a goal' % start)
        return
    require(sv.is_policy_defined_for(start), 'no policy at %r, from which a goal can be reached' % start)
    cost, seen = follow(sv, E, g, start)
    require(cost is not None, 'the policy from %r does not reach a goal: %r' % (start, seen))
    require(abs(cost - d[start]) < 1e-9, 'the plan from %r costs %r, the cheapest one %r' % (start, cost, d[start]))
    for s in range(g['n']):
        require(sv.is_policy_defined_for(s) == (s in seen), 'policy defined at %r, plan %r' % (s, seen))
        e = d[s] if s in seen else h(None, s) if h else 0
        require(abs(sv.get_utility(s) - e) < 1e-9, 'utility of %r is %r, expected %r' % (s, sv.get_utility(s), e))
    require(len(sv._plan) == len(seen) - 1, 'plan %r for %r' % (sv._plan, seen))
