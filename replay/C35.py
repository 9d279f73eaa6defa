import contextlib, io, math
import numpy as np
from replay.base import require
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim, ObjectiveHandling, TypeAttribute
from skdecide.builders.discrete_optimization.ttp.ttp_model import TTPModel, TTPSolution

RULE = 'random towns, items, tours and plans against a plain simulation of the trip; the compiled functions'
BOUNDS = 'bounded: at most 7 towns, 8 items'
ROUNDS = 60


def cases(rng, tier):
    for _ in range(40):
        n, m = rng.randint(1, 7), rng.randint(0, 8)
        order = rng.sample(range(n), rng.randint(1, n))
        if rng.random() < .2:
            order = [rng.randrange(n) for _ in range(rng.randint(1, 9))]
        where = [rng.randrange(n) for _ in range(m)]
        wt = [rng.randint(0, 9) for _ in range(m)]
        plan = [w if rng.random() < .6 else rng.choice([-1, -1, rng.randrange(n), n + 3]) for w in where]
        yield dict(n=n, xy=[[rng.randint(-9, 9), rng.randint(-9, 9)] for _ in range(n)], where=where, weight=wt, profit=[rng.randint(0, 20) for _ in range(m)],
                   tour=order + order[:1], plan=plan, cap=sum(wt) * (rng.choice([.9, 1, 1, 2, 3]) if len(set(order)) == len(order) else 9) + rng.choice([.01, 1, 7]), rent=rng.choice([0., .5, 5.61]), vmin=rng.choice([.1, .5, 1.]), vmax=rng.choice([1., 2.5]),
                   plan2=[rng.choice([-1] + where) for _ in range(m)])


def expected(case, plan):
    X = case['tour']
    w = p = d = t = 0
    ws = []
    for a, b in zip(X, X[1:]):
        for i, q in enumerate(plan):
            if q == a:
                w += case['weight'][i]
                p += case['profit'][i]
        ws.append(w)
        leg = math.dist(case['xy'][a], case['xy'][b])
        d += leg
        t += leg / (case['vmax'] - w * (case['vmax'] - case['vmin']) / case['cap'])
    return dict(objective=p - t * case['rent'], profit=p, distance=d, time_trip=t, weight_used=w, weight_end=case['cap'] - w), ws


def check(case):
    with contextlib.redirect_stdout(io.StringIO()):
        run(case)


def run(case):
    n, m = case['n'], len(case['where'])
    items = [dict(weight=w, profit=p, node_index=q) for w, p, q in zip(case['weight'], case['profit'], case['where'])]
    pb = TTPModel(numberOfNodes=n, numberOfItems=m, capacityOfKnapsack=case['cap'], minSpeed=case['vmin'], maxSpeed=case['vmax'], rentingRatio=case['rent'],
                  nodes=[dict(x=x, y=y) for x, y in case['xy']], items=items, nodes_array=np.array([[i, x, y] for i, (x, y) in enumerate(case['xy'])], dtype=float),
                  items_array=np.array([[i, p, w, q] for i, (w, p, q) in enumerate(zip(case['weight'], case['profit'], case['where']))], dtype=float).reshape(m, 4))
    require(pb.av.shape == (m, n) and all(pb.av[i, q] == (q == case['where'][i]) for i in range(m) for q in range(n)), 'items of the towns')
    require(list(pb.weights) == case['weight'] and list(pb.profits) == case['profit'], 'weights and profits')

    def same(s, e, msg):
        for k, v in e.items():
            require(abs(getattr(s, k) - v) <= 1e-9 * (1 + abs(v)), '%s: %s is %r, expected %r' % (msg, k, getattr(s, k), v))
    for plan in (case['plan'], case['plan2'], case['plan']):
        e, ws = expected(case, plan)
        s = TTPSolution(np.array(case['tour']), np.array(plan, dtype=int))
        r = pb.evaluate(s)
        require(set(r) == {'obj'} and r['obj'] == s.objective, 'objective returned')
        same(s, e, 'evaluated')
        z = TTPSolution(np.array(case['tour']), np.array(plan, dtype=int))
        require(pb.evaluate_details(z) == z.objective, 'objective returned')
        same(z, e, 'evaluated with the weights')
        require(list(z.weight_array) == ws, 'weights %r, expected %r' % (list(z.weight_array), ws))
        q = z.copy()
        same(q, e, 'copied')
        require(list(q.weight_array) == ws and list(q.tour) == case['tour'] and list(q.packing) == plan, 'copy')
        q.tour[0] = -5
        if m:
            q.packing[0] = -7
        require(list(z.tour) == case['tour'] and list(z.packing) == plan, 'the copy shares its tour or plan')
        require(list(s.tour) == case['tour'] and list(s.packing) == plan, 'the tour or the plan changes')
        pb.evaluate(z)
        same(z, e, 'evaluated again')
        other = case['plan2'] if plan is case['plan'] else case['plan']
        tour2 = case['tour'][::-1] if len(case['tour']) < 4 else case['tour'][:-2][::-1] + [case['tour'][-3]]
        e2, ws2 = expected(dict(case, tour=tour2), other)
        for f in (pb.evaluate, pb.evaluate_details):
            y = z.copy()
            y.tour, y.packing = np.array(tour2), np.array(other, dtype=int)
            f(y)
            same(y, e2, 'evaluated after a change')
        require(list(y.weight_array) == ws2, 'weights after a change')
    o = pb.get_objective_register()
    require(o.objective_sense is ModeOptim.MAXIMIZATION and o.dict_objective_to_doc['obj']['default_weight'] > 0 and pb.get_solution_type() is TTPSolution, 'objective')
    g = pb.get_attribute_register().dict_attribute_to_type['tour']
    require(g['n'] == n and list(g['range']) == list(range(n)) and TypeAttribute.PERMUTATION in g['type'], 'register')
