import contextlib, io, math
from fractions import Fraction
from replay.base import require
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim, ObjectiveHandling, ParamsObjectiveFunction
from skdecide.builders.discrete_optimization.facility.facility_model import FacilityProblem, FacilityProblem2DPoints, FacilitySolution, Facility, Customer, Point
from skdecide.builders.discrete_optimization.facility.solvers.greedy_solvers import GreedySolverFacility
from skdecide.builders.discrete_optimization.vrp.vrp_model import VrpProblem, VrpProblem2D, VrpSolution, Customer2D, BasicCustomer, trivial_solution, stupid_solution, compute_length, sequential_computing
import numpy as np
from skdecide.builders.discrete_optimization.vrp import vrp_model

RULE = 'random facilities, customers and tours against plain sums; distances may be asymmetric'
BOUNDS = 'bounded: at most 7 customers, 4 facilities or vehicles'
ROUNDS = 200


def cases(rng, tier):
    for _ in range(40):
        n, f = rng.randint(0, 6), rng.randint(1, 4)
        q = rng.choice([1, 1, .25])
        yield dict(what='facility', d=[q * rng.randint(0, 5) for _ in range(n)], cap=[q * rng.randint(0, 9) for _ in range(f)], setup=[rng.randint(0, 9) for _ in range(f)],
                   cost=[[rng.randint(0, 9) for _ in range(n)] for _ in range(f)], x=[rng.randrange(f) for _ in range(n)], cap2=[q * rng.randint(0, 9) for _ in range(f)],
                   d2=[q * rng.randint(0, 5) for _ in range(n)])
    for _ in range(30):
        n, f = rng.randint(0, 6), rng.randint(1, 4)
        q = rng.choice([1, 1, .25])
        yield dict(what='greedy', d=[q * rng.randint(0, 5) for _ in range(n)], cap=[rng.randint(0, 9) for _ in range(f)], xy=[[rng.randint(0, 9), rng.randint(0, 9)] for _ in range(n + f)], single=rng.random() < .3)
    for _ in range(60):
        n, v = rng.randint(1, 7), rng.randint(1, 4)
        se = [[rng.randrange(n), rng.randrange(n)] if rng.random() < .5 else [rng.randrange(n)] * 2 for _ in range(v)]
        used = {x for p in se for x in p}
        paths = [[] for _ in range(v)]
        for x in rng.sample(range(n), n):
            if x not in used:
                paths[rng.randrange(v)].append(x)
        if rng.random() < .2:
            paths[0] = [rng.randrange(n) for _ in range(3)]
        q = rng.choice([1, 1, .25])
        yield dict(what='vrp', d=[q * rng.randint(0, 5) for _ in range(n)], cap=[q * rng.randint(0, 12) for _ in range(v)], cap2=[q * rng.randint(0, 12) for _ in range(v)], se=se, paths=paths,
                   dist=[[rng.randint(0, 9) for _ in range(n)] for _ in range(n)], dist2=[[rng.randint(0, 9) for _ in range(n)] for _ in range(n)],
                   xy=[[rng.randint(0, 9), rng.randint(0, 9)] for _ in range(n)])


class Fac(FacilityProblem):
    table = None

    def evaluate_customer_facility(self, facility, customer):
        return self.table[facility.index][customer.index]


class Vrp(VrpProblem):
    table = None

    def evaluate_function(self, var):
        return sequential_computing(var, self)

    def evaluate_function_indexes(self, i, j):
        return self.table[i][j]


def fac(case, d='d', cap='cap'):
    pb = Fac(len(case['cap']), len(case['d']), [Facility(i, s, c, Point(0, 0)) for i, (s, c) in enumerate(zip(case['setup'], case[cap]))],
             [Customer(i, x, Point(0, 0)) for i, x in enumerate(case[d])])
    pb.table = case['cost']
    return pb


def expected(case, d='d', cap='cap'):
    x = case['x']
    load = {f: sum(case[d][i] for i in range(len(x)) if x[i] == f) for f in set(x)}
    cost = {f: sum(case['cost'][f][i] for i in range(len(x)) if x[i] == f) for f in load}
    return dict(cost=sum(cost.values()), setup_cost=sum(case['setup'][f] for f in load), capacity_constraint_violation=sum(max(0, load[f] - case[cap][f]) for f in load),
                details={f: dict(capacity_used=load[f], customers={i for i in range(len(x)) if x[i] == f}, cost=cost[f], setup_cost=case['setup'][f]) for f in load})


def facility(case):
    pb, x = fac(case), case['x']
    e = expected(case)
    s = FacilitySolution(pb, list(x))
    for t in (s, s.copy(), s.lazy_copy()):
        v = pb.evaluate(t)
        require(v == e, 'evaluates to %r, expected %r' % (v, e))
        require(t.facility_for_customers == x, 'the assignment changes')
    require(pb.satisfy(s) == (e['capacity_constraint_violation'] == 0), 'satisfy')
    require(pb.evaluate_from_encoding(list(x), 'facility_for_customers') == e, 'evaluation of the encoding')
    t = FacilitySolution(pb, list(x), pb.evaluate(s))
    require(pb.evaluate(t) == e and pb.evaluate(t.copy()) == e, 'with known details')
    c = t.copy()
    if x:
        c.facility_for_customers[0] += 1
        c.dict_details['cost'] = -1
    require(t.facility_for_customers == x and pb.evaluate(t) == e, 'the copy shares its data')
    pb2 = fac(case, 'd2', 'cap2')
    t.change_problem(pb2)
    require(pb2.evaluate(t) == expected(case, 'd2', 'cap2') and t.problem is pb2, 'in another problem')
    reg = pb.get_attribute_register().dict_attribute_to_type['facility_for_customers']
    require(reg['n'] == len(x) and reg['arrity'] == len(case['cap']) and pb.get_solution_type() is FacilitySolution, 'register')
    o = pb.get_objective_register()
    require(o.objective_sense is ModeOptim.MAXIMIZATION and all(o.dict_objective_to_doc[k]['default_weight'] < 0 for k in ('cost', 'setup_cost', 'capacity_constraint_violation')), 'objectives')
    g = pb.get_dummy_solution()
    require(len(g.facility_for_customers) == len(x) and all(0 <= f < len(case['cap']) for f in g.facility_for_customers), 'dummy solution')


def greedy(case):
    d, cap, xy = case['d'], case['cap'], case['xy']
    n = len(d)
    pb = FacilityProblem2DPoints(len(cap), n, [Facility(i, 1, c, Point(*xy[n + i])) for i, c in enumerate(cap)], [Customer(i, q, Point(*xy[i])) for i, q in enumerate(d)])
    left, f, x = list(cap), 0, []
    for q in d:
        while f < len(cap) and left[f] < q:
            f += 1
        if f == len(cap):
            break
        left[f] -= q
        x.append(f)
    params = ParamsObjectiveFunction(ObjectiveHandling.SINGLE, ['cost'], [1], ModeOptim.MINIMIZATION) if case['single'] else None
    try:
        rs = GreedySolverFacility(pb, params_objective_function=params).solve()
    except Exception as e:
        require(len(x) < n, 'no solution (%r) although %r fits' % (e, x))
        return
    require(len(x) == n, 'a solution although the facilities are full')
    (s, fit), = rs.list_solution_fits
    require(list(s.facility_for_customers) == x, 'assigns %r, expected %r' % (s.facility_for_customers, x))
    require(pb.satisfy(s), 'not feasible')
    v = pb.evaluate(s)
    dist = sum(math.hypot(xy[i][0] - xy[n + x[i]][0], xy[i][1] - xy[n + x[i]][1]) for i in range(n))
    require(abs(v['cost'] - dist) < 1e-9 and abs(fit - (dist if case['single'] else -dist - len(set(x)))) < 1e-9, 'cost')


def tour(case, i, paths, dist):
    s, e = case['se'][i]
    p = [s] + list(paths[i]) + [e]
    return [case[dist][a][b] for a, b in zip(p, p[1:])], sum(case['d'][x] for x in paths[i]) + case['d'][s] + (case['d'][e] if e != s else 0)


def vrp(case):
    d, n, V = case['d'], len(case['d']), len(case['se'])
    S, E = [p[0] for p in case['se']], [p[1] for p in case['se']]

    def make(cap, dist):
        pb = Vrp(V, case[cap], n, [BasicCustomer(i, q) for i, q in enumerate(d)], S, E)
        pb.table = case[dist]
        return pb

    def expect(paths, cap, dist):
        t = [tour(case, i, paths, dist) for i in range(V)]
        return dict(length=sum(sum(l) for l, _ in t), capacity_violation=sum(max(0, q - case[cap][i]) for i, (_, q) in enumerate(t))), t

    pb = make('cap', 'dist')
    s = VrpSolution(pb, S, E, [list(p) for p in case['paths']])
    e, t = expect(case['paths'], 'cap', 'dist')
    for z in (s, s.copy(), s.lazy_copy()):
        for _ in range(2):
            require(pb.evaluate(z) == e, 'evaluates to %r, expected %r' % (pb.evaluate(z), e))
        require([list(l) for l in z.lengths] == [l for l, _ in t] and list(z.capacities) == [q for _, q in t], 'legs %r and loads %r, expected %r' % (z.lengths, z.capacities, t))
    require(pb.satisfy(s) == (e['capacity_violation'] == 0), 'satisfy')
    c = s.copy()
    c.list_paths[0].append(0)
    c.lengths[0].append(1)
    require(s.list_paths == case['paths'] and pb.evaluate(s) == e and len(s.lengths[0]) == len(t[0][0]), 'the copy shares its data')
    pb2 = make('cap2', 'dist2')
    s.change_problem(pb2)
    require(pb2.evaluate(s) == expect(case['paths'], 'cap2', 'dist2')[0] and s.problem is pb2, 'in another problem')
    fixed = {x for p in case['se'] for x in p}
    g, v = trivial_solution(pb)
    flat = [x for p in g.list_paths for x in p]
    require(len(g.list_paths) == V and len(set(flat)) == len(flat) and not set(flat) & fixed and all(0 <= x < n for x in flat), 'tours %r' % g.list_paths)
    require(v == expect(g.list_paths, 'cap', 'dist')[0], 'evaluation of the greedy tours')
    for i in range(V):
        load = tour(case, i, g.list_paths, 'dist')[1]
        require(not g.list_paths[i] or load <= case['cap'][i], 'vehicle %d loads %r, capacity %r' % (i, load, case['cap'][i]))
        for x in set(range(n)) - fixed - set(flat):
            require(load + d[x] > case['cap'][i], 'customer %r is left although vehicle %d has room' % (x, i))
    with contextlib.redirect_stdout(io.StringIO()):
        g, v = stupid_solution(pb)
    require([list(p) for p in g.list_paths] == [sorted(set(range(n)) - fixed)] + [[]] * (V - 1) and v == expect(g.list_paths, 'cap', 'dist')[0], 'single tour')
    g = pb.get_dummy_solution()
    require(pb.evaluate(g)['length'] >= 0 and len(g.list_paths) == V, 'dummy solution')
    xy = case['xy']
    pb3 = VrpProblem2D(V, case['cap'], n, [Customer2D(i, q, *xy[i]) for i, q in enumerate(d)], S, E)
    s = VrpSolution(pb3, S, E, [list(p) for p in case['paths']])
    total = sum(math.dist(xy[a], xy[b]) for i in range(V) for p in [[S[i]] + case['paths'][i] + [E[i]]] for a, b in zip(p, p[1:]))
    require(abs(pb3.evaluate(s)['length'] - total) < 1e-9, 'length in the plane')
    o = pb.get_objective_register()
    require(o.objective_sense is ModeOptim.MAXIMIZATION and all(o.dict_objective_to_doc[k]['default_weight'] < 0 for k in ('length', 'capacity_violation')), 'objectives')
    if case['paths'][0]:
        f = vrp_model.compute_length_np
        l, o = getattr(f, 'py_func', f)(S[0], E[0], list(case['paths'][0]), np.array(xy, dtype=float))
        p = [S[0]] + case['paths'][0] + [E[0]]
        legs = [math.dist(xy[a], xy[b]) for a, b in zip(p, p[1:])]
        require(len(l) == len(legs) and max(abs(x - y) for x, y in zip(l, legs)) < 1e-9 and abs(o - sum(legs)) < 1e-9, 'length with arrays')


def check(case):
    {'facility': facility, 'greedy': greedy, 'vrp': vrp}[case['what']](case)
