import contextlib, io, itertools, random
import numpy as np
from replay.base import require
from skdecide.builders.discrete_optimization.generic_tools.do_problem import *
from skdecide.builders.discrete_optimization.generic_tools.do_problem import BaseMethodAggregating, MethodAggregating, RobustProblem, build_aggreg_function_and_params_objective
from skdecide.builders.discrete_optimization.generic_tools.result_storage.multiobj_utils import TupleFitness
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage, ParetoFront, result_storage_to_pareto_front
from skdecide.builders.discrete_optimization.generic_tools.result_storage.resultcomparator import ResultComparator

RULE = 'random objectives, fitness vectors and histories of stored solutions against a plain list of everything stored'
BOUNDS = 'bounded: at most 8 stored solutions, 3 objectives, values in a small range'
ROUNDS = 200


def cases(rng, tier):
    V = lambda: rng.choice([-2, -1, 0, 0, 1, 2, 2.5])
    for _ in range(30):
        n = rng.randint(1, 3)
        names = rng.sample(['a', 'b', 'c', 'zz'], n)
        yield dict(what='objective', names=names, w=[rng.choice([-2, -1, 1, .5, 0]) for _ in names], dw=[rng.choice([-1, 1, 3]) for _ in names], vals=[[V() for _ in names] for _ in range(3)],
                   how=rng.choice(['SINGLE', 'AGGREGATE', 'MULTI_OBJ']), sense=rng.choice(['MAXIMIZATION', 'MINIMIZATION']), default=rng.random() < .4)
    for _ in range(30):
        k = rng.randint(1, 3)
        yield dict(what='fitness', vs=[[V() for _ in range(k)] for _ in range(3)], f=rng.choice([2, -1, 1]))
    for _ in range(60):
        n = rng.randint(0, 4)
        val = [V() for _ in range(9)]
        pick = lambda m: [[k, val[k]] for k in [rng.randint(0, m) for _ in range(rng.randint(0, 5))]]
        init = pick(5)[:n]
        yield dict(what='storage', maxi=rng.random() < .5, init=init, add=pick(8),
                   nb=rng.choice([1, 2, 1000]), limit=rng.random() < .8, best=rng.random() < .3, seed=rng.randrange(1000))
    for _ in range(60):
        k = rng.randint(1, 3)
        yield dict(what='pareto', maxi=rng.random() < .6, pts=[[V() for _ in range(k)] for _ in range(rng.randint(1, 7))], add=[[V() for _ in range(k)] for _ in range(rng.randint(0, 3))],
                   via=rng.choice(['storage', 'problem', 'direct', 'comparator']), split=rng.randint(0, 7))
    for _ in range(30):
        nb = rng.choice([1, 2, 3, 3, 4, 5])
        yield dict(what='robust', how=rng.choice([m.name for m in BaseMethodAggregating]), vals=[[V(), V()] for _ in range(nb)], sat=rng.random() < .5, p=rng.choice([0., 50., 90., 100.]), w=[rng.choice([0, .5, 1, 2]) for _ in range(nb)])
    yield dict(what='pareto', maxi=rng.random() < .5, pts=[[i, 70 - i] for i in rng.sample(range(70), 70)], add=[[rng.randint(0, 70), rng.randint(0, 60)] for _ in range(9)],
               via=rng.choice(['storage', 'direct']), split=0)
    for _ in range(30):
        k = rng.randint(1, 3)
        yield dict(what='compare', stores=[[rng.random() < .5, [[V() for _ in range(k)] for _ in range(rng.randint(1, 5))]] for _ in range(rng.randint(1, 3))],
                   tests=[[V() for _ in range(k)] for _ in range(rng.randint(1, 3))], first=rng.randint(0, 4))
    for _ in range(15):
        n = rng.randint(1, 6)
        yield dict(what='dupes', sols=[[rng.randint(0, 1) for _ in range(2)] for _ in range(n)])


def check(case):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()[case['what']](case)


class Sol(Solution):
    def __init__(self, k, v=None): self.k, self.v = k, v
    def copy(self): return Sol(self.k, self.v)
    def __hash__(self): return hash(self.k)
    def __eq__(self, o): return self.k == o.k
    def __repr__(self): return 'S%r' % (self.k,)
    def change_problem(self, p): pass


class Pb(Problem):
    def __init__(self, names, handling='SINGLE', sense='MAXIMIZATION', dw=None, table=None, sat=True):
        self.names, self.h, self.s, self.dw, self.table, self.sat = names, handling, sense, dw, table, sat

    def evaluate(self, sol): return dict(zip(self.names, self.table[sol.k] if self.table else sol.v))
    def satisfy(self, sol): return self.sat
    def get_solution_type(self): return Sol
    def get_attribute_register(self): return EncodingRegister({})

    def get_objective_register(self):
        return ObjectiveRegister(objective_sense=ModeOptim[self.s], objective_handling=ObjectiveHandling[self.h],
                                 dict_objective_to_doc={n: {'type': TypeObjective.OBJECTIVE, 'default_weight': w} for n, w in zip(self.names, self.dw or [1] * len(self.names))})


def objective(case):
    pb = Pb(case['names'], case['how'], case['sense'], case['dw'])
    # the parameters may list the objectives in any order
    order = case['names'][::-1]
    w = dict(zip(case['names'], case['dw' if case['default'] else 'w']))
    if case['default']:
        order = case['names']
        f, g, params = build_aggreg_function_and_params_objective(pb)
        require(params.objectives == case['names'] and params.weights == case['dw'] and params.sense_function == ModeOptim[case['sense']]
                and params.objective_handling == ObjectiveHandling[case['how']], 'default parameters %s' % params)
    else:
        p = ParamsObjectiveFunction(ObjectiveHandling[case['how']], list(order), [w[n] for n in order], ModeOptim[case['sense']])
        f, g, params = build_aggreg_function_and_params_objective(pb, p)
        require(params is p, 'given parameters')
    for v in case['vals']:
        d = dict(zip(case['names'], v))
        exp = dict(SINGLE=w[order[0]] * d[order[0]], AGGREGATE=sum(w[n] * d[n] for n in order), MULTI_OBJ=[w[n] * d[n] for n in order])[case['how']]
        for got in (f(Sol(0, v)), g(d)):
            if case['how'] == 'MULTI_OBJ':
                require(list(got.vector_fitness) == exp and got.size == len(exp), 'vector %r, expected %r' % (got.vector_fitness, exp))
            else:
                require(abs(got - exp) < 1e-9, '%s gives %r, expected %r' % (case['how'], got, exp))
        m = pb.evaluate_mobj(Sol(0, v))
        require(list(m.vector_fitness) == [d[n] for n in sorted(d)] and list(pb.evaluate_mobj_from_dict(d).vector_fitness) == [d[n] for n in sorted(d)], 'default vector of objectives')


def dominates(a, b, maxi=True):
    s = 1 if maxi else -1
    return all(s * x >= s * y for x, y in zip(a, b)) and any(s * x > s * y for x, y in zip(a, b))


def fitness(case):
    vs = case['vs']
    fs = [TupleFitness(np.array(v), len(v)) for v in vs]
    for a, fa in zip(vs, fs):
        for b, fb in zip(vs, fs):
            lt, gt = dominates(b, a), dominates(a, b)
            require(bool(fa < fb) is lt and bool(fa > fb) is gt, '%r against %r: < %r, > %r' % (a, b, fa < fb, fa > fb))
            require(bool(fa == fb) is (not lt and not gt) and bool(fa <= fb) is (not gt) and bool(fa >= fb) is (not lt), '%r against %r' % (a, b))
        m = fa * case['f']
        require(list(m.vector_fitness) == [case['f'] * x for x in a] and m.size == len(a) and list(fa.vector_fitness) == a, 'product')


def storage(case):
    random.seed(case['seed'])
    maxi = case['maxi']
    better = (lambda a, b: a > b) if maxi else (lambda a, b: a < b)
    init = [(Sol(k), v) for k, v in case['init']]
    given = Sol(99) if case['best'] and init else None
    rs = ResultStorage(list_solution_fits=list(init), best_solution=given, mode_optim=ModeOptim.MAXIMIZATION if maxi else ModeOptim.MINIMIZATION, limit_store=case['limit'], nb_best_store=case['nb'])
    ref = [(s, v) for s, v in init]
    top = None
    if not init:
        require(rs.get_best_solution() is None, 'best of nothing')
    elif given is None:
        b = (max if maxi else min)(v for _, v in init)
        require(rs.best_solution is next(s for s, v in init if v == b), 'initial best %r of %r' % (rs.best_solution, init))
        top = b
    else:
        require(rs.best_solution is given, 'given best solution')
        top = (max if maxi else min)(v for _, v in init)
    best = rs.best_solution
    for k, v in case['add']:
        s = Sol(k)
        rs.add_solution(s, v)
        if all(t.k != k for t, _ in ref):
            ref.append((s, v))
        if top is None or better(v, top):
            top, best = v, s
        require(rs.best_solution is best, 'best solution %r after %r came with %r, expected %r' % (rs.best_solution, s, v, best))
        require([(t.k, w) for t, w in rs.list_solution_fits] == [(t.k, w) for t, w in ref], 'stored: %r, expected %r' % (rs.list_solution_fits, ref))
        b = (max if maxi else min)(w for _, w in ref)
        s1, f1 = rs.get_best_solution_fit()
        require(f1 == b and s1 is next(t for t, w in ref if w == b), 'best of the storage: %r %r' % (s1, f1))
        require(rs.get_best_solution() is s1, 'best solution')
        s2, f2 = rs.get_last_best_solution()
        require(f2 == b and s2 is [t for t, w in ref if w == b][-1], 'last best: %r %r' % (s2, f2))
        for _ in range(3):
            s3, f3 = rs.get_random_best_solution()
            require(f3 == b and any(s3 is t and w == b for t, w in ref), 'random best: %r %r' % (s3, f3))
            s4, f4 = rs.get_random_solution()
            require(any(s4 is t and f4 == w for t, w in ref), 'random: %r' % s4)
            require(f4 != b or all(w == b for _, w in ref), 'random solution is a best one although there are others')
    rs.finalize()
    require([(t.k, w) for t, w in rs.list_solution_fits] == [(t.k, w) for t, w in ref], 'stored after finalize')


def pareto(case):
    maxi = case['maxi']
    mode = ModeOptim.MAXIMIZATION if maxi else ModeOptim.MINIMIZATION
    pts = case['pts']
    k = len(pts[0])
    mk = lambda i, p: (Sol(i), TupleFitness(np.array(p), k))
    data = [mk(i, p) for i, p in enumerate(pts)]
    if case['via'] == 'direct':
        pf = ParetoFront(list_solution_fits=list(data), best_solution=None, mode_optim=mode)
        for i, p in enumerate(case['add']):
            pf.add_solution(*mk(100 + i, p))
        pts = pts + case['add']
        pf.finalize()
    elif case['via'] == 'comparator':
        n = min(case['split'], len(data))
        parts = [x for x in (data[:n], data[n:]) if x]
        st = [ResultStorage(list(x), mode_optim=mode) for x in parts]
        cmp_ = ResultComparator(st, ['s%d' % i for i in range(len(st))], ['o%d' % i for i in range(k)], [1] * k)
        pf = cmp_.generate_super_pareto()
        for o in range(k):
            best = cmp_.get_best_by_objective_by_result_storage('o%d' % o)
            for i, x in enumerate(parts):
                b = (max if maxi else min)(f.vector_fitness[o] for _, f in x)
                require(best['s%d' % i][1].vector_fitness[o] == b and any(best['s%d' % i][0] is s for s, _ in x), 'best by objective')
    elif case['via'] == 'problem':
        pb = Pb(['o%d' % i for i in range(k)], table={i: p for i, p in enumerate(pts)})
        rs = ResultStorage([(s, 1.) for s, _ in data], mode_optim=mode)
        pf = result_storage_to_pareto_front(rs, pb)
    else:
        pf = result_storage_to_pareto_front(ResultStorage(list(data), mode_optim=mode))
    exp = [p for p in pts if not any(dominates(q, p, maxi) for q in pts)]
    got = [list(f.vector_fitness) for _, f in pf.paretos]
    require(sorted(got) == sorted(map(list, exp)), 'front %r of %r (maximise %r), expected %r' % (got, pts, maxi, exp))
    require(pf.len_pareto_front() == len(exp), 'size of the front')
    ids = {i: p for i, p in enumerate(case['pts'])}
    ids.update({100 + i: p for i, p in enumerate(case['add'])})
    require(all(list(f.vector_fitness) == ids[s.k] for s, f in pf.paretos), 'a solution comes with its own fitness')
    for i, (s, f) in enumerate(pf.compute_extreme_points()):
        require(f.vector_fitness[i] == (max if maxi else min)(p[i] for p in exp), 'extreme point %d' % i)


def robust(case):
    pbs = [Pb(['a', 'b'], table=[v], sat=case['sat'] if i == 0 else True) for i, v in enumerate(case['vals'])]
    r = RobustProblem(pbs, MethodAggregating(BaseMethodAggregating[case['how']], percentile=case['p'], ponderation=np.array(case['w'])))
    got = r.evaluate(Sol(0))
    nb = len(case['vals'])
    def percentile(v):
        s, x = sorted(v), case['p'] / 100 * (nb - 1)
        lo = int(x)
        return s[lo] if lo == nb - 1 else s[lo] + (x - lo) * (s[lo + 1] - s[lo])
    f = dict(MEAN=lambda v: sum(v) / nb, MEDIAN=lambda v: (sorted(v)[(nb - 1) // 2] + sorted(v)[nb // 2]) / 2, MIN=min, MAX=max, PERCENTILE=percentile, PONDERATION=lambda v: sum(x * y for x, y in zip(v, case['w'])))[case['how']]
    for i, n in enumerate('ab'):
        e = f([v[i] for v in case['vals']])
        require(abs(got[n] - e) < 1e-9, '%s of %r is %r, not %r' % (case['how'], [v[i] for v in case['vals']], got[n], e))
    require(r.satisfy(Sol(0)) is case['sat'] and r.get_solution_type() is Sol, 'the first problem decides')


def dupes(case):
    data = [(Sol(i, tuple(v)), float(i)) for i, v in enumerate(case['sols'])]
    rs = ResultStorage(list(data))
    rs.remove_duplicate_solutions('v')
    seen, exp = set(), []
    for s, f in data:
        if s.v not in seen:
            seen.add(s.v)
            exp.append((s.k, f))
    require([(s.k, f) for s, f in rs.list_solution_fits] == exp, 'after removing duplicates: %r, expected %r' % (rs.list_solution_fits, exp))


def compare(case):
    """Storages of their own senses; their best solutions reevaluated in test problems."""
    k = len(case['tests'][0])
    names = ['o%d' % i for i in range(k)]
    stores, data = [], []
    for n, (maxi, pts) in enumerate(case['stores']):
        d = [(Sol(10 * n + i), TupleFitness(np.array(p), k)) for i, p in enumerate(pts)]
        data.append(d)
        stores.append(ResultStorage(list(d), best_solution=d[case['first'] % len(d)][0], mode_optim=ModeOptim.MAXIMIZATION if maxi else ModeOptim.MINIMIZATION))
    cmp_ = ResultComparator(stores, ['s%d' % i for i in range(len(stores))], names, [1] * k)
    for o in range(k):
        best = cmp_.get_best_by_objective_by_result_storage('o%d' % o)
        require(list(best) == ['s%d' % i for i in range(len(stores))], 'one result per storage')
        for n, (maxi, pts) in enumerate(case['stores']):
            s, f = best['s%d' % n]
            require(f.vector_fitness[o] == (max if maxi else min)(p[o] for p in pts) and any(s is x and f is y for x, y in data[n]), 'best of objective %d of storage %d' % (o, n))
    if k > 1:
        return

    class Test:
        def __init__(self, j):
            self.j = j

        def evaluate(self, s):
            require(s.problem is self, 'a solution is evaluated in a problem it was not moved to')
            return {n: 100 * s.k + 10 * self.j + i for i, n in enumerate(names)}
    tests = [Test(j) for j in range(len(case['tests']))]
    for d in data:
        for s, _ in d:
            s.change_problem = lambda p, s=s: setattr(s, 'problem', p)
    cmp_ = ResultComparator(stores, ['s%d' % i for i in range(len(stores))], names, [1] * k, test_problems=tests)
    for n, (maxi, pts) in enumerate(case['stores']):
        top = (max if maxi else min)(p[0] for p in pts)
        for i, o in enumerate(names):
            got = cmp_.reevaluated_results[n][o]
            exp = [[100 * s.k + 10 * j + i for j in range(len(tests))] for s, f in data[n] if f.vector_fitness[0] == top]
            require(got in exp, 'reevaluation of the best solution of storage %d: %r, expected %r' % (n, got, exp[0]))
