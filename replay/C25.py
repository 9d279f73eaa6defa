import contextlib, io, itertools, random
from replay.base import require
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import Item, KnapsackModel, KnapsackModel_Mobj, KnapsackSolution
from skdecide.builders.discrete_optimization.knapsack.solvers.dyn_prog_knapsack import KnapsackDynProg
from skdecide.builders.discrete_optimization.knapsack.solvers.greedy_solvers import GreedyBest, GreedyDummy, greedy_using_queue, compute_density, compute_density_and_penalty
from skdecide.builders.discrete_optimization.knapsack.mutation.mutation_knapsack import KnapsackMutationSingleBitFlip, MutationKnapsack, BitFlipMoveKP

RULE = 'random instances: every solver result and mutation against the enumeration of all selections'
BOUNDS = 'bounded: at most 7 items, capacities up to 60'
ROUNDS = 150


def instance(rng):
    n = rng.randint(1, 7)
    ids = rng.choice([list(range(n)), list(range(1, n + 1)), rng.sample(range(30), n), rng.sample(range(n), n)])
    if rng.random() < .2:
        # many light items, or few heavy ones
        return dict(items=[[i, rng.randint(1, 9), rng.choice([1, 1, 2, 13, 28, 30])] for i in ids], cap=rng.randint(20, 60))
    return dict(items=[[i, rng.randint(1, 9) if rng.random() < .8 else rng.randint(1, 9) + .5, rng.randint(1, 9)] for i in ids], cap=rng.randint(0, 15))


def cases(rng, tier):
    for _ in range(60):
        yield dict(what='solvers', i=instance(rng), mobj=rng.random() < .3, max_items=rng.choice([None, 0, 1, 2, 3, 50]), twice=rng.random() < .3)
    for _ in range(40):
        i = instance(rng)
        if rng.random() < .3:
            i['items'] = [[a, v, w + rng.choice([0, .25, .5])] for a, v, w in i['items']]
            i['cap'] = rng.choice([i['cap'], round(sum(x[2] for x in i['items']) - .25, 3)])
        yield dict(what='model', i=i, taken=[[rng.randint(0, 1) for _ in i['items']] for _ in range(4)], mobj=rng.random() < .5, force=rng.random() < .5, other=rng.randint(1, 12))
    for _ in range(40):
        i = instance(rng)
        yield dict(what='mutate', i=i, taken=[rng.randint(0, 1) for _ in i['items']], seed=rng.randrange(10 ** 6), kind=rng.choice(['flip', 'kp', 'kp', 'move']),
                   known=rng.random() < .5, flips=[rng.randrange(len(i['items'])) for _ in range(rng.randint(1, 4))])


def check(case):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()[case['what']](case)


def build(i, cls=KnapsackModel, **kw):
    return cls([Item(*x) for x in i['items']], i['cap'], **kw)


def value(i, t): return sum(x[1] for x, k in zip(i['items'], t) if k)
def weight(i, t): return sum(x[2] for x, k in zip(i['items'], t) if k)


def consistent(i, sol, msg, cap=None):
    t = list(sol.list_taken)
    require(len(t) == len(i['items']) and all(k in (0, 1) for k in t), '%s: selection %r' % (msg, t))
    require(abs(sol.value - value(i, t)) < 1e-9 and abs(sol.weight - weight(i, t)) < 1e-9, '%s: value %r and weight %r of %r' % (msg, sol.value, sol.weight, t))


def solvers(case):
    i = case['i']
    pb = build(i, KnapsackModel_Mobj if case['mobj'] else KnapsackModel)
    best = lambda n: max(value(i, t) for t in itertools.product([0, 1], repeat=len(i['items'])) if weight(i, t) <= i['cap'] and not any(t[n:]))
    full = best(len(i['items']))
    results = {'greedy': GreedyBest, 'dummy': GreedyDummy}
    for nm, cls in results.items():
        rs = cls(pb).solve()
        sol = rs.best_solution
        consistent(i, sol, nm)
        require(sol.weight <= i['cap'] and pb.satisfy(sol), '%s: too heavy: %r' % (nm, sol.list_taken))
        require(rs.get_best_solution() is sol, '%s: best solution of the storage' % nm)
        if nm == 'greedy':
            require(all(k or sol.weight + x[2] > i['cap'] for k, x in zip(sol.list_taken, i['items'])), 'greedy: an item that fits is left out: %r' % sol.list_taken)
            for q in (compute_density, compute_density_and_penalty):
                s = greedy_using_queue(pb, q)
                consistent(i, s, q.__name__)
                require(s.value <= sol.value, 'greedy: %s gives a better selection' % q.__name__)
                key = (lambda x: x[1] / x[2]) if q is compute_density else (lambda x: x[1] / x[2] - x[2])
                w = 0
                for k, x in sorted(enumerate(i['items']), key=lambda kx: -key(kx[1])):
                    fits = w + x[2] <= i['cap']
                    require(s.list_taken[k] == fits, '%s: item %d taken %r' % (q.__name__, k, s.list_taken[k]))
                    w += x[2] * fits
    dp = KnapsackDynProg(pb)
    for meth in ('solve', 'solve_np') * (2 if case['twice'] else 1):
        for greedy in (False, True):
            rs = getattr(dp, meth)(greedy_start=greedy)
            sol = rs.best_solution
            consistent(i, sol, meth)
            require(sol.weight <= i['cap'], '%s: too heavy: %r' % (meth, sol.list_taken))
            require(abs(sol.value - full) < 1e-9, '%s: value %r, the best is %r' % (meth, sol.value, full))
            require(rs.list_solution_fits[0][1] == dp.aggreg_sol(sol) if not case['mobj'] else True, '%s: fitness' % meth)
        if case['max_items'] is not None:
            m = case['max_items']
            sol = getattr(dp, meth)(max_items=m).best_solution
            consistent(i, sol, meth)
            exp = best(min(max(m - 1, 0), len(i['items'])))
            require(sol.weight <= i['cap'] and abs(sol.value - exp) < 1e-9, '%s: the first items give %r instead of %r' % (meth, sol.value, exp))


def model(case):
    i = case['i']
    pb = build(i, KnapsackModel_Mobj if case['mobj'] else KnapsackModel, force_recompute_values=case['force'])
    j = dict(i, items=[[a, v * 2 + 1, w] for a, v, w in i['items']], cap=case['other'])
    pb2 = build(j, KnapsackModel_Mobj if case['mobj'] else KnapsackModel)
    for t in case['taken']:
        def expect(inst, ev, msg):
            exp = {'value': value(inst, t), 'weight_violation': max(0, weight(inst, t) - inst['cap'])}
            if case['mobj']:
                exp.update(weight=weight(inst, t), heaviest_item=max([x[2] for x, k in zip(inst['items'], t) if k] + [0]))
            require(ev == exp, '%s: %r, expected %r' % (msg, ev, exp))
        sol = KnapsackSolution(pb, list(t))
        require(pb.satisfy(sol) == (weight(i, t) <= i['cap']), 'satisfy on %r' % t)
        expect(i, pb.evaluate(sol), 'evaluation')
        expect(i, pb.evaluate(sol), 'second evaluation')
        expect(i, pb.evaluate(sol.copy()), 'evaluation of a copy')
        expect(i, pb.evaluate(sol.lazy_copy()), 'evaluation of a lazy copy')
        expect(i, pb.evaluate_from_encoding(list(t), 'list_taken'), 'evaluation of the encoding')
        c = sol.copy()
        require(c == sol and c.list_taken is not sol.list_taken, 'copy')
        c.change_problem(pb2)
        expect(j, pb2.evaluate(c), 'evaluation in another problem')
        expect(i, pb.evaluate(sol), 'evaluation after a copy went to another problem')
        if case['mobj']:
            f = pb.evaluate_mobj(sol)
            require(list(f.vector_fitness) == [value(i, t), -max([x[2] for x, k in zip(i['items'], t) if k] + [0])], 'fitness vector')
            require(pb.get_objective_register().objective_sense.name == 'MAXIMIZATION', 'sense')
    if not case['mobj']:
        mo = KnapsackModel_Mobj.from_knapsack(pb)
        require(mo.list_items == pb.list_items and mo.max_capacity == pb.max_capacity and mo.force_recompute_values == pb.force_recompute_values,
                'the multi-objective problem differs')
        sol = KnapsackSolution(mo, [0] * len(i['items']))
        mo.evaluate(sol)
        sol.list_taken = list(case['taken'][0])
        e = mo.evaluate(sol)
        require(not case['force'] or e['value'] == value(i, case['taken'][0]), 'evaluation of a solution changed in place')
    d = pb.get_dummy_solution()
    require(list(d.list_taken) == [0] * len(i['items']) and pb.satisfy(d), 'dummy solution')


def mutate(case):
    import numpy as np
    i, t = case['i'], case['taken']
    pb = build(i)
    random.seed(case['seed'])
    np.random.seed(case['seed'] % 2 ** 31)
    sol = KnapsackSolution(pb, list(t))
    if case['known']:
        pb.evaluate(sol)
    n = len(t)
    if case['kind'] == 'move':
        mv = BitFlipMoveKP('list_taken', pb, list(case['flips']))
        r = mv.apply_local_move(sol)
        exp = [k ^ (case['flips'].count(x) % 2) for x, k in enumerate(t)]
        require(list(r.list_taken) == exp, 'flips %r of %r give %r' % (case['flips'], t, r.list_taken))
        consistent(i, r, 'flip')
        b = mv.backtrack_local_move(r)
        require(list(b.list_taken) == t, 'backtrack gives %r' % b.list_taken)
        consistent(i, b, 'backtrack')
        return
    m = KnapsackMutationSingleBitFlip.build(pb, sol) if case['kind'] == 'flip' else MutationKnapsack.build(pb, sol)
    for _ in range(4):
        before = list(sol.list_taken)
        if random.random() < .3:
            r, mv = m.mutate(sol)
            obj = None
        else:
            r, mv, obj = m.mutate_and_compute_obj(sol)
        after = list(r.list_taken)
        diff = [k for k in range(n) if before[k] != after[k]]
        require(all(x in (0, 1) for x in after) and len(after) == n and len(diff) <= 1, 'mutation of %r gives %r' % (before, after))
        if case['kind'] == 'flip':
            require(len(diff) == 1 and list(sol.list_taken) == before, 'one bit is flipped in a new solution')
        else:
            consistent(i, r, 'mutation')
            if weight(i, before) <= i['cap']:
                require(weight(i, after) <= i['cap'], 'a mutation makes the selection too heavy: %r' % after)
            require(diff or (not any(before) and all(x[2] > i['cap'] for x in i['items'])) or not diff and case['kind'] == 'kp' and not any(before), 'nothing changes')
        exp = {'value': value(i, after), 'weight_violation': max(0, weight(i, after) - i['cap'])}
        require(obj is None or all(abs(obj[k] - exp[k]) < 1e-9 for k in exp) and set(obj) == set(exp), 'objectives %r of %r, expected %r' % (obj, after, exp))
        b = mv.backtrack_local_move(r)
        require(list(b.list_taken) == before, 'backtrack gives %r instead of %r' % (b.list_taken, before))
        if b.weight is not None:
            consistent(i, b, 'backtrack')
        sol = mv.apply_local_move(b)
        require(list(sol.list_taken) == after, 'the move applied again gives %r' % sol.list_taken)
