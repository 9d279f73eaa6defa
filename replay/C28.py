import contextlib, io, math, random, time
from datetime import timedelta
from replay.base import require
from skdecide.builders.discrete_optimization.generic_tools.do_problem import (Problem, Solution, ModeOptim, ObjectiveHandling, ObjectiveRegister, EncodingRegister,
                                                                             TypeAttribute, ParamsObjectiveFunction)
from skdecide.builders.discrete_optimization.generic_tools.do_mutation import Mutation, LocalMove, LocalMoveDefault
from skdecide.builders.discrete_optimization.generic_tools.ls import local_search, hill_climber, simulated_annealing
from skdecide.builders.discrete_optimization.generic_tools.ls.local_search import ModeMutation, RestartHandler, RestartHandlerLimit
from skdecide.builders.discrete_optimization.generic_tools.ls.hill_climber import HillClimber, HillClimberPareto
from skdecide.builders.discrete_optimization.generic_tools.ls.simulated_annealing import SimulatedAnnealing, TemperatureSchedulingFactor
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
from skdecide.builders.discrete_optimization.generic_tools import lns_cp, lns_mip

RULE = 'scripted candidates, random numbers, sub-solver results and clocks, against an independent simulation of the search'
BOUNDS = 'bounded: at most 12 iterations on vectors of at most 3 components'
ROUNDS = 150


def cases(rng, tier):
    for _ in range(110):
        k = rng.randint(1, 3)
        algo = rng.choice(['hc', 'hc', 'sa', 'sa', 'pareto'])
        n = rng.randint(0, 12)
        yield dict(what='ls', algo=algo, maxi=rng.random() < .5, evaluate=rng.random() < .5, store=rng.random() < .5, inplace=rng.choice([0, 1, 2]), start=[rng.randint(-2, 2) for _ in range(k)],
                   changes=[[[rng.randrange(k), rng.choice([-2, -1, 0, 1, 2])] for _ in range(rng.randint(0, 2))] for _ in range(n)], w=[rng.choice([-1, 1, 2]) for _ in range(k)], limit=rng.choice([None, 0, 1, 2, 4]),
                   t=rng.choice([.5, 1, 5]), coef=rng.choice([1., .9, .5]), rs=[round(rng.random(), 3) for _ in range(n)], every=rng.choice([1, 3, 1000]))
    for _ in range(60):
        maxi = rng.random() < .5
        n = rng.randint(1, 6)
        V = lambda: rng.randint(-3, 3)
        yield dict(what='lns', kind=rng.choice(['cp', 'mip']), maxi=maxi, n=n, first=[V() for _ in range(rng.randint(1, 2))], skip=rng.random() < .3,
                   results=[[V() for _ in range(rng.choice([0, 1, 1, 2, 2]) if j else rng.randint(1, 2))] for j in range(n)], fail=[j > 0 and rng.random() < .15 for j in range(n)], post=rng.random() < .4, extra=[V() for _ in range(n)],
                   noimp=rng.choice([None, 0, 1, 2]), limit=rng.choice([None, 5, 10, 60, 100]), clock=[rng.choice([0, 1, 3, 3, 30]) for _ in range(n + 1)])


def check(case):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()[case['what']](case)


class Vec(Solution):
    def __init__(self, v): self.v = list(v)
    def copy(self): return Vec(self.v)
    def change_problem(self, p): pass
    def __repr__(self): return 'V%r' % self.v


class Pb(Problem):
    def __init__(self, case):
        self.case, self.asked = case, []
        self.names = ['o%d' % i for i in range(len(case['w']))]
    def evaluate(self, s): return {n: x for n, x in zip(self.names, s.v)}
    def satisfy(self, s): return True
    def get_attribute_register(self): return EncodingRegister({'v': {'name': 'v', 'type': [TypeAttribute.LIST_INTEGER]}})
    def get_solution_type(self): return Vec
    def get_objective_register(self):
        return ObjectiveRegister(ModeOptim.MAXIMIZATION if self.case['maxi'] else ModeOptim.MINIMIZATION, ObjectiveHandling.AGGREGATE, {n: {'default_weight': w} for n, w in zip(self.names, self.case['w'])})


class Undo(LocalMove):
    """Changes the solution in place."""
    def __init__(self, old, new): self.old, self.new = old, new
    def apply_local_move(self, s):
        s.v[:] = self.new
        return s
    def backtrack_local_move(self, s):
        s.v[:] = self.old
        return s


class Script(Mutation):
    def __init__(self, pb, changes, inplace):
        self.pb, self.changes, self.inplace, self.seen = pb, list(changes), inplace, []
    def mutate(self, s):
        self.seen.append(list(s.v))
        old, new = list(s.v), list(s.v)
        for p, d in self.changes[len(self.seen) - 1]:
            new[p] += d
        if self.inplace == 1:
            r = s.copy()
            r.v = new
            return r, Undo(old, new)
        if self.inplace == 2:
            s.v[:] = new
            return s, Undo(old, new)
        r = Vec(new)
        return r, LocalMoveDefault(s, r)
    def mutate_and_compute_obj(self, s):
        r, m = self.mutate(s)
        return r, m, self.pb.evaluate(r)


@contextlib.contextmanager
def patched(mod, name, value):
    old = getattr(mod, name)
    setattr(mod, name, value)
    try:
        yield
    finally:
        setattr(mod, name, old)


def ls(case):
    pb = Pb(case)
    maxi, n, algo = case['maxi'], len(case['changes']), case['algo']
    multi = algo == 'pareto'
    f = (lambda v: tuple(w * x for w, x in zip(case['w'], v))) if multi else (lambda v: sum(w * x for w, x in zip(case['w'], v)))
    dom = (lambda a, b: all(x >= y for x, y in zip(a, b)) and a != b) if multi else (lambda a, b: a > b)
    better = dom if maxi else (lambda a, b: dom(b, a))
    val = (lambda o: tuple(o.vector_fitness)) if multi else (lambda o: o)
    params = ParamsObjectiveFunction(ObjectiveHandling.MULTI_OBJ if multi else ObjectiveHandling.AGGREGATE, pb.names, case['w'], ModeOptim.MAXIMIZATION if maxi else ModeOptim.MINIMIZATION)
    start = Vec(case['start'])
    mut = Script(pb, case['changes'], case['inplace'])
    from skdecide.builders.discrete_optimization.generic_tools.do_problem import build_evaluate_function_aggregated
    handler = RestartHandler() if case['limit'] is None else RestartHandlerLimit(case['limit'], start, build_evaluate_function_aggregated(pb, params)[0](start))
    mode = ModeMutation.MUTATE_AND_EVALUATE if case['evaluate'] else ModeMutation.MUTATE
    kw = dict(evaluator=pb, mutator=mut, restart_handler=handler, mode_mutation=mode, params_objective_function=params, store_solution=case['store'])
    rs = iter(case['rs'])
    if algo == 'hc':
        out = HillClimber(**kw).solve(start, n)
    elif algo == 'pareto':
        out = HillClimberPareto(**kw).solve(start, n, update_iteration_pareto=case['every'])
    else:
        temp = TemperatureSchedulingFactor(case['t'], handler, case['coef'])
        with patched(random, 'random', lambda: next(rs)):
            out = SimulatedAnnealing(temperature_handler=temp, **kw).solve(start, n)
        require(abs(temp.temperature - case['t'] * case['coef'] ** n) < 1e-9, 'temperature %r after %d iterations' % (temp.temperature, n))
    # the same search, simulated
    cur, cof, best, bof = list(case['start']), f(case['start']), list(case['start']), f(case['start'])
    T, it, seen, cands, bests, kept = case['t'], iter(case['rs']), [], [], [], []
    stale = [0, 0]
    hb = (best, bof) if case['limit'] is not None else (None, bof)
    for ch in case['changes']:
        seen.append(list(cur))
        new = list(cur)
        for p, d in ch:
            new[p] += d
        o = f(new)
        cands.append((new, o))
        eq = multi and not better(o, cof) and not better(cof, o)
        up = better(o, cof) or eq
        top = (better(o, bof) if not eq else not better(o, bof) and not better(bof, o)) if up else False
        acc = up
        if not up and algo == 'sa':
            acc = math.exp((1 if maxi else -1) * (o - cof) / T) > next(it)
        if acc:
            cur, cof = new, o
        if up:
            kept.append((new, o))
        if top:
            best, bof = new, o
            bests.append((new, o))
            hb = (new, o)
        T *= case['coef']
        stale = [0 if top else stale[0] + 1, 0 if up else stale[1] + 1]
        if case['limit'] is not None and max(stale) > case['limit']:
            stale = [0, 0]
            cur, cof = list(hb[0]), hb[1]
    require(start.v == case['start'], 'the initial solution changed: %r' % start.v)
    require(mut.seen == seen, 'solutions the search moved from: %r, expected %r' % (mut.seen, seen))
    got = [(s.v, val(x)) for s, x in out.list_solution_fits]
    for v, x in got:
        require(f(v) == x, 'solution %r stored with objective %r, its objective is %r' % (v, x, f(v)))
    exp = [(case['start'], f(case['start']))] + (kept if multi else cands if case['store'] else bests)
    if multi or case['store']:
        require(sorted(got) == sorted(exp), 'stored %r, expected %r' % (got, exp))
    for v, x in got:
        require((v, x) in [(a, b) for a, b in [exp[0]] + cands], 'stored %r was never evaluated' % (v,))
    if multi:
        front = {x for v, x in exp if not any(better(y, x) for _, y in exp)}
        require({val(x) for _, x in out.paretos} == front, 'Pareto front %r, expected %r' % ({val(x) for _, x in out.paretos}, front))
    else:
        top = (max if maxi else min)(o for _, o in [exp[0]] + cands)
        require(bof == top, 'harness: best')
        s, x = out.get_best_solution_fit()
        require(x == top and f(s.v) == top, 'best %r %r, the best evaluated has %r' % (s, x, top))
        require(f(out.best_solution.v) == top, 'best solution %r, the best evaluated has %r' % (out.best_solution, top))
    require(handler.nb_iteration == n, 'iterations counted')
    require(val(handler.best_fitness) == hb[1], 'best fitness of the restart handler')
    if hb[0] is not None:
        require(handler.solution_best.v == hb[0] if hb is not None else True, 'best solution of the restart handler: %r, expected %r' % (handler.solution_best, hb))
    require([handler.nb_iteration_no_global_improve, handler.nb_iteration_no_local_improve] == stale, 'iterations without improvement')


class Params:
    TimeLimit, TimeLimit_iter0, intermediate_solution = 7, 11, 'inter'


class Stop(Exception):
    pass


def lns(case):
    kind, maxi, n = case['kind'], case['maxi'], case['n']
    if kind == 'mip' or case['skip']:
        case = dict(case, fail=[False] * n, results=[r or [0] for r in case['results']])
    pb = Pb(dict(maxi=maxi, w=[1]))
    sense = ModeOptim.MAXIMIZATION if maxi else ModeOptim.MINIMIZATION
    params = ParamsObjectiveFunction(ObjectiveHandling.AGGREGATE, pb.names, [1], sense)
    store = lambda vals: ResultStorage([(Vec([x]), x) for x in vals], mode_optim=sense)
    log, made = [], []
    clock = [0]

    class Init:
        def get_starting_solution(self):
            log.append(('start',))
            return store(case['first'])

    class Handler:
        def adding_constraint_from_results_store(self, result_storage=None, **kw):
            made.append(object())
            log.append(('add', sorted(f for _, f in result_storage.list_solution_fits), kw.get('child_instance')))
            return made[-1]
        def remove_constraints_from_previous_iteration(self, previous_constraints=None, **kw):
            log.append(('remove', previous_constraints))

    class Post:
        def build_other_solution(self, rs):
            k = solver.k - 1
            r = store([f for _, f in rs.list_solution_fits] + [case['extra'][k]])
            return r

    class Solver:
        k = 0
        def one(self):
            self.k += 1
            clock[0] += case['clock'][self.k]
            if case['fail'][self.k - 1]:
                raise Stop('no result')
            return store(case['results'][self.k - 1])
        def solve(self, parameters_milp=None, **kw):
            log.append(('solve', parameters_milp, kw))
            return self.one()
        def retrieve_solutions(self, result, parameters_cp=None):
            require(parameters_cp is Params, 'parameters')
            return result

        class Child:
            status = 'ok'
        @property
        def instance(self): return self
        @contextlib.contextmanager
        def branch(self):
            outer = self
            class Child:
                def solve(self, timeout=None, intermediate_solutions=None):
                    log.append(('solve', timeout, intermediate_solutions, self))
                    r = outer.one()
                    r.status = 'ok'
                    return r
            yield Child()
    solver = Solver()

    class Clock:
        @staticmethod
        def time(): return clock[0]
    post = Post() if case['post'] else None
    kw = dict(problem=pb, initial_solution_provider=Init(), constraint_handler=Handler(), post_process_solution=post, params_objective_function=params)
    opts = dict(nb_iteration_lns=n, nb_iteration_no_improvement=case['noimp'], max_time_seconds=case['limit'], skip_first_iteration=case['skip'])
    if kind == 'cp':
        with patched(lns_cp, 'time', Clock):
            out = lns_cp.LNS_CP(cp_solver=solver, **kw).solve_lns(parameters_cp=Params, **opts)
    else:
        with patched(lns_mip, 'time', Clock):
            out = lns_mip.LNS_MILP(milp_solver=solver, **kw).solve_lns(parameters_milp=Params, **opts)
    better = (lambda a, b: a > b) if maxi else (lambda a, b: a < b)
    best = None if case['skip'] else (max if maxi else min)(case['first'])
    all_, noimp, t, exp, upto = ([] if case['skip'] else list(case['first'])), 0, 0, 0, []
    lim = 2 * n if case['noimp'] is None else case['noimp']
    for k in range(n):
        upto.append(list(all_))
        exp += 1
        t += case['clock'][k + 1]
        res = [] if case['fail'][k] else list(case['results'][k])
        if res and case['post']:
            res.append(case['extra'][k])
        top = (max if maxi else min)(res) if res else None
        if top is not None and (best is None or better(top, best)):
            best, noimp = top, 0
        else:
            noimp += 1
        all_ += res
        if case['limit'] is not None and t > case['limit'] or noimp > lim:
            break
    require(solver.k == exp, '%d iterations, expected %d' % (solver.k, exp))
    require(all(s.v == [f] for s, f in out.list_solution_fits), 'fitness of a stored solution')
    require(sorted(f for _, f in out.list_solution_fits) == sorted(all_), 'stored %r, expected %r' % (out.list_solution_fits, all_))
    require(out.get_best_solution_fit()[1] == best, 'best %r, expected %r' % (out.get_best_solution_fit(), best))
    solves = [e for e in log if e[0] == 'solve']
    adds = [e for e in log if e[0] == 'add']
    if kind == 'cp':
        require([e[1] for e in solves] == [timedelta(seconds=11 if k == 0 else 7) for k in range(exp)] and all(e[2] == 'inter' for e in solves), 'time limits of the iterations')
        w = [sorted(u) for k, u in enumerate(upto) if k or not case['skip']]
        require([e[1] for e in adds] == w, 'constraints built from %r, expected %r' % ([e[1] for e in adds], w))
        require([e[2] for e in adds] == [e[3] for e in solves][case['skip']:], 'constraints added to another instance')
    else:
        require(all(e[1] is Params for e in solves), 'parameters')
        rem = [e[1] for e in log if e[0] == 'remove']
        require(len(rem) == exp and len(made) == exp + (not case['skip']), 'constraints added %d times, removed %d times' % (len(made), len(rem)))
        require(all(a is b for a, b in zip(rem[case['skip']:], made)), 'the constraints removed are not those of the previous iteration')
        order = [e[0] for e in log if e[0] in ('add', 'remove', 'solve')]
        require(order == ([] if case['skip'] else ['add']) + ['solve', 'remove', 'add'] * exp, 'order of the calls: %r' % order)
