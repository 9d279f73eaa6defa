"""Local search, simulated annealing, large neighbourhood search."""
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
import skdecide.builders.discrete_optimization.generic_tools.ls.local_search as lsm
import skdecide.builders.discrete_optimization.generic_tools.ls.hill_climber as hcm
import skdecide.builders.discrete_optimization.generic_tools.ls.simulated_annealing as sam
import skdecide.builders.discrete_optimization.generic_tools.lns_cp as cpm
import skdecide.builders.discrete_optimization.generic_tools.lns_mip as mim
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim, ObjectiveHandling, ParamsObjectiveFunction
from skdecide.builders.discrete_optimization.generic_tools.ls.local_search import ModeMutation

CONTRACTS = contract = Registry()
MBQI, FEAS_MS, TIMEOUT_MS = False, 500, 8000
ASSUMPTIONS = ['fitnesses and temperatures are reals (any strict partial order for the Pareto variant)',
               'a mutation may change the solution it is given; undoing its move gives the contents back (proved for the moves of the library in C27), possibly destroying the mutated solution',
               'temperatures stay positive (the coefficient is)', 'math.exp is a function; random.random gives any number of [0, 1); time.time gives any number',
               'the result storage ranks what is added to it (proved in C26)']
G = 'skdecide.builders.discrete_optimization.generic_tools.'
L, H, A, CP, MI = G + 'ls.local_search:', G + 'ls.hill_climber:', G + 'ls.simulated_annealing:', G + 'lns_cp:', G + 'lns_mip:'
Sel = z3.Select
I = lambda n: z3.Int(n + '!k')


class Sol:
    """A mutable solution with the given contents."""
    __module__ = 'skdecide.stub'
    def __init__(self, t): self.t = t
    def copy(self): return Sol(self.t)


SOL = RecTy(Sol, [('t', OBJ)])


class Fit:
    """A value of an arbitrary strict partial order; == holds when neither is better (as for fitness vectors)."""
    __module__ = 'skdecide.stub'
    __hash__ = None
    def __init__(self, t): self.t = t
    def __lt__(self, o): return SymBool(World.cur.LT(lift(self.t), lift(o.t)))
    def __gt__(self, o): return SymBool(World.cur.LT(lift(o.t), lift(self.t)))
    def __eq__(self, o): return SymBool(z3.And(z3.Not(World.cur.LT(lift(self.t), lift(o.t))), z3.Not(World.cur.LT(lift(o.t), lift(self.t)))))


FITT = RecTy(Fit, [('t', OBJ)])


class Vals:
    """The objectives of the solution with the given contents."""
    __module__ = 'skdecide.stub'
    def __init__(self, t): self.t = t


class World:
    cur = None

    def __init__(self, c, partial=False):
        World.cur = self
        self.c = c
        self.maxi = c.case('sense', [True, False])
        self.sense = ModeOptim.MAXIMIZATION if self.maxi else ModeOptim.MINIMIZATION
        self.f = func('objective', OBJ, ret=OBJ if partial else REAL)
        self.partial = partial
        U = OBJ.sorts()[0]
        self.LT = z3.Function(c.fresh_name('lt'), U, U, z3.BoolSort())
        x, y, z = (z3.Const(n + '!u', U) for n in 'xyz')
        c.assume(fa([x], z3.Not(self.LT(x, x)), self.LT(x, x)))
        c.assume(fa([x, y, z], z3.Implies(z3.And(self.LT(x, y), self.LT(y, z)), self.LT(x, z)), (self.LT(x, y), self.LT(y, z))))
        self.params = ParamsObjectiveFunction(ObjectiveHandling.AGGREGATE, ['o'], [1], self.sense)
        self.initial = Sol(OBJ.fresh('initial'))
        self.t0 = self.initial.t
        self.M = self.F(self.t0)         # best objective among the solutions evaluated
        self.touched, self.kept, self.new, self.evals = [], [], None, 0

    def F(self, t):
        v = self.f(t)
        return Fit(v) if self.partial else v

    def FT(self): return FITT if self.partial else REAL

    def better(self, a, b):
        """a is strictly better than b (formula)"""
        if self.partial:
            a, b = lift(a.t), lift(b.t)
            return self.LT(b, a) if self.maxi else self.LT(a, b)
        a, b = num(a), num(b)
        a, b = (z3.ToReal(v) if v.sort() == z3.IntSort() else v for v in (a, b))
        return a > b if self.maxi else a < b

    def same(self, a, b):
        if self.partial:
            return lift(a.t) == lift(b.t)
        return eqf(a, b)

    # problem, mutation
    def evaluate(self, sol):
        return Vals(sol.t)

    def from_sol(self, sol):
        return self.F(sol.t)

    def from_vals(self, d):
        if type(d) is not Vals:
            raise Unsupported('objectives %r' % (d,))
        return self.F(d.t)

    def mutate(self, sol):
        w, c = self, self.c
        c.prove('the initial solution is not changed', sol is not w.initial)
        old = sol.t
        sol.t = OBJ.fresh('changed')
        nv = Sol(OBJ.fresh('mutated'))
        w.touched += [sol, nv]
        w.moved_from, w.new, w.evals = old, nv.t, w.evals + 1
        if not w.partial:
            m = INT.fresh('m')          # the running best
            w.M = SymReal(z3.If(w.better(w.F(nv.t), w.M), num(w.F(nv.t)), num(w.M)))

        class Move:
            def backtrack_local_move(self, s):
                c.prove('the move is undone on the solution it produced', s is nv)
                nv.t = OBJ.fresh('junk')
                back = Sol(old)
                w.touched.append(back)
                return back
        return nv, Move()

    def mutate_and_compute_obj(self, sol):
        nv, m = self.mutate(sol)
        return nv, m, Vals(nv.t)


class Storage:
    """Result storage: remembers what was added during the current iteration, and its best fitness."""
    made = None

    def __init__(self, list_solution_fits=None, best_solution=None, mode_optim=None, limit_store=None, nb_best_store=None):
        w = World.cur
        w.c.prove('sense of the storage', mode_optim is w.sense)
        (s, f), = list_solution_fits
        w.c.prove('the initial solution with its objective', And(s.t is w.t0, w.same(f, w.F(w.t0))))
        w.c.prove('best solution: a copy of the initial one', And(best_solution is not s, lift(best_solution.t) == lift(w.t0)))
        w.kept, self.best, self.added, Storage.made, self.done = [best_solution], f, [], self, 0

    def add_solution(self, sol, fit):
        w = World.cur
        w.c.prove('stored with its own objective', w.same(fit, w.F(sol.t)))
        self.added.append((sol, sol.t))
        w.kept.append(sol)
        if not w.partial:
            self.best = SymReal(z3.If(w.better(fit, self.best), num(fit), num(self.best)))

    def finalize(self): self.done += 1
    def len_pareto_front(self): return 0


def setup(mod, *names):
    def go():
        old = {n: mod.__dict__[n] for n in names}
        mod.__dict__['print'] = lambda *a: None
        for n in names:
            mod.__dict__[n] = Storage if n in ('ResultStorage', 'ParetoFront') else build
        if mod is sam:
            old['random'], old['math'] = mod.random, mod.math
            mod.random, mod.math = Random, Math

        def undo():
            mod.__dict__.update(old)
            del mod.__dict__['print']
        return undo
    return go


def build(problem=None, params_objective_function=None):
    w = World.cur
    w.c.prove('objective of this problem with the given parameters', problem is w and params_objective_function is w.params)
    return w.from_sol, w.from_vals


class Random:
    @staticmethod
    def random():
        r = REAL.fresh('r')
        World.cur.c.assume(z3.And(r.t >= 0, r.t < 1))
        World.cur.r = r
        return r


class Math:
    @staticmethod
    def exp(x):
        w = World.cur
        w.expo = x
        return w.EXP(x)


def handler(w, limited):
    if not limited:
        h = lsm.RestartHandler()
        h.solution_best = Sol(OBJ.fresh('none'))
        return h
    k = INT.fresh('limit')
    w.c.assume(k.t >= 0)
    return lsm.RestartHandlerLimit(k, w.initial, w.F(w.t0))


def search(c, make, partial=False, annealing=False):
    w = World(c, partial)
    limited = c.case('restarts', [False, True])
    mode = c.case('mode', list(ModeMutation))
    store = c.case('store', [False, True])
    h = handler(w, limited)
    n = INT.fresh('nb_iteration_max')
    FT = w.FT()
    g = {}
    w.EXP = func('exp', REAL, ret=REAL)
    w.T, w.temps = REAL.fresh('temperature'), 0
    c.assume(w.T.t > 0)
    algo = make(w, h, mode, store)

    def inv(lp):
        loc = lp.locals
        cur, cob, best, bob = loc['cur_variable'], loc['cur_objective'], loc['cur_best_variable'], loc['cur_best_objective']
        S = Storage.made
        it = num(loc['iteration'])
        out = [('iterations', z3.And(it >= 0, it <= z3.If(num(n) > 0, num(n), 0))),
               ('the current objective is that of the current solution', w.same(cob, w.F(cur.t))),
               ('the best objective is that of the best solution', w.same(bob, w.F(best.t))),
               ('best fitness of the restart handler', w.same(h.best_fitness, bob)),
               ('iterations counted', eqf(h.nb_iteration, it)),
               ('the temperature is positive', num(w.T) > 0),
               ('counters', z3.And(num(h.nb_iteration_no_global_improve) >= 0, num(h.nb_iteration_no_local_improve) >= 0))]
        if limited:
            out.append(('best solution of the restart handler', w.same(w.F(h.solution_best.t), bob)))
        if not partial:
            out += [('the current solution is not better than the best', z3.Not(w.better(cob, bob))),
                    ('the best of the solutions evaluated', eqf(bob, w.M)),
                    ('the storage has the best of the solutions evaluated', eqf(S.best, w.M))]
        if lp.phase == 'assume':
            g.update(cur=cur.t, cob=cob, bob=bob, T=w.T, loc=h.nb_iteration_no_local_improve, glob=h.nb_iteration_no_global_improve)
            w.touched, w.kept, S.added, w.new, w.evals, w.expo, w.r, w.temps = [], [], [], None, 0, None, None, 0
        else:
            live = [cur] + w.touched
            for x in w.kept + [w.initial]:
                c.prove('%s: solutions stored are not those the search goes on changing' % lp.phase, not any(x is y for y in live))
            c.prove('%s: the restart handler keeps its own copy' % lp.phase, not any(h.solution_best is y for y in live))
        if lp.phase == 'preserve':
            step(cur, cob, S)
        return out

    def step(cur, cob, S):
        """One iteration from the solution g[cur] with the candidate w.new."""
        c.prove('one candidate per iteration', w.evals == 1)
        if w.evals != 1:
            return
        fo = w.F(w.new)
        c.prove('the candidate is a mutation of the current solution', lift(w.moved_from) == lift(g['cur']))
        up = w.better(fo, g['cob'])
        if partial:
            up = z3.Or(up, z3.Not(w.better(g['cob'], fo)))
        accept = up
        if annealing:
            c.prove('one temperature step per iteration', w.temps == 1)
            if w.r is not None:
                c.prove('a draw only for candidates that do not improve', z3.Not(up))
                o, b = num(fo), num(g['cob'])
                c.prove('exponent of the acceptance probability', eqf(w.expo, ((SymReal(o) - SymReal(b)) if w.maxi else (SymReal(b) - SymReal(o))) / g['T']))
                accept = num(w.EXP(w.expo)) > num(w.r)
            else:
                c.prove('candidates that improve are accepted without a draw', up)
        moved = z3.If(accept, lift(w.new), lift(g['cur']))
        go_on = lift(cur.t) == moved
        top = z3.And(up, w.better(fo, g['bob']))
        if partial:
            tie = lambda a, b: z3.And(z3.Not(w.better(a, b)), z3.Not(w.better(b, a)))
            top = z3.If(w.better(fo, g['cob']), w.better(fo, g['bob']), z3.And(up, tie(fo, g['bob'])))
        ng, nl = z3.If(top, 0, num(g['glob']) + 1), z3.If(up, 0, num(g['loc']) + 1)
        cg, cl = num(h.nb_iteration_no_global_improve), num(h.nb_iteration_no_local_improve)
        if limited:
            over = z3.Or(ng > num(h.nb_iteration_no_improvement), nl > num(h.nb_iteration_no_improvement))
            c.prove('next solution: the candidate if accepted, else the one before; the best one at a restart', z3.If(over, lift(cur.t) == lift(h.solution_best.t), go_on))
            c.prove('restarts reset the counters', z3.If(over, z3.And(cg == 0, cl == 0), z3.And(cg == ng, cl == nl)))
        else:
            c.prove('next solution: the candidate if accepted, else the one before', go_on)
            c.prove('iterations without improvement', z3.And(cg == ng, cl == nl))
        c.prove('the best fitness changes with a new best only', w.same(h.best_fitness, fo) if c.branch(top) else w.same(h.best_fitness, g['bob']))
        if partial:
            c.prove('accepted candidates are stored', (len(S.added) == 1 and lift(S.added[0][1]) == lift(w.new)) if c.branch(accept) else not S.added)
        elif store:
            c.prove('every candidate is stored once', And(len(S.added) == 1, *[lift(t) == lift(w.new) for _, t in S.added]))
        else:
            c.prove('new best solutions are stored', (len(S.added) == 1 and lift(S.added[0][1]) == lift(w.new)) if c.branch(top) else len(S.added) <= 1)

    types = dict(cur_variable=SOL, cur_best_variable=SOL, cur_objective=FT, cur_best_objective=FT, objective=FT, iteration=INT)
    c.loops.append(LoopContract(lambda lp: lp.kind == 'while', inv, types,
                                lambda lp: [(h, 'nb_iteration', INT), (h, 'nb_iteration_no_local_improve', INT), (h, 'nb_iteration_no_global_improve', INT), (h, 'best_fitness', FT), (h, 'solution_best', SOL),
                                            (w, 'T', REAL)] + ([] if partial else [(w, 'M', REAL), (Storage.made, 'best', REAL)]), name='search',
                                decreases=lambda lp: SymInt(z3.If(num(n) > 0, num(n), 0) - num(lp.locals['iteration']))))
    out = algo.solve(w.initial, n)
    c.prove('returns the storage, finalized', out is Storage.made and (out.done >= 1 if partial else out.done == 1))
    c.prove('initial solution unchanged', w.initial.t is w.t0)
    if not partial:
        c.prove('the best solution evaluated is stored', eqf(out.best, w.M))
    c.prove('all iterations done', eqf(h.nb_iteration, z3.If(num(n) > 0, num(n), 0)))


@contract('hill climbing', H + 'HillClimber.__init__', H + 'HillClimber.solve', L + 'RestartHandler.__init__', L + 'RestartHandler.update', L + 'RestartHandler.restart',
          L + 'RestartHandlerLimit.__init__', L + 'RestartHandlerLimit.restart', setup=setup(hcm, 'ResultStorage', 'build_evaluate_function_aggregated'))
def _(c):
    search(c, lambda w, h, mode, store: hcm.HillClimber(w, w, h, mode, w.params, store))


@contract('hill climbing on a Pareto front', H + 'HillClimberPareto.__init__', H + 'HillClimberPareto.solve', setup=setup(hcm, 'ParetoFront', 'build_evaluate_function_aggregated'))
def _(c):
    search(c, lambda w, h, mode, store: hcm.HillClimberPareto(w, w, h, mode, w.params, store), partial=True)


@contract('simulated annealing', A + 'SimulatedAnnealing.__init__', A + 'SimulatedAnnealing.solve', setup=setup(sam, 'ResultStorage', 'build_evaluate_function_aggregated'))
def _(c):
    def make(w, h, mode, store):
        class Temp:
            @property
            def temperature(self): return w.T
            def next_temperature(self):
                w.temps += 1
                w.T = REAL.fresh('temperature')
                w.c.assume(w.T.t > 0)
        return sam.SimulatedAnnealing(w, w, h, Temp(), mode, w.params, store)
    search(c, make, annealing=True)


@contract('temperature', A + 'TemperatureSchedulingFactor.__init__', A + 'TemperatureSchedulingFactor.next_temperature')
def _(c):
    t, k, h = REAL.fresh('temperature'), REAL.fresh('coefficient'), object()
    s = sam.TemperatureSchedulingFactor(t, h, k)
    c.prove('initial temperature', s.temperature is t and s.restart_handler is h)
    r = s.next_temperature()
    c.prove('multiplied by the coefficient', And(eqf(r, num(t) * num(k)), eqf(s.temperature, num(t) * num(k))))


# ------------------------------------------------------------------------------- large neighbourhood search
class Store:
    """A result storage: the pairs it was built from, and all solutions it holds with their fitness."""
    __module__ = 'skdecide.stub'

    def __init__(self, w, name, least=0):
        c = w.c
        self.w = w
        self.list_solution_fits = SeqTy(TupTy(SOL, REAL)).fresh(name)
        q = self.list_solution_fits
        self.S, self.Fs = q.arrays[1], q.arrays[2]
        self.have = DictTy(OBJ, REAL).fresh(name + ' holds')
        self.at = func('place', OBJ, ret=INT).decls[0]
        j, x = I('j'), z3.Const('x!h', OBJ.sorts()[0])
        c.assume(q.n >= least)
        dom, val = self.have.terms
        c.assume(fa([j], z3.Implies(z3.And(0 <= j, j < q.n), z3.And(Sel(self.Fs, j) == w.FN(Sel(self.S, j)), Sel(dom, Sel(self.S, j)))), Sel(self.S, j), Sel(self.Fs, j)))
        c.assume(fa([x], z3.Implies(Sel(dom, x), z3.And(Sel(val, x) == w.FN(x), 0 <= self.at(x), self.at(x) < q.n, Sel(self.S, self.at(x)) == x)), Sel(dom, x), Sel(val, x)))
        self.dom0 = dom

    def add_solution(self, solution=None, fitness=None):
        self.w.c.prove('stored with its own fitness', eqf(fitness, self.w.FN(lift(solution.t))))
        if solution.t not in self.have:
            self.have[solution.t] = fitness

    def get_best_solution_fit(self):
        w, q = self.w, self.list_solution_fits
        k, j = INT.fresh('k').t, I('j')
        w.c.prove('the best of at least one solution', q.n >= 1)
        w.c.assume(z3.And(0 <= k, k < q.n, fa([j], z3.Implies(z3.And(0 <= j, j < q.n), z3.Not(w.better(SymReal(Sel(self.Fs, j)), SymReal(Sel(self.Fs, k))))), Sel(self.S, j), Sel(self.Fs, j))))
        self.top = SOL.wrap([Sel(self.S, k)]), SymReal(Sel(self.Fs, k))
        return self.top


class Cons:
    """Constraints added by the handler."""
    __module__ = 'skdecide.stub'
    def __init__(self, t): self.t = t


CONS = RecTy(Cons, [('t', OBJ)])


class Lns:
    """Problem, sub-solver, initial solution, constraint handler and clock."""

    def __init__(self, c, kind):
        self.c, self.kind = c, kind
        self.maxi = c.case('sense', [True, False])
        self.sense = ModeOptim.MAXIMIZATION if self.maxi else ModeOptim.MINIMIZATION
        self.params = ParamsObjectiveFunction(ObjectiveHandling.AGGREGATE, ['o'], [1], self.sense)
        self.FN = func('fitness', OBJ, ret=REAL).decls[0]
        self.start, self.log, self.results, self.times, self.results = None, [], [], [], []
        self.last, self.partial = None, False
        Lns.cur = self

    better = World.better

    def get_starting_solution(self):
        self.start = Store(self, 'start', 1)
        return self.start

    def satisfy(self, s): return BOOL.fresh('satisfy')

    # constraint handler
    def adding_constraint_from_results_store(self, cp_solver=None, child_instance=None, result_storage=None, milp_solver=None):
        self.log.append(('add', result_storage, child_instance))
        self.c.prove('constraints added to this solver', (cp_solver is self and child_instance is not None) if self.kind == 'cp' else milp_solver is self)
        k = Cons(OBJ.fresh('constraints'))
        self.last = k.t
        return k

    def remove_constraints_from_previous_iteration(self, milp_solver=None, previous_constraints=None):
        p = previous_constraints
        self.log.append(('remove', p))
        self.c.prove('the constraints of the previous iteration are removed', milp_solver is self and (lift(p.t) == lift(self.last) if type(p) is Cons else self.last is None))

    # solver
    def attempt(self):
        self.results.append(None)
        if self.kind == 'cp' and self.c.case('fails', [False, True]):
            raise ValueError('no result')

    def solve(self, parameters_milp=None, **kw):
        self.log.append(('solve', kw))
        self.c.prove('parameters of the solver', parameters_milp is PARAMS)
        self.attempt()
        r = Store(self, 'result', 1)
        self.results.append(r)
        return r

    def retrieve_solutions(self, result, parameters_cp=None):
        self.c.prove('parameters of the solver', parameters_cp is PARAMS and result.__class__.__name__ == 'Result')
        # in the first iteration without a starting solution the sub-solver is assumed to find one
        r = Store(self, 'result', 1 if self.must else 0)
        self.results.append(r)
        return r

    @property
    def instance(self): return self

    def branch(self):
        w = self

        class Child:
            def __enter__(self):
                w.log.append(('enter', self))
                return self

            def __exit__(self, *a):
                w.log.append(('exit', self))

            def solve(self, timeout=None, intermediate_solutions=None):
                w.log.append(('solve', self, timeout))
                w.c.prove('the option of the parameters', intermediate_solutions is PARAMS.intermediate_solution)
                if w.must:
                    w.results.append(None)
                else:
                    w.attempt()

                class Result:
                    status = 'ok'
                return Result()
        return Child()

    # post-processing
    def build_other_solution(self, store):
        self.c.prove('post-processing of the result', store is self.results[-1])
        r = Store(self, 'post', 1)
        self.results.append(r)
        return r

    def time(self):
        t = REAL.fresh('time')
        self.times.append(t)
        return t


class PARAMS:
    TimeLimit, TimeLimit_iter0, intermediate_solution = 7, 11, object()


def lns_setup(mod):
    def go():
        old = {n: mod.__dict__[n] for n in ('time', 'build_aggreg_function_and_params_objective')}

        class Clock:
            @staticmethod
            def time(): return Lns.cur.time()

        def build(problem=None, params_objective_function=None):
            w = Lns.cur
            w.c.prove('objective of this problem with the given parameters', problem is w and params_objective_function is w.params)
            return None, None, w.params
        mod.__dict__.update({'print': (lambda *a: None), 'time': Clock, 'build_aggreg_function_and_params_objective': build})
        if 'timedelta' in mod.__dict__:
            old['timedelta'] = mod.timedelta
            mod.timedelta = lambda seconds=None: seconds

        def undo():
            mod.__dict__.update(old)
            del mod.__dict__['print']
        return undo
    return go


def lns(c, kind):
    w = Lns(c, kind)
    skip, post, given = c.case('skip', [False, True]), c.case('post', [False, True]), c.case('limits', [True, False])
    n = INT.fresh('nb_iteration_lns')
    c.assume(n.t >= 1)
    limit, seconds = (INT.fresh('no_improvement'), INT.fresh('seconds')) if given else (None, None)
    lim, sec = (num(limit), num(seconds)) if given else (2 * n.t, z3.IntVal(3600 * 24))
    g, x = {}, z3.Const('x!h', OBJ.sorts()[0])
    w.must = False

    def expect():
        """Outcome of the iteration: (counter, best fitness or None, witness, solutions held)."""
        c.prove('the sub-solver is called once', sum(r is None for r in w.results) == 1)
        stores = [r for r in w.results if r is not None]
        count, best, wit, dom = num(g['count']), g['best'], g['wit'], g['dom']
        r = stores[-1] if stores else None
        if r is not None and kind == 'cp' and not post and c.branch(r.list_solution_fits.n < 1):
            r = None
        if r is not None and kind == 'cp' and post and len(stores) == 1:
            c.prove('results are post-processed', r.list_solution_fits.n < 1)
            r = None
        if r is None:
            return count + 1, best, wit, dom, None
        c.prove('results are post-processed if asked', len(stores) == 1 + post)
        s, f = r.top
        if best is None or c.branch(w.better(f, best)):
            return z3.IntVal(0), f, lift(s.t), dom, r
        return count + 1, best, wit, dom, r

    def check(st, count, best, wit, dom, r):
        """What is held after an iteration."""
        new = st.have.terms[0]
        if r is None:
            c.prove('an iteration without result stores nothing', fa([x], Sel(new, x) == Sel(dom, x), Sel(new, x)) if dom is not None else False)
        elif dom is None:
            c.prove('the first result is the store', st is r)
            c.prove('it is kept as it is', fa([x], Sel(new, x) == Sel(r.dom0, x), Sel(new, x)))
        else:
            c.prove('exactly the solutions of the result are added', fa([x], Sel(new, x) == z3.Or(Sel(dom, x), Sel(r.dom0, x)), Sel(new, x)))
        return holds(st, best, wit)

    def holds(st, best, wit):
        dom, val = st.have.terms
        return [('every solution is held with its fitness', fa([x], z3.Implies(Sel(dom, x), Sel(val, x) == w.FN(x)), Sel(dom, x), Sel(val, x))),
                ('the best objective is that of a solution held', z3.And(Sel(dom, wit), w.FN(wit) == num(best))),
                ('no solution held is better', fa([x], z3.Implies(Sel(dom, x), z3.Not(w.better(SymReal(w.FN(x)), best))), Sel(dom, x), Sel(val, x)))]

    def calls(it):
        log = [e for e in w.log if e[0] != 'start']
        first = c.branch(it == 0)
        if kind == 'cp':
            c.prove('calls of an iteration', [e[0] for e in log] == ['enter'] + ([] if skip and first else ['add']) + ['solve'] + (['exit'] if log[-1][0] == 'exit' else []))
            ch = log[0][1]
            sv = next(e for e in log if e[0] == 'solve')
            c.prove('the branch is constrained and solved', sv[1] is ch and all(e[2] is ch for e in log if e[0] == 'add'))
            c.prove('time limit of the iteration', sv[2] == (11 if first else 7))
            c.prove('constraints are built from everything found so far', all(e[1] is g['st'] for e in log if e[0] == 'add'))
        else:
            c.prove('calls of an iteration', [e[0] for e in log] == ['solve', 'remove', 'add'])
            c.prove('options of the solver', log[0][1] == {'option': 3})
            c.prove('constraints are built from the result', log[2][1] is w.results[-1])

    def over(count):
        c.prove('the clock is read each iteration', len(w.times) == 1)
        return z3.Or(num(w.times[-1]) - num(g['t0']) > z3.ToReal(sec), count > lim)

    def inv(lp):
        loc = lp.locals
        if lp.phase == 'establish':
            g['t0'] = w.times[0]
            c.prove('the clock is started', len(w.times) == 1 and loc.get('deb_time') is w.times[0])
            if kind == 'mip':
                c.prove('first constraints', [e[0] for e in w.log] == ([] if skip else ['add']) and all(e[1] is w.start for e in w.log))
            else:
                c.prove('no constraints yet', not w.log)
            st = loc['store_lns']
            c.prove('starts from the initial solution', (st is None and w.start is None) if skip else st is w.start)
            b = loc['best_objective']
            c.prove('starts from the best initial solution', (b == (float('-inf') if w.maxi else float('inf'))) if skip else b is w.start.top[1])
            return [('counter', eqf(loc['current_nb_iteration_no_improvement'], 0))] + ([] if skip else holds(st, b, lift(w.start.top[0].t)))
        it = lp.i
        if lp.phase == 'assume':
            empty = skip and c.branch(it == 0)
            w.log, w.results, w.times, w.must = [], [], [], empty
            g.update(mode=lp.mode, it=it, count=loc['current_nb_iteration_no_improvement'])
            out = [('counter', num(g['count']) >= 0)]
            if empty:
                lp.vals.update(store_lns=None, best_objective=float('-inf') if w.maxi else float('inf'), best_solution=None, constraint_iterable={'empty': []})
                w.last = None
                g.update(st=None, best=None, wit=None, dom=None)
                return out + [('counter at the start', num(g['count']) == 0)]
            if skip:
                st = Store(w, 'held', 0)
            else:
                st = w.start
            lp.vals['store_lns'], lp.vals['best_objective'] = st, REAL.fresh('best')
            st.have.terms = DictTy(OBJ, REAL).fresh('held now').terms
            k = Cons(OBJ.fresh('constraints'))
            w.last, lp.vals['constraint_iterable'] = k.t, k
            lp.vals['best_solution'] = Sol(OBJ.fresh('best solution'))
            g.update(st=st, best=lp.vals['best_objective'], wit=z3.Const(c.fresh_name('wit'), OBJ.sorts()[0]), dom=st.have.terms[0])
            return out + holds(st, g['best'], g['wit'])
        # preserve
        calls(g['it'])
        count, best, wit, dom, r = expect()
        c.prove('goes on while the limits allow', z3.Not(over(count)))
        st = loc['store_lns']
        if not skip or dom is not None:
            c.prove('the store stays the same object', st is g['st'])
        c.prove('the best objective so far', eqf(loc['best_objective'], best))
        return [('counter', eqf(loc['current_nb_iteration_no_improvement'], count))] + check(st, count, best, wit, dom, r)

    def inv_add(lp):
        st = lp.locals['store_lns']
        dom, val = st.have.terms
        r = w.results[-1]
        c.prove('%s: the result is added' % lp.phase, lp.it is r.list_solution_fits)
        if lp.phase == 'establish':
            g['in'] = dom
        d0, j = g['in'], I('j')
        return [('nothing is lost', fa([x], z3.Implies(Sel(d0, x), Sel(dom, x)), Sel(d0, x), Sel(dom, x))),
                ('the result so far', fa([j], z3.Implies(z3.And(0 <= j, j < lp.i), Sel(dom, Sel(r.S, j))), Sel(r.S, j))),
                ('only the result', fa([x], z3.Implies(Sel(dom, x), z3.Or(Sel(d0, x), Sel(r.dom0, x))), Sel(dom, x))),
                ('fitness', fa([x], z3.Implies(Sel(dom, x), Sel(val, x) == w.FN(x)), Sel(dom, x), Sel(val, x)))]

    c.loops += [LoopContract(lambda lp: lp.kind == 'SymSeq' and lp.it is not None and not (w.results and lp.it is (w.results[-1] and w.results[-1].list_solution_fits)), inv,
                             {'current_nb_iteration_no_improvement': INT, 'best_objective': REAL}, lambda lp: [w.start.have] if w.start else [], name='iterations'),
                LoopContract(lambda lp: lp.kind == 'SymSeq', inv_add, {}, lambda lp: [lp.entry_locals['store_lns'].have], name='add')]
    p = w if post else None
    opts = dict(nb_iteration_lns=n, nb_iteration_no_improvement=limit, max_time_seconds=seconds, skip_first_iteration=skip)
    if kind == 'cp':
        out = cpm.LNS_CP(w, w, w, w, p, w.params).solve_lns(parameters_cp=PARAMS, **opts)
    else:
        out = mim.LNS_MILP(w, w, w, w, p, w.params).solve_lns(parameters_milp=PARAMS, option=3, **opts)
    if g['mode'] == 0:
        calls(g['it'])
        count, best, wit, dom, r = expect()
        c.prove('stops early only beyond a limit', over(count))
        for nm, f in check(out, count, best, wit, dom, r):
            c.prove('returned store: ' + nm, f)
        return
    c.prove('returns what was found', out is g['st'])
    if g['best'] is not None:
        for nm, f in holds(out, g['best'], g['wit']):
            c.prove('returned store: ' + nm, f)


@contract('large neighbourhood search (constraint programming)', CP + 'LNS_CP.__init__', CP + 'LNS_CP.solve_lns', MI + 'TrivialPostProcessSolution.build_other_solution', setup=lns_setup(cpm))
def _(c):
    lns(c, 'cp')


@contract('large neighbourhood search (linear programming)', MI + 'LNS_MILP.__init__', MI + 'LNS_MILP.solve_lns', setup=lns_setup(mim))
def _(c):
    lns(c, 'mip')
