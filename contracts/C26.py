"""Objective functions, fitness order, storage of results."""
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
import skdecide.builders.discrete_optimization.generic_tools.do_problem as P
import skdecide.builders.discrete_optimization.generic_tools.result_storage.multiobj_utils as mo
import skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage as rs
import skdecide.builders.discrete_optimization.generic_tools.result_storage.resultcomparator as rcmp
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim, ObjectiveHandling, ParamsObjectiveFunction

CONTRACTS = contract = Registry()
MBQI, FEAS_MS, TIMEOUT_MS = False, 500, 8000
ASSUMPTIONS = ['weights, objective values and scalar fitnesses are reals', 'numpy vectors follow their elementwise definition; mean, median, percentile, dot, min and max are numpy\'s',
               'heapq: pushes add the value; nlargest and nsmallest keep the extreme value; the contents of the heap beyond that are not specified',
               'equal solutions are one value (their __eq__ and __hash__ are consistent)', 'storing at least one solution (nb_best_store >= 1)']
G = 'skdecide.builders.discrete_optimization.generic_tools.'
D, T, R, C = G + 'do_problem:', G + 'result_storage.multiobj_utils:TupleFitness.', G + 'result_storage.result_storage:', G + 'result_storage.resultcomparator:ResultComparator.'
Sel = z3.Select
I = lambda n: z3.Int(n + '!s')


class Vec:
    """A numpy vector."""
    def __init__(self, n, at): self.n, self.at = n, at

    def _cmp(self, o, f):
        if type(o) is not Vec:
            raise Unsupported('comparison of a vector with %r' % (o,))
        engine.CTX.prove('vectors of the same length', self.n == o.n)
        a, b = self.at, o.at
        return BVec(self.n, lambda j: f(a(j), b(j)))
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    __hash__ = None

    def __mul__(self, x):
        a, t = self.at, num(x)
        t = z3.ToReal(t) if t.sort() == z3.IntSort() else t
        return Vec(self.n, lambda j: t * a(j))
    __rmul__ = __mul__


class BVec:
    def __init__(self, n, at): self.n, self.at = n, at

    def all(self):
        j = z3.Int(engine.CTX.fresh_name('j'))
        return SymBool(fa([j], z3.Implies(z3.And(0 <= j, j < self.n), self.at(j))))

    def any(self):
        j = z3.Int(engine.CTX.fresh_name('j'))
        return SymBool(z3.Exists([j], z3.And(0 <= j, j < self.n, self.at(j))))


class NP:
    made = None

    @staticmethod
    def array(x):
        if type(x) is not SymSeq:
            x = to_seq(x)
        return Vec(x.n, lambda j: num(x.elem(j)))


def numpy():
    old, oldm = P.np, mo.np
    P.np, P.print = NP, (lambda *a: None)

    def undo():
        P.np = old
        del P.print
    return undo


@contract('aggregated objective', D + 'build_evaluate_function_aggregated', D + 'build_aggreg_function_and_params_objective', D + 'get_default_objective_setup',
          D + 'ParamsObjectiveFunction.__init__', T + '__init__', T + '__mul__', setup=numpy)
def _(c):
    how = c.case('handling', list(ObjectiveHandling))
    sense = c.case('sense', list(ModeOptim))
    objs, ws = SeqTy(OBJ).fresh('objectives'), SeqTy(REAL).fresh('weights')
    c.assume(z3.And(objs.n == ws.n, objs.n >= 1))
    vals = DictTy(OBJ, REAL).fresh('values')
    j = I('j')
    c.assume(fa([j], z3.Implies(z3.And(0 <= j, j < objs.n), Sel(vals.terms[0], Sel(objs.arrays[1], j))), Sel(objs.arrays[1], j)))
    sol, asked = OBJ.fresh('solution'), []

    class Register:
        objective_sense, objective_handling = sense, how
        def get_list_objective_and_default_weight(self): return objs, ws

    class Problem:
        def get_objective_register(self): return Register()
        def evaluate(self, s):
            asked.append(s)
            return vals
    given = c.case('parameters', [True, False])
    params = ParamsObjectiveFunction(how, objs, ws, sense) if given else None
    f, g, out = P.build_aggreg_function_and_params_objective(Problem(), params)
    if given:
        c.prove('the given parameters', out is params)
    c.prove('parameters', out.objective_handling is how and out.objectives is objs and out.weights is ws and out.sense_function is sense)
    term = lambda i: Sel(vals.terms[1], Sel(objs.arrays[1], i)) * Sel(ws.arrays[1], i)
    direct = c.case('from', ['solution', 'values'])
    r = f(sol) if direct == 'solution' else g(vals)
    c.prove('evaluated on the solution', len(asked) == (direct == 'solution') and all(x is sol for x in asked))
    if how is ObjectiveHandling.MULTI_OBJ:
        v = r.vector_fitness
        c.prove('one fitness per objective', z3.And(v.n == objs.n, num(r.size) == objs.n))
        return c.prove('weighted objectives in the order given', fa([j], z3.Implies(z3.And(0 <= j, j < objs.n), v.at(j) == term(j))))
    if how is ObjectiveHandling.SINGLE:
        return c.prove('the weighted first objective', num(r) == term(z3.IntVal(0)))
    total = PrefixSum(SymSeq(objs.n, lambda i: SymReal(term(i)), REAL))
    c.prove('weighted sum of the objectives', eqf(r, total.total()))


@contract('default objectives', D + 'ObjectiveRegister.get_list_objective_and_default_weight', D + 'Problem.evaluate_mobj', D + 'Problem.evaluate_mobj_from_dict', setup=numpy)
def _(c):
    names = c.case('names', [['b', 'a', 'c'], ['x'], ['z', 'y']])
    w = {n: REAL.fresh(n) for n in names}
    vals = {n: REAL.fresh(n) for n in names[::-1]}
    reg = P.ObjectiveRegister(ModeOptim.MAXIMIZATION, ObjectiveHandling.SINGLE, {n: {'type': None, 'default_weight': w[n]} for n in names})
    a, b = reg.get_list_objective_and_default_weight()
    c.prove('objectives and weights in the same order', a == names and all(x is w[n] for x, n in zip(b, names)) and len(b) == len(names))

    class Pb(P.Problem):
        def get_objective_register(self): return reg
        def evaluate(self, s): return vals
    for v in (Pb().evaluate_mobj(None), Pb().evaluate_mobj_from_dict(vals)):
        c.prove('vector of all objectives by name', And(v.size == len(names), v.vector_fitness.n == len(names),
                                                        *[v.vector_fitness.at(z3.IntVal(i)) == num(vals[n]) for i, n in enumerate(sorted(names))]))


@contract('order of fitness vectors', T + '__lt__', T + '__gt__', T + '__eq__', T + '__le__', T + '__ge__')
def _(c):
    n = INT.fresh('n').t
    arr = [z3.Const(c.fresh_name('v'), z3.ArraySort(z3.IntSort(), z3.RealSort())) for _ in range(3)]
    a, b, d = (mo.TupleFitness(Vec(n, lambda j, x=x: Sel(x, j)), SymInt(n)) for x in arr)
    j = I('j')
    A, B, X = arr
    dom = lambda x, y: z3.And(fa([j], z3.Implies(z3.And(0 <= j, j < n), Sel(x, j) >= Sel(y, j))), z3.Exists([j], z3.And(0 <= j, j < n, Sel(x, j) > Sel(y, j))))
    c.prove('greater means dominating', Iff(ev(lambda: a > b), dom(A, B)))
    c.prove('less means dominated', Iff(ev(lambda: a < b), dom(B, A)))
    c.prove('equal means that neither dominates', Iff(ev(lambda: a == b), z3.And(z3.Not(dom(A, B)), z3.Not(dom(B, A)))))
    c.prove('at least means not dominated', Iff(ev(lambda: a >= b), z3.Not(dom(B, A))))
    c.prove('at most means not dominating', Iff(ev(lambda: a <= b), z3.Not(dom(A, B))))
    c.prove('transitive', z3.Implies(z3.And(dom(A, B), dom(B, X)), dom(A, X)))
    c.prove('irreflexive', z3.Not(dom(A, A)))


@contract('robust problem', D + 'RobustProblem.evaluate', D + 'RobustProblem.aggregate_vector', D + 'RobustProblem.__init__', D + 'RobustProblem.satisfy', setup=numpy)
def _(c):
    how = c.case('method', list(P.BaseMethodAggregating))
    n = INT.fresh('problems')
    c.assume(num(n) >= 1)
    fa_, fb = func('objective_a', INT, ret=REAL), func('objective_b', INT, ret=REAL)
    var, calls = OBJ.fresh('solution'), []

    class Pb:
        __module__ = 'skdecide.stub'
        def __init__(self, k): self.k = k

        def evaluate(self, v):
            engine.CTX.prove('evaluates the solution', v is var)
            return {'b': fb(self.k), 'a': fa_(self.k)}

        def satisfy(self, v):
            return 'sat', self.k, v
    F = {m: func(m, OBJ, ret=REAL) for m in ('mean', 'median', 'min', 'max')}
    token = {}

    class Num(NP):
        pass

    def stat(m):
        def f(v, *a, **kw):
            calls.append((m, v, a, kw))
            r = REAL.fresh(m)
            calls[-1] += (r,)
            return [r] if m == 'percentile' else r
        return staticmethod(f)
    for m in ('mean', 'median', 'min', 'max', 'percentile', 'dot'):
        setattr(Num, m, stat(m))
    P.np = Num
    pct, pond = REAL.fresh('q'), Vec(num(n), lambda j: z3.RealVal(1))
    pbs = SymSeq(num(n), lambda j: Pb(SymInt(j)), None)
    pbs.V = inst_ty(Pb(INT.fresh('k')))
    rp = P.RobustProblem(pbs, P.MethodAggregating(how, percentile=pct, ponderation=pond))
    r = rp.evaluate(var)
    c.prove('objectives of the problems', set(r) == {'a', 'b'})
    name = {'PONDERATION': 'dot'}.get(how.name, how.name.lower())
    c.prove('one statistic per objective', len(calls) == 2 and all(x[0] == name for x in calls))
    j = I('j')
    for x, (key, f) in zip(calls, [('b', fb), ('a', fa_)]):
        c.prove('statistic of the objective over all problems', z3.And(x[1].n == num(n), fa([j], z3.Implies(z3.And(0 <= j, j < num(n)), x[1].at(j) == f.decls[0](j)))))
        c.prove('reported under its name', r[key] is x[4])
        if name == 'percentile':
            q = x[3].get('q', x[2][0] if x[2] else None)
            c.prove('the percentile asked for', (isinstance(q, list) and len(q) == 1 and q[0] is pct))
        if name == 'dot':
            c.prove('the weights given', x[2] == (pond,))
    s = rp.satisfy(var)
    c.prove('feasibility of the first problem', And(s[0] == 'sat' and s[2] is var, num(s[1]) == 0))


# --------------------------------------------------------------------------------------------------- storage
ENTRY = TupTy(OBJ, REAL)
LIST, MAP, HEAP = SeqTy(ENTRY), DictTy(OBJ, REAL), SetTy(REAL)


def heaps():
    names = ('heappush', 'heappushpop', 'heapify', 'nsmallest', 'nlargest', 'random')
    old = {n: getattr(rs, n) for n in names}

    def push(h, v):
        if type(h) is SymSet:
            h.add(v)

    def keep(lo):
        def f(k, h):
            cx = engine.CTX
            r = HEAP.fresh('kept')
            x, y = z3.Real('x!heap'), z3.Real('y!heap')
            full = h.t
            cx.assume(z3.IsSubset(r.t, full))
            cx.assume(fa([x], z3.Implies(z3.And(Sel(full, x), fa([y], z3.Implies(Sel(full, y), x <= y if lo else x >= y))), Sel(r.t, x))))
            cx.assume(z3.Implies(r.t == z3.K(z3.RealSort(), z3.BoolVal(False)), full == z3.K(z3.RealSort(), z3.BoolVal(False))))
            return r
        return f

    class Rnd:
        @staticmethod
        def choice(seq):
            if type(seq) is not SymSeq:
                raise Unsupported('choice')
            cx = engine.CTX
            cx.prove('choice among something', seq.n > 0)
            k = INT.fresh('chosen')
            cx.assume(z3.And(0 <= num(k), num(k) < seq.n))
            return seq[k]
    rs.heappush, rs.heappushpop, rs.heapify, rs.nsmallest, rs.nlargest, rs.random = push, push, (lambda h: None), keep(True), keep(False), Rnd

    def undo():
        for n, v in old.items():
            setattr(rs, n, v)
    return undo


def better(maxi):
    return (lambda x, y: x > y) if maxi else (lambda x, y: x < y)


@contract('new storage', R + 'ResultStorage.__init__', setup=heaps)
def _(c):
    maxi = c.case('maximise', [True, False])
    bt = better(maxi)
    lst = LIST.fresh('list')
    S, F = lst.arrays[1:]
    n = lst.n
    nb = INT.fresh('nb')
    c.assume(num(nb) >= 1)
    given = OBJ.fresh('given') if c.case('best given', [False, True]) else None
    r = object.__new__(rs.ResultStorage)
    j, x, k = I('j'), z3.Real('x!s'), I('k')
    s = z3.Const('s!s', U)
    first = z3.Function(c.fresh_name('first'), U, z3.IntSort())

    def inv(lp):
        m = MAP.unwrap(r.map_solutions)
        h = HEAP.unwrap(r.heap if type(r.heap) is SymSet else set())[0]
        return [('solutions so far', fa([j], z3.Implies(z3.And(0 <= j, j < lp.i), Sel(m[0], Sel(S, j))), Sel(S, j))),
                ('only solutions so far, with the fitness of the first one', fa([s], z3.Implies(Sel(m[0], s), z3.Exists([j], z3.And(0 <= j, j < lp.i, Sel(S, j) == s, Sel(F, j) == Sel(m[1], s),
                    fa([k], z3.Implies(z3.And(0 <= k, k < j), Sel(S, k) != s))))), Sel(m[0], s))),
                ('heap: their fitnesses', fa([s], z3.Implies(Sel(m[0], s), Sel(h, Sel(m[1], s))), Sel(m[0], s))),
                ('heap: nothing else', fa([x], z3.Implies(Sel(h, x), z3.Exists([j], z3.And(0 <= j, j < lp.i, Sel(F, j) == x))), Sel(h, x))),
                ('size of the heap', z3.And(num(r.size_heap) >= 0, (num(r.size_heap) == 0) == (lp.i == 0))),
                ('heap filled', z3.Implies(lp.i > 0, Sel(h, Sel(F, 0))))]
    c.loops.append(LoopContract(lambda lp: True, inv, {}, lambda lp: [(r, 'map_solutions', MAP), (r, 'heap', HEAP), (r, 'size_heap', INT)], name='solutions'))
    rs.ResultStorage.__init__(r, lst, given, ModeOptim.MAXIMIZATION if maxi else ModeOptim.MINIMIZATION, c.case('limited', [True, False]), nb)
    c.prove('the list is kept', r.list_solution_fits is lst)
    c.prove('sense', r.maximize is maxi and r.mode_optim is (ModeOptim.MAXIMIZATION if maxi else ModeOptim.MINIMIZATION))
    m = MAP.unwrap(r.map_solutions)
    c.prove('every solution is known', fa([j], z3.Implies(z3.And(0 <= j, j < n), Sel(m[0], Sel(S, j))), Sel(S, j)))
    c.prove('nothing else is known', fa([s], z3.Implies(Sel(m[0], s), z3.Exists([j], z3.And(0 <= j, j < n, Sel(S, j) == s)))))
    c.prove('empty or not', z3.And((num(r.size_heap) == 0) == (n == 0), num(r.size_heap) >= 0))
    if given is not None:
        return c.prove('the given best solution', r.best_solution is given)
    if r.best_solution is None:
        return c.prove('no best solution without solutions', n == 0)
    c.prove('best solution: the first of the best', z3.Exists([j], z3.And(0 <= j, j < n, Sel(S, j) == lift(r.best_solution), fa([k], z3.And(
        z3.Implies(z3.And(0 <= k, k < n), z3.Not(bt(Sel(F, k), Sel(F, j)))), z3.Implies(z3.And(0 <= k, k < j), bt(Sel(F, j), Sel(F, k))))))))


@contract('extremes of a new storage', R + 'ResultStorage.__init__', setup=heaps)
def _(c):
    """The best fitness of the initial solutions, each given once."""
    maxi = c.case('maximise', [True, False])
    lst = LIST.fresh('list')
    S, F = lst.arrays[1:]
    n = lst.n
    nb = INT.fresh('nb')
    c.assume(z3.And(num(nb) >= 1, n >= 1))
    r = object.__new__(rs.ResultStorage)
    j, x, k = I('j'), z3.Real('x!s'), I('k')
    c.assume(fa([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), Sel(S, j) != Sel(S, k)), (Sel(S, j), Sel(S, k))))
    s = z3.Const('s!s', U)

    def inv(lp):
        m = MAP.unwrap(r.map_solutions)
        h = HEAP.unwrap(r.heap if type(r.heap) is SymSet else set())[0]
        return [('only solutions so far', fa([s], z3.Implies(Sel(m[0], s), z3.Exists([j], z3.And(0 <= j, j < lp.i, Sel(S, j) == s))), Sel(m[0], s))),
                ('heap: the fitnesses so far', fa([j], z3.Implies(z3.And(0 <= j, j < lp.i), Sel(h, Sel(F, j))), Sel(F, j))),
                ('heap: nothing else', fa([x], z3.Implies(Sel(h, x), z3.Exists([j], z3.And(0 <= j, j < lp.i, Sel(F, j) == x))), Sel(h, x))),
                ('heap filled', z3.Implies(lp.i > 0, Sel(h, Sel(F, 0)))), ('size', num(r.size_heap) == lp.i)]
    c.loops.append(LoopContract(lambda lp: True, inv, {}, lambda lp: [(r, 'map_solutions', MAP), (r, 'heap', HEAP), (r, 'size_heap', INT)], name='solutions'))
    rs.ResultStorage.__init__(r, lst, None, ModeOptim.MAXIMIZATION if maxi else ModeOptim.MINIMIZATION, c.case('limited', [True, False]), nb)
    e = num(r.max if maxi else r.min)
    c.prove('best fitness: reached', z3.Exists([j], z3.And(0 <= j, j < n, Sel(F, j) == e)))
    c.prove('best fitness: no fitness is better', fa([j], z3.Implies(z3.And(0 <= j, j < n), z3.Not(better(maxi)(Sel(F, j), e)))))


def storage(c, maxi):
    r = object.__new__(rs.ResultStorage)
    r.list_solution_fits, r.map_solutions, r.heap = LIST.fresh('list'), MAP.fresh('known'), HEAP.fresh('heap')
    r.maximize, r.mode_optim = maxi, (ModeOptim.MAXIMIZATION if maxi else ModeOptim.MINIMIZATION)
    r.size_heap, r.nb_best_score, r.limit_store = INT.fresh('size'), INT.fresh('nb'), c.case('limited', [True, False])
    r.min, r.max = REAL.fresh('min'), REAL.fresh('max')
    r.best_solution = OBJ.fresh('best')
    c.assume(z3.And(num(r.size_heap) >= 0, num(r.nb_best_score) >= 1, num(r.min) <= num(r.max)))
    return r


@contract('storing a solution', R + 'ResultStorage.add_solution', setup=heaps)
def _(c):
    maxi = c.case('maximise', [True, False])
    bt = better(maxi)
    r = storage(c, maxi)
    empty = c.case('empty', [False, True])
    best0 = r.best_solution
    if empty:
        r.best_solution = best0 = None
        del r.min, r.max
        r.size_heap, r.heap, r.map_solutions, r.list_solution_fits = 0, [], MAP.wrap(MAP.empty()), LIST.wrap(LIST.unwrap([]))
    else:
        c.assume(num(r.size_heap) >= 1)
    old, known0 = r.list_solution_fits.copy(), list(r.map_solutions.terms)
    e0 = None if empty else num(r.max if maxi else r.min)
    sol, f = OBJ.fresh('solution'), REAL.fresh('fitness')
    r.add_solution(sol, f)
    new = r.list_solution_fits
    j = I('j')
    st, ft = lift(sol), num(f)
    have = Sel(known0[0], st)
    c.prove('a new solution is stored once, at the end', z3.If(have, new.n == old.n, z3.And(new.n == old.n + 1, eqf(new.elem(old.n), (sol, f)))))
    c.prove('what was stored is kept', fa([j], z3.Implies(z3.And(0 <= j, j < old.n), eqf(new.elem(j), old.elem(j)))))
    s = z3.Const('s!s', U)
    m = r.map_solutions.terms
    c.prove('known solutions', fa([s], z3.And(Sel(m[0], s) == z3.Or(Sel(known0[0], s), s == st),
                                                     z3.Implies(Sel(known0[0], s), Sel(m[1], s) == Sel(known0[1], s)), z3.Implies(z3.And(s == st, z3.Not(have)), Sel(m[1], s) == ft))))
    e = num(r.max if maxi else r.min)
    c.prove('the heap is not empty', num(r.size_heap) >= 1)
    c.prove('order of the extremes', num(r.min) <= num(r.max))
    if empty:
        c.prove('best of one', And(eqf(r.best_solution, sol), e == ft))
    else:
        c.prove('best fitness', e == z3.If(bt(ft, e0), ft, e0))
        c.prove('best solution: only a strictly better one replaces it', lift(r.best_solution) == z3.If(bt(ft, e0), st, lift(best0)))


@contract('reading a storage', R + 'ResultStorage.get_best_solution', R + 'ResultStorage.get_best_solution_fit', R + 'ResultStorage.get_last_best_solution',
          R + 'ResultStorage.get_random_best_solution', R + 'ResultStorage.get_random_solution', setup=heaps)
def _(c):
    maxi = c.case('maximise', [True, False])
    bt = better(maxi)
    r = storage(c, maxi)
    l = r.list_solution_fits
    S, F = l.arrays[1:]
    j, k = I('j'), I('k')
    how = c.case('query', ['best', 'fit', 'last', 'random best', 'random', 'empty'])
    if how == 'empty':
        r.list_solution_fits = []
        return c.prove('nothing stored', r.get_best_solution() is None)
    c.assume(l.n >= 1)
    is_best = lambda i: fa([k], z3.Implies(z3.And(0 <= k, k < l.n), z3.Not(bt(Sel(F, k), Sel(F, i)))))
    at = lambda sol, fit, extra=lambda i: True: z3.Exists([j], z3.And(0 <= j, j < l.n, Sel(S, j) == lift(sol), Sel(F, j) == num(fit) if fit is not None else True, extra(j)))
    first = lambda i: z3.And(is_best(i), fa([k], z3.Implies(z3.And(0 <= k, k < i), bt(Sel(F, i), Sel(F, k)))))
    if how == 'best':
        c.prove('the first of the best solutions', at(r.get_best_solution(), None, first))
    if how == 'fit':
        s, f = r.get_best_solution_fit()
        c.prove('the first of the best solutions with its fitness', at(s, f, first))
    if how == 'last':
        s, f = r.get_last_best_solution()
        c.prove('the last of the best solutions', at(s, f, lambda i: z3.And(is_best(i), fa([k], z3.Implies(z3.And(i < k, k < l.n), bt(Sel(F, i), Sel(F, k)))))))
    if how == 'random best':
        s, f = r.get_random_best_solution()
        c.prove('one of the best solutions', at(s, f, is_best))
    if how == 'random':
        top = r.get_best_solution_fit()                           # the same at every call (previous case)
        r.get_best_solution_fit = lambda: top
        s, f = r.get_random_solution()
        c.prove('a stored solution', at(s, f))
        c.prove('not a best one unless all are', z3.Implies(z3.Exists([j], z3.And(0 <= j, j < l.n, z3.Not(is_best(j)))), at(s, f, lambda i: z3.Not(is_best(i)))))


# ---------------------------------------------------------------------------------------------- Pareto fronts
class Fit:
    """A fitness known only by its dominance order."""
    __module__ = 'skdecide.stub'

    def __init__(self, w, t): self.w, self.t = w, t
    def __gt__(self, o): return SymBool(self.w.D(self.t, o.t))
    def __lt__(self, o): return SymBool(self.w.D(o.t, self.t))
    def __ge__(self, o): return SymBool(z3.Not(self.w.D(o.t, self.t)))
    def __le__(self, o): return SymBool(z3.Not(self.w.D(self.t, o.t)))
    def __eq__(self, o): return SymBool(z3.And(z3.Not(self.w.D(self.t, o.t)), z3.Not(self.w.D(o.t, self.t))))
    __hash__ = None


class FitTy(engine.Ty):
    def __init__(self, w): self.w = w
    def sorts(self): return [U]
    def wrap(self, ts, wb=None): return Fit(self.w, ts[0])
    def unwrap(self, v): return [v.t]


class ArrTy(engine.Ty):
    def sorts(self): return [z3.ArraySort(z3.IntSort(), z3.IntSort())]
    def wrap(self, ts, wb=None): return ts[0]
    def unwrap(self, v): return [v]


class World:
    def __init__(self, c, maxi):
        self.D = z3.Function(c.fresh_name('dominates'), U, U, z3.BoolSort())
        x, y, z = (z3.Const(n, U) for n in ('x!d', 'y!d', 'z!d'))
        D = self.D
        c.assume(fa([x], z3.Not(D(x, x)), D(x, x)))
        c.assume(fa([x, y, z], z3.Implies(z3.And(D(x, y), D(y, z)), D(x, z)), (D(x, y), D(y, z))))
        self.B = D if maxi else (lambda a, b: D(b, a))            # better
        self.ty = SeqTy(TupTy(INT, FitTy(self)))                  # solutions are known by their position
        self.pos = None


@contract('Pareto front', R + 'ParetoFront.add_point', R + 'ParetoFront.len_pareto_front')
def _(c):
    """One more point; the front before is any front of some points F(0..n-1)."""
    maxi = c.case('maximise', [True, False])
    w = World(c, maxi)
    B = w.B
    pf = object.__new__(rs.ParetoFront)
    pf.maximize = maxi
    pf.paretos = w.ty.fresh('front')
    J, X = pf.paretos.arrays[1:]
    m = pf.paretos.n
    Fit_ = z3.Function(c.fresh_name('fitness'), z3.IntSort(), U)
    i = INT.fresh('i').t                                          # points seen so far
    pos = z3.Const(c.fresh_name('pos'), z3.ArraySort(z3.IntSort(), z3.IntSort()))
    j, k, q = I('j'), I('k'), I('q')
    inr = lambda t, hi: z3.And(0 <= t, t < hi)

    def front(J, X, m, i, pos):
        return [('points seen, each with its own fitness', fa([k], z3.Implies(inr(k, m), z3.And(inr(Sel(J, k), i), Sel(X, k) == Fit_(Sel(J, k)))), Sel(J, k), Sel(X, k))),
                ('none is dominated', fa([k, q], z3.Implies(z3.And(inr(k, m), inr(q, i)), z3.Not(B(Fit_(q), Sel(X, k)))))),
                ('every point that no point dominates', fa([j], z3.Implies(inr(j, i), z3.Or(z3.And(inr(Sel(pos, j), m), Sel(J, Sel(pos, j)) == j),
                                                                                                 z3.And(inr(Sel(pos, j), m), B(Sel(X, Sel(pos, j)), Fit_(j))))))),
                ('no point twice, in order', fa([k, q], z3.Implies(z3.And(0 <= k, k < q, q < m), Sel(J, k) < Sel(J, q))))]
    c.assume(z3.And(i >= 0))
    k2 = I('k2')
    # the invariant with triggers
    c.assume(fa([k], z3.Implies(inr(k, m), z3.And(inr(Sel(J, k), i), Sel(X, k) == Fit_(Sel(J, k)))), Sel(J, k), Sel(X, k)))
    c.assume(fa([k, q], z3.Implies(z3.And(inr(k, m), inr(q, i)), z3.Not(B(Fit_(q), Sel(X, k)))), (Sel(X, k), Fit_(q))))
    c.assume(fa([j], z3.Implies(inr(j, i), z3.And(inr(Sel(pos, j), m), z3.Or(Sel(J, Sel(pos, j)) == j, B(Sel(X, Sel(pos, j)), Fit_(j))))), Sel(pos, j), Fit_(j)))
    c.assume(fa([k, q], z3.Implies(z3.And(0 <= k, k < q, q < m), Sel(J, k) < Sel(J, q)), (Sel(J, k), Sel(J, q))))
    gh = {}

    class Gh:
        new = None
    g = Gh()

    def inv(lp):
        old = lp.seq                                              # the front with the new point, before filtering
        O, OX = w.ty.unwrap(old)[1:]
        if lp.phase == 'establish':
            g.new, g.src = z3.K(z3.IntSort(), z3.IntVal(0)), z3.K(z3.IntSort(), z3.IntVal(0))
            gh['old'] = (old.n, O, OX)
        pp = w.ty.unwrap(lp.locals['pp'])
        n, PJ, PX = pp
        keep = lambda t: z3.Not(B(Fit_(i), Sel(OX, t)))
        return [('length', n >= 0),
                ('kept points come from the front', fa([k], z3.Implies(inr(k, n), z3.And(inr(Sel(g.src, k), lp.i), Sel(PJ, k) == Sel(O, Sel(g.src, k)), Sel(PX, k) == Sel(OX, Sel(g.src, k)),
                                                                                               keep(Sel(g.src, k)))), Sel(PJ, k), Sel(PX, k), Sel(g.src, k))),
                ('points that are not dominated are kept', fa([k], z3.Implies(z3.And(inr(k, lp.i), keep(k)), z3.And(inr(Sel(g.new, k), n), Sel(g.src, Sel(g.new, k)) == k)), Sel(O, k), Sel(g.new, k))),
                ('in order', fa([k, q], z3.Implies(z3.And(0 <= k, k < q, q < n), Sel(g.src, k) < Sel(g.src, q)), (Sel(g.src, k), Sel(g.src, q))))]

    def step(lp):
        pp = w.ty.unwrap(lp.locals['pp'])
        before = lp.vals['pp'] if 'pp' in lp.vals else None
        g.new = z3.Store(g.new, lp.i, pp[0] - 1)
        g.src = z3.Store(g.src, pp[0] - 1, z3.If(pp[0] > gh['n0'], lp.i, Sel(g.src, pp[0] - 1)))

    def inv2(lp):
        out = inv(lp)
        if lp.phase == 'assume':
            gh['n0'] = w.ty.unwrap(lp.locals['pp'])[0]
        return out
    A = ArrTy()
    c.loops.append(LoopContract(lambda lp: True, inv2, dict(pp=w.ty), lambda lp: [(g, 'new', A), (g, 'src', A)], step=step, name='front'))
    c.assume(z3.And(Fit_(i) == Fit_(i)))
    pf.add_point(SymInt(i), Fit(w, Fit_(i)))
    n2, J2, X2 = w.ty.unwrap(pf.paretos)
    # where each point went
    pos2 = z3.Const(c.fresh_name('pos2'), z3.ArraySort(z3.IntSort(), z3.IntSort()))
    added = g.new is not None
    if added:
        fresh = m                                                 # position of the new point before filtering
        c.assume(fa([j], Sel(pos2, j) == z3.If(z3.And(j < i, z3.Not(B(Fit_(i), Sel(X, Sel(pos, j))))), Sel(g.new, Sel(pos, j)), Sel(g.new, fresh)), Sel(pos2, j)))
    else:
        wit_ = INT.fresh('dominator').t
        c.assume(z3.Implies(z3.Exists([k], z3.And(inr(k, m), B(Sel(X, k), Fit_(i)))), z3.And(inr(wit_, m), B(Sel(X, wit_), Fit_(i)))))
        c.prove('a point is left out only if the front dominates it', z3.And(inr(wit_, m), B(Sel(X, wit_), Fit_(i))))
        c.assume(fa([j], Sel(pos2, j) == z3.If(j < i, Sel(pos, j), wit_), Sel(pos2, j)))
    for nm, f in front(J2, X2, n2, i + 1, pos2):
        c.prove(nm, f)
    c.prove('size of the front', eqf(pf.len_pareto_front(), SymInt(n2)))


@contract('front of a storage', R + 'ParetoFront.finalize', R + 'ParetoFront.add_solution', R + 'ParetoFront.__init__', R + 'result_storage_to_pareto_front')
def _(c):
    """All stored points, in order, exactly once: the front is then the non-dominated points by induction over the previous contract."""
    seen = []
    maxi = c.case('maximise', [True, False])
    n = c.case('points', [0, 1, 2, 3])
    pts = [(OBJ.fresh('s'), REAL.fresh('f')) for _ in range(n)]
    again = c.case('finalized again', [False, True])
    base_add, base_fin, base_init, pt = rs.ResultStorage.add_solution, rs.ResultStorage.finalize, rs.ResultStorage.__init__, rs.ParetoFront.add_point

    def init(self, list_solution_fits, best_solution=None, mode_optim=ModeOptim.MAXIMIZATION, limit_store=True, nb_best_store=1000):
        self.list_solution_fits, self.mode_optim, self.maximize, self.args = list_solution_fits, mode_optim, mode_optim == ModeOptim.MAXIMIZATION, (best_solution, limit_store, nb_best_store)

    def point(self, solution, tuple_fitness):
        seen.append((solution, tuple_fitness))
        self.paretos.append((solution, tuple_fitness))
    added = []
    rs.ResultStorage.add_solution, rs.ResultStorage.finalize, rs.ResultStorage.__init__, rs.ParetoFront.add_point = (lambda self, solution, fitness: added.append(solution)), (lambda self: None), init, point
    mobj = func('mobj', OBJ, ret=REAL)

    class Pb:
        def evaluate_mobj(self, s): return mobj(s)

    class Store:
        list_solution_fits, mode_optim, limit_store, nb_best_score = list(pts), ModeOptim.MAXIMIZATION if maxi else ModeOptim.MINIMIZATION, True, 77
    pb = Pb() if c.case('problem', [False, True]) else None
    try:
        pf = rs.result_storage_to_pareto_front(Store, pb)
        if again:
            seen.clear()
            pf.finalize()
    finally:
        rs.ResultStorage.add_solution, rs.ResultStorage.finalize, rs.ResultStorage.__init__, rs.ParetoFront.add_point = base_add, base_fin, base_init, pt
    c.prove('sense and limits of the storage', pf.mode_optim is Store.mode_optim and pf.args == (None, True, 77))
    c.prove('every point once, in order', len(seen) == n and all(a[0] is b[0] for a, b in zip(seen, pts)))
    c.prove('starting from an empty front', len(pf.paretos) == n)
    c.prove('with its fitness', And(True, *[eqf(a[1], b[1] if pb is None else mobj(b[0])) for a, b in zip(seen, pts)]))


@contract('comparing storages', C + 'generate_super_pareto', C + 'get_best_by_objective_by_result_storage')
def _(c):
    """Two storages of one and two solutions: their whole contents, in their sense (the storages are independent of each other)."""
    maxi = c.case('maximise', [True, False])
    bt = better(maxi)
    sense = ModeOptim.MAXIMIZATION if maxi else ModeOptim.MINIMIZATION

    class F:
        def __init__(self): self.vector_fitness = [REAL.fresh('f'), REAL.fresh('f')]

    class Store:
        def __init__(self, n):
            self.list_solution_fits, self.mode_optim, self.maximize = [(OBJ.fresh('s'), F()) for _ in range(n)], sense, maxi
    stores = [Store(2), Store(1)]
    made = []

    def storage(list_solution_fits, best_solution=None, mode_optim=ModeOptim.MAXIMIZATION, **kw):
        made.append((list(list_solution_fits), mode_optim))
        return 'storage'
    old = rcmp.ResultStorage, rcmp.result_storage_to_pareto_front
    rcmp.ResultStorage, rcmp.result_storage_to_pareto_front = storage, (lambda result_storage, problem=None: ('front', result_storage, problem))
    try:
        cmp_ = rcmp.ResultComparator(stores, ['x', 'y'], ['a', 'b'], [1, 1])
        r = cmp_.generate_super_pareto()
    finally:
        rcmp.ResultStorage, rcmp.result_storage_to_pareto_front = old
    c.prove('front of everything stored', r == ('front', 'storage', None) and len(made) == 1 and len(made[0][0]) == 3 and
            all(p is q for p, q in zip(made[0][0], stores[0].list_solution_fits + stores[1].list_solution_fits)))
    c.prove('in the sense of the storages', made[0][1] is sense)
    o = c.case('objective', [0, 1])
    best = cmp_.get_best_by_objective_by_result_storage('ab'[o])
    c.prove('per storage', set(best) == {'x', 'y'} and best['y'] is stores[1].list_solution_fits[0])
    x = stores[0].list_solution_fits
    k = next((i for i in (0, 1) if best['x'] is x[i]), None)
    c.prove('a stored solution', k is not None)
    c.prove('the best in this objective', z3.Not(bt(num(x[1 - k][1].vector_fitness[o]), num(x[k][1].vector_fitness[o]))))
