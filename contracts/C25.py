"""Knapsack: model, solvers, mutations."""
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
import skdecide.builders.discrete_optimization.knapsack.knapsack_model as km
import skdecide.builders.discrete_optimization.knapsack.solvers.dyn_prog_knapsack as dp
import skdecide.builders.discrete_optimization.knapsack.solvers.greedy_solvers as gs
import skdecide.builders.discrete_optimization.knapsack.mutation.mutation_knapsack as mu
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim

CONTRACTS = contract = Registry()
MBQI, FEAS_MS, TIMEOUT_MS, OPAQUE_DIV = False, 500, 8000, True
ASSUMPTIONS = ['items: any number, pairwise distinct indices in any order, real values, positive integer weights; the capacity is a non-negative integer',
               'values are reals (floats in the code)', 'numpy rows (slice, index list, where, maximum, comparison) follow their elementwise definition',
               'sorted: an arbitrary order-respecting permutation', 'time.time returns arbitrary numbers',
               'induction on the number of items considered is done by hand from its discharged base and step']
K = 'skdecide.builders.discrete_optimization.knapsack.'
M, DP, GS, MU = K + 'knapsack_model:', K + 'solvers.dyn_prog_knapsack:KnapsackDynProg.', K + 'solvers.greedy_solvers:', K + 'mutation.mutation_knapsack:'
Sel = z3.Select
I = lambda n: z3.Int(n + '!k')
AI = z3.ArraySort(z3.IntSort(), z3.IntSort())
SELECTION = SeqTy(INT)


class Item:
    """The item at position p of the list."""
    __module__ = 'skdecide.stub'

    def __init__(self, p): self.p = p
    @property
    def index(self): return World.cur.idx(self.p)
    @property
    def value(self): return World.cur.val(self.p)
    @property
    def weight(self): return World.cur.wei(self.p)


class World:
    cur = None

    def __init__(self, c, cap=None):
        World.cur = self
        self.c = c
        self.val, self.wei, self.idx = func('value', INT, ret=REAL), func('weight', INT, ret=INT), func('index', INT, ret=INT)
        self.V, self.W, self.X = self.val.decls[0], self.wei.decls[0], self.idx.decls[0]
        self.n = INT.fresh('nb_items')
        p, q = I('p'), I('q')
        c.assume(num(self.n) >= 0)
        c.assume(fa([p], self.W(p) >= 1, self.W(p)))
        c.assume(fa([p, q], z3.Implies(z3.And(0 <= p, p < q, q < num(self.n)), self.X(p) != self.X(q)), (self.X(p), self.X(q))))
        self.items = SymSeq(num(self.n), lambda j: Item(SymInt(j)), None)
        self.items.V = inst_ty(Item(INT.fresh('p')))
        self.cap = INT.fresh('capacity') if cap is None else cap
        c.assume(num(self.cap) >= 0)
        # sums over a selection (0/1 per position)
        self.FV, self.FW = z3.Function(c.fresh_name('sumvalue'), AI, z3.RealSort()), z3.Function(c.fresh_name('sumweight'), AI, z3.IntSort())
        zero = z3.K(z3.IntSort(), z3.IntVal(0))
        c.assume(z3.And(self.FV(zero) == 0, self.FW(zero) == 0))

    def model(self, cls=km.KnapsackModel, **kw):
        return cls(self.items, self.cap, **kw)

    def put(self, a, p, x):
        """instance of the definition of the sums: changing one position"""
        b = z3.Store(a, p, x)
        self.c.assume(z3.Implies(z3.And(0 <= p, p < num(self.n)), z3.And(self.FV(b) == self.FV(a) + z3.ToReal(x - Sel(a, p)) * self.V(p),
                                                                          self.FW(b) == self.FW(a) + (x - Sel(a, p)) * self.W(p))))


def aggreg(c):
    f = func('fitness', INT, ret=REAL)
    seen = []

    def agg(sol):
        seen.append(sol)
        return f(INT.fresh('sol'))
    return agg, seen


def selection(w, sol):
    """(number, array) of the selection of a solution"""
    t = sol.list_taken
    if type(t) is not SymSeq:
        raise Unsupported('selection %r' % (t,))
    a = SELECTION.unwrap(t)
    return a[0], a[1]


@contract('sums over a selection')
def _(c):
    """Lemma, by induction on the number of positions: the definition used for the sums after one change."""
    w = World(c)
    S = z3.Function(c.fresh_name('prefix'), AI, z3.IntSort(), z3.RealSort())
    a, p, x, k = z3.Const('a!l', AI), INT.fresh('p').t, INT.fresh('x').t, INT.fresh('k').t
    b = z3.Store(a, p, x)
    for t in (a, b):
        c.assume(S(t, 0) == 0)
        c.assume(S(t, k + 1) == S(t, k) + z3.ToReal(Sel(t, k)) * w.V(k))
    want = lambda i: S(b, i) == S(a, i) + z3.If(z3.And(0 <= p, p < i), z3.ToReal(x - Sel(a, p)) * w.V(p), 0)
    c.prove('base', want(z3.IntVal(0)))
    c.assume(z3.And(k >= 0, want(k)))
    c.prove('step', want(k + 1))


@contract('model', M + 'KnapsackModel.__init__', M + 'KnapsackSolution.__init__', M + 'KnapsackModel.evaluate', M + 'KnapsackModel.evaluate_value',
          M + 'KnapsackModel.evaluate_weight_violation', M + 'KnapsackModel.satisfy', M + 'KnapsackSolution.copy', M + 'KnapsackSolution.lazy_copy',
          M + 'KnapsackSolution.change_problem', M + 'KnapsackModel.evaluate_from_encoding', M + 'KnapsackModel.get_dummy_solution')
def _(c):
    w = World(c)
    pb = w.model(force_recompute_values=c.case('force', [False, True]))
    p = I('p')
    d = pb.index_to_index_list
    c.prove('positions by index', fa([p], z3.Implies(z3.And(0 <= p, p < num(w.n)), z3.And(Sel(d.terms[0], w.X(p)), Sel(d.terms[1], w.X(p)) == p))))
    d = pb.index_to_item
    c.prove('items by index', fa([p], z3.Implies(z3.And(0 <= p, p < num(w.n)), z3.And(Sel(d.terms[0], w.X(p)), Sel(d.terms[1], w.X(p)) == p))))
    t = SELECTION.fresh('taken')
    c.assume(t.n == num(w.n))
    j = I('j')
    sel = lambda j: t.elem(j)
    total_v, total_w = PrefixSum(SymSeq(num(w.n), lambda j: sel(j) * w.val(SymInt(j)), None)), PrefixSum(SymSeq(num(w.n), lambda j: sel(j) * w.wei(SymInt(j)), None))
    v, x = total_v.total(), total_w.total()
    viol = z3.If(num(x) > num(w.cap), num(x) - num(w.cap), 0)

    def good(res, msg):
        c.prove(msg + ': objectives', set(res) == {'value', 'weight_violation'})
        c.prove(msg + ': value', eqf(res['value'], v))
        c.prove(msg + ': violation', num(res['weight_violation']) == viol)
    how = c.case('how', ['fresh', 'satisfy', 'copy', 'lazy_copy', 'known', 'encoding', 'dummy', 'moved'])
    if how == 'encoding':
        return good(pb.evaluate_from_encoding(t, 'list_taken'), how)
    if how == 'dummy':
        s = pb.get_dummy_solution()
        n, a = selection(w, s)
        c.prove('empty selection', z3.And(n == num(w.n), fa([j], Sel(a, j) == 0)))
        z = PrefixSum(SymSeq(num(w.n), lambda j: SymReal(z3.RealVal(0)) * w.val(SymInt(j)), None))
        return c.prove('problem', s.problem is pb)
    s = km.KnapsackSolution(pb, t)
    if how == 'known':
        s.value, s.weight = v, x
    if how == 'satisfy':
        c.prove('within the capacity', Iff(pb.satisfy(s), num(x) <= num(w.cap)))
        c.prove('again', Iff(pb.satisfy(s), num(x) <= num(w.cap)))
        return
    good(pb.evaluate(s), how)
    c.prove('remembered', And(eqf(s.value, v), eqf(s.weight, x)))
    if how in ('copy', 'lazy_copy'):
        s2 = getattr(s, how)()
        c.prove('a new solution', s2 is not s)
        c.prove('same problem', s2.problem is pb)
        c.prove('same selection', seq_eq(s2.list_taken, t))
        c.prove('own list', (s2.list_taken is t) == (how == 'lazy_copy'))
        good(pb.evaluate(s2), how)
    if how == 'moved':
        n2 = World(c)
        c.assume(n2.n.t == w.n.t)
        pb2 = n2.model()
        s.change_problem(pb2)
        World.cur = n2
        v2 = PrefixSum(SymSeq(num(w.n), lambda j: sel(j) * n2.val(SymInt(j)), None)).total()
        r = pb2.evaluate(s)
        c.prove('value in the new problem', And(eqf(r['value'], v2), s.problem is pb2))


@contract('several objectives', M + 'KnapsackModel_Mobj.evaluate', M + 'KnapsackModel_Mobj.from_knapsack', M + 'KnapsackModel_Mobj.get_objective_register',
          M + 'KnapsackModel.get_objective_register')
def _(c):
    w = World(c)
    base = w.model(force_recompute_values=c.case('force', [False, True]))
    c.prove('sense of the single-objective model', base.get_objective_register().objective_sense is ModeOptim.MAXIMIZATION)
    doc = base.get_objective_register().dict_objective_to_doc
    c.prove('penalties lower the objective, the value raises it', doc['value']['default_weight'] > 0 > doc['weight_violation']['default_weight'] and set(doc) == {'value', 'weight_violation'})
    pb = km.KnapsackModel_Mobj.from_knapsack(base)
    c.prove('same problem', pb.list_items is base.list_items and pb.force_recompute_values is base.force_recompute_values)
    c.prove('same capacity', eqf(pb.max_capacity, w.cap))
    c.prove('sense', pb.get_objective_register().objective_sense is ModeOptim.MAXIMIZATION)
    t = SELECTION.fresh('taken')
    c.assume(t.n == num(w.n))
    j = I('j')
    c.assume(fa([j], z3.And(0 <= Sel(t.arrays[1], j), Sel(t.arrays[1], j) <= 1), Sel(t.arrays[1], j)))
    tw = PrefixSum(SymSeq(num(w.n), lambda j: t.elem(j) * w.wei(SymInt(j)), None))
    s = km.KnapsackSolution(pb, t)

    def inv(lp):
        h, a = num(lp.locals['heaviest']), num(lp.locals['weight'])
        if lp.phase != 'establish':
            tw.unfold(lp.i if lp.phase == 'assume' else lp.i - 1)
        top = fa([j], z3.Implies(z3.And(0 <= j, j < lp.i, Sel(t.arrays[1], j) == 1), w.W(j) <= h), Sel(t.arrays[1], j))
        got = z3.Or(h == 0, z3.Exists([j], z3.And(0 <= j, j < lp.i, Sel(t.arrays[1], j) == 1, w.W(j) == h)))
        return [('weight so far', a == tw.f(lp.i)), ('heaviest so far', top), ('heaviest is the weight of an item', got), ('not negative', h >= 0)]
    c.loops.append(LoopContract(lambda lp: True, inv, dict(heaviest=INT, weight=INT), name='items'))
    r = pb.evaluate(s)
    tv = PrefixSum(SymSeq(num(w.n), lambda j: t.elem(j) * w.val(SymInt(j)), None))
    c.prove('objectives', set(r) == {'value', 'weight_violation', 'heaviest_item', 'weight'})
    c.prove('total weight', num(r['weight']) == tw.f(num(w.n)))
    c.prove('value', eqf(r['value'], tv.total()))
    c.prove('heaviest item', fa([j], z3.Implies(z3.And(0 <= j, j < num(w.n), Sel(t.arrays[1], j) == 1), w.W(j) <= num(r['heaviest_item']))))
    c.prove('heaviest item is taken', z3.Or(num(r['heaviest_item']) == 0, z3.Exists([j], z3.And(0 <= j, j < num(w.n), Sel(t.arrays[1], j) == 1, w.W(j) == num(r['heaviest_item'])))))


def wit(p, seq, f):
    """Some position k of a sorted selection with f(k): where the element at position p of the source went."""
    if seq is None:
        return f(p)
    try:
        return f(seq.perminv(seq.src.finv(p)))
    except AttributeError:
        k = I('wit')
        return z3.Exists([k], f(k))


@contract('greedy', GS + 'compute_density', GS + 'compute_density_and_penalty', GS + 'greedy_using_queue')
def _(c):
    w = World(c)
    pb = w.model()
    q = c.case('queue', [None, gs.compute_density, gs.compute_density_and_penalty])
    k, j, p = I('k'), I('j'), I('p')
    gh = {}

    def order(m):
        r = (q or gs.compute_density)(m)
        gh['q'] = r
        return r

    def inv(lp):
        l = lp.locals
        Q = gh.setdefault('Q', l['sorted_per_density'])
        pos = gh.setdefault('pos', z3.Function(c.fresh_name('pos'), z3.IntSort(), z3.IntSort()))
        if 'def' not in gh:
            gh['def'] = True
            c.assume(fa([k], z3.Implies(z3.And(0 <= k, k < Q.n), pos(k) == num(Q.elem(k).p)), pos(k)))
            c.prove('queue: positions of fitting items', fa([k], z3.Implies(z3.And(0 <= k, k < Q.n), z3.And(0 <= pos(k), pos(k) < num(w.n), w.W(pos(k)) <= num(w.cap))), pos(k)))
            c.prove('queue: no item twice', fa([k, j], z3.Implies(z3.And(0 <= k, k < j, j < Q.n), pos(k) != pos(j)), (pos(k), pos(j))))
            c.prove('queue: every fitting item', fa([p], z3.Implies(z3.And(0 <= p, p < num(w.n), w.W(p) <= num(w.cap)), wit(p, Q, lambda k: z3.And(0 <= k, k < Q.n, num(Q.elem(k).p) == p)))))
            key = (lambda t: engine.quotient(w.V(t), z3.ToReal(w.W(t)))) if q is not gs.compute_density_and_penalty else (lambda t: engine.quotient(w.V(t), z3.ToReal(w.W(t))) - z3.ToReal(w.W(t)))
            c.prove('queue: best first', fa([k, j], z3.Implies(z3.And(0 <= k, k < j, j < Q.n), key(pos(k)) >= key(pos(j)))))
        a = SELECTION.unwrap(l['taken'])
        v, x = num(l['value']), num(l['weight'])
        if lp.phase != 'establish':
            w.put(a[1], pos(lp.i), z3.IntVal(1)) if lp.phase == 'assume' else None
        v = z3.ToReal(v) if v.sort() == z3.IntSort() else v
        return [('selection of the right length', a[0] == num(w.n)), ('value of the selection', v == w.FV(a[1])), ('weight of the selection', x == w.FW(a[1])),
                ('within the capacity', z3.And(x <= num(w.cap), x >= 0)),
                ('zero or one', fa([p], z3.And(0 <= Sel(a[1], p), Sel(a[1], p) <= 1), Sel(a[1], p))),
                ('items after the current one are not taken', fa([j], z3.Implies(z3.And(lp.i <= j, j < Q.n), Sel(a[1], pos(j)) == 0), pos(j))),
                ('only items of the queue', fa([p], z3.Implies(Sel(a[1], p) == 1, z3.Exists([j], z3.And(0 <= j, j < lp.i, pos(j) == p))), Sel(a[1], p))),
                ('items left out do not fit', fa([j], z3.Implies(z3.And(0 <= j, j < lp.i, Sel(a[1], pos(j)) == 0), x + w.W(pos(j)) > num(w.cap)), pos(j)))]
    c.loops.append(LoopContract(lambda lp: True, inv, dict(value=REAL, weight=INT, taken=SELECTION), name='queue'))
    s = gs.greedy_using_queue(pb, q)
    n, a = selection(w, s)
    pos = gh['pos']
    c.prove('problem', s.problem is pb)
    c.prove('value and weight of the selection', z3.And(num(s.value) == w.FV(a), num(s.weight) == w.FW(a), n == num(w.n)))
    c.prove('feasible', num(s.weight) <= num(w.cap))
    c.prove('selection', fa([p], z3.And(0 <= Sel(a, p), Sel(a, p) <= 1), Sel(a, p)))
    c.prove('maximal', fa([p], z3.Implies(z3.And(0 <= p, p < num(w.n), Sel(a, p) == 0), num(s.weight) + w.W(p) > num(w.cap))))


@contract('greedy solvers', GS + 'best_of_greedy', GS + 'GreedyBest.solve', GS + 'GreedyDummy.solve')
def _(c):
    w = World(c)
    pb = w.model()
    agg, seen = aggreg(c)
    dummy = c.case('solver', [False, True])
    sv = object.__new__(gs.GreedyDummy if dummy else gs.GreedyBest)
    sv.knapsack_model, sv.aggreg_sol = pb, agg

    class Params:
        sense_function = ModeOptim.MAXIMIZATION
    sv.params_objective_function = Params
    sols = []

    def greedy(model, method=None):
        c.prove('of the problem', model is pb)
        s = km.KnapsackSolution(problem=pb, value=REAL.fresh('v'), weight=INT.fresh('w'), list_taken=SELECTION.fresh('t'))
        sols.append((s, method))
        return s
    old = gs.greedy_using_queue
    gs.greedy_using_queue = greedy
    try:
        r = sv.solve()
    finally:
        gs.greedy_using_queue = old
    c.prove('one solution', len(r.list_solution_fits) == 1 and len(seen) == 1 and r.list_solution_fits[0][0] is seen[0])
    s = r.list_solution_fits[0][0]
    c.prove('it is the best', r.best_solution is s)
    c.prove('sense', r.mode_optim is ModeOptim.MAXIMIZATION)
    if dummy:
        n, a = selection(w, s)
        j = I('j')
        c.prove('nothing taken', z3.And(n == num(w.n), fa([j], Sel(a, j) == 0)))
        return c.prove('no value, no weight', s.value == 0 and s.weight == 0 and s.problem is pb)
    c.prove('one of the two greedy solutions', any(s is x for x, _ in sols) and {m for _, m in sols} == {gs.compute_density, gs.compute_density_and_penalty})
    for x, _ in sols:
        c.prove('no greedy solution is better', num(s.value) >= num(x.value))


# ---------------------------------------------------------------------------------------------- dynamic program
class Row:
    """A numpy row: a function of the column."""
    def __init__(self, n, at): self.n, self.at = n, at

    def __getitem__(self, ind):
        cx = engine.CTX
        if type(ind) is not SymSeq:
            raise Unsupported('index of a row')
        j = z3.Int(cx.fresh_name('col'))
        e = ind.elem(j)
        cx.prove('row index in range', fa([j], z3.Implies(z3.And(0 <= j, j < ind.n), z3.And(0 <= num(e), num(e) < self.n))))
        at = self.at
        return Row(ind.n, lambda t: at(num(ind.elem(t))))

    def __add__(self, x):
        at = self.at
        return Row(self.n, lambda t: at(t) + real(x))
    __radd__ = __add__

    def __ge__(self, x):
        at = self.at
        return Row(self.n, lambda t: at(t) >= num(x))

    def __gt__(self, x):
        at = self.at
        return Row(self.n, lambda t: at(t) > num(x))


def real(x):
    t = num(x)
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


class Table:
    def __init__(self, shape):
        self.r, self.k = num(shape[0]), num(shape[1])
        self.a = z3.Const(engine.CTX.fresh_name('table'), z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.RealSort())))
        j = I('c')
        engine.CTX.assume(fa([j], Sel(Sel(self.a, 0), j) == 0, Sel(Sel(self.a, 0), j)))

    def _in(self, i, j=None):
        engine.CTX.prove('table index in range', z3.And(0 <= i, i < self.r, *([0 <= j, j < self.k] if j is not None else [])))

    def __getitem__(self, ij):
        i, j = num(ij[0]), ij[1]
        if isinstance(j, slice):
            if j != slice(None):
                raise Unsupported('slice')
            self._in(i)
            a = Sel(self.a, i)
            return Row(self.k, lambda t: Sel(a, t))
        self._in(i, num(j))
        return SymReal(Sel(Sel(self.a, i), num(j)))

    def __setitem__(self, ij, v):
        i, j = num(ij[0]), ij[1]
        if isinstance(j, slice):
            cx = engine.CTX
            if j != slice(None) or type(v) is not Row:
                raise Unsupported('slice')
            self._in(i)
            cx.prove('row of the right length', v.n == self.k)
            row, t = z3.Const(cx.fresh_name('row'), z3.ArraySort(z3.IntSort(), z3.RealSort())), z3.Int(cx.fresh_name('col'))
            cx.assume(fa([t], z3.Implies(z3.And(0 <= t, t < self.k), Sel(row, t) == v.at(t)), Sel(row, t)))
            self.a = z3.Store(self.a, i, row)
            return
        self._in(i, num(j))
        self.a = z3.Store(self.a, i, z3.Store(Sel(self.a, i), num(j), real(v)))


class TableTy(engine.Ty):
    def sorts(self): return [z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.RealSort()))]
    def wrap(self, ts, wb=None): return ts[0]
    def unwrap(self, v): return [v]


class NP:
    @staticmethod
    def zeros(shape, *a): return Table(shape)
    @staticmethod
    def arange(n): return Row(num(n), lambda t: t)
    @staticmethod
    def where(b, x, y):
        engine.CTX.prove('rows of the same length', z3.And(b.n == x.n, x.n == y.n))
        return Row(b.n, lambda t: z3.If(b.at(t), x.at(t), y.at(t)))
    @staticmethod
    def maximum(x, y):
        engine.CTX.prove('rows of the same length', x.n == y.n)
        return Row(x.n, lambda t: z3.If(x.at(t) >= y.at(t), x.at(t), y.at(t)))


def quiet():
    old, olda = dp.np, dp.build_aggreg_function_and_params_objective

    class Time:
        @staticmethod
        def time(): return REAL.fresh('time')
    oldt = dp.time
    dp.np, dp.time, dp.print = NP, Time, (lambda *a: None)

    class Params:
        sense_function = ModeOptim.MAXIMIZATION
    dp.build_aggreg_function_and_params_objective = lambda problem, params_objective_function=None: (None, None, Params)

    def undo():
        dp.np, dp.time, dp.build_aggreg_function_and_params_objective = old, oldt, olda
        del dp.print
    return undo


def c_int(c, t):
    k = INT.fresh('at').t
    c.assume(k == t)
    return k


def dynprog(c, vec):
    w = World(c)
    pb = w.model()
    sv = dp.KnapsackDynProg(pb)
    sv.aggreg_sol, seen = aggreg(c)
    T = sv.table
    c.prove('size of the table', z3.And(T.r == num(w.n) + 1, T.k == num(w.cap) + 1))
    greedy = c.case('greedy_start', [False, True])
    args = dict(greedy_start=greedy)
    lim = c.case('max_items', [False, True])
    if lim:
        args['max_items'] = INT.fresh('max_items')
    if c.case('time limit', [False, True]):
        args['max_time_seconds'] = REAL.fresh('limit')
    if vec and c.case('explicit options', [True, False]):
        args['verbose'] = True
    OPT = z3.Function(c.fresh_name('OPT'), z3.IntSort(), z3.IntSort(), z3.RealSort())
    pos = z3.Function(c.fresh_name('pos'), z3.IntSort(), z3.IntSort())
    k, j, p, cc = I('k'), I('j'), I('p'), I('c')
    cap, n = num(w.cap), num(w.n)
    gh = {}

    def order(l):
        """position of the k-th item considered (1-based); the recurrence of the optimum over the first k items"""
        if 'N' in gh:
            return
        ip = l['index_promising']
        gh['N'] = ip.n
        gh['ip'] = ip
        d = pb.index_to_index_list.terms
        c.assume(fa([k], z3.Implies(z3.And(1 <= k, k <= ip.n), pos(k) == Sel(d[1], num(ip.elem(k - 1)))), pos(k)))
        src = z3.Function(c.fresh_name('srcpos'), z3.IntSort(), z3.IntSort())
        P = lambda k: num(w.idx_pos(k)) if False else None
        c.prove('considered: positions of the list', fa([k], z3.Implies(z3.And(1 <= k, k <= ip.n), z3.And(Sel(d[0], num(ip.elem(k - 1))), 0 <= pos(k), pos(k) < n,
                                                                                                              w.X(pos(k)) == num(ip.elem(k - 1)))), pos(k)))
        c.prove('considered: no item twice', fa([k, j], z3.Implies(z3.And(1 <= k, k < j, j <= ip.n), pos(k) != pos(j)), (pos(k), pos(j))))
        c.prove('considered: all that may fit', fa([p], z3.Implies(z3.And(0 <= p, p < n, w.W(p) <= cap), wit(p, getattr(ip, 'base', None) if greedy else None, lambda k: z3.And(0 <= k, k < ip.n, pos(k + 1) == p)))))
        c.prove('considered: no more than there are', ip.n <= n)
        c.assume(fa([cc], OPT(0, cc) == 0, OPT(0, cc)))
        if not greedy:
            c.prove('in the order of the list', fa([k], z3.Implies(z3.And(1 <= k, k <= ip.n), pos(k) == k - 1), pos(k)))
            c.prove('all items', ip.n == n)

    def bellman(i):
        """instance of the recurrence at i >= 1"""
        i = c_int(c, i)
        better = OPT(i - 1, cc - w.W(pos(i))) + w.V(pos(i))
        c.assume(fa([cc], z3.Implies(z3.And(0 <= cc, cc <= cap), OPT(i, cc) == z3.If(w.W(pos(i)) > cc, OPT(i - 1, cc), z3.If(OPT(i - 1, cc) >= better, OPT(i - 1, cc), better))), OPT(i, cc)))

    def rows(upto):
        return fa([k, cc], z3.Implies(z3.And(0 <= k, k <= upto, 0 <= cc, cc <= cap), Sel(Sel(T.a, k), cc) == OPT(k, cc)), Sel(Sel(T.a, k), cc))

    def outer(lp):
        order(lp.entry_locals)
        if lp.phase == 'assume':
            bellman(lp.i + 1)
            gh['row'] = lp.i
        c0, c1 = lp.locals['cur_indexes']
        c0, c1 = num(c0), num(c1)
        gh['done'] = lp.i
        return [('rows done', rows(lp.i)), ('nothing considered beyond the limit', lp.i <= gh['N']),
                ('where to start', z3.And(0 <= c0, c0 <= lp.i, z3.Implies(c0 > 0, c1 == cap), c1 >= 0, c1 <= cap, OPT(c0, c1) == OPT(lp.i, cap)))]

    def inner(lp):
        l = lp.locals
        i = gh['row'] + 1
        c0, c1 = (num(x) for x in l['cur_indexes'])
        b0, b1 = (num(x) for x in lp.entry_locals['cur_indexes'])
        fit = z3.And(lp.i == cap + 1, w.W(pos(i)) <= cap)
        return [('earlier rows', rows(i - 1)), ('this row so far', fa([cc], z3.Implies(z3.And(0 <= cc, cc < lp.i), Sel(Sel(T.a, i), cc) == OPT(i, cc)), Sel(Sel(T.a, i), cc))),
                ('where to start', z3.And(z3.Implies(fit, z3.And(c0 == i, c1 == cap)), z3.Implies(z3.Not(fit), z3.And(c0 == b0, c1 == b1))))]

    def back(lp):
        l = lp.locals
        a = SELECTION.unwrap(l['taken'])
        c0, c1 = (num(x) for x in l['cur_indexes'])
        if lp.phase == 'establish':
            gh['start'] = (c0, c1)
            gh['items'] = gh['done']
        if lp.phase == 'assume':
            bellman(c0)
            w.put(a[1], pos(c0), z3.IntVal(1))
        v = real(l['value'])
        s0, s1 = gh['start']
        return [('in the table', z3.And(0 <= c0, c0 <= s0, 0 <= c1, c1 <= cap)), ('current value', real(l['cur_value']) == OPT(c0, c1)), ('length', a[0] == n),
                ('value of the selection', v == w.FV(a[1])), ('weight of the selection', num(l['weight']) == w.FW(a[1])),
                ('value still to collect', v + OPT(c0, c1) == OPT(s0, s1)), ('capacity left', num(l['weight']) + c1 == s1),
                ('zero or one', fa([p], z3.And(0 <= Sel(a[1], p), Sel(a[1], p) <= 1), Sel(a[1], p))),
                ('only items considered', fa([p], z3.Implies(Sel(a[1], p) == 1, z3.Exists([j], z3.And(c0 < j, j <= s0, pos(j) == p))), Sel(a[1], p))),
                ('items still to decide are not taken', fa([j], z3.Implies(z3.And(1 <= j, j <= c0), Sel(a[1], pos(j)) == 0), pos(j)))]
    PAIR = TupTy(INT, INT)
    tab = lambda lp: [(T, 'a', TableTy())]
    c.loops += [LoopContract(lambda lp: lp.kind == 'while', back, dict(taken=SELECTION, value=REAL, weight=INT, cur_value=REAL, cur_indexes=PAIR), name='backtracking',
                             decreases=lambda lp: lp.locals['cur_indexes'][0]),
                LoopContract(lambda lp: 'row' in gh, inner, dict(cur_indexes=PAIR), tab, name='capacities'),
                LoopContract(lambda lp: True, outer, dict(cur_indexes=PAIR), tab, name='items')]
    r = (sv.solve_np if vec else sv.solve)(**args)
    s = r.best_solution
    c.prove('one solution with its fitness', len(r.list_solution_fits) == 1 and r.list_solution_fits[0][0] is s and len(seen) == 1 and seen[0] is s and s.problem is pb)
    c.prove('sense', r.mode_optim is ModeOptim.MAXIMIZATION)
    m, a = selection(w, s)
    j0 = I('c')
    c.prove('first row kept', fa([j0], z3.Implies(z3.And(0 <= j0, j0 <= cap), Sel(Sel(T.a, 0), j0) == 0)))
    c.prove('value and weight of the selection', z3.And(real(s.value) == w.FV(a), num(s.weight) == w.FW(a), m == n))
    c.prove('feasible', num(s.weight) <= cap)
    c.prove('selection', fa([p], z3.And(0 <= Sel(a, p), Sel(a, p) <= 1), Sel(a, p)))
    c.prove('optimal for the items considered', real(s.value) == OPT(gh['items'], cap))
    if 'max_time_seconds' not in args:
        want = gh['N'] if not lim else z3.If(num(args['max_items']) - 1 < gh['N'], z3.If(num(args['max_items']) > 1, num(args['max_items']) - 1, 0), gh['N'])
        c.prove('all items allowed are considered', gh['items'] == want)


@contract('dynamic program', DP + '__init__', DP + 'solve', setup=quiet)
def _(c):
    dynprog(c, False)


@contract('vectorised dynamic program', DP + 'solve_np', setup=quiet)
def _(c):
    dynprog(c, True)


@contract('the recurrence gives the optimum')
def _(c):
    """Lemma, by induction on the number of items: no selection among the first k items that weighs at most c is worth more than OPT(k, c)."""
    w = World(c)
    OPT = z3.Function(c.fresh_name('OPT'), z3.IntSort(), z3.IntSort(), z3.RealSort())
    pos = z3.Function(c.fresh_name('pos'), z3.IntSort(), z3.IntSort())
    VS, WS = z3.Function(c.fresh_name('VS'), z3.IntSort(), z3.RealSort()), z3.Function(c.fresh_name('WS'), z3.IntSort(), z3.IntSort())
    t = z3.Const('t!opt', z3.ArraySort(z3.IntSort(), z3.BoolSort()))
    k, cc, q = INT.fresh('k').t, INT.fresh('cap').t, I('q')
    c.assume(z3.And(VS(0) == 0, WS(0) == 0, k >= 0, cc >= 0))
    c.assume(fa([q], OPT(0, q) == 0, OPT(0, q)))
    c.assume(VS(k + 1) == VS(k) + z3.If(Sel(t, k + 1), w.V(pos(k + 1)), 0))
    c.assume(WS(k + 1) == WS(k) + z3.If(Sel(t, k + 1), w.W(pos(k + 1)), 0))
    better = OPT(k, cc - w.W(pos(k + 1))) + w.V(pos(k + 1))
    c.assume(OPT(k + 1, cc) == z3.If(w.W(pos(k + 1)) > cc, OPT(k, cc), z3.If(OPT(k, cc) >= better, OPT(k, cc), better)))
    c.prove('base', z3.Implies(WS(0) <= cc, VS(0) <= OPT(0, cc)))
    c.assume(z3.And(WS(k) >= 0, fa([q], z3.Implies(z3.And(q >= 0, WS(k) <= q), VS(k) <= OPT(k, q)), OPT(k, q))))
    c.prove('step', z3.And(WS(k + 1) >= 0, z3.Implies(WS(k + 1) <= cc, VS(k + 1) <= OPT(k + 1, cc))))


# --------------------------------------------------------------------------------------------------- mutations
@contract('single flip', MU + 'SingleBitFlipMove.apply_local_move', MU + 'SingleBitFlipMove.backtrack_local_move', MU + 'KnapsackMutationSingleBitFlip.mutate_and_compute_obj',
          MU + 'KnapsackMutationSingleBitFlip.mutate')
def _(c):
    w = World(c)
    pb = w.model()
    t = SELECTION.fresh('taken')
    n, a = t.n, t.arrays[1]
    p = I('p')
    c.assume(z3.And(n == num(w.n), n > 0))
    c.assume(fa([p], z3.And(0 <= Sel(a, p), Sel(a, p) <= 1), Sel(a, p)))
    s = km.KnapsackSolution(pb, t)
    known = c.case('known', [False, True])
    if known:
        s.value, s.weight = SymReal(w.FV(a)), SymInt(w.FW(a))
    drawn = INT.fresh('drawn')
    c.assume(z3.And(0 <= num(drawn), num(drawn) < n))

    class R:
        @staticmethod
        def randint(lo, hi):
            c.prove('drawn among all positions', z3.And(num(lo) == 0, num(hi) == n - 1))
            return drawn
    ev = []

    def evaluate(sol):
        ev.append(sol)
        b = selection(w, sol)[1]
        return {'value': SymReal(w.FV(b)), 'weight_violation': SymInt(z3.If(w.FW(b) > num(w.cap), w.FW(b) - num(w.cap), 0))}
    pb.evaluate = evaluate
    old = mu.random
    mu.random = R
    try:
        m = mu.KnapsackMutationSingleBitFlip.build(pb, s)
        d = num(drawn)
        w.put(a, d, 1 - Sel(a, d))
        if c.case('objective', [True, False]):
            r, mv, obj = m.mutate_and_compute_obj(s)
        else:
            (r, mv), obj = m.mutate(s), None
    finally:
        mu.random = old
    b = selection(w, r)
    c.prove('one position flipped', z3.And(b[0] == n, fa([p], z3.Implies(z3.And(0 <= p, p < n), Sel(b[1], p) == z3.If(p == d, 1 - Sel(a, p), Sel(a, p))))))
    c.prove('a new solution', r is not s and r.problem is pb)
    c.prove('the old one is kept', z3.And(SELECTION.unwrap(s.list_taken)[1] == a, s.list_taken.n == n))
    if obj is not None:
        full = z3.Store(a, d, 1 - Sel(a, d))
        c.prove('objectives', set(obj) == {'value', 'weight_violation'})
        c.prove('value of the new selection', z3.Implies(b[1] == full, num(obj['value']) == w.FV(full)))
        c.prove('violation of the new selection', z3.Implies(b[1] == full, num(obj['weight_violation']) == z3.If(w.FW(full) > num(w.cap), w.FW(full) - num(w.cap), 0)))
    c.prove('no stale value', z3.BoolVal(r.value is None) if r.value is None else num(r.value) == w.FV(b[1]))
    back = mv.backtrack_local_move(r)
    e = selection(w, back)
    c.prove('backtrack', z3.And(e[0] == n, fa([p], z3.Implies(z3.And(0 <= p, p < n), Sel(e[1], p) == Sel(a, p)))))


@contract('flips in place', MU + 'BitFlipMoveKP.apply_local_move', MU + 'BitFlipMoveKP.backtrack_local_move')
def _(c):
    w = World(c)
    pb = w.model()
    t = SELECTION.fresh('taken')
    n, a = t.n, t.arrays[1]
    p = I('p')
    bits = lambda x: fa([p], z3.And(0 <= Sel(x, p), Sel(x, p) <= 1), Sel(x, p))
    c.assume(n == num(w.n))
    c.assume(bits(a))
    s = km.KnapsackSolution(pb, t)
    if c.case('known', [False, True]):
        s.value, s.weight = SymReal(w.FV(a)), SymInt(w.FW(a))

    def evaluate(sol):
        b = SELECTION.unwrap(sol.list_taken)[1]
        sol.value, sol.weight = SymReal(w.FV(b)), SymInt(w.FW(b))
    pb.evaluate = evaluate
    flips = SeqTy(INT).fresh('flips')
    f = flips.arrays[1]
    c.assume(fa([p], z3.Implies(z3.And(0 <= p, p < flips.n), z3.And(0 <= Sel(f, p), Sel(f, p) < n)), Sel(f, p)))
    PAR = z3.Function(c.fresh_name('parity'), z3.IntSort(), z3.IntSort(), z3.IntSort())
    q = I('q')
    c.assume(fa([q], PAR(0, q) == 0, PAR(0, q)))
    par_ok = lambda k: fa([q], z3.And(0 <= PAR(k, q), PAR(k, q) <= 1), PAR(k, q))
    gh = dict(a=a)

    def inv(lp):
        l = lp.locals
        b = SELECTION.unwrap(l['l'])
        if lp.phase == 'assume':
            w.put(b[1], Sel(f, lp.i), 1 - Sel(b[1], Sel(f, lp.i)))
            c.assume(fa([q], PAR(lp.i + 1, q) == z3.If(q == Sel(f, lp.i), 1 - PAR(lp.i, q), PAR(lp.i, q)), PAR(lp.i + 1, q)))
        a0 = gh['a']
        v, x = num(l['value']), num(l['weight'])
        return [('the list of the solution', z3.BoolVal(l['l'] is s.list_taken)), ('length', b[0] == n), ('bits', bits(b[1])), ('parity', par_ok(lp.i)),
                ('value', real(l['value']) == w.FV(b[1])), ('weight', x == w.FW(b[1])),
                ('flipped so far', fa([q], Sel(b[1], q) == z3.If(PAR(lp.i, q) == 1, 1 - Sel(a0, q), Sel(a0, q)), Sel(b[1], q)))]
    c.loops.append(LoopContract(lambda lp: True, inv, dict(value=REAL, weight=INT), lambda lp: [lp.locals['l']], name='flips'))
    mv = mu.BitFlipMoveKP('list_taken', pb, flips)
    r = mv.apply_local_move(s)
    c.prove('in place', r is s)
    b = selection(w, r)
    c.prove('flipped as often as listed', z3.And(b[0] == n, fa([q], z3.Implies(z3.And(0 <= q, q < n), Sel(b[1], q) == z3.If(PAR(flips.n, q) == 1, 1 - Sel(a, q), Sel(a, q))))))
    c.prove('value and weight kept up to date', z3.And(num(r.value) == w.FV(b[1]), num(r.weight) == w.FW(b[1])))
    gh['a'] = b[1]
    r2 = mv.backtrack_local_move(r)
    e = selection(w, r2)
    c.prove('backtrack', z3.And(e[0] == n, fa([q], z3.Implies(z3.And(0 <= q, q < n), Sel(e[1], q) == Sel(a, q)))))
    c.prove('value and weight after backtracking', z3.And(num(r2.value) == w.FV(e[1]), num(r2.weight) == w.FW(e[1])))


class Draw:
    """np in the mutation: weights are irrelevant, any listed position may be drawn."""
    def __init__(self, c): self.c, self.drawn, self.random = c, None, self

    def array(self, x): return self
    def sum(self, x): return self
    def __truediv__(self, x): return self

    def choice(self, seq, size=None, p=None):
        c = self.c
        c.prove('drawn from a non-empty list', seq.n > 0)
        k = INT.fresh('k')
        c.assume(z3.And(0 <= num(k), num(k) < seq.n))
        self.drawn = seq[k]
        return [self.drawn]


@contract('mutation', MU + 'MutationKnapsack.switch_on', MU + 'MutationKnapsack.switch_off', MU + 'MutationKnapsack.mutate', MU + 'MutationKnapsack.mutate_and_compute_obj')
def _(c):
    w = World(c)
    pb = w.model()
    t = SELECTION.fresh('taken')
    n, a = t.n, t.arrays[1]
    p = I('p')
    cap = num(w.cap)
    c.assume(n == num(w.n))
    c.assume(fa([p], z3.And(0 <= Sel(a, p), Sel(a, p) <= 1), Sel(a, p)))
    s = km.KnapsackSolution(pb, t)
    if c.case('known', [True, False]):
        s.value, s.weight = SymReal(w.FV(a)), SymInt(w.FW(a))

    def evaluate(sol):
        b = SELECTION.unwrap(sol.list_taken)[1]
        sol.value, sol.weight = SymReal(w.FV(b)), SymInt(w.FW(b))
    pb.evaluate = evaluate
    m = object.__new__(mu.MutationKnapsack)
    m.knapsack_model, m.nb_items, m.list_items, m.attribute = pb, pb.nb_items, pb.list_items, 'list_taken'
    prof = func('profit', INT, ret=REAL)
    q = I('q')
    c.assume(fa([q], prof.decls[0](q) > 0, prof.decls[0](q)))
    m.profit_per_capacity = SymSeq(n, lambda j: prof(SymInt(j)), REAL)
    draw = Draw(c)

    class Coin:
        @staticmethod
        def random(): return REAL.fresh('coin')

    old = mu.np, mu.random, mu.BitFlipMoveKP
    mu.np, mu.random = draw, Coin
    Base = mu.BitFlipMoveKP

    class Move(Base):
        def apply_local_move(self, sol):
            b = SELECTION.unwrap(sol.list_taken)[1]
            d = num(self.list_index_flip[0])
            w.put(b, d, 1 - Sel(b, d))
            return Base.apply_local_move(self, sol)
    mu.BitFlipMoveKP = Move
    try:
        if c.case('objective', [True, False]):
            r, mv, obj = m.mutate_and_compute_obj(s)
        else:
            (r, mv), obj = m.mutate(s), None
    finally:
        mu.np, mu.random, mu.BitFlipMoveKP = old
    c.prove('in place', r is s)
    b = selection(w, r)
    c.prove('length', b[0] == n)
    if draw.drawn is None:
        c.prove('unchanged', fa([p], z3.Implies(z3.And(0 <= p, p < n), Sel(b[1], p) == Sel(a, p))))
        c.prove('only when nothing can be changed', fa([p], z3.Implies(z3.And(0 <= p, p < n), z3.And(Sel(a, p) == 0, w.FW(a) + w.W(p) > cap))))
    else:
        d = num(draw.drawn)
        c.prove('one position flipped', z3.And(0 <= d, d < n, fa([p], z3.Implies(z3.And(0 <= p, p < n), Sel(b[1], p) == z3.If(p == d, 1 - Sel(a, p), Sel(a, p))))))
        c.prove('an added item fits', z3.Implies(Sel(a, d) == 0, w.FW(a) + w.W(d) <= cap))
        b = (n, z3.Store(a, d, 1 - Sel(a, d)))
    c.prove('value and weight kept up to date', z3.And(num(r.value) == w.FV(b[1]), num(r.weight) == w.FW(b[1])))
    if obj is not None:
        c.prove('objectives', set(obj) == {'value', 'weight_violation'})
        c.prove('objectives of the new selection', z3.And(num(obj['value']) == w.FV(b[1]), num(obj['weight_violation']) == z3.If(w.FW(b[1]) > cap, w.FW(b[1]) - cap, 0)))
    back = mv.backtrack_local_move(r)
    e = selection(w, back)
    c.prove('backtrack', z3.And(e[0] == n, fa([p], z3.Implies(z3.And(0 <= p, p < n), Sel(e[1], p) == Sel(a, p)))))
