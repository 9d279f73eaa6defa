"""The travelling thief: value of a tour and a packing plan."""
import numpy as np
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
import skdecide.builders.discrete_optimization.ttp.ttp_model as tm

CONTRACTS = contract = Registry()
MBQI, FEAS_MS, TIMEOUT_MS = False, 500, 8000
ASSUMPTIONS = ['weights, profits, coordinates, speeds and times are reals (no rounding; the array of weights after each town holds them exactly)',
               'math.sqrt is a function', 'numba compiles the Python functions faithfully (the compiled ones are run by the bounded layer)',
               'towns of the tour and items of the plan are rows of their tables; weights never make the speed zero']
T = 'skdecide.builders.discrete_optimization.ttp.ttp_model:'
Sel = z3.Select
I = lambda n: z3.Int(n + '!k')
ZI, ZR = z3.IntSort(), z3.RealSort()
VEC, VR = SeqTy(INT), SeqTy(REAL)
rng = lambda j, n: z3.And(0 <= j, j < n)
real = lambda x: num(x) if num(x).sort() == ZR else z3.ToReal(num(x))


class Stub:
    __module__ = 'skdecide.stub'
    def __init__(self, **kw): self.__dict__.update(kw)


class Cells:
    """A table of numbers with given rows."""
    def __init__(self, n, f): self.n, self.f = n, f

    def __getitem__(self, ij):
        i, j = num(ij[0]), ij[1]
        if engine.CTX.sub is None:
            engine.CTX.prove('row in range', rng(i, self.n))
        return SymReal(self.f(i, z3.IntVal(j) if type(j) is int else num(j)))


def trip(c, details):
    fn = tm.evaluate_with_details if details else tm.evaluate
    fn = getattr(fn, 'py_func', fn)
    tour, z = VEC.fresh('tour'), VEC.fresh('plan')
    X, Z, n, m, j = tour.arrays[1], z.arrays[1], tour.n, z.n, I('j')
    towns = INT.fresh('towns')
    c.assume(n >= 1)
    item, place, av = [z3.Function(c.fresh_name(k), ZI, ZI, ZR) for k in ('item', 'place', 'available')]
    root = func('root', REAL, ret=REAL)
    c.assume(fa([j], z3.Implies(rng(j, n), rng(Sel(X, j), num(towns))), Sel(X, j)))
    cap, rent, vmin, vmax = [REAL.fresh(k) for k in ('capacity', 'rent', 'slowest', 'fastest')]
    P, W = [z3.Function(c.fresh_name(k), ZI, ZI, ZR) for k in ('items_profit', 'items_weight')]      # among the first k items, those of town t
    PT, WT, DT, TT = [z3.Function(c.fresh_name(k), ZI, ZR) for k in ('profit', 'weight', 'distance', 'time')]    # after the first k towns
    t, a, b = I('t'), I('a'), I('b')
    taken = lambda t, k: Sel(Z, k) == t

    def item_fold(t, k):
        for F, col in ((P, 1), (W, 2)):
            c.assume(F(t, k + 1) == F(t, k) + z3.If(taken(t, k), item(k, col), 0))
    c.assume(fa([t], z3.And(P(t, 0) == 0, W(t, 0) == 0), P(t, 0), W(t, 0)))
    # lemma: items that are not taken at a town add nothing, by induction on b
    gap = lambda t, a, b: fa([j], z3.Implies(z3.And(a <= j, j < b), z3.Not(taken(t, j))), Sel(Z, j))
    same = lambda t, a, b: z3.And(P(t, a) == P(t, b), W(t, a) == W(t, b))
    t0, a0, b0 = [z3.Int(c.fresh_name(k)) for k in 'tab']
    item_fold(t0, b0)
    c.prove('lemma: nothing taken, nothing added (step)', z3.Implies(z3.And(0 <= a0, a0 <= b0, z3.Implies(gap(t0, a0, b0), same(t0, a0, b0)), gap(t0, a0, b0 + 1)), same(t0, a0, b0 + 1)))
    lemma = lambda t, a, b: c.assume(z3.Implies(z3.And(0 <= a, a <= b, gap(t, a, b)), same(t, a, b)))

    dx = lambda k, col: place(Sel(X, k), col) - place(Sel(X, k + 1), col)
    dist = lambda k: root.decls[0](dx(k, 1) * dx(k, 1) + dx(k, 2) * dx(k, 2))

    c.assume(num(cap) != 0)

    def fold(k):
        lemma(Sel(X, k), z3.IntVal(0), m)
        c.assume(num(vmax) - WT(k + 1) * (num(vmax) - num(vmin)) / num(cap) != 0)
        c.assume(z3.And(PT(k + 1) == PT(k) + P(Sel(X, k), m), WT(k + 1) == WT(k) + W(Sel(X, k), m), DT(k + 1) == DT(k) + dist(k),
                        TT(k + 1) == TT(k) + dist(k) / (num(vmax) - WT(k + 1) * (num(vmax) - num(vmin)) / num(cap))))
    c.assume(z3.And(PT(0) == 0, WT(0) == 0, DT(0) == 0, TT(0) == 0))
    st = {}

    def towns_inv(lp):
        k = lp.i
        st['i'] = k
        if lp.phase == 'assume':
            fold(k)
        L = lp.locals
        r = [('profit so far', real(L['profit']) == PT(k)), ('weight so far', real(L['wc']) == WT(k)), ('distance so far', real(L['distance_tour']) == DT(k)),
             ('time so far', real(L['time_trip']) == TT(k))]
        if details:
            w = VR.unwrap(L['weight_array'])
            r += [('one weight per leg', w[0] == n - 1), ('weights so far', fa([j], z3.Implies(rng(j, k), Sel(w[1], j) == WT(j + 1)), Sel(w[1], j)))]
        return r

    def items_inv(lp):
        L = lp.locals
        s, k = L['selectedItem'], lp.i
        town = Sel(X, st['i'])
        last = s.idx(k - 1)
        pos = z3.If(k <= 0, 0, last + 1)
        if lp.phase == 'assume':
            c.assume(z3.Implies(rng(k, s.n), z3.And(rng(s.idx(k), m), s.finv(s.idx(k)) == k)))
            c.assume(z3.Implies(rng(k - 1, s.n), z3.And(rng(last, m), s.finv(last) == k - 1)))
            item_fold(town, s.idx(k))
            lemma(town, pos, s.idx(k))
            lemma(town, pos, m)
        return [('profit of the items so far', real(L['profit']) == PT(st['i']) + P(town, pos)), ('weight of the items so far', real(L['wc']) == WT(st['i']) + W(town, pos))]

    def plain_inv(lp):
        k, town, L = lp.i, Sel(X, st['i']), lp.locals
        if lp.phase == 'assume':
            item_fold(town, k)
        return [('profit of the items so far', real(L['profit']) == PT(st['i']) + P(town, k)), ('weight of the items so far', real(L['wc']) == WT(st['i']) + W(town, k))]

    def inner(lp):
        return st.setdefault('outer', lp.lid) != lp.lid
    filtered = lambda lp: getattr(lp.it, 'finv', None) is not None
    names = dict(wc=REAL, profit=REAL, distance_tour=REAL, time_trip=REAL)
    c.loops.append(LoopContract(lambda lp: filtered(lp) and bool({'wc', 'profit'} & (set(lp.bound) | set(lp.mut))), items_inv, dict(wc=REAL, profit=REAL), name='items'))
    c.loops.append(LoopContract(filtered, lambda lp: [], name='availability'))
    c.loops.append(LoopContract(inner, plain_inv, dict(wc=REAL, profit=REAL), name='items'))
    c.loops.append(LoopContract(lambda lp: True, towns_inv, names, (lambda lp: [lp.locals['weight_array']]) if details else None, name='towns'))
    old = tm.math, tm.np, tm.__dict__.get('print', trip)

    def zeros(shape, dtype=None):
        k = num(shape[0] if isinstance(shape, tuple) else shape)
        r = VR.fresh('zeros')
        c.assume(z3.And(r.n == k, fa([j], z3.Implies(rng(j, k), Sel(r.arrays[1], j) == 0), Sel(r.arrays[1], j))))
        return r
    tm.math, tm.np, tm.print = Stub(sqrt=root, hypot=lambda x, y: root(x ** 2 + y ** 2)), Stub(zeros=zeros, int32='int32', int64='int64', float64='float64'), lambda *a: None
    try:
        r = fn(tour, z, capacityOfKnapsack=cap, rentingRatio=rent, minSpeed=vmin, maxSpeed=vmax, items_array=Cells(m, item), nodes_array=Cells(num(towns), place), av=Cells(m, av))
    finally:
        tm.math, tm.np = old[:2]
        if old[2] is trip:
            del tm.print
    ends = Sel(X, 0) == Sel(X, n - 1)
    if r is None:
        c.prove('no value only for an open tour', z3.Not(ends))
        return
    c.prove('a value only for a closed tour', ends)
    objective, profit, distance, time, used, left = r[:6]
    k = n - 1
    c.prove('profit of the items of the towns visited', real(profit) == PT(k))
    c.prove('length of the tour', real(distance) == DT(k))
    c.prove('travel time at the speed the load allows', real(time) == TT(k))
    c.prove('weight carried', real(used) == WT(k))
    c.prove('room left', real(left) == num(cap) - WT(k))
    c.prove('profit less the rent', real(objective) == PT(k) - TT(k) * num(rent))
    c.prove('tour and plan are kept', z3.BoolVal(tour.arrays[1] is X and z.arrays[1] is Z))
    if details:
        w = VR.unwrap(r[6])
        c.prove('weight after each town', And(w[0] == k, fa([j], z3.Implies(rng(j, k), Sel(w[1], j) == WT(j + 1)), Sel(w[1], j))))


@contract('value of a tour and a plan', T + 'evaluate')
def _(c):
    trip(c, False)


@contract('value of a tour and a plan, with the weights', T + 'evaluate_with_details')
def _(c):
    trip(c, True)


class Arr:
    """An array: copying gives another one with the same content."""
    def __init__(self, content): self.content = content


@contract('values kept in the solution', T + 'TTPModel.__init__', T + 'TTPModel.evaluate', T + 'TTPModel.evaluate_details', T + 'build_obj_function', T + 'build_obj_function_details',
          T + 'TTPSolution.__init__', T + 'TTPSolution.copy')
def _(c):
    calls, old = [], (tm.evaluate, tm.evaluate_with_details, tm.np)
    vals = [REAL.fresh(k) for k in ('objective', 'profit', 'distance', 'time', 'used', 'left')]
    weights = OBJ.fresh('weights')
    sig = ('tour', 'packing', 'capacityOfKnapsack', 'rentingRatio', 'minSpeed', 'maxSpeed', 'items_array', 'nodes_array', 'av')

    def fake(kind):
        def f(*a, **kw):
            kw.update(zip(sig, a))
            calls.append((kind, kw))
            return tuple(vals) + ((weights,) if kind == 'details' else ())
        return f
    av = {}

    class Table:
        def __setitem__(self, ij, v): av[ij] = v
    shape = []

    def zeros(s, *a, **k):
        shape.append(s)
        return Table()

    def copy(x): return Arr(x.content)
    tm.evaluate, tm.evaluate_with_details = fake('value'), fake('details')
    tm.np = Stub(zeros=zeros, array=lambda x: list(x), copy=copy)
    try:
        names = ('capacityOfKnapsack', 'minSpeed', 'maxSpeed', 'rentingRatio')
        kw = {k: REAL.fresh(k) for k in names}
        items = [dict(weight=REAL.fresh('w'), profit=REAL.fresh('p'), node_index=q) for q in (2, 0, 2)]
        na, ia = OBJ.fresh('nodes'), OBJ.fresh('items')
        pb = tm.TTPModel(numberOfNodes=3, numberOfItems=3, items=items, nodes=[], nodes_array=na, items_array=ia, **kw)
        c.prove('items of the towns', shape == [(3, 3)] and av == {(0, 2): 1, (1, 0): 1, (2, 2): 1})
        c.prove('weights and profits', all(a is i['weight'] and b is i['profit'] for a, b, i in zip(pb.weights, pb.profits, items)))
        tour, plan = Arr('tour'), Arr('plan')
        known = {k: REAL.fresh('known') for k in ('objective', 'profit', 'distance', 'time_trip', 'weight_used', 'weight_end')} if c.case('evaluated before', [False, True]) else {}
        s = tm.TTPSolution(tour, plan, **known)
        details = c.case('details', [False, True])
        r = pb.evaluate_details(s) if details else pb.evaluate(s)
        c.prove('one evaluation, with the weights if asked for', [k for k, _ in calls] == (['details'] if details else ['value']))
        g = calls[0][1]
        c.prove('of this tour and plan, with the data of the problem', set(g) == set(sig) and g['tour'] is tour and g['packing'] is plan and all(g[k] is kw[k] for k in names)
                and g['items_array'] is ia and g['nodes_array'] is na and g['av'] is pb.av)
        attrs = ('objective', 'profit', 'distance', 'time_trip', 'weight_used', 'weight_end')
        c.prove('values kept', all(getattr(s, k) is v for k, v in zip(attrs, vals)) and s.tour is tour and s.packing is plan)
        c.prove('objective returned', (r is vals[0]) if details else (set(r) == {'obj'} and r['obj'] is vals[0]))
        c.prove('weights kept', s.weight_array is weights if details else s.weight_array == 0)
        q = s.copy()
        c.prove('copy', q is not s and q.tour is not tour and q.packing is not plan and (q.tour.content, q.packing.content) == ('tour', 'plan')
                and all(getattr(q, k) is v for k, v in zip(attrs, vals)) and q.weight_array is s.weight_array)
        c.prove('another problem of the same kind', tm.TTPModel(items=[], numberOfItems=0, numberOfNodes=0).evaluate_function is not pb.evaluate_function)
    finally:
        tm.evaluate, tm.evaluate_with_details, tm.np = old
