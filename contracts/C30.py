"""Facility location and vehicle routing: evaluation and greedy construction."""
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
import skdecide.builders.discrete_optimization.facility.facility_model as fm
import skdecide.builders.discrete_optimization.facility.solvers.greedy_solvers as fg
import skdecide.builders.discrete_optimization.vrp.vrp_model as vm
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim, ObjectiveHandling, ParamsObjectiveFunction

CONTRACTS = contract = Registry()
MBQI, FEAS_MS, TIMEOUT_MS = False, 500, 8000
ASSUMPTIONS = ['demands, capacities, costs and distances are reals (no rounding)', 'the distance function is arbitrary (any function of the two ends); math.sqrt is a function',
               'sorted() lists every element once', 'assigned facilities, start and end indexes and the customers of the tours exist; demands are not negative',
               'the objective function is arbitrary (C26)', 'compute_length_np (compiled by numba) and the coordinates are covered by the bounded layer']
B = 'skdecide.builders.discrete_optimization.'
F, G, V = B + 'facility.facility_model:', B + 'facility.solvers.greedy_solvers:GreedySolverFacility.', B + 'vrp.vrp_model:'
Sel, Sto = z3.Select, z3.Store
I = lambda n: z3.Int(n + '!k')
ZI, ZR, ZB = z3.IntSort(), z3.RealSort(), z3.BoolSort()
VEC, VR = SeqTy(INT), SeqTy(REAL)
AI = z3.ArraySort(ZI, ZI)
rng = lambda j, n: z3.And(0 <= j, j < n)
real = lambda x: num(x) if num(x).sort() == ZR else z3.ToReal(num(x))


class Stub:
    __module__ = 'skdecide.stub'
    def __init__(self, **kw): self.__dict__.update(kw)


def fold(c, name, *sorts, start=0, ret=ZR):
    """f(k, ...): a recursively defined function; its defining equation is assumed where it is unfolded."""
    return z3.Function(c.fresh_name(name), ZI, *sorts, ret)


def at(seq, j): return num(seq.elem(j))


# ------------------------------------------------------------------------------------------------ vehicle routing
@contract('length and load of one tour', V + 'compute_length')
def _(c):
    D = func('distance', INT, INT, ret=REAL)
    d = D.decls[0]
    m = INT.fresh('customers')
    DEM = VR.fresh('demand')
    c.assume(DEM.n == num(m))
    customers = SymSeq(DEM.n, lambda j: Stub(demand=DEM.elem(j)))
    p, s, e = VEC.fresh('tour'), INT.fresh('start'), INT.fresh('end')
    X, dem, j = p.arrays[1], DEM.arrays[1], I('j')
    c.assume(z3.And(rng(num(s), DEM.n), rng(num(e), DEM.n), fa([j], z3.Implies(rng(j, p.n), rng(Sel(X, j), DEM.n)), Sel(X, j))))
    stop = lambda k: z3.If(k <= 0, num(s), z3.If(k <= p.n, Sel(X, k - 1), num(e)))          # stops 0..n+1
    leg = lambda k: d(stop(k), stop(k + 1))
    L, Q = z3.Function(c.fresh_name('length'), ZI, ZR), z3.Function(c.fresh_name('load'), ZI, ZR)
    c.assume(z3.And(L(0) == 0, Q(0) == 0))                         # first k legs, first k customers

    def unfold(k):
        c.assume(z3.And(L(k + 1) == L(k) + leg(k), Q(k + 1) == Q(k) + Sel(dem, Sel(X, k))))
    unfold(z3.IntVal(0))

    def inv(lp):
        k = lp.i + 1                                               # legs so far
        if lp.phase == 'assume':
            unfold(k)
            unfold(p.n)
        l = VR.unwrap(lp.locals['lengths'])
        return [('legs so far', And(l[0] == k, fa([j], z3.Implies(rng(j, k), Sel(l[1], j) == leg(j)), Sel(l[1], j)))),
                ('length so far', real(lp.locals['obj']) == L(k)), ('load so far', real(lp.locals['capacity']) == Sel(dem, num(s)) + Q(k))]
    c.loops.append(LoopContract(lambda lp: lp.fn().endswith('compute_length'), inv, name='stops', types=dict(lengths=VR, obj=REAL, capacity=REAL, ll=REAL)))
    lengths, obj, load = vm.compute_length(s, e, p, customers, D)
    unfold(p.n)
    l = VR.unwrap(lengths)
    c.prove('one leg between consecutive stops', And(l[0] == p.n + 1, fa([j], z3.Implies(rng(j, p.n + 1), Sel(l[1], j) == leg(j)), Sel(l[1], j))))
    c.prove('sum of the legs', real(obj) == L(p.n + 1))
    c.prove('demand of every stop', real(load) == Sel(dem, num(s)) + Q(p.n) + z3.If(num(s) == num(e), 0, Sel(dem, num(e))))
    c.prove('the tour is not changed', p.arrays[1] is X)


TOURS = SeqTy(VEC)


class Fleet:
    def __init__(self, c):
        self.c = c
        self.nv, self.nc = INT.fresh('vehicles'), INT.fresh('customers')
        v, n = num(self.nv), num(self.nc)
        c.assume(z3.And(v >= 1, n >= 1))
        self.start, self.end, self.caps, self.dem = VEC.fresh('start'), VEC.fresh('end'), VR.fresh('capacity'), VR.fresh('demand')
        j = I('j')
        c.assume(z3.And(self.start.n == v, self.end.n == v, self.caps.n == v, self.dem.n == n))
        for s in (self.start, self.end):
            c.assume(fa([j], z3.Implies(rng(j, v), rng(Sel(s.arrays[1], j), n)), Sel(s.arrays[1], j)))
        self.d = lambda x: Sel(self.dem.arrays[1], x)
        c.assume(fa([j], self.d(j) >= 0, self.d(j)))
        dem = self.dem
        self.customers = SymSeq(dem.n, lambda j: Stub(demand=dem.elem(j)))

        class Pb(vm.VrpProblem):
            def evaluate_function(p, var): return self.evaluate_function(var)
            def evaluate_function_indexes(p, a, b): raise Unsupported('distance')
        self.pb = Pb(self.nv, self.caps, self.nc, self.customers, self.start, self.end)


@contract('all tours', V + 'sequential_computing', V + 'build_evaluate_function', V + 'VrpProblem2D.evaluate_function', V + 'VrpProblem2D.__init__', V + 'VrpProblem.__init__')
def _(c):
    f = Fleet(c)
    tours = TOURS.fresh('tours')
    c.assume(tours.n == num(f.nv))
    leg = func('legs', INT, INT, VEC, ret=VR)
    obj, load = func('length', INT, INT, VEC, ret=REAL), func('load', INT, INT, VEC, ret=REAL)
    sol = vm.VrpSolution(f.pb, f.start, f.end, tours)
    how = c.case('called', ['directly', 'through the problem'])
    if how == 'directly':
        pb = f.pb
    else:
        pb = vm.VrpProblem2D(f.nv, f.caps, f.nc, f.customers, f.start, f.end)
        c.prove('the data of the problem', pb.vehicle_count is f.nv and pb.vehicle_capacities is f.caps and pb.customer_count is f.nc and pb.customers is f.customers and pb.start_indexes is f.start and pb.end_indexes is f.end)
    tour = lambda i: (f.start.elem(i), f.end.elem(i), tours.elem(i))

    def compute(start_index, end_index, solution, list_customers, method):
        """contract of compute_length, proved above"""
        c.prove('customers and distances of the problem', list_customers is f.customers and method == pb.evaluate_function_indexes)
        a = (start_index, end_index, solution)
        return leg(*a), obj(*a), load(*a)
    T = z3.Function(c.fresh_name('total'), ZI, ZR)
    c.assume(T(0) == 0)
    j, k = I('j'), I('k')

    def facts(n, ls, os, cs):
        want = lambda g, q: q.unwrap(g(*tour(j)))
        l, o, q = SeqTy(VR).unwrap(ls), VR.unwrap(os), VR.unwrap(cs)
        wl = want(leg, VR)
        return And(l[0] == n, o[0] == n, q[0] == n, fa([j], z3.Implies(rng(j, n), z3.And(Sel(l[1], j) == wl[0], Sel(l[2], j) == wl[1], Sel(o[1], j) == num(obj(*tour(j))), Sel(q[1], j) == num(load(*tour(j))))),
                                                       Sel(l[1], j), Sel(o[1], j), Sel(q[1], j), Sel(l[2], j)))

    def inv(lp):
        i = lp.i
        if lp.phase == 'assume' and lp.mode == 0:
            c.assume(T(i + 1) == T(i) + num(obj(*tour(i))))
        L = lp.locals
        return [('tours so far', facts(i, L['lengths_list'], L['obj_list'], L['capacity_list'])), ('total so far', real(L['sum_obj']) == T(i))]
    c.loops.append(LoopContract(lambda lp: lp.fn().endswith('sequential_computing'), inv, name='tours',
                                types=dict(lengths_list=SeqTy(VR), obj_list=VR, capacity_list=VR, sum_obj=REAL, lengths=VR, obj=REAL, capacity=REAL)))
    saved = vm.compute_length
    vm.compute_length = compute
    try:
        ls, os, total, cs = vm.sequential_computing(sol, f.pb) if how == 'directly' else pb.evaluate_function(sol)
    finally:
        vm.compute_length = saved
    n = num(f.nv)
    c.prove('legs, length and load of every tour', facts(n, ls, os, cs))
    c.prove('total length', real(total) == T(n))


@contract('evaluation of tours', V + 'VrpProblem.evaluate', V + 'VrpProblem.satisfy', V + 'VrpSolution.__init__', V + 'VrpSolution.copy', V + 'VrpSolution.lazy_copy', V + 'VrpSolution.change_problem')
def _(c):
    f = Fleet(c)
    tours = TOURS.fresh('tours')
    n = num(f.nv)
    c.assume(tours.n == n)
    length, lengths, loads = REAL.fresh('length'), SeqTy(VR).fresh('legs'), VR.fresh('loads')
    c.assume(loads.n == n)
    asked = []

    def evaluate(sol):
        c.prove('evaluates the solution', sol is the[0])
        asked.append(sol)
        return lengths, None, length, loads
    f.evaluate_function = evaluate
    T = z3.Function(c.fresh_name('violation'), ZI, ZR)
    c.assume(T(0) == 0)
    over = lambda i: z3.If(at(loads, i) > at(f.caps, i), at(loads, i) - at(f.caps, i), 0)

    def inv(lp):
        if lp.phase == 'assume' and lp.mode == 0:
            c.assume(T(lp.i + 1) == T(lp.i) + over(lp.i))
        return [('violation so far', real(lp.locals['violation']) == T(lp.i))]
    c.loops.append(LoopContract(lambda lp: lp.fn().endswith('VrpProblem.evaluate'), inv, name='vehicles', types=dict(violation=REAL)))
    how = c.case('solution', ['new', 'evaluated', 'copy', 'lazy copy', 'other problem', 'verdict'])
    sol = vm.VrpSolution(f.pb, f.start, f.end, tours)
    if how in ('evaluated', 'copy', 'lazy copy'):
        sol = vm.VrpSolution(f.pb, f.start, f.end, tours, length=length, lengths=lengths, capacities=loads)
    if how == 'other problem':
        sol = vm.VrpSolution(None, f.start, f.end, tours, length=REAL.fresh('old'), lengths=SeqTy(VR).fresh('old'), capacities=VR.fresh('old'))
        sol.change_problem(f.pb)
    elif how == 'copy' or how == 'lazy copy':
        old, sol = sol, sol.copy() if how == 'copy' else sol.lazy_copy()
        c.prove('its own tours', sol is not old and (how == 'lazy copy' or sol.list_paths is not tours))
    the = [sol]
    if how == 'verdict':
        r = f.pb.satisfy(sol)
        return c.prove('no capacity exceeded', eqf(r, mk(T(n) == 0)))
    r = f.pb.evaluate(sol)
    c.prove('the tours', And(sol.problem is f.pb, seq_eq(sol.list_paths, tours), sol.list_start_index is f.start, sol.list_end_index is f.end))
    c.prove('length and violation', And(set(r) == {'length', 'capacity_violation'}, eqf(r['length'], length), real(r['capacity_violation']) == T(n)))
    c.prove('evaluated once', And(len(asked) == (0 if how in ('evaluated', 'copy', 'lazy copy') else 1), eqf(sol.length, length), seq_eq(sol.capacities, loads), seq_eq(sol.lengths, lengths)))


class Sum:
    """Sum of the demands of the first n customers of a tour (an array): unfolded at appended customers."""
    def __init__(self, c, d):
        self.f = z3.Function(c.fresh_name('load'), AI, ZI, ZR)
        self.d, self.c = d, c
        a = z3.Const('a!s', AI)
        c.assume(fa([a], self.f(a, 0) == 0, self.f(a, 0)))

    def appended(self, a, n, x):
        """lemma (induction): entries from n on do not matter; definition at n"""
        self.c.assume(self.f(Sto(a, n, x), n + 1) == self.f(a, n) + self.d(x))


@contract('greedy tours', V + 'trivial_solution', V + 'stupid_solution', V + 'VrpProblem.get_dummy_solution', V + 'VrpProblem.get_stupid_solution', may_not_return=True)
def _(c):
    f = Fleet(c)
    nv, n = num(f.nv), num(f.nc)
    S, E, d = f.start.arrays[1], f.end.arrays[1], f.d
    cap = f.caps.arrays[1]
    x, v, k, k2, v2 = I('x'), I('v'), I('k'), I('j'), I('w')
    FX = z3.Function(c.fresh_name('taken'), ZI, ZI, ZB)          # start or end of one of the first vehicles
    c.assume(fa([x], z3.Not(FX(0, x)), FX(0, x)))
    C1 = lambda v: Sel(cap, v) - d(Sel(S, v)) - z3.If(Sel(S, v) == Sel(E, v), 0, d(Sel(E, v)))      # room for customers
    LOAD = Sum(c, d)
    st = {}

    def fixed(lp):
        i = lp.i
        if lp.phase == 'assume' and lp.mode == 0:
            c.assume(fa([x], FX(i + 1, x) == z3.Or(FX(i, x), x == Sel(S, i), x == Sel(E, i)), FX(i + 1, x)))
        r = SetTy(INT).unwrap(lp.locals['remaining_customers'])[0]
        q = DictTy(INT, REAL).unwrap(lp.locals['remaining_capacity_vehicle'])
        return [('customers left', fa([x], Sel(r, x) == z3.And(rng(x, n), z3.Not(FX(i, x))), Sel(r, x))),
                ('room left', fa([v], z3.And(Sel(q[0], v) == rng(v, nv), z3.Implies(rng(v, nv), Sel(q[1], v) == z3.If(v < i, C1(v), Sel(cap, v)))), Sel(q[1], v), Sel(q[0], v)))]
    c.loops.append(LoopContract(lambda lp: lp.kind == 'SymSeq' and 'start' in lp.bound, fixed, name='ends', types=dict(start=INT, end=INT)))

    def ghost(lp):
        """where each served customer is"""
        if lp.phase == 'assume':
            st['V'], st['K'] = (z3.Const(c.fresh_name(q), AI) for q in ('vehicle of', 'place of'))

    def common(lp, i, nt, extra=None):
        L = lp.locals
        R = SetTy(INT).unwrap(L['remaining_customers'])[0]
        T = TOURS.unwrap(L['vehicle_tours'])
        q = DictTy(INT, REAL).unwrap(L['remaining_capacity_vehicle'])
        W, K = st['V'], st['K']
        elem = lambda v, k: Sel(Sel(T[2], v), k)
        still = (lambda x: z3.And(Sel(R, x), z3.Not(Sel(extra, x)))) if extra is not None else lambda x: Sel(R, x)
        free = lambda x: z3.And(rng(x, n), z3.Not(FX(nv, x)))
        return [('tours', And(T[0] == nt, fa([v], z3.Implies(rng(v, nt), Sel(T[1], v) >= 0), Sel(T[1], v)))),
                ('a customer has one place', fa([v, k], z3.Implies(z3.And(rng(v, nt), rng(k, Sel(T[1], v))), z3.And(Sel(W, elem(v, k)) == v, Sel(K, elem(v, k)) == k, free(elem(v, k)), z3.Not(still(elem(v, k))))), elem(v, k))),
                ('served or left', fa([x], z3.Implies(free(x), z3.Or(Sel(R, x), z3.And(rng(Sel(W, x), nt), rng(Sel(K, x), Sel(T[1], Sel(W, x))), elem(Sel(W, x), Sel(K, x)) == x))), Sel(R, x), Sel(W, x))
                 if extra is None else fa([x], z3.Implies(free(x), z3.Or(still(x), z3.And(rng(Sel(W, x), nt), rng(Sel(K, x), Sel(T[1], Sel(W, x))), elem(Sel(W, x), Sel(K, x)) == x))), Sel(R, x), Sel(W, x))),
                ('left ones are customers', fa([x], z3.Implies(Sel(R, x), free(x)), Sel(R, x))),
                ('room', fa([v], z3.And(Sel(q[0], v) == rng(v, nv), z3.Implies(rng(v, nv), z3.And(
                    z3.Implies(v < nt, Sel(q[1], v) == C1(v) - LOAD.f(Sel(T[2], v), Sel(T[1], v))), z3.Implies(v >= nt, Sel(q[1], v) == C1(v)),
                    z3.Implies(z3.And(v < nt, Sel(T[1], v) > 0), Sel(q[1], v) >= 0)))), Sel(q[1], v), Sel(q[0], v), Sel(T[1], v))),
                ('whoever is left fits in no finished tour', fa([x, v], z3.Implies(z3.And(rng(v, i), Sel(R, x)), Sel(q[1], v) < d(x)), (Sel(R, x), Sel(q[1], v))))]

    def vehicles(lp):
        if lp.phase == 'establish':
            st['V'], st['K'] = (z3.Const(c.fresh_name(q), AI) for q in ('vehicle of', 'place of'))
        ghost(lp)
        st['i'] = lp.i
        return common(lp, lp.i, lp.i)
    TY = dict(vehicle_tours=TOURS, remaining_capacity_vehicle=DictTy(INT, REAL), remaining_customers=SetTy(INT), used=SetTy(INT), order=None, customer=INT)
    c.loops.append(LoopContract(lambda lp: lp.kind == 'SymSeq' and 'vehicle_tours' in lp.mut and 'order' in lp.bound, vehicles, name='vehicles', types=TY))

    def passes(lp):
        if lp.phase == 'establish':
            st['v'] = st['i']
        ghost(lp)
        return common(lp, st['v'], st['v'] + 1)
    c.loops.append(LoopContract(lambda lp: lp.kind == 'while' and 'vehicle_tours' in lp.mut, passes, name='passes', types=TY))

    def fill(lp):
        U = SetTy(INT).unwrap(lp.locals['used'])[0]
        i = lp.i
        O = lp.seq
        vv = st['v']
        if lp.phase == 'establish':
            st['T'] = None
        ghost(lp)
        if lp.phase == 'assume':
            st['T'] = TOURS.unwrap(lp.locals['vehicle_tours'])
        if lp.phase == 'preserve':
            T0, T1 = st['T'], TOURS.unwrap(lp.locals['vehicle_tours'])
            cust = at(O, i - 1)
            if not T0[1].eq(T1[1]) or not T0[2].eq(T1[2]):
                old, m = Sel(T0[2], vv), Sel(T0[1], vv)
                c.prove('the customer joins the tour', And(Sel(T1[2], vv) == Sto(old, m, cust), Sel(T1[1], vv) == m + 1))
                LOAD.appended(old, m, cust)
                st['V'], st['K'] = Sto(st['V'], cust, vv), Sto(st['K'], cust, m)
        return common(lp, vv, vv + 1, U) + [
            ('served in this pass', fa([x], z3.Implies(Sel(U, x), z3.And(Sel(lp_R(lp), x), rng(POS(x), i), at(O, POS(x)) == x)), Sel(U, x)))]
    POS = lambda x: st['pos'](x)
    lp_R = lambda lp: SetTy(INT).unwrap(lp.locals['remaining_customers'])[0]
    c.loops.append(LoopContract(lambda lp: lp.kind == 'SymSeq' and 'used' in lp.mut, fill, name='customers', types=TY, modifies=None))

    def order(s, key=None):
        r = VEC.fresh('order')
        t = SetTy(INT).unwrap(s)[0]
        st['pos'] = z3.Function(c.fresh_name('rank'), ZI, ZI)
        c.assume(fa([k], z3.Implies(rng(k, r.n), z3.And(Sel(t, Sel(r.arrays[1], k)), POS(Sel(r.arrays[1], k)) == k)), Sel(r.arrays[1], k)))
        c.assume(fa([x], z3.Implies(Sel(t, x), z3.And(rng(POS(x), r.n), Sel(r.arrays[1], POS(x)) == x)), Sel(t, x), POS(x)))
        return r

    def empty(lp):
        T = TOURS.unwrap(lp.locals['vehicle_tours'])
        return [('empty tours', And(T[0] == lp.i, fa([v], z3.Implies(rng(v, lp.i), Sel(T[1], v) == 0), Sel(T[1], v))))]
    c.loops.append(LoopContract(lambda lp: lp.kind == 'SymSeq' and 'vehicle_tours' in lp.mut and 'used' not in tuple(lp.bound) + tuple(lp.mut), empty, name='empty tours', types=TY))
    values, seen = OBJ.fresh('values'), []
    f.pb.evaluate = lambda s: seen.append(s) or values
    how = c.case('called', ['dummy', 'trivial', 'stupid', 'get_stupid'])
    vm.sorted, vm.print = order, lambda *a: None
    try:
        sol = {'dummy': f.pb.get_dummy_solution, 'trivial': lambda: vm.trivial_solution(f.pb), 'stupid': lambda: vm.stupid_solution(f.pb), 'get_stupid': f.pb.get_stupid_solution}[how]()
    finally:
        del vm.sorted, vm.print
    if type(sol) is tuple:
        sol, fit = sol
        c.prove('its evaluation', fit is values)
    c.prove('a solution of the problem', And(sol.problem is f.pb, sol.list_start_index is f.start, sol.list_end_index is f.end, len(seen) == 1 and seen[0] is sol, sol.lengths is None))
    T = TOURS.unwrap(sol.list_paths)
    elem = lambda v, k: Sel(Sel(T[2], v), k)
    c.prove('one tour for each vehicle', T[0] == nv)
    c.prove('customers other than starts and ends', fa([v, k], z3.Implies(z3.And(rng(v, nv), rng(k, Sel(T[1], v))), z3.And(rng(elem(v, k), n), z3.Not(FX(nv, elem(v, k))))), elem(v, k)))
    c.prove('nobody twice', fa([v, k, v2, k2], z3.Implies(z3.And(rng(v, nv), rng(k, Sel(T[1], v)), rng(v2, nv), rng(k2, Sel(T[1], v2)), elem(v, k) == elem(v2, k2)), z3.And(v == v2, k == k2)), (elem(v, k), elem(v2, k2))))
    load = lambda v: Sel(cap, v) - C1(v) + LOAD.f(Sel(T[2], v), Sel(T[1], v))
    if 'stupid' in how:
        return c.prove('everybody in the first tour', And(fa([v], z3.Implies(z3.And(0 < v, v < nv), Sel(T[1], v) == 0), Sel(T[1], v)),
                                                          fa([x], z3.Implies(z3.And(rng(x, n), z3.Not(FX(nv, x))), z3.And(rng(POS(x), Sel(T[1], 0)), elem(0, POS(x)) == x)), POS(x), FX(nv, x))))
    c.prove('capacities respected', fa([v], z3.Implies(z3.And(rng(v, nv), Sel(T[1], v) > 0), load(v) <= Sel(cap, v)), Sel(T[1], v)))
    W, K = st['V'], st['K']
    c.prove('whoever is left fits nowhere', fa([x, v], z3.Implies(z3.And(rng(x, n), z3.Not(FX(nv, x)), rng(v, nv), z3.Not(z3.And(rng(Sel(W, x), nv), rng(Sel(K, x), Sel(T[1], Sel(W, x))), elem(Sel(W, x), Sel(K, x)) == x))),
                                                                load(v) + d(x) > Sel(cap, v)), (Sel(W, x), Sel(T[1], v))))


# ---------------------------------------------------------------------------------------------- facility location
class Record:
    """A dictionary with fixed string keys."""
    def __init__(self, fields, ts, wb):
        self.fields, self.ts, self.wb = fields, list(ts), wb

    @property
    def __class__(self): return dict

    def _at(self, k):
        i = 0
        for nm, t in self.fields:
            if nm == k:
                return i, t
            i += len(t.sorts())
        raise KeyError(k)

    def _put(self, i, ts):
        self.ts[i:i + len(ts)] = ts
        if self.wb:
            self.wb(list(self.ts))

    def __getitem__(self, k):
        i, t = self._at(k)
        return t.wrap(self.ts[i:i + len(t.sorts())], lambda ts: self._put(i, ts))

    def __setitem__(self, k, v):
        i, t = self._at(k)
        self._put(i, t.unwrap(v))


class RecordTy(Ty):
    def __init__(self, **fields): self.fields = list(fields.items())
    def sorts(self): return [s for _, t in self.fields for s in t.sorts()]
    def wrap(self, ts, wb=None): return Record(self.fields, ts, wb)

    def unwrap(self, v):
        if type(v) is Record:
            return list(v.ts)
        if type(v) is not dict or set(v) != {n for n, _ in self.fields}:
            raise Unsupported('record expected, got %r' % (v,))
        return [x for n, t in self.fields for x in t.unwrap(v[n])]


DET = RecordTy(capacity_used=REAL, customers=SetTy(INT), cost=REAL, setup_cost=REAL)
DETAILS = DictTy(INT, DET)


class Sites:
    def __init__(self, c):
        self.c = c
        self.nf, self.nc = INT.fresh('facilities'), INT.fresh('customers')
        f, n = num(self.nf), num(self.nc)
        c.assume(z3.And(f >= 1, n >= 0))
        self.cap, self.setup, self.dem = VR.fresh('capacity'), VR.fresh('setup'), VR.fresh('demand')
        c.assume(z3.And(self.cap.n == f, self.setup.n == f, self.dem.n == n))
        j = I('j')
        self.COST = func('cost', INT, INT, ret=REAL)
        self.d, self.k, self.s = (lambda x, q=q: Sel(q.arrays[1], x) for q in (self.dem, self.cap, self.setup))
        c.assume(fa([j], self.d(j) >= 0, self.d(j)))
        cap, setup, dem = self.cap, self.setup, self.dem
        self.facilities = SymSeq(cap.n, lambda j: Stub(index=SymInt(j), capacity=cap.elem(j), setup_cost=setup.elem(j), location=None))
        self.customers = SymSeq(dem.n, lambda j: Stub(index=SymInt(j), demand=dem.elem(j), location=None))
        w = self

        class Pb(fm.FacilityProblem):
            def evaluate_customer_facility(self, facility, customer): return w.COST(facility.index, customer.index)
        self.pb = Pb(self.nf, self.nc, self.facilities, self.customers)


@contract('costs of an assignment', F + 'FacilityProblem.evaluate_cost', F + 'FacilityProblem.__init__', F + 'FacilitySolution.__init__')
def _(c):
    w = Sites(c)
    n = num(w.nc)
    x = VEC.fresh('assigned')
    X = x.arrays[1]
    j, f, k = I('j'), I('f'), I('k')
    c.assume(z3.And(x.n == n, fa([j], z3.Implies(rng(j, n), rng(Sel(X, j), num(w.nf))), Sel(X, j))))
    fc = lambda name, *s: z3.Function(c.fresh_name(name), ZI, *s)
    USED, Q, CO = fc('used', ZI, ZB), fc('load', ZI, ZR), fc('facility cost', ZI, ZR)            # of the first customers, at a facility
    TOT = z3.Function(c.fresh_name('total'), ZI, ZR)
    SETUP = SetSum(ZI, lambda f: SymReal(w.s(f)), ZR, 'setup of')
    c.assume(fa([f], z3.And(z3.Not(USED(0, f)), Q(0, f) == 0, CO(0, f) == 0), USED(0, f)))
    c.assume(fa([f], z3.And(Q(0, f) == 0, CO(0, f) == 0), Q(0, f)))
    c.assume(TOT(0) == 0)
    cost = lambda f, i: num(w.COST(SymInt(f), SymInt(i)))

    def unfold(i):
        h = Sel(X, i)
        c.assume(fa([f], z3.And(USED(i + 1, f) == z3.Or(USED(i, f), f == h), Q(i + 1, f) == Q(i, f) + z3.If(f == h, w.d(i), 0), CO(i + 1, f) == CO(i, f) + z3.If(f == h, cost(h, i), 0)),
                    USED(i + 1, f), Q(i + 1, f), CO(i + 1, f)))
        c.assume(fa([f], z3.Implies(z3.Not(USED(i, f)), z3.And(Q(i, f) == 0, CO(i, f) == 0)), USED(i, f)))       # lemma: nothing at an unused facility
        c.assume(TOT(i + 1) == TOT(i) + cost(h, i))

    def facts(t, i):
        return [('the facilities used', fa([f], Sel(t[0], f) == USED(i, f), Sel(t[0], f), USED(i, f))),
                ('load, customers and cost of each', fa([f], z3.Implies(Sel(t[0], f), z3.And(Sel(t[1], f) == Q(i, f), Sel(t[3], f) == CO(i, f), Sel(t[4], f) == w.s(f))), Sel(t[1], f), Sel(t[3], f), Sel(t[0], f))),
                ('its customers', fa([f, k], z3.Implies(Sel(t[0], f), Sel(Sel(t[2], f), k) == z3.And(rng(k, i), Sel(X, k) == f)), Sel(Sel(t[2], f), k))),
                ('unused ones have none', fa([k], z3.Implies(rng(k, i), USED(i, Sel(X, k))), Sel(X, k)))]

    def inv(lp):
        i, L = lp.i, lp.locals
        t = DETAILS.unwrap(L['facility_details'])
        if lp.phase == 'establish':
            SETUP.c0 = t[0]
        if lp.phase == 'assume' and lp.mode == 0:
            unfold(i)
            c.assume(z3.And(w.setup.n == num(w.nf)))
            SETUP.unfold(t[0], Sel(X, i))
        return facts(t, i) + [('setup costs of the facilities used', real(L['setup_cost']) == SETUP.f(t[0])), ('total', real(L['cost']) == TOT(i))]
    c.loops.append(LoopContract(lambda lp: lp.fn().endswith('evaluate_cost'), inv, name='customers', types=dict(facility_details=DETAILS, cost=REAL, setup_cost=REAL, c=REAL, f=INT)))
    sol = fm.FacilitySolution(w.pb, x)
    r = w.pb.evaluate_cost(sol)
    c.prove('keys', set(r) == {'cost', 'setup_cost', 'details'})
    t = DETAILS.unwrap(r['details'])
    for name, q in facts(t, n):
        c.prove(name, q)
    c.prove('total cost', real(r['cost']) == TOT(n))
    c.prove('setup costs of the facilities used', real(r['setup_cost']) == SETUP.f(t[0]))
    c.prove('the assignment is not changed', And(sol.facility_for_customers is x, x.arrays[1] is X, w.pb.facility_count is w.nf, w.pb.customer_count is w.nc))


@contract('capacity violations', F + 'FacilityProblem.evaluate', F + 'FacilityProblem.satisfy', F + 'FacilityProblem.evaluate_from_encoding', F + 'FacilitySolution.copy', F + 'FacilitySolution.lazy_copy',
          F + 'FacilitySolution.change_problem')
def _(c):
    w = Sites(c)
    x = VEC.fresh('assigned')
    details, cost, setup = DETAILS.fresh('details'), REAL.fresh('cost'), REAL.fresh('setup')
    t = list(details.terms)
    f = I('f')
    c.assume(fa([f], z3.Implies(Sel(t[0], f), rng(f, num(w.nf))), Sel(t[0], f)))
    asked = []

    def evaluate_cost(s):
        asked.append(s)
        return {'cost': cost, 'setup_cost': setup, 'details': details}
    w.pb.evaluate_cost = evaluate_cost
    over = lambda f: z3.If(Sel(t[1], f) > w.k(f), Sel(t[1], f) - w.k(f), 0)
    OVER = SetSum(ZI, lambda f: SymReal(over(f)), ZR, 'excess of')

    def inv(lp):
        if lp.phase == 'assume' and lp.mode == 0:
            OVER.unfold(lp.visited, lp.x)
        return [('excess so far', real(lp.locals['capacity_constraint_violation']) == OVER.f(lp.visited))]
    c.loops.append(LoopContract(lambda lp: lp.fn().endswith('FacilityProblem.evaluate'), inv, name='facilities', types=dict(capacity_constraint_violation=REAL)))
    how = c.case('solution', ['new', 'copy', 'lazy copy', 'other problem', 'encoding', 'verdict', 'known'])
    sol = fm.FacilitySolution(w.pb, x)
    if how == 'known':
        known = {'cost': cost, 'capacity_constraint_violation': REAL.fresh('violation')}
        sol = fm.FacilitySolution(w.pb, x, known)
        return c.prove('figures that are known', And(w.pb.evaluate(sol) is known and not asked, sol.lazy_copy().dict_details is known, sol.copy().dict_details == known))
    if how == 'other problem':
        sol = fm.FacilitySolution(None, x, {'cost': REAL.fresh('old')})
        sol.change_problem(w.pb)
    elif 'copy' in how:
        sol = sol.copy() if how == 'copy' else sol.lazy_copy()
    if how == 'verdict':
        return c.prove('feasible iff no capacity is exceeded', eqf(w.pb.satisfy(sol), mk(OVER.f(t[0]) == 0)))
    r = w.pb.evaluate_from_encoding(x, 'facility_for_customers') if how == 'encoding' else w.pb.evaluate(sol)
    if how == 'encoding':
        sol = asked[0]
    c.prove('evaluated once', And(len(asked) == 1 and asked[0] is sol, sol.problem is w.pb, seq_eq(sol.facility_for_customers, x), how in ('new', 'lazy copy', 'encoding') or sol.facility_for_customers is not x))
    c.prove('figures', And(set(r) == {'cost', 'setup_cost', 'details', 'capacity_constraint_violation'}, r['cost'] is cost, r['setup_cost'] is setup, r['details'] is details))
    c.prove('excess of all facilities', real(r['capacity_constraint_violation']) == OVER.f(t[0]))


@contract('packing customers', G + '__init__', G + 'solve', raises=(IndexError,), may_not_return=True)
def _(c):
    w = Sites(c)
    n, nf = num(w.nc), num(w.nf)
    params, fitness = ParamsObjectiveFunction(ObjectiveHandling.AGGREGATE, ['o'], [1], c.case('sense', list(ModeOptim))), OBJ.fresh('fitness')
    given = params if c.case('params', [True, False]) else None
    AR = z3.ArraySort(ZI, ZR)
    Q = z3.Function(c.fresh_name('load'), AI, ZI, ZI, ZR)            # (assignment, first customers, facility)
    a, f, j, g = z3.Const('a!s', AI), I('f'), I('j'), I('g')
    c.assume(fa([a, f], Q(a, 0, f) == 0, Q(a, 0, f)))
    LST = z3.Function(c.fresh_name('too small for'), ZI, ZI)         # the customer at whom a facility was left
    st = {}

    def facts(S, i, C, m, skip=None):
        return [('assigned in order', And(S[0] == n, rng(m, nf) if skip is None else m >= 0, fa([j], z3.Implies(rng(j, i), z3.And(0 <= Sel(S[1], j), Sel(S[1], j) <= m)), Sel(S[1], j)))),
                ('room left', And(C[0] == nf, fa([f], z3.Implies(rng(f, nf), Sel(C[1], f) == w.k(f) - Q(S[1], i, f)), Sel(C[1], f)))),
                ('facilities not reached are empty', fa([f], z3.Implies(z3.And(m < f, f < nf), Q(S[1], i, f) == 0), Q(S[1], i, f), Sel(C[1], f))),
                ('no used facility is overfull', fa([f], z3.Implies(z3.And(rng(f, nf), Q(S[1], i, f) > 0), Sel(C[1], f) >= 0), Q(S[1], i, f), Sel(C[1], f))),
                ('loads', fa([f], Q(S[1], i, f) >= 0, Q(S[1], i, f), Sel(C[1], f))),
                ('a facility is left for a customer who does not fit', fa([f], z3.Implies(z3.And(rng(f, m), f < nf), z3.And(rng(Sel(st['L'], f), i if skip is None else i + 1), Sel(C[1], f) < w.d(Sel(st['L'], f)))), Sel(C[1], f), Sel(st['L'], f)))]

    def get(lp):
        L = lp.locals
        return VEC.unwrap(L['solution']), VR.unwrap(L['capacity_remaining']), num(L['facility_index'])

    def outer(lp):
        i = lp.i
        if lp.phase == 'establish':
            st['L'] = z3.Const(c.fresh_name('left at'), AI)
        if lp.phase == 'assume':
            st['L'] = z3.Const(c.fresh_name('left at'), AI)
            st['i'] = i
        S, C, m = get(lp)
        if lp.phase == 'assume':
            st['S'] = S
        if lp.phase == 'preserve':
            old = st['S'][1]
            new = S[1]
            v = Sel(new, i - 1)
            c.prove('only this customer is assigned', new == Sto(old, i - 1, v))
            # lemma (induction): later entries do not matter; definition at i - 1
            c.assume(fa([f], Q(Sto(old, i - 1, v), i, f) == Q(old, i - 1, f) + z3.If(f == v, w.d(i - 1), 0), Q(Sto(old, i - 1, v), i, f)))
            c.assume(fa([f], Q(new, i, f) == Q(old, i - 1, f) + z3.If(f == v, w.d(i - 1), 0), Q(new, i, f)))
        return facts(S, i, C, m)
    c.loops.append(LoopContract(lambda lp: lp.kind == 'SymSeq' and lp.fn().endswith('solve'), outer, name='customers', types=dict(solution=VEC, capacity_remaining=VR, facility_index=INT, customer=None)))

    def skip(lp):
        i = st['i']
        if lp.phase == 'assume':
            st['L'] = z3.Const(c.fresh_name('left at'), AI)
        if lp.phase == 'preserve' and 'm' in st:
            st['L'] = Sto(st['L'], st['m'], i)
        S, C, m = get(lp)
        if lp.phase == 'assume':
            st['m'] = m
        return facts(S, i, C, m, True)
    c.loops.append(LoopContract(lambda lp: lp.kind == 'while' and lp.fn().endswith('solve'), skip, name='too small', types=dict(facility_index=INT)))
    evaluated = []

    def build(problem, params_objective_function):
        c.prove('objective of the problem', And(problem is w.pb, params_objective_function is given))
        return (lambda s: evaluated.append(s) or fitness), None, params
    saved = fg.build_aggreg_function_and_params_objective
    fg.build_aggreg_function_and_params_objective = build
    try:
        rs = fg.GreedySolverFacility(w.pb, given).solve()
    except IndexError:
        L, i = st['L'], st['i']
        return c.prove('no solution only if every facility was left for a customer who did not fit', fa([f], z3.Implies(rng(f, nf), z3.And(rng(Sel(L, f), i + 1), rng(Sel(L, f), n))), Sel(L, f)))
    finally:
        fg.build_aggreg_function_and_params_objective = saved
    (sol, fit), = rs.list_solution_fits
    S = VEC.unwrap(sol.facility_for_customers)
    c.prove('every customer is assigned', And(S[0] == n, fa([j], z3.Implies(rng(j, n), rng(Sel(S[1], j), nf)), Sel(S[1], j))))
    c.prove('capacities respected', fa([f], z3.Implies(z3.And(rng(f, nf), Q(S[1], n, f) > 0), Q(S[1], n, f) <= w.k(f)), Q(S[1], n, f)))
    c.prove('solution of the problem with its fitness', sol.problem is w.pb and len(evaluated) == 1 and evaluated[0] is sol and fit is fitness and sol.dict_details is None and rs.best_solution is sol and rs.mode_optim is params.sense_function)
