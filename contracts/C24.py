"""Project schedules (RCPSP): the serial scheme and the feasibility test."""
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
import skdecide.builders.discrete_optimization.rcpsp.rcpsp_model as rm

CONTRACTS = contract = Registry()
MBQI, FEAS_MS, TIMEOUT_MS = False, 80, 8000
ASSUMPTIONS = ['activities are numbered 1..n+2; dummies 1 and n+2 have mode 1 only; the dictionaries of the problem list every activity, resources in any order',
               'durations and requirements are non-negative integers; an activity of zero duration requires nothing',
               'serial scheme: precedence has no cycle, there is at least one resource, calendars reach the horizon, the permutation is one of the non-dummy activities; list(dict) in any order',
               'evaluations and encodings: modes are valid (the scheme repairs unknown ones in place); mean reserve: positive capacities and makespan, no non-renewable resource',
               'deepcopy of lists of integers gives equal lists; np.full gives a constant list; print has no effect']
R = 'skdecide.builders.discrete_optimization.rcpsp.rcpsp_model:'
Sel, Sto = z3.Select, z3.Store
I = lambda n: z3.Int(n + '!k')
ZI, ZB = z3.IntSort(), z3.BoolSort()
VEC = SeqTy(INT)
ACTS = z3.ArraySort(ZI, ZB)


class Stub:
    __module__ = 'skdecide.stub'

    def __init__(self, **kw): self.__dict__.update(kw)


class Map:
    """A read-only dictionary given by its set of keys and a function."""
    def __init__(self, keys, get, has):
        self._keys, self._get, self._has = keys, get, has

    def keys(self): return self._keys()
    def __getitem__(self, k):
        if not engine.CTX.branch(self._has(k)):
            raise KeyError(k)
        return self._get(k)


class Details(Map):
    pass


class World:
    def __init__(self, c, cls, calendar):
        self.c, self.calendar = c, calendar
        self.n = INT.fresh('n_jobs')
        n = num(self.n)
        c.assume(n >= 0)
        self.A = z3.Const(c.fresh_name('activities'), ACTS)
        a, b, m, t, j = I('a'), I('b'), I('m'), I('t'), I('j')
        self.isact = lambda x: z3.And(1 <= x, x <= n + 2)
        c.assume(fa([a], Sel(self.A, a) == self.isact(a), Sel(self.A, a)))
        U = OBJ.sorts()[0]
        self.U = U
        r = z3.Const('r!k', U)
        self.r = r
        self.R = z3.Const(c.fresh_name('resources'), z3.ArraySort(U, ZB))
        f = lambda name, *s: z3.Function(c.fresh_name(name), *s)
        self.DUR, self.REQ, self.MODES = f('duration', ZI, ZI, ZI), f('requires', ZI, ZI, U, ZI), f('modes', ZI, z3.ArraySort(ZI, ZB))
        self.HAS = lambda a, m: z3.Select(self.MODES(a), m)
        self.CAP, self.LEN = f('capacity', U, ZI, ZI), f('calendar', U, ZI)
        self.NS, self.SC = f('nsucc', ZI, ZI), f('succ', ZI, ZI, ZI)
        c.assume(fa([a, m], self.DUR(a, m) >= 0, self.DUR(a, m)))
        c.assume(fa([a, m, r], z3.And(self.REQ(a, m, r) >= 0, z3.Implies(self.DUR(a, m) == 0, self.REQ(a, m, r) == 0)), self.REQ(a, m, r)))
        c.assume(fa([a], z3.Implies(self.isact(a), self.HAS(a, 1)), self.HAS(a, 1)))
        c.assume(fa([a], self.NS(a) >= 0, self.NS(a)))
        c.assume(fa([a, j], z3.Implies(z3.And(self.isact(a), 0 <= j, j < self.NS(a)), self.isact(self.SC(a, j))), self.SC(a, j)))
        c.assume(fa([r, t], self.CAP(r, t) >= 0, self.CAP(r, t)))
        if not calendar:
            c.assume(fa([r, t], self.CAP(r, t) == self.CAP(r, 0), self.CAP(r, t)))
        sets = lambda K, s: (lambda: SymSet(K, s))
        act = lambda k: Sel(self.A, num(k))
        pb = self.pb = object.__new__(cls)
        pb.n_jobs = self.n
        pb.successors = Map(sets(INT, self.A), lambda k: SymSeq(self.NS(num(k)), lambda j: SymInt(self.SC(num(k), j)), INT), act)
        pb.resources = Map(sets(OBJ, self.R), self.avail, lambda k: Sel(self.R, lift(k)))
        pb.mode_details = Map(sets(INT, self.A), lambda a: Map(lambda: SymSet(INT, self.MODES(num(a))), lambda m: self.detail(num(a), num(m)), lambda m: self.HAS(num(a), num(m))), act)
        nr = self.nr = SeqTy(OBJ).fresh('non_renewable')
        c.assume(fa([j], z3.Implies(z3.And(0 <= j, j < nr.n), Sel(self.R, Sel(nr.arrays[1], j))), Sel(nr.arrays[1], j)))
        pb.non_renewable_resources = nr

    def avail(self, res):
        t = lift(res)
        if not self.calendar:
            return SymInt(self.CAP(t, 0))
        return SymSeq(self.LEN(t), lambda j: SymInt(self.CAP(t, j)), INT)

    def detail(self, a, m):
        w = self

        class D:
            def __getitem__(self, k):
                if type(k) is str and k == 'duration':
                    return SymInt(w.DUR(a, m))
                if not engine.CTX.branch(Sel(w.R, lift(k))):
                    raise KeyError(k)
                return SymInt(w.REQ(a, m, lift(k)))
        return D()


def stubs():
    saved = rm.deepcopy
    rm.deepcopy = lambda x: x.copy()
    rm.print = lambda *a, **k: None

    def undo():
        rm.deepcopy = saved
        del rm.print
    return undo


@contract('verdict on a schedule', R + 'RCPSPModel.satisfy', R + 'RCPSPModelCalendar.satisfy', setup=stubs)
def _(c):
    cls = c.case('model', [rm.RCPSPModel, rm.RCPSPModelCalendar])
    w = World(c, cls, cls is rm.RCPSPModelCalendar)
    n, U, r = num(w.n), w.U, w.r
    S, E = [z3.Function(c.fresh_name(k), ZI, ZI) for k in ('start', 'end')]
    modes = VEC.fresh('modes')
    c.assume(modes.n == n)
    MO = z3.Function(c.fresh_name('mode'), ZI, ZI)                     # mode of an activity
    a, t, j = I('a'), I('t'), I('j')
    c.assume(z3.And(MO(1) == 1, MO(n + 2) == 1))
    c.assume(fa([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(MO(j + 2) == Sel(modes.arrays[1], j), w.HAS(j + 2, Sel(modes.arrays[1], j)))), Sel(modes.arrays[1], j)))
    c.assume(fa([a], z3.Implies(w.isact(a), w.HAS(a, MO(a))), MO(a)))
    none0 = z3.K(ZI, z3.BoolVal(False))
    flag = c.case('flag', [None, True, False])
    # the dummies are activities: neither the activities nor the schedule are empty
    c.assume(z3.And(w.A != none0, Sel(w.A, 1), Sel(w.A, n + 2)))
    sol = Stub(rcpsp_schedule_feasible=flag, rcpsp_modes=modes,
               rcpsp_schedule=Map(lambda: SymSet(INT, w.A), lambda k: dict(start_time=SymInt(S(num(k))), end_time=SymInt(E(num(k)))), lambda k: Sel(w.A, num(k))))
    mk = E(n + 2)
    if w.calendar:
        c.assume(fa([r], w.LEN(r) >= z3.If(mk > 1, mk, 1), w.LEN(r)))         # the calendar covers the schedule
    # usage: a sum over the activities counted so far
    F = z3.Function(c.fresh_name('usage'), ACTS, ZI, U, ZI)
    G = z3.Function(c.fresh_name('total'), ACTS, U, ZI)
    none = z3.K(ZI, z3.BoolVal(False))
    c.assume(fa([t, r], F(none, t, r) == 0, F(none, t, r)))
    c.assume(fa([r], G(none, r) == 0, G(none, r)))
    use = lambda x, t, res: z3.If(z3.And(S(x) <= t, t < E(x)), w.REQ(x, MO(x), res), 0)
    gh = {}
    inR = lambda x: Sel(w.R, x)
    USAGE = DictTy(OBJ, INT)
    mode_of = lambda k: num(k)

    def name(lp):
        it = lp.coll if type(lp.coll) is SymSet else lp.it
        b = set(lp.bound)
        d = lp.fn()
        key = (type(it).__name__, tuple(sorted(lp.bound)), tuple(sorted(lp.mut)))
        return key

    def total(lp, T, dom):
        return [('sum so far', fa([r], z3.Implies(inR(r), z3.And(Sel(T[0], r), Sel(T[1], r) == F(lp.visited, gh['t'], r))), Sel(T[1], r), Sel(T[0], r), F(lp.visited, gh['t'], r)))]

    def uterms(lp):
        v = lp.locals['resource_usage']
        return USAGE.unwrap(v)

    def ok_until(k):
        return fa([t, r], z3.Implies(z3.And(0 <= t, t < k, inR(r)), F(w.A, t, r) <= w.CAP(r, t)), F(w.A, t, r))
    # loops are told apart by what they run over and what they change
    over = lambda lp: 'acts' if type(lp.it) is SymSet and lp.it.k == ZI else 'res' if type(lp.it) is SymSet else 'list' if lp.it is w.nr else 'seq'
    def times(lp):
        gh['t'] = lp.i
        return [('no excess before', ok_until(lp.i))]
    c.loops.append(LoopContract(lambda lp: over(lp) == 'seq' and 'resource_usage' in lp.bound, times, dict(resource_usage=USAGE), name='time'))

    def zero(lp):
        T = uterms(lp)
        return [('zero so far', fa([r], z3.Implies(Sel(lp.visited, r), z3.And(Sel(T[0], r), Sel(T[1], r) == 0)), Sel(T[1], r), Sel(T[0], r), Sel(lp.visited, r)))]
    c.loops.append(LoopContract(lambda lp: over(lp) == 'res' and 'resource_usage' in lp.mut and 'act' not in gh, zero, dict(resource_usage=USAGE), name='no usage yet'))

    def acts(lp):
        gh.pop('act', None)
        if lp.phase == 'assume' and lp.mode == 0:
            gh['act'], gh['V'] = lp.x, lp.visited
            c.assume(fa([r], F(Sto(lp.visited, lp.x, True), gh['t'], r) == F(lp.visited, gh['t'], r) + use(lp.x, gh['t'], r), F(Sto(lp.visited, lp.x, True), gh['t'], r), F(lp.visited, gh['t'], r)))
        return total(lp, uterms(lp), lp.visited)
    c.loops.append(LoopContract(lambda lp: over(lp) == 'acts' and 'resource_usage' in lp.mut, acts, dict(resource_usage=USAGE), name='activities'))

    def add(lp):
        T = uterms(lp)
        x, t0 = gh['act'], gh['t']
        return [('added so far', fa([r], z3.Implies(inR(r), z3.And(Sel(T[0], r), Sel(T[1], r) == F(gh['V'], t0, r) + z3.If(Sel(lp.visited, r), use(x, t0, r), 0))), Sel(T[1], r), Sel(T[0], r)))]
    c.loops.append(LoopContract(lambda lp: over(lp) == 'res' and 'resource_usage' in lp.mut, add, dict(resource_usage=USAGE), name='usage of an activity'))

    def compare(lp):
        if lp.phase == 'assume' and lp.mode == 0:
            gh['res'] = lp.x
        return [('no excess so far', fa([r], z3.Implies(Sel(lp.visited, r), F(w.A, gh['t'], r) <= w.CAP(r, gh['t'])), Sel(lp.visited, r)))]
    c.loops.append(LoopContract(lambda lp: over(lp) == 'res' and not lp.mut, compare, {}, name='comparison'))

    def nonren(lp):
        gh.pop('t', None)
        if lp.phase == 'assume':
            gh['nr'] = Sel(w.nr.arrays[1], lp.i)
        return [('totals so far', fa([j], z3.Implies(z3.And(0 <= j, j < lp.i), G(w.A, Sel(w.nr.arrays[1], j)) <= w.CAP(Sel(w.nr.arrays[1], j), 0)), Sel(w.nr.arrays[1], j)))]
    c.loops.append(LoopContract(lambda lp: over(lp) == 'list', nonren, name='non-renewable'))

    def totals(lp):
        if lp.phase == 'assume' and lp.mode == 0:
            c.assume(G(Sto(lp.visited, lp.x, True), gh['nr']) == G(lp.visited, gh['nr']) + w.REQ(lp.x, MO(lp.x), gh['nr']))
        return [('total so far', num(lp.locals['usage']) == G(lp.visited, gh['nr']))]
    c.loops.append(LoopContract(lambda lp: over(lp) == 'acts' and 'usage' in lp.bound, totals, dict(usage=INT, act_id=INT), name='total'))

    edge = lambda a, j: S(w.SC(a, j)) >= E(a)
    def preds(lp):
        gh.pop('nr', None)
        gh.pop('pred', None)
        if lp.phase == 'assume' and lp.mode == 0:
            gh['pred'] = lp.x
        return [('respected so far', fa([a, j], z3.Implies(z3.And(Sel(lp.visited, a), 0 <= j, j < w.NS(a)), edge(a, j)), w.SC(a, j)))]
    c.loops.append(LoopContract(lambda lp: over(lp) == 'acts', preds, name='predecessors'))

    def sucs(lp):
        gh['j'] = lp.i
        return [('respected so far', fa([j], z3.Implies(z3.And(0 <= j, j < lp.i), edge(gh['pred'], j)), w.SC(gh['pred'], j)))]
    c.loops.append(LoopContract(lambda lp: over(lp) == 'seq' and 'pred' in gh, sucs, name='successors'))
    before = list(modes.arrays)
    got = w.pb.satisfy(sol)
    c.prove('a verdict', got is True or got is False)
    c.prove('the modes are kept', z3.BoolVal(sol.rcpsp_modes is modes and all(x.eq(y) for x, y in zip(modes.arrays, before))))
    if got is True:
        c.prove('not flagged infeasible', flag is not False)
        c.prove('every resource suffices at every time', fa([t, r], z3.Implies(z3.And(0 <= t, t < mk, inR(r)), F(w.A, t, r) <= w.CAP(r, t))))
        c.prove('non-renewable resources suffice', fa([j], z3.Implies(z3.And(0 <= j, j < w.nr.n), G(w.A, Sel(w.nr.arrays[1], j)) <= w.CAP(Sel(w.nr.arrays[1], j), 0))))
        c.prove('successors start after the end', fa([a, j], z3.Implies(z3.And(w.isact(a), 0 <= j, j < w.NS(a)), edge(a, j))))
    elif flag is not False:
        if 't' in gh:
            c.prove('a resource is exceeded', z3.And(0 <= gh['t'], gh['t'] < mk, inR(gh['res']), F(w.A, gh['t'], gh['res']) > w.CAP(gh['res'], gh['t'])))
        elif 'nr' in gh:
            c.prove('a non-renewable resource is exceeded', z3.And(inR(gh['nr']), G(w.A, gh['nr']) > w.CAP(gh['nr'], 0)))
        else:
            c.prove('a successor starts too early', z3.And(w.isact(gh['pred']), 0 <= gh['j'], gh['j'] < w.NS(gh['pred']), z3.Not(edge(gh['pred'], gh['j']))))


# ------------------------------------------------------------------------------------------ the serial scheme
class Sized:
    """horizon * multiplier"""
    __module__ = 'skdecide.stub'
    def __init__(self, h): self.h = h
    def __mul__(self, o): return self.h
    __rmul__ = __mul__


class Within:
    """membership in a list of names"""
    __module__ = 'skdecide.stub'
    def __init__(self, f): self.f = f
    def __contains__(self, x): return engine.CTX.branch(self.f(lift(x)))


class RecordTy(engine.Ty):
    """a dictionary with the keys start_time and end_time, perhaps not yet all there"""
    def sorts(self): return [ZB, ZI, ZB, ZI]

    def wrap(self, ts, wb=None):
        return Rec(ts, wb)

    def unwrap(self, v):
        if type(v) is Rec:
            return list(v.ts)
        if type(v) is dict and set(v) <= {'start_time', 'end_time'}:
            out = []
            for k in ('start_time', 'end_time'):
                out += [z3.BoolVal(k in v), num(v[k]) if k in v else z3.IntVal(0)]
            return out
        raise Unsupported('record')


class Rec:
    def __init__(self, ts, wb): self.ts, self.wb = list(ts), wb

    def __setitem__(self, k, v):
        i = ['start_time', 'end_time'].index(k)
        self.ts[2 * i:2 * i + 2] = [z3.BoolVal(True), num(v)]
        self.wb(self.ts)


def full_stub():
    undo = stubs()
    real = rm.np

    class NP:
        __module__ = 'skdecide.stub'
        def full(self, n, v, dtype=None):
            if dtype not in (int, None):
                raise Unsupported('dtype')
            return Stub(tolist=lambda: SymSeq(num(n), lambda j: SymInt(num(v)), INT))
        def __getattr__(self, k): raise Unsupported('np.' + k)
    rm.np = NP()

    def back():
        rm.np = real
        undo()
    return back


AVAIL = DictTy(OBJ, VEC)
ENDS = DictTy(INT, INT)
PLAN = DictTy(INT, RecordTy())


@contract('serial generation scheme', R + 'RCPSPSolution.generate_schedule_from_permutation_serial_sgs', setup=full_stub)
def _(c):
    cal = c.case('calendar', [False, True])
    w = World(c, rm.RCPSPModelCalendar if cal else rm.RCPSPModel, cal)
    n, U, r = num(w.n), w.U, w.r
    a, b, t, j, k = I('a'), I('b'), I('t'), I('j'), I('k')
    act, inR = w.isact, (lambda x: Sel(w.R, x))
    Hs = INT.fresh('horizon')
    H = num(Hs)
    c.assume(z3.And(H >= 0, w.A != z3.K(ZI, z3.BoolVal(False)), Sel(w.A, 1)))
    w.pb.horizon, w.pb.horizon_multiplier = Sized(Hs), 1
    f = lambda name, *s: z3.Function(c.fresh_name(name), *s)
    NRS = z3.Const(c.fresh_name('exhaustible'), z3.ArraySort(U, ZB))
    w.pb.non_renewable_resources = Within(lambda x: Sel(NRS, x))
    r0 = z3.Const(c.fresh_name('a resource'), U)
    c.assume(inR(r0))
    if cal:
        c.assume(fa([r], w.LEN(r) >= H, w.LEN(r)))
    # precedence
    PREC, IDX, LEVEL = f('precedes', ZI, ZI, ZB), f('index', ZI, ZI, ZI), f('level', ZI, ZI)
    c.assume(fa([a, j], z3.Implies(z3.And(act(a), 0 <= j, j < w.NS(a)), PREC(a, w.SC(a, j))), w.SC(a, j)))
    c.assume(fa([a, b], z3.Implies(PREC(a, b), z3.And(act(a), act(b), 0 <= IDX(a, b), IDX(a, b) < w.NS(a), w.SC(a, IDX(a, b)) == b, LEVEL(a) < LEVEL(b))), PREC(a, b)))
    c.assume(fa([a], LEVEL(a) >= 0, LEVEL(a)))
    # modes
    modes = VEC.fresh('modes')
    M0 = modes.arrays[1]
    c.assume(modes.n == n)
    MO = f('mode', ZI, ZI)
    c.assume(z3.And(MO(1) == 1, MO(n + 2) == 1))
    c.assume(fa([a], z3.Implies(z3.And(2 <= a, a <= n + 1), MO(a) == z3.If(w.HAS(a, Sel(M0, a - 2)), Sel(M0, a - 2), 1)), MO(a)))
    D_ = lambda x: w.DUR(x, MO(x))
    Q_ = lambda x, res: w.REQ(x, MO(x), res)
    # the permutation
    perm = VEC.fresh('permutation')
    P0 = perm.arrays[1]
    PI = f('position', ZI, ZI)
    c.assume(perm.n == n)
    c.assume(fa([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= Sel(P0, j), Sel(P0, j) < n, PI(Sel(P0, j)) == j)), Sel(P0, j)))
    c.assume(fa([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= PI(j), PI(j) < n, Sel(P0, PI(j)) == j)), PI(j)))
    RANK = f('rank', ZI, ZI)
    c.assume(fa([a], RANK(a) == z3.If(a == 1, 0, z3.If(a == n + 2, n + 1, PI(a - 2) + 1)), RANK(a)))
    sol = object.__new__(rm.RCPSPSolution)
    d = sol.__dict__
    d.update(problem=w.pb, rcpsp_permutation=perm, rcpsp_modes=modes, rcpsp_schedule=None, rcpsp_schedule_feasible=None, _schedule_to_recompute=True)
    # what scheduled activities use of a resource
    F = f('used', ENDS.sorts()[0], ENDS.sorts()[1], U, ZI, ZI)
    use = lambda x, e, res, tt: z3.If(z3.And(e - D_(x) <= tt, z3.Or(tt < e, z3.And(Sel(NRS, res), D_(x) > 0))), Q_(x, res), 0)
    none = z3.K(ZI, z3.BoolVal(False))
    gh = {}
    fresh = lambda name, *s: z3.Function(c.fresh_name(name), *s)
    LENA = (lambda x: z3.If(w.LEN(x) > H + 1, H + 1, w.LEN(x))) if cal else (lambda x: H)

    class Av:
        def __init__(self, v): self.has_, self.n, self.a = AVAIL.unwrap(v)
        def has(self, x): return Sel(self.has_, x)
        def at(self, x, tt): return Sel(Sel(self.a, x), tt)
        def shape(self): return fa([r], z3.And(self.has(r) == inR(r), z3.Implies(inR(r), Sel(self.n, r) == LENA(r))), self.has(r), Sel(self.n, r), inR(r))
    AV = lambda L: Av(L['resource_avail_in_time'])
    span = lambda tt: z3.And(0 <= tt, tt < H)
    L_ = lambda lp, name: lp.locals[name]
    inside = lambda lp: lp.fn().endswith('generate_schedule_from_permutation_serial_sgs')
    where = lambda lp, *names: inside(lp) and set(names) <= set(lp.bound) | set(lp.mut)

    # --- resources at the beginning
    def init(lp):
        A = AV(lp.locals)
        return [('capacities so far', fa([r], z3.And(A.has(r) == Sel(lp.visited, r), z3.Implies(Sel(lp.visited, r), Sel(A.n, r) == LENA(r))), A.has(r), Sel(A.n, r))),
                ('amounts so far', fa([r, t], z3.Implies(z3.And(Sel(lp.visited, r), 0 <= t, t < LENA(r)), A.at(r, t) == w.CAP(r, t)), A.at(r, t)))]
    c.loops.append(LoopContract(lambda lp: inside(lp) and lp.kind == 'SymSet' and lp.k == U and 'resource_avail_in_time' in lp.mut, init, dict(resource_avail_in_time=AVAIL), name='capacities'))

    def zero(lp):
        h, v = ENDS.unwrap(L_(lp, 'minimum_starting_time'))
        return [('zero so far', fa([a], z3.And(Sel(h, a) == Sel(lp.visited, a), z3.Implies(Sel(lp.visited, a), Sel(v, a) == 0)), Sel(h, a), Sel(v, a)))]
    c.loops.append(LoopContract(lambda lp: inside(lp) and lp.kind == 'SymSet' and lp.k == ZI and 'minimum_starting_time' in lp.mut, zero, dict(minimum_starting_time=ENDS), name='earliest starts'))

    def fixmodes(lp):
        ext, own = VEC.unwrap(L_(lp, 'modes_extended')), VEC.unwrap(sol.rcpsp_modes)
        return [('lengths', z3.And(ext[0] == n + 2, own[0] == n)),
                ('modes so far', fa([j], z3.Implies(z3.And(0 <= j, j < n + 2), Sel(ext[1], j) == z3.If(j < lp.i, MO(j + 1), z3.If(z3.Or(j == 0, j == n + 1), 1, Sel(M0, j - 1)))), Sel(ext[1], j))),
                ('modes of the solution so far', fa([j], z3.Implies(z3.And(0 <= j, j < n), Sel(own[1], j) == z3.If(j < lp.i - 1, MO(j + 2), Sel(M0, j))), Sel(own[1], j)))]
    c.loops.append(LoopContract(lambda lp: where(lp, 'modes_extended'), fixmodes, dict(modes_extended=VEC), modifies=lambda lp: [sol.rcpsp_modes], name='modes'))

    # --- the main loop
    def ends(v): return ENDS.unwrap(v)
    flag = lambda lp: as_formula(lp.locals['unfeasible_non_renewable_resources'])
    fits = lambda A, x, s, tt, res: A.at(res, tt) >= Q_(x, res)
    lacks = lambda A, x, s, tt, res: z3.And(s <= tt, tt < s + D_(x), tt < H, inR(res), A.at(res, tt) < Q_(x, res))

    def no_room(Dn, E, A, x, m0, BT, BR):
        """an activity that is due, and every start from m0 on that ends within the horizon lacks a resource at some time"""
        s = I('s')
        return [act(x), z3.Not(Sel(Dn, x)), D_(x) > 0, fa([a], z3.Implies(PREC(a, x), Sel(Dn, a)), PREC(a, x)),
                fa([s], z3.Implies(z3.And(m0 <= s, s + D_(x) <= H), lacks(A, x, s, BT(s), BR(s))), BT(s))]

    def main(lp):
        L = lp.locals
        Dn, E = ends(L['activity_end_times'])
        h, mst = ends(L['minimum_starting_time'])
        pe = VEC.unwrap(L['perm_extended'])
        m = VEC.unwrap(L['modes_extended'])
        A, unf = AV(L), flag(lp)
        left = lambda x: z3.And(act(x), z3.Not(Sel(Dn, x)))
        if lp.phase == 'establish':
            gh['POS'], gh['W'] = RANK, (lambda x: z3.IntVal(0))
            reason = z3.BoolVal(False)
            c.assume(fa([r, t], F(none, E, r, t) == 0, F(none, E, r, t)))
        elif lp.phase == 'assume':
            gh['POS'], gh['W'] = fresh('pos', ZI, ZI), fresh('last', ZI, ZI)
            gh['Dn'], gh['E'], gh['mst'], gh['pe'] = Dn, E, mst, pe
            q = gh['q'] = [z3.Const(c.fresh_name('why'), s) for s in (ZB, U, ZI, ZI)] + [fresh('when', ZI, ZI), fresh('what', ZI, U)]
            reason = gh['reason'] = z3.If(q[0], exhausted(Dn, E, q[1], q[2]), z3.And(*no_room(Dn, E, A, q[3], Sel(mst, q[3]), q[4], q[5])))
        else:
            x, P0_, W0 = num(L['act_id']), gh['POS'], gh['W']
            mst0 = gh['mst']
            removed = getattr(L['perm_extended'], 'removed', None)
            if removed is not None:
                ri = num(removed)
                gh['POS'] = lambda y: z3.If(P0_(y) > ri, P0_(y) - 1, P0_(y))
                c.assume(fa([r, t], F(Dn, E, r, t) == F(gh['Dn'], gh['E'], r, t) + use(x, Sel(E, x), r, t), F(Dn, E, r, t), F(gh['Dn'], gh['E'], r, t)))
                reason = exhausted(Dn, E, *gh['late'])
            else:
                for i, fo in enumerate(no_room(Dn, E, A, x, gh['m0'], *gh['B'])):
                    c.prove('the activity has no room within the horizon: %d' % i, fo)
                reason = z3.BoolVal(True)
            gh['W'] = lambda y: z3.If(Sel(mst, y) == Sel(mst0, y), W0(y), x)
        POS, W = gh['POS'], gh['W']
        return [('scheduled activities', fa([a], z3.Implies(Sel(Dn, a), z3.And(act(a), Sel(E, a) - D_(a) >= 0, z3.Implies(D_(a) > 0, Sel(E, a) <= H))), Sel(Dn, a))),
                ('remaining activities', fa([j], z3.Implies(z3.And(0 <= j, j < pe[0]), z3.And(left(Sel(pe[1], j)), POS(Sel(pe[1], j)) == j)), Sel(pe[1], j))),
                ('all of them', z3.And(pe[0] >= 0, fa([a], z3.Implies(left(a), z3.And(0 <= POS(a), POS(a) < pe[0], Sel(pe[1], POS(a)) == a)), Sel(Dn, a)))),
                ('in the given order', fa([j, k], z3.Implies(z3.And(0 <= j, j < k, k < pe[0]), RANK(Sel(pe[1], j)) < RANK(Sel(pe[1], k))), (Sel(pe[1], j), Sel(pe[1], k)))),
                ('modes', z3.And(m[0] == n + 2, fa([j], z3.Implies(z3.And(0 <= j, j < n + 2), Sel(m[1], j) == MO(j + 1)), Sel(m[1], j)))),
                ('predecessors', fa([a, b], z3.Implies(z3.And(PREC(a, b), Sel(Dn, b)), z3.And(Sel(Dn, a), Sel(E, a) <= Sel(E, b) - D_(b))), (PREC(a, b), Sel(Dn, b)))),
                ('earliest starts', fa([a], z3.And(Sel(h, a) == act(a), z3.Implies(act(a), Sel(mst, a) >= 0)), Sel(h, a), Sel(mst, a))),
                ('not before the predecessors', fa([a, b], z3.Implies(z3.And(PREC(a, b), Sel(Dn, a)), Sel(mst, b) >= Sel(E, a)), (PREC(a, b), Sel(Dn, a)))),
                ('nor later', fa([b], z3.Implies(act(b), z3.Or(Sel(mst, b) == 0, z3.And(PREC(W(b), b), Sel(Dn, W(b)), Sel(mst, b) == Sel(E, W(b))))), Sel(mst, b))),
                ('resources', A.shape()),
                ('what is left', fa([r, t], z3.Implies(z3.And(inR(r), span(t)), A.at(r, t) == w.CAP(r, t) - F(Dn, E, r, t)), A.at(r, t), F(Dn, E, r, t))),
                ('enough of everything', z3.Implies(z3.Not(unf), fa([r, t], z3.Implies(z3.And(inR(r), span(t)), A.at(r, t) >= 0), A.at(r, t)))),
                ('infeasible for a reason', z3.Implies(unf, reason))]
    exhausted = lambda Dn, E, res, tt: z3.And(inR(res), Sel(NRS, res), span(tt), F(Dn, E, res, tt) > w.CAP(res, tt))
    TYPES = dict(perm_extended=VEC, resource_avail_in_time=AVAIL, minimum_starting_time=ENDS, activity_end_times=ENDS, unfeasible_non_renewable_resources=BOOL, act_id=INT, current_min_time=INT,
                 valid=BOOL, end_t=INT, respected=BOOL)
    c.loops.append(LoopContract(lambda lp: where(lp, 'perm_extended') and lp.kind == 'while', main, TYPES, name='activities', decreases=lambda lp: SymInt(z3.If(flag(lp), 0, VEC.unwrap(lp.locals['perm_extended'])[0] + 1))))

    # --- the first activity that is due
    def choose(lp):
        pe, Dn = gh['pe'], gh['Dn']
        left = lambda x: z3.And(act(x), z3.Not(Sel(Dn, x)))
        if lp.phase == 'establish':
            gh['by'] = lambda y: z3.IntVal(0)
        elif lp.phase == 'assume':
            gh['by'], gh['at'] = fresh('by', ZI, ZI), lp.i
            if lp.mode == 1:
                # among finitely many activities that remain, one has the least level
                x = z3.Int(c.fresh_name('least'))
                c.assume(z3.Implies(pe[0] > 0, z3.And(left(x), fa([a], z3.Implies(left(a), LEVEL(x) <= LEVEL(a)), LEVEL(a)))))
        else:
            by0, y0, p = gh['by'], Sel(pe[1], lp.i - 1), num(lp.locals['pred'])
            gh['by'] = lambda y: z3.If(y == y0, p, by0(y))
        by = gh['by']
        return [('those before wait for others', fa([j], z3.Implies(z3.And(0 <= j, j < lp.i), z3.And(PREC(by(Sel(pe[1], j)), Sel(pe[1], j)), left(by(Sel(pe[1], j))))), Sel(pe[1], j)))]
    c.loops.append(LoopContract(lambda lp: where(lp, 'respected', 'act_id') and lp.kind == 'SymSeq', choose, dict(respected=BOOL, act_id=INT, pred=INT, id=INT), name='choice'))

    def due(lp):
        x = num(lp.locals['id'])
        return [('no predecessor so far', z3.And(as_formula(lp.locals['respected']), fa([a], z3.Implies(z3.And(Sel(lp.visited, a), PREC(a, x)), Sel(gh['Dn'], a)), Sel(lp.visited, a), PREC(a, x))))]
    c.loops.append(LoopContract(lambda lp: where(lp, 'respected') and lp.kind == 'SymSet', due, dict(respected=BOOL, pred=INT), name='predecessors'))

    # --- its earliest start
    def search(lp):
        L = lp.locals
        x, s = num(L['act_id']), num(L['current_min_time'])
        A, V, unf, q = AV(L), as_formula(L['valid']), flag(lp), I('s')
        if lp.phase == 'establish':
            Dn, pe = gh['Dn'], gh['pe']
            gh['m0'] = Sel(gh['mst'], x)
            c.prove('the activity remains', z3.And(act(x), z3.Not(Sel(Dn, x))))
            c.prove('its predecessors are scheduled', fa([a], z3.Implies(PREC(a, x), Sel(Dn, a)), PREC(a, x)))
            c.prove('every activity before it waits for another', z3.And(Sel(pe[1], gh['at']) == x, fa([j], z3.Implies(z3.And(0 <= j, j < gh['at']), z3.And(
                PREC(gh['by'](Sel(pe[1], j)), Sel(pe[1], j)), act(gh['by'](Sel(pe[1], j))), z3.Not(Sel(Dn, gh['by'](Sel(pe[1], j)))))), Sel(pe[1], j))))
            gh['B'] = (lambda y: z3.IntVal(0)), (lambda y: r0)
        elif lp.phase == 'assume':
            gh['B'], gh['s'] = (fresh('when', ZI, ZI), fresh('what', ZI, U)), s
        else:
            (BT0, BR0), s0, (wt, wr) = gh['B'], gh['s'], gh['lack']
            gh['B'] = (lambda y: z3.If(y == s0, wt, BT0(y))), (lambda y: z3.If(y == s0, wr, BR0(y)))
        BT, BR = gh['B']
        return [('not before the earliest start', s >= gh['m0']),
                ('no room before', fa([q], z3.Implies(z3.And(gh['m0'] <= q, q < s), lacks(A, x, q, BT(q), BR(q))), *([BT(q)] if lp.phase == 'assume' else []))),
                ('room here', z3.Implies(z3.And(V, z3.Not(unf)), fa([r, t], z3.Implies(z3.And(inR(r), s <= t, t < s + D_(x)), z3.And(t < H, fits(A, x, s, t, r))), A.at(r, t)))),
                ('ends within the horizon', z3.Implies(z3.And(V, z3.Not(unf), D_(x) > 0), s + D_(x) <= H)),
                ('beyond the horizon', z3.Implies(unf, z3.And(D_(x) > 0, s + D_(x) > H)))]
    measure = lambda lp: SymInt(z3.If(as_formula(lp.locals['valid']), 0, z3.If(num(lp.locals['current_min_time']) <= H, H - num(lp.locals['current_min_time']) + 1, 1)))
    c.loops.append(LoopContract(lambda lp: lp.kind == 'while' and where(lp, 'valid') and 'perm_extended' not in lp.mut, search, dict(valid=BOOL, current_min_time=INT, unfeasible_non_renewable_resources=BOOL, t=INT, res=OBJ),
                                name='start', decreases=measure))

    def instants(lp):
        L = lp.locals
        x, s, A, V, unf = num(L['act_id']), num(L['current_min_time']), AV(L), as_formula(L['valid']), flag(lp)
        if lp.phase == 'establish':
            gh['unf7'], gh['lack'] = unf, (z3.IntVal(0), r0)
        elif lp.phase == 'assume':
            gh['lack'], gh['t'] = (z3.Int(c.fresh_name('when')), z3.Const(c.fresh_name('what'), U)), s + lp.i
        wt, wr = gh['lack']
        return [('enough so far', z3.Implies(V, fa([r, t], z3.Implies(z3.And(inR(r), s <= t, t < s + lp.i, t < H), fits(A, x, s, t, r)), A.at(r, t)))),
                ('or too little', z3.Implies(z3.Not(V), z3.And(lacks(A, x, s, wt, wr), wt < s + lp.i))),
                ('within the horizon', z3.Implies(z3.Not(unf), z3.Or(lp.i == 0, s + lp.i <= H))),
                ('beyond the horizon', z3.Implies(unf, z3.Or(gh['unf7'], z3.And(lp.i > 0, s + lp.i > H))))]
    c.loops.append(LoopContract(lambda lp: lp.kind == 'SymSeq' and where(lp, 'valid') and 'resource_avail_in_time' not in lp.mut, instants, dict(valid=BOOL, unfeasible_non_renewable_resources=BOOL, res=OBJ, t=INT), name='instants'))

    def needs(lp):
        L = lp.locals
        x, s, A, V, unf, T = num(L['act_id']), num(L['current_min_time']), AV(L), as_formula(L['valid']), flag(lp), gh['t']
        if lp.phase == 'establish':
            gh['unf8'], gh['V8'] = unf, V
        elif lp.phase == 'assume':
            gh['lack'] = (z3.Int(c.fresh_name('when')), z3.Const(c.fresh_name('what'), U))
        elif L['valid'] is False:
            gh['lack'] = (T, lp.x)
        wt, wr = gh['lack']
        return [('enough so far', z3.Implies(V, z3.And(gh['V8'], fa([r], z3.Implies(z3.And(Sel(lp.visited, r), T < H), fits(A, x, s, T, r)), Sel(lp.visited, r))))),
                ('or too little', z3.Implies(z3.Not(V), z3.And(lacks(A, x, s, wt, wr), wt <= T))),
                ('within the horizon', z3.Implies(z3.Not(unf), z3.And(z3.Not(gh['unf8']), fa([r], z3.Implies(Sel(lp.visited, r), T < H), Sel(lp.visited, r), inR(r))))),
                ('beyond the horizon', z3.Implies(unf, z3.Or(gh['unf8'], T >= H)))]
    c.loops.append(LoopContract(lambda lp: lp.kind == 'Symkeys' and where(lp, 'valid'), needs, dict(valid=BOOL, unfeasible_non_renewable_resources=BOOL, res=OBJ), name='needs'))

    # --- what it takes
    def taking(lp):
        L = lp.locals
        x, s, A, unf = num(L['act_id']), num(L['current_min_time']), AV(L), flag(lp)
        if lp.phase == 'establish':
            gh['A9'], gh['late'] = A, (r0, z3.IntVal(0))
        elif lp.phase == 'assume':
            gh['late'], gh['t'] = (z3.Const(c.fresh_name('what'), U), z3.Int(c.fresh_name('when'))), s + lp.i
        lr, lt = gh['late']
        done = z3.And(lp.i == D_(x), D_(x) > 0)
        return [('resources', A.shape()),
                ('taken so far', fa([r, t], z3.Implies(z3.And(inR(r), span(t)), A.at(r, t) == gh['A9'].at(r, t) - z3.If(z3.And(s <= t, t < s + lp.i), Q_(x, r), 0)
                                                       - z3.If(z3.And(Sel(NRS, r), done, t >= s + D_(x)), Q_(x, r), 0)), A.at(r, t), gh['A9'].at(r, t))),
                ('never too much', z3.Implies(z3.Not(unf), fa([r, t], z3.Implies(z3.And(inR(r), Sel(NRS, r), done, span(t), t >= s + D_(x)), A.at(r, t) >= 0), A.at(r, t)))),
                ('or too much', z3.Implies(unf, z3.And(inR(lr), Sel(NRS, lr), done, s + D_(x) <= lt, lt < H, A.at(lr, lt) < 0)))]
    more = dict(resource_avail_in_time=AVAIL, unfeasible_non_renewable_resources=BOOL, res=OBJ, t=INT, tt=INT)
    c.loops.append(LoopContract(lambda lp: lp.kind == 'SymSeq' and where(lp, 'resource_avail_in_time') and len(lp.bound) > 1, taking, more, name='taking'))

    def taken(lp):
        L = lp.locals
        x, s, A, unf, T = num(L['act_id']), num(L['current_min_time']), AV(L), flag(lp), gh['t']
        if lp.phase == 'establish':
            gh['A10'] = A
        elif lp.phase == 'assume':
            gh['late'] = (z3.Const(c.fresh_name('what'), U), z3.Int(c.fresh_name('when')))
            gh['res'], gh['v10'] = (lp.x if lp.mode == 0 else None), lp.visited
        lr, lt = gh['late']
        last, v = T == s + D_(x) - 1, lp.visited
        return [('resources', A.shape()),
                ('taken so far', fa([r, t], z3.Implies(z3.And(inR(r), span(t)), A.at(r, t) == gh['A10'].at(r, t) - z3.If(Sel(v, r), z3.If(t == T, Q_(x, r), 0) + z3.If(z3.And(Sel(NRS, r), last, t > T), Q_(x, r), 0), 0)),
                                    A.at(r, t), gh['A10'].at(r, t))),
                ('never too much', z3.Implies(z3.Not(unf), fa([r, t], z3.Implies(z3.And(inR(r), Sel(v, r), Sel(NRS, r), last, span(t), t > T), A.at(r, t) >= 0), A.at(r, t)))),
                ('or too much', z3.Implies(unf, z3.And(inR(lr), Sel(v, lr), Sel(NRS, lr), last, T < lt, lt < H, A.at(lr, lt) < 0)))]
    c.loops.append(LoopContract(lambda lp: lp.kind == 'Symkeys' and where(lp, 'resource_avail_in_time'), taken, more, name='taken'))

    def after(lp):
        L = lp.locals
        x, s, A, unf, T, R1 = num(L['act_id']), num(L['current_min_time']), AV(L), flag(lp), gh['t'], gh['res']
        if lp.phase == 'establish':
            gh['A11'] = A
        elif lp.phase == 'assume':
            gh['late'] = (z3.Const(c.fresh_name('what'), U), z3.Int(c.fresh_name('when')))
            gh['i11'] = lp.i
        elif L['unfeasible_non_renewable_resources'] is True:
            gh['late'] = (R1, T + 1 + gh['i11'])
        lr, lt = gh['late']
        return [('resources', A.shape()),
                ('taken so far', fa([r, t], z3.Implies(z3.And(inR(r), span(t)), A.at(r, t) == gh['A11'].at(r, t) - z3.If(z3.And(r == R1, T < t, t < T + 1 + lp.i), Q_(x, r), 0)), A.at(r, t), gh['A11'].at(r, t))),
                ('never too much', z3.Implies(z3.Not(unf), z3.And(fa([r, t], z3.Implies(z3.And(inR(r), Sel(gh['v10'], r), Sel(NRS, r), span(t), t > T), A.at(r, t) >= 0), A.at(r, t)),
                                                                 fa([t], z3.Implies(z3.And(T < t, t < T + 1 + lp.i), A.at(R1, t) >= 0), A.at(R1, t))))),
                ('or too much', z3.Implies(unf, z3.And(inR(lr), z3.Or(Sel(gh['v10'], lr), lr == R1), Sel(NRS, lr), T < lt, lt < H, z3.Implies(lr == R1, lt < T + 1 + lp.i), A.at(lr, lt) < 0)))]
    c.loops.append(LoopContract(lambda lp: lp.kind == 'SymSeq' and where(lp, 'resource_avail_in_time'), after, more, name='rest of the horizon'))

    def succ(lp):
        h, mst = ends(L_(lp, 'minimum_starting_time'))
        x = num(L_(lp, 'act_id'))
        e = Sel(ends(L_(lp, 'activity_end_times'))[1], x)
        if lp.phase == 'establish':
            gh['m12'] = mst
        m0 = gh['m12']
        return [('starts', fa([a], z3.And(Sel(h, a) == act(a), z3.Or(Sel(mst, a) == Sel(m0, a), z3.And(PREC(x, a), Sel(mst, a) == e, e > Sel(m0, a)))), Sel(h, a), Sel(mst, a))),
                ('successors so far', fa([j], z3.Implies(z3.And(0 <= j, j < lp.i), Sel(mst, w.SC(x, j)) >= e), w.SC(x, j)))]
    c.loops.append(LoopContract(lambda lp: lp.kind == 'SymSeq' and where(lp, 'minimum_starting_time'), succ, dict(minimum_starting_time=ENDS, s=INT), name='successors'))

    def plan(lp):
        Dn, E = ends(L_(lp, 'activity_end_times'))
        gh['final'] = (Dn, E)
        T = PLAN.unwrap(sol.rcpsp_schedule)
        return [('schedule so far', fa([a], z3.And(Sel(T[0], a) == Sel(lp.visited, a), z3.Implies(Sel(lp.visited, a), z3.And(Sel(T[1], a), Sel(T[3], a), Sel(T[4], a) == Sel(E, a), Sel(T[2], a) == Sel(E, a) - D_(a)))),
                                       Sel(T[0], a), Sel(T[1], a), Sel(T[2], a), Sel(T[3], a), Sel(T[4], a)))]
    c.loops.append(LoopContract(lambda lp: inside(lp) and lp.kind == 'SymDict', plan, dict(act_id=INT), modifies=lambda lp: [(sol, 'rcpsp_schedule', PLAN)], name='schedule'))
    c.prove('every activity has its mode', fa([a], z3.Implies(act(a), w.HAS(a, MO(a))), MO(a)))
    before = VEC.unwrap(perm)
    sol.generate_schedule_from_permutation_serial_sgs()
    T = PLAN.unwrap(sol.rcpsp_schedule)
    Dn, E = gh['final']
    S = lambda x: Sel(T[2], x)
    en = lambda x: Sel(T[4], x)
    c.prove('the permutation is kept', sol.rcpsp_permutation is perm and z3.And(*[p == q for p, q in zip(VEC.unwrap(perm), before)]))
    own = VEC.unwrap(sol.rcpsp_modes)
    c.prove('a mode that does not exist is replaced by mode 1', z3.And(own[0] == n, fa([j], z3.Implies(z3.And(0 <= j, j < n), Sel(own[1], j) == MO(j + 2)), Sel(own[1], j))))
    c.prove('up to date', sol._schedule_to_recompute is False)
    x, y = num(INT.fresh('activity')), num(INT.fresh('another'))
    c.prove('scheduled as computed', z3.Implies(Sel(Dn, x), z3.And(Sel(T[0], x), Sel(T[1], x), Sel(T[3], x), S(x) == Sel(E, x) - D_(x), en(x) == Sel(E, x), S(x) >= 0)))
    res, tt = z3.Const('some resource', U), z3.Int('some time')
    c.prove('a verdict', sol.rcpsp_schedule_feasible is True or sol.rcpsp_schedule_feasible is False)
    if sol.rcpsp_schedule_feasible is True:
        c.prove('every activity is scheduled', z3.Implies(act(x), z3.And(Sel(T[0], x), Sel(Dn, x))))
        c.prove('and nothing else', z3.Implies(Sel(T[0], x), act(x)))
        c.prove('resources suffice', z3.Implies(z3.And(inR(res), span(tt)), F(Dn, E, res, tt) <= w.CAP(res, tt)))
        c.prove('activities start after their predecessors', z3.Implies(PREC(x, y), S(y) >= en(x)))
        c.prove('the project ends within the horizon', z3.Implies(z3.And(act(x), D_(x) > 0), en(x) <= H))
    else:
        c.prove('a non-renewable resource is exhausted, or an activity has no room', gh['reason'])


# ------------------------------------------------------------------- solutions and their schedules
class Sched:
    """a schedule of all activities (an opaque value)"""
    __module__ = 'skdecide.stub'

    def __init__(self, t, L): self.t, self.L = t, L
    def keys(self): return SymSet(INT, self.L.A)
    def __contains__(self, k): return engine.CTX.branch(Sel(self.L.A, num(k)))

    def __getitem__(self, k):
        if not engine.CTX.branch(Sel(self.L.A, num(k))):
            raise KeyError(k)
        return dict(start_time=SymInt(self.L.START(self.t, num(k))), end_time=SymInt(self.L.END(self.t, num(k))))




class Life:
    """A problem, and the contracts of the serial scheme, of the order of a schedule and of the mean reserve (used at calls)."""
    def __init__(self, c, cls):
        self.c = c
        S = z3.DeclareSort('Schedule')
        U = OBJ.sorts()[0]
        vec = [ZI, z3.ArraySort(ZI, ZI)]
        f = lambda name, *s: z3.Function(c.fresh_name(name), *s)
        self.n = INT.fresh('n_jobs')
        n = num(self.n)
        a = I('a')
        c.assume(n >= 0)
        self.A = z3.Const(c.fresh_name('activities'), ACTS)
        c.assume(fa([a], Sel(self.A, a) == z3.And(1 <= a, a <= n + 2), Sel(self.A, a)))
        c.assume(z3.And(Sel(self.A, 1), Sel(self.A, n + 2), self.A != z3.K(ZI, z3.BoolVal(False))))
        self.S = S
        self.START, self.END = f('start', S, ZI, ZI), f('end', S, ZI, ZI)
        self.SG, self.FE = f('serial_scheme', U, *vec, *vec, S), f('feasible', U, *vec, *vec, ZB)
        self.ON, self.OA = f('order_n', S, ZI), f('order', S, z3.ArraySort(ZI, ZI))
        self.RES = f('mean_reserve', U, S, ZB, *vec, z3.RealSort())
        self.CORR = f('corrected', U, S, S)
        self.calls = []
        pb = self.pb = self.problem(cls, 'problem')
        s = z3.Const('s!k', S)
        c.assume(fa([s], self.ON(s) >= 0, self.ON(s)))

    def problem(self, cls, name):
        pb = object.__new__(cls)
        pb.n_jobs = self.n
        pb.term = z3.Const(self.c.fresh_name(name), OBJ.sorts()[0])
        if cls is rm.RCPSP_H_Model:
            pb.rcpsp_pre_helper_correction = lambda sol: Sched(self.CORR(sol.problem.term, sol.rcpsp_schedule.t), self)
        return pb

    def key(self, sol, perm=None, modes=None):
        return [sol.problem.term, *VEC.unwrap(sol.rcpsp_permutation if perm is None else perm), *VEC.unwrap(sol.rcpsp_modes if modes is None else modes)]

    def install(self):
        L = self

        def serial(sol):
            k = L.key(sol)
            sol.rcpsp_schedule, sol.rcpsp_schedule_feasible, sol._schedule_to_recompute = Sched(L.SG(*k), L), SymBool(L.FE(*k)), False

        def order(sol):
            t = sol.rcpsp_schedule.t
            return VEC.wrap([L.ON(t), L.OA(t)])
        R_ = rm.RCPSPSolution
        R_.generate_schedule_from_permutation_serial_sgs = serial
        R_.generate_permutation_from_schedule = order
        R_.compute_mean_resource_reserve = lambda sol: mk(L.RES(sol.problem.term, sol.rcpsp_schedule.t, as_formula(sol.rcpsp_schedule_feasible), *VEC.unwrap(sol.rcpsp_modes)))

    def sched(self, name): return Sched(z3.Const(self.c.fresh_name(name), self.S), self)


def life_stubs():
    undo = stubs()
    R_ = rm.RCPSPSolution
    names = ['generate_schedule_from_permutation_serial_sgs', 'generate_permutation_from_schedule', 'compute_mean_resource_reserve']
    saved, np_, tf = {k: R_.__dict__[k] for k in names}, rm.np, rm.TupleFitness

    class NP:
        __module__ = 'skdecide.stub'
        def array(self, x): return list(x)
        def __getattr__(self, k): raise Unsupported('np.' + k)

    class Fit:
        __module__ = 'skdecide.stub'
        def __init__(self, vector_fitness, size): self.vector, self.size = vector_fitness, size
    rm.np, rm.TupleFitness = NP(), Fit

    def back():
        for k, v in saved.items():
            setattr(R_, k, v)
        rm.np, rm.TupleFitness = np_, tf
        undo()
    return back


R_SOL = R + 'RCPSPSolution.'
same = lambda x, y: z3.And(*[p == q for p, q in zip(x, y)])


@contract('a solution has the schedule of its permutation and modes', R_SOL + '__init__', R_SOL + '__setattr__', setup=life_stubs)
def _(c):
    cls = c.case('model', [rm.SingleModeRCPSPModel, rm.MultiModeRCPSPModel, rm.RCPSPModelCalendar, rm.Aggreg_RCPSPModel, rm.RCPSP_H_Model])
    L = Life(c, cls)
    L.install()
    multi = cls is rm.MultiModeRCPSPModel or cls is rm.RCPSPModelCalendar and c.case('multi-mode', [False, True])
    L.pb.is_rcpsp_multimode = lambda: multi
    fp, fm = VEC.fresh('fixed_permutation'), VEC.fresh('fixed_modes')
    L.pb.fixed_permutation, L.pb.fixed_modes = fp, fm
    given = c.case('schedule', ['given', 'computed'])
    has_perm = c.case('permutation', [True, False]) if given == 'given' or cls is rm.MultiModeRCPSPModel else True
    perm = VEC.fresh('permutation') if has_perm else None
    modes = VEC.fresh('modes') if c.case('modes', [True, False]) else None
    std = VEC.fresh('standardised') if c.case('standardised', [True, False]) else None
    sch = L.sched('given') if given == 'given' else None
    flag = c.case('flag', [None, True, False]) if sch is not None else None
    vals = {k: VEC.unwrap(v) for k, v in dict(perm=perm, modes=modes, std=std, fp=fp, fm=fm).items() if v is not None}
    s = rm.RCPSPSolution(problem=L.pb, rcpsp_permutation=perm, rcpsp_schedule=sch, rcpsp_modes=modes, rcpsp_schedule_feasible=flag, standardised_permutation=std)
    c.prove('its problem', s.problem is L.pb)
    for k, v in dict(perm=perm, modes=modes, std=std, fp=fp, fm=fm).items():
        if v is not None:
            c.prove('arguments are left alone', same(VEC.unwrap(v), vals[k]))
    j = I('j')
    if modes is not None:
        c.prove('the modes given', same(VEC.unwrap(s.rcpsp_modes), vals['modes']))
    elif multi:
        c.prove('the fixed modes of the problem', same(VEC.unwrap(s.rcpsp_modes), vals['fm']))
    else:
        m = VEC.unwrap(s.rcpsp_modes)
        c.prove('mode 1 for each activity', z3.And(m[0] == num(L.n), fa([j], z3.Implies(z3.And(0 <= j, j < m[0]), Sel(m[1], j) == 1), Sel(m[1], j))))
    own = VEC.unwrap(s.rcpsp_permutation)
    if perm is not None:
        c.prove('the permutation given', same(own, vals['perm']))
    elif sch is not None:
        c.prove('the order of the schedule given', same(own, [L.ON(sch.t), L.OA(sch.t)]))
        c.prove('an own permutation', s.rcpsp_permutation is not s.standardised_permutation)
    else:
        c.prove('the fixed permutation of the problem', same(own, vals['fp']))
    if sch is not None:
        c.prove('the schedule given is kept', s.rcpsp_schedule is sch and s.rcpsp_schedule_feasible is flag)
        c.prove('and stays until something changes', s._schedule_to_recompute is False)
    elif cls is rm.Aggreg_RCPSPModel:
        c.prove('the schedule is left to the problems aggregated', s.rcpsp_schedule is None and s._schedule_to_recompute is True)
    else:
        t = L.SG(*L.key(s))
        c.prove('the schedule of its permutation and modes', s.rcpsp_schedule.t == (L.CORR(L.pb.term, t) if cls is rm.RCPSP_H_Model else t))
        c.prove('its verdict', as_formula(s.rcpsp_schedule_feasible) == L.FE(*L.key(s)))
        c.prove('up to date', s._schedule_to_recompute is False)
    if perm is None and sch is not None:
        c.prove('standardised', same(VEC.unwrap(s.standardised_permutation), [L.ON(sch.t), L.OA(sch.t)]))
    elif std is not None:
        c.prove('standardised', same(VEC.unwrap(s.standardised_permutation), vals['std']))
    elif cls is not rm.Aggreg_RCPSPModel:
        t = s.rcpsp_schedule.t
        c.prove('standardised', same(VEC.unwrap(s.standardised_permutation), [L.ON(t), L.OA(t)]))


@contract('changes, copies and evaluation', R_SOL + '__setattr__', R_SOL + 'copy', R_SOL + 'lazy_copy', R_SOL + 'change_problem',
          R + 'RCPSPModel.evaluate_function', R + 'RCPSPModel.evaluate', R + 'RCPSPModel.evaluate_mobj', R + 'RCPSPModel.evaluate_mobj_from_dict', setup=life_stubs)
def _(c):
    cls = c.case('model', [rm.SingleModeRCPSPModel, rm.MultiModeRCPSPModel])
    L = Life(c, cls)
    L.install()
    L.pb.is_rcpsp_multimode = lambda: cls is rm.MultiModeRCPSPModel
    # any solution whose schedule is that of its permutation and modes, unless it is stale
    s = object.__new__(rm.RCPSPSolution)
    perm, modes, std = VEC.fresh('permutation'), VEC.fresh('modes'), VEC.fresh('standardised')
    sch, stale, feas = L.sched('schedule'), BOOL.fresh('stale'), BOOL.fresh('feasible')
    s.__dict__.update(problem=L.pb, rcpsp_permutation=perm, rcpsp_modes=modes, standardised_permutation=std, rcpsp_schedule=sch,
                      rcpsp_schedule_feasible=feas, _schedule_to_recompute=stale)

    def current(x, p=None, m=None):
        k = L.key(x, p, m)
        return z3.Or(as_formula(x._schedule_to_recompute), z3.And(x.rcpsp_schedule.t == L.SG(*k), as_formula(x.rcpsp_schedule_feasible) == L.FE(*k)))
    c.assume(current(s))
    p0, m0, s0 = VEC.unwrap(perm), VEC.unwrap(modes), VEC.unwrap(std)
    new = VEC.fresh('new')
    what = c.case('what', ['permutation', 'modes', 'other', 'copy', 'lazy copy', 'problem', 'evaluate', 'evaluate_mobj', 'evaluate_function'])
    if what in ('permutation', 'modes'):
        n0 = VEC.unwrap(new)
        setattr(s, 'rcpsp_' + what, new)
        c.prove('set', getattr(s, 'rcpsp_' + what) is new and same(VEC.unwrap(new), n0))
        c.prove('the other is kept', s.rcpsp_modes is modes if what == 'permutation' else s.rcpsp_permutation is perm)
        c.prove('stale after a change', current(s))
    elif what == 'other':
        s.rcpsp_schedule_feasible = feas
        s.standardised_permutation = std
        c.prove('other attributes change nothing', current(s))
    elif what in ('copy', 'lazy copy'):
        d = s.copy() if what == 'copy' else s.lazy_copy()
        c.prove('a new solution of the same problem', d is not s and type(d) is rm.RCPSPSolution and d.problem is L.pb)
        c.prove('the same permutation and modes', z3.And(same(VEC.unwrap(d.rcpsp_permutation), p0), same(VEC.unwrap(d.rcpsp_modes), m0), same(VEC.unwrap(d.standardised_permutation), s0)))
        c.prove('the copy is current too', current(d))
        c.prove('the original is left alone', s.rcpsp_permutation is perm and s.rcpsp_modes is modes and s.rcpsp_schedule is sch)
        c.prove('the original is current', z3.And(same(VEC.unwrap(perm), p0), same(VEC.unwrap(modes), m0), current(s)))
        if what == 'copy':
            c.prove('nothing to change is shared', d.rcpsp_permutation is not perm and d.rcpsp_modes is not modes)
    elif what == 'problem':
        q = L.problem(cls, 'another problem')
        q.is_rcpsp_multimode = L.pb.is_rcpsp_multimode
        s.change_problem(q)
        c.prove('the new problem', s.problem is q)
        c.prove('permutation and modes are kept', z3.And(same(VEC.unwrap(s.rcpsp_permutation), p0), same(VEC.unwrap(s.rcpsp_modes), m0)))
        c.prove('the schedule in the new problem', z3.And(s.rcpsp_schedule.t == L.SG(*L.key(s)), as_formula(s.rcpsp_schedule_feasible) == L.FE(*L.key(s)), z3.Not(as_formula(s._schedule_to_recompute))))
    else:
        got = getattr(L.pb, what)(s)
        t = L.SG(*L.key(s, perm, modes))
        mk_, res = L.END(t, num(L.n) + 2), L.RES(L.pb.term, t, L.FE(*L.key(s, perm, modes)), *m0)
        if what == 'evaluate':
            c.prove('both objectives', type(got) is dict and set(got) == {'makespan', 'mean_resource_reserve'})
            mo, re = got['makespan'], got['mean_resource_reserve']
        elif what == 'evaluate_mobj':
            c.prove('two objectives', len(got.vector) == 2 and got.size == 2)
            mo, re = -got.vector[0], got.vector[1]
        else:
            mo, re = got
        c.prove('the end of the last activity of the current schedule', num(mo) == mk_)
        c.prove('the mean reserve of the current schedule', num(re) == res)
        c.prove('permutation and modes are kept', z3.And(same(VEC.unwrap(s.rcpsp_permutation), p0), same(VEC.unwrap(s.rcpsp_modes), m0)))
        c.prove('current', z3.And(s.rcpsp_schedule.t == t, current(s)))


@contract('evaluation of an encoding', R + 'SingleModeRCPSPModel.evaluate_from_encoding', R + 'MultiModeRCPSPModel.evaluate_from_encoding', R + 'RCPSPModelCalendar.evaluate_from_encoding',
          R + 'RCPSPModel.get_dummy_solution', R + 'MultiModeRCPSPModel.set_fixed_modes', R + 'MultiModeRCPSPModel.set_fixed_permutation', setup=life_stubs)
def _(c):
    cls = c.case('model', [rm.SingleModeRCPSPModel, rm.MultiModeRCPSPModel, rm.RCPSPModelCalendar])
    L = Life(c, cls)
    L.install()
    multi = cls is rm.MultiModeRCPSPModel
    L.pb.is_rcpsp_multimode = lambda: multi
    vec, fp, fm = VEC.fresh('vector'), VEC.fresh('fixed_permutation'), VEC.fresh('fixed_modes')
    v0, p0, m0 = VEC.unwrap(vec), VEC.unwrap(fp), VEC.unwrap(fm)
    if multi:
        L.pb.set_fixed_permutation(fp)
        L.pb.set_fixed_modes(fm)
        c.prove('the fixed encoding', L.pb.fixed_permutation is fp and L.pb.fixed_modes is fm)
    seen = []
    L.pb.evaluate = lambda sol: seen.append(sol) or dict(value=len(seen))
    what = c.case('what', ['rcpsp_permutation', 'rcpsp_modes', 'dummy'] if multi else ['rcpsp_permutation', 'dummy'])
    got = L.pb.get_dummy_solution() if what == 'dummy' else L.pb.evaluate_from_encoding(vec, what)
    if what != 'dummy':
        c.prove('one solution is evaluated', len(seen) == 1 and got == dict(value=1))
    s = got if what == 'dummy' else seen[0]
    c.prove('of this problem', s.problem is L.pb)
    p, m = VEC.unwrap(s.rcpsp_permutation), VEC.unwrap(s.rcpsp_modes)
    j, n = I('j'), num(L.n)
    ones = z3.And(m[0] == n, fa([j], z3.Implies(z3.And(0 <= j, j < n), Sel(m[1], j) == 1), Sel(m[1], j)))
    if what == 'rcpsp_permutation':
        c.prove('the permutation given', same(p, v0))
        c.prove('its modes', same(m, m0) if multi else ones)
    elif what == 'dummy':
        c.prove('activities in order', z3.And(p[0] == n, fa([j], z3.Implies(z3.And(0 <= j, j < n), Sel(p[1], j) == j), Sel(p[1], j))))
        c.prove('its modes', ones)
    else:
        c.prove('the fixed permutation', same(p, p0))
        c.prove('the modes given, counted from 1', z3.And(m[0] == v0[0], fa([j], z3.Implies(z3.And(0 <= j, j < v0[0]), Sel(m[1], j) == Sel(v0[1], j) + 1), Sel(m[1], j))))
    c.prove('vectors are kept', z3.And(same(VEC.unwrap(vec), v0), same(VEC.unwrap(fp), p0), same(VEC.unwrap(fm), m0)))
    c.prove('its schedule', z3.And(s.rcpsp_schedule.t == L.SG(*L.key(s)), as_formula(s.rcpsp_schedule_feasible) == L.FE(*L.key(s)), z3.Not(as_formula(s._schedule_to_recompute))))


@contract('order of a schedule', R_SOL + 'generate_permutation_from_schedule', setup=stubs)
def _(c):
    n = num(INT.fresh('n_jobs'))
    c.assume(n >= 1)
    a, j, k = I('a'), I('j'), I('k')
    A = z3.Const(c.fresh_name('activities'), ACTS)
    isact = lambda x: z3.And(1 <= x, x <= n + 2)
    c.assume(fa([a], Sel(A, a) == isact(a), Sel(A, a)))
    c.assume(z3.And(Sel(A, 1), Sel(A, n + 2), A != z3.K(ZI, z3.BoolVal(False))))
    S = z3.Function(c.fresh_name('start'), ZI, ZI)
    s = object.__new__(rm.RCPSPSolution)
    s.__dict__['rcpsp_schedule'] = SymDict(DictTy(INT, RecTy(lambda x: dict(start_time=x, end_time=x), [(lambda o: o['start_time'], INT)])), [A, z3.Lambda([a], S(a))])
    got = s.generate_permutation_from_schedule()
    g = VEC.unwrap(got)
    c.prove('a permutation of the activities', fa([j], z3.Implies(z3.And(0 <= j, j < g[0]), z3.And(0 <= Sel(g[1], j), Sel(g[1], j) < n)), Sel(g[1], j)))
    c.prove('in the order of their start', fa([j, k], z3.Implies(z3.And(0 <= j, j < k, k < g[0]), S(Sel(g[1], j) + 2) <= S(Sel(g[1], k) + 2)), (Sel(g[1], j), Sel(g[1], k))))
    c.prove('each of them once', z3.And(g[0] == num(card(A)) - 2, fa([j, k], z3.Implies(z3.And(0 <= j, j < k, k < g[0]), Sel(g[1], j) != Sel(g[1], k)), (Sel(g[1], j), Sel(g[1], k)))))


@contract('several modes', R + 'RCPSPModel.is_rcpsp_multimode', setup=stubs)
def _(c):
    w = World(c, rm.RCPSPModel, False)
    c.assume(z3.And(w.A != z3.K(ZI, z3.BoolVal(False)), Sel(w.A, 1)))
    a = I('a')
    got = w.pb.is_rcpsp_multimode()
    c.prove('a verdict', got is True or got is False)
    sized = lambda x: num(card(w.MODES(x)))
    if got is False:
        c.prove('no activity has several modes', fa([a], z3.Implies(w.isact(a), sized(a) <= 1)))
    else:
        c.prove('some activity has several modes', z3.Exists([a], z3.And(w.isact(a), sized(a) > 1)))


# ------------------------------------------------------------------- the mean reserve


@contract('mean resource reserve', R_SOL + 'compute_mean_resource_reserve', setup=full_stub)
def _(c):
    w = World(c, rm.RCPSPModel, False)
    n, U, r = num(w.n), w.U, w.r
    a, t, j = I('a'), I('t'), I('j')
    inR = lambda x: Sel(w.R, x)
    none = z3.K(ZI, z3.BoolVal(False))
    c.assume(z3.And(w.A != none, Sel(w.A, 1), Sel(w.A, n + 2)))
    NRS = z3.Const(c.fresh_name('exhaustible'), z3.ArraySort(U, ZB))
    w.pb.non_renewable_resources = Within(lambda x: Sel(NRS, x))
    c.assume(fa([r], z3.Implies(inR(r), z3.And(w.CAP(r, 0) > 0, z3.Not(Sel(NRS, r)))), Sel(NRS, r), w.CAP(r, 0)))
    S, E = [z3.Function(c.fresh_name(k), ZI, ZI) for k in ('start', 'end')]
    mk_ = E(n + 2)
    c.assume(mk_ > 0)
    c.assume(fa([a], z3.Implies(w.isact(a), z3.And(0 <= S(a), S(a) <= E(a), E(a) <= mk_)), S(a)))
    modes = VEC.fresh('modes')
    c.assume(modes.n == n)
    c.assume(fa([j], z3.Implies(z3.And(0 <= j, j < n), w.HAS(j + 2, Sel(modes.arrays[1], j))), Sel(modes.arrays[1], j)))
    MO = lambda x: Sel(modes.arrays[1], x - 2)
    s = object.__new__(rm.RCPSPSolution)
    flag = c.case('flag', [True, False])
    s.__dict__.update(problem=w.pb, rcpsp_modes=modes, rcpsp_schedule_feasible=flag,
                      rcpsp_schedule=Map(lambda: SymSet(INT, w.A), lambda k: dict(start_time=SymInt(S(num(k))), end_time=SymInt(E(num(k)))), lambda k: Sel(w.A, num(k))))
    # what the activities counted so far use (the dummies use nothing)
    F = z3.Function(c.fresh_name('usage'), ACTS, ZI, U, ZI)
    c.assume(fa([t, r], F(none, t, r) == 0, F(none, t, r)))
    real = lambda x: z3.And(x != 1, x != n + 2)
    use = lambda x, tt, res: z3.If(z3.And(real(x), S(x) <= tt, tt < E(x)), w.REQ(x, MO(x), res), 0)
    gh = {}
    inside = lambda lp: lp.fn().endswith('compute_mean_resource_reserve')

    class Av:
        def __init__(self, v): self.has_, self.n, self.a = AVAIL.unwrap(v)
        def has(self, x): return Sel(self.has_, x)
        def at(self, x, tt): return Sel(Sel(self.a, x), tt)
        def shape(self): return fa([r], z3.And(self.has(r) == inR(r), z3.Implies(inR(r), Sel(self.n, r) == mk_)), self.has(r), Sel(self.n, r), inR(r))
    AV = lambda lp: Av(lp.locals['resource_avail_in_time'])
    span = lambda tt: z3.And(0 <= tt, tt < mk_)

    def init(lp):
        A = AV(lp)
        return [('resources so far', fa([r], z3.And(A.has(r) == Sel(lp.visited, r), z3.Implies(Sel(lp.visited, r), Sel(A.n, r) == mk_)), A.has(r), Sel(A.n, r))),
                ('amounts so far', fa([r, t], z3.Implies(z3.And(Sel(lp.visited, r), span(t)), A.at(r, t) == w.CAP(r, 0)), A.at(r, t)))]
    # loops are told apart by what they run over and what they change
    c.loops.append(LoopContract(lambda lp: inside(lp) and lp.kind == 'SymSet' and lp.k == U and 'resource_avail_in_time' in lp.mut, init, dict(resource_avail_in_time=AVAIL), name='capacities'))

    def acts(lp):
        A = AV(lp)
        gh.pop('act', None)
        if lp.phase == 'assume' and lp.mode == 0:
            gh['act'], gh['V'] = lp.x, lp.visited
            nxt = Sto(lp.visited, lp.x, True)
            c.assume(fa([t, r], F(nxt, t, r) == F(lp.visited, t, r) + use(lp.x, t, r), F(nxt, t, r), F(lp.visited, t, r)))
        if lp.phase == 'assume' and lp.mode == 1:
            gh['free'] = A
        return [('resources', A.shape()),
                ('left so far', fa([r, t], z3.Implies(z3.And(inR(r), span(t)), A.at(r, t) == w.CAP(r, 0) - F(lp.visited, t, r)), A.at(r, t)))]
    c.loops.append(LoopContract(lambda lp: inside(lp) and lp.kind == 'SymSet' and lp.k == ZI and 'resource_avail_in_time' in lp.mut, acts, dict(resource_avail_in_time=AVAIL), name='activities'))

    def times(lp):
        A, x = AV(lp), gh['act']
        gh['i'] = S(x) + lp.i
        return [('resources', A.shape()),
                ('left so far', fa([r, t], z3.Implies(z3.And(inR(r), span(t)), A.at(r, t) == w.CAP(r, 0) - F(gh['V'], t, r) - z3.If(t < S(x) + lp.i, use(x, t, r), 0)), A.at(r, t)))]
    c.loops.append(LoopContract(lambda lp: inside(lp) and lp.kind == 'SymSeq' and 'resource_avail_in_time' in lp.mut and 'act' in gh, times, dict(resource_avail_in_time=AVAIL), name='times'))

    def ress(lp):
        A, x, now = AV(lp), gh['act'], gh['i']
        return [('resources', A.shape()),
                ('left so far', fa([r, t], z3.Implies(z3.And(inR(r), span(t)), A.at(r, t) == w.CAP(r, 0) - F(gh['V'], t, r)
                                                      - z3.If(z3.Or(t < now, z3.And(t == now, Sel(lp.visited, r))), use(x, t, r), 0)), A.at(r, t)))]
    c.loops.append(LoopContract(lambda lp: inside(lp) and lp.kind in ('SymDict', 'Symkeys') and 'resource_avail_in_time' in lp.mut, ress, dict(resource_avail_in_time=AVAIL), name='resources of an activity'))
    # means: of the amounts of a resource over time, and of shares over the resources
    REAL_ = z3.RealSort()
    MEAN = z3.Function(c.fresh_name('mean over time'), U, REAL_)

    def mean(x):
        if type(x) is SymSeq:
            res = gh['res']
            A = gh['free']
            c.prove('over the whole project', x.n == mk_)
            c.prove('what is left of the resource', fa([t], z3.Implies(span(t), num(x.elem(t)) == w.CAP(res, 0) - F(w.A, t, res))))
            return SymReal(MEAN(res))
        q = z3.Const('a resource', U)
        c.prove('over all resources', x.dom == w.R)
        c.assume(inR(q))
        c.prove('its share', num(x.at(q)) == MEAN(q) / z3.ToReal(w.CAP(q, 0)))
        gh['called'] = True
        return 'the mean share'
    rm.np.mean = mean

    def means(lp):
        if lp.phase == 'assume' and lp.mode == 0:
            gh['res'] = lp.x
        h, v = DictTy(OBJ, REAL).unwrap(lp.locals['mean_avail'])
        return [('means so far', fa([r], z3.And(Sel(h, r) == Sel(lp.visited, r), z3.Implies(Sel(lp.visited, r), Sel(v, r) == MEAN(r))), Sel(h, r), Sel(v, r)))]
    c.loops.append(LoopContract(lambda lp: inside(lp) and lp.kind == 'SymSet' and lp.k == U and 'mean_avail' in lp.mut, means, dict(mean_avail=DictTy(OBJ, REAL)), name='means'))
    got = s.compute_mean_resource_reserve()
    if not flag:
        c.prove('zero if infeasible', got == 0)
    else:
        c.prove('the mean share', got == 'the mean share' and gh.get('called') is True)


# ------------------------------------------------------------------- aggregated projects
OBJECTIVES = RecTy(lambda m, v: dict(makespan=m, mean_resource_reserve=v), [(lambda d: d['makespan'], INT), (lambda d: d['mean_resource_reserve'], REAL)])


@contract('aggregated projects', R + 'Aggreg_RCPSPModel.evaluate', R + 'Aggreg_RCPSPModel.evaluate_from_encoding', R + 'Aggreg_RCPSPModel.get_dummy_solution', setup=life_stubs)
def _(c):
    L = Life(c, rm.Aggreg_RCPSPModel)
    L.install()
    ag = L.pb
    ag.is_rcpsp_multimode = lambda: False
    NP_ = SymInt(z3.Int(c.fresh_name('problems')))
    N = num(NP_)
    c.assume(N >= 1)
    MK, RE = func('makespan', INT, ret=INT), func('reserve', INT, ret=REAL)
    what = c.case('what', ['solution', 'permutation', 'dummy'])
    perm, modes = VEC.fresh('permutation'), VEC.fresh('modes')
    p0, m0 = VEC.unwrap(perm), VEC.unwrap(modes)

    class Pb:
        __module__ = 'skdecide.stub'
        def __init__(self, k): self.k = k

        def evaluate(self, v):
            engine.CTX.prove('evaluated on a copy of its own', v is not s and type(v) is rm.RCPSPSolution)
            engine.CTX.prove('in the project', type(v.problem) is Pb and SymBool(num(v.problem.k) == num(self.k)))
            engine.CTX.prove('with the same permutation and modes', z3.And(same(VEC.unwrap(v.rcpsp_permutation), p0), same(VEC.unwrap(v.rcpsp_modes), m0)))
            engine.CTX.prove('with a schedule of its own', v._schedule_to_recompute is True)
            return dict(makespan=MK(self.k), mean_resource_reserve=RE(self.k))

        def evaluate_from_encoding(self, vec, name):
            engine.CTX.prove('the encoding given', vec is perm and name == 'rcpsp_permutation')
            return dict(makespan=MK(self.k), mean_resource_reserve=RE(self.k))

        def get_dummy_solution(self):
            d = object.__new__(rm.RCPSPSolution)
            d.__dict__.update(problem=self, _schedule_to_recompute=False)
            return d
    pbs = SymSeq(N, lambda j: Pb(SymInt(j)), None)
    pbs.V = inst_ty(Pb(INT.fresh('k')))
    ag.list_problem, ag.nb_problem = pbs, NP_
    calls = []

    def agg(v):
        calls.append((to_seq(v), REAL.fresh('aggregated')))
        return calls[-1][1]
    ag.agg_vec = agg
    rm.np.array = lambda x: x
    if what == 'dummy':
        d = ag.get_dummy_solution()
        c.prove('the dummy of the first project, to be evaluated anew', And(type(d.problem) is Pb, num(d.problem.k) == 0))
        c.prove('stale', d._schedule_to_recompute is True)
        return
    s = object.__new__(rm.RCPSPSolution)
    s.__dict__.update(problem=ag, rcpsp_permutation=perm, rcpsp_modes=modes, standardised_permutation=None, rcpsp_schedule=None if c.case('schedule', [False, True]) else L.sched('schedule'),
                      rcpsp_schedule_feasible=None, _schedule_to_recompute=BOOL.fresh('stale'))
    j = I('j')

    def each(lp):
        t = SeqTy(OBJECTIVES).unwrap(lp.locals['fits'])
        return [('one per project', t[0] == lp.i),
                ('objectives so far', fa([j], z3.Implies(z3.And(0 <= j, j < lp.i), z3.And(Sel(t[1], j) == MK.decls[0](j), Sel(t[2], j) == RE.decls[0](j))), Sel(t[1], j), Sel(t[2], j)))]
    c.loops.append(LoopContract(lambda lp: lp.fn().endswith('.evaluate') and lp.kind == 'SymSeq', each, dict(fits=SeqTy(OBJECTIVES), i=INT), name='projects'))
    got = ag.evaluate(s) if what == 'solution' else ag.evaluate_from_encoding(perm, 'rcpsp_permutation')
    c.prove('both objectives', set(got) == {'makespan', 'mean_resource_reserve'} and len(calls) == 2)
    for k, F_ in (('makespan', MK), ('mean_resource_reserve', RE)):
        v = [x for x, y in calls if y is got[k]]
        c.prove('aggregated over all projects', len(v) == 1 and z3.And(v[0].n == N, fa([j], z3.Implies(z3.And(0 <= j, j < N), num(v[0].elem(j)) == F_.decls[0](j)))))
    c.prove('the solution is kept', s.problem is ag and s.rcpsp_permutation is perm and s.rcpsp_modes is modes and same(VEC.unwrap(perm), p0))
