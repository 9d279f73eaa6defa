"""Scheduling policies: which task each rule starts."""
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
from contracts.C30 import RecordTy
from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingActionEnum as A
import skdecide.hub.solver.sgs_policies.sgs_policies as sg
import skdecide.hub.solver.pile_policy.pile_policy as pp

CONTRACTS = contract = Registry()
MBQI, FEAS_MS, TIMEOUT_MS = False, 500, 8000
S, P = 'skdecide.hub.solver.sgs_policies.sgs_policies:', 'skdecide.hub.solver.pile_policy.pile_policy:PilePolicy.'
ASSUMPTIONS = ['the permutation lists distinct tasks; the plan and the mode table cover the tasks they are asked for',
               'task_possible_to_launch_precedence and check_if_action_can_be_started are arbitrary functions of the state and the action (what they compute is C17 and C18)',
               'sorted() is a permutation ordered by the key; max() and min() return an extreme element; numpy and random choices return an element with positive probability',
               'descendants and ancestors of networkx are arbitrary']
Sel = z3.Select
I = lambda n: z3.Int(n + '!k')
ZI, ZB = z3.IntSort(), z3.BoolSort()
VEC = SeqTy(INT)
rng = lambda j, n: z3.And(0 <= j, j < n)


class Stub:
    __module__ = 'skdecide.stub'
    def __init__(self, **kw): self.__dict__.update(kw)


PLAN = DictTy(INT, RecordTy(start_time=INT))


class Pb:
    """An arbitrary state, domain and policy."""
    def __init__(self, c, rule=None):
        self.c = c
        self.can = z3.Function(c.fresh_name('can'), ZI, ZB)        # may task t be started, in its planned mode with its planned units
        self.mode, self.units = DictTy(INT, INT).fresh('mode'), DictTy(INT, OBJ).fresh('units')
        self.remaining, self.possible = SetTy(INT).fresh('remaining'), SetTy(INT).fresh('possible')
        self.ongoing, self.complete = SetTy(INT).fresh('ongoing'), SetTy(INT).fresh('complete')
        self.now = INT.fresh('t')
        self.state = Stub(t=self.now, tasks_remaining=self.remaining, tasks_ongoing=self.ongoing, tasks_complete=self.complete)
        self.perm, self.pos = VEC.fresh('permutation'), z3.Function(c.fresh_name('pos'), ZI, ZI)
        x, n = self.perm.arrays[1], self.perm.n
        j, t = I('j'), I('t')
        c.assume(fa([j], z3.Implies(rng(j, n), self.pos(Sel(x, j)) == j), Sel(x, j)))
        c.assume(fa([t], Sel(self.mode.terms[0], t), Sel(self.mode.terms[0], t)))
        self.allocated = c.case('units', ['planned', 'not planned']) == 'planned'
        self.x, self.n = x, n
        self.tasks = self.possible

    def planned_units(self, t):
        return self.units.at(num(t)) if self.allocated and self.c.branch(self.units.has(t)) else None

    # ---- the domain
    def task_possible_to_launch_precedence(self, state):
        self.c.prove('asks about the given state', state is self.state)
        return self.tasks

    def check_if_action_can_be_started(self, state, action):
        c = self.c
        c.prove('asks about the given state', state is self.state)
        if action.action is not A.START:
            return (True, {})
        c.prove('asks about a start in the planned mode with the planned units', self.planned(action))
        return (SymBool(self.can(num(action.task))), {})

    def planned(self, a):
        u = self.planned_units(a.task)
        return And(a.mode == self.mode.at(num(a.task)), (a.resource_unit_names is None) if u is None else
                   False if a.resource_unit_names is None else lift(a.resource_unit_names) == lift(u))

    # ---- the policy
    def policy(self, rule, delta_time=10, delta_index=10):
        params = sg.PolicyMethodParams(rule, delta_time_freedom=delta_time, delta_index_freedom=delta_index)
        return sg.PolicyRCPSP(self, params, self.perm, self.mode, None, self.units if self.allocated else None)

    def good(self, j):
        t = Sel(self.x, j)
        return z3.And(rng(j, self.n), Sel(self.remaining.t, t), Sel(self.possible.t, t))

    def waits(self, a):
        return a.action is A.TIME_PR and a.time_progress is True and a.task is None and a.resource_unit_names is None

    def starts(self, a):
        return a.action is A.START and a.time_progress is False


@contract('rules that start the first startable candidate', *[S + f for f in (
    'next_action_sgs_first_task_precedence_ready', 'next_action_sgs_first_task_ready', 'next_action_sgs_strict', 'next_action_sgs_time_freedom', 'next_action_sgs_index_freedom',
    'action_in_applicable_actions', 'PolicyRCPSP.build_function', 'PolicyRCPSP._get_next_action')])
def _(c):
    rule = c.case('rule', ['ready', 'precedence', 'strict', 'time freedom', 'index freedom'])
    pb = Pb(c)
    j, k = I('j'), I('k')
    x, n = pb.x, pb.n
    plan = PLAN.fresh('plan')
    c.assume(fa([j], Sel(plan.terms[0], j), Sel(plan.terms[0], j)))
    withplan = rule in ('precedence', 'strict', 'time freedom') and c.case('plan', ['given', 'none']) == 'given'
    start = lambda t: Sel(plan.terms[1], t)
    delta, other = INT.fresh('delta'), INT.fresh('unused_delta')
    c.assume(num(delta) >= 0)
    R = sg.BasePolicyMethod
    pol = pb.policy({'ready': R.SGS_READY, 'precedence': R.SGS_PRECEDENCE, 'strict': R.SGS_STRICT, 'time freedom': R.SGS_TIME_FREEDOM, 'index freedom': R.SGS_INDEX_FREEDOM}[rule],
                    *((other, delta) if rule == 'index freedom' else (delta, other)))
    if withplan:
        pol.schedule = plan                          # store_start_date is not used by these rules
    i0 = z3.Int(c.fresh_name('first'))
    c.assume(z3.Or(z3.And(pb.good(i0), fa([j], z3.Implies(pb.good(j), i0 <= j), Sel(x, j))), z3.And(i0 == n, fa([j], z3.Not(pb.good(j)), Sel(x, j)))))
    t0 = Sel(x, i0)
    if rule == 'ready':
        cand = lambda j: z3.BoolVal(True)
    elif rule == 'index freedom':
        cand = lambda j: j <= i0 + num(delta)
    elif not withplan:
        cand = lambda j: j == i0
    elif rule == 'time freedom':
        cand = lambda j: z3.And(start(t0) <= start(Sel(x, j)), start(Sel(x, j)) <= start(t0) + num(delta))
    else:
        cand = lambda j: start(Sel(x, j)) == start(t0)
    elem = lambda e: num(e[1] if isinstance(e, tuple) else e)

    def search(lp):                                  # looks for the first task that is possible
        if lp.phase == 'establish':
            return []
        seq = lp.locals['sorted_task_not_done']
        t = elem(seq.elem(k))
        return [('none of the earlier tasks is possible', fa([k], z3.Implies(rng(k, lp.i), z3.Not(Sel(pb.possible.t, t))), *engine._direct(t, k)[:1]))]

    def offers(lp):
        if lp.phase == 'establish':
            return []
        seq = lp.locals['sorted_task_not_done'] if rule == 'ready' else lp.seq
        t = elem(seq.elem(k))
        bad = z3.Not(pb.can(t))
        if rule == 'ready':
            bad = z3.Implies(Sel(pb.possible.t, t), bad)
        return [('none of the earlier candidates can be started', fa([k], z3.Implies(rng(k, lp.i), bad), *engine._direct(t, k)[:1]))]
    NONE = ConstTy(None)
    if rule == 'precedence':
        c.loops.append(LoopContract(lambda lp: lp.lid.startswith(S) and 'next_task_to_launch' in lp.bound, search, name='search', types=dict(task=INT, next_task_to_launch=NONE)))
    c.loops.append(LoopContract(lambda lp: lp.lid.startswith(S), offers, name='candidates', types=dict(task=INT, tinterest=INT, the_action=NONE, applicable=NONE, action_available=NONE)))
    a = pol._get_next_action(pb.state)
    if a.action is A.START:
        t = num(a.task)
        i = pb.pos(t)
        c.prove('a remaining task of the permutation whose predecessors are complete', z3.And(pb.good(i), Sel(x, i) == t))
        c.prove('a task the rule considers', cand(i))
        c.prove('the domain accepts the start', pb.can(t))
        c.prove('a start in the planned mode with the planned units', And(pb.starts(a), pb.planned(a)))
        c.prove('no earlier candidate can be started', fa([j], z3.Implies(z3.And(pb.good(j), cand(j), j < i), z3.Not(pb.can(Sel(x, j)))), Sel(x, j)))
    else:
        c.prove('otherwise time progresses', pb.waits(a))
        c.prove('time progresses only if no candidate can be started', fa([j], z3.Implies(z3.And(pb.good(j), cand(j)), z3.Not(pb.can(Sel(x, j)))), Sel(x, j)))
    c.prove('the permutation is not changed', pol.permutation_task is pb.perm and pb.perm.arrays[1] is x)


DATES = DictTy(INT, SetTy(INT))


@contract('starting dates of the plan', S + 'PolicyRCPSP.__init__', S + 'PolicyMethodParams.__init__')
def _(c):
    pb = Pb(c)
    plan = PLAN.fresh('plan')
    t, d = I('t'), I('d')
    at = lambda s, d, t: z3.And(Sel(s[0], d), Sel(Sel(s[1], d), t))

    def dates(store, done):
        s = DATES.unwrap(store)
        return fa([t, d], at(s, d, t) == z3.And(Sel(done, t), Sel(plan.terms[1], t) == d), Sel(Sel(s[1], d), t), (Sel(s[0], d), Sel(plan.terms[1], t)))

    def inv(lp):
        pol = lp.locals['self']
        if lp.phase == 'establish' and type(pol.store_start_date) is dict:
            pol.store_start_date = DATES.wrap(DATES.empty())
        return [('dates of the tasks seen so far', dates(pol.store_start_date, lp.visited))]
    c.loops.append(LoopContract(lambda lp: lp.lid.startswith(S), inv, name='plan', types=dict(start_date=INT),
                                modifies=lambda lp: [(lp.locals['self'], 'store_start_date', DATES)]))
    R = sg.BasePolicyMethod
    rule = c.case('rule', list(R)[:6])
    given = c.case('schedule', ['given', 'none']) == 'given'
    pol = sg.PolicyRCPSP(pb, sg.PolicyMethodParams(rule, INT.fresh('dt'), INT.fresh('di')), pb.perm, pb.mode, plan if given else None, pb.units if pb.allocated else None)
    if given:
        c.prove('each task is listed at its planned start, and only there', dates(pol.store_start_date, plan.terms[0]))
    else:
        c.prove('no date without a plan', not pol.store_start_date)
    c.prove('the data of the policy', pol.domain is pb and pol.permutation_task is pb.perm and pol.modes_dictionnary is pb.mode and pol.schedule is (plan if given else None) and
            pol.resource_allocation is (pb.units if pb.allocated else None))


@contract('rule that follows a plan', S + 'next_action_follow_static_gantt', S + 'PolicyRCPSP._get_next_action')
def _(c):
    pb = Pb(c)
    pol = pb.policy(sg.BasePolicyMethod.FOLLOW_GANTT)
    pol.store_start_date = DATES.fresh('dates')
    dom, at = pol.store_start_date.terms
    now = num(pb.now)
    due = lambda t: z3.And(Sel(dom, now), Sel(Sel(at, now), t), z3.Not(Sel(pb.ongoing.t, t)), z3.Not(Sel(pb.complete.t, t)), Sel(pb.possible.t, t))
    a = pol._get_next_action(pb.state)
    t = I('t')
    if a.action is A.START:
        c.prove('a task planned now, not started yet, whose predecessors are complete', due(num(a.task)))
        c.prove('the domain accepts the start', pb.can(num(a.task)))
        c.prove('a start in the planned mode with the planned units', And(pb.starts(a), pb.planned(a)))
    else:
        c.prove('otherwise time progresses', pb.waits(a))
        w = z3.Int(c.fresh_name('t'))
        c.assume(z3.And(due(w), fa([t], z3.Implies(due(t), pb.can(t)), Sel(Sel(at, now), t), pb.can(t))))
        c.prove('time does not progress when a task is due and every task due can be started', z3.BoolVal(False))


# ---------------------------------------------------------------------------------------------------- pile
class Vec:
    __module__ = 'skdecide.stub'
    def __init__(self, n, e): self.n, self.e = n, e
    def __truediv__(self, k): return Vec(self.n, lambda j: self.e(j) / k)
    def __rmul__(self, k): return Vec(self.n, lambda j: k * self.e(j))
    __mul__ = __rmul__


INFO = RecordTy(succs=OBJ, nb=INT)


@contract('greedy choice', P + '_get_next_action')
def _(c):
    G = pp.GreedyChoice
    method = c.case('method', list(G))
    x, n = VEC.fresh('possible'), None
    n, X = x.n, x.arrays[1]
    can = z3.Function(c.fresh_name('can'), ZI, ZB)
    dur = func('duration', INT, ret=INT)
    state = Stub(t=INT.fresh('t'))
    calls = []

    class Dom:
        __module__ = 'skdecide.stub'
        def task_possible_to_launch_precedence(self, state):
            c.prove('asks about the given state', state is st)
            return x

        def check_if_action_can_be_started(self, state, action):
            c.prove('asks about a start in mode 1', And(state is st, action.action is A.START, action.mode == 1, action.time_progress is False))
            return (SymBool(can(num(action.task))), {})

        def sample_task_duration(self, task, mode=1, progress_from=0.):
            c.prove('the whole duration in mode 1', mode == 1 and progress_from == 0)
            return dur(task)
    st = state
    pol = pp.PilePolicy(method)
    pol.domain = Dom()
    pol.successors_map = DictTy(INT, INFO).fresh('successors')
    t, j, k = I('t'), I('j'), I('k')
    c.assume(fa([t], z3.And(Sel(pol.successors_map.terms[0], t), Sel(pol.successors_map.terms[2], t) >= 0), Sel(pol.successors_map.terms[0], t), Sel(pol.successors_map.terms[2], t)))
    nb = lambda t: Sel(pol.successors_map.terms[2], t)
    pol.predecessors_map = DictTy(INT, RecordTy(succs=SetTy(INT), nb=INT)).fresh('predecessors')
    anc = func('ancestors', INT, ret=SetTy(INT))
    nodes = SetTy(INT).fresh('nodes')
    pol.nx_graph = Stub(nodes=lambda: nodes)
    c.loops.append(LoopContract(lambda lp: lp.lid.startswith(P), lambda lp: [], name='predecessors', modifies=lambda lp: [pol.predecessors_map]))
    total = INT.fresh('total')

    class NP:
        def array(self, s): return Vec(s.n, s.elem)
        def ones(self, n): return Vec(num(n), lambda j: SymReal(z3.RealVal(1)))
        def arange(self, a, b): return Stub(first=a, n=num(b))

        def sum(self, v):
            j = I('j')
            e = num(v.e(j))
            self.summed = v
            tr = self.prob = total
            c.assume(z3.And(num(total) >= 0, fa([j], z3.Implies(rng(j, v.n), e <= num(total)), *engine._direct(e, j)[:1]), z3.Implies(num(total) > 0, v.n > 0)))
            self.weights = v
            return total

        class random:
            @staticmethod
            def choice(a, size=None, p=None):
                c.prove('one of the candidates', And(a.first == 0, size == 1, a.n == p.n))
                w = stub.weights
                i = z3.Int(c.fresh_name('drawn'))
                c.assume(rng(i, a.n))
                pr, we = num(p.e(i)), num(w.e(i))
                c.prove('with probability proportional to the number of successors, or uniformly',
                        z3.If(num(total) != 0, pr * z3.ToReal(num(total)) == z3.ToReal(we), pr * z3.ToReal(a.n) == 1))
                c.assume(pr > 0)
                return [SymInt(i)]
    stub = NP()

    class RND:
        def choice(self, s):
            i = z3.Int(c.fresh_name('drawn'))
            c.assume(rng(i, s.n))
            return s.elem(i)
    saved = pp.np, pp.random, pp.nx
    pp.np, pp.random, pp.nx = stub, RND(), Stub(algorithms=Stub(ancestors=lambda g, n: anc(n)))
    try:
        a = pol._get_next_action(state)
    finally:
        pp.np, pp.random, pp.nx = saved
    ok = lambda j: z3.And(rng(j, n), can(Sel(X, j)))
    if a.action is A.START:
        q = num(a.task)
        w = z3.Int(c.fresh_name('w'))
        c.prove('a start in mode 1', And(a.mode == 1, a.time_progress is False, a.resource_unit_names is None))
        c.prove('the domain accepts the start', can(q))
        c.prove('one of the tasks whose predecessors are complete', z3.Exists([j], z3.And(rng(j, n), Sel(X, j) == q)))
        if method is G.MOST_SUCCESSORS:
            c.prove('no candidate has more successors', fa([j], z3.Implies(ok(j), nb(Sel(X, j)) <= nb(q)), Sel(X, j)))
        if method is G.FASTEST:
            d = lambda t: num(dur(SymInt(t)))
            c.prove('no candidate is faster', fa([j], z3.Implies(ok(j), d(Sel(X, j)) >= d(q)), Sel(X, j)))
        if method is G.SAMPLE_MOST_SUCCESSORS:
            c.prove('a task without successors is drawn only if no candidate has any', fa([j], z3.Implies(z3.And(ok(j), nb(q) == 0), nb(Sel(X, j)) == 0), Sel(X, j)))
    else:
        c.prove('otherwise time progresses', a.action is A.TIME_PR and a.time_progress is True and a.task is None)
        c.prove('time progresses only if no candidate can be started', fa([j], z3.Implies(rng(j, n), z3.Not(can(Sel(X, j)))), Sel(X, j)))
