"""Evaluation of policies: exploration under a policy, expected costs, rollouts, and the policy that picks the best of several."""
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
import skdecide.hub.solver.policy_evaluators.policy_evaluator as pe
import skdecide.hub.solver.meta_policy.meta_policies as mp

CONTRACTS = contract = Registry()
MBQI, FEAS_MS, TIMEOUT_MS = False, 500, 8000
E, M = 'skdecide.hub.solver.policy_evaluators.policy_evaluator:', 'skdecide.hub.solver.meta_policy.meta_policies:MetaPolicy.'
ASSUMPTIONS = ['states are hashable values; the domain and the policy are arbitrary functions of the state (and action); costs and probabilities are reals',
               'the list of states to explore is treated as a bag: which state is taken next is arbitrary; termination of the exploration is not proved',
               'rollout_episode returns the visited states and the actions applied (its behaviour is C11)',
               'averages over repeated rollouts (rollout_based_policy_estimation) are covered by the bounded layer']
Sel, Sto = z3.Select, z3.Store
U = engine.U
ZI, ZR, ZB = z3.IntSort(), z3.RealSort(), z3.BoolSort()
I = lambda n: z3.Int(n + '!k')
X = lambda n: z3.Const(n + '!u', U)
rng = lambda j, n: z3.And(0 <= j, j < n)
real = lambda x: num(x) if num(x).sort() == ZR else z3.ToReal(num(x))


class Stub:
    __module__ = 'skdecide.stub'
    def __init__(self, **kw): self.__dict__.update(kw)


class Bag:
    """A worklist: which element pop() takes is arbitrary, and it may hold an element several times."""
    def __init__(self, t): self.t = t
    def append(self, x): self.t = Sto(self.t, lift(x), True)

    def sym_len(self):
        c = engine.CTX
        n = z3.Int(c.fresh_name('size'))
        c.assume(z3.And(n >= 0, (n == 0) == (self.t == z3.K(U, z3.BoolVal(False)))))
        return SymInt(n)

    def pop(self):
        c = engine.CTX
        x, rest = z3.Const(c.fresh_name('popped'), U), z3.Const(c.fresh_name('rest'), z3.ArraySort(U, ZB))
        y = X('y')
        c.prove('pop of a list that is not empty', self.t != z3.K(U, z3.BoolVal(False)))
        c.assume(z3.And(Sel(self.t, x), fa([y], Sel(rest, y) == z3.And(Sel(self.t, y), z3.Implies(y == x, Sel(rest, x))), Sel(rest, y), Sel(self.t, y))))
        self.t = rest
        return SymObj(x)


class BagTy(engine.Ty):
    def sorts(self): return [z3.ArraySort(U, ZB)]
    def wrap(self, ts, wb=None): return Bag(ts[0])

    def unwrap(self, v):
        if type(v) is Bag:
            return [v.t]
        if type(v) is not list:
            raise Unsupported('worklist')
        t = z3.K(U, z3.BoolVal(False))
        for x in v:
            t = Sto(t, lift(x), True)
        return [t]


BAG = BagTy()
SUCC = SeqTy(TupTy(OBJ, REAL))
PREDS, SUCCS, POLICY, VALUE = DictTy(OBJ, SetTy(OBJ), set), DictTy(OBJ, SUCC), DictTy(OBJ, OBJ), DictTy(OBJ, REAL)


class Graph:
    def __init__(self, c):
        self.c = c
        self.s0 = OBJ.fresh('start')
        self.term, self.goal = func('terminal', OBJ, ret=BOOL), func('goal', OBJ, ret=BOOL)
        self.act = func('action', OBJ, ret=OBJ)
        self.out = func('outcomes', OBJ, OBJ, ret=SUCC)
        self.C = func('cost', OBJ, OBJ, OBJ, ret=REAL)
        n = self.out.decls[0]
        s, a = X('s'), X('a')
        c.assume(fa([s, a], n(s, a) >= 0, n(s, a)))

    def a(self, s): return self.act.decls[0](s)
    def dist(self, s): return [d(s, self.a(s)) for d in self.out.decls]         # length, outcomes, probabilities

    # domain and policy
    def get_initial_state(self): return self.s0
    def is_terminal(self, s): return self.term(s)
    def is_goal(self, s): return self.goal(s)
    def get_next_action(self, s): return self.act(s)
    def get_next_state_distribution(self, s, a): return Stub(get_values=lambda: self.out(s, a))
    def get_transition_value(self, s, a, s2): return Stub(cost=self.C(s, a, s2))


@contract('exploration under a policy', E + 'construct_dict_policy')
def _(c):
    g = Graph(c)
    s, x, k = X('s'), X('x'), I('k')
    st = {'W': z3.K(U, z3.K(U, z3.IntVal(0)))}
    T = g.term.decls[0]

    def facts(lp, cur=None, upto=None):
        L = lp.locals
        bag, pol, pr, su = BAG.unwrap(L['stack'])[0], POLICY.unwrap(L['policy_dict']), PREDS.unwrap(L['preds']), SUCCS.unwrap(L['succs'])
        W = st['W']
        known = lambda x: z3.Or(Sel(bag, x), Sel(pol[0], x), T(x))
        n, o, p = g.dist(s)
        w = Sel(Sel(W, x), s)
        seen = lambda k: rng(k, n) if cur is None else z3.And(rng(k, n), z3.Implies(s == cur, k < upto))
        return [('the initial state is explored or waits', known(lift(g.s0))),
                ('the policy and the outcomes of the explored states',
                 fa([s], z3.And(Sel(su[0], s) == Sel(pol[0], s),
                                z3.Implies(Sel(pol[0], s), z3.And(z3.Not(T(s)), Sel(pol[1], s) == g.a(s), *[Sel(a, s) == b for a, b in zip(su[1:], (n, o, p))]))), Sel(pol[0], s), Sel(su[0], s))),
                ('outcomes of explored states are explored or wait, and know where they come from',
                 fa([s, k], z3.Implies(z3.And(Sel(pol[0], s), seen(k), Sel(p, k) != 0), z3.And(known(Sel(o, k)), Sel(pr[0], Sel(o, k)), Sel(Sel(pr[1], Sel(o, k)), s))), Sel(o, k), Sel(p, k))),
                ('predecessors come from explored states with an outcome there',
                 fa([x, s], z3.Implies(z3.And(Sel(pr[0], x), Sel(Sel(pr[1], x), s)), z3.And(Sel(pol[0], s), seen(w), Sel(p, w) != 0, Sel(o, w) == x)), Sel(Sel(pr[1], x), s)))]

    def outer(lp):
        if lp.phase == 'assume':
            st['W'] = z3.Const(c.fresh_name('W'), z3.ArraySort(U, z3.ArraySort(U, ZI)))
        return facts(lp)

    def inner(lp):
        cur = lift(lp.locals['s'])
        if lp.phase == 'assume':
            st['W'] = z3.Const(c.fresh_name('W'), z3.ArraySort(U, z3.ArraySort(U, ZI)))
        if lp.phase == 'preserve':
            e = lp.seq.elem(lp.i - 1)
            y = lift(e[0])
            W = st['W']
            st['W'] = z3.If(num(e[1]) != 0, Sto(W, y, Sto(Sel(W, y), cur, lp.i - 1)), W)
        return facts(lp, cur, lp.i)
    mods = dict(stack=BAG, policy_dict=POLICY, preds=PREDS, succs=SUCCS, succ=OBJ, prob=REAL)
    here = lambda lp: lp.fn().endswith('construct_dict_policy')
    c.loops.append(LoopContract(lambda lp: here(lp) and lp.kind == 'while', outer, name='exploration', types=mods))
    c.loops.append(LoopContract(lambda lp: here(lp) and 'stack' in lp.mut, inner, name='outcomes', types=mods))
    c.loops.append(LoopContract(here, lambda lp: [], name='sanity check'))
    pol, pr, su = pe.construct_dict_policy(g, g)
    P, S, R = POLICY.unwrap(pol), SUCCS.unwrap(su), PREDS.unwrap(pr)
    n, o, p = g.dist(s)
    c.prove('the initial state is explored unless it is terminal', z3.Or(Sel(P[0], lift(g.s0)), T(lift(g.s0))))
    c.prove('the action of the policy in every explored state, none of them terminal', fa([s], z3.Implies(Sel(P[0], s), z3.And(Sel(P[1], s) == g.a(s), z3.Not(T(s)))), Sel(P[0], s)))
    c.prove('every possible outcome is explored or terminal', fa([s, k], z3.Implies(z3.And(Sel(P[0], s), rng(k, n), Sel(p, k) != 0), z3.Or(Sel(P[0], Sel(o, k)), T(Sel(o, k)))), Sel(o, k), Sel(p, k)))
    c.prove('the outcomes of every explored state', fa([s], z3.And(Sel(S[0], s) == Sel(P[0], s), z3.Implies(Sel(P[0], s), z3.And(*[Sel(a, s) == b for a, b in zip(S[1:], (n, o, p))]))), Sel(P[0], s), Sel(S[0], s)))
    c.prove('a state is a predecessor of each possible outcome', fa([s, k], z3.Implies(z3.And(Sel(P[0], s), rng(k, n), Sel(p, k) != 0), z3.And(Sel(R[0], Sel(o, k)), Sel(Sel(R[1], Sel(o, k)), s))), Sel(o, k), Sel(p, k)))
    w = Sel(Sel(st['W'], x), s)
    c.prove('and of nothing else', fa([x, s], z3.Implies(z3.And(Sel(R[0], x), Sel(Sel(R[1], x), s)), z3.And(Sel(P[0], s), rng(w, n), Sel(p, w) != 0, Sel(o, w) == x)), Sel(Sel(R[1], x), s)))


@contract('all outcomes have a value', E + 'successor_value_is_known')
def _(c):
    seq, val = SUCC.fresh('outcomes'), VALUE.fresh('values')
    n, o, p = SUCC.unwrap(seq)
    k = I('k')
    missing = lambda k: z3.And(Sel(p, k) != 0, z3.Not(Sel(val.terms[0], Sel(o, k))))
    c.loops.append(LoopContract(lambda lp: lp.fn().endswith('successor_value_is_known'),
                                lambda lp: [('known so far', fa([k], z3.Implies(rng(k, lp.i), z3.Not(missing(k))), Sel(o, k), Sel(p, k)))], name='outcomes'))
    r = pe.successor_value_is_known(seq, val)
    if not isinstance(r, bool):
        raise Unsupported('result')
    c.prove('true iff every outcome of positive probability has a value', fa([k], z3.Implies(rng(k, n), z3.Not(missing(k))), Sel(o, k), Sel(p, k)) if r else
            z3.Exists([k], z3.And(rng(k, n), missing(k))))


@contract('expected costs', E + 'expected_costs_for_policy')
def _(c):
    g = Graph(c)
    pol, pr, su = POLICY.fresh('policy'), PREDS.fresh('preds'), SUCCS.fresh('succs')
    P, R, S = list(pol.terms), list(pr.terms), list(su.terms)
    s, x, k = X('s'), X('x'), I('k')
    n, o, p = (lambda s: Sel(S[1], s)), (lambda s, k: Sel(Sel(S[2], s), k)), (lambda s, k: Sel(Sel(S[3], s), k))
    some = z3.Function(c.fresh_name('some_outcome'), U, ZI)
    # what construct_dict_policy establishes, and that probabilities are not all zero
    c.assume(fa([x, s], z3.Implies(z3.And(Sel(R[0], x), Sel(Sel(R[1], x), s)), z3.And(Sel(S[0], s), Sel(P[0], s))), Sel(Sel(R[1], x), s)))
    c.assume(fa([s, k], z3.Implies(z3.And(Sel(S[0], s), rng(k, n(s)), p(s, k) != 0), z3.And(Sel(R[0], o(s, k)), Sel(Sel(R[1], o(s, k)), s))), o(s, k), p(s, k)))
    c.assume(fa([s], z3.And(n(s) >= 0, z3.Implies(Sel(S[0], s), z3.And(rng(some(s), n(s)), p(s, some(s)) != 0, o(s, some(s)) == o(s, some(s))))), Sel(S[0], s), n(s)))
    G = g.goal.decls[0]
    Cost = g.C.decls[0]
    base = lambda s: z3.And(Sel(R[0], s), G(s))
    AR = z3.ArraySort(ZI, ZR)
    st = {'G': z3.Const(c.fresh_name('partial'), z3.ArraySort(U, AR)), 'unk': z3.Const(c.fresh_name('unknown'), z3.ArraySort(U, ZI))}
    term = lambda V, s, k: z3.If(p(s, k) != 0, p(s, k) * (Cost(s, Sel(P[1], s), o(s, k)) + Sel(V[1], o(s, k))), 0)
    missing = lambda V, s, k: z3.And(rng(k, n(s)), p(s, k) != 0, z3.Not(Sel(V[0], o(s, k))))

    def known(successors, opt_val):
        """contract of successor_value_is_known, proved above"""
        V, q = VALUE.unwrap(opt_val), SUCC.unwrap(successors)
        cur = st['cur']
        c.prove('outcomes of the state', z3.And(*[a == Sel(b, cur) for a, b in zip(q, S[1:])]))
        if c.branch(z3.FreshBool('known')):
            c.assume(fa([k], z3.Not(missing(V, cur, k)), o(cur, k), p(cur, k)))
            return True
        w = z3.Int(c.fresh_name('w'))
        c.assume(missing(V, cur, w))
        st['unk'] = Sto(st['unk'], cur, w)
        return False

    def goals(lp):
        V, Q = VALUE.unwrap(lp.locals['opt_val']), SetTy(OBJ).unwrap(lp.locals['stack'])[0]
        return [('goals seen so far cost nothing', fa([s], z3.And(Sel(V[0], s) == z3.And(Sel(lp.visited, s), G(s)), z3.Implies(Sel(V[0], s), Sel(V[1], s) == 0)), Sel(V[0], s), Sel(lp.visited, s))),
                ('their predecessors wait', fa([x, s], z3.Implies(z3.And(Sel(lp.visited, x), G(x), Sel(Sel(R[1], x), s)), Sel(Q, s)), Sel(Sel(R[1], x), s))),
                ('only explored states wait', fa([s], z3.Implies(Sel(Q, s), Sel(S[0], s)), Sel(Q, s)))]

    def bell(V, s, Gs):
        return z3.And(Sel(Gs, 0) == 0, Sel(V[1], s) == Sel(Gs, n(s)), fa([k], z3.Implies(rng(k, n(s)), z3.And(z3.Not(missing(V, s, k)), Sel(Gs, k + 1) == Sel(Gs, k) + term(V, s, k))), o(s, k), p(s, k)))

    def facts(V, Q):
        H = Sel(st['G'], s)
        return [('goals cost nothing', fa([s], z3.Implies(base(s), z3.And(Sel(V[0], s), Sel(V[1], s) == 0)), Sel(V[0], s), Sel(R[0], s))),
                ('other values: explored, expected cost of the action plus the value of the outcome, start', fa([s], z3.Implies(z3.And(Sel(V[0], s), z3.Not(base(s))), z3.And(Sel(S[0], s), Sel(H, 0) == 0, Sel(V[1], s) == Sel(H, n(s)))), Sel(V[0], s))),
                ('other values: expected cost of the action plus the value of the outcome',
                 fa([s, k], z3.Implies(z3.And(Sel(V[0], s), z3.Not(base(s)), rng(k, n(s))), z3.And(z3.Not(missing(V, s, k)), Sel(H, k + 1) == Sel(H, k) + term(V, s, k))), o(s, k), p(s, k))),
                ('a state without a value waits or has an outcome without a value',
                 fa([s], z3.Implies(z3.And(Sel(S[0], s), z3.Not(Sel(V[0], s))), z3.Or(Sel(Q, s), missing(V, s, Sel(st['unk'], s)))), Sel(S[0], s), Sel(V[0], s), Sel(Q, s))),
                ('only explored states wait', fa([s], z3.Implies(Sel(Q, s), Sel(S[0], s)), Sel(Q, s))),
                ('predecessors', fa([x, s], z3.And(Sel(pr.terms[0], x), Sel(Sel(pr.terms[1], x), s)) == z3.And(Sel(R[0], x), Sel(Sel(R[1], x), s)), Sel(Sel(pr.terms[1], x), s), Sel(Sel(R[1], x), s)))]

    def outer(lp):
        if lp.phase == 'establish':
            V = VALUE.unwrap(lp.locals['opt_val'])
            st['unk'] = z3.Const(c.fresh_name('unknown'), z3.ArraySort(U, ZI))
            c.assume(fa([s], Sel(st['unk'], s) == some(s), Sel(st['unk'], s)))     # ghost: at first the outcome known to be possible
        if lp.phase == 'assume':
            st['G'], st['unk'] = z3.Const(c.fresh_name('partial'), z3.ArraySort(U, AR)), z3.Const(c.fresh_name('unknown'), z3.ArraySort(U, ZI))
        if lp.phase == 'preserve' and st.get('g') is not None:
            st['G'] = Sto(st['G'], st['cur'], st['g'])
            st['g'] = None
        return facts(VALUE.unwrap(lp.locals['opt_val']), SetTy(OBJ).unwrap(lp.locals['stack'])[0])

    def inner(lp):
        V = VALUE.unwrap(lp.locals['opt_val'])
        cur = lift(lp.locals['s'])
        if lp.phase == 'establish':
            st['g'] = Sto(z3.K(ZI, z3.RealVal(0)), 0, z3.RealVal(0))
        if lp.phase == 'assume':
            st['g'] = z3.Const(c.fresh_name('sum'), AR)
        if lp.phase == 'preserve':
            st['g'] = Sto(st['g'], lp.i, real(lp.locals['main_cost']))
        gs = st['g']
        return [('expected cost so far', z3.And(Sel(gs, 0) == 0, real(lp.locals['main_cost']) == Sel(gs, lp.i), fa([k], z3.Implies(rng(k, lp.i), Sel(gs, k + 1) == Sel(gs, k) + term(V, cur, k)), o(cur, k), p(cur, k))))]
    here = lambda lp: lp.fn().endswith('expected_costs_for_policy')
    mods = dict(opt_val=VALUE, stack=SetTy(OBJ), main_cost=REAL)
    c.loops.append(LoopContract(lambda lp: here(lp) and lp.kind == 'while', outer, name='values', types=mods, modifies=lambda lp: [pr]))
    c.loops.append(LoopContract(lambda lp: here(lp) and 'main_cost' in lp.bound, inner, name='outcomes', types=mods))
    c.loops.append(LoopContract(here, goals, name='goals', types=mods))
    saved = pe.successor_value_is_known
    pe.successor_value_is_known = known
    pop0 = engine.SymSet.pop

    def pop(q):
        v = pop0(q)
        st['cur'] = lift(v)
        return v
    engine.SymSet.pop = pop
    try:
        r = pe.expected_costs_for_policy(g, pol, pr, su)
    finally:
        pe.successor_value_is_known, engine.SymSet.pop = saved, pop0
    V = VALUE.unwrap(r)
    H = Sel(st['G'], s)
    c.prove('goals cost nothing', fa([s], z3.Implies(base(s), z3.And(Sel(V[0], s), Sel(V[1], s) == 0)), Sel(V[0], s), Sel(R[0], s)))
    c.prove('any other value is the expected cost of the action plus the value of the outcome: sum', fa([s], z3.Implies(z3.And(Sel(V[0], s), z3.Not(base(s))), z3.And(Sel(S[0], s), Sel(H, 0) == 0, Sel(V[1], s) == Sel(H, n(s)))), Sel(V[0], s)))
    c.prove('any other value is the expected cost of the action plus the value of the outcome: terms',
            fa([s, k], z3.Implies(z3.And(Sel(V[0], s), z3.Not(base(s)), rng(k, n(s))), z3.And(z3.Not(missing(V, s, k)), Sel(H, k + 1) == Sel(H, k) + term(V, s, k))), o(s, k), p(s, k)))
    u = Sel(st['unk'], s)
    c.prove('a state has no value only if a possible outcome has none', fa([s], z3.Implies(z3.And(Sel(S[0], s), z3.Not(Sel(V[0], s))), missing(V, s, u)), Sel(S[0], s), Sel(V[0], s)))


@contract('one rollout', E + 'my_custom_rollout')
def _(c):
    g = Graph(c)
    start = OBJ.fresh('state')
    j, k = I('j'), I('k')
    T, G, C = g.term.decls[0], g.goal.decls[0], g.C.decls[0]
    possible = z3.Function(c.fresh_name('possible'), U, U, U, ZB)
    F = z3.Function(c.fresh_name('sum'), ZI, z3.ArraySort(ZI, ZR), ZR)
    ST, VR = SeqTy(OBJ), SeqTy(REAL)

    def sample(domain, s, a):
        c.prove('sampled in the given domain', domain is g)
        n = OBJ.fresh('next')
        c.assume(possible(lift(s), lift(a), lift(n)))
        return Stub(state=n)

    def facts(L, n, live):
        ss, vs, aa = ST.unwrap(L[0]), VR.unwrap(L[1]), ST.unwrap(L[2])
        return [('lengths', z3.And(n >= 0, ss[0] == n + 1, vs[0] == n, aa[0] == n)), ('starts where asked', Sel(ss[1], 0) == lift(start)),
                ('actions of the policy, possible outcomes, their costs',
                 fa([j], z3.Implies(rng(j, n), z3.And(Sel(aa[1], j) == g.a(Sel(ss[1], j)), possible(Sel(ss[1], j), Sel(aa[1], j), Sel(ss[1], j + 1)),
                                                      Sel(vs[1], j) == C(Sel(ss[1], j), Sel(aa[1], j), Sel(ss[1], j + 1)))), Sel(aa[1], j), Sel(vs[1], j), Sel(ss[1], j))),
                ('goes on only from states that are neither goal nor terminal', fa([j], z3.Implies(z3.And(1 <= j, j < n + (1 if live else 0)), z3.And(z3.Not(T(Sel(ss[1], j))), z3.Not(G(Sel(ss[1], j))))), Sel(ss[1], j)))]

    def inv(lp):
        L = [lp.locals[x] for x in ('states', 'values', 'actions')]
        vs = VR.unwrap(L[1])
        a = vs[1]
        if lp.phase != 'preserve':
            c.assume(F(0, a) == 0)
            st['n'], st['a'] = vs[0], a
        else:
            # definition of the sum, which depends only on the first elements
            n0, a0 = st['n'], st['a']
            v = Sel(a, n0)
            c.prove('earlier costs are kept', z3.And(vs[0] == n0 + 1, fa([k], z3.Implies(rng(k, n0), Sel(a, k) == Sel(a0, k)), Sel(a, k))))
            c.assume(F(n0 + 1, a) == F(n0, a0) + v)
        return facts(L, vs[0], True) + [('sum of the costs', real(lp.locals['summed_value']) == F(vs[0], a))]
    st = {}
    c.loops.append(LoopContract(lambda lp: lp.fn().endswith('my_custom_rollout'), inv, name='steps',
                                types=dict(states=ST, values=VR, actions=ST, summed_value=REAL, action=OBJ, next_state=OBJ)))
    saved = pe.SchedulingDomain
    pe.SchedulingDomain = Stub(_state_sample=sample)
    try:
        ss, total, vs, aa = pe.my_custom_rollout(g, start, g)
    finally:
        pe.SchedulingDomain = saved
    n = vs.n
    for nm, f in facts((ss, vs, aa), n, False):
        c.prove(nm, f)
    c.prove('at least one step', n >= 1)
    last = Sel(ST.unwrap(ss)[1], n)
    a = VR.unwrap(vs)[1]
    c.prove('ends in a goal or terminal state', z3.Or(T(last), G(last)))
    c.prove('earlier costs are kept', z3.And(n == st['n'] + 1, fa([k], z3.Implies(rng(k, st['n']), Sel(a, k) == Sel(st['a'], k)), Sel(a, k))))
    c.assume(F(n, a) == F(st['n'], st['a']) + Sel(a, st['n']))
    c.prove('sum of the costs, and a penalty unless the goal is reached', real(total) == F(n, a) + z3.If(G(last), 0, 1000))


# ------------------------------------------------------------------------------------------ best of several
@contract('best of several policies', M + '_get_next_action', M + '__init__')
def _(c):
    method, j, k = X('method'), I('j'), I('k')
    act = func('action', OBJ, ret=OBJ)
    first, end = func('first_action', OBJ, INT, ret=OBJ), func('end', OBJ, INT, ret=INT)
    now = INT.fresh('t')
    nb = INT.fresh('rollouts')
    c.assume(num(nb) >= 1)
    obs = Stub(t=now)
    copies = []
    st = {}

    class Pol:
        __module__ = 'skdecide.stub'
        def __init__(self, h): self.h = h

        def get_next_action(self, o):
            c.prove('asked about the observation', o is obs)
            return act(self.h)

    def copy():
        copies.append(Stub(t=now))
        return copies[-1]
    obs.copy = copy
    pols = DictTy(OBJ, RecTy(lambda h: Pol(h), [(lambda p: p.h, OBJ)])).fresh('policies')
    dom, H = pols.terms
    known, execution = Stub(inplace=[]), Stub()
    known.set_inplace_environment = lambda b: known.inplace.append(b)
    TOT = z3.Function(c.fresh_name('total'), U, ZI, ZR)
    t = num(now)

    def unfold(m, i):
        c.assume(z3.And(TOT(m, 0) == 0, TOT(m, i + 1) == TOT(m, i) + z3.ToReal(end.decls[0](Sel(H, m), i) - t)))

    def rollout(domain=None, solver=None, from_memory=None, **kw):
        """contract of rollout_episode: states visited and actions applied from the given state"""
        c.prove('a rollout of the known domain from a copy of the observation, never from the observation itself',
                And(domain is known, any(from_memory is x for x in copies), known.inplace == [True], set(kw) <= {'outcome_formatter', 'action_formatter', 'verbose', 'render'}))
        copies[:] = [x for x in copies if x is not from_memory]
        i = SymInt(st['i'])
        return [Stub(t=now), Stub(t=end(solver.h, i))], [first(solver.h, i)], []
    R, A = DictTy(OBJ, REAL), DictTy(OBJ, OBJ)

    def outer(lp):
        r, a = R.unwrap(lp.locals['results']), A.unwrap(lp.locals['actions_map'])
        V = lp.visited
        return [('estimates so far', fa([method], z3.And(Sel(r[0], method) == Sel(V, method), z3.Implies(Sel(V, method), z3.And(Sel(r[1], method) == TOT(method, num(nb)), Sel(a[0], method),
                                                         Sel(a[1], method) == first.decls[0](Sel(H, method), num(nb) - 1)))), Sel(r[0], method), Sel(V, method), Sel(a[0], method)))]

    def inner(lp):
        r, a = R.unwrap(lp.locals['results']), A.unwrap(lp.locals['actions_map'])
        m = lift(lp.locals['method'])
        if lp.phase == 'establish':
            st['r'], st['a'] = r, a
            unfold(m, z3.IntVal(0))
        if lp.phase == 'assume':
            st['i'] = lp.i
            unfold(m, lp.i)
        others = z3.And(method != m, True)
        return [('total of the rollouts so far', z3.And(Sel(r[0], m), Sel(r[1], m) == TOT(m, lp.i))), ('action of the last rollout', z3.Implies(lp.i > 0, z3.And(Sel(a[0], m), Sel(a[1], m) == first.decls[0](Sel(H, m), lp.i - 1)))),
                ('other policies', fa([method], z3.Implies(method != m, z3.And(*[Sel(x, method) == Sel(y, method) for x, y in zip(r + a, st['r'] + st['a'])])), *[Sel(x, method) for x in r + a]))]
    here = lambda lp: lp.lid.startswith(M)
    mods = dict(results=R, actions_map=A, states=OBJ, actions=OBJ, values=OBJ)
    undef = dict(results=R, actions_map=A)
    c.loops.append(LoopContract(lambda lp: here(lp) and lp.kind == 'SymSeq', inner, name='rollouts', types=undef))
    c.loops.append(LoopContract(here, outer, name='policies', types=undef))
    pol = mp.MetaPolicy(pols, execution, known, nb_rollout_estimation=nb, verbose=c.case('verbose', [True, False]))
    c.assume(dom != z3.K(U, z3.BoolVal(False)))
    saved = mp.rollout_episode, mp.__dict__.get('print')
    mp.rollout_episode, mp.print = rollout, lambda *a: None
    try:
        r = pol._get_next_action(obs)
    finally:
        mp.rollout_episode = saved[0]
        del mp.print
    r = lift(r)
    n = num(nb)
    for m in [X('w')]:
        w = z3.Const(c.fresh_name('w'), U)
    same = z3.Exists([method], z3.And(Sel(dom, method), r == act.decls[0](Sel(H, method)), fa([k0 := X('other')], z3.Implies(Sel(dom, k0), act.decls[0](Sel(H, k0)) == r), Sel(dom, k0))))
    best = z3.Exists([method], z3.And(Sel(dom, method), r == first.decls[0](Sel(H, method), n - 1), fa([k0], z3.Implies(Sel(dom, k0), TOT(method, n) <= TOT(k0, n)), Sel(dom, k0))))
    c.prove('the action all policies agree on, or the first action of the policy whose rollouts end earliest', z3.Or(same, best))
    c.prove('the given state is not moved', obs.t is now)
