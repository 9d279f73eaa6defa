"""LRTA* and SimpleGreedy."""
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
from contracts.common import with_memory
from contracts.C22 import Graph
from skdecide.hub.solver.lrtastar import lrtastar as lr
from skdecide.hub.solver.simple_greedy import simple_greedy as sg
from skdecide.core import Memory

CONTRACTS = contract = Registry()
MBQI, FEAS_MS, TIMEOUT_MS = False, 500, 5000
ASSUMPTIONS = ['the domain is an arbitrary graph with non-negative costs (uninterpreted functions); costs and values are reals or infinity',
               'sums over the outcomes of an action: uninterpreted fold with its defining equation']
L = 'skdecide.hub.solver.lrtastar.lrtastar:LRTAstar.'
S = 'skdecide.hub.solver.simple_greedy.simple_greedy:SimpleGreedy.'
INF = float('inf')


class Ext:
    """A real number or plus infinity."""
    def __init__(self, i, v): self.i, self.v = i, v

    @staticmethod
    def of(x):
        if type(x) is Ext:
            return x
        if type(x) is float and x == INF:
            return Ext(z3.BoolVal(True), z3.RealVal(0))
        t = num(x)
        if t is None:
            raise Unsupported('extended number %r' % (x,))
        return Ext(z3.BoolVal(False), z3.ToReal(t) if t.sort() == z3.IntSort() else t)

    def __add__(self, o):
        o = Ext.of(o)
        return Ext(z3.Or(self.i, o.i), self.v + o.v)
    __radd__ = __add__

    def __sub__(self, o):
        o = Ext.of(o)
        engine.CTX.prove('no infinite value is subtracted', z3.Not(o.i))
        return Ext(self.i, self.v - o.v)

    def __rsub__(self, o): return Ext.of(o) - self

    def lt(self, o):
        o = Ext.of(o)
        return z3.And(z3.Not(self.i), z3.Or(o.i, self.v < o.v))

    def eq(self, o):
        o = Ext.of(o)
        return z3.Or(z3.And(self.i, o.i), z3.And(z3.Not(self.i), z3.Not(o.i), self.v == o.v))

    def __lt__(self, o): return SymBool(self.lt(o))
    def __gt__(self, o): return SymBool(Ext.of(o).lt(self))
    def __le__(self, o): return SymBool(z3.Not(Ext.of(o).lt(self)))
    def __ge__(self, o): return SymBool(z3.Not(self.lt(o)))
    def __eq__(self, o): return SymBool(self.eq(o))
    def __ne__(self, o): return SymBool(z3.Not(self.eq(o)))
    __hash__ = None


class ExtTy(engine.Ty):
    def sorts(self): return [z3.BoolSort(), z3.RealSort()]
    def wrap(self, ts, wb=None): return Ext(ts[0], ts[1])

    def unwrap(self, v):
        v = Ext.of(v)
        return [v.i, v.v]


EXT = ExtTy()
VALS = DictTy(INT, EXT)
STEP = TupTy(INT, RecTy(lambda a: {'action': a}, [(lambda d: d['action'], OptTy(INT))]))
ROLL, STATES, ACTS = SeqTy(STEP), SeqTy(INT), SeqTy(INT)
POL = DictTy(INT, OptTy(INT))
Sel = z3.Select
I = lambda n: z3.Int(n + '!r')


class World(Graph):
    def get_transition_value(self, s, a, n=None):
        engine.CTX.prove('cost of the transition made', eqf(n, self.nxt(s, a)))
        cost = Ext.of(self.cost(s, a))

        class V:
            pass
        v = V()
        v.cost = cost
        return v


def fresh_solver(c, G, own=False):
    sv = object.__new__(lr.LRTAstar)
    lr.LRTAstar.__init__(sv, INT.fresh('from') if own else None, lambda d, s: G.h(s), max_iter=INT.fresh('max_iter'), max_depth=INT.fresh('max_depth'))
    sv._domain = G
    return sv


def val(v, x):
    return Ext(Sel(v[1], x), Sel(v[2], x))


def roll_ok(G, roll, start):
    """The states and actions of a trial: a path without repetition from `start`."""
    n, st, has, act = roll
    j, i = I('j'), I('i')
    return [('starts at the start', z3.And(n >= 1, Sel(st, 0) == start)),
            ('applicable actions', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n - 1), z3.And(Sel(has, j), G.act(Sel(st, j), Sel(act, j)))), patterns=[Sel(st, j)])),
            ('along transitions', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n - 1), Sel(st, j + 1) == G.X(Sel(st, j), Sel(act, j))), patterns=[Sel(st, j)])),
            ('no state twice', z3.ForAll([j, i], z3.Implies(z3.And(0 <= j, j < i, i < n), Sel(st, j) != Sel(st, i)), patterns=[z3.MultiPattern(Sel(st, j), Sel(st, i))]))]


@contract('one trial', L + 'doTrial')
def _(c):
    G = World(c)
    sv = fresh_solver(c, G)
    sv.values = VALS.fresh('values')
    start = INT.fresh('s')
    c.assume(num(sv.max_depth) >= 0)
    gh = {}

    def terms(lp):
        l = lp.locals
        return STATES.unwrap(l['current_roll']), ROLL.unwrap(l['current_roll_and_action']), ACTS.unwrap(l['list_action']), VALS.unwrap(sv.values)

    def inv(lp):
        cr, ra, la, v = terms(lp)
        l = lp.locals
        d, cur = num(l['depth']), num(l['current_state'])
        j, i = I('j'), I('i')
        al = lambda f: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < d), f), patterns=[Sel(cr[1], j)])
        ch = as_formula(sv.heuristic_changed)
        return [('one state more than steps', z3.And(d >= 0, d <= z3.If(num(sv.max_depth) > 0, num(sv.max_depth), 0), cr[0] == d + 1, ra[0] == d, la[0] == d)),
                ('current state is the last of the roll', z3.And(Sel(cr[1], d) == cur, Sel(cr[1], 0) == num(start))),
                ('no dead end so far', z3.Not(as_formula(l['dead_end']))),
                ('roll and actions', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < d), z3.And(Sel(ra[1], j) == Sel(cr[1], j), Sel(ra[2], j), Sel(ra[3], j) == Sel(la[1], j))),
                                               patterns=[Sel(cr[1], j), Sel(ra[1], j)])),
                ('applicable actions', al(G.act(Sel(cr[1], j), Sel(la[1], j)))),
                ('along transitions', al(Sel(cr[1], j + 1) == G.X(Sel(cr[1], j), Sel(la[1], j)))),
                ('no state twice', z3.ForAll([j, i], z3.Implies(z3.And(0 <= j, j < i, i <= d), Sel(cr[1], j) != Sel(cr[1], i)),
                                             patterns=[z3.MultiPattern(Sel(cr[1], j), Sel(cr[1], i))])),
                ('visited states have a finite value', al(z3.And(Sel(v[0], Sel(cr[1], j)), z3.Not(Sel(v[1], Sel(cr[1], j)))))),
                ('the current state has a finite value once it was reached', z3.Implies(d > 0, z3.And(Sel(v[0], cur), z3.Not(Sel(v[1], cur))))),
                ('cost so far is finite', z3.Not(Ext.of(l['cumulated_reward']).i))]

    # the best successor among those not on the roll
    def inv_in(lp):
        cr, ra, la, v = terms(lp)
        l = lp.locals
        cur = num(l['current_state'])
        if lp.phase == 'establish':
            gh['v0'] = v
        v0 = gh['v0']
        best = Ext.of(l['best_estimated_cost'])
        a = l['next_action']
        j, x, i = I('j'), I('x'), I('i')
        onroll = lambda t: z3.Exists([i], z3.And(0 <= i, i < cr[0], Sel(cr[1], i) == t))
        est = lambda act: Ext(Sel(v[1], G.X(cur, act)), Sel(v[2], G.X(cur, act)) + G.C(cur, act))
        done = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < lp.i, z3.Not(onroll(G.X(cur, j)))), z3.And(
            Sel(v[0], G.X(cur, j)), z3.Not(est(j).lt(best)))), patterns=[G.X(cur, j)])
        out = [('considered successors cost no less than the best', done),
               ('known values are kept', z3.ForAll([x], z3.Implies(Sel(v0[0], x), z3.And(Sel(v[0], x), Sel(v[1], x) == Sel(v0[1], x), Sel(v[2], x) == Sel(v0[2], x))),
                                                   patterns=[Sel(v0[0], x)])),
               ('new values are heuristics', z3.ForAll([x], z3.Implies(z3.And(Sel(v[0], x), z3.Not(Sel(v0[0], x))), z3.And(z3.Not(Sel(v[1], x)), Sel(v[2], x) == G.H(x))),
                                                       patterns=[Sel(v[0], x)]))]
        if a is None:
            out.append(('nothing chosen: no finite estimate', best.i))
            c.prove('no next state without an action', l['next_state'] is None)
        else:
            at = num(a)
            out.append(('the choice', z3.And(0 <= at, at < lp.i, num(l['next_state']) == G.X(cur, at), z3.Not(onroll(G.X(cur, at))), Sel(v[0], G.X(cur, at)),
                                             est(at).eq(best), z3.Not(best.i))))
        return out

    class Choice(engine.Ty):
        """next_state and next_action are None together."""
        def fresh(self, name):
            if c.branch(gh['chosen']):
                return INT.fresh(name)
            return None

    def begin(lp):
        gh['chosen'] = z3.Bool(c.fresh_name('chosen'))
        return [sv.values]

    def types_in(lp, nm, v):
        if nm in ('next_state', 'next_action'):
            return Choice()
        return EXT if nm == 'best_estimated_cost' else None
    c.loops += [LoopContract(lambda lp: lp.kind == 'while', inv, dict(current_roll=STATES, current_roll_and_action=ROLL, list_action=ACTS, current_state=INT,
                                                                     depth=INT, dead_end=BOOL, cumulated_reward=EXT, best_estimated_cost=EXT, next_action=OptTy(INT),
                                                                     next_state=OptTy(INT)), lambda lp: [sv.values, (sv, 'heuristic_changed', BOOL)], name='steps',
                             decreases=lambda lp: SymInt(z3.If(num(sv.max_depth) > 0, num(sv.max_depth), 0) - num(lp.locals['depth']))),
                LoopContract(lambda lp: lp.kind == 'SymSeq', inv_in, types_in, begin, name='successors')]
    dead, cost, ra, la = sv.doTrial(start)
    r, acts, v = ROLL.unwrap(ra), ACTS.unwrap(la), VALS.unwrap(sv.values)
    for nm, f in roll_ok(G, r, num(start)):
        c.prove('roll: ' + nm, f)
    last = Sel(r[1], r[0] - 1)
    c.prove('nothing is done in the last state', z3.Not(Sel(r[2], r[0] - 1)))
    c.prove('a roll that is no dead end reaches a goal, or the depth limit', z3.Or(as_formula(dead), G.G(last), r[0] - 1 == num(sv.max_depth)))
    c.prove('a dead end changes the heuristic', z3.Implies(as_formula(dead), as_formula(sv.heuristic_changed)))
    c.prove('a roll of several states that is no dead end has a finite cost', z3.Implies(z3.And(z3.Not(as_formula(dead)), r[0] > 1), z3.Not(Ext.of(cost).i)))
    c.prove('the last state has a value', Sel(v[0], last))


@contract('trials until nothing changes', L + '_solve_domain', L + '_get_next_action', L + '_is_policy_defined_for', L + '_get_utility')
def _(c):
    """Each trial is used through its contract."""
    G = World(c)
    own = c.case('start given', [False, True])
    sv = fresh_solver(c, G, own)
    if own:
        G.start = sv._from_state
    s = num(G.start)
    sv._domain = None
    sv.values, sv._policy = VALS.fresh('old values'), POL.fresh('old policy')
    gh = dict(found=z3.BoolVal(False))

    def trial(start):
        c.prove('each trial is from the start', eqf(start, G.start))
        c.prove('in the domain of the factory', sv._domain is G)
        sv.values = VALS.fresh('values')
        sv.heuristic_changed = BOOL.fresh('changed')
        dead, cost = BOOL.fresh('dead'), EXT.fresh('cost')
        ra, la = ROLL.fresh('roll'), ACTS.fresh('actions')
        r = ROLL.unwrap(ra)
        for nm, f in roll_ok(G, r, s):
            c.assume(f)
        last = Sel(r[1], r[0] - 1)
        c.assume(z3.Not(Sel(r[2], r[0] - 1)))
        c.assume(z3.Or(dead.t, G.G(last), r[0] - 1 == num(sv.max_depth)))
        c.assume(z3.Implies(dead.t, sv.heuristic_changed.t))
        c.assume(z3.Implies(z3.Not(dead.t), z3.Not(cost.i)))
        gh.update(dead=dead.t, roll=r, cost=cost)
        return dead, cost, ra, la
    sv.doTrial = trial

    def follows(pol, b, upto=None):
        n, st, has, act = b
        j = I('j')
        lim = n if upto is None else upto
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < lim), z3.And(Sel(pol[0], Sel(st, j)), Sel(pol[1], Sel(st, j)) == Sel(has, j),
                                                                         z3.Implies(Sel(has, j), Sel(pol[2], Sel(st, j)) == Sel(act, j)))), patterns=[Sel(st, j)])

    def inv(lp):
        if lp.phase == 'establish':
            c.prove('what was learned before is forgotten', type(sv.values) is dict and not sv.values and type(sv._policy) is dict and not sv._policy)
            gh['found'] = z3.BoolVal(False)
        elif lp.phase == 'assume':
            gh['found'] = z3.Bool(c.fresh_name('found'))
            gh['bestroll'] = ROLL.unwrap(ROLL.fresh('bestroll'))
        pol = POL.unwrap(sv._policy)
        best = Ext.of(lp.locals['best_cost'])
        x = I('x')
        it = num(lp.locals['iteration'])
        out = [('no more than the trials allowed', z3.And(it >= 0, it <= z3.If(num(sv.max_iter) > 0, num(sv.max_iter), 0))),
               ('nothing is defined before a trial succeeds', z3.Implies(z3.Not(gh['found']), z3.And(best.i, pol[0] == z3.K(z3.IntSort(), z3.BoolVal(False)))))]
        if lp.phase == 'preserve':
            # the roll just made replaces the best one if it is better (or as good, and the policy does follow it)
            better = z3.And(z3.Not(gh['dead']), gh['cost'].lt(gh['before']))
            b0, r = gh['bestroll'], gh['roll']
            if c.branch(better) or c.branch(z3.And(z3.Not(gh['dead']), gh['cost'].eq(gh['before']), follows(pol, r))):
                b, f = r, z3.BoolVal(True)
            else:
                b, f = b0, gh['found']
            out[1] = (out[1][0], z3.Implies(z3.Not(f), z3.And(best.i, pol[0] == z3.K(z3.IntSort(), z3.BoolVal(False)))))
        elif lp.phase == 'assume':
            b, f = gh['bestroll'], gh['found']
            gh['before'] = best
        else:
            return out
        out += [('the policy follows the best roll', z3.Implies(f, follows(pol, b))),
                ('its cost is finite', z3.Implies(f, z3.Not(best.i)))]
        out += [('best roll: ' + nm, z3.Implies(f, g)) for nm, g in roll_ok(G, b, s)]
        last = Sel(b[1], b[0] - 1)
        out += [('best roll ends in a goal or at the depth limit', z3.Implies(f, z3.And(z3.Not(Sel(b[2], b[0] - 1)), z3.Or(G.G(last), b[0] - 1 == num(sv.max_depth)))))]
        return out

    def inv_pol(lp):
        pol = POL.unwrap(sv._policy)
        if lp.phase == 'establish':
            gh['pol0'] = pol
        x, j = I('x'), I('j')
        st = gh['roll'][1]
        return [('policy of the roll so far', follows(pol, gh['roll'], lp.i))]
    c.loops += [LoopContract(lambda lp: lp.kind == 'while', inv, dict(best_cost=EXT, iteration=INT, dead_end=BOOL, cumulated_cost=EXT),
                             lambda lp: [(sv, 'values', VALS), (sv, '_policy', POL), (sv, 'heuristic_changed', BOOL)], name='trials',
                             decreases=lambda lp: SymInt(z3.If(num(sv.max_iter) > 0, num(sv.max_iter), 0) - num(lp.locals['iteration']))),
                LoopContract(lambda lp: lp.kind == 'SymSeq', inv_pol, {}, lambda lp: [sv._policy], name='policy')]
    import builtins
    pr, lr.__dict__['print'] = builtins.print, lambda *a: None
    try:
        sv._solve_domain(lambda: G)
    finally:
        del lr.__dict__['print']
    # the last trial is not covered by the loop invariant: the same facts with it
    pol = POL.unwrap(sv._policy)
    better = z3.And(z3.Not(gh['dead']), gh['cost'].lt(gh['before']))
    if c.branch(better) or c.branch(z3.And(z3.Not(gh['dead']), gh['cost'].eq(gh['before']), follows(pol, gh['roll']))):
        b, f = gh['roll'], z3.BoolVal(True)
    else:
        b, f = gh['bestroll'], gh['found']
    n, st, has, act = b
    j = I('j')
    last = Sel(st, n - 1)
    c.prove('a policy only after a trial that is no dead end', z3.Implies(z3.Not(f), pol[0] == z3.K(z3.IntSort(), z3.BoolVal(False))))
    c.prove('stopping because nothing changes: the policy is defined at the start', z3.Or(as_formula(sv.heuristic_changed), Sel(pol[0], s)))
    c.prove('the policy starts at the start', z3.Implies(f, z3.And(n >= 1, Sel(st, 0) == s)))
    c.prove('following the policy', z3.Implies(f, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n - 1), z3.And(
        Sel(pol[0], Sel(st, j)), Sel(pol[1], Sel(st, j)), G.act(Sel(st, j), Sel(pol[2], Sel(st, j))),
        Sel(st, j + 1) == G.X(Sel(st, j), Sel(pol[2], Sel(st, j))))), patterns=[Sel(st, j)])))
    c.prove('it leads to a goal or to the depth limit', z3.Implies(f, z3.And(Sel(pol[0], last), z3.Not(Sel(pol[1], last)), z3.Or(G.G(last), n - 1 == num(sv.max_depth)))))
    o = INT.fresh('obs')
    on = o in sv._policy
    c.prove('policy defined', sv._is_policy_defined_for(o) == on)
    if on:
        a, q = sv._policy[o], sv._get_next_action(o)
        c.prove('next action', (a is None) == (q is None) and (a is None or eqf(a, q)))
    known = o in sv.values
    u = Ext.of(sv._get_utility(o))
    c.prove('utility: the learned value, else the heuristic', u.eq(sv.values[o] if known else G.h(o)))


@contract('greedy', S + '_get_next_action', S + '_is_policy_defined_for', setup=with_memory)
def _(c):
    dep = c.case('value depends on the next state', [False, True])
    acts = SeqTy(OBJ).fresh('applicable')
    c.assume(acts.n >= 1)
    reward, reward2 = func('reward', OBJ, OBJ, ret=REAL), func('reward_of', OBJ, ret=REAL)
    nout = z3.Function('nout', U, z3.IntSort())
    p, t = func('prob', OBJ, INT, ret=REAL), func('outcome', OBJ, INT, ret=OBJ)
    obs = OBJ.fresh('observation')
    ev = z3.Function('expected', U, z3.RealSort())

    def same(m):
        c.prove('memory of the observation', type(m) is Memory and len(m) == 1 and m[0] is obs)

    def outs(a):
        return SymSeq(nout(lift(a)), lambda i: (t(a, SymInt(i)), p(a, SymInt(i))), None)

    class V:
        def __init__(self, r): self.reward = r

    class Dist:
        def __init__(self, a): self.a = a
        def get_values(self): return outs(self.a)

    class Dom:
        def get_applicable_actions(self, m):
            same(m)

            class A:
                def get_elements(_): return acts.copy()
            return A()

        def is_transition_value_dependent_on_next_state(self): return dep

        def get_next_state_distribution(self, m, a):
            same(m)
            c.prove('one action', type(a) is list and len(a) == 1)
            return Dist(a[0])

        def get_transition_value(self, m, a, s=None):
            same(m)
            c.prove('one action', type(a) is list and len(a) == 1)
            return V(reward(a[0], s) if dep else reward2(a[0]))
    sv = object.__new__(sg.SimpleGreedy)
    d = Dom()
    sv._solve_domain(lambda: d)
    a_ = z3.Const('a!ev', U)

    def define(a):
        """expected reward of an action: the sum over its outcomes"""
        if dep:
            tot = PrefixSum(SymSeq(nout(lift(a)), lambda i: p(a, SymInt(i)) * reward(a, t(a, SymInt(i))), None)).total()
            c.assume(ev(lift(a)) == num(tot))

    def inv(lp):
        v = SeqTy(REAL).unwrap(lp.locals['values'])
        j = I('j')
        return [('expected rewards so far', z3.And(v[0] == lp.i, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < lp.i), Sel(v[1], j) == ev(lift(acts.elem(j)))),
                                                                           patterns=[Sel(v[1], j)])))]
    c.loops.append(LoopContract(lambda lp: lp.kind == 'SymSeq', inv, dict(values=SeqTy(REAL)), step=lambda lp: define(acts.elem(lp.i)), name='actions'))
    if not dep:
        c.assume(z3.ForAll([a_], ev(a_) == num(reward2(SymObj(a_))), patterns=[ev(a_)]))
    r = sv._get_next_action(obs)
    c.prove('a list of one action', type(r) is list and len(r) == 1)
    j = I('j')
    c.prove('an applicable one', z3.Exists([j], z3.And(0 <= j, j < acts.n, lift(acts.elem(j)) == lift(r[0]))))
    c.prove('no applicable action promises more', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < acts.n), ev(lift(acts.elem(j))) <= ev(lift(r[0]))), patterns=[lift(acts.elem(j))]))
    c.prove('defined everywhere', sv._is_policy_defined_for(obs) is True)
