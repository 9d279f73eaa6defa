"""LazyA*: the plan is a cheapest path, whatever the size and branching of the graph."""
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
from skdecide.hub.solver.lazy_astar import lazy_astar as la

CONTRACTS = contract = Registry()
MBQI, FEAS_MS, TIMEOUT_MS = False, 300, 4000
ASSUMPTIONS = ['heapq: heappop removes and returns an entry of smallest priority, heappush adds one (contract on the standard library)',
               'itertools.count yields distinct numbers', 'the domain is an arbitrary graph: states, actions per state, transitions, '
               'non-negative costs, goals and a consistent heuristic that is zero on goals are uninterpreted functions',
               'induction over the length of a competing path is done by hand from its two discharged steps']
S = 'skdecide.hub.solver.lazy_astar.lazy_astar:LazyAstar.'
LABEL = RecTy(lambda a: {'action': a}, [(lambda d: d['action'], INT)])
FROM = OptTy(TupTy(INT, LABEL))                                 # parent and label, or None twice
PAIR = RecTy(lambda f: (None, None) if f is None else f, [((lambda v: None if v[0] is None and v[1] is None else v), FROM)])
ENTRY = RecTy(lambda p, n, d, f: (p, n, d) + f, [((lambda v: v[0]), REAL), ((lambda v: v[1]), INT), ((lambda v: v[2]), REAL), ((lambda v: v[3:]), PAIR)])
QUEUE = DictTy(INT, ENTRY)                                      # by insertion number
ENQ = DictTy(INT, TupTy(REAL, REAL))
EXP = DictTy(INT, PAIR)
POL, VAL = DictTy(INT, OptTy(INT)), DictTy(INT, REAL)
PATH = RevSeqTy(TupTy(INT, OptTy(LABEL)))


class Nothing(engine.Ty):
    def fresh(self, name): return []


class Ghost:
    """Contracts of the heap and of the counter; ghost state: for each state the entry pushed last, and the order of expansion."""
    cur = None

    def __init__(self, c):
        self.n = SymInt(z3.IntVal(0))                            # next insertion number
        self.wit = z3.K(z3.IntSort(), z3.IntVal(0))              # entry pushed last for a state
        self.ord = z3.Function(c.fresh_name('ord0'), z3.IntSort(), z3.IntSort())
        Ghost.cur = self


class Counter:
    def __next__(self):
        g = Ghost.cur
        k = g.n
        g.n = k + 1
        return k

    def __iter__(self): return self


def push(q, e):
    g = Ghost.cur
    p, k, node, dist, parent, label = e
    cx = engine.CTX
    if type(q) is not SymDict:
        raise Unsupported('queue')
    q[k] = (p, node, dist, parent, label)
    g.wit = z3.Store(g.wit, num(node), num(k))


def pop(q):
    cx = engine.CTX
    dom, pr = q.terms[0], q.terms[1]
    cx.prove('pop of a queue that is not empty', dom != z3.K(z3.IntSort(), z3.BoolVal(False)))
    k, j = z3.Int(cx.fresh_name('popped')), z3.Int('j!pop')
    cx.assume(z3.Select(dom, k))
    cx.assume(z3.ForAll([j], z3.Implies(z3.Select(dom, j), z3.Select(pr, k) <= z3.Select(pr, j)), patterns=[z3.Select(dom, j)]))
    Ghost.cur.popped = k
    p, node, dist, parent, label = q.at(k)
    q.terms = [z3.Store(dom, k, False)] + q.terms[1:]
    q._w()
    return p, SymInt(k), node, dist, parent, label


def stubs():
    old = la.heappush, la.heappop, la.count
    la.heappush, la.heappop, la.count = push, pop, Counter

    def undo():
        la.heappush, la.heappop, la.count = old
    return undo


class Graph:
    """The domain: any graph."""
    def __init__(self, c):
        self.start = INT.fresh('start')
        self.nact = func('nact', INT, ret=INT)
        self.nxt = func('next', INT, INT, ret=INT)
        self.cost = func('cost', INT, INT, ret=REAL)
        self.goal = func('goal', INT, ret=BOOL)
        self.h = func('h', INT, ret=REAL)
        N, C, X, G, Hh = [f.decls[0] for f in (self.nact, self.cost, self.nxt, self.goal, self.h)]
        self.N, self.C, self.X, self.G, self.H = N, C, X, G, Hh
        x, a = z3.Ints('x!g a!g')
        c.assume(z3.ForAll([x, a], C(x, a) >= 0, patterns=[C(x, a)]))
        c.assume(z3.ForAll([x], Hh(x) >= 0, patterns=[Hh(x)]))
        c.assume(z3.ForAll([x], z3.Implies(G(x), Hh(x) == 0), patterns=[G(x)]))
        c.assume(z3.ForAll([x, a], z3.Implies(z3.And(0 <= a, a < N(x)), Hh(x) <= C(x, a) + Hh(X(x, a))), patterns=[X(x, a)]))
        c.assume(z3.ForAll([x], N(x) >= 0, patterns=[N(x)]))

    def act(self, x, a): return z3.And(0 <= a, a < self.N(x))

    def get_initial_state(self): return self.start

    def get_next_state(self, s, a): return self.nxt(s, a)

    def get_transition_value(self, s, a, n=None):
        engine.CTX.prove('value of the transition made', Implies(True, eqf(n, self.nxt(s, a))))
        from skdecide.core import TransitionValue
        return TransitionValue(cost=self.cost(s, a))

    def is_goal(self, s): return self.goal(s)

    def get_applicable_actions(self, s):
        class A:
            def get_elements(_):
                return SymSeq(self.N(num(s)), lambda i: SymInt(i), INT)
        return A()

    def render(self, *a): pass


def x_(n): return z3.Int(n + '!i')


def invariant(G, gh, Q, N, E, F, empty_path=True):
    """The state between two expansions (or during one: see `cur`)."""
    x, k, a = x_('x'), x_('k'), x_('a')
    inQ, prio, qn, qd, hasp, par, act = Q
    inN, g, h = N
    inE, ehas, epar, eact = E
    s = num(G.start)
    Sel = z3.Select
    out = [('start is discovered at no cost', z3.And(Sel(inN, s), Sel(g, s) == 0)),
           ('heuristics are stored', z3.ForAll([x], z3.Implies(Sel(inN, x), z3.And(Sel(h, x) == G.H(x), Sel(g, x) >= 0)), patterns=[Sel(inN, x)])),
           ('explored are discovered and not goals', z3.ForAll([x], z3.Implies(Sel(inE, x), z3.And(Sel(inN, x), z3.Not(G.G(x)), Sel(g, x) + G.H(x) <= F)),
                                                               patterns=[Sel(inE, x)])),
           ('numbers are fresh', z3.And(num(gh.n) >= 0, z3.ForAll([k], z3.Implies(Sel(inQ, k), z3.And(k >= 0, k < num(gh.n))), patterns=[Sel(inQ, k)]))),
           ('entries', z3.ForAll([k], z3.Implies(Sel(inQ, k), z3.And(
               Sel(prio, k) >= F, Sel(prio, k) == Sel(qd, k) + G.H(Sel(qn, k)), Sel(inN, Sel(qn, k)), Sel(qd, k) >= Sel(g, Sel(qn, k)),
               z3.If(Sel(hasp, k),
                     z3.And(Sel(inE, Sel(par, k)), G.act(Sel(par, k), Sel(act, k)), G.X(Sel(par, k), Sel(act, k)) == Sel(qn, k),
                            Sel(qd, k) == Sel(g, Sel(par, k)) + G.C(Sel(par, k), Sel(act, k))),
                     z3.And(Sel(qn, k) == s, Sel(qd, k) == 0)))), patterns=[Sel(inQ, k)])),
           ('explored come from explored', z3.ForAll([x], z3.Implies(Sel(inE, x), z3.If(
               Sel(ehas, x), z3.And(Sel(inE, Sel(epar, x)), G.act(Sel(epar, x), Sel(eact, x)), G.X(Sel(epar, x), Sel(eact, x)) == x,
                                    Sel(g, x) == Sel(g, Sel(epar, x)) + G.C(Sel(epar, x), Sel(eact, x)),
                                    Sel(gh.ordA, Sel(epar, x)) < Sel(gh.ordA, x)),
               x == s)), patterns=[Sel(inE, x)])),
           ('order of expansion', z3.And(gh.tick >= 0, z3.ForAll([x], z3.Implies(Sel(inE, x), z3.And(Sel(gh.ordA, x) >= 0, Sel(gh.ordA, x) < gh.tick)),
                                                                 patterns=[Sel(inE, x)])))]
    return out


def best_entry(G, gh, Q, N, E):
    x = x_('x')
    inQ, prio, qn, qd = Q[:4]
    Sel = z3.Select
    return ('every discovered state waits at its cost', z3.ForAll([x], z3.Implies(
        z3.And(Sel(N[0], x), z3.Not(Sel(E[0], x))),
        z3.And(Sel(inQ, Sel(gh.wit, x)), Sel(qn, Sel(gh.wit, x)) == x, Sel(qd, Sel(gh.wit, x)) == Sel(N[1], x))), patterns=[Sel(N[0], x)]))


def closed(G, N, E, skip=None, upto=None):
    x, a = x_('x'), x_('a')
    Sel = z3.Select
    lim = G.act(x, a)
    if skip is not None:
        lim = z3.And(lim, x != skip)
    return ('successors of explored states are discovered at no more than their cost', z3.ForAll([x, a], z3.Implies(
        z3.And(Sel(E[0], x), lim), z3.And(Sel(N[0], G.X(x, a)), Sel(N[1], G.X(x, a)) <= Sel(N[1], x) + G.C(x, a))), patterns=[z3.MultiPattern(Sel(E[0], x), G.X(x, a))]))


@contract('search', S + '_solve_domain', setup=stubs)
def _(c):
    G = Graph(c)
    sv = object.__new__(la.LazyAstar)
    own = c.case('start given', [False, True])
    given = INT.fresh('given')
    if own:
        G.start = given
    la.LazyAstar.__init__(sv, given if own else None, lambda d, s: G.h(s))
    c.prove('solver keeps its settings', And(sv._from_state is (given if own else None), sv._weight == 1))
    gh = Ghost(c)
    gh.tick = z3.IntVal(0)
    gh.ordA = z3.K(z3.IntSort(), z3.IntVal(0))
    s = num(G.start)
    gh.wit = z3.Store(gh.wit, s, 0)

    def queue_terms(q):
        if type(q) is list:
            d = {e[1]: (e[0],) + tuple(e[2:]) for e in q}
            return QUEUE.unwrap(d)
        return QUEUE.unwrap(q)

    def st(lp):
        l = lp.locals
        return queue_terms(l['queue']), ENQ.unwrap(l['enqueued']), EXP.unwrap(l['explored'])

    # -- the search loop
    def inv(lp):
        Q, N, E = st(lp)
        F = num(lp.locals['estim_total'])
        F = z3.ToReal(F) if F.sort() == z3.IntSort() else F
        c.prove('no path yet', lp.locals['path'] == [] if type(lp.locals['path']) is list else False)
        if lp.phase == 'assume' and own:
            c.assume(False)      # from here on as in the other case
        if lp.phase == 'assume':
            gh.Q, gh.N, gh.E, gh.F, gh.p = Q, N, E, F, None
        return invariant(G, gh, Q, N, E, F) + [best_entry(G, gh, Q, N, E), closed(G, N, E)]

    def havoc_ghost(lp):
        gh.n = INT.fresh('count')
        gh.wit = z3.Const(c.fresh_name('wit'), gh.wit.sort())
        gh.ordA = z3.Const(c.fresh_name('ord'), gh.ordA.sort())
        gh.tick = z3.Int(c.fresh_name('tick'))
        return []

    def havoc_inner(lp):
        gh.n = INT.fresh('count')
        gh.wit = z3.Const(c.fresh_name('wit'), gh.wit.sort())
        return []

    # -- the successors of one state
    def kmax(lp):
        return num(lp.i)

    def inv_in(lp):
        Q, N, E = st(lp)
        l = lp.locals
        F = num(l['estim_total'])
        cur = num(l['curnode'])
        if lp.phase == 'establish':
            gh.at_entry = N
            # curnode has just been expanded
            gh.ordA = z3.Store(gh.ordA, cur, gh.tick)
            gh.tick = gh.tick + 1
        Sel = z3.Select
        src = lp.seq
        j, x = x_('j'), x_('x')
        done = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < lp.i), z3.And(
            Sel(N[0], num(src.elem(j)[0])), Sel(N[1], num(src.elem(j)[0])) <= Sel(N[1], cur) + num(src.elem(j)[1]))),
            patterns=[num(src.elem(j)[0])])
        N0 = gh.at_entry
        grow = z3.ForAll([x], z3.Implies(Sel(N0[0], x), z3.And(Sel(N[0], x), Sel(N[1], x) <= Sel(N0[1], x),
                                                               z3.Implies(Sel(E[0], x), Sel(N[1], x) == Sel(N0[1], x)))), patterns=[Sel(N0[0], x)])
        return invariant(G, gh, Q, N, E, F) + [
            best_entry(G, gh, Q, N, E), closed(G, N, E, skip=cur),
            ('the expanded state', z3.And(Sel(E[0], cur), Sel(N[1], cur) == num(l['dist']), F == num(l['dist']) + G.H(cur))),
            ('successors so far', done), ('known states only get cheaper', grow)]

    # -- the path back to the start
    def ph(lp):
        p = PATH.unwrap(lp.locals['path'])
        Q, N, E = st(lp)
        return p, N, E

    def path_inv(p, N, E, goal):
        """The path is stored from its end: entry 0 is the goal, entry k leads to entry k - 1."""
        n, pn, pl, pa = p
        j, i, Sel = x_('j'), x_('i'), z3.Select
        on = z3.And(1 <= j, j < n)
        al = lambda f, cond=on: z3.ForAll([j], z3.Implies(cond, f), patterns=[Sel(pn, j)])
        return [('ends in the goal', z3.And(n >= 1, Sel(pn, 0) == goal, z3.Not(Sel(pl, 0)))),
                ('discovered', al(Sel(N[0], Sel(pn, j)), z3.And(0 <= j, j < n))),
                ('expanded', al(z3.And(Sel(E[0], Sel(pn, j)), Sel(pl, j)))),
                ('actions', al(G.act(Sel(pn, j), Sel(pa, j)))),
                ('transitions', al(Sel(pn, j - 1) == G.X(Sel(pn, j), Sel(pa, j)))),
                ('costs', al(z3.If(j == 1, num(gh.dist), Sel(N[1], Sel(pn, j - 1))) == Sel(N[1], Sel(pn, j)) + G.C(Sel(pn, j), Sel(pa, j)))),
                ('in the order of expansion', z3.ForAll([j, i], z3.Implies(z3.And(1 <= j, j < i, i < n), Sel(gh.ordA, Sel(pn, i)) < Sel(gh.ordA, Sel(pn, j))),
                                                        patterns=[z3.MultiPattern(Sel(pn, j), Sel(pn, i))]))]

    def inv_path(lp):
        p, N, E = ph(lp)
        l = lp.locals
        gh.dist = l['dist']
        node = l['node']
        cur = num(l['curnode'])
        gh.F, gh.p = num(l['estim_total']), p
        first = z3.Select(p[1], p[0] - 1)
        return path_inv(p, N, E, cur) + [
            ('where it stands', first == s if node is None else And(first == num(node), z3.Select(E[0], num(node)), p[0] >= 2))]

    # -- the policy
    def inv_pol(lp):
        p, N, E = ph(lp)
        l = lp.locals
        pol, val, plan = POL.unwrap(sv._policy), VAL.unwrap(sv._values), SeqTy(INT).unwrap(sv._plan)
        x, j, Sel = x_('x'), x_('j'), z3.Select
        F = num(l['estim_total'])
        i, n = lp.i, p[0]
        on = z3.And(n - i <= j, j < n)
        al = lambda f, cond=on: z3.ForAll([j], z3.Implies(cond, f), patterns=[Sel(p[1], j)])
        return [('policy on the states of the path so far', z3.ForAll([x], z3.Implies(Sel(pol[0], x), z3.Exists([j], z3.And(on, Sel(p[1], j) == x))),
                                                                     patterns=[Sel(pol[0], x)])),
                ('values on the same states', val[0] == pol[0]),
                ('defined', al(Sel(pol[0], Sel(p[1], j)))),
                ('policy', al(z3.And(Sel(pol[1], Sel(p[1], j)) == Sel(p[2], j), z3.Implies(Sel(p[2], j), Sel(pol[2], Sel(p[1], j)) == Sel(p[3], j))))),
                ('values', al(Sel(val[1], Sel(p[1], j)) == F - Sel(N[1], Sel(p[1], j)))),
                ('plan', z3.And(plan[0] == z3.If(i <= n - 1, i, n - 1),
                                z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < plan[0]), Sel(plan[1], j) == Sel(p[3], n - 1 - j)), patterns=[Sel(plan[1], j)])))]

    MAINTYPES = dict(queue=QUEUE, enqueued=ENQ, explored=EXP, estim_total=REAL, path=Nothing())
    search = lambda lp: lp.kind == 'while' and 'explored' in lp.mut
    succ = lambda lp: lp.kind != 'while' and 'enqueued' in lp.mut
    back = lambda lp: lp.kind == 'while' and 'path' in lp.mut and 'explored' not in lp.mut
    polm = lambda lp: lp.kind == 'SymSeq' and 'enqueued' not in lp.mut
    c.loops += [LoopContract(search, inv, MAINTYPES, havoc_ghost, name='search', args=('queue',)),
                LoopContract(succ, inv_in, dict(enqueued=ENQ, queue=QUEUE), havoc_inner, name='successors', args=('queue',)),
                LoopContract(back, inv_path, dict(path=PATH, node=OptTy(INT), parent=ConstTy(None), label=ConstTy(None)), name='path',
                             decreases=lambda lp: SymInt(z3.IntVal(0) if lp.locals['node'] is None else z3.Select(gh.ordA, num(lp.locals['node'])) + 1)),
                LoopContract(polm, inv_pol, {}, lambda lp: [(sv, '_policy', POL), (sv, '_values', VAL), (sv, '_plan', SeqTy(INT))], name='policy')]
    gh.E = gh.N = gh.F = None
    sv._solve_domain(lambda: G)
    finish(c, G, gh, sv, s)


def finish(c, G, gh, sv, s):
    N, E, F, Q = gh.N, gh.E, gh.F, gh.Q
    Sel = z3.Select
    x, a, j = x_('x'), x_('a'), x_('j')
    pol, val, plan = POL.unwrap(sv._policy), VAL.unwrap(sv._values), SeqTy(INT).unwrap(sv._plan)
    if gh.p is None:
        # no plan: the explored states are closed under transitions and hold no goal, so none can be reached
        c.prove('no policy without a plan', z3.And(pol[0] == z3.K(z3.IntSort(), z3.BoolVal(False)), val[0] == pol[0], plan[0] == 0))
        c.prove('no plan: start explored', Sel(E[0], s))
        c.prove('no plan: explored states closed under transitions', z3.ForAll([x, a], z3.Implies(z3.And(Sel(E[0], x), G.act(x, a)), Sel(E[0], G.X(x, a)))))
        c.prove('no plan: no explored goal', z3.ForAll([x], z3.Implies(Sel(E[0], x), z3.Not(G.G(x)))))
        probe(c, G, sv, None)
        return
    n, pn, pl, pa = gh.p                                         # from the end
    cost = num(gh.dist)
    g = lambda j: z3.If(j == 0, cost, Sel(N[1], Sel(pn, j)))
    al = lambda f, lo: z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < n), f), patterns=[Sel(pn, j)])
    c.prove('plan starts at the start', z3.And(Sel(pn, n - 1) == s, g(n - 1) == 0))
    c.prove('plan ends in a goal', G.G(Sel(pn, 0)))
    act = Sel(pol[2], Sel(pn, j))
    c.prove('following the policy leads along the path', al(z3.And(
        Sel(pol[0], Sel(pn, j)), Sel(pol[1], Sel(pn, j)), G.act(Sel(pn, j), act), G.X(Sel(pn, j), act) == Sel(pn, j - 1)), 1))
    c.prove('its cost adds up', al(g(j - 1) == g(j) + G.C(Sel(pn, j), act), 1))
    c.prove('policy defined on the path only', z3.And(al(Sel(pol[0], Sel(pn, j)), 0), z3.ForAll([x], z3.Implies(
        Sel(pol[0], x), z3.Exists([j], z3.And(0 <= j, j < n, Sel(pn, j) == x))))))
    c.prove('utility on the path: what remains to be paid', al(z3.And(Sel(val[0], Sel(pn, j)), Sel(val[1], Sel(pn, j)) == cost - g(j)), 0))
    c.prove('plan is the actions on the path', z3.And(plan[0] == n - 1, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n - 1),
                                                                                     Sel(plan[1], j) == Sel(pol[2], Sel(pn, n - 1 - j))), patterns=[Sel(plan[1], j)])))
    # any other path from the start to a goal costs at least as much: pi bounds the cost of reaching a state from below
    pi = lambda t: z3.If(Sel(E[0], t), Sel(N[1], t), F - G.H(t))
    u, t = z3.Ints('u!any t!any')
    paid = z3.Real('paid!any')
    c.prove('bound: nothing is paid at the start', pi(s) <= 0)
    c.prove('bound: step', z3.Implies(z3.And(G.act(u, t), pi(u) <= paid), pi(G.X(u, t)) <= paid + G.C(u, t)))
    c.prove('bound: goals cost at least the plan', z3.Implies(z3.And(G.G(u), pi(u) <= paid), cost <= paid))
    probe(c, G, sv, gh)


def probe(c, G, sv, gh):
    """The public queries, at any state."""
    o = INT.fresh('obs')
    on = o in sv._policy
    c.prove('policy defined', sv._is_policy_defined_for(o) == on)
    if on:
        a = sv._policy[o]
        b = sv._get_next_action(o)
        c.prove('next action', (a is None) == (b is None) and (a is None or eqf(a, b)))
        c.prove('utility on the path', eqf(sv._get_utility(o), sv._values[o]))
    else:
        c.prove('utility elsewhere: the heuristic', eqf(sv._get_utility(o), G.h(o)))
