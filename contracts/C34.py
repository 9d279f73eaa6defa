"""Gym environments as domains and back (skdecide.hub.domain.gym)."""
import numpy as np
import gym.spaces as gs
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
import skdecide.hub.domain.gym.gym as G
from skdecide import TransitionOutcome, TransitionValue

CONTRACTS = contract = Registry()
MBQI, FEAS_MS, TIMEOUT_MS = False, 500, 5000
ASSUMPTIONS = ['an environment is deterministic: observation, reward, end and info of a step are functions of its state and the action; copying it '
               'gives an environment in the same state that shares nothing with it', 'observations do not change after they are returned',
               'cells of boxes are reals; lists of deviations are sorted']
M = 'skdecide.hub.domain.gym.gym:'
Sel = z3.Select


def patched(**kw):
    old = {k: G.__dict__.get(k, patched) for k in kw}
    G.__dict__.update(kw)

    def undo():
        for k, v in old.items():
            if v is patched:
                del G.__dict__[k]
            else:
                G.__dict__[k] = v
    return undo


def quiet(*a, **k): pass


class Env:
    """A deterministic environment with a state of its own."""
    def __init__(self, w, st): self.w, self.st, self.log = w, st, []
    observation_space = property(lambda self: self.w.ospace)
    action_space = property(lambda self: self.w.aspace)

    def reset(self):
        self.st = self.w.init(SymInt(z3.Const(engine.CTX.fresh_name('reset'), z3.IntSort())))
        self.log.append('reset')
        return self.w.ob(self.st)

    def step(self, a):
        s, self.st = self.st, self.w.nxt(self.st, a)
        return self.w.ob(self.st), self.w.rew(s, a), self.w.done(s, a), self.w.info(s, a)

    def render(self, *a, **k):
        self.log.append(('render', a, k))
        return self.w.picture

    def close(self):
        self.log.append('close')
        return self.w.closed


class World:
    def __init__(self):
        self.init, self.ob, self.nxt, self.info = func('init', INT), func('obs', OBJ), func('next', OBJ, OBJ), func('info', OBJ, OBJ)
        self.rew, self.done = func('reward', OBJ, OBJ, ret=REAL), func('done', OBJ, OBJ, ret=BOOL)
        self.ospace, self.aspace = gs.Discrete(3), gs.Discrete(2)
        self.picture, self.closed = OBJ.fresh('picture'), OBJ.fresh('closed')
        self.made = []

    def copy(self, e):
        assert isinstance(e, Env)
        d = Env(self, e.st)
        self.made.append((e, d))
        return d

    def outcome(self, c, out, s, a, proxy):
        o = out.state
        if proxy:
            c.prove('state is wrapped', type(o) is G.GymDomainStateProxy)
            o = o._state
        c.prove('observation of the environment', eqf(o, self.ob(self.nxt(s, a))))
        c.prove('reward of the environment', eqf(out.value.reward, self.rew(s, a)))
        c.prove('cost is the negated reward', eqf(out.value.cost, -self.rew(s, a)))
        c.prove('end of the environment', eqf(out.termination, self.done(s, a)))
        c.prove('info of the environment', eqf(out.info, self.info(s, a)))


def delegation(c, dom, env, closes):
    w = env.w
    c.prove('unwrapped', dom.unwrapped() is env)
    c.prove('action space', type(dom.get_action_space()) is G.GymSpace and dom.get_action_space().unwrapped() is w.aspace)
    c.prove('observation space', type(dom.get_observation_space()) is G.GymSpace and dom.get_observation_space().unwrapped() is w.ospace)
    del env.log[:]
    mode = OBJ.fresh('mode')
    c.prove('rendering', eqf(dom._render_from(None), w.picture))
    c.prove('no mode asked for', [x for x in env.log if x != 'close'] == [('render', (), {})] and (closes or len(env.log) == 1))
    del env.log[:]
    c.prove('rendering in a mode', eqf(dom._render_from(None, mode=mode), w.picture))
    r = [x for x in env.log if x != 'close']
    c.prove('the mode is passed on', len(r) == 1 and r[0][1] == () and set(r[0][2]) == {'mode'} and r[0][2]['mode'] is mode)
    del env.log[:]
    c.prove('closing', eqf(dom.close(), w.closed))
    c.prove('closed once', env.log == ['close'])


@contract('GymDomain', *[M + 'GymDomain.' + m for m in ('__init__', '_state_reset', '_state_step', '_get_action_space_', '_get_observation_space_',
                                                        '_render_from', 'close', 'unwrapped')],
          M + 'GymDomainHashable.__init__', M + 'GymDomainHashable._state_reset', M + 'GymDomainHashable._state_step')
def gymdomain(c):
    w = World()
    proxy = c.case('wrapped states', [False, True])
    env = Env(w, OBJ.fresh('s'))
    dom = (G.GymDomainHashable if proxy else G.GymDomain)(env)
    o = dom._state_reset()
    c.prove('one reset', env.log == ['reset'])
    c.prove('state is wrapped as asked', (type(o) is G.GymDomainStateProxy) == proxy)
    c.prove('first observation', eqf(o._state if proxy else o, w.ob(env.st)))
    s = env.st = OBJ.fresh('now')
    a = OBJ.fresh('a')
    w.outcome(c, dom._state_step(a), s, a, proxy)
    c.prove('the environment moved', eqf(env.st, w.nxt(s, a)))
    delegation(c, dom, env, False)


def shapes():
    """Nested contents: leaves are ('x', index)."""
    L = lambda i: ('x', i)
    return [L(0), ('t', L(0), L(1)), ('t',), ('d', L(0), L(1), L(2)), ('t', ('d', L(0)), ('t', L(1), ('t',)), L(2))]


@contract('GymDomainStateProxy', *[M + 'GymDomainStateProxy.' + m for m in ('__init__', '__eq__', '__hash__', 'flatten', '__str__', '__repr__')])
def proxies(c):
    sh = c.case('shape', shapes())
    n = 3

    def build(t, xs):
        if t[0] == 'x':
            return xs[t[1]]
        sub = [build(u, xs) for u in t[1:]]
        return tuple(sub) if t[0] == 't' else {'k%d' % i: u for i, u in enumerate(sub)}

    def used(t): return {t[1]} if t[0] == 'x' else {i for u in t[1:] for i in used(u)}
    xs, ys = [OBJ.fresh('x') for _ in range(n)], [OBJ.fresh('y') for _ in range(n)]
    p, q = G.GymDomainStateProxy(build(sh, xs), context=1), G.GymDomainStateProxy(build(sh, ys), context=2)
    same = z3.And(*[eqf(xs[i], ys[i]) for i in used(sh)]) if used(sh) else z3.BoolVal(True)
    c.prove('equal iff their contents are', ev(lambda: p == q) == same)
    r = G.GymDomainStateProxy('text' if c.case('content', ['str', 'float']) == 'str' else 1.5, context=2)
    c.prove('text', str(r) == str(r._state) and repr(r) == repr(r._state))
    keys = []

    def record(t):
        keys.append(t)
        return 7
    old = G.__dict__.get('hash', proxies)
    G.hash = record
    try:
        hp, hq = hash(p), hash(q)
    finally:
        if old is proxies:
            del G.hash
        else:
            G.hash = old
    c.prove('hash of the contents', len(keys) == 2 and type(keys[0]) is tuple and len(keys[0]) == len(keys[1]) and hp == hq == 7)
    c.prove('equal contents are hashed alike', z3.Implies(same, z3.And(*[eqf(a, b) for a, b in zip(*keys)]) if keys[0] else z3.BoolVal(True)))


class Access:
    def __init__(self, c, w):
        self.on = c.case('access', ['copy', 'set and get'])
        self.kw = {} if self.on == 'copy' else dict(set_state=self.put, get_state=lambda e: e.st)
        self.on = self.on != 'copy'

    def put(self, e, s): e.st = s


@contract('DeterministicInitializedGymDomain', *[M + 'DeterministicInitializedGymDomain.' + m for m in
          ('__init__', '_state_reset', '_state_step', 'set_memory', '_get_action_space_', '_get_observation_space_', '_render_from', 'close', 'unwrapped')])
def detinit(c):
    w = World()
    undo = patched(deepcopy=w.copy)
    try:
        acc = Access(c, w)
        env = Env(w, OBJ.fresh('s'))
        dom = G.DeterministicInitializedGymDomain(env, **acc.kw)
        given = c.case('initial state', ['first reset', 'given'])
        if given == 'first reset':
            first = dom._state_reset()
            s0 = env.st
            c.prove('one reset', env.log == ['reset'])
        else:
            s0 = OBJ.fresh('s0')
            ctx = s0 if acc.on else Env(w, s0)
            first = G.GymDomainStateProxy(w.ob(s0), ctx)
            dom.set_memory(first)
            c.prove('environment in the state given', eqf(dom._gym_env.st, s0))
        c.prove('first observation', And(type(first) is G.GymDomainStateProxy, eqf(first._state, w.ob(s0))))
        # any history: the current environment is in any state, then stepped
        dom._gym_env.st = OBJ.fresh('anywhere')
        for ep in range(2):
            s, a = dom._gym_env.st, OBJ.fresh('a')
            w.outcome(c, dom._state_step(a), s, a, True)
            again = dom._state_reset()
            c.prove('the first state again', again is first)
            c.prove('content unchanged', eqf(again._state, w.ob(s0)))
            c.prove('environment in its first state', eqf(dom._gym_env.st, s0))
        c.prove('the environment is never reset again', env.log == (['reset'] if given == 'first reset' else []) and
                (dom._gym_env is env or 'reset' not in dom._gym_env.log))
        delegation(c, dom, dom._gym_env, not acc.on)
    finally:
        undo()


class Known:
    """A state the domain may have produced: its environment (or environment state) and the outcome it came from."""
    def __init__(self, w, dom, acc, first, extra=()):
        self.w, self.s = w, OBJ.fresh('m')
        self.env = dom._gym_env if acc.on else Env(w, self.s)
        self.term, self.rew = BOOL.fresh('ended'), REAL.fresh('earned')
        out = None if first else TransitionOutcome(state=w.ob(self.s), value=TransitionValue(reward=self.rew), termination=self.term, info=None)
        self.ctx = [self.env, None if first else OBJ.fresh('prev'), None if first else OBJ.fresh('last'), out, self.s if acc.on else None] + list(extra)
        self.state = G.GymDomainStateProxy(w.ob(self.s), list(self.ctx))

    def unchanged(self, c, acc):
        c.prove('the memory is unchanged', And(len(self.state._context) == len(self.ctx) and all(x is y for x, y in zip(self.state._context, self.ctx)),
                                               eqf(self.state._state, self.w.ob(self.s))))
        if not acc.on:
            c.prove('the environment of the memory is unchanged', eqf(self.env.st, self.s))


def transition(c, w, dom, acc, k, first):
    a = OBJ.fresh('a')
    if acc.on:
        dom._gym_env.st = OBJ.fresh('anywhere')
    n = dom.get_next_state(k.state, a)
    c.prove('next state is a function of memory and action', And(type(n) is G.GymDomainStateProxy, eqf(n._state, w.ob(w.nxt(k.s, a)))))
    if acc.on:
        c.prove('its environment state', eqf(n._context[4], w.nxt(k.s, a)))
    else:
        c.prove('its environment', And(n._context[0] is not k.env and isinstance(n._context[0], Env), eqf(n._context[0].st, w.nxt(k.s, a))))
    c.prove('the environment shown is that of the last transition', And(dom._gym_env is n._context[0], eqf(dom._gym_env.st, w.nxt(k.s, a))))
    v = dom.get_transition_value(k.state, a, n)
    c.prove('value of the transition', And(eqf(v.reward, w.rew(k.s, a)), eqf(v.cost, -w.rew(k.s, a))))
    c.prove('end of the transition', eqf(dom.is_terminal(n), w.done(k.s, a)))
    if first:
        c.prove('the initial state is not terminal', not dom.is_terminal(k.state))
    else:
        c.prove('end of the memory', eqf(dom.is_terminal(k.state), k.term))
    k.unchanged(c, acc)
    return n


@contract('DeterministicGymDomain', *[M + 'DeterministicGymDomain.' + m for m in
          ('__init__', '_get_initial_state_', '_get_next_state', '_get_transition_value', '_is_terminal', '_get_action_space_',
           '_get_observation_space_', '_render_from', 'close', 'unwrapped')])
def deterministic(c):
    w = World()
    undo = patched(deepcopy=w.copy)
    try:
        acc = Access(c, w)
        dom = G.DeterministicGymDomain(Env(w, OBJ.fresh('s')), **acc.kw)
        if c.case('memory', ['initial', 'known']) == 'initial':
            m0 = dom._get_initial_state_()
            s0 = dom._gym_env.st
            c.prove('one reset', dom._gym_env.log == ['reset'])
            c.prove('initial state', And(type(m0) is G.GymDomainStateProxy, eqf(m0._state, w.ob(s0))))
            c.prove('invariant of the context', And(len(m0._context) == 5 and m0._context[0] is dom._gym_env and m0._context[3] is None,
                                                    eqf(m0._context[4], s0) if acc.on else m0._context[4] is None))
            k = Known(w, dom, acc, True)
        else:
            k = Known(w, dom, acc, False)
        n = transition(c, w, dom, acc, k, k.ctx[3] is None)
        c.prove('length of the context', len(n._context) == 5)
        c.prove('no reset', 'reset' not in dom._gym_env.log or k.ctx[3] is None)
        delegation(c, dom, dom._gym_env, not acc.on)
    finally:
        undo()


@contract('GymPlanningDomain', *[M + 'GymPlanningDomain.' + m for m in
          ('__init__', '_get_initial_state_', '_get_next_state', '_get_goals_', '_restart_from_initial_state')])
def planning(c):
    w = World()
    undo = patched(deepcopy=w.copy, print=quiet)
    try:
        acc = Access(c, w)
        wide = c.case('width based', [False, True])

        class Wide(G.GymPlanningDomain, G.GymWidthDomain):
            forgot = 0

            def _reset_features(self): self.forgot += 1
        goal, depth = BOOL.fresh('termination_is_goal'), INT.fresh('max_depth')
        dom = (Wide if wide else G.GymPlanningDomain)(Env(w, OBJ.fresh('s')), termination_is_goal=goal, max_depth=depth, **acc.kw)
        start = c.case('memory', ['initial', 'known', 'first known'])
        same = BOOL.fresh('same_as_initial')
        asked = []

        def are_same(space, e1, e2):
            asked.append((space, e1, e2))
            return same
        dom._are_same = are_same
        if start == 'initial':
            m0 = dom._get_initial_state_()
            c.prove('depth of the initial state', len(m0._context) == 7 and m0._context[5] == 0)
            c.prove('initial state', eqf(m0._state, w.ob(dom._gym_env.st)))
            c.prove('it is the initial state', dom._initial_state is m0)
        dd, acc_r = INT.fresh('depth'), REAL.fresh('accumulated')
        first = start == 'initial'
        k = Known(w, dom, acc, first, (dd, acc_r))
        busy = False
        if start != 'first known':
            dom._initial_state = G.GymDomainStateProxy(OBJ.fresh('first'))
            busy = dom._restarting_from_initial_state = c.case('expanding the initial state', [False, True])
        ini = dom._initial_state
        c.assume(dd >= 0)
        n = transition(c, w, dom, acc, k, first)
        c.prove('depth of the next state', And(len(n._context) == 7, eqf(n._context[5], dd + 1)))
        c.prove('compared with the initial state', len(asked) == 1 and asked[0][0] is w.ospace and asked[0][1] is k.state._state and
                asked[0][2] is (ini._state if ini is not None else k.state._state))
        c.prove('initial state kept', dom._initial_state is (ini if ini is not None else k.state))
        if wide:
            c.prove('features are forgotten when the search restarts, once', eqf(SymInt(z3.IntVal(dom.forgot)),
                    SymInt(z3.If(z3.And(same.t, z3.BoolVal(not busy)), z3.IntVal(1), z3.IntVal(0)))))
            c.prove('restart is remembered until another state is expanded', eqf(dom._restarting_from_initial_state, same))
        g = lambda x: ev(lambda: dom.is_goal(x))
        c.prove('goal iff deep enough or terminal where asked', g(n) == z3.Or((dd + 1 >= depth).t, z3.And(goal.t, w.done(k.s, asked_action(n)).t)))
        c.prove('memory is a goal iff deep enough or terminal where asked', g(k.state) == z3.Or((dd >= depth).t, z3.And(goal.t, z3.BoolVal(False) if first else k.term.t)))
    finally:
        undo()


def asked_action(n): return n._context[2]


@contract('_are_same', M + 'DeterministicGymDomain._are_same')
def are_same(c):
    dom = G.DeterministicGymDomain(None)
    kind = c.case('space', ['discrete', 'tuple', 'dict', 'arrays'])
    a, b = OBJ.fresh('a'), OBJ.fresh('b')
    if kind == 'discrete':
        c.prove('equal', ev(lambda: dom._are_same(gs.Discrete(3), a, b)) == eqf(a, b))
    elif kind == 'arrays':
        class Arr:
            def __init__(self, r): self.r = r
            def __eq__(self, o): return self
            __hash__ = None
            def all(self): return self.r
        eq = BOOL.fresh('all_equal')
        sp = c.case('arrays', [gs.Box(0., 1., (2,)), gs.MultiBinary(2), gs.MultiDiscrete([2, 3])])
        c.prove('all cells are equal', ev(lambda: dom._are_same(sp, Arr(eq), Arr(eq))) == eq.t)
    else:
        parts = [gs.Discrete(2), gs.Discrete(3), gs.Discrete(4)]
        xs, ys = [OBJ.fresh('x') for _ in parts], [OBJ.fresh('y') for _ in parts]
        if kind == 'tuple':
            sp, e, f = gs.Tuple(tuple(parts)), tuple(xs), tuple(ys)
        else:
            sp, e, f = gs.Dict({'k%d' % i: p for i, p in enumerate(parts)}), {'k%d' % i: x for i, x in enumerate(xs)}, {'k%d' % i: y for i, y in enumerate(ys)}
        c.prove('all components are equal', ev(lambda: dom._are_same(sp, e, f)) == z3.And(*[eqf(x, y) for x, y in zip(xs, ys)]))


# ---------------------------------------------------------------- features

class Cells:
    """An array of reals."""
    def __init__(self, xs): self.xs = xs
    size = property(lambda self: len(self.xs))
    def item(self, i): return self.xs[i]


def bisect_contract(c, gh):
    def left(inc, x):
        """The first place where x may be inserted (the list is sorted)."""
        if type(inc) is list and isinstance(inc, list) and not hasattr(inc, 'arrays'):
            k = 0
            while k < len(inc) and inc[k] < x:
                k += 1
            return k
        i = INT.fresh('place')
        j = z3.Int('j')
        v = lambda q: Sel(inc.arrays[1], q)
        xt = num(x)
        engine.CTX.assume(And(0 <= i, i <= SymInt(inc.n),
                              fa([j], z3.Implies(z3.And(0 <= j, j < i.t), v(j) < xt), v(j)),
                              fa([j], z3.Implies(z3.And(i.t <= j, j < inc.n), v(j) >= xt), v(j)),
                              z3.Implies(i.t < inc.n, v(i.t) >= xt), z3.Implies(i.t > 0, v(i.t - 1) < xt)))
        gh.setdefault('bisect', []).append((inc, x, i))
        return i

    class B:
        bisect_left = staticmethod(left)
    return B


class Kids:
    """The nodes below: as many as deviations, less one."""
    def __init__(self, n): self.n, self.new = n, []
    def append(self, x): self.new.append(x)

    def __getitem__(self, i):
        engine.CTX.prove('a node below exists', z3.And(0 <= num(i), num(i) < self.n))
        return G.GymWidthDomain.BEE1Node(REAL.fresh('below'))


@contract('bee1_features', M + 'GymWidthDomain._bee1_features', M + 'GymWidthDomain.bee1_features', M + 'GymWidthDomain._init_bee1_features',
          M + 'GymWidthDomain.__init__', M + 'GymWidthDomain._reset_features', M + 'GymWidthDomain.BEE1Node.__init__')
def bee1(c):
    gh = {}
    undo = patched(bisect=bisect_contract(c, gh))
    try:
        d = G.GymWidthDomain()
        box = gs.Box(0., 1., (2,))

        class E:
            observation_space = box
        d._gym_env = E
        xs = [REAL.fresh('x') for _ in range(2)]
        wrap = c.case('wrapped', [False, True])
        obs = lambda v: G.GymDomainStateProxy(Cells(v)) if wrap else Cells(v)
        if c.case('history', ['first', 'any']) == 'first':
            d._reset_features()
            f = d.bee1_features(obs(xs))
            c.prove('start of each variable', And(len(d._init_continuous_state_variables) == 2, *[eqf(a, b) for a, b in zip(d._init_continuous_state_variables, xs)]))
            c.prove('two lists of deviations each', len(d._feature_increments) == 4)
            c.prove('no deviation yet', And(*[eqf(n.increments[0], 0) for n in d._feature_increments]))
            c.prove('first layer', And(len(f) == 2, *[eqf(v, 0) for v in f]))
            return
        ref = [REAL.fresh('start') for _ in range(2)]
        d._init_continuous_state_variables = list(ref)
        nodes = []
        for i in range(4):
            n = G.GymWidthDomain.BEE1Node(ref[i // 2])
            n.increments = SeqTy(REAL).fresh('increments')
            A, j, q = n.increments.arrays[1], z3.Int('j'), z3.Int('q')
            c.assume(And(n.increments.n > 0, Sel(A, 0) == 0, fa([j, q], z3.Implies(z3.And(0 <= j, j < q, q < n.increments.n), Sel(A, j) < Sel(A, q)), (Sel(A, j), Sel(A, q)))))
            n.before = n.increments.copy()
            n.children = Kids(n.increments.n - 1)
            nodes.append(n)
        d._feature_increments = list(nodes)
        f = d.bee1_features(obs(xs))
        c.prove('one feature per variable', len(f) == 2)
        used = gh['bisect']
        c.prove('one search per variable', len(used) == 2)
        for v in range(2):
            up = (xs[v] > ref[v]).t
            side = 0 if used[v][0] is nodes[2 * v].increments else 1
            c.prove('deviations of variable %d on its side' % v, And(used[v][0] is nodes[2 * v + side].increments, up == z3.BoolVal(side == 0)))
            n, dev = nodes[2 * v + side], num(xs[v] - ref[v]) if side == 0 else num(ref[v] - xs[v])
            layer, j = used[v][2].t, z3.Int('j')
            B = n.before.arrays[1]
            c.prove('layer %d: deviations below are smaller' % v, fa([j], z3.Implies(z3.And(0 <= j, j < layer), Sel(B, j) < dev), Sel(B, j)))
            c.prove('layer %d: others are not' % v, fa([j], z3.Implies(z3.And(layer <= j, j < n.before.n), Sel(B, j) >= dev), Sel(B, j)))
            c.prove('feature %d is the signed layer' % v, num(f[v]) == (layer if side == 0 else -layer))
            A = n.increments.arrays[1]
            grew = layer >= n.before.n
            c.prove('a larger deviation is added (%d)' % v, z3.If(grew, z3.And(n.increments.n == n.before.n + 1, Sel(A, n.before.n) == dev), n.increments.n == n.before.n))
            c.prove('earlier deviations are kept (%d)' % v, fa([j], z3.Implies(z3.And(0 <= j, j < n.before.n), Sel(A, j) == Sel(B, j)), Sel(A, j)))
            kids = n.children.new
            c.prove('a node for each deviation but the first (%d)' % v, z3.BoolVal(len(kids) == 1) == grew)
            if kids:
                c.prove('it starts at the deviation below (%d)' % v, And(len(kids[0].children) == 0, len(kids[0].increments) == 1, kids[0].increments[0] == 0,
                        num(kids[0].reference) == (num(ref[v]) + Sel(B, layer - 1) if side == 0 else num(ref[v]) - Sel(B, layer - 1))))
            o = nodes[2 * v + 1 - side]
            c.prove('the other side is unchanged (%d)' % v, seq_eq(o.increments, o.before))
    finally:
        undo()


class Children:
    """The children of a node: as many as intervals, searched through their own contract."""
    def __init__(self, n): self.n, self.new, self.asked = n, [], []

    def __iadd__(self, other):
        self.new += list(other)
        return self

    def __getitem__(self, k):
        me = self

        class Child:
            def eval(self, x, level=0):
                me.asked.append((k, x, level))
                return func('child', INT, REAL, INT)(k, x, SymInt(z3.IntVal(level))),
        return Child()


@contract('BEE2Node.eval', M + 'GymWidthDomain.BEE2Node.__init__', M + 'GymWidthDomain.BEE2Node.eval')
def bee2(c):
    N = G.GymWidthDomain.BEE2Node
    level = c.case('level', [0, 2])
    x = REAL.fresh('x')
    if c.case('history', ['first', 'any']) == 'first':
        n = N()
        r = n.eval(x, level)
        c.prove('first interval', r == (0,) + (-1,) * level)
        c.prove('interval of one point', And(len(n.I) == 1 and len(n.children) == 1 and type(n.children[0]) is N, eqf(n.I[0][0], x), eqf(n.I[0][1], x), eqf(n.llb, x), eqf(n.gub, x)))
        return
    n = N()
    I = n.I = SeqTy(TupTy(REAL, REAL)).fresh('I')
    n.llb, n.gub = lo, hi = REAL.fresh('llb'), REAL.fresh('gub')
    n.children = Children(I.n)
    before = I.copy()
    L, H = before.arrays[1], before.arrays[2]
    wit = z3.Function('covers', z3.RealSort(), z3.IntSort())
    j, y = z3.Int('j'), z3.Real('y')
    inr = lambda k, m: z3.And(0 <= k, k < m)
    has = lambda k, v: z3.And(Sel(L, k) <= v, v <= Sel(H, k))
    # invariant: the intervals are within the bounds and cover everything between them
    c.assume(And(before.n > 0, lo <= hi, fa([j], z3.Implies(inr(j, before.n), z3.And(lo.t <= Sel(L, j), Sel(L, j) <= Sel(H, j), Sel(H, j) <= hi.t)), Sel(L, j), Sel(H, j)),
                 fa([y], z3.Implies(z3.And(lo.t <= y, y <= hi.t), z3.And(inr(wit(y), before.n), has(wit(y), y))), wit(y))))

    def inv(lp):
        return [('not in an earlier interval', fa([j], z3.Implies(inr(j, lp.i), z3.Not(has(j, x.t))), Sel(L, j)))]
    c.loops.append(LoopContract(lambda lp: True, inv, {}, name='intervals'))
    c.assume(z3.Implies(z3.And(lo.t <= x.t, x.t <= hi.t), z3.And(inr(wit(x.t), before.n), has(wit(x.t), x.t))))
    r = n.eval(x, level)
    c.prove('one feature per level', type(r) is tuple and len(r) == (level + 1 if n.children.new or level == 0 else 2))
    k = num(r[0])
    I2 = n.I
    A, B = I2.arrays[1], I2.arrays[2]
    c.prove('the feature is an interval', inr(k, I2.n))
    c.prove('that contains the value', z3.And(Sel(A, k) <= x.t, x.t <= Sel(B, k)))
    c.prove('the first one', fa([j], z3.Implies(inr(j, k), z3.Not(z3.And(Sel(A, j) <= x.t, x.t <= Sel(B, j)))), Sel(A, j)))
    outside = z3.Or(x.t < lo.t, x.t > hi.t)
    c.prove('a new interval iff outside the bounds', z3.And(I2.n == z3.If(outside, before.n + 1, before.n), z3.BoolVal(len(n.children.new) == 1) == outside))
    c.prove('earlier intervals are kept', fa([j], z3.Implies(inr(j, before.n), z3.And(Sel(A, j) == Sel(L, j), Sel(B, j) == Sel(H, j))), Sel(A, j), Sel(B, j)))
    nl, nh = num(n.llb), num(n.gub)
    c.prove('bounds', z3.And(nl == z3.If(x.t < lo.t, x.t, lo.t), nh == z3.If(x.t > hi.t, x.t, hi.t)))
    c.prove('intervals within the bounds', fa([j], z3.Implies(inr(j, I2.n), z3.And(nl <= Sel(A, j), Sel(A, j) <= Sel(B, j), Sel(B, j) <= nh)), Sel(A, j), Sel(B, j)))
    w = lambda v: z3.If(z3.And(lo.t <= v, v <= hi.t), wit(v), before.n)
    c.prove('everything between the bounds is covered', fa([y], z3.Implies(z3.And(nl <= y, y <= nh), z3.And(inr(w(y), I2.n), Sel(A, w(y)) <= y, y <= Sel(B, w(y)))), wit(y)))
    if n.children.new:
        c.prove('no feature below a new interval', len(r) == level + 1 and all(type(v) is int and v == -1 for v in r[1:]))
        c.prove('a new node for it', type(n.children.new[0]) is N and n.children.asked == [])
    elif level:
        c.prove('searched in the node of the interval', len(n.children.asked) == 1 and n.children.asked[0][1] is x and n.children.asked[0][2] == level - 1)
        c.prove('of that interval', And(eqf(n.children.asked[0][0], r[0]), eqf(r[1], func('child', INT, REAL, INT)(r[0], x, SymInt(z3.IntVal(level - 1))))))


class Np:
    def __init__(self): self.norms = []

    @staticmethod
    def array(x): return Vec(x)
    linalg = property(lambda self: self)

    def norm(self, v):
        r = REAL.fresh('norm')
        engine.CTX.assume(r >= 0)
        self.norms.append((v, r))
        return r


class Vec:
    def __init__(self, xs): self.xs = list(xs)
    def __sub__(self, o): return Vec([a - b for a, b in zip(self.xs, o.xs)])
    def __getitem__(self, i): return self.xs[i]


@contract('EllipticalMapping2D', M + 'GymWidthDomain.EllipticalMapping2D.__init__', M + 'GymWidthDomain.EllipticalMapping2D.evaluate')
def elliptical(c):
    np_ = Np()
    undo = patched(np=np_)
    try:
        pt = lambda n: [REAL.fresh(n) for _ in range(3)]
        x0, xg, s = pt('x0'), pt('xG'), pt('s')
        i, j = c.case('variables', [(0, 1), (0, 2), (1, 2)])
        bands = SeqTy(REAL).fresh('bands')
        V, p, q = bands.arrays[1], z3.Int('p'), z3.Int('q')
        c.assume(And(bands.n >= 0, fa([p, q], z3.Implies(z3.And(0 <= p, p < q, q < bands.n), Sel(V, p) >= Sel(V, q)), (Sel(V, p), Sel(V, q)))))
        m = G.GymWidthDomain.EllipticalMapping2D((i, j), x0, xg, bands)

        def inv(lp):
            d = np_.norms[-1][1].t
            return [('earlier bands are further', fa([p], z3.Implies(z3.And(0 <= p, p < lp.i), d <= Sel(V, p)), Sel(V, p)))]
        c.loops.append(LoopContract(lambda lp: True, inv, {}, name='bands'))
        r = num(m.evaluate(s))
        c.prove('one distance', len(np_.norms) == 1)
        v, d = np_.norms[0]
        c.prove('distance to the goal in the two variables', And(len(v.xs) == 2, z3.Or(z3.And(eqf(v.xs[0], s[i] - xg[i]), eqf(v.xs[1], s[j] - xg[j])),
                                                                                      z3.And(eqf(v.xs[0], xg[i] - s[i]), eqf(v.xs[1], xg[j] - s[j])))))
        n, d = bands.n, d.t
        c.prove('number of bands closer than the distance', z3.And(0 <= r, r <= n, fa([p], z3.Implies(z3.And(0 <= p, p < n), (d > Sel(V, p)) == (p >= n - r)), Sel(V, p))))
    finally:
        undo()


def composite(kind):
    parts = [gs.Discrete(2), gs.MultiBinary(2), gs.Discrete(4)]
    if kind == 'tuple':
        return parts, gs.Tuple(tuple(parts)), lambda xs: tuple(xs)
    d = gs.Dict({'k%d' % i: p for i, p in enumerate(parts)})
    return parts, d, lambda xs: {'k%d' % i: x for i, x in enumerate(xs)}


@contract('features of composite observations', *[M + 'GymWidthDomain.' + m for m in
          ('_binary_features', '_get_variables', '_bee2_features', '_bee1_features', '_init_bee1_features', '_init_bee2_features', 'binary_features',
           'bee2_features', 'nb_of_binary_features')])
def composites(c):
    parts, sp, mk = composite(c.case('space', ['tuple', 'dict']))
    xs = [OBJ.fresh('x') for _ in parts]
    what = c.case('features', ['binary', 'variables', 'bee1', 'bee2', 'start1', 'start2'])
    name = {'binary': '_binary_features', 'variables': '_get_variables', 'bee1': '_bee1_features', 'bee2': '_bee2_features',
            'start1': '_init_bee1_features', 'start2': '_init_bee2_features'}[what]
    real = getattr(G.GymWidthDomain, name)
    f = [[OBJ.fresh('f') for _ in range(k)] for k in (1, 0, 2)]
    seen = []

    class D(G.GymWidthDomain):
        pass

    def sub(self, space, element, *index):
        if space is sp:
            return real(self, space, element, *index)
        k = next(i for i, p in enumerate(parts) if p is space)
        seen.append((k, element, index))
        return (index[0] + k + 1, list(f[k])) if index else list(f[k])
    setattr(D, name, sub)
    d = D()

    class E:
        observation_space = sp
    d._gym_env = E
    o = mk(xs)
    if what.startswith('start'):
        real(d, sp, o)
    elif what in ('bee1', 'bee2'):
        start = INT.fresh('start')
        index, r = real(d, sp, o, start)
        c.prove('cells before each part', And(eqf(seen[0][2][0], start), eqf(seen[1][2][0], start + 1), eqf(seen[2][2][0], start + 3), eqf(index, start + 6)))
    else:
        r = d.binary_features(o if c.case('wrapped', [False, True]) else G.GymDomainStateProxy(o)) if what == 'binary' else real(d, sp, o)
    c.prove('every part once, in order', [k for k, _, _ in seen] == [0, 1, 2] and all(e is x for (_, e, _), x in zip(seen, xs)))
    if not what.startswith('start'):
        c.prove('features of the parts, in order', And(len(r) == 3, *[eqf(a, b) for a, b in zip(r, f[0] + f[1] + f[2])]))
    if what == 'binary':
        del seen[:]
        c.prove('number of features', d.nb_of_binary_features() == 3)


# ---------------------------------------------------------------- actions and back

@contract('GymDiscreteActionDomain', M + 'GymDiscreteActionDomain.__init__', M + 'GymDiscreteActionDomain._get_applicable_actions_from',
          M + 'GymDiscreteActionDomain._discretize_action_space')
def actions(c):
    n = INT.fresh('n')
    c.assume(n > 0)
    made = []

    class Discrete(gs.Discrete):
        def __init__(self): self._n = n
        n = property(lambda self: self._n, lambda self, v: None)

    class List:
        def __init__(self, els): self.els = els
        def get_elements(self): return self.els

    class Rnd:
        @staticmethod
        def sample(els, k):
            made.append((els, k))
            return Rnd.out
    Rnd.out = SeqTy(OBJ).fresh('sampled')
    undo = patched(ListSpace=List, random=Rnd)
    try:
        space = Discrete()

        class D(G.GymDiscreteActionDomain):
            def get_action_space(self):
                class S:
                    _gym_space = space
                return S
        limited = c.case('branching factor', [False, True])
        b = INT.fresh('branching') if limited else None
        d = D(branching_factor=b)
        got = d._get_applicable_actions_from(OBJ.fresh('memory'))
        e = got.get_elements()
        i = z3.Int('i')
        full = lambda s: z3.And(s.n == n.t, fa([i], z3.Implies(z3.And(0 <= i, i < n.t), num(s.elem(i)) == i)))
        if made:
            c.prove('sampled only when there are more', limited and len(made) == 1)
            c.prove('as many as the branching factor', And(eqf(made[0][1], b), n > b))
            c.prove('among all actions', full(made[0][0]))
            c.prove('the sample is offered', e is Rnd.out)
        else:
            c.prove('every action in order', full(e))
            if limited:
                c.prove('no more than the branching factor', n <= b)
        c.prove('always the same', d._get_applicable_actions_from(OBJ.fresh('memory')) is got)
    finally:
        undo()


@contract('_generate_box_action_combinations', M + 'GymDiscreteActionDomain._generate_box_action_combinations')
def combinations(c):
    k = c.case('sizes', [(2,), (1, 2), (2, 3), (2, 1, 2)])
    acts = [[REAL.fresh('v') for _ in range(m)] for m in k]
    cells = []

    class NP:
        @staticmethod
        def array(x, *a, **kw):
            cells.append(list(x))
            return A(list(x))

        @staticmethod
        def ndarray(*a, **kw): raise Unsupported('uninitialised array')

    class A:
        def __init__(self, xs): self.xs, self.shape, self.dtype = xs, None, None
        def astype(self, t): self.dtype = t; return self
        def reshape(self, s): self.shape = s; return self
    undo = patched(np=NP)
    try:
        out = []
        shape, dt = (len(k),), 'f4'
        d = G.GymDiscreteActionDomain.__new__(G.GymDiscreteActionDomain)
        d._generate_box_action_combinations(acts, shape, dt, 0, [], out)
        import itertools
        exp = list(itertools.product(*[range(m) for m in k]))
        c.prove('one action per combination', len(out) == len(exp))
        c.prove('shape and type', all(isinstance(o, A) and o.shape == shape and o.dtype == dt for o in out))
        for o, ix in zip(out, exp):
            c.prove('components', And(len(o.xs) == len(k), *[eqf(o.xs[p], acts[p][q]) for p, q in enumerate(ix)]))
    finally:
        undo()


@contract('AsGymEnv', *[M + 'AsGymEnv.' + m for m in ('__init__', 'step', 'reset', 'render', 'close', 'unwrapped')])
def asgym(c):
    class Space:
        def __init__(self, n): self.n, self.raw, self.to, self.fro = n, OBJ.fresh(n), func(n + '_to', OBJ), func(n + '_from', OBJ)
        def unwrapped(self): return self.raw
        def to_unwrapped(self, xs): return [self.to(x) for x in xs]
        def from_unwrapped(self, xs): return [self.fro(x) for x in xs]

    has_info = c.case('info', [True, False])
    log = []

    class Dom:
        o, a = Space('obs'), Space('act')
        first, obs = OBJ.fresh('first'), OBJ.fresh('o')
        rew, term, info = REAL.fresh('r'), BOOL.fresh('t'), OBJ.fresh('i') if has_info else None
        def get_observation_space(self): return self.o
        def get_action_space(self): return self.a

        def reset(self):
            log.append('reset')
            return self.first

        def step(self, action):
            log.append(action)

            class Out:
                observation, value, termination, info = self.obs, TransitionValue(reward=self.rew), self.term, self.info
            return Out

        def render(self, **kw):
            log.append(kw)
            return self.obs

        def close(self):
            log.append('close')
            return self.first
    d = Dom()
    un = c.case('unwrap spaces', [True, False])
    e = G.AsGymEnv(d, un)
    c.prove('the domain', e.unwrapped() is d)
    if un:
        c.prove('spaces', And(eqf(e.observation_space, d.o.raw), eqf(e.action_space, d.a.raw)))
    else:
        c.prove('spaces', e.observation_space is d.o and e.action_space is d.a)
    c.prove('default is unwrapping', eqf(G.AsGymEnv(d).action_space, d.a.raw))
    c.prove('reset observes the first state, unwrapped', eqf(e.reset(), d.o.to(d.first)))
    c.prove('one reset', log == ['reset'])
    a = OBJ.fresh('a')
    r = e.step(a)
    c.prove('one step of the domain', len(log) == 2)
    c.prove('with the wrapped action', eqf(log[1], d.a.fro(a)))
    c.prove('observation, reward, end', And(len(r) == 4, eqf(r[0], d.o.to(d.obs)), eqf(r[1], d.rew), eqf(r[2], d.term)))
    c.prove('info', r[3] is d.info if has_info else r[3] == {} and type(r[3]) is dict)
    m = OBJ.fresh('mode')
    c.prove('render', eqf(e.render(m), d.obs))
    c.prove('mode', set(log[-1]) == {'mode'} and log[-1]['mode'] is m)
    c.prove('default mode', eqf(e.render(), d.obs))
    c.prove('default mode is human', log[-1] == {'mode': 'human'})
    c.prove('close', eqf(e.close(), d.first))
