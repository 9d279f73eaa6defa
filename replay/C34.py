"""Gym environments as domains and back (skdecide.hub.domain.gym)."""
import random, struct, itertools, io, contextlib, enum
import numpy as np
import gym
import gym.spaces as gs
from replay.base import require, Violation
import skdecide.hub.domain.gym.gym as G
from skdecide import Domain, TransitionOutcome, TransitionValue
from skdecide.builders.domain import UnrestrictedActions
from skdecide.hub.space.gym import GymSpace, ListSpace, EnumSpace, MultiDiscreteSpace

RULE = 'small deterministic environments (all kinds of observation spaces) driven by random action sequences and by random explorations of ' \
       'their states, against a twin environment; all kinds of action spaces; feature vectors of random histories against their definition'
BOUNDS = 'bounded: at most 25 transitions per case, spaces of at most 3 dimensions, features of at most 20 observations'
OBS = ['discrete', 'box', 'box2', 'tuple', 'dict', 'multidiscrete', 'multibinary', 'nested', 'boxes', 'pair']


def obs_space(kind):
    return {'discrete': lambda: gs.Discrete(64), 'box': lambda: gs.Box(-100., 100., (2,), dtype=np.float32),
            'box2': lambda: gs.Box(-100., 100., (2, 2), dtype=np.float64),
            'tuple': lambda: gs.Tuple((gs.Discrete(8), gs.Box(-100., 100., (2,), dtype=np.float64))),
            'dict': lambda: gs.Dict({'pos': gs.Box(-100., 100., (1,), dtype=np.float64), 'n': gs.Discrete(8)}),
            'multidiscrete': lambda: gs.MultiDiscrete([8, 20]), 'multibinary': lambda: gs.MultiBinary(6),
            'boxes': lambda: gs.Tuple((gs.Box(-100., 100., (1,), dtype=np.float64), gs.Box(-100., 100., (2,), dtype=np.float64))),
            'pair': lambda: gs.Tuple((gs.Box(-100., 100., (1,), dtype=np.float64), gs.Box(-100., 100., (1,), dtype=np.float64))),
            'nested': lambda: gs.Tuple((gs.Dict({'aa': gs.Discrete(8), 'bb': gs.Tuple((gs.Discrete(8), gs.MultiBinary(3)))}),
                                        gs.Box(-100., 100., (1,), dtype=np.float64)))}[kind]()


def obs_of(kind, s):
    x, y = s
    bits = [(x >> i) & 1 for i in range(3)] + [(y >> i) & 1 for i in range(3)]
    return {'discrete': lambda: x * 8 + y, 'box': lambda: np.array([x - 3.5, y / 2.], dtype=np.float32),
            'box2': lambda: np.array([[x, y], [x - y, 0.25 * y]]), 'tuple': lambda: (x, np.array([y - 2., x / 4.])),
            'dict': lambda: {'pos': np.array([x - 4.]), 'n': y}, 'multidiscrete': lambda: np.array([x, 2 * y + x % 2]), 'boxes': lambda: (np.array([x / 2.]), np.array([y - 3., x - y])),
            'pair': lambda: (np.array([x / 2.]), np.array([y - 3.])),
            'multibinary': lambda: np.array(bits, dtype=np.int8),
            'nested': lambda: ({'aa': x, 'bb': (y, np.array(bits[3:], dtype=np.int8))}, np.array([x / 8.]))}[kind]()


class Env(gym.Env):
    metadata = {}

    def __init__(self, kind, seed, starts=1):
        self.kind, self.seed_, self.starts = kind, seed, starts
        self.observation_space, self.action_space = obs_space(kind), gs.Discrete(3)
        self.s, self.resets, self.log = None, 0, []

    def start(self, k):
        r = random.Random('%d-%d' % (self.seed_, k % self.starts))
        return (0, 0) if k % self.starts == 0 and self.seed_ % 3 == 0 else (r.randrange(8), r.randrange(8))

    def tr(self, s, a):
        r = random.Random('%d-%r-%r' % (self.seed_, s, a))
        n = r.choice([(r.randrange(8), r.randrange(8)), s, ((s[0] + 1) % 8, s[1])])
        return n, r.choice([0, -1, 2.5, -3]), r.random() < .2, {'i': r.randrange(9)} if r.random() < .7 else {}

    def reset(self):
        self.s = self.start(self.resets)
        self.resets += 1
        return obs_of(self.kind, self.s)

    def step(self, a):
        self.s, r, d, i = self.tr(self.s, int(a))
        return obs_of(self.kind, self.s), r, d, i

    def render(self, mode='human'):
        self.log.append(('render', mode))
        return ('drawn', mode, self.s)

    def close(self):
        self.log.append(('close',))
        return 'closed'


def plain(o):
    """The content of an observation (shapes, classes and values)."""
    if isinstance(o, G.GymDomainStateProxy):
        return plain(o._state)
    if isinstance(o, np.ndarray):
        return ('a', o.shape, tuple(o.ravel().tolist()))
    if isinstance(o, (tuple, list)):
        return ('t',) + tuple(plain(x) for x in o)
    if isinstance(o, dict):
        return ('d',) + tuple((k, plain(v)) for k, v in o.items())
    return o.item() if isinstance(o, np.generic) else o


def accessors(case):
    if not case.get('access'):
        return {}

    def put(e, s):
        e.s = divmod(s, 8) if isinstance(s, int) else s
    if case['seed'] % 2:
        # states are numbers, the first initial one may be 0
        return dict(set_state=put, get_state=lambda e: e.s[0] * 8 + e.s[1])
    return dict(set_state=put, get_state=lambda e: e.s)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def outcome_is(out, exp, what):
    n, r, d, i = exp
    require(plain(out.observation) == plain(n), '%s: observation %r instead of %r' % (what, out.observation, n))
    require(out.value.reward == r and out.value.cost == -r, '%s: reward %r cost %r instead of reward %r' % (what, out.value.reward, out.value.cost, r))
    require(bool(out.termination) == bool(d), '%s: termination %r instead of %r' % (what, out.termination, d))
    require(out.info == i, '%s: info %r instead of %r' % (what, out.info, i))


def cases(rng, tier):
    for _ in range(4):
        yield from batch(rng, tier)


def batch(rng, tier):
    S = lambda: rng.randrange(10 ** 6)
    for kind in OBS:
        for proxy in (False, True):
            yield dict(k='plain', obs=kind, proxy=proxy, seed=S(), starts=rng.choice([1, 3]))
        for access in (False, True):
            yield dict(k='detinit', obs=kind, access=access, seed=S(), starts=rng.choice([2, 3]), give=rng.random() < .5)
            yield dict(k='det', obs=kind, access=access, seed=S())
            yield dict(k='plan', obs=kind, access=access, seed=S(), goal=rng.random() < .5, depth=rng.choice([1, 2, 3, 50]))
        for f in ('bin', 'bee1', 'bee2'):
            yield dict(k=f, obs=kind, seed=S(), fid=rng.choice([1, 2, 3]))
            yield dict(k=f, obs=kind, seed=S(), fid=1)
    for i in range(8):
        yield dict(k='proxy', seed=S())
        yield dict(k='ell', obs=OBS[i % 3], seed=S())
    for i in range(12):
        yield dict(k='bee2', obs='box', seed=S(), fid=rng.choice([1, 2, 3]))
        yield dict(k='bee1', obs='box', seed=S(), fid=rng.choice([1, 2, 3]))
    for sp in ('discrete', 'one', 'multidiscrete', 'multibinary', 'tuple', 'dict', 'box', 'box2', 'boxint', 'boxinf', 'boxlow', 'boxup', 'nested', 'dict1', 'scalarbox', 'bigbin', 'manydisc', 'longtuple', 'longdict'):
        for br in (None, 1, 3, 1000):
            yield dict(k='acts', space=sp, branch=br, factor=rng.choice([2, 3, 4]), seed=S())
    for sp in ('enum', 'list', 'gym'):
        for _ in range(3):
            yield dict(k='asgym', space=sp, seed=S())
    if tier != 'quick':
        for _ in range(150):
            yield dict(k=rng.choice(['plain', 'detinit', 'det', 'plan', 'bin', 'bee1', 'bee2']), obs=rng.choice(OBS), access=rng.random() < .5,
                       proxy=rng.random() < .5, seed=S(), starts=rng.choice([1, 2, 3]), give=rng.random() < .5, goal=rng.random() < .5,
                       depth=rng.randint(1, 5), fid=rng.randint(1, 4))


def delegates(dom, env, exact=True):
    require(dom.unwrapped() is env, 'unwrapped is not the environment')
    require(dom.get_action_space().unwrapped() is env.action_space, 'action space')
    require(dom.get_observation_space().unwrapped() is env.observation_space, 'observation space')
    del env.log[:]
    for kw, m in (({}, 'human'), (dict(mode='ansi'), 'ansi')):
        r = dom.render(**kw)
        require(r == ('drawn', m, env.s), 'render(%r) returns %r' % (kw, r))
        require([x for x in env.log if x[0] == 'render'][-1:] == [('render', m)], 'rendering is not passed on: %r' % (env.log,))
    del env.log[:]
    require(dom.close() == 'closed' and ('close',) in env.log, 'closing is not passed on')


def check(case):
    rng = random.Random(case['seed'])
    random.seed(case['seed'])
    np.random.seed(case['seed'] % 2 ** 31)
    globals()['t_' + case['k']](case, rng)


def t_plain(case, rng):
    env, twin = Env(case['obs'], case['seed'], case['starts']), Env(case['obs'], case['seed'], case['starts'])
    dom = (G.GymDomainHashable if case['proxy'] else G.GymDomain)(env)
    for ep in range(3):
        o = dom.reset()
        require(isinstance(o, G.GymDomainStateProxy) == case['proxy'], 'class of the state')
        require(plain(o) == plain(twin.reset()), 'reset %d gives %r' % (ep, o))
        for t in range(6):
            a = rng.randrange(3)
            out = dom.step(a)
            require(isinstance(out.observation, G.GymDomainStateProxy) == case['proxy'], 'class of the state')
            outcome_is(out, twin.step(a), 'step %d' % t)
    delegates(dom, env)


def t_proxy(case, rng):
    def leaf():
        return rng.choice([0, 1, 2, 0., 1., 'a', True, None, -1, -2, 0.1, 1e-12, 2 ** 61])

    def make(d):
        k = rng.choice(['leaf', 'arr', 'arr2', 'tup', 'dict'] if d else ['leaf', 'arr'])
        return ('leaf', leaf()) if k == 'leaf' else (k, [rng.choice([0, 1, 2, -1, -2, .5, 1e-9]) for _ in range(2 if k == 'arr' else 4)]) if k in ('arr', 'arr2') \
            else (k, [make(d - 1) for _ in range(rng.randint(0, 3))])

    def near(v):
        # another value, sometimes close to v or of the same hash
        if v is None or isinstance(v, (str, bool)):
            return 'zz'
        return rng.choice([x for x in (v + 1, v + .25, v + 1e-7, {-1: -2, -2: -1}.get(v, v + 1), {-1: -2, -2: -1}.get(v, v + 1)) if x != v])

    def build(t):
        return {'leaf': lambda: t[1], 'arr': lambda: np.array(t[1]), 'arr2': lambda: np.array(t[1]).reshape(2, 2),
                'tup': lambda: tuple(build(x) for x in t[1]), 'dict': lambda: {'k%d' % i: build(x) for i, x in enumerate(t[1])}}[t[0]]()

    def change(t):
        if t[0] == 'leaf':
            return ('leaf', near(t[1]))
        if t[0] in ('arr', 'arr2'):
            i = rng.randrange(len(t[1]))
            return (t[0], t[1][:i] + [near(t[1][i])] + t[1][i + 1:])
        if not t[1]:
            return None
        i = rng.randrange(len(t[1]))
        c = change(t[1][i])
        return c and (t[0], t[1][:i] + [c] + t[1][i + 1:])
    for _ in range(12):
        t = make(3)
        p, q = G.GymDomainStateProxy(build(t), context=1), G.GymDomainStateProxy(build(t), context=2)
        require(p == q and hash(p) == hash(q) and not p != q, 'equal contents %r are not equal states' % (build(t),))
        require(len({p, q}) == 1 and {p: 5}[q] == 5, 'equal states are told apart by dictionaries')
        require(str(p) == str(p._state) and repr(p) == repr(p._state), 'text of a state')
        u = change(t)
        if u:
            r = G.GymDomainStateProxy(build(u), context=1)
            require(p != r and not p == r, 'states of contents %r and %r are equal' % (build(t), build(u)))


def t_detinit(case, rng):
    env, twin = Env(case['obs'], case['seed'], case['starts']), Env(case['obs'], case['seed'], case['starts'])
    dom = G.DeterministicInitializedGymDomain(env, **accessors(case))
    if case['give']:
        other = Env(case['obs'], case['seed'], case['starts'])
        other.resets = 1
        d2 = G.DeterministicInitializedGymDomain(other, **accessors(case))
        first = d2.reset()
        s0 = other.start(1)
        dom.set_memory(first)
        d2.step(0)
    else:
        first, s0 = None, env.start(0)
    for ep in range(3):
        if not (case['give'] and ep == 0):
            o = dom.reset()
            require(plain(o) == plain(obs_of(case['obs'], s0)), 'reset %d gives %r instead of the first initial state' % (ep, o))
            require(first is None or o == first and hash(o) == hash(first), 'initial states differ')
            first = o
        s = s0
        for t in range(rng.randint(0, 5)):
            a = rng.randrange(3)
            exp = twin.tr(s, a)
            s = exp[0]
            outcome_is(dom.step(a), (obs_of(case['obs'], s),) + exp[1:], 'step %d after reset %d' % (t, ep))
    delegates(dom, dom._gym_env)
    if not case['access']:
        require(plain(dom.reset()) == plain(obs_of(case['obs'], s0)), 'reset after rendering')


def explore(case, rng, dom, twin, extra=None):
    s0 = twin.start(0)
    m0 = quiet(dom.get_initial_state)
    require(plain(m0) == plain(obs_of(case['obs'], s0)), 'initial state %r' % (m0,))
    require(not dom.is_terminal(m0), 'the initial state is terminal')
    known = [(m0, s0, False, 0)]
    for t in range(20):
        m, s, term, d = rng.choice(known)
        a = rng.randrange(3)
        before = plain(m)
        n = quiet(dom.get_next_state, m, a)
        exp = twin.tr(s, a)
        require(plain(n) == plain(obs_of(case['obs'], exp[0])),
                'next state of %r by %r is %r instead of %r (query %d)' % (m, a, n, obs_of(case['obs'], exp[0]), t))
        v = dom.get_transition_value(m, a, n)
        require(v.reward == exp[1] and v.cost == -exp[1], 'value of the transition is %r instead of reward %r' % (v, exp[1]))
        require(bool(dom.is_terminal(n)) == exp[2], 'termination %r instead of %r' % (dom.is_terminal(n), exp[2]))
        require(plain(m) == before and bool(dom.is_terminal(m)) == term, 'the memory was changed')
        out = quiet(dom.get_next_state_distribution, m, a).get_values() if t < 3 else None
        if out:
            require(len(out) == 1 and plain(out[0][0]) == plain(n) and out[0][1] == 1, 'distribution of next states %r' % (out,))
        known.append((n, exp[0], exp[2], d + 1))
        if extra:
            extra(known)
    return known


def execute(case, rng, dom, twin):
    for ep in range(2):
        s = twin.start(0)
        require(plain(quiet(dom.reset)) == plain(obs_of(case['obs'], s)), 'reset')
        for t in range(4):
            a = rng.randrange(3)
            exp = twin.tr(s, a)
            s = exp[0]
            out = quiet(dom.step, a)
            require(plain(out.observation) == plain(obs_of(case['obs'], s)), 'step: observation %r' % (out.observation,))
            require(out.value.reward == exp[1] and bool(out.termination) == exp[2], 'step: %r instead of %r' % (out, exp))


def t_det(case, rng):
    env, twin = Env(case['obs'], case['seed']), Env(case['obs'], case['seed'])
    dom = G.DeterministicGymDomain(env, **accessors(case))
    explore(case, rng, dom, twin)
    execute(case, rng, dom, twin)
    explore(case, rng, dom, twin)
    delegates(dom, dom._gym_env)
    dom.reset()
    dom.render()
    execute(case, rng, dom, twin)


def t_plan(case, rng):
    class Wide(G.GymPlanningDomain, G.GymWidthDomain):
        def __init__(self, env, **kw):
            G.GymPlanningDomain.__init__(self, env, **kw)
            G.GymWidthDomain.__init__(self)
    env, twin = Env(case['obs'], case['seed']), Env(case['obs'], case['seed'])
    dom = Wide(env, termination_is_goal=case['goal'], max_depth=case['depth'], **accessors(case))

    def goals(known):
        for m, s, term, d in known:
            g = d >= case['depth'] or (case['goal'] and term)
            require(bool(dom.is_goal(m)) == g, 'state at depth %d (terminal: %r) is %sa goal' % (d, term, '' if dom.is_goal(m) else 'not '))
    goals(explore(case, rng, dom, twin, goals))
    execute(case, rng, dom, twin)
    if case['obs'] not in ('multidiscrete', 'multibinary', 'discrete'):
        # the features are learned again when the search restarts from the initial state, once
        m0 = quiet(dom.get_initial_state)
        for n in [x for x in (quiet(dom.get_next_state, m0, a) for a in range(3)) if x != m0]:
            quiet(dom.get_next_state, n, 0)
            dom.bee2_features(n)
            quiet(dom.get_next_state, m0, 0)
            require(dom._feature_increments == [], 'features kept when restarting from the initial state')
            dom.bee2_features(m0)
            quiet(dom.get_next_state, m0, 1)
            require(dom._feature_increments != [], 'features forgotten while expanding the initial state')


# ---------------------------------------------------------------- features

class Width(G.GymWidthDomain):
    def __init__(self, env, fid):
        super().__init__(fid)
        self._gym_env = env


def flat(space, o):
    """(kind, value, size) of each cell of an observation."""
    if isinstance(space, gs.Box):
        return [('c', x, None) for x in np.asarray(o).ravel().tolist()]
    if isinstance(space, gs.Discrete):
        return [('i', int(o), space.n)]
    if isinstance(space, gs.MultiDiscrete):
        return [('i', int(x), int(n)) for x, n in zip(o, space.nvec)]
    if isinstance(space, gs.MultiBinary):
        return [('b', int(x), 2) for x in o]
    if isinstance(space, gs.Tuple):
        return [y for s, x in zip(space.spaces, o) for y in flat(s, x)]
    return [y for k in space.spaces for y in flat(space.spaces[k], o[k])]


def observations(case, rng):
    env = Env(case['obs'], case['seed'])
    out = [obs_of(case['obs'], (rng.randrange(8), rng.randrange(8))) for _ in range(18)]
    if case['obs'] in ('box', 'box2', 'ell'):
        sh = env.observation_space.shape
        out += [np.array([rng.choice([-0., 0., 1., -1., 2.25, -7.5, 1e-3, 40.]) for _ in range(int(np.prod(sh)))],
                         dtype=env.observation_space.dtype).reshape(sh) for _ in range(8)]
        rng.shuffle(out)
    return env, out


def t_bin(case, rng):
    env, obs = observations(case, rng)
    d = Width(env, case['fid'])
    n = d.nb_of_binary_features()
    seen = {}
    for o in obs:
        b = d.binary_features(o)
        require(all(isinstance(x, bool) for x in b), 'features are not booleans')
        require(len(b) == n, '%d features of %r, %d announced' % (len(b), o, n))
        require(d.binary_features(G.GymDomainStateProxy(o)) == b, 'features of the wrapped state')
        key = tuple(struct.pack('!f', v) if k == 'c' else v for k, v, _ in flat(env.observation_space, o))
        require(seen.setdefault(tuple(b), key) == key, 'two observations have the same features')
        i = 0
        for k, v, size in flat(env.observation_space, o):
            if k == 'c':
                require(b[i] == (struct.pack('!f', v)[0] >= 128), 'sign feature of %r' % v)
                i += n_float(d)
            else:
                w = 1 if k == 'b' else len(bin(size - 1)[2:])
                require(sum(2 ** (w - 1 - j) for j in range(w) if b[i + j]) == v, 'binary code of %r is %r' % (v, b[i:i + w]))
                i += w
        require(i == n, '%d features announced, %d encode the cells' % (n, i))


def n_float(d):
    return len(d._binary_features(gs.Box(0., 1., (1,)), np.array([0.5])))


def t_bee1(case, rng):
    env, obs = observations(case, rng)
    fid = case['fid']
    d = Width(env, fid)
    ref, records = None, None
    for t, o in enumerate(obs):
        if t == 11:
            d._reset_features()
            ref = None
        f = d.bee1_features(o if t % 2 else G.GymDomainStateProxy(o))
        cells = flat(env.observation_space, o)
        if ref is None:
            ref = [v for k, v, _ in cells]
            records = [{g: dict(ref=v, at=[0], sub=[]) for g in (1, -1)} for k, v, _ in cells]
        i = 0
        for j, (k, v, _) in enumerate(cells):
            if k != 'c':
                require(f[i] == v, 'feature of the discrete variable %r is %r' % (v, f[i]))
                i += 1
                continue
            sign = 1 if v > ref[j] else -1
            node, exp = records[j][sign], []
            for _ in range(fid):
                # the layer of the deviation among the recorded ones, then within the layer, until it is a new one
                dev = sign * (v - node['ref'])
                layer = sum(1 for x in node['at'] if x < dev)
                exp.append(sign * layer)
                if layer == len(node['at']):
                    node['sub'].append(dict(ref=node['ref'] + sign * node['at'][-1], at=[0], sub=[]))
                    node['at'].append(dev)
                    break
                if layer:
                    node = node['sub'][layer - 1]
            exp += [0] * (fid - len(exp))
            require(f[i:i + fid] == exp, 'layers of %r (start %r, side %r) are %r instead of %r' % (v, ref[j], sign, f[i:i + fid], exp))
            i += fid
        require(len(f) == i, '%d features, expected %d' % (len(f), i))


def t_bee2(case, rng):
    env, obs = observations(case, rng)
    fid = case['fid']
    d = Width(env, fid)
    trees = None

    def ref(node, x, level):
        """node: list of [lo, hi, subtree] in order of creation."""
        if not node:
            node.append([x, x, []])
            return [0] + [-1] * level
        lo, hi = min(n[0] for n in node), max(n[1] for n in node)
        if x < lo or x > hi:
            node.append([x, lo, []] if x < lo else [hi, x, []])
            return [len(node) - 1] + [-1] * level
        k = next(i for i, n in enumerate(node) if n[0] <= x <= n[1])
        return [k] + (ref(node[k][2], x, level - 1) if level else [])
    for t, o in enumerate(obs):
        if t == 13:
            d._reset_features()
            trees = None
        f = d.bee2_features(o if t % 2 else G.GymDomainStateProxy(o))
        cells = flat(env.observation_space, o)
        if trees is None:
            trees = [[[v, v, []]] for k, v, _ in cells]
        exp = []
        for j, (k, v, _) in enumerate(cells):
            exp += [v] if k != 'c' else ref(trees[j], v, fid - 1)
        require([int(x) for x in f] == [int(x) for x in exp], 'features of %r are %r instead of %r' % (o, f, exp))


def t_ell(case, rng):
    env = Env('box', case['seed'])
    n = rng.randint(2, 4)
    kind = rng.choice(['box', 'tuple', 'dict'])
    box = lambda k: gs.Box(-100., 100., (k,), dtype=np.float64)
    env.observation_space = {'box': lambda: box(n), 'tuple': lambda: gs.Tuple((box(1), box(n - 1))),
                             'dict': lambda: gs.Dict({'long_name': box(n - 1), 'b': gs.Discrete(60)})}[kind]()
    pt = lambda: np.array([rng.choice([-4., 0., 1., 3.5, 20., 55.]) for _ in range(n)])

    def obs(v):
        if kind == 'box':
            return v
        if kind == 'tuple':
            return (v[:1], v[1:])
        keys = list(env.observation_space.spaces)
        return {k: v[:-1] if k == 'long_name' else int(v[-1]) for k in keys}

    def vec(v):
        return np.array([x for _, x, _ in flat(env.observation_space, obs(v))], dtype=float)
    a0, ag = pt(), pt()
    x0, xg = vec(a0), vec(ag)
    if any(x0[i] == xg[i] and x0[j] == xg[j] for i in range(n) for j in range(i)):
        return
    d = Width(env, 1)
    d.init_elliptical_features(obs(a0), obs(ag))
    for _ in range(8):
        p = pt()
        s = vec(p)
        f = d.elliptical_features(rng.choice([obs(p), G.GymDomainStateProxy(obs(p))]))
        exp = []
        for i in range(n):
            for j in range(i + 1, n):
                c = np.hypot(x0[i] - xg[i], x0[j] - xg[j])
                step = c / (10. * max(np.log10(c), 1.))
                bands = []
                v = c
                while v > step:
                    bands.append(v)
                    v -= step
                e = np.hypot(s[i] - xg[i], s[j] - xg[j])
                exp.append([sum(1 for b in bands if e > b + o) for o in (1e-9, -1e-9)])
        require(len(f) == len(exp) and all(lo <= x <= hi for x, (lo, hi) in zip(f, exp)), 'elliptical features of %r are %r, expected %r' % (s, f, exp))


# ---------------------------------------------------------------- actions

def action_space(kind):
    return {'discrete': lambda: gs.Discrete(5), 'one': lambda: gs.Discrete(1), 'multidiscrete': lambda: gs.MultiDiscrete([2, 3, 2]),
            'bigbin': lambda: gs.MultiBinary(9), 'manydisc': lambda: gs.MultiDiscrete([2, 1, 2, 3, 2, 2, 2]), 'longtuple': lambda: gs.Tuple(tuple(gs.Discrete(2) for _ in range(7))),
            'longdict': lambda: gs.Dict({'k%d' % i: gs.Discrete(2) for i in (3, 1, 4, 5, 9, 2, 6)}),
            'multibinary': lambda: gs.MultiBinary(3), 'tuple': lambda: gs.Tuple((gs.Discrete(2), gs.MultiBinary(2))),
            'dict': lambda: gs.Dict({'b': gs.Discrete(2), 'a': gs.Discrete(3)}), 'dict1': lambda: gs.Dict({'x': gs.Discrete(3)}),
            'box': lambda: gs.Box(np.array([-1., 0.]), np.array([2., 4.]), dtype=np.float64),
            'box2': lambda: gs.Box(np.array([[-1., 0.], [2., -8.]]), np.array([[2., 4.], [3., -2.]]), dtype=np.float32),
            'boxint': lambda: gs.Box(0, 12, (2,), dtype=np.int32), 'boxinf': lambda: gs.Box(np.array([-np.inf, 0.]), np.array([np.inf, 1.]), dtype=np.float64),
            'boxlow': lambda: gs.Box(np.array([-np.inf, 0.]), np.array([3., 1.]), dtype=np.float64),
            'boxup': lambda: gs.Box(np.array([-2., 0.]), np.array([np.inf, 1.]), dtype=np.float64),
            'scalarbox': lambda: gs.Box(-2., 2., (1,), dtype=np.float32),
            'nested': lambda: gs.Tuple((gs.Dict({'u': gs.Discrete(2)}), gs.MultiDiscrete([2, 2]), gs.Box(0., 1., (1,), dtype=np.float64)))}[kind]()


def enum_ref(sp, k):
    if isinstance(sp, gs.Discrete):
        return list(range(sp.n))
    if isinstance(sp, gs.MultiDiscrete):
        return [list(x) for x in itertools.product(*[range(n) for n in sp.nvec])]
    if isinstance(sp, gs.MultiBinary):
        return [list(x) for x in itertools.product([False, True], repeat=sp.n)]
    if isinstance(sp, gs.Tuple):
        return [list(x) for x in itertools.product(*[enum_ref(s, k) for s in sp.spaces])]
    if isinstance(sp, gs.Dict):
        return [dict(zip(sp.spaces, x)) for x in itertools.product(*[enum_ref(s, k) for s in sp.spaces.values()])]
    cells = [[l + (h - l) * i / (k - 1) for i in range(k)] for l, h in zip(sp.low.ravel().tolist(), sp.high.ravel().tolist())]
    return [np.array(x).astype(sp.dtype).reshape(sp.shape) for x in itertools.product(*cells)]


def akey(a):
    if isinstance(a, np.ndarray):
        return ('a', a.shape, tuple(round(float(x), 3) + 0. for x in a.ravel()))
    if isinstance(a, (list, tuple)):
        return ('l',) + tuple(akey(x) for x in a)
    if isinstance(a, dict):
        return ('d',) + tuple(sorted((k, akey(v)) for k, v in a.items()))
    return int(a)


def t_acts(case, rng):
    sp = action_space(case['space'])
    env = Env('discrete', case['seed'])
    env.action_space = sp
    sp.seed(case['seed'] % 1000)

    class D(G.DeterministicGymDomain, G.GymDiscreteActionDomain):
        def __init__(self):
            G.DeterministicGymDomain.__init__(self, env)
            G.GymDiscreteActionDomain.__init__(self, discretization_factor=case['factor'], branching_factor=case['branch'])
    dom = quiet(D)
    m = dom.get_initial_state()
    els = list(dom.get_applicable_actions(m).get_elements())
    require(list(map(akey, dom.get_applicable_actions(m).get_elements())) == list(map(akey, els)), 'actions change from call to call')
    for a in els:
        require(not isinstance(a, np.ndarray) or (a.shape == sp.shape and a.dtype == sp.dtype), 'action %r' % (a,))
        require(sp.contains(a) or case['space'] in ('box', 'box2', 'scalarbox', 'nested'), 'action %r is not in the action space' % (a,))
    if case['space'] in ('boxinf', 'boxlow', 'boxup'):
        require(all(np.isfinite(a).all() for a in els), 'infinite actions %r' % (els,))
        require(len(els) == (case['factor'] ** 2 if case['branch'] is None else min(case['branch'], case['factor'] ** 2)), '%d actions' % len(els))
        if case['branch'] is None:
            require(len({a[0] for a in els}) == case['factor'] and sorted({round(float(a[1]), 3) for a in els}) ==
                    sorted({round(i / (case['factor'] - 1), 3) for i in range(case['factor'])}), 'discretized actions %r' % (els,))
        return
    exp = sorted(map(repr, map(akey, enum_ref(sp, case['factor']))))
    got = sorted(map(repr, map(akey, els)))
    if case['branch'] is None or case['branch'] >= len(exp):
        require(got == exp, 'actions are %s instead of %s' % (got[:8], exp[:8]))
    else:
        require(len(got) == case['branch'] and len(set(got)) == len(got) and set(got) <= set(exp), 'sampled actions %s' % (got,))


# ---------------------------------------------------------------- domains as environments

class Col(enum.Enum):
    red = 'R'
    blue = 'B'
    green = 'G'


def t_asgym(case, rng):
    mk = {'enum': (lambda: EnumSpace(Col), list(Col)), 'list': (lambda: ListSpace(['p', (1, 2), 7]), ['p', (1, 2), 7]),
          'gym': (lambda: MultiDiscreteSpace([3, 2]), None)}[case['space']]
    els = mk[1]
    val = (lambda i: els[i]) if els else (lambda i: np.array([i, i % 2]))
    seed = case['seed']
    calls = []

    class D(Domain, G.SingleAgent, G.Sequential, UnrestrictedActions, G.Initializable, G.Markovian, G.FullyObservable, G.Renderable, G.Rewards):
        T_state = T_observation = T_event = object
        T_value, T_info = float, dict

        def _state_reset(self):
            self.i = random.Random(seed).randrange(3)
            self.t = 0
            return val(self.i)

        def _state_step(self, action):
            calls.append(action)
            r = random.Random('%d-%d-%r' % (seed, self.t, plain(action) if not isinstance(action, Col) else action.name))
            self.t += 1
            self.i = r.randrange(3)
            self.exp = (self.i, r.choice([1, -2.5, 0]), r.random() < .4, r.choice([None, {'a': 1}]))
            return TransitionOutcome(state=val(self.i), value=TransitionValue(reward=self.exp[1]), termination=self.exp[2], info=self.exp[3])

        def _get_action_space_(self):
            return mk[0]()

        def _get_observation_space_(self):
            return mk[0]()

        def _render_from(self, memory, **kw):
            return ('r', kw)

        def close(self):
            return 'bye'
    dom = D()
    env = G.AsGymEnv(dom)
    require(env.unwrapped() is dom, 'unwrapped')
    ukind = (gs.MultiDiscrete if els is None else gs.Discrete)
    require(isinstance(env.action_space, ukind) and isinstance(env.observation_space, ukind), 'spaces are not unwrapped')
    require(isinstance(G.AsGymEnv(dom, unwrap_spaces=False).action_space, type(mk[0]())), 'spaces are unwrapped')
    num = (lambda i: i) if els else (lambda i: ('a', (2,), (i, i % 2)))
    for ep in range(2):
        o = env.reset()
        require(plain(o) == num(dom.i) and (els is None or not isinstance(o, bool) and isinstance(o, (int, np.integer))),
                'reset observes %r instead of %r' % (o, num(dom.i)))
        for t in range(5):
            i = rng.randrange(3)
            o, r, d, info = env.step(i if els else np.array([i, i % 2]))
            require(plain(calls[-1]) == plain(val(i)), 'action %r executed instead of %r' % (calls[-1], val(i)))
            require(plain(o) == num(dom.exp[0]), 'step observes %r instead of %r' % (o, num(dom.exp[0])))
            require(r == dom.exp[1] and bool(d) == dom.exp[2], 'reward and end of the step are %r, %r instead of %r' % (r, d, dom.exp))
            require(info == ({} if dom.exp[3] is None else dom.exp[3]), 'info %r' % (info,))
    require(env.render() == ('r', {'mode': 'human'}) and env.render(mode='ansi') == ('r', {'mode': 'ansi'}) and env.close() == 'bye', 'render or close')
