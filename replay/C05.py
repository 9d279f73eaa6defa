from replay.base import require
from contracts.iface import IFACE
from skdecide import core
from skdecide.core import Memory, StrDict, Union, List, Tree, Optional
import functools, importlib, inspect, re

RULE = 'every public domain/solver function through autocast_all, every pair of domain shapes, random nested values; decorated and ' \
       'plain functions, positional and keyword calls; round trips of every hint'
BOUNDS = 'bounded: containers of at most 4 elements'
ROUNDS = 3
T = dict(memory=[Memory, Union], agent=[StrDict, Union], concurrency=[List, Union])


def cases(rng, tier):
    for q in IFACE:
        text = ' '.join(IFACE[q].values())
        dims = [t for t in T if 'T_' + t in text]
        combos = [{}]
        for t in dims:
            combos = [dict(c, **{t: (i, j)}) for c in combos for i in (0, 1) for j in (0, 1)]
        for c in combos:
            yield dict(k='iface', q=q, shape=c, seed=rng.randrange(10 ** 6), kw=rng.random() < .5, deco=rng.random() < .5)
    for i in range(20):
        yield dict(k='memory', n=rng.randint(1, 4), seed=rng.randrange(10 ** 6))


def split(h):
    if '[' not in h:
        return h, []
    head, rest = h.split('[', 1)
    subs, depth, cur = [], 0, ''
    for ch in rest[:-1]:
        if ch == ',' and depth == 0:
            subs.append(cur)
            cur = ''
            continue
        depth += {'[': 1, ']': -1}.get(ch, 0)
        cur += ch
    return head, subs + [cur]


class Gen:
    def __init__(self, rng, s, d):
        self.rng, self.s, self.d, self.n, self.opt = rng, s, d, 0, False

    def same(self, t):
        return getattr(self.s, t) is getattr(self.d, t)

    def make(self, h, s):
        head, sub = split(h)
        rng = self.rng
        if head in ('D.T_memory', 'D.T_agent', 'D.T_concurrency'):
            K = getattr(s, head[2:])
            if K is Union:
                return self.make(sub[0], s)
            n = rng.randint(0, 4) if self.same(head[2:]) else 1
            if K is StrDict:
                return {k: self.make(sub[0], s) for k in rng.sample(['zoe', 'ag1', 'ag0', 'bob', 'M'], n)}
            return (Memory if K is Memory else list)([self.make(sub[0], s) for _ in range(n)])
        if head in ('Distribution', 'DiscreteDistribution'):
            k = rng.randrange(3) if head == 'Distribution' else 0
            if k == 0:
                return core.DiscreteDistribution([(self.make(sub[0], s), rng.random()) for _ in range(rng.randint(1, 3))])
            v = self.make(sub[0], s)
            return core.SingleValueDistribution(v) if k == 1 else core.ImplicitDistribution(lambda: v)
        if head in ('EnvironmentOutcome', 'TransitionOutcome'):
            a, b, c = [self.make(x, s) for x in sub]
            return getattr(core, head)(a, b, rng.random() < .5, c)
        if head == 'Constraint':
            rec = []
            r = rng.random() < .5
            k = core.ImplicitConstraint(lambda m, a, n: (rec.append((m, a, n)), r)[1], rng.random() < .5)
            k.rec, k.r = rec, r
            return k
        if head == 'List':
            return [self.make(sub[0], s) for _ in range(rng.randint(0, 3))]
        if head == 'Optional':
            if rng.random() < .3:
                return None
            # None under Optional stands for a missing whole: no None leaves inside
            old, self.opt = self.opt, True
            try:
                return self.make(sub[0], s)
            finally:
                self.opt = old
        self.n += 1
        return ('leaf', h, self.n) if rng.random() < .8 else rng.choice([0, '', False, 3.5] if 'value' in h or self.opt else [0, '', False, None, 3.5])

    def check(self, h, x, y, s, d, what):
        head, sub = split(h)
        bad = lambda: require(False, '%s: %s: %r became %r' % (what, h, x, y))
        if head in ('D.T_memory', 'D.T_agent', 'D.T_concurrency'):
            S, K = getattr(s, head[2:]), getattr(d, head[2:])
            if S is K is Union:
                return self.check(sub[0], x, y, s, d, what)
            vals = lambda v, k: [v] if k is Union else list(v.values()) if k is StrDict else list(v)
            if K is not Union:
                if not isinstance(y, dict if K is StrDict else K if K is Memory else list) or (K is List and isinstance(y, Memory)):
                    bad()
            if S is K is StrDict and list(x) != list(y) and self.same('T_agent'):
                bad()
            a, b = vals(x, S), vals(y, K)
            if len(a) != len(b):
                bad()
            if S is K is StrDict and self.same('T_agent'):
                if set(x) != set(y):
                    bad()
                b = [y[k] for k in x]
            for p, q in zip(a, b):
                self.check(sub[0], p, q, s, d, what)
        elif head in ('Distribution', 'DiscreteDistribution'):
            if type(x) is not type(y):
                bad()
            gx = [(x.sample(), 1)] if isinstance(x, core.ImplicitDistribution) else x.get_values()
            gy = [(y.sample(), 1)] if isinstance(x, core.ImplicitDistribution) else y.get_values()
            if len(gx) != len(gy) or any(p[1] != q[1] for p, q in zip(gx, gy)):
                bad()
            for p, q in zip(gx, gy):
                self.check(sub[0], p[0], q[0], s, d, what)
        elif head in ('EnvironmentOutcome', 'TransitionOutcome'):
            if type(x) is not type(y) or x.termination != y.termination:
                bad()
            f = 'observation' if head[0] == 'E' else 'state'
            for n, t in zip((f, 'value', 'info'), sub):
                self.check(t, getattr(x, n), getattr(y, n), s, d, what)
        elif head == 'Constraint':
            other = [self.make(t, d) for t in sub]
            x.rec.clear()
            if y.check(*other) != x.r or len(x.rec) != 1 or \
                    y.is_constraint_dependent_on_next_state() != x._depends_on_next_state:
                bad()
            for t, o, g in zip(sub, other, x.rec[0]):
                self.check(t, o, g, d, s, what + ' (constraint argument)')
        elif head == 'List':
            if not isinstance(y, list) or len(x) != len(y):
                bad()
            for p, q in zip(x, y):
                self.check(sub[0], p, q, s, d, what)
        elif head == 'Optional':
            if (x is None) != (y is None):
                bad()
            if x is not None:
                self.check(sub[0], x, y, s, d, what)
        elif not (x is y or x == y):
            bad()


def shape(c, i):
    return type('Dom', (), dict({'T_' + t: T[t][c[t][i]] if t in c else Union for t in T}, T_state=object, T_observation=object,
                                T_event=object, T_value=float, T_info=object))


def check(case):
    import random
    rng = random.Random(case['seed'])
    if case['k'] == 'memory':
        vals = [('s', i) for i in range(case['n'])]
        s, d = shape(dict(memory=(0, 1)), 0), shape(dict(memory=(0, 1)), 1)
        ts, td = [core.parse_hint(k, 'D.T_memory[D.T_state]', 'D') for k in (s, d)]
        m = Memory(vals)
        require(core.cast(m, ts, td) == vals[-1], 'a history of %d states seen by a Markovian domain is not its current state' % len(vals))
        require(list(m) == vals, 'history changed')
        require(core.cast(m, ts, ts) is m, 'history copied although no conversion is needed')
        return
    spec = IFACE[case['q']]
    mod, name = case['q'].split(':')
    K, fn = name.split('.')
    f = inspect.getattr_static(getattr(importlib.import_module(mod), K), fn)
    f = getattr(f, '__func__', f)
    s, d = shape(case['shape'], 0), shape(case['shape'], 1)
    g = Gen(rng, s, d)
    ret = g.make(spec['return'], s) if 'return' in spec else object()
    rec = []

    @functools.wraps(f)
    def body(*a, **k):
        rec.append((a, k))
        return ret
    if not case['deco']:
        pass
    O = type('O', (), {fn: body})
    o, p = O(), O()
    core.autocast_all(o, s, d)
    args = {a: g.make(h, d) for a, h in spec.items() if a != 'return'}
    params = [n for n in inspect.signature(f).parameters if n != 'self']
    names = [n for n in params if n in args]
    require(len(names) == len(args), '%s no longer takes %s' % (name, sorted(args)))
    r = getattr(o, fn)(**args) if case['kw'] else getattr(o, fn)(*[args[n] for n in names])
    require(len(rec) == 1, 'called %d times' % len(rec))
    pos, kw = rec[0]
    got = dict(zip(params, pos[1 if pos and pos[0] is o else 0:]))
    got.update(kw)
    for n in names:
        require(n in got, 'argument %s lost' % n)
        g.check(spec[n], args[n], got[n], d, s, '%s argument %s' % (name, n))
    if 'return' in spec:
        g.check(spec['return'], ret, r, s, d, name + ' result')
        ts, td = [core.parse_hint(k, spec['return'], 'D') for k in (s, d)]
        g.check(spec['return'], ret, core.cast(core.cast(ret, ts, td), td, ts), s, s, name + ' result round trip')
    else:
        require(r is ret, 'result changed')
    if 'return' in spec:
        require(getattr(p, fn)(*[args[n] for n in names]) is ret, 'another instance was affected')
