from replay.base import require, Violation
from skdecide.core import TransitionValue, EnvironmentOutcome, TransitionOutcome, StrDict
import numpy as np

RULE = 'rewards/costs over ints, floats (including 0, negative zero, tiny, huge, infinities) and numpy scalars; outcomes over ' \
       'single and per-agent shapes with every subset of optional fields given'
BOUNDS = 'bounded: sampled numbers, at most 5 agents'
NUMS = [0, 1, -1, 5, -7, 0.0, -0.0, 0.5, -2.25, 1e-300, -1e-300, 1e300, -1e300, 10 ** 30, -10 ** 30, 1e-9, 'inf', '-inf']


def num(x, wrap):
    v = float(x) if isinstance(x, str) else x
    return np.float64(v) if wrap == 'np' else (np.int64(v) if wrap == 'npi' and isinstance(v, int) and abs(v) < 2 ** 60 else v)


def cases(rng, tier):
    for wrap in ('py', 'np', 'npi'):
        for a in NUMS:
            for mode in ('reward', 'cost'):
                yield dict(k='tv', mode=mode, a=a, b=None, wrap=wrap)
            yield dict(k='tv', mode='both', a=a, b=rng.choice(NUMS), wrap=wrap)
    yield dict(k='tv', mode='none', a=0, b=0, wrap='py')
    for _ in range(200 if tier == 'quick' else 5000):
        a, b = rng.choice([rng.randint(-10 ** 6, 10 ** 6), rng.uniform(-1e6, 1e6)]), rng.uniform(-10, 10)
        yield dict(k='tv', mode=rng.choice(['reward', 'cost', 'both']), a=a, b=b, wrap='py')
    for cls in ('env', 'trans'):
        for n in (None, 0, 1, 2, 5):
            for val in (False, True, 'falsy'):
                for info in (False, True, 'falsy'):
                    for term in (None, True, False):
                        for sub in (False, True):
                            yield dict(k='out', cls=cls, n=n, val=val, info=info, term=term, sub=sub)


def same(a, b):
    return a == b


def check(case):
    if case['k'] == 'tv':
        a = num(case['a'], case['wrap'])
        b = num(case['b'], case['wrap']) if case['b'] is not None else None
        m = case['mode']
        v = (TransitionValue(reward=a) if m == 'reward' else TransitionValue(cost=a) if m == 'cost' else
             TransitionValue(reward=a, cost=b) if m == 'both' else TransitionValue())
        require(v.reward is not None and v.cost is not None, 'reward or cost undefined')
        require(same(v.cost, -v.reward), 'cost %r is not the negated reward %r' % (v.cost, v.reward))
        if m in ('reward', 'both'):
            require(same(v.reward, a), 'reward %r given, %r stored' % (a, v.reward))
        if m == 'cost':
            require(same(v.cost, a), 'cost %r given, %r stored' % (a, v.cost))
        if m == 'none':
            require(v.reward == 0 and v.cost == 0, 'default is not zero')
        if m in ('reward', 'cost'):
            w = TransitionValue(cost=v.cost) if m == 'reward' else TransitionValue(reward=v.reward)
            require(w == v, 'reward and cost forms of the same value differ: %r %r' % (v, w))
        return
    cls, f = (EnvironmentOutcome, 'observation') if case['cls'] == 'env' else (TransitionOutcome, 'state')
    n = case['n']
    if n is None:
        x = ('s', 3)
    else:
        x = (StrDict if case['sub'] else dict)(('agent%d' % i, i * 0) for i in range(n))
    copy = dict(x) if n is not None else x
    kw = {}
    if case['val']:
        kw['value'] = ({k: TransitionValue(reward=i + 2) for i, k in enumerate(x)} if n is not None else TransitionValue(cost=4)) \
            if case['val'] is True else ({k: TransitionValue() for k in x} if n is not None else TransitionValue())
    if case['info']:
        kw['info'] = {'i': 1} if case['info'] is True else ({} if n is not None else 0)
    if case['term'] is not None:
        kw['termination'] = case['term']
    o = cls(x, **kw)
    require(getattr(o, f) is x and (n is None or dict(x) == copy), '%s changed' % f)
    require(o.termination == bool(case['term']), 'termination is %r' % (o.termination,))
    if 'value' in kw:
        require(o.value is kw['value'], 'given value replaced')
    elif n is None:
        require(o.value == TransitionValue() and o.value.reward == 0 and o.value.cost == 0, 'default value %r' % (o.value,))
    else:
        require(set(o.value) == set(x) and all(v.reward == 0 and v.cost == 0 for v in o.value.values()),
                'default per-agent value %r' % (o.value,))
        require(len({id(v) for v in o.value.values()}) == len(x), 'agents share one default value object')
    if 'info' in kw:
        require(o.info is kw['info'], 'given info replaced')
    elif n is None:
        require(o.info is None, 'default info %r' % (o.info,))
    else:
        require(o.info == {k: None for k in x}, 'default per-agent info %r' % (o.info,))
    fresh = cls(x)
    require(fresh == cls(x), 'two default outcomes differ')
    r = o.replace(termination=not o.termination)
    require(r.termination == (not o.termination) and getattr(r, f) is x and r.value is o.value and r.info is o.info
            and type(r) is cls, 'replace changes more than the given field')
    d = o.asdict()
    require(set(d) == {f, 'value', 'termination', 'info'} and d['termination'] == o.termination and d[f] == x, 'asdict %r' % (d,))
    t = o.astuple()
    require(len(t) == 4 and t[0] == x and t[2] == o.termination, 'astuple %r' % (t,))
