from replay.base import require, Violation
from skdecide.core import (ImplicitSpace, EnumerableSpace, EmptySpace, SamplableSpace, SerializableSpace, Space)
from skdecide.hub.space.gym import (GymSpace, BoxSpace, DiscreteSpace, MultiDiscreteSpace, MultiBinarySpace, TupleSpace, DictSpace,
                                    EnumSpace, ListSpace, DataSpace)
import gym.spaces as gs
import numpy as np
import random, enum, json
from dataclasses import dataclass

RULE = 'every space kind over small element universes (repeated, falsy, unhashable-free elements), each membership query against a ' \
       'universe of members and non-members; json and index round trips of batches'
BOUNDS = 'bounded: at most 12 elements, batches of at most 6, 60 samples per space'
UNI = ['a', 'b', 'c', 0, 1, 2, -1, None, '', (1, 2), (2, 1), 2.5, 'agent', 17, 'aa']


def cases(rng, tier):
    yield dict(k='empty')
    for n in (1, 2, 3, 5, 12):
        for rep in (False, True):
            for kind in ('enumerable', 'list', 'list_gen', 'implicit', 'list_set'):
                yield dict(k=kind, els=[rng.randrange(len(UNI)) for _ in range(n)] if rep else list(range(n)),
                           batch=[rng.randrange(n) for _ in range(rng.randint(0, 6))], seed=rng.randint(0, 999))
    for n in (1, 2, 3, 7):
        for style in ('int', 'rev', 'str', 'alias'):
            yield dict(k='enum', n=n, style=style, batch=[rng.randrange(n) for _ in range(rng.randint(0, 6))],
                       seed=rng.randint(0, 999))
    for n in (1, 2, 5, 9):
        yield dict(k='discrete', n=n, seed=rng.randint(0, 999))
    for nv in ([2, 3], [1], [4, 1, 2]):
        yield dict(k='multidiscrete', nvec=nv, seed=rng.randint(0, 999))
        yield dict(k='multibinary', n=sum(nv), seed=rng.randint(0, 999))
    for lo, hi in ((-1., 2.), (0., 0.5), (-3.5, -1.)):
        yield dict(k='box', lo=lo, hi=hi, shape=[rng.randint(1, 3)], seed=rng.randint(0, 999))
    yield dict(k='tuple', seed=1)
    yield dict(k='dict', seed=1)
    for a, b in ((2, 3), (1, 4), (5, 2)):
        yield dict(k='data', a=a, b=b, seed=rng.randint(0, 999))
    yield dict(k='serial', batch=[0, 3, 7, 7])
    if tier != 'quick':
        for _ in range(200):
            n = rng.randint(1, 12)
            yield dict(k=rng.choice(['enumerable', 'list', 'implicit']), els=[rng.randrange(len(UNI)) for _ in range(n)],
                       batch=[rng.randrange(n) for _ in range(rng.randint(0, 6))], seed=rng.randint(0, 999))


def member(s, x, expect, what):
    require(bool(s.contains(x)) == expect, '%s: contains(%r) is %r' % (what, x, s.contains(x)))
    require((x in s) == expect, '%s: (%r in space) is %r' % (what, x, x in s))


def check(case):
    k = case['k']
    random.seed(case.get('seed', 0))
    if k == 'empty':
        s = EmptySpace()
        require(list(s.get_elements()) == [], 'elements of the empty space')
        for x in UNI:
            member(s, x, False, 'empty space')
        return
    if k == 'serial':
        b = [UNI[i] for i in case['batch']]
        s = SerializableSpace()
        require(list(s.from_jsonable(s.to_jsonable(b))) == b, 'default serialization is not the identity')
        return
    if k in ('enumerable', 'list', 'list_gen', 'list_set', 'implicit'):
        els = [UNI[i] for i in case['els']]
        if k == 'implicit':
            s = ImplicitSpace(lambda x: x in els)
            for x in UNI:
                member(s, x, x in els, k)
            t = ImplicitSpace(lambda x: 0)
            require(not t.contains(3) and 3 not in t, 'falsy predicate')
            return
        if k == 'enumerable':
            class S(EnumerableSpace):
                def get_elements(self):
                    return tuple(els)
            s = S()
        elif k == 'list':
            src = list(els)
            s = ListSpace(src)
        elif k == 'list_gen':
            s = ListSpace(x for x in els)
        else:
            els = list(set(els))
            s = ListSpace(set(els))
            els = list(s.get_elements()) if set(s.get_elements()) == set(els) else els
        for _ in range(2):
            require(list(s.get_elements()) == els, 'elements %r of a space built on %r' % (s.get_elements(), els))
        for x in UNI:
            member(s, x, x in els, k)
        if k == 'enumerable':
            return
        require(isinstance(s, EnumerableSpace) and isinstance(s, SamplableSpace) and isinstance(s, SerializableSpace), 'kind')
        s.unwrapped().seed(case['seed'])
        require(s.unwrapped().n == len(els), 'underlying size %r for %d elements' % (s.unwrapped().n, len(els)))
        seen = set()
        for _ in range(60):
            x = s.sample()
            require(x in els, 'sampled %r outside %r' % (x, els))
            seen.add(repr(x))
        if len(set(map(repr, els))) <= 3:
            require(seen == set(map(repr, els)), 'some element is never sampled in 60 draws: %r of %r' % (seen, els))
        batch = [els[i % len(els)] for i in case['batch']]
        require(list(s.from_jsonable(s.to_jsonable(batch))) == batch, 'json round trip of %r' % batch)
        u = list(s.to_unwrapped(batch))
        require(len(u) == len(batch) and all(s.unwrapped().contains(int(i)) for i in u), 'indices %r' % u)
        require(list(s.from_unwrapped(u)) == batch, 'index round trip of %r gives %r' % (batch, list(s.from_unwrapped(u))))
        require([s.from_unwrapped([i])[0] for i in range(len(els))] == els, 'decoding of indices')
        return
    if k == 'enum':
        n, st = case['n'], case['style']
        vals = {'int': {'m%d' % i: i for i in range(n)}, 'rev': {'z%d' % (9 - i): n - i for i in range(n)},
                'str': {'n%d' % i: 'm%d' % ((i + 1) % n) for i in range(n)},
                'alias': {**{'m%d' % i: i for i in range(n)}, 'alias': 0}}[st]
        E = enum.Enum('E', vals)
        s = EnumSpace(E)
        ms = list(E)
        require(list(s.get_elements()) == ms, 'elements')
        for m in ms:
            member(s, m, True, 'enum space')
            for x in (m.value, m.name):
                member(s, x, False, 'enum space')
        member(s, None, False, 'enum space')
        F = enum.Enum('F', vals)
        member(s, list(F)[0], False, 'enum space (other enumeration)')
        s.unwrapped().seed(case['seed'])
        require(s.unwrapped().n == len(ms), 'size')
        for _ in range(40):
            require(s.sample() in ms, 'sample outside')
        b = [ms[i] for i in case['batch']]
        j = s.to_jsonable(b)
        json.dumps(j)
        require(list(s.from_jsonable(json.loads(json.dumps(j)))) == b, 'json round trip of %r: %r' % (b, j))
        u = list(s.to_unwrapped(b))
        require(list(s.from_unwrapped(u)) == b and all(0 <= i < len(ms) for i in u), 'index round trip')
        return
    if k == 'data':
        @dataclass(frozen=True)
        class A:
            position: int
            velocity: int
        s = DataSpace(A, {'position': gs.Discrete(case['a']), 'velocity': gs.Discrete(case['b'])})
        s.unwrapped().seed(case['seed'])
        batch = [A(i % case['a'], (i * 3 + 1) % case['b']) for i in range(4)]
        u = list(s.to_unwrapped(batch))
        require([dict(x) for x in u] == [dict(position=x.position, velocity=x.velocity) for x in batch], 'unwrapped %r' % (u,))
        require(list(s.from_unwrapped(u)) == batch, 'unwrapped round trip')
        require(list(s.from_jsonable(s.to_jsonable(batch))) == batch, 'json round trip')
        for _ in range(10):
            x = s.sample()
            require(isinstance(x, A) and 0 <= x.position < case['a'] and 0 <= x.velocity < case['b'], 'sample %r' % (x,))
        for x in batch:
            require(s.contains(x), 'member %r not contained' % (x,))
        require(not s.contains(A(case['a'], 0)) and not s.contains(A(0, case['b'])) and not s.contains(A(-1, 0)),
                'out of range data contained')
        return
    if k == 'discrete':
        s, ref = DiscreteSpace(case['n']), gs.Discrete(case['n'])
        qs = list(range(-2, case['n'] + 3))
    elif k == 'multidiscrete':
        s, ref = MultiDiscreteSpace(case['nvec']), gs.MultiDiscrete(case['nvec'])
        nv = np.array(case['nvec'])
        qs = [nv - 1, nv, nv * 0, nv * 0 - 1]
    elif k == 'multibinary':
        s, ref = MultiBinarySpace(case['n']), gs.MultiBinary(case['n'])
        z = np.zeros(case['n'], dtype=np.int8)
        qs = [z, z + 1, z + 2, z - 1]
    elif k == 'box':
        sh = tuple(case['shape'])
        s, ref = BoxSpace(case['lo'], case['hi'], sh), gs.Box(case['lo'], case['hi'], sh, np.float32)
        o = np.ones(sh, dtype=np.float32)
        qs = [o * case['lo'], o * case['hi'], o * (case['hi'] + 1), o * (case['lo'] - .5), o * (case['lo'] + case['hi']) / 2]
    elif k == 'tuple':
        mk = lambda: (gs.Discrete(2), gs.Discrete(3))
        s, ref = TupleSpace(mk()), gs.Tuple(mk())
        qs = [(0, 0), (1, 2), (2, 0), (0, 3), (1,)]
    else:
        mk = lambda: {'p': gs.Discrete(2), 'v': gs.Discrete(3)}
        s, ref = DictSpace(mk()), gs.Dict(mk())
        qs = [dict(p=0, v=0), dict(p=1, v=2), dict(p=2, v=0), dict(p=0)]
    s.unwrapped().seed(case['seed'])
    require(type(s.unwrapped()) is type(ref), 'underlying space %r' % type(s.unwrapped()))
    for q in qs:
        require(bool(s.contains(q)) == bool(ref.contains(q)), '%s: contains(%r) is %r' % (k, q, s.contains(q)))
    batch = []
    for _ in range(10):
        x = s.sample()
        require(ref.contains(x), '%s: sample %r not a member' % (k, x))
        batch.append(x)
    back = list(s.from_jsonable(s.to_jsonable(batch)))
    require(len(back) == len(batch) and all(np.array_equal(np.asarray(list(x.values()) if isinstance(x, dict) else x),
                                                           np.asarray(list(y.values()) if isinstance(y, dict) else y))
                                            for x, y in zip(batch, back)), '%s: json round trip' % k)
    require(list(s.from_unwrapped(s.to_unwrapped([1, 2]))) == [1, 2], 'conversion round trip')
