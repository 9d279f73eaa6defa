from replay.base import require
from skdecide.core import (DiscreteDistribution, SingleValueDistribution, ImplicitDistribution, Tree, Memory, StrDict, List,
                           Union, TransitionValue, EnvironmentOutcome)
import random, math

RULE = 'weighted lists of 1-8 elements (repeated elements, zero weights, unnormalised weights, falsy and unhashable elements); casts ' \
       'between single-agent/multi-agent shapes'
BOUNDS = 'bounded: at most 8 elements, 400 draws per distribution; frequencies compared at 6 standard deviations'
LEAF = [0, None, '', ('s', 3)]
def element(): return 'called'


ELEMS = ['a', 0, None, '', (1, 2), 'b', False, 3.5]


def cases(rng, tier):
    for ws in ([1.0], [0.5, 0.5], [0, 1], [1, 0], [0.0, 0.3, 0.0, 0.7], [10, 30, 60], [1e-9, 1.0], [3, 3, 3, 3, 3, 3, 3, 3],
               [0, 0, 2.5], [0.25, 0.25, 0.5], [0.9, 0.1], [1e-9, 3e-9], [2e-13, 0, 1e-13], [1e12, 3e12], [4e-7, 4e-7, 1.2e-6]):
        for rep in (False, True):
            yield dict(k='disc', w=ws, rep=rep, seed=rng.randint(0, 10 ** 6))
    for _ in range(60 if tier == 'quick' else 600):
        n = rng.randint(1, 8)
        ws = [rng.choice([0, rng.random(), rng.randint(1, 50)]) for _ in range(n)]
        if sum(ws) == 0:
            ws[rng.randrange(n)] = 1
        yield dict(k='disc', w=ws, rep=rng.random() < .3, seed=rng.randint(0, 10 ** 6))
    for i in range(len(ELEMS) + 3):
        yield dict(k='single', i=i)
        yield dict(k='impl', i=i)
    for kind in ('disc', 'single', 'impl'):
        for way in ('wrap', 'unwrap', 'wrapmem', 'unwrapmem', 'same'):
            for n in (1, 2, 4):
                yield dict(k='cast', kind=kind, way=way, n=n)


def check(case):
    k = case['k']
    if k == 'disc':
        w = case['w']
        el = [ELEMS[0 if (case['rep'] and i % 2) else i] for i in range(len(w))]
        vals = list(zip(el, w))
        given = list(vals)
        d = DiscreteDistribution(vals)
        require(list(d.get_values()) == given, 'get_values %r, given %r' % (d.get_values(), given))
        random.seed(case['seed'])
        N = 400
        cnt = {}
        for _ in range(N):
            x = d.sample()
            cnt[repr(x)] = cnt.get(repr(x), 0) + 1
        tot = float(sum(w))
        for e in set(map(repr, el)):
            p = sum(wi for x, wi in given if repr(x) == e) / tot
            got = cnt.pop(e, 0)
            if p == 0:
                require(got == 0, 'element %s of probability 0 sampled' % e)
            else:
                sd = math.sqrt(N * p * (1 - p)) + 1
                require(abs(got - N * p) <= 6 * sd, 'element %s drawn %d times out of %d, probability %r' % (e, got, N, p))
        require(not cnt, 'sampled elements that are not in the distribution: %r' % cnt)
        require(list(d.get_values()) == given, 'sampling changed the values')
        return
    if k == 'single':
        v = (ELEMS + [[1, 2], element, int])[case['i']]
        d = SingleValueDistribution(v)
        require(all(d.sample() is v for _ in range(5)) and d.get_value() is v, 'does not return its value')
        g = d.get_values()
        require(len(g) == 1 and g[0][0] is v and g[0][1] == 1.0, 'get_values %r' % (g,))
        require(isinstance(d, DiscreteDistribution), 'not a discrete distribution')
        return
    if k == 'impl':
        v = (ELEMS + [[1, 2], element, int])[case['i']]
        calls = []
        d = ImplicitDistribution(lambda: (calls.append(1), v)[1])
        require(not calls, 'sampled at construction')
        require(d.sample() is v and d.sample() is v and len(calls) == 2, 'not one call of the sample function per draw')
        return
    n = case['n']
    U = lambda *s: Tree(Union, list(s))
    way = case['way']
    if way == 'wrap':
        els, src, dst, conv = [LEAF[i] for i in range(n)], U(U()), Tree(StrDict, [U()]), lambda x: {'agent': x}
    elif way == 'unwrap':
        els, src, dst, conv = [{'only': LEAF[i]} for i in range(n)], Tree(StrDict, [U()]), U(U()), lambda x: x['only']
    elif way == 'wrapmem':
        els, src, dst, conv = [LEAF[i] for i in range(n)], U(U()), Tree(Memory, [U()]), lambda x: Memory([x])
    elif way == 'unwrapmem':
        els, src, dst, conv = [Memory([LEAF[i]]) for i in range(n)], Tree(Memory, [U()]), U(U()), lambda x: x[0]
    else:
        els, src, dst, conv = [LEAF[i] for i in range(n)], U(U()), U(U()), lambda x: x
    probs = [i / 10 if n > 1 else .4 for i in range(n)]
    if case['kind'] == 'disc':
        d = DiscreteDistribution(list(zip(els, probs)))
        e = d._cast([src], [dst])
        require([(v, p) for v, p in e.get_values()] == [(conv(x), p) for x, p in zip(els, probs)],
                'cast distribution %r from %r' % (e.get_values(), d.get_values()))
        require(list(d.get_values()) == list(zip(els, probs)), 'casting changed the source')
        require(type(e) is DiscreteDistribution, 'kind changed')
    elif case['kind'] == 'single':
        e = SingleValueDistribution(els[0])._cast([src], [dst])
        require(e.sample() == conv(els[0]) and e.get_values() == [(conv(els[0]), 1.0)] and type(e) is SingleValueDistribution,
                'cast Dirac %r' % (e.get_values(),))
    else:
        it = iter(els)
        e = ImplicitDistribution(lambda: next(it))._cast([src], [dst])
        require([e.sample() for _ in els] == [conv(x) for x in els], 'cast implicit distribution draws differ')
