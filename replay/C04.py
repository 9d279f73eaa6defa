from replay.base import require
from skdecide.core import ImplicitConstraint, BoundConstraint, Tree, Union, StrDict, Memory, List
import itertools, operator

RULE = 'every inequality, values below/at/above the bound (ints, floats, infinities), all argument forms, dependence flags, casts'
BOUNDS = 'bounded: sampled numbers'
OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def cases(rng, tier):
    nums = [-2, -1, 0, 1, 2, 0.5, -0.5, 1e-9, -1e-9, 1e9, 'inf', '-inf']
    for op in OPS:
        for v in nums:
            for b in rng.sample(nums, 4) + [v]:
                yield dict(k='bound', op=op, v=v, b=b, dep=rng.choice([True, False, None]), ns=rng.random() < .5,
                           cast=rng.random() < .3)
    for op in ('=', '==', '=<', '', '!=', '=>', None):
        yield dict(k='bad', op=op)
    for dep in (True, False, None):
        for r in (True, False):
            for ns in (True, False):
                for cast in (True, False):
                    yield dict(k='impl', dep=dep, r=r, ns=ns, cast=cast)


def check(case):
    if case['k'] == 'bad':
        try:
            BoundConstraint(lambda m, a, s: 0., case['op'], 0.)
        except Exception:
            return
        require(False, 'inequality %r accepted' % (case['op'],))
    got = []
    dep = case['dep']
    kw = {} if dep is None else dict(depends_on_next_state=dep)
    want_dep = True if dep is None else dep
    U = Tree(Union, [Tree(Union)])
    srcs, dsts = [U, U, Tree(Union)], [Tree(Memory, [Tree(Union)]), Tree(StrDict, [Tree(Union)]), Tree(Union)]
    m, a, s = ('m', 1), ('a', 2), ('s', 3)
    if case['k'] == 'bound':
        v, b = float(case['v']) if isinstance(case['v'], str) else case['v'], float(case['b']) if isinstance(case['b'], str) else case['b']

        def f(mm, aa, ss):
            got.append((mm, aa, ss))
            return v
        c = BoundConstraint(f, case['op'], b, **kw)
        want = OPS[case['op']](v, b)
    else:
        def f(mm, aa, ss):
            got.append((mm, aa, ss))
            return case['r']
        c = ImplicitConstraint(f, **kw)
        want = case['r']
    require(not got, 'function called at construction')
    args = (m, a, s) if case['ns'] else (m, a)
    seen = (m, a, s if case['ns'] else None)
    if case['cast']:
        c = c._cast(srcs, dsts)
        args, seen = (Memory([m]), {'agent': a}, s), (m, a, s)
    require(bool(c.check(*args)) == want, 'check gives %r, expected %r' % (c.check(*args), want))
    require(all(g == seen for g in got), 'function called with %r instead of %r' % (got, seen))
    require(c.is_constraint_dependent_on_next_state() == want_dep and c.is_constraint_dependent_on_next_state() == want_dep,
            'dependence flag')
    if case['k'] == 'bound':
        require(c.evaluate(*args) == v, 'evaluate')
        require(c.get_bound() == b and c.get_inequality() == case['op'], 'accessors')
    other = ImplicitConstraint(lambda *x: True, not want_dep)
    require(other.is_constraint_dependent_on_next_state() == (not want_dep), 'dependence flag shared between constraints')
