"""Spaces (skdecide.core, skdecide.hub.space.gym)."""
from pyvc.contract import Registry
from pyvc.engine import *
import skdecide.core as core
import skdecide.hub.space.gym.gym as G
import enum, dataclasses

CONTRACTS = contract = Registry()
ASSUMPTIONS = ['the wrapped gym space: contains/sample/to_jsonable/from_jsonable are arbitrary functions; gym Discrete(n).sample() '
               'returns an integer in [0, n)', 'elements of a space are compared by value (==)']


@contract('ImplicitSpace', 'skdecide.core:ImplicitSpace.__init__', 'skdecide.core:ImplicitSpace.contains',
          'skdecide.core:Space.__contains__')
def implicit(c):
    p = func('pred', OBJ, ret=BOOL)
    calls = []

    def f(x):
        calls.append(x)
        return p(x)
    s = core.ImplicitSpace(f)
    x = OBJ.fresh('x')
    c.prove('contains is the predicate', Iff(s.contains(x), p(x)))
    c.prove('in is the predicate', ev(lambda: x in s) == p(x).t)


@contract('EnumerableSpace', 'skdecide.core:EnumerableSpace.contains', 'skdecide.core:Space.__contains__')
def enumerable(c):
    elems = SeqTy(OBJ).fresh('elements')

    class S(core.EnumerableSpace):
        def get_elements(self):
            return elems
    x = OBJ.fresh('x')
    i = z3.Int('i')
    member = z3.Exists([i], And(i >= 0, i < elems.n, eqf(elems.elem(i), x)))
    s = S()
    r = s.contains(x)
    c.prove('contains iff listed', Iff(r, member))
    c.prove('in iff listed', ev(lambda: x in s) == member)


@contract('EmptySpace', 'skdecide.core:EmptySpace.get_elements', 'skdecide.core:EmptySpace.contains')
def empty(c):
    s = core.EmptySpace()
    c.prove('no element', len(list(s.get_elements())) == 0)
    c.prove('contains nothing', Not(s.contains(OBJ.fresh('x'))))


@contract('SerializableSpace', 'skdecide.core:SerializableSpace.to_jsonable', 'skdecide.core:SerializableSpace.from_jsonable')
def serializable(c):
    b = SeqTy(OBJ).fresh('batch')
    s = core.SerializableSpace()
    c.prove('round trip', seq_eq(s.from_jsonable(s.to_jsonable(b)), b))


class FakeGym:
    shape = dtype = None

    def __init__(self):
        self.c, self.tj, self.fj = func('g_contains', OBJ, ret=BOOL), func('g_to_json', OBJ), func('g_from_json', OBJ)
        self.s = OBJ.fresh('g_sample')

    def contains(self, x): return self.c(x)
    def sample(self): return self.s
    def to_jsonable(self, x): return self.tj(x)
    def from_jsonable(self, x): return self.fj(x)


@contract('GymSpace', *['skdecide.hub.space.gym.gym:GymSpace.' + m for m in
                        ('__init__', 'contains', 'sample', 'to_jsonable', 'from_jsonable', 'unwrapped', 'to_unwrapped',
                         'from_unwrapped')])
def gymspace(c):
    g = FakeGym()
    s = G.GymSpace(g)
    x = OBJ.fresh('x')
    c.prove('membership delegates', Iff(s.contains(x), g.c(x)))
    c.prove('sample delegates', eqf(s.sample(), g.s))
    c.prove('to_jsonable delegates', eqf(s.to_jsonable(x), g.tj(x)))
    c.prove('from_jsonable delegates', eqf(s.from_jsonable(x), g.fj(x)))
    c.prove('unwrapped', s.unwrapped() is g)
    c.prove('batch conversion identity', And(eqf(s.to_unwrapped(x), x), eqf(s.from_unwrapped(x), x)))


class FakeDiscrete:
    shape = dtype = None

    def __init__(self, n, **kw):
        self.n = n

    def sample(self):
        i = INT.fresh('g_idx')
        from pyvc import engine
        engine.CTX.assume(And(i >= 0, i < self.n))
        return i


class FakeSpaces:
    Discrete = FakeDiscrete


def fake_gym():
    old = G.gym_spaces
    G.gym_spaces = FakeSpaces

    def undo():
        G.gym_spaces = old
    return undo


@contract('ListSpace', *['skdecide.hub.space.gym.gym:ListSpace.' + m for m in
                         ('__init__', 'contains', 'get_elements', 'sample', 'to_jsonable', 'from_jsonable', 'unwrapped',
                          'to_unwrapped', 'from_unwrapped')], setup=fake_gym)
def listspace(c):
    elems = SeqTy(OBJ).fresh('elements')
    given = elems.copy()
    c.assume(elems.n > 0)
    s = G.ListSpace(elems)
    x = OBJ.fresh('x')
    i, j = z3.Int('i'), z3.Int('j')
    member = z3.Exists([i], And(i >= 0, i < given.n, eqf(given.elem(i), x)))
    c.prove('contains iff listed', Iff(s.contains(x), member))
    c.prove('elements are the given ones', seq_eq(s.get_elements(), given))
    c.prove('underlying size', eqf(s.unwrapped().n, SymInt(given.n)))
    smp = s.sample()
    c.prove('sample is listed', z3.Exists([i], And(i >= 0, i < given.n, eqf(given.elem(i), smp))))
    batch = SeqTy(OBJ).fresh('batch')
    c.prove('json round trip', seq_eq(s.from_jsonable(s.to_jsonable(batch)), batch))
    # index encoding of one (arbitrary) member: decodes to the same member
    c.assume(member)
    u = s.to_unwrapped([x])
    c.prove('one index per sample', len(u) == 1)
    c.prove('index in range', And(u[0] >= 0, u[0] < SymInt(given.n)))
    c.prove('index round trip', eqf(s.from_unwrapped(u)[0], x))
    ix = SeqTy(INT).fresh('indices')
    c.assume(forall_in(ix, lambda k: And(k >= 0, k < SymInt(given.n))))
    back = s.from_unwrapped(ix)
    c.prove('indices decode in place', And(back.n == ix.n, forall_in(b_range(SymInt(ix.n)), lambda k: eqf(
        back.elem(k.t), given.elem(ix.elem(k.t).t)))))


@contract('EnumSpace', *['skdecide.hub.space.gym.gym:EnumSpace.' + m for m in
                         ('__init__', 'contains', 'get_elements', 'sample', 'to_jsonable', 'from_jsonable', 'unwrapped',
                          'to_unwrapped', 'from_unwrapped')], setup=fake_gym)
def enumspace(c):
    # enumerations are finite python classes: verified for every member of representative enumerations, with the
    # sampled index symbolic
    n = c.case('size', [1, 2, 5])
    E = enum.Enum('E', {('m%d' % k): (k * 7) % 5 for k in range(n)}) if c.case('values', ['ints', 'odd']) == 'ints' else \
        enum.Enum('E', {('z%d' % (9 - k)): 'v%d' % k for k in range(n)})
    s = G.EnumSpace(E)
    ms = list(E)
    c.prove('elements', list(s.get_elements()) == ms)
    c.prove('size', s.unwrapped().n == len(ms))
    m = ms[c.case('member', list(range(len(ms))))]
    c.prove('members contained', s.contains(m) and m in s)
    c.prove('others not contained', not s.contains(m.value) and not s.contains(m.name) and not s.contains(None))
    c.prove('json round trip', s.from_jsonable(s.to_jsonable([m])) == [m] and isinstance(s.to_jsonable([m])[0], str))
    c.prove('index round trip', s.from_unwrapped(s.to_unwrapped([m])) == [m] and 0 <= s.to_unwrapped([m])[0] < len(ms))
    smp = s.sample()
    c.prove('sample is a member', smp in ms)
