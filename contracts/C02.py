"""Distributions (skdecide.core)."""
from pyvc.contract import Registry
from pyvc.engine import *
import skdecide.core as core
from skdecide.core import Tree, List, Union, StrDict, Memory, TransitionValue

CONTRACTS = contract = Registry()
ASSUMPTIONS = ['random.choices(population, weights) returns a list whose first element is a member of the population '
               'at an index of positive weight (probability law itself trusted)',
               'probabilities are real numbers']
PAIRS = SeqTy(TupTy(OBJ, REAL))


class FakeRandom:
    """Contract of random.choices, assumed: positional weights, first pick has positive weight."""
    def __init__(self):
        self.calls = []

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        if weights is None or cum_weights is not None or k != 1:
            raise Unsupported('random.choices form')
        i = INT.fresh('pick')
        CTX_().assume(And(i >= 0, SymInt(i.t) < SymInt(population.n), SymInt(i.t) < SymInt(weights.n), weights.elem(i.t) > 0))
        self.calls.append((population, weights, i))
        return [population.elem(i.t)]


def CTX_():
    from pyvc import engine
    return engine.CTX


def patch_random():
    old = core.random
    core.random = FakeRandom()

    def undo():
        core.random = old
    return undo


@contract('DiscreteDistribution', 'skdecide.core:DiscreteDistribution.__init__', 'skdecide.core:DiscreteDistribution.sample',
          'skdecide.core:DiscreteDistribution.get_values', setup=patch_random)
def discrete(c):
    core.random.calls.clear()
    vals = PAIRS.fresh('values')
    c.assume(vals.n > 0)
    given = vals.copy()
    d = core.DiscreteDistribution(vals)
    c.prove('get_values returns the given pairs', seq_eq(d.get_values(), given))
    x = d.sample()
    c.prove('one draw', len(core.random.calls) == 1)
    pop, w, i = core.random.calls[0]
    c.prove('population and weights are the given pairs', And(
        pop.n == given.n, w.n == given.n,
        forall_in(b_range(SymInt(given.n)), lambda k: And(eqf(pop.elem(k.t), given.elem(k.t)[0]),
                                                          eqf(w.elem(k.t), given.elem(k.t)[1])))))
    j = z3.Int('j')
    e = given.elem(j)
    c.prove('sampled element is a given element of positive probability',
            z3.Exists([j], And(j >= 0, j < given.n, eqf(e[0], x), e[1] > 0)))
    c.prove('get_values unchanged by sampling', seq_eq(d.get_values(), given))


@contract('SingleValueDistribution', 'skdecide.core:SingleValueDistribution.__init__',
          'skdecide.core:SingleValueDistribution.sample', 'skdecide.core:SingleValueDistribution.get_values',
          'skdecide.core:SingleValueDistribution.get_value')
def single(c):
    v = OBJ.fresh('v')
    d = core.SingleValueDistribution(v)
    c.prove('sample', eqf(d.sample(), v))
    c.prove('get_value', eqf(d.get_value(), v))
    gv = d.get_values()
    c.prove('get_values', len(gv) == 1 and And(eqf(gv[0][0], v), eqf(gv[0][1], 1)))


@contract('ImplicitDistribution', 'skdecide.core:ImplicitDistribution.__init__', 'skdecide.core:ImplicitDistribution.sample')
def implicit(c):
    n = []
    ret = [OBJ.fresh('r1'), OBJ.fresh('r2')]

    def f():
        n.append(1)
        return ret[len(n) - 1]
    d = core.ImplicitDistribution(f)
    c.prove('not sampled at construction', len(n) == 0)
    c.prove('first draw', eqf(d.sample(), ret[0]))
    c.prove('second draw', And(eqf(d.sample(), ret[1]), len(n) == 2))


# casting: element-wise, probabilities and order untouched.  Recursive calls of cast() on the elements are
# replaced by an arbitrary function (its own contract is C05's).
def cast_stub():
    old = core.cast
    src, dst = Tree(List, [Tree(Union)]), Tree(Union, [Tree(Union)])
    f = func('castf', OBJ)

    def stub(obj, s, d):
        if s is not stub.src or d is not stub.dst:
            raise Unsupported('cast called with other trees')
        return f(obj)
    stub.src, stub.dst, stub.f = src, dst, f
    core.cast = stub

    def undo():
        core.cast = old
    return undo


@contract('DiscreteDistribution._cast', 'skdecide.core:DiscreteDistribution._cast', setup=cast_stub)
def dcast(c):
    vals = PAIRS.fresh('values')
    c.assume(vals.n > 0)
    d = core.DiscreteDistribution(vals)
    e = d._cast([core.cast.src], [core.cast.dst])
    f = core.cast.f
    g = e.get_values()
    c.prove('same kind', type(e) is core.DiscreteDistribution)
    c.prove('element-wise, same probabilities', And(g.n == vals.n, forall_in(
        b_range(SymInt(vals.n)), lambda k: And(eqf(g.elem(k.t)[0], f(vals.elem(k.t)[0])),
                                               eqf(g.elem(k.t)[1], vals.elem(k.t)[1])))))
    c.prove('source untouched', d.get_values() is vals)


@contract('SingleValueDistribution._cast', 'skdecide.core:SingleValueDistribution._cast', setup=cast_stub)
def scast(c):
    v = OBJ.fresh('v')
    d = core.SingleValueDistribution(v)
    e = d._cast([core.cast.src], [core.cast.dst])
    c.prove('value cast', eqf(e.sample(), core.cast.f(v)))
    c.prove('get_values', And(eqf(e.get_values()[0][0], core.cast.f(v)), eqf(e.get_values()[0][1], 1), len(e.get_values()) == 1))


@contract('ImplicitDistribution._cast', 'skdecide.core:ImplicitDistribution._cast', setup=cast_stub)
def icast(c):
    v = OBJ.fresh('v')
    n = []

    def f():
        n.append(1)
        return v
    e = core.ImplicitDistribution(f)._cast([core.cast.src], [core.cast.dst])
    c.prove('lazy', len(n) == 0)
    c.prove('draw cast', eqf(e.sample(), core.cast.f(v)))
    c.prove('one draw', len(n) == 1)
