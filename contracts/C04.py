"""Constraints (skdecide.core)."""
from pyvc.contract import Registry
from pyvc.engine import *
import skdecide.core as core
from skdecide.core import Tree, List, Union
from contracts.C02 import cast_stub

CONTRACTS = contract = Registry()
ASSUMPTIONS = ['evaluation results and bounds are real numbers']
OPS = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}


def args(c):
    m, a = OBJ.fresh('memory'), OBJ.fresh('action')
    ns = OBJ.fresh('next_state') if c.case('next_state', ['given', 'omitted']) == 'given' else None
    return (m, a, ns)


def call(c, f, a):
    if a[2] is None:
        return f(a[0], a[1])
    return f(*a)


@contract('BoundConstraint', *['skdecide.core:BoundConstraint.' + m for m in
                               ('__init__', 'check', 'evaluate', 'get_inequality', 'get_bound',
                                '_is_constraint_dependent_on_next_state_')],
          'skdecide.core:Constraint.is_constraint_dependent_on_next_state')
def bound(c):
    op = c.case('op', list(OPS))
    ev_ = func('evaluate', OBJ, OBJ, OBJ, ret=REAL)
    b = REAL.fresh('bound')
    dep = c.case('dep', [True, False, 'default'])
    k = core.BoundConstraint(ev_, op, b) if dep == 'default' else core.BoundConstraint(ev_, op, b, dep)
    a = args(c)
    v = ev_(*a)
    c.prove('check iff inequality', Iff(call(c, k.check, a), OPS[op](v, b)))
    c.prove('evaluate', eqf(call(c, k.evaluate, a), v))
    c.prove('inequality', k.get_inequality() == op)
    c.prove('bound', eqf(k.get_bound(), b))
    c.prove('dependence', k.is_constraint_dependent_on_next_state() is (dep is not False))
    c.prove('dependence cached', k.is_constraint_dependent_on_next_state() is (dep is not False))


@contract('BoundConstraint rejects other inequalities', 'skdecide.core:BoundConstraint.__init__')
def reject(c):
    op = c.case('op', ['=', '==', '=<', '', '!=', '<>'])
    try:
        core.BoundConstraint(func('evaluate', OBJ, OBJ, OBJ, ret=REAL), op, 0.)
        ok = False
    except (AssertionError, KeyError, ValueError):
        ok = True
    c.prove('rejected', ok)


@contract('ImplicitConstraint', *['skdecide.core:ImplicitConstraint.' + m for m in
                                  ('__init__', 'check', '_is_constraint_dependent_on_next_state_')],
          'skdecide.core:Constraint.is_constraint_dependent_on_next_state')
def implicit(c):
    ch = func('check', OBJ, OBJ, OBJ, ret=BOOL)
    dep = c.case('dep', [True, False, 'default'])
    k = core.ImplicitConstraint(ch) if dep == 'default' else core.ImplicitConstraint(ch, dep)
    a = args(c)
    c.prove('check', Iff(call(c, k.check, a), ch(*a)))
    c.prove('dependence', k.is_constraint_dependent_on_next_state() is (dep is not False))


def stub3():
    """cast() replaced by an arbitrary function of (object, source, destination): contravariance is visible."""
    old = core.cast
    src = [Tree(List, [Tree(Union)]) for _ in range(3)]
    dst = [Tree(Union, [Tree(Union)]) for _ in range(3)]
    fs = {}

    def stub(obj, s, d):
        for i in range(3):
            if s is dst[i] and d is src[i]:
                return fs.setdefault(i, func('cast_back%d' % i, OBJ))(obj)
        return func('cast_wrong', OBJ)(obj)
    stub.src, stub.dst = src, dst
    core.cast = stub

    def undo():
        core.cast = old
    return undo


def _cast(kind):
    def verify(c):
        st = core.cast
        g = [func('cast_back%d' % i, OBJ) for i in range(3)]
        m, a, ns = OBJ.fresh('memory'), OBJ.fresh('action'), OBJ.fresh('next_state')
        dep = c.case('dep', [True, False])
        if kind == 'bound':
            op = c.case('op', list(OPS))
            e, b = func('evaluate', OBJ, OBJ, OBJ, ret=REAL), REAL.fresh('bound')
            k = core.BoundConstraint(e, op, b, dep)._cast(st.src, st.dst)
            v = e(g[0](m), g[1](a), g[2](ns))
            c.prove('evaluates on converted arguments', eqf(k.evaluate(m, a, ns), v))
            c.prove('check', Iff(k.check(m, a, ns), OPS[op](v, b)))
            c.prove('inequality and bound kept', k.get_inequality() == op and eqf(k.get_bound(), b))
        else:
            e = func('check', OBJ, OBJ, OBJ, ret=BOOL)
            k = core.ImplicitConstraint(e, dep)._cast(st.src, st.dst)
            c.prove('check on converted arguments', Iff(k.check(m, a, ns), e(g[0](m), g[1](a), g[2](ns))))
        c.prove('dependence kept', k.is_constraint_dependent_on_next_state() is dep)
    return verify


contract('BoundConstraint._cast', 'skdecide.core:BoundConstraint._cast', setup=stub3)(_cast('bound'))
contract('ImplicitConstraint._cast', 'skdecide.core:ImplicitConstraint._cast', setup=stub3)(_cast('implicit'))
