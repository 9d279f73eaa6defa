"""Transition values and outcome defaults (skdecide.core)."""
from pyvc.contract import Registry
from pyvc.engine import *
import skdecide.core as core

CONTRACTS = contract = Registry()
ASSUMPTIONS = ['rewards and costs are real numbers (IEEE rounding, nan and infinities are outside the contract; '
               'negation is exact in IEEE arithmetic)']


@contract('TransitionValue', 'skdecide.core:TransitionValue.__init__', 'skdecide.core:TransitionValue.__post_init__',
          'skdecide.core:TransitionValue._cost_to_reward', 'skdecide.core:TransitionValue._reward_to_cost')
def tv(c):
    r, k = REAL.fresh('reward'), REAL.fresh('cost')
    mode = c.case('given', ['reward', 'cost', 'both', 'none', 'int'])
    if mode == 'reward':
        v = core.TransitionValue(reward=r)
        c.prove('reward kept', eqf(v.reward, r))
    elif mode == 'cost':
        v = core.TransitionValue(cost=k)
        c.prove('cost kept', eqf(v.cost, k))
    elif mode == 'both':
        v = core.TransitionValue(r, k)
        c.prove('reward wins', eqf(v.reward, r))
    elif mode == 'int':
        n = INT.fresh('n')
        v = core.TransitionValue(reward=n) if c.case('int', [0, 1]) else core.TransitionValue(cost=n)
    else:
        v = core.TransitionValue()
        c.prove('zero default', And(eqf(v.reward, 0), eqf(v.cost, 0)))
    c.prove('both defined', v.reward is not None and v.cost is not None)
    c.prove('cost is negated reward', eqf(v.cost, -v.reward))


def _outcome(cls, first):
    def verify(c):
        agents = DictTy(OBJ, OBJ)
        x = agents.fresh('per_agent') if c.case('shape', ['agents', 'single']) == 'agents' else OBJ.fresh('x')
        term = BOOL.fresh('termination')
        kw = {}
        if c.case('value', ['given', 'absent']) == 'given':
            kw['value'] = OBJ.fresh('value')
        if c.case('info', ['given', 'absent']) == 'given':
            kw['info'] = OBJ.fresh('info')
        before = list(x.terms) if type(x) is SymDict else None
        o = cls(x, termination=term, **kw)
        c.prove('main field kept', eqf(getattr(o, first), x))
        c.prove('termination kept', eqf(o.termination, term))
        q = OBJ.fresh('agent')
        if 'value' in kw:
            c.prove('value kept', eqf(o.value, kw['value']))
        elif before is None:
            c.prove('zero value', And(eqf(o.value.reward, 0), eqf(o.value.cost, 0)))
        else:
            c.prove('value for exactly the agents', Iff(o.value.has(q), x.has(q)))
            d = o.value.at(q)
            c.prove('zero value for every agent', Implies(x.has(q), And(eqf(d.reward, 0), eqf(d.cost, 0))))
        if 'info' in kw:
            c.prove('info kept', eqf(o.info, kw['info']))
        elif before is None:
            c.prove('no info', o.info is None)
        else:
            c.prove('info for exactly the agents', Iff(o.info.has(q), x.has(q)))
            c.prove('no info for every agent', Implies(x.has(q), o.info.at(q) is None))
        if before is not None:
            c.prove('agents untouched', And(*[a == b for a, b in zip(before, x.terms)]))
        # replace
        y = OBJ.fresh('y')
        p = o.replace(termination=BOOL.fresh('t2'), info=y)
        c.prove('replace keeps the rest', And(eqf(getattr(p, first), getattr(o, first)), eqf(p.info, y)))
    return verify


contract('EnvironmentOutcome', 'skdecide.core:EnvironmentOutcome.__init__', 'skdecide.core:EnvironmentOutcome.__post_init__',
         'skdecide.core:ExtendedDataclass.replace')(_outcome(core.EnvironmentOutcome, 'observation'))
contract('TransitionOutcome', 'skdecide.core:TransitionOutcome.__init__', 'skdecide.core:TransitionOutcome.__post_init__',
         'skdecide.core:ExtendedDataclass.replace')(_outcome(core.TransitionOutcome, 'state'))
