"""Events, actions, goals, observations, value checks and rendering (builders.domain)."""
from pyvc.contract import Registry
from pyvc.engine import *
from contracts.common import with_memory
from skdecide import Domain
from skdecide.core import Memory, Union, Space, TransitionValue, EmptySpace
from skdecide.builders.domain import *

CONTRACTS = contract = Registry()
ASSUMPTIONS = ['spaces given by the domain author are arbitrary membership predicates', 'costs are real numbers']
B = 'skdecide.builders.domain.'
FN = [B + 'events:Events.' + m for m in (
    'get_enabled_events', '_get_enabled_events', 'is_enabled_event', '_is_enabled_event', '_is_enabled_event_from',
    'get_action_space', '_get_action_space', 'is_action', '_is_action', 'get_applicable_actions', '_get_applicable_actions',
    'is_applicable_action', '_is_applicable_action', '_is_applicable_action_from')] + [
    B + 'events:Actions._get_enabled_events_from', B + 'events:UnrestrictedActions._get_applicable_actions_from',
    B + 'goals:Goals.is_goal', B + 'goals:Goals._is_goal', B + 'goals:Goals.get_goals', B + 'goals:Goals._get_goals',
    B + 'observability:PartiallyObservable.is_observation', B + 'observability:PartiallyObservable._is_observation',
    B + 'observability:PartiallyObservable.get_observation_space', B + 'observability:PartiallyObservable._get_observation_space',
    B + 'value:Rewards.check_value', B + 'value:Rewards._check_value', B + 'value:PositiveCosts._check_value',
    B + 'value:PositiveCosts._is_positive', B + 'renderability:Renderable.render', B + 'renderability:Renderable._render',
    'skdecide.core:EmptySpace.contains', 'skdecide.core:Space.__contains__']


class S(Space):
    """An arbitrary space: membership is an uninterpreted predicate of (space, value)."""
    def __init__(self, sid):
        self.sid = sid

    def contains(self, x):
        return func('member', OBJ, OBJ, ret=BOOL)(self.sid, x)

    def __eq__(self, o):
        return self.sid == o.sid if type(o) is S else False
    __hash__ = None


SPACE = RecTy(S, [('sid', OBJ)])


def spaces(c, name, multi):
    return DictTy(OBJ, SPACE).fresh(name) if multi else S(OBJ.fresh(name))


def member(sp, x, multi):
    if not multi:
        return sp.contains(x)
    return forall_in(x, lambda k: sp.at(k).contains(x.at(k)))


def value(c, sp, name, multi):
    if not multi:
        return OBJ.fresh(name)
    x = DictTy(OBJ, OBJ).fresh(name)
    c.assume(forall_in(x, lambda k: sp.has(k)))
    return x


def domain(c, *more):
    multi = c.case('agents', ['single', 'multi']) == 'multi'
    kind = c.case('memory kind', ['markovian', 'history'])

    class D(Domain, MultiAgent if multi else SingleAgent, Sequential, *more, Markovian if kind == 'markovian' else History):
        pass
    d = D()
    mk = lambda n: OBJ.fresh(n) if kind == 'markovian' else SeqTy(OBJ, cls=Memory).fresh(n)
    d._memory = mk('internal')
    how = c.case('memory', ['given', 'omitted', 'none'])
    given = mk('memory')
    args = {'given': (given,), 'omitted': (), 'none': (None,)}[how]
    return multi, d, args, given if how == 'given' else d._memory


@contract('events and applicable actions of the right memory', *FN, setup=with_memory)
def events(c):
    multi, d, args, eff = domain(c, Events)
    seen = []
    en, ap = S(OBJ.fresh('enabled')), spaces(c, 'applicable', multi)
    D = type(d)
    D._get_enabled_events_from = lambda self, memory: (seen.append(memory), en)[1]
    D._get_applicable_actions_from = lambda self, memory: (seen.append(memory), ap)[1]
    q = c.case('query', ['enabled', 'is_enabled', 'applicable', 'is_applicable'])
    e = OBJ.fresh('event')
    if q == 'enabled':
        c.prove('enabled events', d.get_enabled_events(*args) is en)
    elif q == 'is_enabled':
        c.prove('enabled iff member', Iff(d.is_enabled_event(e, *args), en.contains(e)))
    elif q == 'applicable':
        c.prove('applicable actions', d.get_applicable_actions(*args) is ap)
    else:
        x = value(c, ap, 'action', multi)
        c.prove('applicable iff every agent action is a member', Iff(d.is_applicable_action(x, *args), member(ap, x, multi)))
    c.prove('computed from the given memory, or from the internal one', len(seen) == 1 and seen[0] is eff)


@contract('action space, goals, observations', *FN, setup=with_memory)
def membership(c):
    multi, d, args, eff = domain(c, Goals)
    D = type(d)
    sp = spaces(c, 'space', multi)
    q = c.case('query', ['action', 'goal', 'observation'])
    if q == 'action':
        one = S(OBJ.fresh('actions'))
        D._get_action_space_ = lambda self: one
        e = OBJ.fresh('event')
        c.prove('action iff member', Iff(d.is_action(e), one.contains(e)))
        c.prove('action space', d.get_action_space() is one)
    elif q == 'goal':
        D._get_goals_ = lambda self: sp
        x = value(c, sp, 'observation', multi)
        c.prove('goal iff every agent observation is a member', Iff(d.is_goal(x), member(sp, x, multi)))
        c.prove('goals', d.get_goals() is sp)
    else:
        D._get_observation_space_ = lambda self: sp
        x = value(c, sp, 'observation', multi)
        c.prove('observation iff every agent observation is a member', Iff(d.is_observation(x), member(sp, x, multi)))
        c.prove('observation space', d.get_observation_space() is sp)


@contract('unrestricted actions', *FN, setup=with_memory)
def unrestricted(c):
    multi, d, args, eff = domain(c, UnrestrictedActions)
    sp = spaces(c, 'actions', multi)
    type(d)._get_action_space_ = lambda self: sp
    c.prove('every action is applicable', d.get_applicable_actions(*args) is sp)
    x = value(c, sp, 'action', multi)
    c.prove('applicable iff action', Iff(d.is_applicable_action(x, *args), member(sp, x, multi)))


@contract('no uncontrollable events', *FN, setup=with_memory)
def no_events(c):
    multi, d, args, eff = domain(c, Actions)
    e = OBJ.fresh('event')
    c.prove('nothing enabled', not d.is_enabled_event(e, *args))
    c.prove('empty space', not d.get_enabled_events(*args).contains(e))


@contract('value checks', *FN)
def values(c):
    class R(Domain, Rewards):
        pass

    class P(Domain, PositiveCosts):
        pass
    x = REAL.fresh('x')
    v = TransitionValue(cost=x) if c.case('given', ['cost', 'reward']) == 'cost' else TransitionValue(reward=-x)
    c.prove('rewards accept everything', R().check_value(v) is True)
    c.prove('positive costs', Iff(P().check_value(v), x >= 0))


@contract('render', *FN, setup=with_memory)
def render(c):
    multi, d, args, eff = domain(c, Renderable)
    out = OBJ.fresh('out')
    seen = []
    type(d)._render_from = lambda self, memory, **kw: (seen.append((memory, kw)), out)[1]
    x = OBJ.fresh('x')
    r = d.render(*args, mode=x)
    c.prove('rendered from the given memory, or from the internal one', len(seen) == 1 and seen[0][0] is eff)
    c.prove('options passed on', eqf(seen[0][1]['mode'], x) and len(seen[0][1]) == 1)
    c.prove('result', r is out)
