from replay.base import require
from skdecide import Domain
from skdecide.core import Memory, ImplicitSpace, TransitionValue
from skdecide.hub.space.gym import ListSpace
from skdecide.builders.domain import *

RULE = 'random finite spaces per memory, single and multi-agent, memory given (also falsy ones), omitted or None'
BOUNDS = 'bounded: 5 values, 3 agents'
ROUNDS = 3
VALS = [0, '', None, 'x', (1, 2)]


def cases(rng, tier):
    for multi in (False, True):
        for kind in ('markovian', 'history'):
            for ev in ('events', 'actions', 'unrestricted'):
                for _ in range(8):
                    yield dict(multi=multi, kind=kind, ev=ev, seed=rng.randrange(10 ** 6))


class Sp(ImplicitSpace):
    def __init__(self, vals):
        self.vals = vals
        super().__init__(lambda x: any(x == v and type(x) == type(v) for v in vals))


def check(case):
    import random
    rng = random.Random(case['seed'])
    multi = case['multi']
    ags = ['a', 'b', 'c'][:rng.randint(1, 3)]
    rs = lambda: Sp([v for v in VALS if rng.random() < .5])
    sp = lambda: {k: rs() for k in ags} if multi else rs()
    has = lambda s, x: all(s[k].contains(v) for k, v in x.items()) if multi else s.contains(x)
    mems = [0, '', 's', ()] if case['kind'] == 'markovian' else [Memory(), Memory([0]), Memory([1, 2])]
    key = lambda m: tuple(m) if isinstance(m, Memory) else m
    appl, enab = {key(m): sp() for m in mems}, {key(m): rs() for m in mems}
    acts, goals, obs = sp() if case['ev'] == 'unrestricted' else rs(), sp(), sp()

    class D(Domain, MultiAgent if multi else SingleAgent, Sequential,
            {'events': Events, 'actions': Actions, 'unrestricted': UnrestrictedActions}[case['ev']], Goals, Renderable,
            {'markovian': Markovian, 'history': History}[case['kind']], rng.choice([Rewards, PositiveCosts])):
        def _get_action_space_(self): return acts
        def _get_goals_(self): return goals
        def _get_observation_space_(self): return obs
        def _render_from(self, memory, **kw): return ('r', key(memory), kw)
    if case['ev'] == 'events':
        D._get_enabled_events_from = lambda self, m: enab[key(m)]
    if case['ev'] != 'unrestricted':
        D._get_applicable_actions_from = lambda self, m: appl[key(m)]
    d = D()
    for _ in range(12):
        d._memory = rng.choice(mems)
        m = rng.choice(mems)
        how = rng.choice(['given', 'omitted', 'none'])
        args, eff = {'given': ((m,), m), 'omitted': ((), d._memory), 'none': ((None,), d._memory)}[how]
        w = 'memory %s (%r)' % (how, eff)
        x = {k: rng.choice(VALS) for k in ags if rng.random() < .9} if multi else rng.choice(VALS)
        e = rng.choice(VALS)
        A = acts if case['ev'] == 'unrestricted' else appl[key(eff)]
        require(d.get_applicable_actions(*args) is A, w + ': applicable actions')
        require(bool(d.is_applicable_action(x, *args)) == has(A, x), '%s: is_applicable_action(%r)' % (w, x))
        want = enab[key(eff)].contains(e) if case['ev'] == 'events' else False
        require(bool(d.is_enabled_event(e, *args)) == want, '%s: is_enabled_event(%r)' % (w, e))
        require(bool(d.get_enabled_events(*args).contains(e)) == want, w + ': enabled events')
        if not (case['ev'] == 'unrestricted' and multi):
            require(bool(d.is_action(e)) == acts.contains(e), 'is_action(%r)' % (e,))
        require(bool(d.is_goal(x)) == has(goals, x), 'is_goal(%r)' % (x,))
        require(bool(d.is_observation(x)) == has(obs, x), 'is_observation(%r)' % (x,))
        require(d.get_goals() is goals and d.get_observation_space() is obs and d.get_action_space() is acts, 'spaces')
        require(d.render(*args, mode=3) == ('r', key(eff), {'mode': 3}), w + ': render')
        c = rng.choice([-2, -1, -1e-9, 0, 1e-9, 1, 5])
        want = c >= 0 if isinstance(d, PositiveCosts) else True
        require(bool(d.check_value(TransitionValue(cost=c))) == want, 'check_value(cost=%r)' % c)
        require(bool(d.check_value(TransitionValue(reward=-c))) == want, 'check_value(reward=%r)' % -c)
