from replay.schedref import *
from replay.base import require

RULE = 'random scheduling instances and histories: initial state, goal, termination and transition cost compared with reference'
BOUNDS = 'bounded: at most 5 tasks, 40 steps'
ROUNDS = 16


def cases(rng, tier):
    for _ in range(40):
        yield dict(inst=instance(rng), seed=rng.randrange(10 ** 6), steps=rng.choice([6, 15, 40]))


def check(case):
    inst = case['inst']

    def hook(d, ref, s, p, a, got, exp):
        if not case.get('first'):
            case['first'] = 1
        require(d.is_goal(s) == ref.done(p), 'goal: %r in %r' % (d.is_goal(s), p))
        require(bool(d._is_terminal(s)) == ref.terminal(p), 'terminal: %r in %r' % (d._is_terminal(s), p))
        if not inst['varying']:
            require(d.all_tasks_possible(s) == ref.possible(p), 'all tasks possible: %r in %r' % (d.all_tasks_possible(s), p))
        for q, x in got:
            c = ref.cost(p, a, plain(x))
            if a['kind'] != 'START' or x.tasks_mode.get(a['task']) == a['mode']:
                v = d._get_transition_value(s, action(a), x)
                require(abs(v.cost - c) < 1e-9 and abs(v.reward + c) < 1e-9, 'cost %r of %r from %r, expected %r' % (v.cost, a, p, c))
        o = d.sample(s, action(a))
        x = plain(o.observation)
        require(o.termination == (ref.terminal(x) or ref.done(x)), 'termination %r after %r from %r' % (o.termination, a, p))
        require(abs(o.value.cost - ref.cost(p, a, x)) < 1e-9, 'sampled cost %r of %r from %r, expected %r' % (
            o.value.cost, a, p, ref.cost(p, a, x)))
        c = s.copy()
        require(same(plain(c), plain(s), p.keys()) is None and c == s and hash(c) == hash(s), 'a copy differs from its state')
        case['n'] = case.get('n', 0) + 1
        if case['n'] < 5 or case['n'] % 9 == 0:
            independent([s, c], 'copy of %r' % p)
    case = dict(case)
    run(case, (), hook)
    d = build(inst)
    ref = Ref(inst)
    for _ in range(2):
        s = d.reset()
        k = same(plain(s), ref.init(), ref.init().keys())
        require(k is None, 'initial state: %s is %r, expected %r' % (k, plain(s).get(k), ref.init().get(k)))
        for _ in range(4):
            d.step(action(dict(kind='TIME_PR', task=None, mode=None, units=None)))
    s2 = build(inst).get_initial_state()
    require(same(plain(s2), ref.init(), ref.init().keys()) is None, 'initial states of two domains differ')
    require(d.get_max_horizon() == inst['horizon'] and [o.name for o in d.get_objectives()] == inst['objectives'], 'horizon, objectives')
