from replay.schedref import *
from replay.base import require

RULE = 'random uncertain and simulated scheduling instances with conditional tasks: outcomes and probabilities compared with reference'
BOUNDS = 'bounded: at most 5 tasks, 3 conditions, 2 distributions per task, 4 durations'
ROUNDS = 16


def cases(rng, tier):
    for _ in range(40):
        k = rng.choice(['uncertain', 'uncertain', 'simulated'])
        i = instance(rng, kind=k)
        while i['cond'] is None and rng.random() < .8:
            i = instance(rng, kind=k)
        yield dict(inst=i, seed=rng.randrange(10 ** 6), steps=rng.choice([6, 15, 40]))


def check(case):
    inst = case['inst']
    keys = CONDS + ('ongoing', 'complete', 'dur', 'progress', 'used')

    def hook(d, ref, s, p, a, got, exp):
        av = {t for t in inst['ids'] if ref.exists(t, p['conds'])}
        if len(got) > 1 and inst['kind'] == 'uncertain':
            independent([x for _, x in got], 'outcomes of %r from %r' % (a, p))
        require(set(d.get_available_tasks(s)) == av, 'available tasks %r, expected %r in %r' % (d.get_available_tasks(s), av, p))
    run(case, keys, hook)
    d = build(inst)
    ref = Ref(inst)
    un = {t for t in inst['ids'] if ref.exists(t, ())}
    require(set(d.get_all_unconditional_tasks()) == un, 'unconditional tasks %r, expected %r' % (d.get_all_unconditional_tasks(), un))
    if inst['cond']:
        for t, tests in inst['cond']['added'].items():
            seen = [set() for _ in tests]
            for _ in range(60):
                vs = d.sample_completion_conditions(int(t))
                require(len(vs) == len(tests), '%d conditions sampled for %d distributions' % (len(vs), len(tests)))
                for k, v in enumerate(vs):
                    seen[k].add(v.value)
            for k, test in enumerate(tests):
                require(seen[k] <= {v for v, q in test if q > 0}, 'sampled impossible conditions')
                require(all(q < .2 or v in seen[k] for v, q in test), 'never sampled a likely condition')
            s = d.get_initial_state().copy()
            s._current_conditions.add('kept')
            d.add_to_current_conditions(int(t), s)
            got = {getattr(c, 'value', c) for c in s._current_conditions}
            require('kept' in got and got - {'kept'} <= {v for test in tests for v, _ in test} and
                    all(any(v in got for v, _ in test) for test in tests), 'conditions after completion of %s: %r' % (t, got))
