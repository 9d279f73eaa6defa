from replay.schedref import *
from replay import schedref
from replay.base import require

RULE = 'random scheduling instances (deterministic, uncertain, simulated) and random histories, compared with reference semantics'
BOUNDS = 'bounded: at most 5 tasks, 3 modes, 3 resource types, 3 units, 40 steps'
ROUNDS = 8


def cases(rng, tier):
    for _ in range(40):
        yield dict(inst=instance(rng), seed=rng.randrange(10 ** 6), steps=rng.choice([6, 15, 40]))


def hook(d, ref, s, p, a, got, exp):
    for _, x in got:
        q = plain(x)
        n = sum(len(q[k]) for k in ('remaining', 'ongoing', 'complete', 'paused'))
        u = q['remaining'] | q['ongoing'] | q['complete'] | q['paused']
        require(n == len(u), 'a task has two statuses: %r' % q)


def check(case):
    run(case, LIFE, hook)
    # in-place environments follow the same histories
    inst = case['inst']
    if inst['kind'] == 'det':
        import random
        d, e = build(inst), build(inst)
        e.set_inplace_environment(True)
        ref = Ref(inst)
        rng = random.Random(case['seed'] + 1)
        s, z = d.get_initial_state(), e.get_initial_state()
        for n in range(case['steps']):
            p = plain(s)
            acts = ref.candidates(p, rng)
            a = acts[0] if rng.random() < .35 else rng.choice(acts)
            s = d.get_next_state(s, action(a))
            z = e.get_next_state(z, action(a))
            k = same(plain(s), plain(z), LIFE)
            require(k is None, 'the in-place state differs on %s: %r, %r' % (k, plain(z).get(k), plain(s).get(k)))
