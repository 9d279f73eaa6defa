from replay.schedref import *
from replay.base import require

RULE = 'random scheduling instances and histories: resources used, used per task and available, compared with reference semantics'
BOUNDS = 'bounded: at most 5 tasks, 3 modes, 3 resource types, 3 units, 40 steps'
ROUNDS = 16


def cases(rng, tier):
    for _ in range(40):
        yield dict(inst=instance(rng), seed=rng.randrange(10 ** 6), steps=rng.choice([6, 15, 40]))


def check(case):
    inst = case['inst']

    def hook(d, ref, s, p, a, got, exp):
        for _, x in got:
            q = plain(x)
            for r in ref.names:
                if inst['renew'][r]:
                    tot = sum(v.get(r, 0) for v in q['uft'].values())
                    require(q['used'][r] == tot, '%s used is %r but tasks use %r after %r from %r' % (r, q['used'][r], tot, a, p))
            if a['kind'] in ('START', 'RESUME') and not ref.overconsuming(p):
                require(not ref.overconsuming(q), '%r makes resources over-consumed from %r' % (a, p))
            require(d.state_is_overconsuming(x) == ref.overconsuming(q), 'over-consumption misreported in %r' % q)
        y = got[0][1].copy()
        r = ref.names[y.t % len(ref.names)]
        for v in (-1, 0, 1):
            y.resource_used[r] = y.resource_availability[r] + v
            require(d.state_is_overconsuming(y) == ref.overconsuming(plain(y)), 'over-consumption misreported in %r' % plain(y))
        if a['kind'] in ('START', 'RESUME') and (a['mode'] is not None):
            b, res = d.check_if_action_can_be_started(s, action(a))
            require(bool(b) == ref.can(p, a), '%r said %s from %r' % (a, 'possible' if b else 'impossible', p))
            require(dict(res) == ref.takes(p, a)[1], '%r would take %r' % (a, res))
    run(case, RES + ('ongoing', 'remaining', 'paused'), hook)
    if not inst['single']:
        d = build(inst)
        ref = Ref(inst)
        for t in inst['ids']:
            for m, n in inst['modes'][str(t)].items():
                for at in range(len(next(iter(n.values()))) if inst['varying'] and n else 3):
                    for r in inst['types']:
                        require(d.get_task_consumption(t, int(m), r, at) == ref.need(t, m, r, at), 'consumption of %r' % ((t, m, r, at),))
