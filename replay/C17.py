from replay.schedref import *
from replay.base import require
from skdecide.builders.scheduling.scheduling_domains import (
    SchedulingActionSpace, SchedulingActionSpaceWithResourceUnit, SchedulingActionSpaceWithResourceUnitSamplable)

RULE = 'random scheduling instances and histories (over-consuming states included): offered and sampled actions compared with reference'
BOUNDS = 'bounded: at most 5 tasks, 3 modes, 3 resource types, 3 units, 25 steps, 60 samples per state'
ROUNDS = 10


def cases(rng, tier):
    for _ in range(40):
        yield dict(inst=instance(rng, kind=rng.choice(['det', 'det', 'uncertain', 'simulated'])), seed=rng.randrange(10 ** 6),
                   steps=rng.choice([6, 15, 25]))


def key(a):
    return (a.action.name, a.task, a.mode, None if not a.resource_unit_names else tuple(sorted(a.resource_unit_names)), a.time_progress)


def expected(ref, p, units):
    out = [('TIME_PR', None, None, None, True)] + [('PAUSE', t, None, None, False) for t in ref.pausable(p)]
    if ref.overconsuming(p):
        return out

    def able(t, m):
        w = ref.wanted(t, m)
        if not w or not units:
            return [None]
        return [u for u in ref.i['units'] if all(ref.i['skills']['have'][u].get(k, 0) >= w[k] for k in w)
                and p['used'][u] + 1 <= p['avail'][u]]
    for t, m in ref.startable(p):
        out += [('START', t, m, u and (u,), False) for u in able(t, m)]
    for t, m in ref.resumable(p):
        out += [('RESUME', t, m, u and (u,), False) for u in able(t, m)]
    return out


def check(case):
    inst = case['inst']
    plainspace = not inst['units']

    def hook(d, ref, s, p, a, got, exp):
        space = d.get_applicable_actions(s)
        want = d.get_possible_starting_tasks(s)
        w = {(t, m) for t in want for m in want[t]}
        require(w == ref.startable(p), 'startable: %r, expected %r in %r' % (w, ref.startable(p), p))
        want = d.get_possible_resume_tasks(s)
        w = {(t, m) for t in want for m in want[t]}
        require(w == ref.resumable(p), 'resumable: %r, expected %r in %r' % (w, ref.resumable(p), p))
        require(d.state_is_overconsuming(s) == ref.overconsuming(p), 'over-consumption misreported')
        for sp, units in ([(space, False)] if plainspace else []) + [(SchedulingActionSpaceWithResourceUnit(d, s), not plainspace)]:
            e = expected(ref, p, units)
            g = [key(x) for x in sp.get_elements()]
            if units or plainspace:
                require(sorted(map(repr, g)) == sorted(map(repr, e)), 'offered %r, expected %r in %r' % (g, e, p))
                for _ in range(5):
                    require(key(sp.sample()) in e, 'sampled an action that is not offered')
        sp = space if not plainspace else SchedulingActionSpaceWithResourceUnitSamplable(d, s)
        seen = set()
        for _ in range(60):
            x = sp.sample()
            k = key(x)
            seen.add(k[:3])
            n = x.action.name
            if n == 'TIME_PR':
                require(k == ('TIME_PR', None, None, None, True), 'malformed %r' % (k,))
                continue
            require(not x.time_progress, 'a task action makes time pass')
            if n == 'PAUSE':
                require(x.task in ref.pausable(p), 'sampled %r in %r' % (k, p))
                continue
            require(not ref.overconsuming(p), 'sampled %r in an over-consuming state' % (k,))
            require((x.task, x.mode) in (ref.startable(p) if n == 'START' else ref.resumable(p)), 'sampled %r in %r' % (k, p))
            us = x.resource_unit_names or []
            require(len(set(us)) == len(us) and all(u in inst['units'] and p['used'][u] + 1 <= p['avail'][u] for u in us),
                    'sampled %r with units that are not free' % (k,))
            require(ref.can(p, dict(kind=n, task=x.task, mode=x.mode, units=us)), 'sampled %r cannot be executed in %r' % (k, p))
        if plainspace and not ref.overconsuming(p):
            # something of every possible kind is eventually sampled
            for kind, poss in (('START', ref.startable(p)), ('RESUME', ref.resumable(p)), ('PAUSE', ref.pausable(p))):
                if poss:
                    require(any(k[0] == kind for k in seen) or any(sp.sample().action.name == kind for _ in range(200)),
                            '%s never sampled in %r' % (kind, p))
    run(case, (), hook)
