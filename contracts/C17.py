"""Applicable actions: startable and resumable tasks, offered and sampled actions."""
import itertools
from pyvc.contract import Registry
from contracts.sched import *

CONTRACTS = contract = Registry()
ASSUMPTIONS = ASSUME + ['proved for at most two or three tasks, two modes, two resource types and two units with arbitrary needs, uses and '
                        'availabilities (the loops over them are unrolled)', 'random.choice returns any element, random.shuffle any order']
MBQI, FEAS_MS = False, 2000
MOD = 'skdecide.builders.scheduling.scheduling_domains:'


def small(c, **sets):
    """A state over few tasks; numbers are arbitrary."""
    s = State(task_ids=[1, 2, 3], tasks_available=set())
    s.t = INT.fresh('t')
    for k, v in sets.items():
        setattr(s, 'tasks_' + k, set(v))
    return s


class Need:
    def __init__(self, k, m): self.k, self.m = k, m

    def get_resource_need_at_time(self, resource_name, time):
        return need(self.k, self.m, SymObj(z3.Const(resource_name, U)), time)

    def get_non_zero_ressource_need_names(self, time):
        return ('needed', self.k, self.m)


def types_of(c, s):
    ts = ['a', 'b'][:c.case('types', [0, 1, 2])]
    s.resource_used = {r: INT.fresh('used_' + r) for r in ts}
    s.resource_availability = {r: INT.fresh('avail_' + r) for r in ts}
    return ts


@contract('startable', SDM + 'get_possible_starting_tasks')
def _(c):
    s = small(c, remaining=c.case('remaining', [(), (1,), (1, 2)]), complete=c.case('complete', [(), (3,), (4,), (3, 4)]))
    types = types_of(c, s)
    modes = {1: [1, 2], 2: [5]}
    before = {1: c.case('predecessors', [[], [3], [3, 4]]), 2: []}
    there = {1, 2} | set(c.case('existing', [(3, 4), (3,), ()]))
    d = domain(c, get_task_modes=lambda self, task_id: {m: Need(task_id, m) for m in modes[task_id]},
               get_available_tasks=lambda self, state: set(there), get_resource_types_names=lambda self: list(types))
    d.ancestors = before
    got = d.get_possible_starting_tasks(s)
    for k in (1, 2):
        for m in modes[k]:
            ready = k in s.tasks_remaining and all(x in s.tasks_complete for x in before[k] if x in there)
            fits = And(*[need(k, m, SymObj(z3.Const(r, U)), 0) <= s.resource_availability[r] - s.resource_used[r] for r in types])
            c.prove('existing predecessors complete and resources free', Iff(k in got and m in got[k], And(ready, fits)))
    c.prove('only remaining tasks', set(got) <= set(s.tasks_remaining) and all(got.values()))
    c.prove('resources needed by each', all(got[k][m] == ('needed', k, m) for k in got for m in got[k]))


@contract('resumable', SDM + 'get_possible_resume_tasks')
def _(c):
    s = small(c, paused=c.case('paused', [(), (1,), (1, 2)]), complete=(3,))
    types = types_of(c, s)
    s.tasks_mode = {1: 1, 2: 5}
    act = {k: INT.fresh('active%d' % k) for k in (1, 2)}
    s.tasks_details = {k: type('R', (), dict(get_task_active_time=lambda self, t=None, k=k: (
        engine.CTX.prove('active time up to now', eqf(t, s.t)), act[k])[1]))() for k in (1, 2)}
    modes = {1: [1, 2], 2: [5, 6]}
    there = {1, 2} | set(c.case('existing', [(3,), (3, 4)]))
    d = domain(c, get_task_modes=lambda self, task_id: {m: Need(task_id, m) for m in modes[task_id]},
               get_available_tasks=lambda self, state: set(there), get_resource_types_names=lambda self: list(types))
    d.ancestors = {1: c.case('predecessors', [[], [3], [3, 4]]), 2: []}
    got = d.get_possible_resume_tasks(s)
    ready = all(x in s.tasks_complete for x in d.ancestors[1] if x in there)
    for k in (1, 2):
        m = s.tasks_mode[k]
        fits = And(*[need(k, m, SymObj(z3.Const(r, U)), act[k]) <= s.resource_availability[r] - s.resource_used[r] for r in types])
        c.prove('existing predecessors complete and resources free at its active time', Iff(
            k in got and m in got[k], And(k in s.tasks_paused and (k != 1 or ready), fits)))
        c.prove('only its own mode', k not in got or list(got[k]) == [m])
    c.prove('only paused tasks', set(got) <= set(s.tasks_paused))


def offer(c):
    s = small(c, ongoing=c.case('ongoing', [(), (1,), (1, 2)]), paused=c.case('paused', [(), (3,), (3, 6)]))
    s.tasks_mode = {3: 7, 6: 7}
    s.resumable = [k for k in s.tasks_paused if k == 3 or c.case('may resume', [True, False])]
    over = c.case('over-consuming', [False, True])
    startable = c.case('startable', [{}, {4: {1: []}}, {4: {1: [], 2: []}, 5: {1: []}}])
    may = {k: BOOL.fresh('preemptive%d' % k) for k in (1, 2)}
    d = domain(c, state_is_overconsuming=lambda self, state: over, get_possible_starting_tasks=lambda self, state: startable,
               get_possible_resume_tasks=lambda self, state: {k: {7: []} for k in s.resumable},
               get_task_preemptivity=lambda self: may)
    return s, d, over, startable, may


def ident(a):
    return a.action, a.task, a.mode, tuple(sorted(a.resource_unit_names)) if a.resource_unit_names else None, a.time_progress


TIME_ACTION = (A.TIME_PR, None, None, None, True)


def check_offer(c, got, must, cond):
    """Exactly the actions of `must` and those of `cond` whose condition holds, each once."""
    got = [ident(a) for a in got]
    c.prove('each action once', len(set(got)) == len(got))
    c.prove('nothing else is offered', set(got) <= set(must) | set(cond))
    for a in must:
        c.prove('offered: %s' % a[0].name, a in got)
    for a, f in cond.items():
        c.prove('offered exactly when possible: %s' % a[0].name, Iff(a in got, f))


@contract('offered actions', MOD + 'SchedulingActionSpace')
def _(c):
    s, d, over, startable, may = offer(c)
    sp = sd.SchedulingActionSpace(d, s)
    must = [TIME_ACTION]
    if not over:
        must += [(A.START, k, m, None, False) for k in startable for m in startable[k]]
        must += [(A.RESUME, k, 7, None, False) for k in s.resumable]
    check_offer(c, sp.get_elements(), must, {(A.PAUSE, k, None, None, False): may[k] for k in s.tasks_ongoing})
    all_ = [ident(a) for a in sp.get_elements()]
    with chooser(c):
        c.prove('samples are offered', ident(sp.sample()) in all_)


class chooser:
    """random.choice / random.shuffle with every outcome explored."""
    def __init__(self, c): self.c = c

    def __enter__(self):
        import random
        self.mod, self.saved = random, (random.choice, random.shuffle)

        def shuffle(x):
            x[:] = self.c.case('order', list(itertools.permutations(x))) if len(x) > 1 else x
        random.choice = lambda seq: self.c.case('chosen', list(seq)) if len(seq) > 1 else seq[0]
        random.shuffle = shuffle

    def __exit__(self, *a):
        self.mod.choice, self.mod.shuffle = self.saved


def units_of(c, s):
    us = ['u', 'v']
    s.resource_used = {r: INT.fresh('used_' + r) for r in us}
    s.resource_availability = {r: INT.fresh('avail_' + r) for r in us}
    return {r: s.resource_used[r] + 1 <= s.resource_availability[r] for r in us}


@contract('offered actions with units', MOD + 'SchedulingActionSpaceWithResourceUnit')
def _(c):
    s, d, over, startable, may = offer(c)
    free = units_of(c, s)
    able = c.case('able', [[None], ['u'], ['u', 'v'], []])
    asked = []
    type(d).find_one_ressource_to_do_one_task = lambda self, task, mode: (asked.append((task, mode)), list(able))[1]
    sp = sd.SchedulingActionSpaceWithResourceUnit(d, s)
    cond = {(A.PAUSE, k, None, None, False): may[k] for k in s.tasks_ongoing}
    if not over:
        for kind, cs in ((A.START, [(k, m) for k in startable for m in startable[k]]), (A.RESUME, [(k, 7) for k in s.resumable])):
            for k, m in cs:
                for u in able:
                    cond[(kind, k, m, u and (u,), False)] = True if u is None else free[u]
        c.prove('units able to do that task in that mode', set(asked) == {(k, m) for k in startable for m in startable[k]}
                | {(k, 7) for k in s.resumable})
    check_offer(c, sp.get_elements(), [TIME_ACTION], cond)
    all_ = [ident(a) for a in sp.get_elements()]
    with chooser(c):
        c.prove('samples are offered', ident(sp.sample()) in all_)


@contract('sampled actions', MOD + 'SchedulingActionSpaceWithResourceUnitSamplable')
def _(c):
    s = small(c, ongoing=c.case('ongoing', [(), (1,), (1, 2)]))
    over = c.case('over-consuming', [False, True])
    start, res = c.case('possible', [({}, {}), ({4: {1: [], 2: []}}, {}), ({4: {1: []}}, {3: {7: []}})])
    may = {k: BOOL.fresh('preemptive%d' % k) for k in (1, 2)}
    free = units_of(c, s)
    want = c.case('skills asked', [{}, {'s': 1}, {'s': 2}, {'s': 3}, {'s': 1, 'z': 1}])
    have = c.case('skills of the units', [dict(u={'s': 1}, v={'s': 1, 'z': 1}), dict(u={'z': 1}, v={})])
    d = domain(c, state_is_overconsuming=lambda self, state: over, get_possible_starting_tasks=lambda self, state: start,
               get_possible_resume_tasks=lambda self, state: res, get_task_preemptivity=lambda self: may,
               get_skills_of_task=lambda self, task, mode: dict(want), get_all_resources_skills=lambda self: have,
               get_skills_of_resource=lambda self, resource: have[resource])
    sp = sd.SchedulingActionSpaceWithResourceUnitSamplable(d, s)
    with chooser(c):
        a = sp.sample()
    k = ident(a)
    if a.action == A.TIME_PR:
        c.prove('time passes', k == TIME_ACTION)
    elif a.action == A.PAUSE:
        c.prove('only a preemptive ongoing task is paused', a.task in s.tasks_ongoing and may[a.task])
        c.prove('pausing', k == (A.PAUSE, a.task, None, None, False))
    else:
        poss = start if a.action == A.START else res
        c.prove('nothing starts while over-consuming', not over)
        c.prove('possible in that mode', a.task in poss and a.mode in poss[a.task] and a.time_progress is False)
        us = list(a.resource_unit_names or [])
        c.prove('distinct free units', len(set(us)) == len(us) and And(*[free[u] for u in us]))
        c.prove('units with the skills asked', all(sum(have[u].get(x, 0) for u in us) >= want[x] for x in want))
