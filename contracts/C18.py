"""Initial and terminal states, goals, transition costs and copies of scheduling domains."""
from pyvc.contract import Registry
from contracts.sched import *
from skdecide.builders.scheduling.scheduling_domains import SchedulingObjectiveEnum as O
from skdecide.builders.scheduling.resource_renewability import MixedRenewable, RenewableOnly

CONTRACTS = contract = Registry()
ASSUMPTIONS = ASSUME + ['at most two or three resources, tasks and modes with arbitrary numbers where they are looped over']
MBQI, FEAS_MS = False, 2000
B = 'skdecide.builders.scheduling.'


@contract('initial state', SDM + '_get_initial_state_', B + 'scheduling_domains_modelling:State.__init__')
def _(c):
    ids = list(range(1, 1 + c.case('tasks', [0, 1, 3])))
    types, units = ['a', 'b'][:c.case('types', [0, 1, 2])], ['u', 'v'][:c.case('units', [0, 1, 2])]
    free = set(ids[:c.case('unconditional', [0, 1, 3])])
    asked = []
    d = domain(c, get_tasks_ids=lambda self: ids, get_all_unconditional_tasks=lambda self: set(free),
               get_resource_types_names=lambda self: list(types), get_resource_units_names=lambda self: list(units),
               sample_quantity_resource=lambda self, resource, time: (asked.append(time), quantity(SymObj(z3.Const(resource, U)), time))[1])
    s = d._get_initial_state_()
    c.prove('time zero', s.t == 0 and all(t == 0 for t in asked))
    c.prove('unconditional tasks remain, nothing has started', s.tasks_remaining == free and not (
        s.tasks_ongoing or s.tasks_complete or s.tasks_paused or s.tasks_progress or s.tasks_mode or s.resource_used_for_task
        or s._current_conditions))
    c.prove('every resource is known and unused', list(s.resource_used) == types + units and all(v == 0 for v in s.resource_used.values())
            and sorted(s.resource_availability) == sorted(types + units))
    for r in types + units:
        c.prove('availability at time zero', eqf(s.resource_availability[r], quantity(SymObj(z3.Const(r, U)), 0)))
    c.prove('a fresh record per task', sorted(s.tasks_details) == ids and all(
        x.id == k and x.start is None and x.end is None and x.sampled_duration is None and x.paused == [] and x.resumed == []
        for k, x in s.tasks_details.items()) and len({id(x.paused) for x in s.tasks_details.values()}) == len(ids))
    c.prove('its own sets', len({id(x) for x in (s.tasks_remaining, s.tasks_ongoing, s.tasks_complete, s.tasks_paused)}) == 4)


def empty(x):
    return x.t == z3.K(z3.IntSort(), z3.BoolVal(False))


@contract('goal and terminal states', SDM + '_get_goals_', SDM + '_is_terminal')
def _(c):
    s = state(c)
    hor = INT.fresh('horizon')
    poss = BOOL.fresh('all_tasks_possible')
    d = domain(c, get_max_horizon=lambda self: hor,
               all_tasks_possible=lambda self, st: (engine.CTX.prove('of this state', st is s), poss)[1])
    done = z3.And(empty(s.tasks_remaining), empty(s.tasks_ongoing), empty(s.tasks_paused))
    if c.case('query', ['goal', 'terminal']) == 'goal':
        c.prove('goal: nothing is left to do', Iff(d._get_goals_().contains(s), done))
    else:
        c.prove('terminal: past the horizon, impossible or done', Iff(d._is_terminal(s), Or(s.t > hor, Not(poss), done)))


@contract('possible tasks', B + 'resource_renewability:MixedRenewable.all_tasks_possible', B + 'resource_renewability:RenewableOnly.all_tasks_possible')
def _(c):
    types = ['a', 'b'][:c.case('types', [0, 1, 2])]
    renew = {r: c.case('renewable ' + r, [True, False]) for r in types}
    modes = {1: [1, 2], 2: [5]}
    s = State(task_ids=[1, 2], tasks_available=set())
    s.tasks_remaining = set(c.case('remaining', [(), (1,), (1, 2)]))
    s.resource_used = {r: INT.fresh('used_' + r) for r in types}
    s.resource_availability = {r: INT.fresh('avail_' + r) for r in types}
    n = lambda k, m, r: need(k, m, SymObj(z3.Const(r, U)), 0)

    class Mode:
        def __init__(self, k, m): self.k, self.m = k, m
        def get_resource_need(self, r): return n(self.k, self.m, r)
    d = object.__new__(type('Dom', (MixedRenewable,), dict(
        get_task_modes=lambda self, task_id: {m: Mode(task_id, m) for m in modes[task_id]}, get_resource_types_names=lambda self: types,
        get_resource_renewability=lambda self: renew)))
    want = And(*[Or(*[And(*[n(k, m, r) <= s.resource_availability[r] - s.resource_used[r] for r in types if not renew[r]])
                      for m in modes[k]]) for k in s.tasks_remaining])
    c.prove('every remaining task has a mode within the remaining non-renewable resources', Iff(d.all_tasks_possible(s), want))
    r = object.__new__(type('Dom2', (RenewableOnly,), dict(
        get_task_modes=lambda self, task_id: {m: Mode(task_id, m) for m in modes[task_id]}, get_resource_types_names=lambda self: list(types),
        get_resource_units_names=lambda self: ['u'])))
    c.prove('renewable only: always', r.all_tasks_possible(s) is True)


@contract('transition cost', SDM + '_get_transition_value')
def _(c):
    types, units = ['a', 'b'][:c.case('types', [0, 1, 2])], ['u'][:c.case('units', [0, 1])]
    goals = c.case('objectives', [[], [O.MAKESPAN], [O.COST], [O.MAKESPAN, O.COST]])
    renew = {r: c.case('renewable ' + r, [True, False]) for r in types + units}
    price = {r: REAL.fresh('price_' + r) for r in types + units}
    mode_price = func('mode_cost', INT, INT, ret=REAL)
    d = domain(c, get_objectives=lambda self: list(goals), get_mode_costs=lambda self: Tab(lambda k: Tab(lambda m: mode_price(k, m))),
               get_resource_types_names=lambda self: types, get_resource_units_names=lambda self: units,
               is_renewable=lambda self, r: renew[r], get_resource_cost_per_time_unit=lambda self: price)
    s, n = State([1], set()), State([1], set())
    for x, nm in ((s, 's'), (n, 'n')):
        x.t = INT.fresh(nm + '_t')
        x.resource_used = {r: INT.fresh('%s_%s' % (nm, r)) for r in types + units}
    kind = c.case('action', ['START', 'PAUSE', 'TIME_PR'])
    k, m = INT.fresh('task'), INT.fresh('mode')
    a = SchedulingAction(None if kind == 'TIME_PR' else k, A[kind], m if kind == 'START' else None, kind == 'TIME_PR')
    v = d._get_transition_value(s, a, n)
    want = SymReal(z3.RealVal(0))
    if O.MAKESPAN in goals:
        want = want + (n.t - s.t)
    if O.COST in goals:
        if kind == 'START':
            want = want + mode_price(k, m)
        for r in types + units:
            want = want + (price[r] * n.resource_used[r] if renew[r] else n.resource_used[r] - s.resource_used[r])
    c.prove('cost: elapsed time, mode, renewable use, new non-renewable use', eqf(v.cost, want))
    c.prove('reward is the opposite', eqf(v.reward, -1 * want))


@contract('copy', B + 'scheduling_domains_modelling:State.copy')
def _(c):
    s = state(c)
    pre = Snap(s)
    x = s.copy()
    c.prove('another state', type(x) is State and x is not s)
    same(c, x, pre, ALL, 'copied')
    # changing the copy does not change the state
    k, r = INT.fresh('task'), OBJ.fresh('resource')
    x.t = x.t + 1
    for f in ('tasks_remaining', 'tasks_ongoing', 'tasks_complete', 'tasks_paused', '_current_conditions'):
        getattr(x, f).add(k if f[0] == 't' else r)
    x.tasks_progress[k] = 1
    x.tasks_mode[k] = 2
    x.resource_used[r] = 3
    x.resource_availability[r] = 4
    x.resource_used_for_task[k] = x.resource_used
    x.tasks_details[k].end = 5
    x.tasks_details[k].start = 6
    x.tasks_details[k].paused.append(7)
    x.tasks_details[k].resumed.append(7)
    same(c, s, pre, ALL, 'the original stays')


@contract('copies of plain states', B + 'scheduling_domains_modelling:State.copy', B + 'scheduling_domains_modelling:State.__eq__',
          B + 'scheduling_domains_modelling:State.__hash__', B + 'scheduling_domains_modelling:State.__str__')
def _(c):
    s = State(task_ids=[1, 2, 3], tasks_available={1, 2})
    s.t = c.case('t', [0, 5])
    s.tasks_ongoing = {3}
    s.tasks_progress = {3: .5}
    s.tasks_mode = {3: 2}
    s.resource_to_task = {'a': 3}
    s.resource_availability = {'a': 3, 'u': 1}
    s.resource_used = {'a': 1, 'u': 0}
    s.resource_used_for_task = {3: {'a': 1}}
    s._current_conditions = {'x'}
    s.tasks_details[3].start, s.tasks_details[3].sampled_duration = 1, 4
    s.tasks_details[3].paused.append(2)
    s.tasks_details[3].resumed.append(3)
    x = s.copy()
    c.prove('equal, with the same hash', x == s and hash(x) == hash(s) and str(x) == str(s))
    edits = dict(t=lambda: setattr(x, 't', x.t + 1), remaining=lambda: x.tasks_remaining.add(9), ongoing=lambda: x.tasks_ongoing.add(9),
                 complete=lambda: x.tasks_complete.add(9), paused=lambda: x.tasks_paused.add(9), progress=lambda: x.tasks_progress.update({3: .75}),
                 mode=lambda: x.tasks_mode.update({3: 1}), avail=lambda: x.resource_availability.update(a=1),
                 used=lambda: x.resource_used.update(a=2), held=lambda: x.resource_used_for_task[3].update(a=2),
                 conds=lambda: x._current_conditions.add('y'), start=lambda: setattr(x.tasks_details[3], 'start', 0),
                 end=lambda: setattr(x.tasks_details[3], 'end', 7), pauses=lambda: x.tasks_details[3].paused.append(5),
                 resumes=lambda: x.tasks_details[3].resumed.append(5))
    before = str(s)
    edits[c.case('edit', sorted(edits))]()
    c.prove('different after any edit', not (x == s) and str(s) == before)
