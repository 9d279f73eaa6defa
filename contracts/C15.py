"""Resources of a schedule: what tasks take, hold and give back; capacity; availability; skills."""
from pyvc.contract import Registry
from contracts.sched import *
from skdecide.builders.scheduling.modes import ConstantModeConsumption, VaryingModeConsumption, MultiMode
from skdecide.builders.scheduling.resource_availability import *
from skdecide.builders.scheduling.skills import WithResourceSkills, WithoutResourceSkills

CONTRACTS = contract = Registry()
ASSUMPTIONS = ASSUME + ['skill checks, the consumption dictionary and the availability calendar are proved for at most two or three '
                        'resources and two skills with arbitrary levels (their loops are unrolled)']
MBQI, FEAS_MS = False, 2000
P = RESO
V = ('', '_uncertain', '_simulation')
B = 'skdecide.builders.scheduling.'


@contract('pausing', *[SDM + 'update_pause_tasks' + v for v in V])
def _(c): pause(c, P)


@contract('resuming', *[SDM + 'update_resume_tasks' + v for v in V], SDM + 'check_if_action_can_be_started')
def _(c): resume(c, P)


@contract('starting', *[SDM + 'update_start_tasks' + v for v in V], SDM + 'check_if_action_can_be_started')
def _(c): start(c, P)


@contract('completing', *[SDM + 'update_complete_tasks' + v for v in V])
def _(c): complete(c, P)


@contract('zero duration', *[SDM + 'update_complete_dummy_tasks' + v for v in V])
def _(c): complete_dummy(c, P)


@contract('consuming', *[SDM + 'update_res_consumption' + v for v in V])
def _(c): consumption(c, P)


@contract('availability', *[SDM + 'update_resource_availability' + v for v in V])
def _(c): availability(c, P)


@contract('consumption of a start', SDM + 'get_resource_used')
def _(c):
    nt, nu = c.case('types', [0, 1, 2]), c.case('units', ['none', 0, 1, 2])
    types = ['t%d' % i for i in range(nt)]
    units = None if nu == 'none' else {'u%d' % i for i in range(nu)}
    k, m, t = INT.fresh('task'), INT.fresh('mode'), INT.fresh('time')

    class Mode:
        def __init__(self, mode): self.mode = mode

        def get_resource_need_at_time(self, resource_name, time):
            return need(k, self.mode, SymObj(z3.Const(resource_name, U)), time)
    modes = Tab(lambda task: (engine.CTX.prove('the task asked', eqf(task, k)), Tab(lambda mode: Mode(mode)))[1])
    d = object.__new__(type('Dom', (sd.DeterministicSchedulingDomain,), dict(
        get_resource_types_names=lambda self: list(types), get_tasks_modes=lambda self: modes)))
    out = d.get_resource_used(k, m, units, t)
    c.prove('exactly the resource types and the named units', sorted(out) == sorted(types + list(units or ())))
    for x in types:
        c.prove('need of the mode at that time', eqf(out[x], need(k, m, SymObj(z3.Const(x, U)), t)))
    for x in units or ():
        c.prove('one of each unit', eqf(out[x], 1))


@contract('over-consumption', SDM + 'state_is_overconsuming')
def _(c):
    s = state(c)
    r = z3.Const('r!q', U)
    got = domain(c).state_is_overconsuming(s)
    c.prove('some resource is used above its availability', Iff(got, z3.Exists([r], z3.And(
        sel(s.resource_used, r), val(s.resource_used, r) > val(s.resource_availability, r)))))


@contract('needs of a mode', B + 'modes:ConstantModeConsumption', B + 'modes:VaryingModeConsumption', B + 'modes:MultiMode.get_task_consumption')
def _(c):
    kind = c.case('mode', ['constant', 'varying'])
    named = ['a', 'b'][:c.case('resources', [0, 1, 2])]
    t = INT.fresh('time')
    c.assume(t >= 0)
    if kind == 'constant':
        amounts = {n: INT.fresh(n) for n in named}
        m = ConstantModeConsumption(dict(amounts))
        want = lambda n: amounts[n]
    else:
        seqs = {n: SeqTy(INT).fresh(n) for n in named}
        for q in seqs.values():
            c.assume(num(t) < q.n)
        m = VaryingModeConsumption(seqs)
        want = lambda n: q_at(seqs[n], t)
    dom = object.__new__(type('Dom', (MultiMode,), dict(_get_tasks_modes=lambda self: {7: {2: m}})))
    for n in ('a', 'b'):
        w = want(n) if n in named else 0
        c.prove('need at a time', eqf(m.get_resource_need_at_time(n, t), w))
        c.prove('need of the task', eqf(dom.get_task_consumption(7, 2, n, t), w))
    nz = m.get_non_zero_ressource_need_names(t)
    for n in named:
        c.prove('resources needed', Iff(n in nz, want(n) > 0))
    c.prove('only named resources', set(nz) <= set(named) and list(m.get_ressource_names()) == named)


def q_at(q, t):
    return q.elem(num(t))


@contract('availability of a resource', B + 'resource_availability:DeterministicResourceAvailabilityChanges.sample_quantity_resource',
          B + 'resource_availability:WithoutResourceAvailabilityChange.sample_quantity_resource')
def _(c):
    r, t = OBJ.fresh('resource'), INT.fresh('time')
    d = object.__new__(type('Dom', (DeterministicResourceAvailabilityChanges,), dict(
        _get_quantity_resource=lambda self, resource, time, **kw: quantity(resource, time))))
    c.prove('calendar', eqf(d.sample_quantity_resource(r, t), quantity(r, t)))
    const = func('capacity', OBJ, ret=INT)
    d = object.__new__(type('Dom', (WithoutResourceAvailabilityChange,), dict(
        _get_original_quantity_resource=lambda self, resource, **kw: const(resource))))
    c.prove('constant', And(eqf(d.sample_quantity_resource(r, t), const(r)), eqf(d.get_quantity_resource(r, t), const(r))))


@contract('skills', B + 'skills:WithResourceSkills.check_if_skills_are_fulfilled', B + 'skills:WithResourceSkills.get_skills_of_task',
          B + 'skills:WithResourceSkills.find_one_ressource_to_do_one_task')
def _(c):
    asked = ['s', 'z'][:c.case('skills asked', [0, 1, 2])]
    wanted = {x: INT.fresh('want_' + x) for x in asked}
    nr = c.case('resources used', [0, 1, 2, 3])
    have = {}
    for i in range(nr):
        own = ['s', 'z'][:c.case('skills of resource %d' % i, [0, 1, 2] if i < 2 else [2])]
        have['r%d' % i] = {x: INT.fresh('have_%d_%s' % (i, x)) for x in own}
    d = object.__new__(type('Dom', (WithResourceSkills,), dict(
        _get_all_resources_skills=lambda self: have, _get_all_tasks_skills=lambda self: {5: {2: wanted}})))
    got = d.check_if_skills_are_fulfilled(5, 2, {r: INT.fresh('n') for r in have})
    level = lambda x: sum([have[r].get(x, 0) for r in have], SymInt(z3.IntVal(0)))
    c.prove('every asked skill is covered by the resources together', Iff(got, And(*[Or(wanted[x] <= 0, level(x) >= wanted[x]) for x in asked])))
    one = d.find_one_ressource_to_do_one_task(5, 2)
    some = Or(*[wanted[x] > 0 for x in asked])
    c.prove('no skill asked: no resource needed', Iff([x for x in one] == [None], Not(some)))
    if one != [None]:
        for r in have:
            c.prove('the resources that can do it alone', Iff(r in one, And(some, *[Or(wanted[x] <= 0, have[r].get(x, 0) >= wanted[x]) for x in asked])))
    c.prove('without skills nothing is asked', object.__new__(WithoutResourceSkills).check_if_skills_are_fulfilled(5, 2, {}) is True)
