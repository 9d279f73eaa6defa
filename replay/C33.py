import contextlib, io
import numpy as np
from replay.base import require
import replay.C24 as c24
import replay.schedref as sr
from skdecide.core import DiscreteDistribution
from skdecide.builders.scheduling.modes import ConstantModeConsumption
from skdecide.builders.scheduling.scheduling_domains import (
    SingleModeRCPSP, SingleModeRCPSPCalendar, MultiModeRCPSP, MultiModeRCPSPWithCost, MultiModeRCPSPCalendar, MultiModeMultiSkillRCPSP,
    MultiModeMultiSkillRCPSPCalendar, SingleModeRCPSP_Stochastic_Durations)
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPModel, RCPSPModelCalendar, SingleModeRCPSPModel, MultiModeRCPSPModel, RCPSPSolution
from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill import MS_RCPSPModel, MS_RCPSPModel_Variant, Employee, SkillDetail
import skdecide.hub.domain.rcpsp.rcpsp_sk as sk
import skdecide.hub.solver.do_solver.sk_to_do_binding as binding
from skdecide.hub.solver.sgs_policies.sgs_policies import PolicyRCPSP, PolicyMethodParams, BasePolicyMethod

RULE = 'random project models of every kind, turned into scheduling domains and back, and random scheduling domains, turned into models; schedules and executions compared'
BOUNDS = 'bounded: at most 6 real activities, 3 modes, 3 resources, 12 employees, horizon 40'
ROUNDS = 30


def ms_instance(rng):
    i = c24.instance(rng, rng.choice([1, 3]), True, rng.random() < .4)
    names = ['Q%d' % k for k in range(rng.randint(1, 3))]
    i['skills'] = names
    for t in i['md']:
        for m in i['md'][t].values():
            if m['duration']:
                for s in names:
                    if rng.random() < .5:
                        m[s] = rng.randint(0, 2)
            for r in list(i['res']):
                if rng.random() < .2:
                    del m[r]
    ln = i['hor'] + 1 + rng.choice([0, 3])
    i['res'] = {r: (v + v)[:ln] if len(v) < ln else v[:ln] for r, v in i['res'].items()}
    ids = list(range(rng.choice([1, 2, 3, 12]))) if rng.random() < .7 else rng.sample(range(50), 3)
    i['emp'] = [[e, {s: rng.randint(0, 3) for s in names if rng.random() < .7}, [rng.random() < .8 for _ in range(ln)]] for e in ids]
    if rng.random() < .4:
        i['emp'] = [[e, sk_, [int(x) for x in c]] for e, sk_, c in i['emp']]
    i['mult'] = 1
    return i


def cases(rng, tier):
    for k in range(30):
        cal = k % 3 == 0
        i = c24.instance(rng, rng.choice([1, 3]), cal, rng.random() < .4)
        i['mult'] = 1
        i['drop'] = rng.random() < .3 and not cal
        yield dict(what='model', i=i, base=rng.random() < .15, varying=rng.random() < .6, seed=rng.randrange(10 ** 6))
    for _ in range(15):
        yield dict(what='skill', i=ms_instance(rng), varying=rng.random() < .5)
    for _ in range(15):
        i = sr.instance(rng, kind='det', cond=None, pre=None, varying=False)
        yield dict(what='domain', i=i, cls=rng.choice(['single', 'multi', 'cost', 'noisy']), sparse=rng.random() < .5)
    for _ in range(6):
        yield dict(what='noise', i=c24.instance(rng, rng.choice([1, 3]), False, rng.random() < .5), seed=rng.randrange(10 ** 6), some=rng.random() < .5, none=rng.random() < .15)


def int_keys(d): return {int(k): v for k, v in d.items()}


def details(i, drop=False):
    return {int(t): {int(m): {k: v for k, v in x.items() if not (drop and k != 'duration' and not v)} for m, x in ms.items()} for t, ms in i['md'].items()}


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def same_domain(d, i, types, units=(), avail=None, skills=()):
    md = details(i)
    require(sorted(d.get_tasks_ids()) == sorted(md), 'tasks %r' % (d.get_tasks_ids(),))
    require({t: sorted(v) for t, v in d.get_successors().items()} == {int(t): sorted(v) for t, v in i['suc'].items()}, 'successors %r' % (d.get_successors(),))
    require(d.get_max_horizon() == i['hor'], 'horizon %r' % d.get_max_horizon())
    require(sorted(d.get_resource_types_names()) == sorted(types), 'resource types %r' % (d.get_resource_types_names(),))
    ren = d.get_resource_renewability()
    require({r: ren[r] for r in types} == {r: r not in i['nr'] for r in types} and all(ren[u] for u in units), 'renewability %r' % (ren,))
    require(sorted(d.get_tasks_modes()) == sorted(md), 'tasks with modes')
    for t in md:
        require(sorted(d.get_task_modes(t)) == sorted(md[t]), 'modes of %r: %r' % (t, d.get_task_modes(t)))
        for m in md[t]:
            require(d.get_task_duration(t, m) == md[t][m]['duration'], 'duration of %r in mode %r' % (t, m))
            for r in types:
                for k in range(max(1, md[t][m]['duration'])):
                    require(d.get_task_consumption(t, m, r, k) == md[t][m].get(r, 0), 'needs of %r in mode %r' % (t, m))
            for u in units:
                require(d.get_task_consumption(t, m, u, 0) == 0, 'units are not consumed by name')
    if hasattr(d, '_get_tasks_mode'):
        only = d.get_tasks_mode()
        require(sorted(only) == sorted(md), 'tasks with a mode')
        for t in md:
            require(all(only[t].get_resource_need_at_time(r, 0) == md[t][1].get(r, 0) for r in types), 'needs of %r in its only mode' % t)
    for r in types:
        for t in range(i['hor'] + 1):
            require(d.get_quantity_resource(r, t) == avail(r, t), 'quantity of %r at %r: %r, expected %r' % (r, t, d.get_quantity_resource(r, t), avail(r, t)))


def same_model(m, i, types, avail, nr, drop=False):
    md = details(i)
    require(sorted(m.mode_details) == sorted(md), 'activities')
    require({t: sorted(v) for t, v in m.successors.items()} == {int(t): sorted(v) for t, v in i['suc'].items()}, 'successors %r' % (m.successors,))
    require(m.horizon == i['hor'] and m.horizon_multiplier == 1, 'horizon %r' % m.horizon)
    require(set(m.non_renewable_resources) == set(nr), 'non-renewable resources %r' % (m.non_renewable_resources,))
    require(sorted(m.resources_list) == sorted(types), 'resources %r' % (m.resources_list,))
    for t in md:
        require(sorted(m.mode_details[t]) == sorted(md[t]), 'modes of %r' % t)
        for k in md[t]:
            got = m.mode_details[t][k]
            require(got.get('duration') == md[t][k]['duration'], 'duration of %r in mode %r' % (t, k))
            for r in types:
                require(got.get(r) == md[t][k].get(r, 0), 'need of %r for %r in mode %r: %r' % (t, r, k, got.get(r)))
    res = m.resources_availability if isinstance(m, MS_RCPSPModel) else m.resources
    for r in types:
        if isinstance(m, (RCPSPModelCalendar, MS_RCPSPModel)):
            require(len(res[r]) >= i['hor'] and all(x == avail(r, t) for t, x in enumerate(res[r])), 'quantities of %r: %r' % (r, res[r]))
        else:
            require(res[r] == avail(r, 0), 'quantity of %r: %r' % (r, res[r]))


def model(case):
    i = case['i']
    md, suc = details(i, i['drop']), int_keys(i['suc'])
    cls = RCPSPModelCalendar if i['cal'] else RCPSPModel if case.get('base') else MultiModeRCPSPModel if i['multi'] else SingleModeRCPSPModel
    m = cls(resources=dict(i['res']), non_renewable_resources=list(i['nr']), mode_details=md, successors=suc, horizon=i['hor'], horizon_multiplier=1)
    flat = i['cal'] and not case['varying']
    avail = (lambda r, t: i['res'][r][t]) if i['cal'] and not flat else (lambda r, t: max(i['res'][r])) if flat else (lambda r, t: i['res'][r])
    d = binding.build_sk_domain(m, varying_ressource=case['varying'])
    same_domain(d, i, list(i['res']), (), avail)
    m2 = quiet(binding.build_do_domain, d)
    require(isinstance(m2, RCPSPModelCalendar) == (i['cal'] and case['varying']), 'model is a %s' % type(m2).__name__)
    same_model(m2, i, list(i['res']), avail, i['nr'])
    same_domain(binding.build_sk_domain(m2, varying_ressource=case['varying']), i, list(i['res']), (), avail)
    # a schedule of the model, executed in the domain, and turned back into a solution
    sol = RCPSPSolution(problem=m2, rcpsp_permutation=list(i['perm']), rcpsp_modes=[k if str(k) in i['md'][str(j + 2)] else 1 for j, k in enumerate(i['modes'])])
    zero = any(v['duration'] == 0 for t, ms in i['md'].items() for v in ms.values() if t not in ('1', str(i['n'] + 2)))
    if sol.rcpsp_schedule_feasible and not zero:
        modes = {1: 1, i['n'] + 2: 1, **{j + 2: k for j, k in enumerate(sol.rcpsp_modes)}}
        pol = PolicyRCPSP(d, PolicyMethodParams(BasePolicyMethod.FOLLOW_GANTT), permutation_task=sorted(sol.rcpsp_schedule, key=lambda t: (sol.rcpsp_schedule[t]['start_time'], sol.rcpsp_schedule[t]['end_time'])),
                          modes_dictionnary=modes, schedule=sol.rcpsp_schedule)
        s = d.get_initial_state()
        for _ in range(400):
            if d.is_goal(s) or d.is_terminal(s):
                break
            s = d.get_next_state(s, pol.get_next_action(s))
        end = sol.rcpsp_schedule[i['n'] + 2]['end_time']
        if end < i['hor']:
            require(d.is_goal(s) and s.t == end, 'the schedule ends at %r, its execution at %r' % (end, s.t))
            back = quiet(binding.from_last_state_to_solution, s, d)
            require(back.rcpsp_schedule == sol.rcpsp_schedule, 'schedule of the execution %r, expected %r' % (back.rcpsp_schedule, sol.rcpsp_schedule))
            require(list(back.rcpsp_modes) == list(sol.rcpsp_modes), 'modes of the execution %r, expected %r' % (back.rcpsp_modes, sol.rcpsp_modes))
            require(quiet(back.problem.satisfy, back), 'the execution is not a feasible solution')


def skill(case):
    i = case['i']
    emp = {e: Employee({s: SkillDetail(v, 0, 0) for s, v in sk_.items()}, list(c)) for e, sk_, c in i['emp']}
    m = MS_RCPSPModel(skills_set=set(i['skills']), resources_set=set(i['res']), non_renewable_resources=set(i['nr']), resources_availability=i['res'],
                      employees=emp, employees_availability=[sum(c[t] for _, _, c in i['emp']) for t in range(i['hor'] + 1)], mode_details=details(i),
                      successors=int_keys(i['suc']), horizon=i['hor'], horizon_multiplier=1)
    var = case['varying']
    types, units = list(i['res']), [str(e) for e in emp]
    d = binding.build_sk_domain(m, varying_ressource=var)
    require(list(d.get_resource_units_names()) == units, 'units')
    avail = (lambda r, t: i['res'][r][t]) if var else (lambda r, t: i['res'][r][0])
    same_domain(d, i, types, units, avail)
    on = {str(e): (lambda t, c=c: int(c[t]) if var else 1) for e, _, c in i['emp']}
    for u in units:
        for t in range(i['hor'] + 1):
            require(d.get_quantity_resource(u, t) == on[u](t), 'unit %r at %r' % (u, t))
    for e, have, _ in i['emp']:
        require(d.get_skills_of_resource(str(e)) == have, 'skills of %r' % e)
    require(all(not d.get_skills_of_resource(r) for r in types), 'skills of types')
    md = details(i)
    for t in md:
        for k in md[t]:
            require(d.get_skills_of_task(t, k) == {s: v for s, v in md[t][k].items() if s in i['skills'] and v}, 'skills needed by %r' % t)
    m2 = quiet(binding.build_do_domain, d)
    same_model(m2, i, types, avail, i['nr'])
    for t in md:
        for k in md[t]:
            require({s: v for s, v in m2.mode_details[t][k].items() if s in i['skills'] and v} == {s: v for s, v in md[t][k].items() if s in i['skills'] and v}, 'skills needed by %r in the model' % t)
    key = lambda sk_, c: (sorted((s, v) for s, v in sk_.items()), [bool(x) for x in c])
    got = sorted(key({s: x.skill_value for s, x in e.dict_skill.items()}, e.calendar_employee) for e in m2.employees.values())
    want = sorted(key(have, [on[str(e)](t) for t in range(i['hor'] + 1)]) for e, have, _ in i['emp'])
    require(got == want, 'employees %r, expected %r' % (got, want))
    require(list(m2.employees_availability) == [sum(on[u](t) for u in units) for t in range(i['hor'] + 1)], 'employees available')
    require(m2.source_task == min(md) and m2.sink_task == max(md), 'source and sink')
    for e in emp:
        x = Employee(emp[e].dict_skill, emp[e].calendar_employee, salary=e + .5).copy()
        require(x.salary == e + .5 and x.calendar_employee == emp[e].calendar_employee and {k: vars(y) for k, y in x.dict_skill.items()} == {k: vars(y) for k, y in emp[e].dict_skill.items()},
                'copied employee %r' % vars(x))
    v = MS_RCPSPModel(skills_set=m.skills_set, resources_set=m.resources_set, non_renewable_resources=m.non_renewable_resources, resources_availability=m.resources_availability,
                      employees=m.employees, employees_availability=m.employees_availability, mode_details=m.mode_details, successors=m.successors, horizon=m.horizon,
                      horizon_multiplier=1, one_unit_per_task_max=True)
    for w in (v.to_variant_model(), v.copy()):
        for a in ('skills_set', 'resources_set', 'non_renewable_resources', 'resources_availability', 'employees', 'employees_availability', 'mode_details', 'successors', 'horizon',
                  'horizon_multiplier', 'one_unit_per_task_max', 'source_task', 'sink_task'):
            require(getattr(w, a) == getattr(v, a), '%s of the converted model: %r, was %r' % (a, getattr(w, a), getattr(v, a)))


def domain(case):
    i = case['i']
    md = {t: {int(k): ({r: x for r, x in need.items() if x or not case['sparse']} if case['sparse'] else {r: need.get(r, 0) for r in i['types']})
              for k, need in i['modes'][str(t)].items() if k == '1' or case['cls'] not in ('single', 'noisy')} for t in i['ids']}
    base = {'single': SingleModeRCPSPCalendar if i['calendar'] else SingleModeRCPSP, 'multi': MultiModeRCPSPCalendar if i['calendar'] else MultiModeRCPSP, 'cost': MultiModeRCPSPWithCost, 'noisy': SingleModeRCPSP_Stochastic_Durations}[case['cls']]
    cal = i['calendar'] if case['cls'] not in ('cost', 'noisy') else None
    ren = {r: True for r in i['types']} if case['cls'] == 'single' else {r: i['renew'][r] for r in i['types']}
    modes = {t: {k: ConstantModeConsumption(dict(n)) for k, n in md[t].items()} for t in md}

    class Dom(base):
        def _get_tasks_modes(self): return modes
        def _get_tasks_mode(self): return {t: modes[t][1] for t in modes}
        def _get_resource_renewability(self): return ren
        def _get_max_horizon(self): return i['horizon']
        def _get_successors(self): return {t: list(i['succ'][str(t)]) for t in i['ids']}
        def _get_tasks_ids(self): return list(i['ids'])
        def _get_task_duration(self, task, mode=1, progress_from=0.): return i['dur'][str(task)][str(mode)]
        def _get_task_duration_distribution(self, task, mode=1, progress_from=0., multivariate_settings=None):
            return DiscreteDistribution([(i['dur'][str(task)][str(mode)], .5), (i['dur'][str(task)][str(mode)] * 3, .5)])
        def _get_original_quantity_resource(self, resource, **kw): return i['avail'][resource]
        def _get_resource_types_names(self): return list(i['types'])
        def _get_mode_costs(self): return {t: {k: 0 for k in md[t]} for t in md}
        def _get_resource_cost_per_time_unit(self): return {r: 0 for r in i['types']}
        if cal:
            def _get_quantity_resource(self, resource, time, **kw): return cal[resource][min(time, len(cal[resource]) - 1)]
    m = quiet(binding.build_do_domain, Dom())
    if case['cls'] == 'noisy':
        for t in md:
            x = m.mode_details[t][1]
            require(x['duration'] in (i['dur'][str(t)]['1'], 3 * i['dur'][str(t)]['1']), 'sampled duration of %r: %r' % (t, x))
            x['duration'] = i['dur'][str(t)]['1']
    j = dict(md={str(t): {str(k): dict(md[t][k], duration=i['dur'][str(t)][str(k)]) for k in md[t]} for t in md}, suc=i['succ'], hor=i['horizon'])
    avail = (lambda r, t: cal[r][min(t, len(cal[r]) - 1)]) if cal else (lambda r, t: i['avail'][r])
    require(type(m) is (RCPSPModelCalendar if cal else SingleModeRCPSPModel if case['cls'] in ('single', 'noisy') else MultiModeRCPSPModel), 'model is a %s' % type(m).__name__)
    same_model(m, j, i['types'], avail, [r for r in i['types'] if not ren[r]])


def noise(case):
    import random
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    i = case['i']
    md, suc = details(i), int_keys(i['suc'])
    d = sk.MRCPSP(resource_names=list(i['res']), task_ids=sorted(md), tasks_mode=md, successors=suc, max_horizon=i['hor'], resource_availability=dict(i['res']),
                  resource_renewable={r: r not in i['nr'] for r in i['res']})
    noisy = set() if case['none'] else set(sorted(md)[::2]) if case['some'] else None
    s = sk.build_stochastic_from_deterministic(d, noisy)
    same = lambda x: (sorted(x.get_tasks_ids()), {t: sorted(v) for t, v in x.get_successors().items()}, {r: x.get_original_quantity_resource(r) for r in x.get_resource_types_names()},
                      {t: {k: {r: x.get_task_consumption(t, k, r, 0) for r in i['res']} for k in x.get_task_modes(t)} for t in md}, dict(x.get_resource_renewability()))
    require(same(s) == same(d), 'the noisy domain %r differs from the original %r' % (same(s), same(d)))
    require(s.get_max_horizon() == 2 * i['hor'], 'horizon')
    for t in md:
        for k in md[t]:
            dist = {}
            for v, p in s.get_task_duration_distribution(t, k).get_values():
                dist[v] = dist.get(v, 0) + p
            dur = md[t][k]['duration']
            want = {}
            for e in range(-10, 11) if dur and (noisy is None or t in noisy) else [0]:
                want[max(1, dur + e) if dur else 0] = want.get(max(1, dur + e) if dur else 0, 0) + (1 / 21 if dur and (noisy is None or t in noisy) else 1)
            require(set(dist) == set(want) and all(abs(dist[v] - want[v]) < 1e-9 for v in want), 'durations of %r: %r' % (t, dist))
    for x in sk.build_n_determinist_from_stochastic(s, 2):
        require(x.get_max_horizon() == s.get_max_horizon(), 'horizon of a sampled domain')
        require(same(x) == same(d), 'the sampled domain %r differs from the original %r' % (same(x), same(d)))
        for t in md:
            for k in md[t]:
                require(x.get_task_duration(t, k) in [v for v, p in s.get_task_duration_distribution(t, k).get_values() if p], 'sampled duration')


def check(case):
    {'model': model, 'skill': skill, 'domain': domain, 'noise': noise}[case['what']](case)
