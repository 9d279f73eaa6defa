import contextlib, io, copy
from replay.base import require
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import (
    RCPSPSolution, RCPSPModelCalendar, SingleModeRCPSPModel, MultiModeRCPSPModel, RCPSP_H_Model, Aggreg_RCPSPModel,
    UncertainRCPSPModel, MethodRobustification, MethodBaseRobustification, create_poisson_laws)
from skdecide.builders.discrete_optimization.generic_tools.do_problem import MethodAggregating, BaseMethodAggregating

RULE = 'random project instances: the schedule generated from each permutation and the verdict on arbitrary schedules, against an independent serial scheme and feasibility test'
BOUNDS = 'bounded: at most 6 real activities, 3 modes, 3 resources, durations up to 4'
ROUNDS = 50


def instance(rng, modes=1, calendar=False, nonren=False, zero=True):
    n = rng.randint(1, 6)
    res = ['R%d' % i for i in range(rng.randint(1, 3))]
    nr = [r for r in res[1:] if rng.random() < .6] if nonren else []
    dem = lambda: {r: rng.choice([0, 0, 1, 2, 3]) for r in res}
    md = {'1': {'1': dict({r: 0 for r in res}, duration=0)}}
    for i in range(2, n + 2):
        md[str(i)] = {}
        for m in range(1, rng.randint(1, modes) + 1):
            d = rng.randint(0 if zero else 1, 4)
            md[str(i)][str(m)] = dict(dem() if d else {r: 0 for r in res}, duration=d)
    md[str(n + 2)] = {'1': dict({r: 0 for r in res}, duration=0)}
    order = list(range(2, n + 2))
    rng.shuffle(order)
    suc = {str(i): [] for i in range(1, n + 3)}
    for a in range(n):
        for b in range(a + 1, n):
            if rng.random() < .3:
                suc[str(order[a])].append(order[b])
    for i in order:
        if rng.random() < .5 or not any(i in s for s in suc.values()):
            suc['1'].append(i)
        if rng.random() < .5 or not suc[str(i)]:
            suc[str(i)].append(n + 2)
    for s in suc.values():
        rng.shuffle(s)
    total = sum(max(m['duration'] for m in v.values()) for v in md.values())
    hor = rng.choice([total, total, max(1, total - 2), total + 3, max(1, total // 2)])
    mult = rng.choice([1, 1, 2])
    cap = {r: rng.choice([2, 3, 3, 4, 6]) if r not in nr else rng.choice([2, 4, 8, 12]) for r in res}
    if calendar:
        ln = hor * mult + rng.choice([0, 1, 5]) + 1
        cap = {r: ([cap[r]] * ln if r in nr else [max(0, cap[r] - rng.choice([0, 0, 1, cap[r]])) for _ in range(ln)]) for r in res}
    perm = list(range(n))
    rng.shuffle(perm)
    sel = [rng.choice([1] + [int(m) for m in md[str(i)]] + ([7] if rng.random() < .2 else [])) for i in range(2, n + 2)] if modes > 1 else [1] * n
    return dict(n=n, res=cap, nr=nr, md=md, suc=suc, hor=hor, mult=mult, perm=perm, modes=sel, multi=modes > 1, cal=calendar)


def cases(rng, tier):
    for _ in range(60):
        yield dict(what='sgs', i=instance(rng, rng.choice([1, 3]), rng.random() < .3, rng.random() < .4), perms=[rng.random() for _ in range(3)])
    for _ in range(40):
        i = instance(rng, rng.choice([1, 3]), rng.random() < .3, rng.random() < .4, zero=False)
        yield dict(what='satisfy', i=i, shift=[[rng.choice([0, 0, 0, 0, 0, 1, -1, 2]) for _ in range(i['n'] + 2)] for _ in range(6)], flag=[rng.choice([None, True, True, False]) for _ in range(6)])
    for _ in range(25):
        i = instance(rng, rng.choice([1, 3]))
        yield dict(what='partial', i=i, at=rng.random(), perm2=rng.sample(range(i['n']), i['n']))
    for _ in range(15):
        i = instance(rng)
        i['hor'] = 40
        yield dict(what='helper', i=i)
    for _ in range(10):
        i = instance(rng)
        i['hor'] = 60
        yield dict(what='aggreg', i=i, dur=[[rng.randint(1, 5) for _ in range(i['n'])] for _ in range(3)] if rng.random() < .6 else [[rng.randint(2, 3) for _ in range(i['n'])] for _ in range(3)], how=rng.choice(['MEAN', 'MEDIAN', 'MIN', 'MAX', 'PERCENTILE', 'PONDERATION']))
    for _ in range(4):
        i = instance(rng, rng.choice([1, 2]), zero=False)
        i['res'] = {r: 3 + k for r, k in i['res'].items()}
        yield dict(what='uncertain', i=i, r=rng.choice([0, 1, 2]), d=rng.choice([0, 1, 3]), uniform=rng.random() < .7)


def check(case):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()[case['what']](case)


def build(i, md=None):
    ints = lambda d: {int(k): v for k, v in d.items()}
    cls = RCPSPModelCalendar if i['cal'] else MultiModeRCPSPModel if i['multi'] else SingleModeRCPSPModel
    return cls(resources=copy.deepcopy(i['res']), non_renewable_resources=list(i['nr']), mode_details={int(a): ints(copy.deepcopy(m)) for a, m in (md or i['md']).items()},
               successors=ints(copy.deepcopy(i['suc'])), horizon=i['hor'], horizon_multiplier=i['mult'])


def capacity(i, r, t):
    return i['res'][r][t] if i['cal'] else i['res'][r]


def modes_of(i, modes):
    """Mode 1 for the dummies and for a mode that an activity does not have."""
    out = {1: 1, i['n'] + 2: 1}
    for k, m in enumerate(modes):
        out[k + 2] = m if str(m) in i['md'][str(k + 2)] else 1
    return out


def reference(i, perm, modes, done=(), start=(), now=0):
    """Start times by the serial scheme, or None if the instance cannot be scheduled this way."""
    mo = modes_of(i, modes)
    det = lambda a: i['md'][str(a)][str(mo[a])]
    acts = list(range(1, i['n'] + 3))
    for r in i['nr']:
        if sum(det(a)[r] for a in acts) > (i['res'][r][0] if i['cal'] else i['res'][r]):
            return None
    H = i['hor'] * i['mult']
    usage, st = {}, {}
    todo = [a for a in [1] + [p + 2 for p in perm] + [i['n'] + 2] if a not in done]
    start = dict(start)
    while todo:
        a = next(x for x in todo if not any(x in i['suc'][str(p)] for p in todo))
        d = det(a)['duration']
        t = max([start.get(a, now)] + [st[p] + det(p)['duration'] for p in st if a in i['suc'][str(p)]])
        while True:
            if d and t + d > H:
                return None
            if all(usage.get((r, x), 0) + det(a)[r] <= capacity(i, r, x) for r in i['res'] if r not in i['nr'] for x in range(t, t + d)):
                break
            t += 1
        for r in i['res']:
            for x in range(t, t + d):
                usage[r, x] = usage.get((r, x), 0) + det(a)[r]
        st[a] = t
        todo.remove(a)
    return st


def feasible(i, sched, modes):
    mo = modes_of(i, modes)
    det = lambda a: i['md'][str(a)][str(mo[a])]
    acts = range(1, i['n'] + 3)
    for r in i['nr']:
        if sum(det(a)[r] for a in acts) > (i['res'][r][0] if i['cal'] else i['res'][r]):
            return False
    for t in range(max(sched[a][1] for a in acts)):
        for r in i['res']:
            if sum(det(a)[r] for a in acts if sched[a][0] <= t < sched[a][1]) > capacity(i, r, t):
                return False
    return all(sched[s][0] >= sched[a][1] for a in acts for s in i['suc'][str(a)])


def reserve(i, st, modes):
    mo = modes_of(i, modes)
    det = lambda a: i['md'][str(a)][str(mo[a])]
    mk = st[i['n'] + 2]
    tot = 0
    for r in i['res']:
        used = sum(det(a)[r] * det(a)['duration'] for a in st)
        tot += (i['res'][r] - used / mk) / i['res'][r]
    return tot / len(i['res'])


def verify(i, sol, pb, perm, modes, msg):
    st = reference(i, perm, modes)
    mo = modes_of(i, modes)
    require(sol.rcpsp_schedule_feasible is (st is not None), '%s: flagged feasible=%r, the reference schedule is %r' % (msg, sol.rcpsp_schedule_feasible, st))
    require(pb.satisfy(sol) is (st is not None), '%s: satisfy disagrees with the flag' % msg)
    ev = None if i['cal'] else pb.evaluate(sol)
    if st is None:
        if ev:
            require(ev['makespan'] >= 9999999 and ev['mean_resource_reserve'] == 0, '%s: infeasible, evaluated %r' % (msg, ev))
        return None
    got = {a: (x['start_time'], x['end_time']) for a, x in sol.rcpsp_schedule.items()}
    exp = {a: (t, t + i['md'][str(a)][str(mo[a])]['duration']) for a, t in st.items()}
    require(got == exp, '%s: schedule %r, expected %r' % (msg, got, exp))
    require([mo[k + 2] for k in range(i['n'])] == list(sol.rcpsp_modes), '%s: modes %r' % (msg, sol.rcpsp_modes))
    if ev:
        require(ev['makespan'] == st[i['n'] + 2], '%s: makespan %r' % (msg, ev))
        if not i['nr'] and st[i['n'] + 2]:
            require(abs(ev['mean_resource_reserve'] - reserve(i, st, modes)) < 1e-9, '%s: reserve %r instead of %r' % (msg, ev['mean_resource_reserve'], reserve(i, st, modes)))
        fit = pb.evaluate_mobj(sol)
        require(not st[i['n'] + 2] or list(fit.vector_fitness) == [-ev['makespan'], ev['mean_resource_reserve']], '%s: fitness %r' % (msg, fit.vector_fitness))
        cons = pb.compute_resource_consumption(sol)
        for k, r in enumerate(pb.resources_list):
            for t in range(ev['makespan']):
                u = sum(i['md'][str(a)][str(mo[a])][r] for a in exp if exp[a][0] <= t < exp[a][1])
                require(cons[k][t + 1] == u, '%s: consumption of %s at %d is %r, not %r' % (msg, r, t, cons[k][t + 1], u))
    sp = sol.generate_permutation_from_schedule()
    require(sorted(sp) == list(range(i['n'])) and all(st[a + 2] <= st[b + 2] for a, b in zip(sp, sp[1:])), '%s: permutation by start times %r' % (msg, sp))
    return st


def sgs(case):
    i = case['i']
    pb = build(i)
    before = copy.deepcopy((pb.resources, pb.mode_details, pb.successors))
    perm, modes = list(i['perm']), list(i['modes'])
    sol = RCPSPSolution(problem=pb, rcpsp_permutation=list(perm), rcpsp_modes=list(modes))
    st = verify(i, sol, pb, perm, modes, 'new solution')
    require((pb.resources, pb.mode_details, pb.successors) == before, 'the problem was changed')
    require(list(sol.rcpsp_permutation) == perm, 'the permutation was changed')
    if i['multi'] and not i['cal']:
        pb.set_fixed_modes(list(modes))
        p2 = pb.copy()
        p2.fixed_permutation = getattr(p2, 'fixed_permutation', None)
        require(list(p2.fixed_modes) == list(modes), 'a copy of the problem loses the fixed modes')
    reg = pb.get_attribute_register().dict_attribute_to_type
    if 'rcpsp_modes_arrity_fix' in reg:
        ar = [len(i['md'][str(k)]) for k in range(2, i['n'] + 2)]
        require(list(reg['rcpsp_modes_arrity_fix']['arrities']) == ar and reg['rcpsp_modes']['arrity'] == max(ar + [1]), 'numbers of modes %r of %r' % (reg, ar))
    cp = pb.copy()
    require(type(cp) is type(pb) and (cp.resources, cp.mode_details, cp.successors, cp.horizon, cp.non_renewable_resources, cp.n_jobs) ==
            (pb.resources, pb.mode_details, pb.successors, pb.horizon, pb.non_renewable_resources, pb.n_jobs), 'a copy of the problem differs')
    if not i['cal']:
        ev = pb.evaluate(sol) if st is None or st[i['n'] + 2] else None
    if not i['cal'] and ev:
        require(pb.evaluate_from_encoding(list(perm), 'rcpsp_permutation') == ev, 'evaluation of the encoding')
        if i['multi']:
            pb.set_fixed_permutation(list(perm))
            require(pb.evaluate_from_encoding([m - 1 for m in modes], 'rcpsp_modes') == ev, 'evaluation of the modes')
    # change the encoding of a solution and of its copies
    import random
    for seed in case['perms']:
        r = random.Random(seed)
        p2, m2 = list(perm), [r.choice([int(m) for m in i['md'][str(k)]]) for k in range(2, i['n'] + 2)]
        r.shuffle(p2)
        first = r.random() < .5
        c = sol.copy() if r.random() < .5 else sol.lazy_copy()
        if i['cal']:
            continue
        require(not ev or pb.evaluate(c) == ev, 'a copy evaluates as the original')
        c.rcpsp_permutation = p2
        mm = modes
        if i['multi']:
            c.rcpsp_modes = list(m2)
            mm = m2
        if r.random() < .5:
            c = c.copy()
        if r.random() < .3:
            c.change_problem(pb)
        pb.evaluate(c)
        verify(i, c, pb, p2, mm, 'changed copy')
        if i['multi']:
            c.rcpsp_modes = list(modes)
            pb.evaluate(c)
            verify(i, c, pb, p2, modes, 'modes changed back')
        verify(i, sol, pb, perm, modes, 'the original after its copy changed')
    if st is not None:
        # a solution given by its schedule
        sch = {a: dict(start_time=t, end_time=t + i['md'][str(a)][str(modes_of(i, modes)[a])]['duration']) for a, t in st.items()}
        s2 = RCPSPSolution(problem=pb, rcpsp_schedule=sch, rcpsp_modes=list(sol.rcpsp_modes), rcpsp_schedule_feasible=True)
        require(pb.satisfy(s2) is True, 'a feasible schedule is refused')
        s3 = RCPSPSolution(problem=pb, rcpsp_schedule=dict(reversed(list(sch.items()))), rcpsp_modes=list(sol.rcpsp_modes), rcpsp_schedule_feasible=True)
        for s4 in (s2, s3):
            sp = s4.generate_permutation_from_schedule()
            require(sorted(sp) == list(range(i['n'])) and all(st[a + 2] <= st[b + 2] for a, b in zip(sp, sp[1:])), 'permutation by start times %r of %r' % (sp, sch))
        if not i['cal']:
            require(pb.evaluate(s2)['makespan'] == st[i['n'] + 2] and s2.rcpsp_schedule == sch, 'a given schedule is evaluated as it is')
    if not i['cal']:
        d = pb.get_dummy_solution()
        verify(i, d, pb, list(range(i['n'])), [1] * i['n'], 'dummy solution')


def satisfy(case):
    i = case['i']
    pb = build(i)
    mo = modes_of(i, i['modes'])
    free = dict(i, res={r: [99] * 200 for r in i['res']}, cal=True, nr=[], hor=60)
    st = reference(dict(free), i['perm'], i['modes'])
    base = reference(i, i['perm'], i['modes'])
    for shift, flag in zip(case['shift'], case['flag']):
        src = base if base is not None and shift[0] >= 0 else st
        s = {a: max(0, t + shift[a - 1]) for a, t in src.items()}
        s[1] = 0
        s[i['n'] + 2] = max([s[a] + i['md'][str(a)][str(mo[a])]['duration'] for a in s if a < i['n'] + 2] + [0]) + max(shift[-1], 0) - (1 if shift[-1] < 0 else 0)
        if s[i['n'] + 2] < 0:
            continue
        if i['cal'] and s[i['n'] + 2] >= len(i['res']['R0']):
            continue
        sched = {a: (t, t + i['md'][str(a)][str(mo[a])]['duration']) for a, t in s.items()}
        sol = RCPSPSolution(problem=pb, rcpsp_permutation=list(i['perm']), rcpsp_modes=[mo[a] for a in range(2, i['n'] + 2)], rcpsp_schedule_feasible=flag,
                            rcpsp_schedule={a: dict(start_time=x, end_time=y) for a, (x, y) in sched.items()})
        if i['cal'] and max(y for _, y in sched.values()) > len(i['res']['R0']):
            continue
        exp = flag is not False and feasible(i, sched, i['modes'])
        got = pb.satisfy(sol)
        require(got is exp, 'satisfy is %r on %r' % (got, sched))


def partial(case):
    """Rescheduling at a date: finished and running activities keep their dates."""
    i = dict(case['i'], hor=60, nr=[])
    pb = build(i)
    st = reference(i, i['perm'], i['modes'])
    if st is None:
        return
    mo = modes_of(i, i['modes'])
    end = {a: t + i['md'][str(a)][str(mo[a])]['duration'] for a, t in st.items()}
    now = int(case['at'] * (st[i['n'] + 2] + 1))

    class Done:
        def __init__(self, a): self.start, self.end = st[a], end[a]
    done = {a: Done(a) for a in st if end[a] <= now and a != i['n'] + 2}
    running = {a: st[a] for a in st if a not in done and st[a] < now}
    perm = [a - 2 for a in running] + [p for p in case['perm2'] if p + 2 not in running]
    sol = RCPSPSolution(problem=pb, rcpsp_permutation=list(perm), rcpsp_modes=list(i['modes']))
    sol.generate_schedule_from_permutation_serial_sgs_2(now, done, dict(running))
    exp = reference(i, perm, i['modes'], done=done, start=running, now=now)
    require(sol.rcpsp_schedule_feasible is True and exp is not None, 'a partial schedule that fits is refused')
    exp.update({a: st[a] for a in done})
    got = {a: (x['start_time'], x['end_time']) for a, x in sol.rcpsp_schedule.items()}
    want = {a: (t, t + i['md'][str(a)][str(mo[a])]['duration']) for a, t in exp.items()}
    require(got == want, 'rescheduled at %d: %r instead of %r' % (now, got, want))
    require(all(got[a][0] == st[a] for a in running) and all(got[a][0] >= now for a in got if a not in done and a not in running), 'dates of the past changed: %r' % got)


def helper(case):
    i = case['i']
    base = build(i)
    st = reference(i, i['perm'], i['modes'])
    if st is None:
        return
    # every direct predecessor-successor pair of real activities is a pre-helper and its main activity
    pre = {}
    for a in range(2, i['n'] + 2):
        for s in i['suc'][str(a)]:
            if s <= i['n'] + 1 and s not in pre and a not in [v[0] for v in pre.values()]:
                pre[s] = [a]
    pb = RCPSP_H_Model(base, pre, {k: [i['n'] + 2] for k in pre})
    sol = RCPSPSolution(problem=pb, rcpsp_permutation=list(i['perm']), rcpsp_modes=list(i['modes']))
    got = {a: (x['start_time'], x['end_time']) for a, x in sol.rcpsp_schedule.items()}
    require(set(got) == set(st), 'activities %r' % got)
    helpers = [v[0] for v in pre.values()]
    for a in st:
        require(got[a][1] - got[a][0] == i['md'][str(a)]['1']['duration'], 'duration of %d: %r' % (a, got[a]))
        require(got[a][0] == st[a] if a not in helpers else got[a][0] >= st[a], 'activity %d moved from %d to %r' % (a, st[a], got[a]))
    require(feasible(i, got, i['modes']), 'infeasible after the correction: %r' % got)
    ev = pb.evaluate(sol)
    got = {a: (x['start_time'], x['end_time']) for a, x in sol.rcpsp_schedule.items()}
    gap = sum(got[m][0] - got[h[0]][1] + got[i['n'] + 2][0] - got[m][1] for m, h in pre.items())
    require(ev['makespan'] == st[i['n'] + 2] and ev['cumulated_helper_gap'] == gap, 'evaluation %r, gap %r' % (ev, gap))
    require(feasible(i, got, i['modes']), 'infeasible after the evaluation: %r' % got)


def aggreg(case):
    import numpy as np
    i = case['i']
    pbs, evs = [], []
    for dur in case['dur']:
        j = copy.deepcopy(i)
        for k, d in enumerate(dur):
            j['md'][str(k + 2)]['1']['duration'] = d
        pbs.append(build(j))
        evs.append(pbs[-1].evaluate(RCPSPSolution(problem=pbs[-1], rcpsp_permutation=list(i['perm']), rcpsp_modes=[1] * i['n'])))
    w = [.2, .3, .5]
    agg = Aggreg_RCPSPModel(pbs, MethodAggregating(BaseMethodAggregating[case['how']], percentile=50., ponderation=np.array(w)))
    f = {'MEAN': lambda v: sum(v) / 3, 'MEDIAN': lambda v: sorted(v)[1], 'MIN': min, 'MAX': max, 'PERCENTILE': lambda v: sorted(v)[1],
         'PONDERATION': lambda v: sum(x * y for x, y in zip(v, w))}[case['how']]
    k0 = sum(case['dur'][0]) % 3
    sol = RCPSPSolution(problem=pbs[k0], rcpsp_permutation=list(i['perm']), rcpsp_modes=[1] * i['n'])
    keep = copy.deepcopy(sol.rcpsp_schedule)
    for got in (agg.evaluate(sol), agg.evaluate_from_encoding(list(i['perm']), 'rcpsp_permutation')):
        for k in evs[0]:
            require(abs(got[k] - f([e[k] for e in evs])) < 1e-9, '%s of %s is %r over %r' % (case['how'], k, got[k], evs))
    require(sol.rcpsp_schedule == keep and sol.problem is pbs[k0], 'the evaluated solution changed')
    before = [copy.deepcopy(p.mode_details) for p in pbs]
    one = agg.get_unique_rcpsp_model()
    require([p.mode_details for p in pbs] == before, 'the aggregated projects changed')
    for a in before[0]:
        for m in before[0][a]:
            for q in before[0][a][m]:
                exp = f([b[a][m][q] for b in before])
                require(one.mode_details[a][m][q] in (int(exp + 1e-9), int(exp - 1e-9)), '%s of %s of activity %d is %r over %r' % (
                    case['how'], q, a, one.mode_details[a][m][q], [b[a][m][q] for b in before]))
    require(one.successors == pbs[0].successors and one.resources == pbs[0].resources and one.horizon == pbs[0].horizon, 'the aggregated instance')


def uncertain(case):
    i = case['i']
    pb = build(i)
    before = copy.deepcopy(pb.mode_details)
    laws = create_poisson_laws(pb, range_around_mean_resource=case['r'], range_around_mean_duration=case['d'])
    u = UncertainRCPSPModel(pb, laws, uniform_law=case['uniform'])
    for how in MethodBaseRobustification:
        m = u.create_rcpsp_model(MethodRobustification(how, percentile=60))
        require(set(m.mode_details) == set(before), 'activities of the %s instance' % how)
        for a in before:
            for mode in before[a]:
                for k, v in before[a][mode].items():
                    lo, hi = v, v
                    if a not in (1, i['n'] + 2):
                        if k == 'duration':
                            lo, hi = max(1, v - case['d']), v + case['d']
                        elif k not in i['nr']:
                            lo, hi = max(0, v - case['r']), min(v + case['r'], i['res'][k])
                    x = m.mode_details[a][mode][k]
                    if hi < lo:
                        continue
                    if how == MethodBaseRobustification.PERCENTILE and a not in (1, i['n'] + 2):
                        lo, hi = lo, max(hi, 1)
                    require(lo <= x <= hi, '%s of activity %d: %r outside [%r, %r]' % (k, a, x, lo, hi))
                    if how == MethodBaseRobustification.WORST_CASE:
                        require(x == hi, 'worst case %s of %d: %r' % (k, a, x))
                    if how == MethodBaseRobustification.BEST_CASE:
                        require(x == lo, 'best case %s of %d: %r' % (k, a, x))
        require(pb.mode_details == before, 'the base instance changed')
