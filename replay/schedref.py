"""Reference semantics of scheduling domains, written from their documentation, and random instances.
An instance is plain data (JSON); build() makes a domain of the library from it; ref_* is the oracle."""
import random as _random
from enum import Enum
from functools import lru_cache

from skdecide.builders.scheduling.scheduling_domains import (
    DeterministicSchedulingDomain, UncertainSchedulingDomain, SchedulingDomain, SchedulingObjectiveEnum,
    SingleModeRCPSP, SingleModeRCPSPCalendar, MultiModeRCPSP, MultiModeRCPSPWithCost, MultiModeRCPSPCalendar)
from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingAction, SchedulingActionEnum as A, State
from skdecide.builders.scheduling.modes import SingleMode, MultiMode, ConstantModeConsumption, VaryingModeConsumption
from skdecide.builders.scheduling.task_duration import *
from skdecide.builders.scheduling.task_progress import DeterministicTaskProgress
from skdecide.builders.scheduling.resource_type import *
from skdecide.builders.scheduling.resource_renewability import *
from skdecide.builders.scheduling.resource_consumption import *
from skdecide.builders.scheduling.resource_availability import *
from skdecide.builders.scheduling.resource_costs import *
from skdecide.builders.scheduling.preemptivity import *
from skdecide.builders.scheduling.precedence import *
from skdecide.builders.scheduling.preallocations import *
from skdecide.builders.scheduling.time_lag import *
from skdecide.builders.scheduling.time_windows import *
from skdecide.builders.scheduling.skills import *
from skdecide.builders.scheduling.conditional_tasks import *
from skdecide.core import DiscreteDistribution

INF_DURATION = 9000


def instance(rng, kind=None, **force):
    """A random instance.  kind: det, uncertain, simulated."""
    kind = kind or rng.choice(['det', 'det', 'uncertain', 'simulated'])
    n = rng.randint(1, 5)
    ids = list(range(1, n + 1)) if rng.random() < .6 else rng.sample(range(3, 60), n)
    single = rng.random() < .25
    nmode = {t: 1 if single else rng.randint(1, 3) for t in ids}
    types = ['r%d' % i for i in range(rng.randint(1, 3))]
    units = ['u%d' % i for i in range(rng.randint(1, 3))] if rng.random() < .3 else []
    renew = {r: rng.random() < .75 for r in types}
    renew.update({u: True for u in units})
    varying = rng.random() < .3
    if varying:                     # all_tasks_possible reads constant needs
        renew = {r: True for r in renew}
    avail = {r: rng.randint(1, 4) for r in types}
    avail.update({u: 1 for u in units})
    calendar = {r: [rng.randint(0 if renew[r] and rng.random() < .3 else avail[r], avail[r]) if renew[r] else avail[r]
                    for _ in range(12)] for r in types + units} if rng.random() < .3 else None
    modes, dur = {}, {}
    for t in ids:
        modes[str(t)] = {}
        dur[str(t)] = {}
        for m in range(1, nmode[t] + 1):
            k = rng.random()
            if kind == 'uncertain':
                vals = rng.sample(range(0 if not varying else 1, 6), rng.randint(1, 3))
                w = [rng.randint(1, 4) for _ in vals]
                d = [[v, x / sum(w)] for v, x in zip(vals, w)]
                if rng.random() < .15:
                    d.append([rng.choice(vals), 0.0] if False else [7, 0.0])
                long = max(v for v, _ in d)
            else:
                d = rng.choice([0, 1, 1, 2, 3, 4, 5]) if k < .95 else rng.choice([7, 9, 11, 49])
                if varying:
                    d = max(d, 1)
                long = d
            dur[str(t)][str(m)] = d
            need = {}
            for r in types:
                if rng.random() < .75:
                    need[r] = [rng.randint(0, 2) for _ in range(long)] if varying else rng.randint(0, 3 if rng.random() < .3 else 2)
            modes[str(t)][str(m)] = need
    succ = {str(t): [] for t in ids}
    order = ids[:]
    rng.shuffle(order)
    for i, t in enumerate(order):
        for u in order[i + 1:]:
            if rng.random() < .25:
                succ[str(t)].append(u)
    pre = {str(t): rng.random() < .6 for t in ids} if rng.random() < .5 else None
    ret = {str(t): rng.random() < .5 for t in ids}
    skills = None
    if units:
        names = ['s%d' % i for i in range(rng.randint(1, 2))]
        have = {u: {s: rng.randint(0, 2) for s in names if rng.random() < .8} for u in units}
        want = {str(t): {m: {s: rng.randint(0, 2) if rng.random() < .8 else rng.randint(2, 4) for s in names if rng.random() < .6} for m in modes[str(t)]} for t in ids}
        if rng.random() < .25:
            have, want = ({a: {b: (v / 2 if not isinstance(v, dict) else {k: x / 2 for k, x in v.items()}) for b, v in c.items()}
                           for a, c in t.items()} for t in (have, want))
        skills = dict(have=have, want=want, names=names)
    cond = None
    if kind != 'det' and rng.random() < .5 and n > 1:
        items = ['c%d' % i for i in range(3)]
        exist = {str(t): rng.sample(items, rng.randint(0, 2)) for t in ids if rng.random() < .4}
        added = {}
        for t in ids:
            if rng.random() < .6:
                tests = []
                for _ in range(rng.randint(1, 2)):
                    vals = rng.sample(items + ['ok'], rng.randint(1, 3))
                    w = [rng.randint(1, 3) for _ in vals]
                    tests.append([[v, x / sum(w)] for v, x in zip(vals, w)])
                added[str(t)] = tests
        cond = dict(exist=exist, added=added)
    if cond and varying:
        pass
    costs = None
    if rng.random() < .5:
        costs = dict(mode={str(t): {m: rng.randint(0, 9) / 2 for m in modes[str(t)]} for t in ids} if rng.random() < .7 else None,
                     res={r: rng.randint(-1, 5) / 2 for r in types + units} if rng.random() < .7 else None)
    inst = dict(kind=kind, ids=ids, single=single, types=types, units=units, renew=renew, avail=avail, calendar=calendar,
                modes=modes, dur=dur, succ=succ, pre=pre, ret=ret, skills=skills, cond=cond, varying=varying,
                costs=costs, horizon=rng.choice([3, 8, 200]), objectives=rng.choice([['MAKESPAN'], ['COST'], ['MAKESPAN', 'COST'], []])
                if costs else ['MAKESPAN'], durcls=rng.choice(['univariate', 'enumerable', 'multivariate'])
                if kind == 'uncertain' else 'det' if kind == 'det' or rng.random() < .5 else 'simulated',
                idform=rng.choice(['list', 'set']))
    inst.update(force)
    return inst


class Scrambled(Enum):
    X = 'scrambled'


class Cond(Enum):
    c0, c1, c2, ok = 'c0', 'c1', 'c2', 'ok'


def build(inst):
    base = {'det': DeterministicSchedulingDomain, 'uncertain': UncertainSchedulingDomain, 'simulated': SchedulingDomain}[inst['kind']]
    bases = [base]
    body = {}
    ids = inst['ids']
    mk = (lambda n: VaryingModeConsumption({r: list(v) for r, v in n.items()})) if inst['varying'] else \
        (lambda n: ConstantModeConsumption(dict(n)))
    modes = {t: {int(m): mk(n) for m, n in inst['modes'][str(t)].items()} for t in ids}
    if inst['single']:
        bases.append(SingleMode)
        body['_get_tasks_mode'] = lambda self: {t: modes[t][1] for t in ids}
    else:
        bases.append(MultiMode)
        body['_get_tasks_modes'] = lambda self: modes
    dur = {(t, int(m)): d for t in ids for m, d in inst['dur'][str(t)].items()}
    dc = inst['durcls']
    if dc == 'det':
        bases.append(DeterministicTaskDuration)
        body['_get_task_duration'] = lambda self, task, mode=1, progress_from=0.: dur[task, mode]
    elif dc == 'simulated':
        body['_sample_task_duration'] = lambda self, task, mode=1, progress_from=0.: dur[task, mode]
    else:
        bases.append({'univariate': UncertainUnivariateTaskDuration, 'multivariate': UncertainMultivariateTaskDuration,
                      'enumerable': EnumerableTaskDuration}[dc])
        body['_get_task_duration_distribution'] = lambda self, task, mode=1, progress_from=0., multivariate_settings=None: \
            DiscreteDistribution([tuple(x) for x in dur[task, mode]])
    bases.append(DeterministicTaskProgress)
    body['_get_resource_types_names'] = lambda self: list(inst['types'])
    if inst['units']:
        body['_get_resource_units_names'] = lambda self: list(inst['units'])
        body['_get_resource_type_for_unit'] = lambda self: {}
        sk = inst['skills']
        have = {**{r: {} for r in inst['types']}, **{u: dict(v) for u, v in sk['have'].items()}}
        body['_get_all_resources_skills'] = lambda self: have
        want = {t: {int(m): dict(v) for m, v in sk['want'][str(t)].items()} for t in ids}
        body['_get_all_tasks_skills'] = lambda self: want
    else:
        bases += [WithoutResourceUnit, WithoutResourceSkills]
    if all(inst['renew'].values()):
        bases.append(RenewableOnly)
    else:
        body['_get_resource_renewability'] = lambda self: dict(inst['renew'])
    if not inst['varying']:
        bases.append(ConstantResourceConsumption)
    if inst['calendar']:
        bases.append(DeterministicResourceAvailabilityChanges)
        cal = inst['calendar']
        body['_get_quantity_resource'] = lambda self, resource, time, **kw: cal[resource][min(time, len(cal[resource]) - 1)]
    else:
        bases.append(WithoutResourceAvailabilityChange)
        body['_get_original_quantity_resource'] = lambda self, resource, **kw: inst['avail'][resource]
    if inst['pre']:
        body['_get_task_preemptivity'] = lambda self: {t: inst['pre'][str(t)] for t in ids}
        body['_get_task_paused_non_renewable_resource_returned'] = lambda self: {t: inst['ret'][str(t)] for t in ids}
        from skdecide.builders.scheduling.preemptivity import ResumeType
        body['_get_task_resuming_type'] = lambda self: {t: ResumeType.Resume for t in ids}
    else:
        bases.append(WithoutPreemptivity)
    bases += [WithoutPreallocations, WithoutTimeLag, WithoutTimeWindow]
    if inst['cond']:
        c = inst['cond']
        added = {int(t): [DiscreteDistribution([(Cond(v), p) for v, p in test]) for test in tests] for t, tests in c['added'].items()}
        exist = {int(t): [Cond(v) for v in vs] for t, vs in c['exist'].items()}
        body['_get_all_condition_items'] = lambda self: Cond
        body['_get_task_on_completion_added_conditions'] = lambda self: added
        body['_get_task_existence_conditions'] = lambda self: exist
    else:
        bases.append(WithoutConditionalTasks)
    co = inst['costs'] or {}
    if co.get('mode'):
        mc = {t: {int(m): v for m, v in co['mode'][str(t)].items()} for t in ids}
        body['_get_mode_costs'] = lambda self: mc
    else:
        bases.append(WithoutModeCosts)
    if co.get('res'):
        body['_get_resource_cost_per_time_unit'] = lambda self: dict(co['res'])
    else:
        bases.append(WithoutResourceCosts)
    succ = {t: list(inst['succ'][str(t)]) for t in ids}
    body['_get_successors'] = lambda self: succ
    body['_get_tasks_ids'] = lambda self: list(ids) if inst['idform'] == 'list' else set(ids)
    body['_get_max_horizon'] = lambda self: inst['horizon']
    body['_get_objectives'] = lambda self: [SchedulingObjectiveEnum[o] for o in inst['objectives']]

    def init(self):
        self.initialize_domain()
    body['__init__'] = init
    D = type('Dom', tuple(bases), body)
    return D()


# ---------------------------------------------------------------- states as plain data
def plain(s):
    """Everything a state records, as comparable plain data."""
    return dict(
        t=s.t, remaining=frozenset(s.tasks_remaining), ongoing=frozenset(s.tasks_ongoing),
        complete=frozenset(s.tasks_complete), paused=frozenset(s.tasks_paused),
        progress=dict(s.tasks_progress), mode=dict(s.tasks_mode), avail=dict(s.resource_availability),
        used=dict(s.resource_used), uft={t: dict(v) for t, v in s.resource_used_for_task.items()},
        start={t: d.start for t, d in s.tasks_details.items() if d.start is not None},
        end={t: d.end for t, d in s.tasks_details.items() if d.end is not None},
        dur={t: d.sampled_duration for t, d in s.tasks_details.items() if d.sampled_duration is not None},
        pauses={t: list(d.paused) for t, d in s.tasks_details.items() if d.paused},
        resumes={t: list(d.resumed) for t, d in s.tasks_details.items() if d.resumed},
        known=frozenset(s.tasks_details), conds=frozenset(c.value for c in s._current_conditions))


LIFE = ('remaining', 'ongoing', 'complete', 'paused', 'mode', 'start', 'pauses', 'resumes', 'known')
RES = ('avail', 'used', 'uft')
TIME = ('t', 'progress', 'end', 'dur', 'complete')
CONDS = ('conds', 'remaining')


def same(a, b, keys):
    for k in keys:
        x, y = a[k], b[k]
        if k == 'progress':
            if x.keys() != y.keys() or any(abs(x[t] - y[t]) > 1e-9 for t in x):
                return k
        elif x != y:
            return k
    return None


def scramble(x):
    """Changes everything a state holds, in place (the shared list of all tasks apart)."""
    def deep(v):
        if isinstance(v, dict):
            for k in list(v):
                v[k] = deep(v[k])
            v['scrambled'] = 1
        elif isinstance(v, set):
            v.add(Scrambled.X)
        elif isinstance(v, list):
            v.append('scrambled')
        elif hasattr(v, '__dict__') and not isinstance(v, Enum):
            for k in list(vars(v)):
                if k not in ('task_ids', 'tasks_available', 'id'):
                    vars(v)[k] = deep(vars(v)[k])
        elif v is None or isinstance(v, (int, float)):
            return -7
        return v
    deep(x)


def independent(states, what):
    """Changing one of the states leaves the others as they are (checked on a joint copy)."""
    from replay.base import require
    import copy
    if len(states) > 6:
        states = states[:6]
    for k in range(len(states)):
        own = copy.deepcopy(states)
        was = [plain(x) for x in own]
        scramble(own[k])
        for j, x in enumerate(own):
            if j != k:
                bad = same(plain(x), was[j], was[j].keys())
                require(bad is None, '%s: changing one changes %s of another: %r becomes %r' % (
                    what, bad, was[j].get(bad), plain(x).get(bad)))


def cp(s):
    return {k: ({t: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for t, v in x.items()}
                if isinstance(x, dict) else x) for k, x in s.items()}


class Ref:
    """The reference transition relation on plain states."""
    def __init__(self, inst):
        self.i = inst
        self.names = inst['types'] + inst['units']
        self.pred = {t: {p for p in inst['ids'] if t in inst['succ'][str(p)]} for t in inst['ids']}

    def quantity(self, r, t):
        c = self.i['calendar']
        return c[r][min(t, len(c[r]) - 1)] if c else self.i['avail'][r]

    def exists(self, t, conds):
        c = self.i['cond']
        return not c or all(x in conds for x in c['exist'].get(str(t), []))

    def init(self):
        i = self.i
        return dict(t=0, remaining=frozenset(t for t in i['ids'] if self.exists(t, ())), ongoing=frozenset(), complete=frozenset(),
                    paused=frozenset(), progress={}, mode={}, avail={r: self.quantity(r, 0) for r in self.names},
                    used={r: 0 for r in self.names}, uft={}, start={}, end={}, dur={}, pauses={}, resumes={},
                    known=frozenset(i['ids']), conds=frozenset())

    def active(self, s, t, now):
        """Time units during which the task was really executed before now."""
        if t not in s['start']:
            return 0
        now = min(now, s['end'].get(t, now))
        n = now - s['start'][t]
        ps, rs = s['pauses'].get(t, []), s['resumes'].get(t, [])
        for k, p in enumerate(ps):
            n -= (rs[k] if k < len(rs) else now) - p
        return n

    def need(self, t, m, r, at):
        v = self.i['modes'][str(t)][str(m)].get(r, 0)
        return v[at] if isinstance(v, list) else v

    def takes(self, s, a):
        """Resources a START or RESUME takes."""
        m = a['mode'] if a['mode'] is not None else s['mode'][a['task']]
        at = self.active(s, a['task'], s['t'])
        d = {r: self.need(a['task'], m, r, at) for r in self.i['types']}
        d.update({u: 1 for u in a['units'] or []})
        return m, d

    def wanted(self, t, m):
        sk = self.i['skills']
        return {s: v for s, v in sk['want'][str(t)][str(m)].items() if v > 0} if sk else {}

    def can(self, s, a):
        m, d = self.takes(s, a)
        if any(d[r] > s['avail'][r] - s['used'][r] for r in d):
            return False
        w = self.wanted(a['task'], m)
        have = self.i['skills']['have'] if self.i['skills'] else {}
        return all(sum(have.get(r, {}).get(k, 0) for r in d) >= w[k] for k in w)

    def finish(self, s, t, end):
        s['complete'] |= {t}
        s['ongoing'] -= {t}
        s['progress'][t] = 1
        s['end'][t] = end
        for r, v in s['uft'].pop(t).items():
            if self.i['renew'][r]:
                s['used'][r] -= v

    def conditions(self, done, out):
        """One outcome per combination of the conditions that the completed tasks add."""
        if self.i['cond'] and self.i['kind'] != 'det':
            for u in done:
                for test in self.i['cond']['added'].get(str(u), []):
                    nxt = []
                    for p, x in out:
                        for v, q in test:
                            y = cp(x)
                            y['conds'] |= {v}
                            nxt.append((p * q, y))
                    out = nxt
        return out

    def step(self, s0, a):
        """[(probability, state)]"""
        i, k, t = self.i, a['kind'], a['task']
        s = cp(s0)
        out = [(1.0, s)]
        if k == 'PAUSE':
            s['paused'] |= {t}
            s['ongoing'] -= {t}
            for r, v in s['uft'].pop(t).items():
                if i['renew'][r] or not i['pre'] or i['ret'][str(t)]:
                    s['used'][r] -= v
            s['pauses'][t] = s['pauses'].get(t, []) + [s['t']]
        elif k in ('RESUME', 'START'):
            if self.can(s, a):
                m, d = self.takes(s, a)
                s['ongoing'] |= {t}
                for r, v in d.items():
                    s['used'][r] += v
                s['uft'][t] = d
                if k == 'RESUME':
                    s['paused'] -= {t}
                    s['resumes'][t] = s['resumes'].get(t, []) + [s['t']]
                else:
                    s['remaining'] -= {t}
                    s['mode'][t] = m
                    s['start'][t] = s['t']
                    s['progress'][t] = 0.
                    ds = i['dur'][str(t)][str(m)]
                    out = []
                    for v, p in (ds if isinstance(ds, list) else [[ds, 1.0]]):
                        x = cp(s)
                        x['dur'][t] = v
                        if v == 0:
                            self.finish(x, t, x['t'])
                        out += self.conditions([t] if v == 0 else [], [(p, x)])
        elif k == 'TIME_PR':
            if i['kind'] != 'det':
                s['remaining'] |= {u for u in i['ids'] if self.exists(u, s['conds'])} - s['ongoing'] - s['complete'] - s['paused']
            done = []
            for u in sorted(s['ongoing']):
                # linear progress: complete after exactly its duration of execution
                if self.active(s, u, s['t'] + 1) >= s['dur'][u]:
                    done.append(u)
                else:
                    s['progress'][u] = self.active(s, u, s['t'] + 1) / s['dur'][u]
            for u in done:
                self.finish(s, u, s['t'] + 1)
            s['t'] += 1
            for u in s['ongoing']:
                for r in i['types']:
                    v = self.need(u, s['mode'][u], r, self.active(s, u, s['t']))
                    s['used'][r] += v - s['uft'][u][r]
                    s['uft'][u][r] = v
            for r in self.names:
                s['avail'][r] = self.quantity(r, s['t'])
            out = self.conditions(done, [(1.0, s)])
        return out

    def done(self, s):
        return not s['remaining'] and not s['ongoing'] and not s['paused']

    def possible(self, s):
        i = self.i
        non = [r for r in i['types'] if not i['renew'][r]]
        return all(any(all(self.need(t, m, r, 0) <= s['avail'][r] - s['used'][r] for r in non) for m in i['modes'][str(t)])
                   for t in s['remaining'])

    def terminal(self, s):
        return self.done(s) or s['t'] > self.i['horizon'] or not self.possible(s)

    # ------------------------------------------------------------ actions
    def startable(self, s):
        """(task, mode) whose existing predecessors are complete and whose resource types are available."""
        out = set()
        for t in s['remaining']:
            if all(p in s['complete'] for p in self.pred[t] if self.exists(p, s['conds'])):
                for m in self.i['modes'][str(t)]:
                    if all(self.need(t, m, r, 0) <= s['avail'][r] - s['used'][r] for r in self.i['types']):
                        out.add((t, int(m)))
        return out

    def resumable(self, s):
        out = set()
        for t in s['paused']:
            at = self.active(s, t, s['t'])
            m = s['mode'][t]
            if all(p in s['complete'] for p in self.pred[t] if self.exists(p, s['conds'])) and all(self.need(t, m, r, at) <= s['avail'][r] - s['used'][r] for r in self.i['types']):
                out.add((t, m))
        return out

    def overconsuming(self, s):
        return any(s['used'][r] > s['avail'][r] for r in s['used'])

    def pausable(self, s):
        return {t for t in s['ongoing'] if self.i['pre'] and self.i['pre'][str(t)]}

    def candidates(self, s, rng):
        """Meaningful actions (applicable or just refused) from s, as plain data."""
        i = self.i
        acts = [dict(kind='TIME_PR', task=None, mode=None, units=None)]
        for t in sorted(self.pausable(s)):
            acts.append(dict(kind='PAUSE', task=t, mode=None, units=None))
        free = [u for u in i['units'] if s['used'][u] < s['avail'][u]]
        for t in sorted(s['paused']):
            if not i['ret'][str(t)] and any(not i['renew'][r] for r in i['types']):
                continue            # consuming non-renewable resources twice or once is not specified
            m = s['mode'][t]
            us = rng.sample(i['units'], rng.randint(0, len(i['units']))) if rng.random() < .3 else free
            acts.append(dict(kind='RESUME', task=t, mode=rng.choice([m, None]), units=(us if i['units'] else None)))
        for t in sorted(s['remaining']):
            if all(p in s['complete'] for p in self.pred[t] if self.exists(p, s['conds'])):
                for m in i['modes'][str(t)]:
                    us = rng.sample(i['units'], rng.randint(0, len(i['units']))) if rng.random() < .3 else \
                        rng.sample(free, rng.randint(0, len(free)))
                    acts.append(dict(kind='START', task=t, mode=int(m), units=(us if i['units'] else None)))
        return acts

    def cost(self, s, a, s2):
        i = self.i
        v = 0.
        if 'MAKESPAN' in i['objectives']:
            v += s2['t'] - s['t']
        if 'COST' in i['objectives']:
            co = i['costs'] or {}
            if a['kind'] == 'START' and co.get('mode'):
                v += co['mode'][str(a['task'])][str(a['mode'])]
            for r in self.names:
                if i['renew'][r]:
                    v += (co['res'][r] if co.get('res') else 0.) * s2['used'][r]
                else:
                    v += s2['used'][r] - s['used'][r]
        return v


def action(a):
    return SchedulingAction(task=a['task'], action=A[a['kind']], mode=a['mode'], time_progress=a['kind'] == 'TIME_PR',
                            resource_unit_names=None if a['units'] is None else set(a['units']))


def run(case, keys, hook=None):
    """Runs random histories of a real domain against the reference; hook(domain, ref, state, plain, action, nexts)."""
    from replay.base import require
    inst = case['inst']
    d = build(inst)
    ref = Ref(inst)
    rng = _random.Random(case['seed'])
    for h in range(case.get('histories', 2)):
        s = d.get_initial_state()
        p = ref.init()
        k = same(plain(s), p, keys)
        require(k is None, 'initial state: %s is %r, expected %r' % (k, plain(s).get(k), p.get(k)))
        s = s.copy()                # the initial state object is shared by the domain
        for n in range(case['steps']):
            acts = ref.candidates(p, rng)
            a = acts[0] if rng.random() < .35 else rng.choice(acts)
            exp = ref.step(p, a)
            tag = 'after %r from %r' % (a, p)
            got = successors(d, inst, s, a, ref)
            # each expected outcome has a distinct counterpart with its probability
            if inst['kind'] != 'simulated':
                require(abs(sum(q for q, _ in got) - 1) < 1e-9, 'probabilities sum to %r %s' % (sum(q for q, _ in got), tag))
                match(got, exp, keys, tag, True)
            else:
                for _, x in got:
                    bad = [same(plain(x), e, keys) for q, e in exp if q > 0]
                    if None not in bad:
                        e = [e for q, e in exp if q > 0][0]
                        require(False, '%s is %r, expected %r %s' % (bad[0], plain(x)[bad[0]], e[bad[0]], tag))
            k = same(plain(s), p, p.keys())
            require(k is None, 'the given state itself changed: %s is %r, was %r %s' % (k, plain(s).get(k), p.get(k), tag))
            if hook:
                hook(d, ref, s, p, a, got, exp)
            q, s2 = rng.choice([x for x in got if x[0] > 0])
            p2 = [e for w, e in exp if w > 0 and same(plain(s2), e, p.keys()) is None]
            if not p2:              # differs outside the keys of this property: follow the code
                p2 = [plain(s2)]
            s, p = s2, p2[0]
            if not p['remaining'] and not p['ongoing'] and not p['paused']:
                break
            if ref.overconsuming(p) and rng.random() < .5:
                continue


def match(got, exp, keys, tag, probs):
    from replay.base import require
    got = [(q, plain(x)) for q, x in got]
    left = list(exp)
    for q, x in got:
        ok = [e for e in left if same(x, e[1], [k for k in x if k in keys]) is None]
        if not ok:
            k = same(x, left[0][1], keys) if left else None
            require(False, 'outcome %s not among those expected (%s is %r, expected e.g. %r)' % (
                tag, k, x.get(k), left[0][1].get(k) if left else None))
    if probs:
        # total probability per class of outcomes that agree on keys
        classes = []
        for q, x in [(q, x) for q, x in got] + [(0, e) for _, e in exp]:
            if not any(same(x, c, keys) is None for c in classes):
                classes.append(x)
        for c in classes:
            g = sum(q for q, x in got if same(x, c, keys) is None)
            e = sum(q for q, x in exp if same(x, c, keys) is None)
            require(abs(g - e) < 1e-9, 'probability of an outcome is %r, expected %r %s' % (g, e, tag))


def successors(d, inst, s, a, ref):
    """[(probability, state)] of the real domain; the three interfaces must agree."""
    from replay.base import require
    act = action(a)
    if inst['kind'] == 'det':
        x = d.get_next_state(s, act)
        y = d.get_next_state_distribution(s, act).get_values()
        require(len(y) == 1 and abs(y[0][1] - 1) < 1e-12, 'a deterministic domain has one next state')
        k = same(plain(x), plain(y[0][0]), plain(x).keys())
        require(k is None, 'next state and next state distribution differ on %s' % k)
        o = d.sample(s, act)
        k = same(plain(x), plain(o.observation), plain(x).keys())
        require(k is None, 'next state and sampled state differ on %s' % k)
        return [(1.0, x)]
    if inst['kind'] == 'uncertain':
        vals = [(q, x) for x, q in d.get_next_state_distribution(s, act).get_values()]
        o = d.sample(s, act)
        require(any(q > 0 and same(plain(x), plain(o.observation), plain(x).keys()) is None for q, x in vals),
                'a sampled state is not in the distribution')
        require(len({id(v) for _, x in vals for v in (x.tasks_ongoing, x.tasks_progress, x.resource_used, x.tasks_details)})
                == 4 * len(vals), 'two outcomes share parts of their state')
        return vals
    return [(1.0, d.sample(s, act).observation) for _ in range(2)]
