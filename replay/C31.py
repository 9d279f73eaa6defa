import random as _random
import numpy as _np
from replay.schedref import *
from replay.base import require
import skdecide.hub.solver.sgs_policies.sgs_policies as sg
import skdecide.hub.solver.pile_policy.pile_policy as pp

RULE = 'random scheduling instances, permutations and plans: every rule in every state of random histories against its definition; a schedule that is executed again'
BOUNDS = 'bounded: at most 5 tasks, 30 steps'
ROUNDS = 30
R, G = sg.BasePolicyMethod, pp.GreedyChoice


def cases(rng, tier):
    for _ in range(40):
        kind = rng.choice(['det', 'det', 'uncertain'])
        yield dict(inst=instance(rng, kind=kind, pre=None, cond=None, horizon=200), seed=rng.randrange(10 ** 6), steps=rng.choice([4, 12, 30]))


def waits(a):
    return a.action is A.TIME_PR and a.time_progress is True and a.task is None


def rule_candidates(rule, good, perm, plan, delta):
    """indexes of the tasks the rule considers, in order"""
    if not good:
        return []
    i0 = good[0]
    st = lambda i: plan[perm[i]]['start_time']
    if rule is R.SGS_READY:
        return good
    if rule is R.SGS_INDEX_FREEDOM:
        return [i for i in good if i <= i0 + delta]
    if plan is None:
        return [i0]
    if rule is R.SGS_TIME_FREEDOM:
        return [i for i in good if st(i0) <= st(i) <= st(i0) + delta]
    return [i for i in good if st(i) == st(i0)]


def check(case):
    inst, rng = case['inst'], _random.Random(case['seed'])
    _random.seed(case['seed'])
    _np.random.seed(case['seed'] % (2 ** 31))
    d = build(inst)
    ids = list(inst['ids'])
    perm = ids[:]
    rng.shuffle(perm)
    modes = {t: rng.choice([int(m) for m in inst['modes'][str(t)]]) for t in ids}
    units = {t: rng.sample(inst['units'], rng.randint(0, len(inst['units']))) for t in ids if rng.random() < .6} if inst['units'] and rng.random() < .7 else None
    plan = {t: {'start_time': rng.randint(0, 4), 'end_time': 9} for t in perm} if rng.random() < .8 else None
    delta = rng.randint(0, 3)
    rules = list(R)[:6]
    mk = lambda rule, plan=plan: sg.PolicyRCPSP(d, sg.PolicyMethodParams(rule, delta_time_freedom=delta if rule is R.SGS_TIME_FREEDOM else 90,
                                                                        delta_index_freedom=delta if rule is R.SGS_INDEX_FREEDOM else 90), perm, modes, plan, units)
    pols = {rule: mk(rule) for rule in rules}
    piles = {}
    for g in G:
        piles[g] = pp.PilePolicy(g)
        piles[g]._solve_domain(lambda: d)
    succ = {t: set(inst['succ'][str(t)]) for t in ids}

    def desc(t, seen=None):
        seen = set() if seen is None else seen
        for u in succ[t]:
            if u not in seen:
                seen.add(u)
                desc(u, seen)
        return seen
    nb = {t: len(desc(t)) for t in ids}
    s = d.get_initial_state().copy()
    for n in range(case['steps']):
        ready = set(d.task_possible_to_launch_precedence(s))
        own = {t for t in s.tasks_remaining if all(t not in desc(u) or u in s.tasks_complete for u in ids)}
        require(ready == own, 'tasks that may start: %r, expected %r' % (ready, own))

        def can(t, mode, un):
            return d.check_if_action_can_be_started(s, SchedulingAction(task=t, action=A.START, mode=mode, time_progress=False, resource_unit_names=un))[0]
        planned = lambda t: units[t] if units is not None and t in units else None
        before = (str(s), list(perm))
        good = [i for i in range(len(perm)) if perm[i] in s.tasks_remaining and perm[i] in ready]
        acts = []
        for rule, pol in pols.items():
            a = pol.get_next_action(s)
            tag = 'rule %s: %r in %r (permutation %r, plan %r, delta %d)' % (rule.name, a, s, perm, plan, delta)
            if rule is R.FOLLOW_GANTT:
                due = [t for t in ready if plan is not None and plan[t]['start_time'] == s.t]
                want = [t for t in due if can(t, modes[t], planned(t))]
                require(a.task in want if a.action is A.START else waits(a) and (not due or len(want) < len(due)), tag + ', due %r, can start %r' % (due, want))
            else:
                want = [perm[i] for i in rule_candidates(rule, good, perm, plan, delta) if can(perm[i], modes[perm[i]], planned(perm[i]))]
                require(a.task == want[0] and a.action is A.START if want else waits(a), tag + ', expected to start %r' % want[:1])
            if a.action is A.START:
                require(a.mode == modes[a.task] and a.time_progress is False, 'mode of the start: ' + tag)
                require(a.resource_unit_names == planned(a.task), 'units of the start: ' + tag)
                acts.append(a)
            require((str(s), list(perm)) == before, 'the state or the permutation changed: ' + tag)
        want = [t for t in ready if can(t, 1, None)]
        for g, pol in piles.items():
            a = pol.get_next_action(s)
            tag = '%s: %r in %r' % (g.name, a, s)
            if not want:
                require(a.action is A.TIME_PR and a.time_progress is True and a.task is None, tag)
                continue
            require(a.action is A.START and a.task in want and a.mode == 1 and a.time_progress is False, tag)
            if g is G.MOST_SUCCESSORS:
                require(nb[a.task] == max(nb[t] for t in want), tag + ', %r' % nb)
            if g is G.SAMPLE_MOST_SUCCESSORS:
                require(nb[a.task] > 0 or not any(nb[t] for t in want), tag + ', %r' % nb)
            if g is G.FASTEST and inst['kind'] == 'det':
                dur = {t: inst['dur'][str(t)]['1'] for t in want}
                require(dur[a.task] == min(dur.values()), tag + ', %r' % dur)
            acts.append(a)
        a = rng.choice(acts) if acts and rng.random() < .7 else SchedulingAction(task=None, action=A.TIME_PR, mode=None, time_progress=True)
        s = d.get_next_state_distribution(s, a).sample()
        if d.is_goal(s) or d.is_terminal(s):
            break
    if inst['kind'] != 'det':
        return

    def execute(pol):
        s = d.get_initial_state().copy()
        for _ in range(300):
            if d.is_goal(s) or d.is_terminal(s):
                break
            s = d.get_next_state(s, pol.get_next_action(s))
        return s
    if any(inst['dur'][str(t)][str(modes[t])] == 0 for t in ids):
        return                          # tasks without a duration may have to be executed in one order
    s = execute(mk(R.SGS_READY))
    if d.is_goal(s) and s.t < 190:
        at = {t: s.tasks_details[t].start for t in ids}
        again = execute(mk(R.FOLLOW_GANTT, {t: {'start_time': at[t], 'end_time': s.tasks_details[t].end} for t in ids}))
        require({t: again.tasks_details[t].start for t in ids} == at and again.t == s.t, 'a schedule executed again: starts %r at %r, planned %r' % (
            {t: again.tasks_details[t].start for t in ids}, again.t, at))
