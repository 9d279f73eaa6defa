import random as _random
import numpy as _np
from replay.schedref import *
from replay.base import require
import skdecide.hub.solver.policy_evaluators.policy_evaluator as pe
import skdecide.hub.solver.meta_policy.meta_policies as mp
import skdecide.hub.solver.sgs_policies.sgs_policies as sg
from skdecide.core import TransitionValue

RULE = 'random decision processes and policies: exploration and expected costs against a solution of the equations; random scheduling domains: rollouts and the best of several policies'
BOUNDS = 'bounded: at most 7 states, 4 outcomes, 5 tasks'
ROUNDS = 20


def cases(rng, tier):
    for _ in range(30):
        n = rng.randint(1, 7)
        acyclic = rng.random() < .7
        out = []
        for s in range(n):
            a = rng.randint(0, 1)
            later = list(range(s + 1, n)) if acyclic else list(range(n))
            later += [rng.choice(['goal', 'goal', 'goal', 'dead', 'cell'])] * rng.randint(0 if later else 1, 2)
            pick = [rng.choice(later) for _ in range(rng.randint(1, 4))]
            if len(set(map(str, pick))) != len(pick):
                pick = sorted(set(pick), key=str)
            w = [rng.choice([0, 1, 2, 3, 3, 1e-4]) for _ in pick]
            if not sum(w):
                w[rng.randrange(len(w))] = 1
            out.append([[y, x / sum(w), rng.randint(0, 8) / 2] for y, x in zip(pick, w)])
        yield dict(what='mdp', out=out, goals=[s for s in range(n) if rng.random() < .15], start=rng.choice([0, 0, 'goal', rng.randrange(n)]))
    for _ in range(4):
        kind = rng.choice(['det', 'det', 'uncertain'])
        yield dict(what='sched', inst=instance(rng, kind=kind, pre=None, cond=None, horizon=rng.choice([200, 200, 5])),
                   seed=rng.randrange(10 ** 6))
    for _ in range(8):
        inst = instance(rng, kind=rng.choice(['det', 'uncertain']), pre=None, cond=None, horizon=200)
        while len(inst['ids']) < 3:
            inst = instance(rng, kind=rng.choice(['det', 'uncertain']), pre=None, cond=None, horizon=200)
        yield dict(what='meta', inst=inst, seed=rng.randrange(10 ** 6), nb=rng.randint(1, 3), steps=rng.randint(0, 3))


class Mdp:
    def __init__(self, case): self.case = case
    def get_initial_state(self): return self.case['start']
    def is_goal(self, s): return s == 'goal' or s in self.case['goals']
    def is_terminal(self, s): return s in ('goal', 'dead')
    def outcomes(self, s): return [['goal', 1.0, 1.0]] if s == 'cell' else self.case['out'][s]
    def get_next_action(self, s): return 'a%s' % s

    def get_next_state_distribution(self, s, a):
        require(a == 'a%s' % s, 'action %r in state %r' % (a, s))
        return DiscreteDistribution([(y, p) for y, p, _ in self.outcomes(s)])

    def get_transition_value(self, s, a, s2):
        require(a == 'a%s' % s, 'action %r in state %r' % (a, s))
        return TransitionValue(cost=[c for y, _, c in self.outcomes(s) if y == s2][0])


def mdp(case):
    d = Mdp(case)
    reach, todo = set(), [case['start']]
    while todo:
        s = todo.pop()
        if s in reach or d.is_terminal(s):
            continue
        reach.add(s)
        todo += [y for y, p, _ in d.outcomes(s) if p]
    pol, preds, succs = pe.construct_dict_policy(d, d)
    require(pol == {s: 'a%s' % s for s in reach}, 'policy %r, reachable %r' % (pol, reach))
    require({s: [(y, p) for y, p in succs[s]] for s in succs} == {s: [(y, p) for y, p, _ in d.outcomes(s)] for s in reach}, 'successors %r' % (succs,))
    want = {}
    for s in reach:
        for y, p, _ in d.outcomes(s):
            if p:
                want.setdefault(y, set()).add(s)
    got = {y: set(v) for y, v in preds.items() if v}
    require(got == want, 'predecessors %r, expected %r' % (got, want))
    # values: goals 0, then whatever depends only on states with a value
    val = {y: 0 for y in want if d.is_goal(y)}
    while True:
        new = {s: sum(p * (c + val[y]) for y, p, c in d.outcomes(s) if p) for s in reach if s not in val and all(y in val for y, p, _ in d.outcomes(s) if p)}
        if not new:
            break
        val.update(new)
    for v in (pe.expected_costs_for_policy(d, pol, preds, succs), pe.compute_expected_cost_for_policy(d, d)[0]):
        require(set(v) == set(val), 'states with a value %r, expected %r' % (sorted(v, key=str), sorted(val, key=str)))
        for s in val:
            require(abs(v[s] - val[s]) < 1e-9, 'value of %r is %r, expected %r' % (s, v[s], val[s]))


def sched(case):
    inst, rng = case['inst'], _random.Random(case['seed'])
    _random.seed(case['seed'])
    _np.random.seed(case['seed'])
    ids = list(inst['ids'])
    modes = {t: rng.choice([int(m) for m in inst['modes'][str(t)]]) for t in ids}
    perms = [rng.sample(ids, len(ids)) for _ in range(rng.randint(1, 3))]
    rules = [rng.choice([sg.BasePolicyMethod.SGS_READY, sg.BasePolicyMethod.SGS_READY, sg.BasePolicyMethod.SGS_STRICT]) for _ in perms]
    mk = lambda d: {i: sg.PolicyRCPSP(d, sg.PolicyMethodParams(r), p, modes) for i, (p, r) in enumerate(zip(perms, rules))}
    d = build(inst)
    pol = mk(d)[0]
    log = []
    tv = d.get_transition_value

    def record(s, a, s2):
        v = tv(s, a, s2)
        log.append((s, a, s2, v.cost))
        return v
    ends = lambda s: d.is_goal(s) or d.is_terminal(s)
    d.get_transition_value = record
    nb = rng.randint(1, 3)
    states, total, values, actions = pe.my_custom_rollout(d, d.get_initial_state(), pol)
    require([x[0] for x in log] == states[:-1] and log[-1][2] == states[-1] and [x[1] for x in log] == actions and [x[3] for x in log] == values, 'rollout: %r against the transitions made %r' % (values, [x[3] for x in log]))
    require(ends(states[-1]) and not any(ends(s) for s in states[1:-1]), 'a rollout ends at the first goal or terminal state')
    require(abs(total - sum(values) - (0 if d.is_goal(states[-1]) else 1000)) < 1e-9, 'sum of the costs %r of %r' % (total, values))
    del log[:]
    # goals reached before every task is complete
    k = case['seed'] % (len(case['inst']['ids']) + 1)
    d.is_goal = lambda s: len(s.tasks_complete) >= k
    states, total, values, actions = pe.my_custom_rollout(d, d.get_initial_state(), pol)
    require(ends(states[-1]) and not any(ends(s) for s in states[1:-1]) and len(log) == len(states) - 1, 'a rollout ends at the first goal (%d tasks complete) or terminal state' % k)
    require(abs(total - sum(values) - (0 if d.is_goal(states[-1]) else 1000)) < 1e-9, 'sum of the costs %r of %r' % (total, values))
    del d.is_goal
    del log[:]
    val, acts, preds, succs = pe.rollout_based_policy_estimation(d, pol, nb)
    runs, cur = [], []
    for x in log:
        cur.append(x)
        if ends(x[2]):
            runs.append(cur)
            cur = []
    require(len(runs) == nb and not cur, '%d rollouts, %d asked for' % (len(runs), nb))
    tot, cnt, pr, su = {}, {}, {}, {}
    for run in runs:
        for j, (s, a, s2, c) in enumerate(run):
            tot[s] = tot.get(s, 0) + sum(y[3] for y in run[j:])
            cnt[s] = cnt.get(s, 0) + 1
            pr.setdefault(s, set())
            if j:
                pr[s].add(run[j - 1][0])
            su.setdefault(s, set()).add(s2)
    require(set(val) == set(tot), 'states with an estimate')
    for s in tot:
        require(abs(val[s] - tot[s] / cnt[s]) < 1e-9, 'estimate %r, expected %r' % (val[s], tot[s] / cnt[s]))
    require({s: set(v) for s, v in preds.items()} == pr and {s: set(v) for s, v in succs.items()} == su, 'neighbours of the states visited')
    require(set(acts) == set(tot), 'actions of the states visited')
    # from here on in place
    d = build(inst)
    s0 = d.get_initial_state().copy()
    pols = mk(d)
    pol = pols[0]
    ref = build(inst)

    def run(p, s):
        first = None
        for _ in range(400):
            a = p.get_next_action(s)
            first = first or a
            s = ref.get_next_state(s, a)
            if ref.is_goal(s) or ref.is_terminal(s):
                break
        return s, first
    if inst['kind'] == 'det':
        val = pe.rollout_based_policy_estimation_fast_scheduling(d, pol, nb)[0]
        end, _ = run(mk(ref)[0], s0)
        require(len(val) == 1 and abs(list(val.values())[0] - (end.t - s0.t)) < 1e-9, 'duration %r, expected %r' % (list(val.values()), end.t - s0.t))
    known = build(inst)
    pols = mk(known)
    meta = mp.MetaPolicy(pols, d, known, nb_rollout_estimation=nb, verbose=False)
    s = ref.get_initial_state().copy()
    for _ in range(rng.randint(1, 6)):
        before = str(s)
        a = meta.get_next_action(s)
        require(str(s) == before, 'the observation changed: %s, was %s' % (s, before))
        if inst['kind'] == 'det':
            ends_ = {i: run(p, s.copy()) for i, p in mk(ref).items()}
            best = min(e.t for e, _ in ends_.values())
            ok = [str(f) for e, f in ends_.values() if e.t == best] if len(pols) > 1 else [str(f) for _, f in ends_.values()]
            require(str(a) in ok, 'action %s, rollouts end at %r' % (a, {i: (e.t, str(f)) for i, (e, f) in ends_.items()}))
        s = ref.get_next_state_distribution(s, a).sample()
        if ref.is_goal(s) or ref.is_terminal(s):
            break


class Recorder:
    """A policy that notes what it is asked."""
    def __init__(self, pol, name, log): self.pol, self.name, self.log = pol, name, log

    def __getattr__(self, k): return getattr(self.__dict__['pol'], k)

    def get_next_action(self, s):
        a = self.pol.get_next_action(s)
        self.log.append(('act', self.name, str(s), a))
        return a

    def sample_action(self, s):
        a = self.pol.sample_action(s)
        self.log.append(('act', self.name, str(s), a))
        return a


def meta(case):
    """The action of a policy whose rollouts take the least time altogether."""
    inst, rng = case['inst'], _random.Random(case['seed'])
    _random.seed(case['seed'])
    _np.random.seed(case['seed'])
    ids = list(inst['ids'])
    modes = {t: rng.choice([int(m) for m in inst['modes'][str(t)]]) for t in ids}
    d, known = build(inst), build(inst)
    log = []
    pols = {}
    for i in range(3):
        rule = rng.choice([sg.BasePolicyMethod.SGS_READY, sg.BasePolicyMethod.SGS_READY, sg.BasePolicyMethod.SGS_STRICT])
        if rng.random() < .5:
            modes = {t: rng.choice([int(m) for m in inst['modes'][str(t)]]) for t in ids}
        pols[i] = Recorder(sg.PolicyRCPSP(known, sg.PolicyMethodParams(rule), ids if rng.random() < .4 else rng.sample(ids, len(ids)), modes), i, log)
    step = known.step

    def noted(*a, **kw):
        r = step(*a, **kw)
        log.append(('time', r.observation.t))
        return r
    known.step = noted
    m = mp.MetaPolicy(pols, d, known, nb_rollout_estimation=case['nb'], verbose=False)
    ref = build(inst)
    s = ref.get_initial_state().copy()
    for _ in range(case['steps'] + 1):
        del log[:]
        start, t0 = str(s), s.t
        a = m.get_next_action(s)
        require(str(s) == start, 'the observation changed')
        firsts = [e for e in log if e[0] == 'act' and e[2] == start]
        runs = []
        for e in log:
            if e[0] == 'act' and e[2] == start:
                runs.append([e[1], e[3], None])
            elif e[0] == 'time' and runs:
                runs[-1][2] = e[1]
        done = [r for r in runs if r[2] is not None]
        require(str(a) in {str(r[1]) for r in runs}, 'action %s of none of the policies' % a)
        if done and all(sum(r[0] == i for r in done) == case['nb'] for i in pols):
            total = {i: sum(r[2] - t0 for r in done if r[0] == i) for i in pols}
            ok = {str(r[1]) for r in runs if total[r[0]] == min(total.values())}
            require(str(a) in ok, 'action %s, total durations of the rollouts %r, best %r' % (a, total, ok))
        elif inst['kind'] == 'det' and len({str(r[1]) for r in runs}) > 1:
            ends_ = {}
            for i, p in pols.items():
                z, first = s.copy(), None
                for _ in range(400):
                    b = p.pol.get_next_action(z)
                    first = first or b
                    z = ref.get_next_state(z, b)
                    if ref.is_goal(z) or ref.is_terminal(z):
                        break
                ends_[i] = (z.t, str(first))
            ok = {f for e, f in ends_.values() if e == min(x for x, _ in ends_.values())}
            require(str(a) in ok, 'action %s, rollouts end at %r' % (a, ends_))
        s = ref.get_next_state_distribution(s, a).sample()
        if ref.is_goal(s) or ref.is_terminal(s):
            break


def check(case):
    globals()[case['what']](case)
