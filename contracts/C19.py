"""Conditional tasks, on-completion conditions and the probabilities of uncertain scheduling."""
import itertools
from enum import Enum
from pyvc.contract import Registry
from contracts.sched import *
from replay.schedref import scramble
from skdecide.builders.scheduling.conditional_tasks import WithConditionalTasks, WithoutConditionalTasks

CONTRACTS = contract = Registry()
ASSUMPTIONS = ASSUME + [
    'completion with conditions: at most two tasks completing together and three distributions of up to two values each, with '
    'arbitrary probabilities; DiscreteDistribution.sample returns one of its values of positive probability (proved in C02)',
    'conditions are never removed, so a task that was considered once still exists (precondition of update_conditional_tasks)']
MBQI, FEAS_MS = False, 2000
B = 'skdecide.builders.scheduling.conditional_tasks:WithConditionalTasks.'
V = ('', '_uncertain', '_simulation')


def draws():
    """Contract of DiscreteDistribution.sample (C02): any value with positive probability."""
    old = DiscreteDistribution.sample

    def sample(self):
        c = engine.CTX
        vs = self.get_values()
        x, p = vs[c.case('drawn', list(range(len(vs)))) if len(vs) > 1 else 0]
        c.assume(as_formula(p > 0) if isinstance(p, Sym) else z3.BoolVal(p > 0))
        return x
    DiscreteDistribution.sample = sample
    return lambda: setattr(DiscreteDistribution, 'sample', old)


@contract('new conditional tasks', *[SDM + 'update_conditional_tasks' + v for v in V[1:]], setup=draws)
def _(c):
    which = c.case('variant', V[1:])
    n = c.case('states', [1, 2]) if which == '_uncertain' else 1
    ss = [state(c, 's%d' % i) for i in range(n)]
    pres = [Snap(s) for s in ss]
    there = [SetTy(INT).fresh('available%d' % i) for i in range(n)]
    for s, a in zip(ss, there):
        for x in (s.tasks_remaining.t, s.tasks_ongoing.t, s.tasks_progress.terms[0], s.tasks_complete.t):
            c.assume(z3.IsSubset(x, a.t))
    d = domain(c, base=sd.UncertainSchedulingDomain,
               get_available_tasks=lambda self, state: next(a.copy() for s, a in zip(ss, there) if s is state))
    moves = c.case('action', ['TIME_PR', 'other']) == 'TIME_PR'
    a = SchedulingAction(None, A.TIME_PR if moves else A.PAUSE, None, moves)

    def inv(lp):
        s = next((v for v in lp.locals.values() if type(v) is State), None)
        if s is None:
            raise Unsupported('state of the loop')
        pre = pres[[x is s for x in ss].index(True)]
        yield 'tasks added so far', s.tasks_remaining.t == z3.SetUnion(pre.tasks_remaining.t, lp.visited)
    c.loops.append(LoopContract(over_tasks, inv, modifies=lambda lp: [v.tasks_remaining for v in lp.locals.values() if type(v) is State],
                                name='new tasks'))
    if which == '_uncertain':
        ps = [REAL.fresh('p%d' % i) for i in range(n)]
        vals = d.update_conditional_tasks_uncertain(DiscreteDistribution(list(zip(ss, ps))), a).get_values()
        c.prove('same outcomes and probabilities', len(vals) == n and And(*[eqf(v[1], p) for v, p in zip(vals, ps)]))
        outs = [x for x, _ in vals]
    else:
        outs = [d.update_conditional_tasks_simulation(ss[0], a)]
    t = num(c.t0)
    for o, p, av in zip(outs, pres, there):
        known_at = z3.Or(sel(p.tasks_remaining, t), sel(p.tasks_ongoing, t), sel(p.tasks_progress, t), sel(p.tasks_complete, t))
        new = z3.And(z3.BoolVal(moves), sel(av, t), z3.Not(known_at))
        c.prove('tasks whose conditions hold now remain to be done', sel(o.tasks_remaining, t) == z3.Or(sel(p.tasks_remaining, t), new))
        same(c, o, p, [x for x in ALL if x != 'tasks_remaining'], 'the rest')


@contract('without conditions', SDM + 'update_conditional_tasks')
def _(c):
    s = state(c)
    pre = Snap(s)
    moves = c.case('action', ['TIME_PR', 'other']) == 'TIME_PR'
    out = domain(c).update_conditional_tasks(s, SchedulingAction(None, A.TIME_PR if moves else A.PAUSE, None, moves))
    same(c, out, pre, ALL, 'unchanged')


EXIST = DictTy(INT, SeqTy(OBJ))


def holds(E, cur, t, upto=None):
    """All the existence conditions of t (the first `upto` ones) are in cur."""
    j = z3.Int('j!q')
    n, el = z3.Select(E.terms[1], t), lambda k: z3.Select(z3.Select(E.terms[2], t), k)
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < (n if upto is None else upto)), z3.Select(cur, el(j))))


def cond_domain(c, ids, E, base=WithConditionalTasks):
    return object.__new__(type('Dom', (base,), dict(get_tasks_ids=lambda self: ids, _get_task_existence_conditions=lambda self: E)))


def built(lp):
    """The set the loop fills."""
    vs = [v for k, v in lp.locals.items() if k in lp.mut and isinstance(v, (set, SymSet))]
    if len(vs) != 1:
        raise Unsupported('set of tasks')
    v = vs[0]
    return v.t if type(v) is SymSet else (z3.K(z3.IntSort(), z3.BoolVal(False)) if not v else _no())


def _no():
    raise Unsupported('set of tasks')


def over_ids(c, E, cur, unconditional=False):
    t = z3.Int('t!q')

    def inv(lp):
        got = built(lp)
        if unconditional:
            ok = lambda x: z3.Or(z3.Not(z3.Select(E.terms[0], x)), z3.Select(E.terms[1], x) == 0)
        else:
            ok = lambda x: z3.Or(z3.Not(z3.Select(E.terms[0], x)), holds(E, cur, x))
        yield 'selected so far', FA(lp, [t], z3.Select(got, t) == z3.And(z3.Select(lp.visited, t), ok(t)))
    yield LoopContract(lambda lp: type(lp.coll) is SymSet, inv, types=lambda lp, nm, v: SetTy(INT) if isinstance(v, (set, SymSet)) else None,
                       name='tasks')

    def inv2(lp):
        flags = [(k, v) for k, v in lp.locals.items() if k in lp.bound and (isinstance(v, bool) or type(v) is SymBool)]
        if len(flags) != 1:
            raise Unsupported('flag of the conditions')
        f = as_formula(flags[0][1]) if type(flags[0][1]) is SymBool else z3.BoolVal(flags[0][1])
        j, el = z3.Int('j!q'), lp.seq.elem
        yield 'the conditions so far hold', f == z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < lp.i), z3.Select(cur, num_obj(el(j)))))
    yield LoopContract(is_seq, inv2, types=lambda lp, nm, v: BOOL if isinstance(v, bool) else None, name='conditions')


def num_obj(x):
    return x.t if isinstance(x, Sym) else x


@contract('available tasks', B + 'get_available_tasks', B + '_get_available_tasks')
def _(c):
    ids, E, cur = SetTy(INT).fresh('ids'), EXIST.fresh('existence'), SetTy(OBJ).fresh('current')
    k = INT.fresh('any_task')
    c.assume(z3.ForAll([z3.Int('t!q')], z3.Select(E.terms[1], z3.Int('t!q')) >= 0))
    d = cond_domain(c, ids, E)
    s = type('S', (), {})()
    s._current_conditions = cur
    c.loops.extend(over_ids(c, E, cur.t))
    got = d.get_available_tasks(s)
    c.prove('tasks all of whose conditions hold', Iff(got.has(k) if type(got) is SymSet else k in got,
                                                    And(ids.has(k), Or(Not(E.has(k)), holds(E, cur.t, num(k))))))


@contract('unconditional tasks', B + 'get_all_unconditional_tasks', B + '_get_all_unconditional_tasks')
def _(c):
    ids, E = SetTy(INT).fresh('ids'), EXIST.fresh('existence')
    k = INT.fresh('any_task')
    c.assume(z3.ForAll([z3.Int('t!q')], z3.Select(E.terms[1], z3.Int('t!q')) >= 0))
    c.loops.extend(over_ids(c, E, None, True))
    got = cond_domain(c, ids, E).get_all_unconditional_tasks()
    c.prove('tasks without conditions', Iff(got.has(k) if type(got) is SymSet else k in got,
                                            And(ids.has(k), Or(Not(E.has(k)), z3.Select(E.terms[1], num(k)) == 0))))


@contract('no conditional tasks', 'skdecide.builders.scheduling.conditional_tasks:WithoutConditionalTasks._get_task_existence_conditions',
          'skdecide.builders.scheduling.conditional_tasks:WithoutConditionalTasks._get_task_on_completion_added_conditions')
def _(c):
    d = object.__new__(type('Dom', (WithoutConditionalTasks,), dict(get_tasks_ids=lambda self: [1, 2, 3])))
    s = type('S', (), dict(_current_conditions=set()))()
    c.prove('every task exists', set(d.get_available_tasks(s)) == {1, 2, 3} == set(d.get_all_unconditional_tasks()))
    c.prove('nothing is added', not d.get_task_on_completion_added_conditions())


@contract('sampled conditions', B + 'sample_completion_conditions', B + 'add_to_current_conditions', setup=draws)
def _(c):
    n = c.case('distributions', [0, 1, 2, 3])
    k = INT.fresh('task')
    vals = [[OBJ.fresh('v%d%d' % (i, j)) for j in range(2)] for i in range(n)]
    ps = [[REAL.fresh('p') for _ in v] for v in vals]
    added = Tab(lambda t: (c.prove('of this task', eqf(t, k)), [DiscreteDistribution(list(zip(v, p))) for v, p in zip(vals, ps)])[1])
    d = object.__new__(type('Dom', (WithConditionalTasks,), dict(_get_task_on_completion_added_conditions=lambda self: added)))
    pos = lambda i, x: Or(*[And(eqf(x, v), p > 0) for v, p in zip(vals[i], ps[i])])
    if c.case('query', ['sample', 'add']) == 'sample':
        got = d.sample_completion_conditions(k)
        c.prove('one condition of each distribution', len(got) == n and And(*[pos(i, x) for i, x in enumerate(got)]))
        return
    s = type('S', (), {})()
    s._current_conditions = SetTy(OBJ).fresh('current')
    pre, x = s._current_conditions.t, OBJ.fresh('any_condition')
    d.add_to_current_conditions(k, s)
    now = s._current_conditions
    c.prove('kept', Implies(z3.Select(pre, x.t), now.has(x)))
    c.prove('only possible conditions are added', Implies(now.has(x), Or(z3.Select(pre, x.t), *[pos(i, x) for i in range(n)])))
    for i in range(n):
        c.prove('one condition of each distribution', Or(*[And(p > 0, now.has(v)) for v, p in zip(vals[i], ps[i])]))


def plain():
    s = State(task_ids=[1, 2, 3, 4], tasks_available={4})
    s.t = 6
    s.resource_availability, s.resource_used = {'a': 9}, {'a': 6}
    s._current_conditions = {'old'}
    for k in (1, 2, 3):
        s.tasks_ongoing.add(k)
        s.tasks_mode[k], s.tasks_progress[k] = 1, .25
        s.resource_used_for_task[k] = {'a': k}
        s.tasks_details[k].start, s.tasks_details[k].sampled_duration = 1, 5
    return s


def dump(v):
    if isinstance(v, dict):
        return {k: dump(x) for k, x in v.items()}
    if isinstance(v, (set, list, tuple)):
        return [dump(x) for x in (sorted(v, key=repr) if isinstance(v, set) else v)]
    return dump({k: x for k, x in vars(v).items() if k != 'resources'}) if hasattr(v, '__dict__') and not isinstance(v, Enum) else v


def apart(c, states):
    """Changing one of the states leaves the others as they are."""
    for k, x in enumerate(states):
        rest = [y for j, y in enumerate(states) if j != k]
        was = [dump(y) for y in rest]
        scramble(x)
        c.prove('outcomes do not affect one another', [dump(y) for y in rest] == was)


SHAPES = {'none': {}, 'one': {1: [['x', 'y']]}, 'certain': {1: [['x']]}, 'two of a task': {1: [['x', 'y'], ['z', 'w']]},
          'two tasks': {1: [['x', 'y']], 2: [['z', 'w']]}, 'three': {1: [['x', 'y'], ['z']], 2: [['u', 'v']]},
          'same value': {1: [['x', 'y'], ['x', 'z']]}, 'of a task still going on': {3: [['x', 'y']]}}


@contract('conditions of completed tasks', *[SDM + 'update_complete_tasks' + v for v in V[1:]], setup=draws)
def _(c):
    which = c.case('variant', V[1:])
    s = plain()
    done = c.case('completing', [(), (1,), (1, 2), (2,)])
    for k in done:
        s.tasks_progress[k] = 1.
    shape = SHAPES[c.case('conditions', sorted(SHAPES))]
    added = {k: [DiscreteDistribution([(v, REAL.fresh('p_' + v)) for v in dist]) for dist in dists] for k, dists in shape.items()}
    d = domain(c, base=sd.UncertainSchedulingDomain, is_renewable=lambda self, r: True, get_task_on_completion_added_conditions=lambda self: added)
    p = REAL.fresh('prob')
    want = {}
    for combo in itertools.product(*[x.get_values() for k in done for x in added.get(k, [])]):
        q = p
        for _, pv in combo:
            q = q * pv
        conds = frozenset({'old'} | {v for v, _ in combo})
        want[conds] = want[conds] + q if conds in want else q
    if which == '_simulation':
        c.assume(eqf(p, 1))
        out = d.update_complete_tasks_simulation(s)
        vals = [(out, 1)]
        c.prove('a possible outcome', Or(*[want[k] > 0 for k in want if k == frozenset(out._current_conditions)]))
    else:
        vals = d.update_complete_tasks_uncertain(DiscreteDistribution([(s, p)])).get_values()
        got = {}
        for x, q in vals:
            k = frozenset(x._current_conditions)
            got[k] = got[k] + q if k in got else q
        c.prove('outcomes', set(got) == set(want))
        c.prove('probability of every combination of conditions', And(*[eqf(got[k], want[k]) for k in want]))
    for x, _ in vals:
        c.prove('the tasks complete in every outcome', x.tasks_complete == set(done) and x.tasks_ongoing == {1, 2, 3} - set(done)
                and x.resource_used['a'] == 6 - sum(done) and all(x.tasks_details[k].end == (7 if k in done else None) for k in (1, 2, 3)))
    apart(c, [x for x, _ in vals])


@contract('outcomes of starting', SDM + 'update_start_tasks_uncertain', setup=draws)
def _(c):
    s = plain()
    s.tasks_remaining.add(4)
    n = c.case('durations', [1, 2, 3])
    d = domain(c, base=sd.UncertainSchedulingDomain, is_renewable=lambda self, r: True,
               get_resource_used=lambda self, task, mode, resource_unit_names, time_since_start: {'a': 2},
               check_if_skills_are_fulfilled=lambda self, *a, **k: True,
               get_task_duration_distribution=lambda self, task, mode=1, progress_from=0., multivariate_settings=None:
               DiscreteDistribution([(i + 1, 1 / n) for i in range(n)]))
    vals = d.update_start_tasks_uncertain(s, SchedulingAction(4, A.START, 1, False, None)).get_values()
    c.prove('one outcome per duration', [x.tasks_details[4].sampled_duration for x, _ in vals] == list(range(1, n + 1))
            and all(x.resource_used_for_task[4] == {'a': 2} for x, _ in vals))
    apart(c, [x for x, _ in vals])


@contract('conditions of a task of duration zero', *[SDM + 'update_complete_dummy_tasks' + v for v in V[1:]], setup=draws)
def _(c):
    which = c.case('variant', V[1:])
    n = c.case('outcomes of the start', [1, 2]) if which == '_uncertain' else 1
    ss = [plain() for _ in range(n)]
    started = c.case('task', [1, 2, 3])
    zero = [c.case('duration', ['zero', 'longer']) == 'zero' for _ in ss]
    act = c.case('action', ['START', 'PAUSE'])
    for i, (s, z) in enumerate(zip(ss, zero)):
        s._current_conditions = {'old%d' % i}
        s.tasks_details[started].sampled_duration = 0 if z else 5
    zero = [z and act == 'START' for z in zero]
    shape = SHAPES[c.case('conditions', sorted(SHAPES))]
    added = {k: [DiscreteDistribution([(v, REAL.fresh('p_' + v)) for v in dist]) for dist in dists] for k, dists in shape.items()}
    d = domain(c, base=sd.UncertainSchedulingDomain, is_renewable=lambda self, r: True, get_task_on_completion_added_conditions=lambda self: added)
    ps = [REAL.fresh('prob%d' % i) for i in range(n)]
    want = {}
    for i, (z, p) in enumerate(zip(zero, ps)):
        for combo in itertools.product(*[x.get_values() for x in added.get(started, []) if z]):
            q = p
            for _, pv in combo:
                q = q * pv
            conds = frozenset({'old%d' % i} | {v for v, _ in combo})
            want[conds] = want[conds] + q if conds in want else q
    a = SchedulingAction(None if act == 'TIME_PR' else started, A[act], 1 if act == 'START' else None, False, None)
    if which == '_simulation':
        c.assume(eqf(ps[0], 1))
        vals = [(d.update_complete_dummy_tasks_simulation(ss[0], a), 1)]
        c.prove('a possible outcome', Or(*[want[k] > 0 for k in want if k == frozenset(vals[0][0]._current_conditions)]))
    else:
        vals = d.update_complete_dummy_tasks_uncertain(DiscreteDistribution(list(zip(ss, ps))), a).get_values()
        got = {}
        for x, q in vals:
            k = frozenset(x._current_conditions)
            got[k] = got[k] + q if k in got else q
        c.prove('outcomes', set(got) == set(want))
        c.prove('probability of every combination of conditions', And(*[eqf(got[k], want[k]) for k in want]))
    for x, _ in vals:
        z = zero[1 if 'old1' in x._current_conditions else 0]
        c.prove('the task completes in every outcome in which it takes no time', x.tasks_complete == ({started} if z else set())
                and x.tasks_ongoing == {1, 2, 3} - x.tasks_complete and x.tasks_details[started].end == (6 if z else None)
                and x.resource_used['a'] == 6 - (started if z else 0))
    apart(c, [x for x, _ in vals])


@contract('several states', SDM + 'update_complete_tasks_uncertain')
def _(c):
    ss = [plain(), plain()]
    ps = [REAL.fresh('p0'), REAL.fresh('p1')]
    done = [c.case('completing in the first', [(), (1,)]), c.case('in the second', [(), (1,), (2,)])]
    for s, ds, n in zip(ss, done, ('first', 'second')):
        s._current_conditions = {n}
        for k in ds:
            s.tasks_progress[k] = 1.
    q = [REAL.fresh('q0'), REAL.fresh('q1')]
    added = {1: [DiscreteDistribution([('x', q[0]), ('y', q[1])])]}
    d = domain(c, base=sd.UncertainSchedulingDomain, is_renewable=lambda self, r: True, get_task_on_completion_added_conditions=lambda self: added)
    vals = d.update_complete_tasks_uncertain(DiscreteDistribution(list(zip(ss, ps)))).get_values()
    want = {}
    for n, p, ds in zip(('first', 'second'), ps, done):
        if 1 in ds:
            want[frozenset({n, 'x'})], want[frozenset({n, 'y'})] = p * q[0], p * q[1]
        else:
            want[frozenset({n})] = p
    c.prove('each state has its own outcomes', {frozenset(x._current_conditions) for x, _ in vals} == set(want) and len(vals) == len(want))
    c.prove('probability of the state times that of the condition', And(*[eqf(v[1], want[frozenset(v[0]._current_conditions)]) for v in vals]))


@contract('starting', *[SDM + 'update_start_tasks' + v for v in V])
def _(c): start(c, TIME)
