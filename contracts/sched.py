"""Symbolic scheduling states and the contracts of the functions that transform them.

A state is a real `State` whose sets and dictionaries are symbolic (any tasks, any resources, any numbers); the Task
records are views on dictionaries indexed by task.  The characteristics given by the domain author are uninterpreted
functions.  spec_* build the post-state each contract promises; `aspects` selects what a property proves of it."""
import copy, sys
from pyvc import engine
from pyvc.engine import *
from skdecide.builders.scheduling import scheduling_domains as sd
from skdecide.builders.scheduling.scheduling_domains_modelling import State, SchedulingAction, SchedulingActionEnum as A
from skdecide.builders.scheduling.task import Task
from skdecide.core import DiscreteDistribution

RES = OBJ
USE = DictTy(RES, INT)
SEQ = SeqTy(INT)
SDM = 'skdecide.builders.scheduling.scheduling_domains:SchedulingDomain.'
ASSUME = ['numbers are mathematical (progress is a real number, the floating-point rounding of 1/duration is not modelled)',
          'dictionaries and sets have no order', 'Task records are accessed through their attributes and get_task_active_time']


class Seqs:
    """details[task].paused / .resumed"""
    def __init__(self, d, k):
        self.d, self.k = d, k

    def append(self, v):
        s = self.d.at(self.k)
        s = SymSeq(s.n, s.elem, INT, list, arrays=SEQ.unwrap(s))
        s.append(v)
        self.d[self.k] = s

    def seq(self):
        return self.d.at(self.k)


def _opt(name):
    def get(self):
        d = self.d.f[name]
        return d.at(self.k) if self.k in d else None

    def put(self, v):
        if v is None:
            del self.d.f[name][self.k]
        else:
            self.d.f[name][self.k] = v
    return property(get, put)


class View(Task):
    """The record of one task."""
    def __init__(self, d, k):
        object.__setattr__(self, 'd', d)
        object.__setattr__(self, 'k', k)
    start, end, sampled_duration, mode = _opt('start'), _opt('end'), _opt('dur'), _opt('tmode')
    paused = property(lambda s: Seqs(s.d.f['paused'], s.k))
    resumed = property(lambda s: Seqs(s.d.f['resumed'], s.k))
    resources = property(lambda s: None, lambda s, v: None)

    def get_task_active_time(self, t=None):
        return self.d.active(self.k, t)


class Details:
    FIELDS = dict(start=INT, end=INT, dur=INT, tmode=INT, paused=SEQ, resumed=SEQ)

    def __init__(self, f=None):
        self.f = f if f is not None else {n: DictTy(INT, t).fresh(n) for n, t in self.FIELDS.items()}

    def __getitem__(self, k):
        return View(self, k)

    def __deepcopy__(self, memo):
        return Details({n: d.copy() for n, d in self.f.items()})
    __copy__ = lambda self: self.__deepcopy__({})

    def active(self, k, t):
        """Contract of Task.get_task_active_time (proved in C16): a function of the record, 0 if never started."""
        f = self.f
        kt = num(k) if not isinstance(k, z3.ExprRef) else k
        args = [f['start'].has(k), f['start'].at(k), f['end'].has(k), f['end'].at(k)]
        for n in ('paused', 'resumed'):
            args += [SymInt(f[n].at(k).n)]
        raw = [z3.Select(a, kt) for n in ('start', 'end', 'paused', 'resumed') for a in f[n].terms] + [num(t)]
        fn = z3.Function('active_time', *[x.sort() for x in raw], z3.IntSort())
        v = fn(*raw)
        engine.CTX.assume(z3.Implies(z3.Not(f['start'].has(k)), v == 0))
        engine.CTX.assume(v >= 0)
        return SymInt(v)


FIELDS = dict(tasks_remaining=SetTy(INT), tasks_ongoing=SetTy(INT), tasks_complete=SetTy(INT), tasks_paused=SetTy(INT),
              tasks_progress=DictTy(INT, REAL), tasks_mode=DictTy(INT, INT), resource_availability=USE, resource_used=USE,
              resource_used_for_task=DictTy(INT, USE), _current_conditions=SetTy(OBJ))
U = engine.U
TYPES = z3.Const('resource_types', z3.ArraySort(U, z3.BoolSort()))      # the names of the resource types
NONE = z3.K(U, z3.BoolVal(False))


def state(c, name='s', tasks=()):
    """An arbitrary state; its invariant is assumed of an arbitrary task (and of the given ones: see known)."""
    s = object.__new__(State)
    s.t = INT.fresh(name + '_t')
    s.task_ids = ()
    for f, ty in FIELDS.items():
        setattr(s, f, ty.fresh(name + '_' + f))
    s.resource_to_task = {}
    s.tasks_details = Details()
    for f in wf_state(s):
        c.assume(f)
    c.t0 = INT.fresh('any_task')
    known(c, s, c.t0)
    return s


def sel(x, k):
    return z3.Select(x.t if type(x) is SymSet else x.terms[0], num(k) if not isinstance(k, z3.ExprRef) else k)


def val(d, k):
    return z3.Select(d.terms[1], k)


def wf_state(s):
    """State-wide part of the invariant."""
    yield s.resource_used.terms[0] == s.resource_availability.terms[0]
    yield s.resource_used_for_task.terms[0] == s.tasks_ongoing.t
    yield z3.IsSubset(TYPES, s.resource_used.terms[0])


def wf_task(s, k):
    """Invariant of every state of a scheduling domain, at one task."""
    R, O, C, P = (sel(x, k) for x in (s.tasks_remaining, s.tasks_ongoing, s.tasks_complete, s.tasks_paused))
    d = s.tasks_details.f
    kt = num(k) if not isinstance(k, z3.ExprRef) else k
    row = z3.Select(s.resource_used_for_task.terms[1], kt)
    yield z3.AtMost(R, O, C, P, 1)
    yield z3.Implies(z3.Or(O, P), z3.And(sel(s.tasks_progress, k), sel(s.tasks_mode, k), sel(d['start'], k), sel(d['dur'], k),
                                         z3.Not(sel(d['end'], k))))
    yield z3.Implies(R, z3.And(z3.Not(sel(d['start'], k)), z3.Not(sel(d['dur'], k)), z3.Not(sel(d['end'], k))))
    yield z3.And(*[z3.And(z3.Select(d[n].terms[1], kt) >= 0, sel(d[n], k)) for n in ('paused', 'resumed')])
    yield z3.Implies(O, z3.And(z3.IsSubset(row, s.resource_used.terms[0]), z3.IsSubset(TYPES, row)))


def known(c, s, k):
    for f in wf_task(s, k):
        c.assume(f)


def keeps_invariant(c, s):
    """The state invariant holds of s (at an arbitrary task)."""
    c.prove('state invariant', z3.And(*wf_state(s), *wf_task(s, c.t0)))


class Snap:
    """Frozen copy of the parts of a state."""
    def __init__(self, s):
        self.t = s.t
        for f in FIELDS:
            setattr(self, f, getattr(s, f).copy())
        self.tasks_details = copy.deepcopy(s.tasks_details)


LIFE = ['tasks_remaining', 'tasks_ongoing', 'tasks_complete', 'tasks_paused', 'tasks_mode', 'start', 'paused', 'resumed', 'end']
RESO = ['resource_availability', 'resource_used', 'resource_used_for_task', 'tasks_ongoing']
TIME = ['t', 'tasks_progress', 'end', 'dur', 'tasks_complete', 'start']
ALL = sorted(set(LIFE + RESO + TIME + ['_current_conditions']))


def part(s, n):
    return s.tasks_details.f[n] if n in Details.FIELDS else getattr(s, n)


def eq_at(a, b, k):
    """Two parts agree at one task (or resource)."""
    if type(a) is SymSet:
        return sel(a, k) == sel(b, k)
    kt = num(k) if not isinstance(k, z3.ExprRef) else k
    ta, tb = a.terms, b.terms
    V = a.ty.V
    if type(V) is SeqTy:
        i = z3.Int('i!e')
        same = z3.And(z3.Select(ta[1], kt) == z3.Select(tb[1], kt), z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < z3.Select(ta[1], kt)), z3.Select(z3.Select(ta[2], kt), i) == z3.Select(z3.Select(tb[2], kt), i))))
    elif type(V) is DictTy:
        y = z3.Const('y!e', U)
        S = lambda m, i: z3.Select(z3.Select(m[i], kt), y)
        same = z3.ForAll([y], z3.And(S(ta, 1) == S(tb, 1), z3.Implies(S(ta, 1), S(ta, 2) == S(tb, 2))))
    else:
        same = z3.Select(ta[1], kt) == z3.Select(tb[1], kt)
    return z3.And(sel(a, k) == sel(b, k), z3.Implies(sel(a, k), same))


def eq_part(c, a, b):
    if type(a) in (SymDict, SymSet):
        k = getattr(a, 'k', None)
        k = a.ty.k if type(a) is SymDict else a.k
        return eq_at(a, b, c.t0 if k == z3.IntSort() else z3.Const(c.fresh_name('any_r'), k))
    return eqf(a, b)


def same(c, got, exp, parts, what):
    for n in parts:
        c.prove('%s: %s' % (what, n.replace('tasks_', '').replace('_', ' ').strip()), eq_part(c, part(got, n), part(exp, n)))


def pointwise(ty, name, dom, f):
    """A dictionary with the given domain and values f(key) (fresh array, defined pointwise)."""
    d = ty.fresh(name)
    x = z3.Const('x!pw', ty.k)
    engine.CTX.assume(z3.ForAll([x], z3.Select(d.terms[1], x) == f(x), patterns=[z3.Select(d.terms[1], x)]))
    d.terms = [dom, d.terms[1]]
    return d


# ------------------------------------------------------------------------------------ characteristics of the domain
need = func('need', INT, INT, RES, INT, ret=INT)          # need(task, mode, resource type, time since start)
renewable = func('is_renewable', RES, ret=BOOL)
returned = func('non_renewable_returned', INT, ret=BOOL)
duration = func('duration', INT, INT, ret=INT)
quantity = func('quantity', RES, INT, ret=INT)
pace = func('task_progress', INT, INT, INT, INT, INT, ret=REAL)


def units_set(units):
    return NONE if units is None or type(units) is set and not units else units.t


def use_dict(c, task, mode, units, at):
    """Contract of get_resource_used (proved in C15): every resource type with the need of the mode at that time, and one of
    each named unit."""
    d = USE.fresh('use')
    x = z3.Const('r!q', U)
    u = units_set(units)
    dom = z3.SetUnion(TYPES, u) if units is not None else TYPES
    c.assume(z3.ForAll([x], z3.Select(d.terms[1], x) == z3.If(z3.Select(u, x), z3.IntVal(1), num(need(task, mode, SymObj(x), at))),
                       patterns=[z3.Select(d.terms[1], x)]))
    d.terms = [dom, d.terms[1]]
    return d


class Tab:
    """Lookup given by the author."""
    def __init__(self, f): self.f = f
    def __getitem__(self, k): return self.f(k)
    def __contains__(self, k): return True


def domain(c, base=None, **over):
    """A domain whose author-given characteristics are arbitrary."""
    base = base or sd.DeterministicSchedulingDomain
    body = dict(
        is_renewable=lambda self, r: renewable(r),
        get_resource_renewability=lambda self: Tab(renewable),
        get_task_paused_non_renewable_resource_returned=lambda self: Tab(returned),
        get_latest_sampled_duration=lambda self, task, mode=1, progress_from=0.: duration(task, mode),
        check_if_skills_are_fulfilled=lambda self, task, mode, resource_used: skills_ok(task, mode, resource_used),
        get_resource_used=lambda self, task, mode, resource_unit_names, time_since_start: use_dict(
            engine.CTX, task, mode, resource_unit_names, time_since_start),
        inplace_environment=False)
    body.update(over)
    return object.__new__(type('Dom', (base,), body))


def skills_ok(task, mode, used):
    if type(used) is not SymDict:
        return True
    return SymBool(z3.Function('skills_ok', z3.IntSort(), z3.IntSort(), *[t.sort() for t in used.terms], z3.BoolSort())(
        num(task), num(mode), *used.terms))


def mkaction(c, kind, s, mode='any'):
    """An arbitrary action of the kind, meaningful in s."""
    if kind == 'TIME_PR':
        return SchedulingAction(None, A.TIME_PR, None, True)
    k = INT.fresh('task')
    known(c, s, k)
    units = None
    if kind in ('START', 'RESUME') and c.case('units', ['none', 'some']) == 'some':
        units = SetTy(RES).fresh('units')
        c.assume(z3.IsSubset(units.t, s.resource_used.terms[0]))
    m = None
    if kind == 'START' or (kind == 'RESUME' and c.case('mode', ['given', 'previous']) == 'given'):
        m = INT.fresh('mode')
    c.assume({'START': s.tasks_remaining, 'RESUME': s.tasks_paused, 'PAUSE': s.tasks_ongoing}[kind].has(k))
    return SchedulingAction(k, A[kind], m, False, units)


# --------------------------------------------------------------------------------------------------- loop contracts
def is_use(lp):
    """A loop over a consumption (resource -> amount), its keys or its items."""
    d = lp.coll
    return type(d) is SymDict and d.ty.k == U and type(d.ty.V) is type(INT)


def owner(lp, s):
    """The state whose use the loop updates: the copy the function works on, if it made one."""
    return next((v for v in lp.entry_locals.values() if type(v) is State and v is not s), s)


def res_loop(s, sign, cond, name):
    """for res in consumption: used[res] +/-= consumption[res] (if cond(res))"""
    def inv(lp):
        u = owner(lp, s).resource_used
        if lp.phase == 'establish':
            lp.o0 = u.copy()
        o, src = lp.o0, lp.src_terms
        r = z3.Const('r!q', U)
        amount = z3.If(z3.And(z3.Select(lp.visited, r), cond(SymObj(r), lp)), z3.Select(src[1], r), 0)
        yield 'known resources', u.terms[0] == o.terms[0]
        yield 'use so far', FA(lp, [r], z3.Select(u.terms[1], r) == z3.Select(o.terms[1], r) + sign * amount,
                               [z3.Select(u.terms[1], r)])
    return LoopContract(is_use, inv, modifies=lambda lp: [owner(lp, s).resource_used], name=name)


def released(c, s, consumption, cond, sign=-1):
    """Promised resource_used after giving back (or taking) a consumption."""
    o, src = s.resource_used, consumption.terms
    return pointwise(USE, 'used', o.terms[0], lambda r: z3.Select(o.terms[1], r) + z3.If(
        z3.And(z3.Select(src[0], r), cond(SymObj(r))), sign * z3.Select(src[1], r), 0))


def true(r, lp=None): return z3.BoolVal(True)
def renews(r, lp=None): return as_formula(renewable(r))


# ---------------------------------------------------------------------------------------------------------- contracts
def pause(c, parts):
    s = state(c)
    d = domain(c)
    a = mkaction(c, 'PAUSE', s)
    k = a.task
    gives = lambda r, lp=None: z3.Or(as_formula(renewable(r)), as_formula(returned(k)))
    e = Snap(s)
    e.resource_used = released(c, s, e.resource_used_for_task.at(k), gives)
    e.resource_used_for_task.pop(k)
    e.tasks_ongoing.remove(k)
    e.tasks_paused.add(k)
    e.tasks_details[k].paused.append(s.t)
    c.loops.append(res_loop(s, -1, gives, 'release'))
    which = c.case('variant', ['', '_uncertain', '_simulation'])
    out = getattr(d, 'update_pause_tasks' + which)(s, a)
    same(c, out, e, parts, 'paused')
    keeps_invariant(c, out)


def can_start(s, use, ok):
    r = z3.Const('r!q', U)
    return z3.And(z3.Not(z3.Exists([r], z3.And(z3.Select(use.terms[0], r),
                                               val(use, r) > val(s.resource_availability, r) - val(s.resource_used, r)))), ok)


def take(c, s, e, k, use):
    e.resource_used = released(c, s, use, true, 1)
    e.resource_used_for_task[k] = use
    e.tasks_ongoing.add(k)


def checked_use(task, mode, units, at, want, use):
    """Stub of get_resource_used: its contract applied to the arguments of the caller."""
    c = engine.CTX
    same_args = z3.And(eqf(task, want[0]), eqf(mode, want[1]), eqf(at, want[3]))
    if units is want[2] and c.branch(same_args):
        return use.copy()
    return use_dict(c, task, mode, units, at)


def within_capacity(c, pre, out, parts):
    """No start or resume takes a resource above its availability."""
    if 'resource_used' in parts:
        r = z3.Const(c.fresh_name('any_r'), U)
        over = lambda s: val(s.resource_used, r) > val(s.resource_availability, r)
        c.assume(z3.Implies(z3.Select(TYPES, r), sel(pre.resource_used, r)))
        c.prove('never above the availability', z3.Implies(z3.And(sel(pre.resource_used, r), z3.Not(over(pre))), z3.Not(over(out))))


def resume(c, parts):
    s = state(c)
    d = domain(c)
    a = mkaction(c, 'RESUME', s)
    k = a.task
    m = a.mode if a.mode is not None else s.tasks_mode.at(k)
    pre = Snap(s)
    at = s.tasks_details.active(k, s.t)
    use = use_dict(c, k, m, a.resource_unit_names, at)
    type(d).get_resource_used = lambda self, task, mode, resource_unit_names, time_since_start: checked_use(
        task, mode, resource_unit_names, time_since_start, (k, m, a.resource_unit_names, at), use)
    ok = as_formula(skills_ok(k, m, use))
    exp = Snap(s)
    take(c, s, exp, k, use)
    exp.tasks_paused.remove(k)
    exp.tasks_details[k].resumed.append(s.t)
    c.loops.append(res_loop(s, 1, true, 'take'))
    which = c.case('variant', ['', '_uncertain', '_simulation'])
    possible = c.branch(can_start(s, use, ok))
    out = getattr(d, 'update_resume_tasks' + which)(s, a)
    within_capacity(c, pre, out, parts)
    same(c, out, exp if possible else pre, parts, 'resumed' if possible else 'refused')
    keeps_invariant(c, out)


def start(c, parts):
    s = state(c)
    kind = c.case('variant', ['', '_simulation', '_uncertain'])
    d = domain(c)
    a = mkaction(c, 'START', s)
    k, m = a.task, a.mode
    pre = Snap(s)
    use = use_dict(c, k, m, a.resource_unit_names, 0)
    type(d).get_resource_used = lambda self, task, mode, resource_unit_names, time_since_start: checked_use(
        task, mode, resource_unit_names, time_since_start, (k, m, a.resource_unit_names, 0), use)
    ok = as_formula(skills_ok(k, m, use))

    def expect(dur):
        exp = Snap(s)
        take(c, s, exp, k, use)
        exp.tasks_remaining.remove(k)
        exp.tasks_mode[k] = m
        exp.tasks_progress[k] = 0.
        exp.tasks_details[k].start = s.t
        exp.tasks_details[k].sampled_duration = dur
        return exp
    c.loops.append(res_loop(s, 1, true, 'take'))
    if kind != '_uncertain':
        exp = expect(duration(k, m))
        possible = c.branch(can_start(s, use, ok))
        out = getattr(d, 'update_start_tasks' + kind)(s, a)
        within_capacity(c, pre, out, parts)
        same(c, out, exp if possible else pre, parts, 'started' if possible else 'refused')
        keeps_invariant(c, out)
        return
    n = c.case('durations', [1, 2, 3])
    ds = [INT.fresh('d%d' % i) for i in range(n)]
    ps = [REAL.fresh('p%d' % i) for i in range(n)]
    exps = [expect(x) for x in ds]
    type(d).get_task_duration_distribution = lambda self, task, mode=1, progress_from=0., multivariate_settings=None: (
        engine.CTX.prove('durations of the task in the mode', And(eqf(task, k), eqf(mode, m))),
        DiscreteDistribution(list(zip(ds, ps))))[1]
    possible = c.branch(can_start(s, use, ok))
    vals = d.update_start_tasks_uncertain(s, a).get_values()
    same(c, s, pre, ALL, 'the given state')
    if not possible:
        c.prove('one outcome', len(vals) == 1 and vals[0][1] == 1)
        same(c, vals[0][0], pre, parts, 'refused')
        return
    c.prove('an outcome per duration', len(vals) == n)
    for i, (x, p) in enumerate(vals):
        within_capacity(c, pre, x, parts)
        same(c, x, exps[i], parts, 'started')
        c.prove('probability of the duration', eqf(p, ps[i]))
        keeps_invariant(c, x)


# ------------------------------------------------------------------------------------------- progress of time
INTSET = z3.ArraySort(z3.IntSort(), z3.BoolSort())


def cs(tasks, uft, r):
    """Sum over a set of tasks of what each uses of resource r (unfolded where the set or a row changes)."""
    m = uft.terms
    f = z3.Function('use_of_tasks', INTSET, m[1].sort(), m[2].sort(), U, z3.IntSort())
    return f(tasks, m[1], m[2], r)


def amount(uft, t, r):
    m = uft.terms
    return z3.If(z3.Select(z3.Select(m[1], t), r), z3.Select(z3.Select(m[2], t), r), 0)


def without(c, tasks, uft, t):
    """definition of the sum at tasks = (tasks without t) + t"""
    r = z3.Const('r!q', U)
    rest = z3.Store(tasks, t, False)
    f = cs(tasks, uft, r)
    c.assume(z3.Implies(z3.Select(tasks, t), z3.ForAll([r], f == cs(rest, uft, r) + amount(uft, t, r), patterns=[f])))


def FA(lp, xs, body, pats=()):
    """Universally quantified invariant; trigger patterns only where it is assumed (of fresh arrays)."""
    return z3.ForAll(xs, body, patterns=list(pats)) if lp.phase == 'assume' and pats else z3.ForAll(xs, body)


def is_seq(lp):
    return type(lp.coll) is SymSeq


def over_tasks(lp, *words):
    return type(lp.coll) is SymSet and lp.coll.k == z3.IntSort() and (not words or any(w in lp.fn() for w in words))


def LIMIT():
    return z3.RealVal('0.9999')


def complete_loops(c, s, pre):
    """Contracts of the loops of update_complete_tasks*: collect the finished tasks, then complete each."""
    g = dict(pos=None)
    p0, O0, C0 = pre.tasks_progress, pre.tasks_ongoing.t, pre.tasks_complete.t
    t, j = z3.Int('t!q'), z3.Int('j!q')
    fin = lambda x: z3.And(z3.Select(O0, x), val(p0, x) >= LIMIT())

    def collected(lp):
        ls = [v for k, v in lp.locals.items() if k in lp.mut and isinstance(v, list)]
        if not ls:
            raise Unsupported('no list of finished tasks')
        return ls[0]

    def inv1(lp):
        tmp = collected(lp)
        if lp.phase == 'establish':
            g['pos'] = z3.K(z3.IntSort(), z3.IntVal(-1))
        elif lp.phase == 'assume':
            g['pos'] = z3.Const(c.fresh_name('pos'), z3.ArraySort(z3.IntSort(), z3.IntSort()))
            if lp.mode == 0:
                g['n0'] = tmp.n
                known_pre(c, pre, SymInt(lp.x))
        elif lp.phase == 'preserve':
            g['pos'] = z3.Store(g['pos'], lp.x, z3.If(fin(lp.x), g['n0'], -1))
        pos, p = g['pos'], s.tasks_progress
        n, elem = SEQ.unwrap(tmp) if type(tmp) is SymSeq else (
            z3.IntVal(len(tmp)), z3.K(z3.IntSort(), z3.IntVal(0)))
        if type(tmp) is not SymSeq and len(tmp):
            raise Unsupported('list of finished tasks')
        seen = lambda x: z3.And(z3.Select(lp.visited, x), fin(x))
        yield 'same tasks', p.terms[0] == p0.terms[0]
        yield 'progress of finished tasks is 1', FA(lp, [t], val(p, t) == z3.If(seen(t), z3.RealVal(1), val(p0, t)), [val(p, t)])
        yield 'every finished task is collected', FA(lp, [t], z3.If(seen(t), z3.And(
            0 <= z3.Select(pos, t), z3.Select(pos, t) < n, z3.Select(elem, z3.Select(pos, t)) == t), z3.Select(pos, t) == -1),
            [z3.Select(pos, t)])
        yield 'only finished tasks are collected, once', z3.And(n >= 0, FA(lp, [j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
            z3.Select(pos, z3.Select(elem, j)) == j, seen(z3.Select(elem, j)))), [z3.Select(elem, j)]))

    yield LoopContract(over_tasks, inv1, types=lambda lp, nm, v: SEQ if isinstance(v, list) else None,
                       modifies=lambda lp: [s.tasks_progress], name='finished tasks')

    def inv2(lp):
        pos, d = g['pos'], s.tasks_details.f
        if lp.phase == 'preserve':
            without(c, lp.O, pre.resource_used_for_task, lp.k)
        gone = lambda x: z3.And(z3.Select(O0, x), 0 <= z3.Select(pos, x), z3.Select(pos, x) < lp.i)
        r = z3.Const('r!q', U)
        O, uft, u = s.tasks_ongoing.t, s.resource_used_for_task, s.resource_used
        yield 'ongoing', FA(lp, [t], z3.Select(O, t) == z3.And(z3.Select(O0, t), z3.Not(gone(t))), [z3.Select(O, t)])
        yield 'complete', FA(lp, [t], sel(s.tasks_complete, t) == z3.Or(z3.Select(C0, t), gone(t)),
                                    [sel(s.tasks_complete, t)])
        yield 'end times', FA(lp, [t], z3.And(
            sel(d['end'], t) == z3.Or(sel(pre.tasks_details.f['end'], t), gone(t)),
            val(d['end'], t) == z3.If(gone(t), num(pre.t) + 1, val(pre.tasks_details.f['end'], t))),
            [sel(d['end'], t), val(d['end'], t)])
        yield 'use of the tasks', z3.And(uft.terms[0] == O, *[a == b for a, b in zip(uft.terms[1:], pre.resource_used_for_task.terms[1:])])
        yield 'known resources', u.terms[0] == pre.resource_used.terms[0]
        yield 'renewable resources are given back, nothing else', FA(lp, [r], val(u, r) == z3.If(
            as_formula(renewable(SymObj(r))), val(pre.resource_used, r) - cs(O0, pre.resource_used_for_task, r)
            + cs(O, pre.resource_used_for_task, r), val(pre.resource_used, r)), [val(u, r)])
        if lp.phase == 'assume' and lp.mode == 0:
            lp.O, lp.k = O, num(lp.seq.elem(lp.i))
            known_pre(c, pre, SymInt(lp.k))
    yield LoopContract(is_seq, inv2, types=lambda lp, nm, v: ConstTy(v) if isinstance(v, (list, dict)) and not v else None,
                       modifies=lambda lp: [s.tasks_complete, s.tasks_ongoing, s.resource_used_for_task, s.resource_used,
                                            s.tasks_details.f['end']], name='completion')
    yield res_loop(s, -1, renews, 'give back')


def known_pre(c, pre, k):
    for f in wf_task(pre, k):
        c.assume(f)


def spec_complete(c, s):
    """Promised state after completing the finished tasks (progress at least 0.9999)."""
    e = Snap(s)
    t0, t = num(c.t0), z3.Int('t!q')
    fin = z3.And(sel(s.tasks_ongoing, t0), val(s.tasks_progress, t0) >= LIMIT())
    if c.branch(fin):
        e.tasks_ongoing.remove(c.t0)
        e.tasks_complete.add(c.t0)
        e.resource_used_for_task.pop(c.t0)
        e.tasks_details[c.t0].end = s.t + 1
        e.tasks_progress[c.t0] = 1
    return e


def complete(c, parts, variants=('', '_uncertain', '_simulation')):
    s = state(c)
    which = c.case('variant', variants)
    d = domain(c, get_task_on_completion_added_conditions=lambda self: {})
    pre = Snap(s)
    exp = spec_complete(c, s)
    c.loops.extend(complete_loops(c, s, pre))
    if which == '_uncertain':
        p = REAL.fresh('prob')
        vals = d.update_complete_tasks_uncertain(DiscreteDistribution([(s, p)])).get_values()
        c.prove('one outcome with its probability', len(vals) == 1 and eqf(vals[0][1], p))
        out = vals[0][0]
    else:
        out = getattr(d, 'update_complete_tasks' + which)(s)
    per_task = [x for x in parts if part(s, x) is not s.resource_used]
    same(c, out, exp, per_task, 'finished tasks')
    if 'resource_used' in parts:
        r = SymObj(z3.Const(c.fresh_name('any_r'), U))
        uft = pre.resource_used_for_task
        c.prove('finished tasks: resource used', z3.And(out.resource_used.terms[0] == pre.resource_used.terms[0], z3.Implies(
            as_formula(renewable(r)), val(out.resource_used, r.t) - cs(out.tasks_ongoing.t, uft, r.t)
            == val(pre.resource_used, r.t) - cs(pre.tasks_ongoing.t, uft, r.t)), z3.Implies(
            z3.Not(as_formula(renewable(r))), val(out.resource_used, r.t) == val(pre.resource_used, r.t))))
    keeps_invariant(c, out)


class NoConditions:
    """A table of on-completion conditions without entries."""
    def __contains__(self, k): return False

    def get(self, k, default=None): return default

    def __len__(self): return 0

    def __iter__(self): return iter(())
    keys = items = values = __iter__


def complete_dummy(c, parts):
    """After a START: a task of duration zero completes on the spot, otherwise nothing changes."""
    s = state(c)
    which = c.case('variant', ['', '_simulation', '_uncertain'])
    d = domain(c, get_task_on_completion_added_conditions=lambda self: NoConditions())    # (with conditions: C19)
    k = INT.fresh('task')
    known(c, s, k)
    a = SchedulingAction(k, A.START, INT.fresh('mode'), False, None)
    if c.case('outcome of the start', ['started', 'refused']) == 'refused':
        c.assume(s.tasks_remaining.has(k))
        zero = False
    else:
        c.assume(s.tasks_ongoing.has(k))
        zero = c.branch(eqf(s.tasks_details[k].sampled_duration, 0))
    exp = Snap(s)
    if zero:
        exp.resource_used = released(c, s, s.resource_used_for_task.at(k), renews)
        exp.tasks_ongoing.remove(k)
        exp.tasks_complete.add(k)
        exp.tasks_progress[k] = 1
        exp.resource_used_for_task.pop(k)
        exp.tasks_details[k].end = s.t
    c.loops.append(res_loop(s, -1, renews, 'give back'))
    if which == '_uncertain':
        p = REAL.fresh('prob')
        vals = d.update_complete_dummy_tasks_uncertain(DiscreteDistribution([(s, p)]), a).get_values()
        c.prove('one outcome with its probability', len(vals) == 1 and eqf(vals[0][1], p))
        out = vals[0][0]
    else:
        out = getattr(d, 'update_complete_dummy_tasks' + which)(s, a)
    same(c, out, exp, parts, 'duration zero' if zero else 'no completion')
    keeps_invariant(c, out)


def dist_of(d, name, which, s, *a):
    """Call the variant of an update function; the single-state distribution of the uncertain one is unwrapped."""
    c = engine.CTX
    f = getattr(d, name + which)
    if which != '_uncertain':
        return f(s, *a)
    p = REAL.fresh('prob')
    vals = f(DiscreteDistribution([(s, p)]), *a).get_values()
    c.prove('one outcome with its probability', len(vals) == 1 and eqf(vals[0][1], p))
    return vals[0][0]


def progress(c, parts):
    s = state(c)
    which = c.case('variant', ['', '_simulation', '_uncertain'])
    d = domain(c, get_task_progress=lambda self, task, t_from, t_to, mode, sampled_duration=None: pace(
        task, t_from, t_to, mode, sampled_duration))
    pre = Snap(s)
    p0, t = pre.tasks_progress, z3.Int('t!q')
    inc = lambda k: num(pace(SymInt(k), s.t, s.t + 1, SymInt(val(pre.tasks_mode, k)), SymInt(val(pre.tasks_details.f['dur'], k))))

    def inv(lp):
        p = s.tasks_progress
        yield 'same tasks', p.terms[0] == p0.terms[0]
        yield 'progress so far', FA(lp, [t], val(p, t) == val(p0, t) + z3.If(z3.Select(lp.visited, t), inc(t), z3.RealVal(0)), [val(p, t)])
        if lp.phase == 'assume' and lp.mode == 0:
            known_pre(c, pre, SymInt(lp.x))
    c.loops.append(LoopContract(over_tasks, inv, modifies=lambda lp: [s.tasks_progress], name='ongoing tasks progress'))
    out = dist_of(d, 'update_progress', which, s)
    exp = Snap(pre_state(pre))
    if c.branch(sel(pre.tasks_ongoing, c.t0)):
        exp.tasks_progress[c.t0] = SymReal(val(p0, num(c.t0)) + inc(num(c.t0)))
    same(c, out, exp, parts, 'one time unit')
    keeps_invariant(c, out)


def pre_state(pre):
    return pre


def row(d, k):
    return [z3.Select(x, k) for x in d.terms[1:]]


def consumption(c, parts):
    """The use of every ongoing task is brought to its need at the active time of the next time unit."""
    s = state(c)
    which = c.case('variant', ['', '_simulation', '_uncertain'])
    pre = Snap(s)
    uft0, u0 = pre.resource_used_for_task, pre.resource_used
    t, r = z3.Int('t!q'), z3.Const('r!q', U)
    at = lambda k: pre.tasks_details.active(k, pre.t + 1)
    wanted = lambda k, x: num(need(SymInt(k), SymInt(val(pre.tasks_mode, k)), SymObj(x), at(SymInt(k))))
    typ = lambda x: z3.Select(TYPES, x)
    d = domain(c)
    rows = [z3.Select(x, t) for x in uft0.terms[1:]]
    new_val = lambda k, x: z3.If(typ(x), wanted(k, x), z3.Select(z3.Select(uft0.terms[2], k), x))
    # the active time at every ongoing task (the stub is a function of the record): one symbol per task
    act = z3.Function('next_active_time', z3.IntSort(), z3.IntSort())

    def active(self, k, tt):
        c.prove('the time asked is the next one', eqf(tt, pre.t + 1))
        return SymInt(act(num(k)))
    Details.active, saved = active, Details.active
    at = lambda k: SymInt(act(num(k)))
    try:
        def inv(lp):
            uft, u, O = s.resource_used_for_task, s.resource_used, pre.tasks_ongoing.t
            if lp.phase == 'preserve':
                # the sum with one row changed, at the task of this iteration
                k = lp.x
                mid = lp.mid
                without(c, O, mid, k)
                without(c, O, uft, k)
                rest = z3.Store(O, k, False)
                c.assume(z3.ForAll([r], cs(rest, uft, r) == cs(rest, mid, r), patterns=[cs(rest, uft, r)]))
            seen = lambda x: z3.Select(lp.visited, x)
            m = uft.terms
            yield 'same tasks', m[0] == uft0.terms[0]
            yield 'resources of each task', FA(lp, [t], z3.Select(m[1], t) == z3.Select(uft0.terms[1], t), [z3.Select(m[1], t)])
            yield 'use of each task', FA(lp, [t, r], z3.Implies(z3.Select(O, t), z3.Select(z3.Select(m[2], t), r) == z3.If(
                seen(t), new_val(t, r), z3.Select(z3.Select(uft0.terms[2], t), r))), [z3.Select(z3.Select(m[2], t), r)])
            yield 'known resources', u.terms[0] == u0.terms[0]
            yield 'use beyond the ongoing tasks', FA(lp, [r], val(u, r) - cs(O, uft, r) == val(u0, r) - cs(O, uft0, r), [val(u, r)])
            if lp.phase == 'assume' and lp.mode == 0:
                known_pre(c, pre, SymInt(lp.x))
                lp.mid = s.resource_used_for_task.copy()
                g['u'], g['k'] = u.copy(), lp.x
        g = {}

        def inv2(lp):
            uft, u = s.resource_used_for_task, s.resource_used
            if lp.phase == 'establish':
                lp.f0, lp.u0 = uft.copy(), u.copy()
            k = g['k']
            old, now, src = row(lp.f0, k), row(uft, k), lp.src_terms
            seen = lambda x: z3.Select(lp.visited, x)
            yield 'same tasks', z3.And(uft.terms[0] == lp.f0.terms[0], now[0] == old[0])
            yield 'resources of the other tasks', FA(lp, [t], z3.Implies(t != k, z3.And(*[a == b for a, b in zip(row(uft, t), row(lp.f0, t))])),
                                        [z3.Select(uft.terms[1], t), z3.Select(uft.terms[2], t)])
            yield 'use of this task', FA(lp, [r], z3.Select(now[1], r) == z3.If(seen(r), z3.Select(src[1], r), z3.Select(old[1], r)), [z3.Select(now[1], r)])
            yield 'known resources', u.terms[0] == lp.u0.terms[0]
            yield 'total use', FA(lp, [r], val(u, r) == val(lp.u0, r) + z3.If(seen(r), z3.Select(src[1], r) - z3.Select(old[1], r), 0), [val(u, r)])
        c.loops.append(LoopContract(over_tasks, inv, modifies=lambda lp: [s.resource_used_for_task, s.resource_used], name='ongoing tasks'))
        c.loops.append(LoopContract(is_use, inv2, modifies=lambda lp: [s.resource_used_for_task, s.resource_used], name='resources of a task'))
        out = dist_of(d, 'update_res_consumption', which, s)
        exp = Snap(pre)
        t0 = num(c.t0)
        same(c, out, exp, [x for x in parts if x not in RESO] + ['tasks_ongoing', 'resource_availability'], 'consumption')
        if 'resource_used' in parts:
            x = z3.Const(c.fresh_name('any_r'), U)
            c.prove('use of an ongoing task is its need at its active time', z3.Implies(sel(out.tasks_ongoing, t0), z3.And(
                z3.Select(row(out.resource_used_for_task, t0)[0], x) == z3.Select(row(uft0, t0)[0], x),
                z3.Select(row(out.resource_used_for_task, t0)[1], x) == new_val(t0, x))))
            O = pre.tasks_ongoing.t
            c.prove('use beyond the ongoing tasks is unchanged', val(out.resource_used, x) - cs(O, out.resource_used_for_task, x)
                    == val(u0, x) - cs(O, uft0, x))
        keeps_invariant(c, out)
    finally:
        Details.active = saved


def logged(log, name, ret=None):
    """Stub of an update function: it works on the state it is given (its contract is proved separately)."""
    def f(self, states, *a):
        log.append((name, states, a))
        return states if ret is None else ret(states)
    return f


def passing(c, parts):
    """Passing time: progress, then completion, then the consumption of the next time unit, and the clock advances by one;
    any other action leaves the state as it is."""
    s = state(c)
    which = c.case('variant', ['', '_simulation', '_uncertain'])
    log = []
    names = ['update_progress', 'update_complete_tasks', 'update_res_consumption']
    d = domain(c, **{n + which: logged(log, n) for n in names})
    pre = Snap(s)
    moves = c.case('action', ['TIME_PR', 'START', 'PAUSE', 'RESUME'])
    a = SchedulingAction(None if moves == 'TIME_PR' else INT.fresh('task'), A[moves], None, moves == 'TIME_PR')
    if which == '_uncertain':
        n = c.case('states', [1, 2])
        ss = [s] + [state(c, 's2') for _ in range(n - 1)]
        ps = [REAL.fresh('p') for _ in range(n)]
        t_before = [x.t for x in ss]
        vals = d.update_time_uncertain(DiscreteDistribution(list(zip(ss, ps))), a).get_values()
        c.prove('same outcomes and probabilities', len(vals) == n and And(*[eqf(v[1], p) for v, p in zip(vals, ps)]))
        for (x, _), t in zip(vals, t_before):
            c.prove('clock', eqf(x.t, t + 1 if moves == 'TIME_PR' else t))
        for _, states, _a in log:
            c.prove('on every outcome', [id(x) for x, _ in states.get_values()] == [id(x) for x in ss] and
                    And(*[eqf(v[1], p) for v, p in zip(states.get_values(), ps)]))
        out = vals[0][0]
    else:
        out = getattr(d, 'update_time' + which)(s, a)
        c.prove('clock', eqf(out.t, pre.t + 1 if moves == 'TIME_PR' else pre.t))
        c.prove('on the given state', all(x[1] is s for x in log))
    c.prove('progress, completion, consumption', [x[0] for x in log] == (names if moves == 'TIME_PR' else []))
    same(c, out, pre, [x for x in ALL if x != 't'], 'the rest')


def availability(c, parts):
    """When time has passed, the availability of every resource is read at the new time; otherwise it is unchanged."""
    s = state(c)
    which = c.case('variant', ['', '_simulation', '_uncertain'])
    nt, nu = c.case('types', [0, 1, 2]), c.case('units', [0, 1, 2])
    types = [SymObj(z3.Const('type%d' % i, U)) for i in range(nt)]
    units = [SymObj(z3.Const('unit%d' % i, U)) for i in range(nu)]
    d = domain(c, get_resource_types_names=lambda self: list(types), get_resource_units_names=lambda self: list(units),
               sample_quantity_resource=lambda self, resource, time: quantity(resource, time))
    pre = Snap(s)
    moves = c.case('action', ['TIME_PR', 'other']) == 'TIME_PR'
    a = SchedulingAction(None, A.TIME_PR if moves else A.PAUSE, None, moves)
    for x in types + units:
        c.assume(s.resource_used.has(x))
    out = dist_of(d, 'update_resource_availability', which, s, a)
    r = SymObj(z3.Const(c.fresh_name('any_r'), U))
    named = Or(*[eqf(r, x) for x in types + units])
    got = out.resource_availability
    c.prove('availability follows the calendar' if moves else 'availability is unchanged', z3.And(
        got.has(r) == pre.resource_availability.has(r),
        Implies(pre.resource_availability.has(r), eqf(got.at(r), ite_(And(named, moves), quantity(r, s.t), pre.resource_availability.at(r))))))
    same(c, out, pre, [x for x in ALL if x != 'resource_availability'], 'the rest')


def ite_(f, a, b):
    return SymInt(z3.If(as_formula(f), num(a), num(b)))


FLOW = ['update_pause_tasks', 'update_resume_tasks', 'update_start_tasks', 'update_complete_dummy_tasks',
        'update_conditional_tasks', 'update_time', 'update_resource_availability']
RELEVANT = dict(START=['update_start_tasks', 'update_complete_dummy_tasks'], PAUSE=['update_pause_tasks'],
                RESUME=['update_resume_tasks'], TIME_PR=['update_time', 'update_resource_availability'])


def transition(c, parts):
    """A transition applies, to a copy of the state unless the environment is in place, the updates of its action in order."""
    which = c.case('variant', ['', '_simulation', '_uncertain'])
    inplace = c.case('environment', ['copied', 'in place']) == 'in place'
    kind = c.case('action', ['START', 'PAUSE', 'RESUME', 'TIME_PR'])
    s = state(c)
    log = []
    ret = dict(update_start_tasks=lambda st: DiscreteDistribution([(st, 1)])) if which == '_uncertain' else {}
    d = domain(c, base=sd.SchedulingDomain, **{n + which: logged(log, n, ret.get(n)) for n in FLOW})
    d.inplace_environment = inplace
    value = object()
    type(d)._get_transition_value = lambda self, m, a, n: (log.append(('value', m, a, n)), value)[1]
    term, goal = SymBool(z3.Bool('is_terminal')), SymBool(z3.Bool('is_goal'))
    type(d)._is_terminal = lambda self, st: (log.append(('terminal', st)), term)[1]
    type(d)._is_goal = lambda self, st: (log.append(('goal', st)), goal)[1]
    a = SchedulingAction(None if kind == 'TIME_PR' else INT.fresh('task'), A[kind], None, kind == 'TIME_PR')
    pre = Snap(s)
    if which == '':
        out = d._get_next_state(s, a)
    elif which == '_uncertain':
        vals = d._get_next_state_distribution(s, a).get_values()
        c.prove('one outcome', len(vals) == 1 and vals[0][1] == 1)
        out = vals[0][0]
    else:
        o = d._state_sample(s, a)
        out = o.state
        c.prove('value of this transition', o.value is value and [x[1:] for x in log if x[0] == 'value'] == [(s, a, out)])
        c.prove('the episode ends at goals and terminal states', Iff(o.termination, Or(goal, term)))
        c.prove('termination of the next state', all(x[1] is out for x in log if x[0] in ('terminal', 'goal')))
        c.prove('no information', o.info is None)
    ups = [x for x in log if x[0].startswith('update')]
    c.prove('updates of the action, in order', [x[0] for x in ups if x[0] in RELEVANT[kind]] == RELEVANT[kind])
    c.prove('each update once', len(ups) == len({x[0] for x in ups}))
    sts = [x[1] if type(x[1]) is State else x[1].get_values()[0][0] for x in ups]
    c.prove('on one state', all(x is out for x in sts) and all(x[2] in ((), (a,)) for x in ups))
    c.prove('the given state is modified only in place', (out is s) == inplace)
    same(c, out, pre, ALL, 'copied')
    same(c, s, pre, ALL, 'the given state')
