"""Time, progress and completion of tasks; active time; durations."""
from pyvc.contract import Registry
from contracts.sched import *
from skdecide.builders.scheduling.task_progress import DeterministicTaskProgress
from skdecide.builders.scheduling.task_duration import *

CONTRACTS = contract = Registry()
ASSUMPTIONS = ASSUME + ['lists of durations are proved for at most three entries']
MBQI, FEAS_MS = False, 2000
P = TIME
V = ('', '_uncertain', '_simulation')
B = 'skdecide.builders.scheduling.'


@contract('progressing', *[SDM + 'update_progress' + v for v in V])
def _(c): progress(c, P)


@contract('completing', *[SDM + 'update_complete_tasks' + v for v in V])
def _(c): complete(c, P)


@contract('zero duration', *[SDM + 'update_complete_dummy_tasks' + v for v in V])
def _(c): complete_dummy(c, P)


@contract('passing time', *[SDM + 'update_time' + v for v in V])
def _(c): passing(c, P)


@contract('starting', *[SDM + 'update_start_tasks' + v for v in V])
def _(c): start(c, P)


@contract('consuming', *[SDM + 'update_res_consumption' + v for v in V])
def _(c): consumption(c, P)


# ------------------------------------------------------------------------------------------------------ active time
def record(c):
    """A task that was started, with alternating pauses and resumptions up to now."""
    t = Task(3)
    t.start = INT.fresh('start')
    t.paused, t.resumed = SEQ.fresh('paused'), SEQ.fresh('resumed')
    n = t.paused.n
    m = t.resumed.n
    c.assume(z3.And(n >= 0, m >= 0, z3.Or(m == n, m == n - 1)))
    i, j = z3.Int('i!q'), z3.Int('j!q')
    P, R = SEQ.unwrap(t.paused)[1], SEQ.unwrap(t.resumed)[1]
    a, b = (lambda k: z3.Select(P, k)), (lambda k: z3.Select(R, k))
    c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), num(t.start) <= a(i)), patterns=[a(i)]))
    c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), a(i) <= b(i)), patterns=[b(i)]))
    c.assume(z3.ForAll([i], z3.Implies(z3.And(0 < i, i < n), b(i - 1) <= a(i)), patterns=[a(i)]))
    return t, n, m, a, b


def pauses(c, n, m, a, b):
    """S(k): total length of the first k closed pauses (k <= m)."""
    S = z3.Function(c.fresh_name('closed_pauses'), z3.IntSort(), z3.IntSort())
    c.assume(S(0) == 0)
    unfold = lambda k: c.assume(z3.Implies(k >= 0, S(k + 1) == S(k) + b(k) - a(k)))
    return S, unfold


def active(c, t, at, S, unfold, m, a, b, start):
    """Run the real get_task_active_time with its loop contract."""
    def total(lp):
        vs = [v for k, v in lp.locals.items() if k in lp.bound and k != 'i' and num(v) is not None]
        if len(vs) != 1:
            raise Unsupported('accumulator of the paused time')
        return num(vs[0])

    def inv(lp):
        i = lp.i
        tt = z3.If(z3.BoolVal(t.end is not None), z3.If(num(at) <= num(t.end if t.end is not None else 0), num(at), num(t.end if t.end is not None else 0)), num(at))
        yield 'paused time so far', z3.And(total(lp) == z3.If(i <= m, S(i), S(m) + tt - a(m)))
        yield 'pauses fit in the elapsed time', z3.Implies(i > 0, S(z3.If(i <= m, i, m)) <= z3.If(i <= m, b(i - 1), a(m)) - start)
        if lp.phase == 'assume' and lp.mode == 0:
            unfold(i)
    loop = LoopContract(is_seq, inv, name='pauses')
    c.loops[:] = [loop]
    return t.get_task_active_time(at)


@contract('active time', B + 'task:Task.get_task_active_time')
def _(c):
    if c.case('task', ['started', 'never started']) == 'never started':
        t = Task(3)
        c.prove('never started: zero', eqf(t.get_task_active_time(INT.fresh('t')), 0))
        return
    t, n, m, a, b = record(c)
    S, unfold = pauses(c, n, m, a, b)
    now = INT.fresh('now')
    last = lambda: z3.And(num(t.start) <= num(now), z3.Implies(n > 0, a(n - 1) <= num(now)), z3.Implies(m > 0, b(m - 1) <= num(now)))
    c.assume(last())
    run = lambda at, mm=m, aa=a, bb=b, S_=S, un=unfold: active(c, t, at, S_, un, mm, aa, bb, num(t.start))
    ended = c.case('completed', [False, True])
    if ended:
        c.assume(m == n)
        t.end = INT.fresh('end')
        c.assume(last())
        c.assume(z3.And(num(t.start) <= num(t.end), z3.Implies(n > 0, b(n - 1) <= num(t.end)), z3.BoolVal(True)))
        e = t.end
        if c.case('asked', ['after', 'before']) == 'before':
            c.assume(num(now) <= num(e))
            x = run(now)
            t.end = None
            c.prove('the end does not change what happened before', eqf(x, run(now)))
            return
        c.assume(num(e) <= num(now))
        x = run(now)
        t.end = None
        y = run(e)
        c.prove('constant after completion', eqf(x, y))
        return
    x = run(now)
    c.prove('not negative', x >= 0)
    c.prove('zero at the start', Implies(And(eqf(now, t.start), n == 0), eqf(x, 0)))
    what = c.case('then', ['time passes', 'pause', 'resume'])
    if what == 'time passes':
        y = run(now + 1)
        c.prove('grows by one while executing', Implies(m == n, eqf(y, x + 1)))
        c.prove('constant while paused', Implies(m < n, eqf(y, x)))
    elif what == 'pause':
        c.assume(m == n)
        t.paused.append(now)
        P2 = SEQ.unwrap(t.paused)[1]
        y = run(now, aa=lambda k: z3.Select(P2, k), un=unfold)
        c.prove('unchanged by a pause', eqf(y, x))
    else:
        c.assume(m == n - 1)
        t.resumed.append(now)
        R2 = SEQ.unwrap(t.resumed)[1]
        b2 = lambda k: z3.Select(R2, k)
        S2, unfold2 = pauses(c, n, m + 1, a, b2)
        j = z3.Int('j!q')
        # both sums have the same first m terms (congruence of the sum, by induction on its length)
        c.assume(S2(m) == S(m))
        unfold2(m)
        y = active(c, t, now, S2, unfold2, m + 1, a, b2, num(t.start))
        c.prove('unchanged by a resumption', eqf(y, x))


# ----------------------------------------------------------------------------------------------------------- progress
@contract('progress of a task', B + 'task_progress:DeterministicTaskProgress.get_task_progress')
def _(c):
    k, m = INT.fresh('task'), INT.fresh('mode')
    dur = INT.fresh('duration')
    how = c.case('duration', ['given', 'looked up'])
    latest = dur if how == 'looked up' else INT.fresh('latest')
    d = object.__new__(type('Dom', (DeterministicTaskProgress,), dict(
        get_latest_sampled_duration=lambda self, task, mode=1, progress_from=0.: (
            engine.CTX.prove('the duration asked', And(eqf(task, k), eqf(mode, m))), latest)[1])))
    t = INT.fresh('t')
    given = dur if how == 'given' else None
    c.assume(dur >= 0)
    x = d.get_task_progress(k, t, t + 1, m, given)
    c.prove('one step of a task of duration zero completes it', Implies(eqf(dur, 0), eqf(x, 1)))
    if not c.branch(num(dur) > 0):
        return
    c.prove('one step is one duration-th', eqf(x * dur, 1))
    # after k unit steps of execution the progress is k/duration: it completes exactly after `duration` of them
    n = z3.Int('steps')
    c.assume(z3.And(n >= 0, num(dur) < 10000))
    p = z3.ToReal(n) / z3.ToReal(num(dur))
    c.prove('after one more step', p + num(x) == z3.ToReal(n + 1) / z3.ToReal(num(dur)))
    c.prove('complete exactly after its duration', (p >= LIMIT()) == (n >= num(dur)))


# ---------------------------------------------------------------------------------------------------------- durations
class Deterministic(DeterministicTaskDuration):
    def _get_task_duration(self, task, mode=1, progress_from=0.):
        return duration(task, mode)


@contract('deterministic durations', B + 'task_duration:DeterministicTaskDuration')
def _(c):
    d = object.__new__(Deterministic)
    k, m = INT.fresh('task'), INT.fresh('mode')
    w = duration(k, m)
    c.prove('duration of the task in the mode', And(eqf(d.get_task_duration(k, m), w), eqf(d.sample_task_duration(k, m), w),
                                                    eqf(d.get_task_duration_upper_bound(k, m), w), eqf(d.get_task_duration_lower_bound(k, m), w)))
    vals = d.get_task_duration_distribution(k, m).get_values()
    c.prove('a single duration', len(vals) == 1 and vals[0][1] == 1 and eqf(vals[0][0], w))


@contract('latest sampled duration', B + 'task_duration:SimulatedTaskDuration.get_latest_sampled_duration',
          B + 'task_duration:SimulatedTaskDuration.sample_task_duration')
def _(c):
    calls = []

    def draw(self, task, mode=1, progress_from=0.):
        calls.append((task, mode, progress_from))
        return INT.fresh('drawn')
    d = object.__new__(type('Dom', (SimulatedTaskDuration,), dict(_sample_task_duration=draw)))
    d.sampled_durations = {}
    first = [(1, 1, 0.), (1, 2, 0.), (2, 1, 0.), (1, 1, .5)]
    got = {}
    for i in range(3):
        q = first[c.case('query %d' % i, range(len(first)))]
        f = d.get_latest_sampled_duration if c.case('by', ['latest', 'sample']) == 'latest' else d.sample_task_duration
        x = f(*q)
        if q in got:
            c.prove('the same sample again', eqf(x, got[q]))
        got[q] = x
        c.prove('drawn once, for that task and mode', calls == list(dict.fromkeys(calls)) and set(calls) == set(got))


@contract('duration distributions', B + 'task_duration:UniformBoundedTaskDuration', B + 'task_duration:EnumerableTaskDuration')
def _(c):
    k, m = INT.fresh('task'), INT.fresh('mode')
    lo = INT.fresh('lo')
    n = c.case('spread', [1, 2, 3, 4])
    if c.case('kind', ['uniform', 'enumerated']) == 'uniform':
        lo = c.case('lowest', [0, 1, 7])
        d = object.__new__(type('Dom', (UniformBoundedTaskDuration,), dict(
            _get_task_duration_upper_bound=lambda self, task, mode=1, progress_from=0.: lo + n - 1,
            _get_task_duration_lower_bound=lambda self, task, mode=1, progress_from=0.: lo)))
        vals = d.get_task_duration_distribution(k, m).get_values()
        c.prove('each duration between the bounds once, equally likely', [v for v, _ in vals] == list(range(lo, lo + n)) and
                all(abs(p - 1 / n) < 1e-12 for _, p in vals))
        return
    xs = [INT.fresh('d%d' % i) for i in range(n)]
    rare = c.case('weights', ['even', 'rare'])
    D = DiscreteDistribution([(x, 1 / n if rare == 'even' else 1 - (n - 1) * 1e-6 if i == n // 2 else 1e-6) for i, x in enumerate(xs)])
    d = object.__new__(type('Dom', (EnumerableTaskDuration,), dict(
        _get_task_duration_distribution=lambda self, task, mode=1, progress_from=0., multivariate_settings=None: D)))
    up, low = d.get_task_duration_upper_bound(k, m), d.get_task_duration_lower_bound(k, m)
    c.prove('bounds', And(*[And(low <= x, x <= up) for x in xs], Or(*[eqf(low, x) for x in xs]), Or(*[eqf(up, x) for x in xs])))
