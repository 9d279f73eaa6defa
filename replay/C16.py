from replay.schedref import *
from replay.base import require
from skdecide.builders.scheduling.task import Task

RULE = 'random scheduling instances and histories: times, progress, durations and ends compared with reference semantics'
BOUNDS = 'bounded: at most 5 tasks, durations up to 200 (9000 for single tasks), 40 steps'
ROUNDS = 16


def cases(rng, tier):
    for _ in range(40):
        yield dict(inst=instance(rng), seed=rng.randrange(10 ** 6), steps=rng.choice([6, 15, 40]))
    for _ in range(8):
        yield dict(active=rng.randrange(10 ** 6))
    for _ in range(6):
        yield dict(durs=rng.randrange(10 ** 6))
    yield dict(long=rng.choice([1, 2, 3, 7, 10, 49, 97, 100, 197, 333, 1000]) if rng.random() < .8 else rng.randint(1, 3000))


def check(case):
    import random
    if 'inst' in case:
        return run(case, TIME)
    if 'active' in case:
        rng = random.Random(case['active'])
        for _ in range(50):
            t = Task(3)
            require(t.get_task_active_time(rng.randint(0, 9)) == 0, 'a task never started has been active')
            now = rng.randint(0, 5)
            t.start, on, act, run_ = now, True, 0, []
            for k in range(rng.randint(0, 25)):
                require(t.get_task_active_time(now) == act, 'active time %r at %r, expected %r' % (t.get_task_active_time(now), now, act))
                if rng.random() < .3:
                    (t.paused if on else t.resumed).append(now)
                    on = not on
                else:
                    now += 1
                    act += on
            was = t.get_task_active_time(now)
            if on:
                t.end = now + 4
                require(t.get_task_active_time(now) == was, 'the end of the task changes its active time before')
                t.end = now
                require(t.get_task_active_time(now + rng.randint(0, 9)) == act, 'active time grows after the end')
        return
    if 'durs' in case:
        return durations(random.Random(case['durs']))
    n = case['long']
    inst = dict(kind='det', ids=[1], single=True, types=['r0'], units=[], renew={'r0': True}, avail={'r0': 1}, calendar=None,
                modes={'1': {'1': {'r0': 1}}}, dur={'1': {'1': n}}, succ={'1': []}, pre=None, ret={'1': True}, skills=None,
                cond=None, varying=False, costs=None, horizon=10 * n, objectives=['MAKESPAN'], durcls='det', idform='list')
    d = build(inst)
    s = d.get_next_state(d.get_initial_state(), action(dict(kind='START', task=1, mode=1, units=None)))
    for k in range(n):
        require(1 in s.tasks_ongoing and abs(s.tasks_progress[1] - k / n) < 1e-6, 'a task of duration %d is not ongoing after %d' % (n, k))
        s = d.get_next_state(s, action(dict(kind='TIME_PR', task=None, mode=None, units=None)))
    require(1 in s.tasks_complete and s.tasks_details[1].end == n and s.t == n and s.tasks_progress[1] == 1,
            'a task of duration %d is not complete after %d steps' % (n, n))


def durations(rng):
    from skdecide.core import DiscreteDistribution
    from skdecide.builders.scheduling.task_duration import (SimulatedTaskDuration, UniformBoundedTaskDuration, EnumerableTaskDuration, DeterministicTaskDuration)
    keys = [(t, m) for t in range(3) for m in range(1, 4)]

    class Sim(SimulatedTaskDuration):
        sampled_durations = None
        count = 0

        def _sample_task_duration(self, task, mode=1, progress_from=0.):
            self.count += 1
            return self.count - 1
    d = Sim()
    d.sampled_durations = {}
    seen = {}
    for _ in range(30):
        k = rng.choice(keys) + (rng.choice([0., .5]),)
        x = (d.get_latest_sampled_duration if rng.random() < .5 else d.sample_task_duration)(*k)
        require(seen.setdefault(k, x) == x, 'the duration sampled for %r changes from %r to %r' % (k, seen[k], x))
    require(sorted(seen.values()) == list(range(len(seen))), 'durations drawn %r' % (seen,))
    low = {k: rng.choice([0, 0, 1, 5]) for k in keys}
    up = {k: low[k] + rng.choice([0, 1, 3, 20]) for k in keys}

    class Uni(UniformBoundedTaskDuration):
        def _get_task_duration_upper_bound(self, task, mode=1, progress_from=0.): return up[task, mode]
        def _get_task_duration_lower_bound(self, task, mode=1, progress_from=0.): return low[task, mode]
    dist = {k: [(rng.randint(0, 30), w) for w in rng.choice([[1.], [.5, .5], [.998, .001, .001], [.25] * 4])] for k in keys}

    class Enum(EnumerableTaskDuration):
        def _get_task_duration_distribution(self, task, mode=1, progress_from=0., multivariate_settings=None): return DiscreteDistribution(dist[task, mode])

    class Det(DeterministicTaskDuration):
        def _get_task_duration(self, task, mode=1, progress_from=0.): return low[task, mode]
    u, e, f = Uni(), Enum(), Det()
    for k in keys:
        vals = u.get_task_duration_distribution(*k).get_values()
        n = up[k] - low[k] + 1
        require(sorted(v for v, _ in vals) == list(range(low[k], up[k] + 1)) and all(abs(p - 1 / n) < 1e-9 for _, p in vals), 'uniform durations of %r: %r' % (k, vals))
        xs = [v for v, _ in dist[k]]
        require(e.get_task_duration_upper_bound(*k) == max(xs) and e.get_task_duration_lower_bound(*k) == min(xs), 'bounds of the durations %r' % (dist[k],))
        for _ in range(3):
            require(low[k] <= u.sample_task_duration(*k) <= up[k] and e.sample_task_duration(*k) in xs, 'a sampled duration is not among those declared')
        require(f.sample_task_duration(*k) == f.get_task_duration(*k) == f.get_task_duration_upper_bound(*k) == f.get_task_duration_lower_bound(*k) == low[k], 'deterministic durations')
