from replay.schedref import *
from replay.base import require
from skdecide.builders.scheduling.time_lag import TimeLag
from skdecide.builders.scheduling.graph_toolbox import Graph
import math
import random as _random

RULE = 'random problem data given through every scheduling characteristic, queried back and compared'
BOUNDS = 'bounded: at most 5 tasks, 3 modes, 3 resource types'
ROUNDS = 100


def cases(rng, tier):
    for _ in range(30):
        yield dict(inst=instance(rng), seed=rng.randrange(10 ** 6))
    for _ in range(10):
        lb = rng.randint(0, 6)
        yield dict(bounds=[lb, lb + rng.randint(0, 5)], other=[rng.randint(0, 9) for _ in range(rng.randint(1, 4))])
    for _ in range(10):
        yield dict(window=[rng.randint(0, 50) for _ in range(5)])
        yield dict(graph=graph_case(rng))


def graph_case(rng):
    n = rng.randint(1, 5)
    names = rng.sample(range(9), n) if rng.random() < .7 else rng.sample('abcdef', n)
    val = lambda: rng.choice([0, 0., False, '', 5, 'x', -1])
    nodes = [[x, {k: val() for k in ('a', 'b') if rng.random() < .6}] for x in names]
    edges = []
    for i, x in enumerate(names):
        for j, y in enumerate(names):
            if i != j and rng.random() < .25 and (i < j or rng.random() < .3):
                edges.append([x, y, {k: val() for k in ('w', 'v') if rng.random() < .6}])
    rng.shuffle(edges)
    return dict(nodes=nodes, edges=edges, undirected=rng.random() < .4)


def graphs(case):
    nodes, un = {x: d for x, d in case['nodes']}, case['undirected']
    edges = {}
    for x, y, d in case['edges']:
        edges[x, y] = d
        if un:
            edges[y, x] = d
    g = Graph([(x, d) for x, d in nodes.items()], [tuple(e) for e in case['edges']], un)
    require(list(g.get_nodes()) == sorted(nodes) and set(g.get_edges()) == set(edges), 'nodes and edges')
    out = {x: {y for y in nodes if (x, y) in edges} for x in nodes}
    inn = {x: {y for y in nodes if (y, x) in edges} for x in nodes}
    require(all(set(g.get_neighbors(x)) == out[x] and set(g.get_predecessors(x)) == inn[x] for x in nodes), 'neighbours')
    for k in ('a', 'b', 'c'):
        for x in list(nodes) + ['none']:
            v, e = g.get_attr_node(x, k), nodes.get(x, {}).get(k)
            require(v == e and type(v) is type(e), 'attribute %s of %s is %r, given %r' % (k, x, v, e))
    for k in ('w', 'v', 'u'):
        for x in list(nodes) + ['none']:
            for y in nodes:
                v, e = g.get_attr_edge(x, y, k), edges.get((x, y), {}).get(k)
                require(v == e and type(v) is type(e), 'attribute %s of %s-%s is %r, given %r' % (k, x, y, v, e))
    reach = {x: set() for x in nodes}
    for x in nodes:
        todo = [x]
        while todo:
            for y in out[todo.pop()]:
                if y not in reach[x]:
                    reach[x].add(y)
                    todo.append(y)
    if un:
        return
    up = {x: {y for y in nodes if x in reach[y] and y != x} for x in nodes}
    require({x: set(v) for x, v in g.ancestors_map().items()} == up and all(set(g.precedessors_nodes(x)) == up[x] for x in nodes), 'ancestors')
    require({x: set(v) for x, v in g.descendants_map().items()} == {x: reach[x] - {x} for x in nodes}, 'descendants')
    require({x: set(v) for x, v in g.successors_map().items()} == out and
            {x: set(v) for x, v in g.predecessors_map().items()} == inn, 'direct maps')
    loop = any(x in reach[x] for x in nodes)
    got = g.check_loop()
    require((got is not None) == loop, 'loops: %r' % (got,))
    if loop:
        require(all((x, y) in edges for x, y, *_ in got) and got[-1][1] == got[0][0], 'not a loop: %r' % (got,))


def precedence(case):
    nodes = [x for x, _ in case['nodes']]
    succ = {}
    for x, y, _ in case['edges']:
        succ.setdefault(x, []).append(y)

    class W(WithPrecedence):
        _get_successors = lambda self: succ                                  # tasks without successors are not listed
        get_tasks_ids = lambda self: nodes
        get_tasks_modes = lambda self: {t: {1: None, 3: None} for t in nodes}
        sample_task_duration = lambda self, task, mode=1, progress_from=0.: nodes.index(task) + 10 * mode
    w = W()
    g = w.compute_graph()
    require(list(g.get_nodes()) == sorted(nodes) and set(g.get_edges()) == {(x, y) for x in succ for y in succ[x]}, 'graph of the tasks')
    require(all(g.get_attr_node(t, m) == nodes.index(t) + 10 * m for t in nodes for m in (1, 3)), 'durations in the graph')
    require({t: set(v) for t, v in g.predecessors_map().items()} == {t: {x for x in succ if t in succ[x]} for t in nodes}, 'predecessors')


def close(v, e):
    """Total probability per value."""
    vs = {}
    for x, p in v:
        vs[x] = vs.get(x, 0) + p
    es = {}
    for x, p in e:
        es[x] = es.get(x, 0) + p
    return {x for x in vs if vs[x]} == {x for x in es if es[x]} and all(abs(vs.get(x, 0) - es[x]) < 1e-9 for x in es)


def durations(case):
    lb, ub = case['bounds']

    class U(UniformBoundedTaskDuration):
        def _get_task_duration_lower_bound(self, task, mode=1, progress_from=0.):
            return lb + 10 * task + 100 * mode

        def _get_task_duration_upper_bound(self, task, mode=1, progress_from=0.):
            return ub + 10 * task + 100 * mode
    for t, m in ((0, 1), (1, 1), (0, 2), (3, 2)):
        v = U().get_task_duration_distribution(t, m).get_values()
        off = 10 * t + 100 * m
        require(close(v, [(x + off, 1 / (ub - lb + 1)) for x in range(lb, ub + 1)]), 'uniform durations in %d..%d are %r' % (lb + off, ub + off, v))
        got = {U().sample_task_duration(t, m) for _ in range(120)}
        require(got == set(range(lb + off, ub + off + 1)), 'uniform durations in %d..%d sampled: %r' % (lb + off, ub + off, got))
        require((U().get_task_duration_lower_bound(t, m), U().get_task_duration_upper_bound(t, m)) == (lb + off, ub + off), 'bounds')

    class E(EnumerableTaskDuration):
        def _get_task_duration_distribution(self, task, mode=1, progress_from=0., multivariate_settings=None):
            return DiscreteDistribution([(x + 10 * task + 100 * mode, 1 / len(case['other'])) for x in case['other']])
    for t, m in ((0, 1), (1, 1), (0, 2)):
        off = 10 * t + 100 * m
        require(E().get_task_duration_upper_bound(t, m) == max(case['other']) + off, 'upper bound of %r' % case['other'])
        require(E().get_task_duration_lower_bound(t, m) == min(case['other']) + off, 'lower bound of %r' % case['other'])
        require({E().sample_task_duration(t, m) for _ in range(80)} == {x + off for x in case['other']}, 'sampled durations')

    class De(DeterministicTaskDuration):
        def _get_task_duration(self, task, mode=1, progress_from=0.):
            return lb + 10 * task + 100 * mode
    for t, m in ((0, 1), (1, 1), (0, 2)):
        e = lb + 10 * t + 100 * m
        d = De()
        require(d.get_task_duration(t, m) == e and d.sample_task_duration(t, m) == e and d.get_task_duration_upper_bound(t, m) == e
                and d.get_task_duration_lower_bound(t, m) == e, 'deterministic durations')
        require(close(d.get_task_duration_distribution(t, m).get_values(), [(e, 1)]), 'deterministic duration distribution')
    n = []

    class S(SimulatedTaskDuration):
        def __init__(self):
            self.sampled_durations = {}

        def _sample_task_duration(self, task, mode=1, progress_from=0.):
            n.append((task, mode, progress_from))
            return len(n)
    s = S()
    for k in range(40):
        a = (k * 7 % 3, k % 2, (k % 4) / 2)
        v = s.sample_task_duration(*a) if k % 3 else s.get_latest_sampled_duration(*a)
        require(n[v - 1] == a, 'the duration of %r was sampled for %r' % (a, n[v - 1]))
        require(s.get_latest_sampled_duration(*a) == v and s.sample_task_duration(*a) == v, 'the sampled duration changes')

    class P(DeterministicTaskProgress, S):
        pass
    p = P()
    for dur in case['other']:
        for a, b in ((0, 1), (3, 4), (2, 5)):
            e = 1 if dur == 0 else (b - a) / dur
            require(abs(p.get_task_progress(1, a, b, 1, dur) - e) < 1e-12, 'progress from %d to %d with duration %d' % (a, b, dur))
    last = p.sample_task_duration(8, 2)
    require(abs(p.get_task_progress(8, 1, 2, 2) - 1 / last) < 1e-12, 'progress with the duration sampled last')


def windows(case):
    es, ls, ee, le, h = case['window']
    tw = __import__('skdecide.builders.scheduling.time_windows', fromlist=['x'])
    f = lambda w: (w.earliest_start, w.latest_start, w.earliest_end, w.latest_end)
    for got, e in ((tw.TimeWindow(es, ls, ee, le, h), (es, ls, ee, le)), (tw.ClassicTimeWindow(es, le, h), (es, h, 0, le)),
                   (tw.StartFromOnlyTimeWindow(es, h), (es, h, 0, h)), (tw.StartBeforeOnlyTimeWindow(ls, h), (0, ls, 0, h)),
                   (tw.EndFromOnlyTimeWindow(ee, h), (0, h, ee, h)), (tw.EndBeforeOnlyTimeWindow(le, h), (0, h, 0, le)),
                   (tw.StartTimeWindow(es, ls, h), (es, ls, 0, h)), (tw.EndTimeWindow(ee, le, h), (0, h, ee, le)),
                   (tw.EmptyTimeWindow(h), (0, h, 0, h))):
        require(f(got) == e, '%s is %r, expected %r' % (type(got).__name__, f(got), e))
    from skdecide.builders.scheduling import time_lag as tl
    g = lambda w: (w.minimum_time_lag, w.maximum_time_lags)
    require(g(tl.TimeLag(es, ls)) == (es, ls) and g(tl.MinimumOnlyTimeLag(es)) == (es, math.inf) and
            g(tl.MaximumOnlyTimeLag(ls)) == (0, ls), 'time lags')


def check(case):
    if 'bounds' in case:
        return durations(case)
    if 'window' in case:
        return windows(case)
    if 'graph' in case:
        graphs(case['graph'])
        return precedence(case['graph'])
    inst = case['inst']
    d = build(inst)
    ref = Ref(inst)
    ids = inst['ids']
    require(set(d.get_tasks_ids()) == set(ids), 'tasks')
    require({t: {str(m) for m in d.get_task_modes(t)} for t in ids} == {t: set(inst['modes'][str(t)]) for t in ids}, 'modes')
    require({t: {str(m) for m in ms} for t, ms in d.get_tasks_modes().items()} == {t: set(inst['modes'][str(t)]) for t in ids}, 'modes')
    for t in ids:
        for m, need in inst['modes'][str(t)].items():
            c = d.get_task_modes(t)[int(m)]
            n = len(next(iter(need.values()))) if inst['varying'] and need else 4
            require(set(c.get_ressource_names()) == set(need) == set(d.get_ressource_names_for_task_mode(t, int(m))), 'resource names')
            for at in range(n):
                for r in inst['types'] + ['other', 'r', '', 'r01']:
                    e = ref.need(t, m, r, at)
                    require(c.get_resource_need_at_time(r, at) == e and d.get_task_consumption(t, int(m), r, at) == e,
                            'need of %s at %d in mode %s of %d' % (r, at, m, t))
                require(set(c.get_non_zero_ressource_need_names(at)) == {r for r in need if ref.need(t, m, r, at) > 0}, 'non-zero needs')
            if not inst['varying']:
                require(all(c.get_resource_need(r) == need.get(r, 0) for r in inst['types'] + ['other', 'r', '', 'r01']), 'constant needs')
            s = inst['dur'][str(t)][m]
            if isinstance(s, list):
                v = d.get_task_duration_distribution(t, int(m)).get_values()
                require(close(v, s), 'durations %r, expected %r' % (v, s))
                require(d.sample_task_duration(t, int(m)) in {x for x, p in s if p}, 'sampled durations')
            else:
                require(d.sample_task_duration(t, int(m)) == s and d.get_latest_sampled_duration(t, int(m)) == s, 'duration')
    # precedence
    succ = {t: set(inst['succ'][str(t)]) for t in ids}
    pred = ref.pred
    anc = {}

    def up(t):
        if t not in anc:
            anc[t] = set()
            for p in pred[t]:
                anc[t] |= {p} | up(p)
        return anc[t]
    for t in ids:
        up(t)
    desc = {t: {u for u in ids if t in anc[u]} for t in ids}
    S = lambda m: {k: set(v) for k, v in m.items()}
    require(S(d.get_successors()) == succ and all(set(d.get_successors_task(t)) == succ[t] for t in ids), 'successors')
    require(S(d.get_predecessors()) == pred and all(set(d.get_predecessors_task(t)) == pred[t] for t in ids), 'predecessors')
    require(S(d.ancestors) == pred and S(d.successors) == succ, 'direct maps')
    require(S(d.full_predecessors) == anc and S(d.full_successors) == desc, 'transitive maps')
    g = d.graph
    require(set(g.get_edges()) == {(t, u) for t in ids for u in succ[t]} and list(g.get_nodes()) == sorted(ids), 'graph')
    require(all(set(g.get_neighbors(t)) == succ[t] and set(g.get_predecessors(t)) == pred[t] and set(g.precedessors_nodes(t)) == anc[t]
                for t in ids), 'graph neighbours')
    require(g.check_loop() is None, 'a loop in an acyclic graph')
    loops = Graph([(1, {}), (2, {}), (3, {})], [(1, 2, {'w': 5}), (2, 1, {}), (2, 3, {})], False)
    require(loops.check_loop() is not None and loops.get_attr_edge(1, 2, 'w') == 5 and loops.get_attr_edge(2, 1, 'w') is None, 'loop')
    un = Graph([(1, {'a': 7}), (2, {})], [(1, 2, {'w': 5})], True)
    require(set(un.get_neighbors(2)) == {1} and set(un.get_predecessors(1)) == {2} and un.get_attr_edge(2, 1, 'w') == 5
            and un.get_attr_node(1, 'a') == 7 and un.get_attr_node(2, 'a') is None and un.get_attr_node(9, 'a') is None, 'undirected graph')
    rng = _random.Random(case['seed'])
    for _ in range(6):
        s = State(task_ids=ids, tasks_available=set(ids))
        s.tasks_complete = {t for t in ids if rng.random() < .6}
        s.tasks_remaining = set(ids) - s.tasks_complete
        s.tasks_ongoing = {t for t in s.tasks_remaining if rng.random() < .3}
        s.tasks_remaining -= s.tasks_ongoing
        s.tasks_progress = {t: 1 if t in s.tasks_complete else rng.choice([0., .5, .99999, 1.]) for t in s.tasks_ongoing | s.tasks_complete}
        ok = {t for t in s.tasks_remaining if pred[t] <= s.tasks_complete}
        require(set(d.task_possible_to_launch_precedence(s)) == ok, 'possible to launch')
        require(set(d.task_modes_possible_to_launch(s)) == {(t, int(m)) for t in ok for m in inst['modes'][str(t)]}, 'modes to launch')

    class W(WithoutPrecedence):
        def get_tasks_ids(self):
            return ids
    require(S(W().get_successors()) == {t: set() for t in ids} == S(W().get_predecessors()), 'no precedence')
    # resources
    for r in ref.names:
        for t in (0, 1, 5, 30):
            require(d.sample_quantity_resource(r, t) == ref.quantity(r, t), 'quantity of %s at %d' % (r, t))
            if inst['calendar'] is not None:
                require(d.get_quantity_resource(r, t) == ref.quantity(r, t), 'quantity')
            else:
                require(d.get_original_quantity_resource(r) == ref.quantity(r, t) == d.get_quantity_resource(r, t), 'quantity')
        require(d.is_renewable(r) == inst['renew'][r] == d.get_resource_renewability()[r], 'renewability of %s' % r)
    require(set(d.get_resource_renewability()) == set(ref.names), 'renewability')
    require(d.check_unique_resource_names() is True, 'unique names rejected')
    require(list(d.get_resource_types_names()) == inst['types'] and list(d.get_resource_units_names()) == inst['units'], 'resource names')

    class X(DeterministicResourceAvailabilityChanges):
        a, b = inst['types'], inst['units']

        def get_resource_types_names(self):
            return self.a

        def get_resource_units_names(self):
            return self.b
    x = X()
    x.a = inst['types'] + inst['types'][:1]
    require(x.check_unique_resource_names() is False, 'duplicate types accepted')
    x.a, x.b = inst['types'], ['zz', inst['types'][0]]
    require(x.check_unique_resource_names() is False, 'a unit named like a type accepted')
    x.a, x.b = [], []
    require(x.check_unique_resource_names() is False, 'no resource accepted')
    require(d.get_variable_resource_consumption() == inst['varying'], 'variable consumption')
    co = inst['costs'] or {}
    require(d.get_mode_costs() == {t: {int(m): (co['mode'][str(t)][m] if co.get('mode') else 0.) for m in inst['modes'][str(t)]}
                                   for t in ids}, 'mode costs')
    require(d.get_resource_cost_per_time_unit() == {r: (co['res'][r] if co.get('res') else 0.) for r in ref.names}, 'resource costs')
    pre = d.get_task_preemptivity()
    require(pre == {t: bool(inst['pre'] and inst['pre'][str(t)]) for t in ids}, 'preemptivity')
    require(d.get_task_paused_non_renewable_resource_returned() == {t: inst['ret'][str(t)] if inst['pre'] else True for t in ids}, 'returned')
    require({t: v.name for t, v in d.get_task_resuming_type().items()} == {t: 'Resume' if inst['pre'] else 'NA' for t in ids}, 'resuming type')
    require(d.get_preallocations() == {} and d.get_time_lags() == {}, 'preallocations, lags')
    w = d.get_time_window()
    require(set(w) == set(ids) and all((v.earliest_start, v.latest_start, v.earliest_end, v.latest_end) ==
                                       (0, inst['horizon'], 0, inst['horizon']) for v in w.values()), 'time windows')
    sk = inst['skills']
    have = {u: sk['have'][u] for u in inst['units']} if sk else {}
    for t in ids:
        for m in inst['modes'][str(t)]:
            want = ref.wanted(t, m)
            require(d.get_skills_of_task(t, int(m)) == want, 'skills of task')
            if sk:
                able = [u for u in have if all(have[u].get(s, 0) >= v for s, v in want.items())] if want else [None]
                one = d.find_one_ressource_to_do_one_task(t, int(m))
                require(sorted(map(str, one)) == sorted(map(str, able)), 'units for %d: %r, expected %r' % (t, one, able))
            for _ in range(4):
                us = {u: 1 for u in inst['units'] if rng.random() < .6}
                us.update({r: rng.randint(0, 2) for r in inst['types'] if rng.random() < .6})
                ok = all(sum(have.get(u, {}).get(s, 0) for u in us) >= v for s, v in want.items())
                require(bool(d.check_if_skills_are_fulfilled(t, int(m), us)) == ok, 'skills of %r for %r: not %r' % (us, want, ok))
    if sk:
        names = {s for u in have for s in have[u]} | {s for t in sk['want'].values() for m in t.values() for s in m}
        require(set(d.get_skills_names()) == names, 'skill names')
        require(all(d.get_skills_of_resource(u) == have[u] for u in have), 'skills of units')
    if inst['cond']:
        require({t: [x.value for x in v] for t, v in d.get_task_existence_conditions().items()} ==
                {int(t): v for t, v in inst['cond']['exist'].items()}, 'existence conditions')
