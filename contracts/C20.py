"""What a scheduling domain says of its tasks, precedence, windows, lags, resources and costs is what its author gave."""
import itertools, math
from pyvc.contract import Registry
from contracts.sched import *
from skdecide.builders.scheduling import time_windows as tw, time_lag as tl
from skdecide.builders.scheduling.graph_toolbox import Graph
from skdecide.builders.scheduling.modes import MultiMode, SingleMode, ConstantModeConsumption, VaryingModeConsumption
from skdecide.builders.scheduling.precedence import WithPrecedence, WithoutPrecedence
from skdecide.builders.scheduling.preemptivity import WithoutPreemptivity, WithPreemptivity, ResumeType
from skdecide.builders.scheduling.resource_availability import *
from skdecide.builders.scheduling.resource_consumption import *
from skdecide.builders.scheduling.resource_costs import *
from skdecide.builders.scheduling.resource_renewability import MixedRenewable, RenewableOnly
from skdecide.builders.scheduling.resource_type import *
from skdecide.builders.scheduling.skills import WithResourceSkills, WithoutResourceSkills
from skdecide.builders.scheduling.preallocations import WithPreallocations, WithoutPreallocations

CONTRACTS = contract = Registry()
ASSUMPTIONS = ASSUME + ['networkx is run as it is: the precedence maps are decided on every digraph of three tasks (bounded)',
                        'finite mode tables, skills and resource lists of at most three entries with arbitrary numbers']
MBQI, FEAS_MS = False, 2000
B = 'skdecide.builders.scheduling.'


def dom(bases, **body):
    return object.__new__(type('Dom', bases if isinstance(bases, tuple) else (bases,), body))


# ------------------------------------------------------------------------------------------------ windows and lags
@contract('time windows', *[B + 'time_windows:' + n for n in tw.__all__ if n.endswith('Window') and not n.startswith('With')])
def _(c):
    es, ls, ee, le, h = [INT.fresh(n) for n in ('es', 'ls', 'ee', 'le', 'horizon')]
    for got, want in ((tw.TimeWindow(es, ls, ee, le, h), (es, ls, ee, le)), (tw.ClassicTimeWindow(es, le, h), (es, h, 0, le)),
                      (tw.StartFromOnlyTimeWindow(es, h), (es, h, 0, h)), (tw.StartBeforeOnlyTimeWindow(ls, h), (0, ls, 0, h)),
                      (tw.EndFromOnlyTimeWindow(ee, h), (0, h, ee, h)), (tw.EndBeforeOnlyTimeWindow(le, h), (0, h, 0, le)),
                      (tw.StartTimeWindow(es, ls, h), (es, ls, 0, h)), (tw.EndTimeWindow(ee, le, h), (0, h, ee, le)),
                      (tw.EmptyTimeWindow(h), (0, h, 0, h))):
        w = (got.earliest_start, got.latest_start, got.earliest_end, got.latest_end)
        c.prove(type(got).__name__, And(*[eqf(a, b) for a, b in zip(w, want)]))


@contract('time lags', *[B + 'time_lag:' + n for n in ('TimeLag', 'MinimumOnlyTimeLag', 'MaximumOnlyTimeLag')])
def _(c):
    lo, hi = INT.fresh('lo'), INT.fresh('hi')
    a, b, d = tl.TimeLag(lo, hi), tl.MinimumOnlyTimeLag(lo), tl.MaximumOnlyTimeLag(hi)
    c.prove('both', And(eqf(a.minimum_time_lag, lo), eqf(a.maximum_time_lags, hi)))
    c.prove('minimum only', b.maximum_time_lags == math.inf and eqf(b.minimum_time_lag, lo))
    c.prove('maximum only', And(eqf(d.minimum_time_lag, 0), eqf(d.maximum_time_lags, hi)))
    c.prove('none', dom(tl.WithoutTimeLag).get_time_lags() == {} == dom(WithoutPreallocations).get_preallocations())


# ------------------------------------------------------------------------------------- one entry per task (any tasks)
def per_task(c, V, value):
    """Loop contract: the dictionary built so far has one entry per visited task, with this value."""
    t = z3.Int('t!q')

    def inv(lp):
        ds = [v for k, v in lp.locals.items() if k in lp.mut and isinstance(v, dict)]
        if len(ds) != 1:
            raise Unsupported('dictionary of the tasks')
        d = ds[0]
        terms = d.terms if type(d) is SymDict else DictTy(INT, V).unwrap(d)
        yield 'entries so far', FA(lp, [t], z3.And(z3.Select(terms[0], t) == z3.Select(lp.visited, t), z3.Implies(
            z3.Select(lp.visited, t), z3.And(*[z3.Select(x, t) == y for x, y in zip(terms[1:], V.unwrap(value))]))))
    return LoopContract(lambda lp: type(lp.coll) is SymSet, inv, types=lambda lp, nm, v: DictTy(INT, V) if isinstance(v, dict) else None,
                        name='tasks')


def entry(c, got, ids, V, value, what):
    k = INT.fresh('any_task')
    if type(got) is not SymDict:
        raise Unsupported('dictionary of the tasks')
    c.prove(what, And(Iff(got.has(k), ids.has(k)), Implies(ids.has(k), And(*[
        z3.Select(x, num(k)) == y for x, y in zip(got.terms[1:], V.unwrap(value))]))))


@contract('not preemptive', *[B + 'preemptivity:WithoutPreemptivity.' + n for n in (
    'get_task_preemptivity', 'get_task_resuming_type', 'get_task_paused_non_renewable_resource_returned')])
def _(c):
    ids = SetTy(INT).fresh('ids')
    d = dom(WithoutPreemptivity, get_tasks_ids=lambda self: ids)
    what = c.case('query', ['preemptivity', 'resuming type', 'returned'])
    f, V, v = dict(preemptivity=(d.get_task_preemptivity, BOOL, False), returned=(d.get_task_paused_non_renewable_resource_returned, BOOL, True)
                   ).get(what, (d.get_task_resuming_type, ConstTy(ResumeType.NA), ResumeType.NA))
    c.loops.append(per_task(c, V, v))
    entry(c, f(), ids, V, v, 'every task: ' + what)


@contract('without windows', B + 'time_windows:WithoutTimeWindow.get_time_window')
def _(c):
    ids, h = SetTy(INT).fresh('ids'), INT.fresh('horizon')
    d = dom(tw.WithoutTimeWindow, get_tasks_ids=lambda self: ids, get_max_horizon=lambda self: h)
    names = ['earliest_start', 'latest_start', 'earliest_end', 'latest_end']

    def make(*vs):
        o = object.__new__(tw.EmptyTimeWindow)
        o.__dict__.update(zip(names, vs))
        return o
    V = RecTy(make, [(n, INT) for n in names])
    c.loops.append(per_task(c, V, make(0, h, 0, h)))
    entry(c, d.get_time_window(), ids, V, make(0, h, 0, h), 'every task may be executed within the horizon')


@contract('without precedence', B + 'precedence:WithoutPrecedence.get_successors', B + 'precedence:WithoutPrecedence.get_predecessors')
def _(c):
    ids = c.case('tasks', [[], [3], [1, 4, 2]])
    d = dom(WithoutPrecedence, get_tasks_ids=lambda self: ids)
    for m in (d.get_successors(), d.get_predecessors()):
        c.prove('no task before or after another', sorted(m) == sorted(ids) and all(list(v) == [] for v in m.values()))


# ------------------------------------------------------------------------------------------------------------- modes
@contract('modes', B + 'modes:SingleMode', B + 'modes:MultiMode')
def _(c):
    m = {k: {r: INT.fresh('need_%d_%s' % (k, r)) for r in ('a', 'b')[:k]} for k in (0, 1, 2)}
    one = {k: ConstantModeConsumption(m[k]) for k in m}
    d = dom(SingleMode, _get_tasks_mode=lambda self: one)
    got = d.get_tasks_modes()
    c.prove('one mode, number one', got == {k: {1: one[k]} for k in one} and all(d.get_task_modes(k) == {1: one[k]} for k in one))
    many = {5: {1: one[0], 7: one[1]}, 6: {2: one[2]}}
    e = dom(MultiMode, _get_tasks_modes=lambda self: many, _get_tasks_ids=lambda self: [5, 6])
    c.prove('the modes given', e.get_tasks_modes() == many and all(e.get_task_modes(k) == many[k] for k in many) and list(e.get_tasks_ids()) == [5, 6])
    c.prove('resources of a mode', all(set(e.get_ressource_names_for_task_mode(k, x)) == set(many[k][x].mode_details) for k in many for x in many[k]))
    t = INT.fresh('time')
    c.prove('consumption', And(*[eqf(e.get_task_consumption(6, 2, r, t), m[2][r]) for r in m[2]]) if m[2] else True)


# -------------------------------------------------------------------------------------------------------- precedence
@contract('edges of a graph', B + 'graph_toolbox:Graph.build_edges', B + 'graph_toolbox:Graph.get_neighbors',
          B + 'graph_toolbox:Graph.get_predecessors')
def _(c):
    undirected = c.case('undirected', [False, True])
    E = SeqTy(TupTy(INT, INT, OBJ)).fresh('edges')
    c.assume(E.n >= 0)
    arrays = SeqTy(TupTy(INT, INT, OBJ)).unwrap(E)
    n, src, dst, data = arrays
    g = object.__new__(Graph)
    MAP = DictTy(INT, SetTy(INT))
    g.edges, g.undirected = E, undirected
    g.neighbors_dict, g.predecessors_dict = MAP.wrap(MAP.empty()), MAP.wrap(MAP.empty())
    # pairs of nodes are coded by an injective function
    pair = z3.Function('pair', z3.IntSort(), z3.IntSort(), z3.IntSort())
    fst, snd = z3.Function('fst', z3.IntSort(), z3.IntSort()), z3.Function('snd', z3.IntSort(), z3.IntSort())
    x, y = z3.Ints('x!q y!q')
    c.assume(z3.ForAll([x, y], z3.And(fst(pair(x, y)) == x, snd(pair(x, y)) == y), patterns=[pair(x, y)]))
    infos = DictTy(INT, OBJ)
    info = infos.wrap(infos.empty())

    class Pairs:
        def __setitem__(self, k, v): info[SymInt(pair(num(k[0]), num(k[1])))] = v
    g.edges_infos_dict = Pairs()
    a, b = INT.fresh('a'), INT.fresh('b')
    j = z3.Int('j!q')
    edge = lambda u, v, upto: z3.Exists([j], z3.And(0 <= j, j < upto, z3.Select(src, j) == u, z3.Select(dst, j) == v))
    linked = lambda u, v, upto: z3.Or(edge(u, v, upto), z3.And(z3.BoolVal(undirected), edge(v, u, upto)))
    inn = lambda d, u, v: z3.And(d.has(u), z3.Select(z3.Select(d.terms[1], num(u)), num(v)))

    def inv(lp):
        yield 'successors so far', inn(g.neighbors_dict, a, b) == linked(num(a), num(b), lp.i)
        yield 'predecessors so far', inn(g.predecessors_dict, b, a) == linked(num(a), num(b), lp.i)
        yield 'edges so far', info.has(SymInt(pair(num(a), num(b)))) == linked(num(a), num(b), lp.i)
    c.loops.append(LoopContract(is_seq, inv, modifies=lambda lp: [g.neighbors_dict, g.predecessors_dict, info], name='edges'))
    g.build_edges()
    c.prove('successors', inn(g.neighbors_dict, a, b) == linked(num(a), num(b), n))
    c.prove('predecessors', inn(g.predecessors_dict, b, a) == linked(num(a), num(b), n))
    c.prove('edges', info.has(SymInt(pair(num(a), num(b)))) == linked(num(a), num(b), n))


PAIRS = [(x, y) for x in (1, 2, 3) for y in (1, 2, 3) if x != y]


def every_graph(c):
    return [p for p in PAIRS if c.case('%d before %d' % p, [False, True])]


def closure(edges):
    r = set(edges)
    while True:
        more = {(x, w) for x, y in r for z, w in r if y == z} - r
        if not more:
            return r
        r |= more


@contract('precedence maps', SDM + 'initialize_domain', SDM + 'compute_graph', B + 'precedence:WithPrecedence.get_predecessors',
          B + 'graph_toolbox:Graph.predecessors_map', B + 'graph_toolbox:Graph.successors_map', B + 'graph_toolbox:Graph.ancestors_map',
          B + 'graph_toolbox:Graph.descendants_map', B + 'graph_toolbox:Graph.check_loop')
def _(c):
    edges = every_graph(c)
    asked = []
    d = dom(sd.SchedulingDomain, get_tasks_ids=lambda self: [3, 1, 2],
            _get_successors=lambda self: {k: [y for x, y in edges if x == k] for k in (1, 2, 3)},
            get_tasks_modes=lambda self: {k: {m: None for m in (1, 2)} for k in (1, 2, 3)},
            sample_task_duration=lambda self, task, mode=1, progress_from=0.: 10 * task + mode)
    d.initialize_domain()
    tc = closure(edges)
    S = lambda m: {k: set(v) for k, v in m.items()}
    c.prove('predecessors', S(d.ancestors) == {k: {x for x, y in edges if y == k} for k in (1, 2, 3)} == S(d.get_predecessors())
            and all(set(d.get_predecessors_task(k)) == {x for x, y in edges if y == k} for k in (1, 2, 3)))
    c.prove('successors', S(d.successors) == {k: {y for x, y in edges if x == k} for k in (1, 2, 3)} == S(d.get_successors())
            and all(set(d.get_successors_task(k)) == {y for x, y in edges if x == k} for k in (1, 2, 3)))
    c.prove('all the tasks before', S(d.full_predecessors) == {k: {x for x, y in tc if y == k and x != k} for k in (1, 2, 3)})
    c.prove('all the tasks after', S(d.full_successors) == {k: {y for x, y in tc if x == k and y != k} for k in (1, 2, 3)})
    g = d.graph
    c.prove('graph', set(g.get_edges()) == set(edges) and list(g.get_nodes()) == [1, 2, 3] and all(
        set(g.get_neighbors(k)) == {y for x, y in edges if x == k} and set(g.get_predecessors(k)) == {x for x, y in edges if y == k}
        and set(g.precedessors_nodes(k)) == {x for x, y in tc if y == k and x != k} for k in (1, 2, 3)))
    c.prove('loops are found', (g.check_loop() is None) == all((k, k) not in tc for k in (1, 2, 3)))
    c.prove('durations of the modes', all(g.get_attr_node(k, m) == 10 * k + m for k in (1, 2, 3) for m in (1, 2)))
    c.prove('not in place unless asked', d.inplace_environment is False)


@contract('ready tasks', B + 'precedence:WithPrecedence.task_possible_to_launch_precedence', B + 'precedence:WithPrecedence.task_modes_possible_to_launch')
def _(c):
    d = dom(WithPrecedence, get_task_modes=lambda self, task_id: {m: None for m in range(1, task_id + 1)})
    d.ancestors = {1: [], 2: c.case('before 2', [[1], [3], [1, 3]]), 3: c.case('before 3', [[], [1]]), 4: [2, 3]}
    s = State([1, 2, 3, 4], set())
    s.tasks_complete = {k for k in (1, 2, 3) if c.case('%d complete' % k, [False, True])}
    s.tasks_remaining = {1, 2, 3, 4} - s.tasks_complete - ({2} if c.case('2 ongoing', [False, True]) else set())
    ok = {k for k in s.tasks_remaining if all(x in s.tasks_complete for x in d.ancestors[k])}
    got, modes = d.task_possible_to_launch_precedence(s), d.task_modes_possible_to_launch(s)
    c.prove('remaining tasks all of whose predecessors are complete', sorted(got) == sorted(ok))
    c.prove('each of their modes', sorted(modes) == sorted((k, m) for k in ok for m in range(1, k + 1)))


# ---------------------------------------------------------------------------------------------------------- resources
@contract('resource names', B + 'resource_availability:UncertainResourceAvailabilityChanges.check_unique_resource_names',
          B + 'resource_type:WithoutResourceTypes', B + 'resource_type:WithoutResourceUnit', B + 'resource_type:SingleResourceUnit')
def _(c):
    types, units = c.case('types', [[], ['a'], ['a', 'b'], ['a', 'a']]), c.case('units', [[], ['u'], ['a'], ['u', 'u'], ['u', 'b']])
    d = dom(UncertainResourceAvailabilityChanges, get_resource_types_names=lambda self: list(types), get_resource_units_names=lambda self: list(units))
    both = types + units
    c.prove('unique names, at least one', d.check_unique_resource_names() is (len(both) > 0 and len(set(both)) == len(both)))
    c.prove('no types', dom(WithoutResourceTypes).get_resource_types_names() == [])
    c.prove('no units', dom(WithoutResourceUnit).get_resource_units_names() == [] and len(dom(SingleResourceUnit).get_resource_units_names()) == 1
            and dom(WithoutResourceUnit).get_resource_type_for_unit() == {} == dom(SingleResourceUnit).get_resource_type_for_unit())


@contract('renewability', B + 'resource_renewability:MixedRenewable.is_renewable', B + 'resource_renewability:RenewableOnly')
def _(c):
    ren = {r: BOOL.fresh('renewable_' + r) for r in ('a', 'b', 'u')}
    d = dom(MixedRenewable, _get_resource_renewability=lambda self: ren)
    for r in ren:
        c.prove('as given', eqf(d.is_renewable(r), ren[r]) if isinstance(d.is_renewable(r), Sym) else d.is_renewable(r) is ren[r])
    types, units = ['a', 'b'][:c.case('types', [0, 1, 2])], ['u', 'v'][:c.case('units', [0, 1, 2])]
    e = dom(RenewableOnly, get_resource_types_names=lambda self: list(types), get_resource_units_names=lambda self: list(units))
    c.prove('all renewable', e.get_resource_renewability() == {r: True for r in types + units} and all(e.is_renewable(r) is True for r in types + units))


@contract('consumption and costs', B + 'resource_consumption:VariableResourceConsumption', B + 'resource_consumption:ConstantResourceConsumption',
          B + 'resource_costs:WithoutModeCosts', B + 'resource_costs:WithoutResourceCosts', B + 'resource_costs:WithModeCosts', B + 'resource_costs:WithResourceCosts')
def _(c):
    c.prove('variable', dom(VariableResourceConsumption).get_variable_resource_consumption() is True)
    c.prove('constant', dom(ConstantResourceConsumption).get_variable_resource_consumption() is False)
    modes = c.case('modes', [{}, {1: {1: 0}}, {1: {1: 0, 4: 0}, 2: {3: 0}}])
    d = dom(WithoutModeCosts, get_tasks_modes=lambda self: modes)
    c.prove('modes cost nothing', d.get_mode_costs() == {k: {m: 0 for m in modes[k]} for k in modes})
    types, units = ['a', 'b'][:c.case('types', [0, 1, 2])], ['u', 'v'][:c.case('units', [0, 1, 2])]
    e = dom(WithoutResourceCosts, get_resource_types_names=lambda self: list(types), get_resource_units_names=lambda self: list(units))
    c.prove('resources cost nothing', e.get_resource_cost_per_time_unit() == {r: 0 for r in types + units})
    mine = object()
    c.prove('as given', dom(WithModeCosts, _get_mode_costs=lambda self: mine).get_mode_costs() is mine
            and dom(WithResourceCosts, _get_resource_cost_per_time_unit=lambda self: mine).get_resource_cost_per_time_unit() is mine
            and dom(WithPreemptivity, _get_task_preemptivity=lambda self: mine).get_task_preemptivity() is mine
            and dom(WithPreemptivity, _get_task_resuming_type=lambda self: mine).get_task_resuming_type() is mine
            and dom(WithPreemptivity, _get_task_paused_non_renewable_resource_returned=lambda self: mine).get_task_paused_non_renewable_resource_returned() is mine
            and dom(tw.WithTimeWindow, _get_time_window=lambda self: mine).get_time_window() is mine
            and dom(tl.WithTimeLag, _get_time_lags=lambda self: mine).get_time_lags() is mine
            and dom(WithPreallocations, _get_preallocations=lambda self: mine).get_preallocations() is mine)


@contract('skill names', B + 'skills:WithResourceSkills.get_skills_names', B + 'skills:WithResourceSkills.get_skills_of_resource', B + 'skills:WithoutResourceSkills')
def _(c):
    have = c.case('skills of resources', [{}, {'u': {'s': 1}}, {'u': {'s': 1, 't': 0}, 'v': {'w': 2}}, {'u': {}}])
    want = c.case('skills of tasks', [{}, {1: {1: {'s': 1}}}, {1: {1: {'x': 1}, 2: {'y': 3, 's': 0}}, 2: {1: {'z': 1}}}])
    d = dom(WithResourceSkills, _get_all_resources_skills=lambda self: have, _get_all_tasks_skills=lambda self: want)
    c.prove('every skill of a resource or a task', set(d.get_skills_names()) == {s for u in have.values() for s in u} | {
        s for k in want.values() for m in k.values() for s in m})
    c.prove('skills of a resource', all(d.get_skills_of_resource(u) == have[u] for u in have))
    e = dom(WithoutResourceSkills)
    c.prove('no skills', e.get_skills_names() == set() and e.get_skills_of_resource('u') == {} == e.get_skills_of_task(1, 1)
            and e.check_if_skills_are_fulfilled(1, 1, {'u': 1}) is True)
