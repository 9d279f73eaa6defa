import contextlib, io
from replay.base import require
from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim, ObjectiveHandling, ParamsObjectiveFunction
from skdecide.builders.discrete_optimization.coloring.coloring_model import ColoringProblem, ColoringSolution, transform_color_values_to_value_precede
from skdecide.builders.discrete_optimization.coloring.solvers.greedy_coloring import GreedyColoring, NXGreedyColoringMethod
from skdecide.builders.discrete_optimization.coloring.coloring_toolbox import compute_cliques

RULE = 'random graphs and colourings against plain enumeration of the edges'
BOUNDS = 'bounded: at most 7 nodes'
ROUNDS = 300


def graph(rng, loops=False):
    n = rng.randint(1, 7)
    names = rng.sample(range(20), n) if rng.random() < .5 else rng.sample('abcdefgh', n)
    edges = []
    for _ in range(rng.randint(0, 10)):
        a, b = rng.choice(names), rng.choice(names)
        if (a != b or loops) and rng.random() < .9:
            edges.append([a, b])
    return dict(names=names, edges=edges)


def cases(rng, tier):
    for _ in range(40):
        g = graph(rng)
        g2 = dict(names=g['names'], edges=[e for e in graph(rng)['edges'] if e[0] in g['names'] and e[1] in g['names']])
        yield dict(what='colour', g=g, g2=g2, colors=[rng.randrange(rng.choice([2, 3, 9])) for _ in g['names']], known=rng.choice(['no', 'no', 'colors', 'both']))
    for _ in range(25):
        yield dict(what='greedy', g=graph(rng), method=rng.choice(['best', 'largest_first', 'smallest_last', 'independent_set', 'connected_sequential_dfs', 'connected_sequential_bfs', 'saturation_largest_first', 'random_sequential', 'connected_sequential', 'dsatur']),
                   single=rng.random() < .3)
    for _ in range(30):
        yield dict(what='graph', g=graph(rng, True), undirected=rng.random() < .5, data=[rng.randint(0, 3) for _ in range(30)])
    for _ in range(8):
        yield dict(what='cliques', g=graph(rng), nb=rng.choice([None, 1, 2, 50]))


def build(g, undirected=True):
    return Graph([(n, {}) for n in g['names']], [(a, b, {}) for a, b in g['edges']], undirected)


def counts(g, colors):
    """colors follow the sorted names"""
    c = dict(zip(sorted(g['names']), colors))
    return len(set(colors)), sum(c[a] == c[b] for a, b in g['edges'])


def colour(case):
    g, colors = case['g'], case['colors']
    pb = ColoringProblem(build(g))
    k, bad = counts(g, colors)
    kw = dict(no={}, colors=dict(nb_color=k), both=dict(nb_color=k, nb_violations=bad))[case['known']]
    sol = ColoringSolution(pb, list(colors), **kw)
    r0 = sol.to_reformated_solution()
    require(pb.evaluate(r0) == {'nb_colors': k, 'nb_violations': bad}, 'renumbered before it was evaluated: %r, expected %r' % (pb.evaluate(r0), (k, bad)))
    for _ in range(2):
        v = pb.evaluate(sol)
        require((v['nb_colors'], v['nb_violations']) == (k, bad), 'evaluates to %r, expected %r' % (v, (k, bad)))
    require(pb.satisfy(sol) == (bad == 0), 'satisfy with %d violations' % bad)
    require(pb.count_violations(sol) == bad, 'violations')
    require(pb.evaluate_from_encoding(list(colors), 'colors') == {'nb_colors': k, 'nb_violations': bad}, 'evaluation of the encoding')
    r = sol.to_reformated_solution()
    seen = []
    for c in colors:
        if c not in seen:
            seen.append(c)
    require(list(r.colors) == [seen.index(c) for c in colors], 'renumbered colours %r of %r' % (r.colors, colors))
    require(pb.evaluate(r) == v, 'renumbering changes the evaluation')
    for cp in (sol.copy(), sol.lazy_copy()):
        require(cp.colors == colors and pb.evaluate(cp) == v and cp.problem is pb, 'copy')
    cp = sol.copy()
    cp.colors[0] = 77
    require(sol.colors == colors, 'the copy shares its colours')
    changed = ColoringSolution(pb, list(colors))
    pb.evaluate(changed)
    for x in (0, len(colors) + 5):
        changed.colors[-1] = x
        b2 = counts(g, changed.colors)[1]
        require(pb.satisfy(changed) == (b2 == 0) and pb.count_violations(changed) == b2, 'satisfy after a colour changed: %r with %d violations' % (pb.satisfy(changed), b2))
    pb2 = ColoringProblem(build(case['g2']))
    sol.change_problem(pb2)
    k2, bad2 = counts(case['g2'], colors)
    require(pb2.evaluate(sol) == {'nb_colors': k2, 'nb_violations': bad2}, 'in another problem: %r, expected %r' % (pb2.evaluate(sol), (k2, bad2)))
    d = pb.get_dummy_solution()
    require(pb.satisfy(d) and pb.evaluate(d) == {'nb_colors': len(g['names']), 'nb_violations': 0}, 'dummy solution')
    reg = pb.get_attribute_register().dict_attribute_to_type['colors']
    require(reg['n'] == len(g['names']) and reg['arrity'] == len(g['names']) and pb.get_solution_type() is ColoringSolution, 'register')
    o = pb.get_objective_register()
    require(o.objective_sense is ModeOptim.MAXIMIZATION and all(o.dict_objective_to_doc[n]['default_weight'] < 0 for n in ('nb_colors', 'nb_violations')), 'objectives')


def greedy(case):
    g = case['g']
    pb = ColoringProblem(build(g))
    params = ParamsObjectiveFunction(ObjectiveHandling.SINGLE, ['nb_colors'], [1], ModeOptim.MINIMIZATION) if case['single'] else None
    rs = GreedyColoring(pb, params_objective_function=params).solve(strategy=NXGreedyColoringMethod[case['method']])
    (sol, fit), = rs.list_solution_fits
    k, bad = counts(g, sol.colors)
    require(bad == 0 and len(sol.colors) == len(g['names']), 'not a proper colouring: %r' % sol.colors)
    require(sol.colors == transform_color_values_to_value_precede(sol.colors) and sorted(set(sol.colors)) == list(range(k)), 'colours not numbered in order: %r' % sol.colors)
    require(fit == (k if case['single'] else -k), 'fitness %r with %d colours' % (fit, k))
    require(rs.best_solution is sol and rs.mode_optim is (ModeOptim.MINIMIZATION if case['single'] else ModeOptim.MAXIMIZATION), 'storage')
    if case['method'] == 'best':
        deg = max(sum(n in e for e in {tuple(sorted(map(str, e))) for e in g['edges']}) for n in map(str, g['names']))
        require(k <= deg + 1, '%d colours with degree %d' % (k, deg))
        for m in ('largest_first', 'smallest_last', 'saturation_largest_first'):
            k2 = len(set(GreedyColoring(pb).solve(strategy=NXGreedyColoringMethod[m]).list_solution_fits[0][0].colors))
            require(k <= k2, '%d colours, strategy %s alone gives %d' % (k, m, k2))


def cliques(case):
    g = case['g']
    import networkx as nx
    out, partial = compute_cliques(build(g).to_networkx(), case['nb'])
    nb = {n: {b for a, b in g['edges'] + [e[::-1] for e in g['edges']] if a == n} for n in g['names']}
    for c in out:
        require(all(b in nb[a] for a in c for b in c if a != b) and len(set(c)) == len(c), 'not a clique: %r' % c)
        require(not any(all(b in nb[a] for b in c) for a in g['names'] if a not in c), 'clique %r can be extended' % c)
    require(len({frozenset(c) for c in out}) == len(out), 'clique twice')
    total = len(list(nx.find_cliques(build(g).to_networkx())))
    require(len(out) == (total if case['nb'] is None else min(total, case['nb'])), 'number of cliques')
    require(partial or len(out) == total, 'says that all cliques are there')


def _graph(case):
    g, und = case['g'], case['undirected']
    d = iter(case['data'] * 3)
    nodes = [(n, {'w': next(d)}) for n in g['names']]
    edges = [(a, b, {'w': next(d)}) for a, b in g['edges']]
    G = Graph(nodes, edges, und)
    info = {}
    for a, b, x in edges:
        info[(a, b)] = x
        if und:
            info[(b, a)] = x
    require(G.edges_infos_dict == info and set(G.get_edges()) == set(info), 'edges')
    require(G.get_nodes() == sorted(g['names']), 'nodes')
    for n, x in nodes:
        require(set(G.get_neighbors(n)) == {b for a, b in info if a == n}, 'neighbours of %r: %r' % (n, G.get_neighbors(n)))
        require(set(G.get_predecessors(n)) == {a for a, b in info if b == n}, 'predecessors of %r: %r' % (n, G.get_predecessors(n)))
        require(G.get_attr_node(n, 'w') == x['w'] and G.get_attr_node(n, 'zz') is None and G.get_attr_node('absent', 'w') is None, 'attribute of a node')
        for m, _ in nodes:
            require(G.get_attr_edge(n, m, 'w') == (info[(n, m)]['w'] if (n, m) in info else None), 'attribute of an edge')
    nxg = G.to_networkx()
    require(set(nxg.nodes) == set(g['names']) and nxg.is_directed() == (not und) and all(nxg.has_edge(a, b) and nxg[a][b]['w'] == info[(a, b)]['w'] for a, b in info) and (und or nxg.number_of_edges() == len(info)), 'networkx graph')
    if not und:
        reach = {n: {b for a, b in info if a == n} for n in g['names']}
        for _ in g['names']:
            reach = {n: reach[n].union(*[reach[m] for m in reach[n]]) for n in reach}
        for n in g['names']:
            require(set(G.precedessors_nodes(n)) == {m for m in g['names'] if n in reach[m] and m != n}, 'ancestors')
        cyc = G.check_loop()
        require((cyc is not None) == any(n in reach[n] for n in reach), 'cycle')


def check(case):
    with contextlib.redirect_stdout(io.StringIO()):
        {'colour': colour, 'greedy': greedy, 'graph': _graph, 'cliques': cliques}[case['what']](case)
