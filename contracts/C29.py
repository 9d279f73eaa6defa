"""Graph colouring: graphs, verdict and evaluation, renumbering, greedy solver."""
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
import skdecide.builders.discrete_optimization.coloring.coloring_model as cm
import skdecide.builders.discrete_optimization.coloring.coloring_toolbox as ct
import skdecide.builders.discrete_optimization.coloring.solvers.greedy_coloring as gc
import skdecide.builders.discrete_optimization.generic_tools.graph_api as ga
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim, ObjectiveHandling, ParamsObjectiveFunction

CONTRACTS = contract = Registry()
MBQI, FEAS_MS, TIMEOUT_MS = False, 500, 8000
ASSUMPTIONS = ['networkx: greedy_color gives a proper colouring of all nodes or raises; find_cliques enumerates the maximal cliques; graphs have the nodes and edges they are given; find_cycle and ancestors are theirs',
               'sorted() lists the elements in the order of the node names', 'len(set(x)) is the number of distinct values (an uninterpreted function of the set)',
               'the objective function is arbitrary (C26)']
B = 'skdecide.builders.discrete_optimization.'
M, GR, S = B + 'coloring.coloring_model:', B + 'generic_tools.graph_api:Graph.', B + 'coloring.solvers.greedy_coloring:GreedyColoring.'
Sel = z3.Select
I = lambda n: z3.Int(n + '!k')
ZI, ZB, U = z3.IntSort(), z3.BoolSort(), OBJ.sorts()[0]
EDGES = SeqTy(TupTy(OBJ, OBJ, OBJ))
rng = lambda j, n: z3.And(0 <= j, j < n)


class World:
    """A problem on n named nodes with any edges between them."""
    def __init__(self, c, build=False):
        self.c = c
        g = self.g = object.__new__(ga.Graph)
        g.nodes_infos_dict = DictTy(OBJ, OBJ).fresh('infos')
        names = g.nodes_name = SeqTy(OBJ).fresh('names')
        self.n, self.names = names.n, names.arrays[1]
        ix = self.IX = z3.Function(c.fresh_name('position'), U, ZI)
        j, x = I('j'), z3.Const('x!u', U)
        dom = g.nodes_infos_dict.terms[0]
        c.assume(num(card(dom)) == self.n)
        c.assume(fa([j], z3.Implies(rng(j, self.n), z3.And(Sel(dom, Sel(self.names, j)), ix(Sel(self.names, j)) == j)), Sel(self.names, j)))
        c.assume(fa([x], z3.Implies(Sel(dom, x), z3.And(rng(ix(x), self.n), Sel(self.names, ix(x)) == x)), Sel(dom, x), ix(x)))
        g.edges = EDGES.fresh('edges')
        self.A, self.B = g.edges.arrays[1], g.edges.arrays[2]
        c.assume(fa([j], z3.Implies(rng(j, g.edges.n), z3.And(Sel(dom, Sel(self.A, j)), Sel(dom, Sel(self.B, j)))), Sel(self.A, j), Sel(self.B, j)))
        self.dom = dom
        if build:
            return
        pb = self.pb = object.__new__(cm.ColoringProblem)
        pb.graph, pb.number_of_nodes, pb.nodes_name = g, SymInt(self.n), names
        arr = z3.Const(c.fresh_name('index'), z3.ArraySort(U, ZI))
        c.assume(fa([x], Sel(arr, x) == ix(x), Sel(arr, x)))
        pb.index_nodes_name = DictTy(OBJ, INT).wrap([dom, arr])
        idom = z3.Const(c.fresh_name('positions'), z3.ArraySort(ZI, ZB))
        c.assume(fa([j], Sel(idom, j) == rng(j, self.n), Sel(idom, j)))
        pb.index_to_nodes_name = DictTy(INT, OBJ).wrap([idom, self.names])

    def colors(self, n=None):
        s = SeqTy(INT).fresh('colors')
        self.c.assume(s.n == (self.n if n is None else n))
        return s

    def same(self, s, e):
        """both ends of edge e have one colour"""
        at = lambda x: num(s.elem(self.IX(x)))
        return at(Sel(self.A, e)) == at(Sel(self.B, e))

    def violations(self, s):
        return PrefixSum(SymSeq(self.g.edges.n, lambda e: SymInt(z3.If(self.same(s, e), 1, 0)), INT))

    def ncolors(self, s):
        return card(seq_set(s, INT))

    def proper(self, s):
        e = I('e')
        return fa([e], z3.Implies(rng(e, self.g.edges.n), z3.Not(self.same(s, e))), Sel(self.A, e))


@contract('construction of the problem', M + 'ColoringProblem.__init__')
def _(c):
    w = World(c, True)
    p = cm.ColoringProblem(w.g)
    x, j = z3.Const('x!u', U), I('j')
    c.prove('graph and nodes', And(p.graph is w.g, p.nodes_name is w.g.nodes_name, num(p.number_of_nodes) == w.n))
    d = p.index_nodes_name.terms
    c.prove('position of each node', fa([x], And(Sel(d[0], x) == Sel(w.dom, x), z3.Implies(Sel(w.dom, x), Sel(d[1], x) == w.IX(x))), Sel(w.dom, x), Sel(d[0], x)))
    d = p.index_to_nodes_name.terms
    c.prove('node at each position', fa([j], z3.And(Sel(d[0], j) == rng(j, w.n), z3.Implies(rng(j, w.n), Sel(d[1], j) == Sel(w.names, j))), Sel(w.names, j), Sel(d[0], j)))


@contract('evaluation', M + 'ColoringProblem.evaluate', M + 'ColoringProblem.count_violations', M + 'ColoringProblem.satisfy', M + 'ColoringProblem.evaluate_from_encoding',
          M + 'ColoringSolution.__init__', M + 'ColoringSolution.copy', M + 'ColoringSolution.lazy_copy', M + 'ColoringSolution.change_problem')
def _(c):
    w = World(c)
    s = w.colors()
    V, k = w.violations(s), w.ncolors(s)

    def count(lp):
        if lp.phase == 'assume' and lp.mode == 0:
            V.unfold(lp.i)
        return [('violations so far', num(lp.locals['val']) == V.f(lp.i))]
    c.loops.append(LoopContract(lambda lp: lp.fn().endswith('count_violations'), count, name='edges'))

    at = {}

    def none(lp):
        at['lp'] = lp
        e = I('e')
        return [('no violation so far', fa([e], z3.Implies(rng(e, lp.i), z3.Not(w.same(s, e))), Sel(w.A, e)))]
    c.loops.append(LoopContract(lambda lp: lp.fn().endswith('satisfy'), none, name='edges'))
    how = c.case('known', ['nothing', 'colours', 'both', 'encoding', 'copy', 'lazy copy', 'other problem', 'verdict', 'violations'])
    if how == 'encoding':
        r = w.pb.evaluate_from_encoding(s, 'colors')
    else:
        known = how in ('copy', 'lazy copy', 'both')
        sol = cm.ColoringSolution(w.pb, s, nb_color=k if known or how == 'colours' else None, nb_violations=V.total() if known else None)
        if how == 'violations':
            return c.prove('number of violations', num(w.pb.count_violations(sol)) == V.f(w.g.edges.n))
        if how == 'verdict':
            ok = w.pb.satisfy(sol)
            if ok is True:
                return c.prove('feasible: no edge within one colour', w.proper(s))
            lp = at['lp']
            return c.prove('infeasible: an edge within one colour', And(ok is False, rng(lp.i, w.g.edges.n), w.same(s, lp.i)))
        if how in ('copy', 'lazy copy'):
            new = sol.copy() if how == 'copy' else sol.lazy_copy()
            c.prove('the copy', And(new is not sol, new.problem is w.pb, new.nb_color is k, seq_eq(new.colors, s), how != 'copy' or new.colors is not s))
            sol = new
        if how == 'other problem':
            w2 = World(c)
            c.assume(w2.n == w.n)
            sol.nb_color, sol.nb_violations = k, V.total()
            sol.change_problem(w2.pb)
            c.prove('the problem', sol.problem is w2.pb)
            V, w = w2.violations(s), w2
        r = w.pb.evaluate(sol)
        c.prove('colours unchanged', seq_eq(sol.colors, s))
    c.prove('number of colours and of violations', And(set(r) == {'nb_colors', 'nb_violations'}, eqf(r['nb_colors'], k), eqf(r['nb_violations'], V.total())))


@contract('renumbered colours', M + 'transform_color_values_to_value_precede', M + 'ColoringSolution.to_reformated_solution')
def _(c):
    w = World(c)
    s = w.colors()
    X = s.arrays[1]
    FO = z3.Function(c.fresh_name('first'), ZI, ZB)                  # the first node of its colour
    PV = z3.Function(c.fresh_name('previous'), ZI, ZI)
    D = z3.Function(c.fresh_name('colours before'), ZI, ZI)
    FI = z3.Function(c.fresh_name('first of colour'), ZI, ZI)
    j, k, v = I('j'), I('k'), I('v')
    c.assume(fa([j, k], z3.Implies(z3.And(0 <= k, k < j, FO(j)), Sel(X, k) != Sel(X, j)), (FO(j), Sel(X, k))))
    c.assume(fa([j], z3.Implies(z3.And(j >= 0, z3.Not(FO(j))), z3.And(0 <= PV(j), PV(j) < j, Sel(X, PV(j)) == Sel(X, j))), FO(j)))
    c.assume(D(0) == 0)
    out = {}

    def inv(lp):
        i = lp.i
        if lp.phase == 'assume' and lp.mode == 0:
            c.assume(D(i + 1) == D(i) + z3.If(FO(i), 1, 0))
        d = DictTy(INT, INT).unwrap(lp.locals['index_value_color'])
        r = SeqTy(INT).unwrap(lp.locals['new_colors_vector'])
        out['r'] = r
        return [('colours used', And(num(lp.locals['new_value']) == D(i), D(i) >= 0, r[0] == i)),
                ('colours met', fa([j], z3.Implies(rng(j, i), z3.And(Sel(d[0], Sel(X, j)), Sel(d[1], Sel(X, j)) == Sel(r[1], j))), Sel(X, j), Sel(r[1], j))),
                ('values of the colours', fa([v], z3.Implies(Sel(d[0], v), rng(Sel(d[1], v), D(i))), Sel(d[0], v))),
                ('each colour was met', fa([v], z3.Implies(Sel(d[0], v), z3.And(rng(FI(v), i), Sel(X, FI(v)) == v)), Sel(d[0], v))),
                ('distinct colours', fa([v, k], z3.Implies(z3.And(Sel(d[0], v), Sel(d[0], k), v != k), Sel(d[1], v) != Sel(d[1], k)), (Sel(d[0], v), Sel(d[0], k)))),
                ('a new colour gets the next number', fa([j], z3.Implies(z3.And(rng(j, i), FO(j)), Sel(r[1], j) == D(j)), Sel(r[1], j), FO(j)))]
    # FI: where each colour is met first
    c.assume(fa([j], z3.Implies(j >= 0, z3.And(0 <= FI(Sel(X, j)), FI(Sel(X, j)) <= j, Sel(X, FI(Sel(X, j))) == Sel(X, j))), Sel(X, j)))
    c.loops.append(LoopContract(lambda lp: lp.fn().endswith('value_precede'), inv, name='nodes',
                                types=dict(index_value_color=DictTy(INT, INT), new_colors_vector=SeqTy(INT), new_value=INT)))
    V, nc = w.violations(s), INT.fresh('nb')
    sol = cm.ColoringSolution(w.pb, s, nb_color=nc, nb_violations=V.total())
    r = sol.to_reformated_solution()
    R = SeqTy(INT).unwrap(r.colors)
    c.prove('same partition of the nodes', And(R[0] == w.n, fa([j, k], z3.Implies(z3.And(rng(j, w.n), rng(k, w.n)), (Sel(R[1], j) == Sel(R[1], k)) == (Sel(X, j) == Sel(X, k))), (Sel(R[1], j), Sel(R[1], k)), (Sel(X, j), Sel(X, k)))))
    c.prove('the first node of each colour gets the next number', fa([j], z3.Implies(z3.And(rng(j, w.n), FO(j)), Sel(R[1], j) == D(j)), Sel(R[1], j)))
    c.prove('figures kept, original unchanged', And(r.problem is w.pb, r.nb_color is nc, eqf(r.nb_violations, V.total()), sol.colors is s, s.arrays[1] is X, r is not sol))


PAIRF = None


class PairTy(Ty):
    """A pair of node names as a key."""
    def sorts(self): return [U]
    def unwrap(self, v):
        if type(v) is not tuple or len(v) != 2:
            raise Unsupported('pair expected')
        return [PAIRF(lift(v[0]), lift(v[1]))]


INFO = DictTy(OBJ, OBJ)


@contract('construction of a graph', GR + '__init__', GR + 'build_edges', GR + 'build_nodes_infos_dict', GR + 'get_neighbors', GR + 'get_predecessors', GR + 'get_attr_node', GR + 'get_attr_edge',
          GR + 'get_edges', GR + 'get_nodes', GR + 'to_networkx')
def _(c):
    global PAIRF
    und = c.case('undirected', [True, False])
    nodes, edges = SeqTy(TupTy(OBJ, INFO)).fresh('nodes'), SeqTy(TupTy(OBJ, OBJ, INFO)).fresh('edges')
    N, A, Bt = nodes.arrays[1], edges.arrays[1], edges.arrays[2]
    f = lambda n, *s: z3.Function(c.fresh_name(n), *s)
    PAIRF = P = f('pair', U, U, U)
    p1, p2 = f('first', U, U), f('second', U, U)
    x, y, i = z3.Const('x!u', U), z3.Const('y!u', U), I('i')
    c.assume(fa([x, y], z3.And(p1(P(x, y)) == x, p2(P(x, y)) == y), P(x, y)))
    JN, JE = f('last node', ZI, U, ZI), f('last edge', ZI, U, U, ZI)              # index of the last one given, -1 if none
    c.assume(fa([x], JN(0, x) == -1, JN(0, x)))
    c.assume(fa([x, y], JE(0, x, y) == -1, JE(0, x, y)))

    def step_nodes(k): c.assume(fa([x], JN(k + 1, x) == z3.If(x == Sel(N, k), k, JN(k, x)), JN(k + 1, x)))

    def step_edges(k):
        hit = z3.And(x == Sel(A, k), y == Sel(Bt, k))
        if und:
            hit = z3.Or(hit, z3.And(y == Sel(A, k), x == Sel(Bt, k)))
        c.assume(fa([x, y], JE(k + 1, x, y) == z3.If(hit, k, JE(k, x, y)), JE(k + 1, x, y)))

    def node_facts(g, k):
        t = g.nodes_infos_dict.terms
        return [('the nodes', fa([x], z3.And(JN(k, x) >= -1, JN(k, x) < k if not z3.is_int_value(k) else True, Sel(t[0], x) == (JN(k, x) >= 0),
                                             z3.Implies(JN(k, x) >= 0, z3.And(*[Sel(u, x) == Sel(v, JN(k, x)) for u, v in zip(t[1:], nodes.arrays[2:])]))), Sel(t[0], x), JN(k, x)))]

    def edge_facts(g, k):
        t, nb, pr = g.edges_infos_dict.terms, g.neighbors_dict.terms, g.predecessors_dict.terms
        q = P(x, y)
        has = JE(k, x, y) >= 0
        return [('bounds', fa([x, y], z3.And(JE(k, x, y) >= -1, JE(k, x, y) <= k), JE(k, x, y))),
                ('the edges', fa([x, y], z3.And(Sel(t[0], q) == has, z3.Implies(has, z3.And(*[Sel(u, q) == Sel(v, JE(k, x, y)) for u, v in zip(t[1:], edges.arrays[3:])]))), JE(k, x, y), q)),
                ('neighbours', fa([x, y], z3.And(z3.Implies(Sel(nb[0], x), Sel(Sel(nb[1], x), y) == has), z3.Implies(z3.Not(Sel(nb[0], x)), z3.Not(has))), JE(k, x, y), Sel(Sel(nb[1], x), y))),
                ('predecessors', fa([x, y], z3.And(z3.Implies(Sel(pr[0], y), Sel(Sel(pr[1], y), x) == has), z3.Implies(z3.Not(Sel(pr[0], y)), z3.Not(has))), JE(k, x, y), Sel(Sel(pr[1], y), x)))]
    g = object.__new__(ga.Graph)
    made = {}

    class NX:
        class Gr:
            def __init__(self, directed): self.directed, self.n, self.e = directed, None, None
            def add_nodes_from(self, n): self.n = n
            def add_edges_from(self, e): self.e = e
        @staticmethod
        def DiGraph(): return NX.Gr(True)
        @staticmethod
        def Graph(): return NX.Gr(False)

    def order(d):
        if d is not g.nodes_infos_dict:
            raise Unsupported('sorted')
        made['names'] = SeqTy(OBJ).fresh('sorted')
        return made['names']

    # the empty dictionaries made by the constructor become symbolic ones when the loops are entered
    def nodes_loop(lp):
        if lp.phase == 'establish' and type(g.nodes_infos_dict) is dict:
            c.prove('starts empty', g.nodes_infos_dict == {})
            g.nodes_infos_dict = DictTy(OBJ, INFO).wrap(DictTy(OBJ, INFO).empty())
        if lp.phase == 'assume' and lp.mode == 0:
            step_nodes(lp.i)
        return node_facts(g, lp.i)

    def edges_loop(lp):
        if lp.phase == 'establish' and type(g.edges_infos_dict) is dict:
            c.prove('starts empty', g.edges_infos_dict == {} and g.neighbors_dict == {} and g.predecessors_dict == {})
            g.edges_infos_dict = DictTy(PairTy(), INFO).wrap(DictTy(PairTy(), INFO).empty())
            for k in ('neighbors_dict', 'predecessors_dict'):
                setattr(g, k, DictTy(OBJ, SetTy(OBJ)).wrap(DictTy(OBJ, SetTy(OBJ)).empty()))
        if lp.phase == 'assume' and lp.mode == 0:
            step_edges(lp.i)
        return edge_facts(g, lp.i)
    c.loops.append(LoopContract(lambda lp: lp.fn().endswith('build_nodes_infos_dict'), nodes_loop, name='nodes', modifies=lambda lp: [g.nodes_infos_dict]))
    c.loops.append(LoopContract(lambda lp: lp.fn().endswith('build_edges'), edges_loop, name='edges', modifies=lambda lp: [g.edges_infos_dict, g.neighbors_dict, g.predecessors_dict]))
    saved = ga.nx
    ga.nx, ga.sorted = NX, order
    try:
        g.__init__(nodes, edges, und)
    finally:
        ga.nx = saved
        del ga.sorted
    c.prove('as given', g.nodes is nodes and g.edges is edges and g.undirected is und and g.nodes_name is made['names'] and g.get_nodes() is made['names'])
    c.prove('networkx graph of the same nodes and edges', g.graph_nx.directed == (not und) and g.graph_nx.n is nodes and g.graph_nx.e is edges)
    for k, v in node_facts(g, nodes.n) + edge_facts(g, edges.n):
        c.prove(k, v)
    a, b, key = OBJ.fresh('a'), OBJ.fresh('b'), OBJ.fresh('key')
    ta, tb, tk = lift(a), lift(b), lift(key)
    n, e = nodes.n, edges.n
    what = c.case('query', ['neighbours', 'predecessors', 'node', 'edge', 'edges'])
    if what == 'neighbours' or what == 'predecessors':
        r = g.get_neighbors(a) if what == 'neighbours' else g.get_predecessors(a)
        has = JE(e, ta, tb) >= 0 if what == 'neighbours' else JE(e, tb, ta) >= 0
        if type(r) is SymSet:
            return c.prove('exactly the ' + what, Sel(r.t, tb) == has)
        c.prove('no ' + what, And(len(r) == 0, z3.Not(has)))
    elif what == 'edges':
        r = g.get_edges()
        c.prove('the edges', And(type(r) is SymView and r.kind == 'keys' and r.d is g.edges_infos_dict))
    else:
        r = g.get_attr_node(a, key) if what == 'node' else g.get_attr_edge(a, b, key)
        at = JN(n, ta) if what == 'node' else JE(e, ta, tb)
        arr = nodes.arrays[2:] if what == 'node' else edges.arrays[3:]
        if r is None:
            c.prove('absent', z3.Or(at < 0, z3.Not(Sel(Sel(arr[0], at), tk))))
        else:
            c.prove('the attribute given last', And(at >= 0, Sel(Sel(arr[0], at), tk), lift(r) == Sel(Sel(arr[1], at), tk)))


@contract('cliques', B + 'coloring.coloring_toolbox:compute_cliques')
def _(c):
    found = SeqTy(OBJ).fresh('cliques')
    limit = c.case('limit', [True, False])
    m = INT.fresh('limit') if limit else None
    if limit:
        c.assume(num(m) >= 1)
    graph = OBJ.fresh('graph')

    class NX:
        class algorithms:
            class clique:
                @staticmethod
                def find_cliques(g):
                    c.prove('of the graph', g is graph)
                    return found

    j = I('j')

    def facts(r, k): return And(r[0] == k, fa([j], z3.Implies(rng(j, k), Sel(r[1], j) == Sel(found.arrays[1], j)), Sel(r[1], j)))

    def inv(lp):
        return [('the cliques so far', facts(SeqTy(OBJ).unwrap(lp.locals['cliques']), lp.i)), ('their number', num(lp.locals['nb']) == lp.i), ('complete so far', lp.locals['not_all'] is False)] + \
            ([('below the limit', lp.i < num(m))] if limit else [])
    c.loops.append(LoopContract(lambda lp: True, inv, name='cliques', types=lambda lp, nm, v: {'cliques': SeqTy(OBJ), 'nb': INT, 'not_all': ConstTy(False), 'c': OBJ}.get(nm)))
    saved = ct.nx
    ct.nx, ct.print = NX, lambda *a: None
    try:
        r, partial = ct.compute_cliques(graph, m)
    finally:
        ct.nx = saved
        del ct.print
    R = SeqTy(OBJ).unwrap(r)
    c.prove('a prefix of the cliques', facts(R, R[0]))
    if partial is False:
        c.prove('all cliques', R[0] == found.n)
    else:
        c.prove('as many as asked for', And(limit and partial is True, R[0] == num(m) if limit else False, R[0] <= found.n))


@contract('greedy colouring', S + '__init__', S + 'solve', may_not_return=True, raises=(TypeError,))
def _(c):
    w = World(c)
    ALL = SeqTy(OBJ).fresh('strategies')
    tried = c.case('strategy', [gc.NXGreedyColoringMethod.best, gc.NXGreedyColoringMethod.largest_first, gc.NXGreedyColoringMethod.dsatur, 'default'])
    verbose = c.case('verbose', [False, True])
    j, k = I('j'), I('k')
    OK = z3.Function(c.fresh_name('works'), U, ZB)
    COL = z3.Function(c.fresh_name('colour'), U, U, ZI)            # strategy, node
    st, x = z3.Const('s!u', U), z3.Const('x!u', U)
    e = I('e')
    c.assume(fa([st, e], z3.Implies(rng(e, w.g.edges.n), COL(st, Sel(w.A, e)) != COL(st, Sel(w.B, e))), (COL(st, Sel(w.A, e)), COL(st, Sel(w.B, e)))))
    nxg, used = object(), []

    class NX:
        class algorithms:
            class coloring:
                @staticmethod
                def greedy_color(g, strategy=None, interchange=False):
                    c.prove('colours the graph of the problem', g is nxg)
                    t = lift(strategy)
                    used.append(t)
                    if not c.branch(OK(t)):
                        raise ValueError('strategy')
                    a = z3.Const(c.fresh_name('colouring'), z3.ArraySort(U, ZI))
                    c.assume(fa([x], Sel(a, x) == COL(t, x), Sel(a, x)))
                    NX.last = DictTy(OBJ, INT).wrap([w.dom, a])
                    return NX.last

    def order(l):
        d = getattr(l, 'dom', None)
        if d is None or not d.eq(w.dom):
            raise Unsupported('sorted')
        return w.g.nodes_name.copy()

    IMG = z3.Function(c.fresh_name('used by'), U, z3.ArraySort(ZI, ZB))      # colours a strategy uses
    SRC, v = z3.Function(c.fresh_name('node with'), U, ZI, U), I('v')
    c.assume(fa([st, x], z3.Implies(Sel(w.dom, x), Sel(IMG(st), COL(st, x))), COL(st, x)))
    c.assume(fa([st, v], z3.Implies(Sel(IMG(st), v), z3.And(Sel(w.dom, SRC(st, v)), COL(st, SRC(st, v)) == v)), Sel(IMG(st), v)))
    nb = lambda t: num(card(IMG(t)))

    def coloring(sol, t):
        return And(sol[0] == w.n, fa([j], z3.Implies(rng(j, w.n), Sel(sol[1], j) == COL(t, Sel(w.names, j))), Sel(sol[1], j), Sel(w.names, j)))
    state = {}

    def counted(loc):
        """the number of colours that the code counts is that of the strategy"""
        for q in loc.values():
            if type(q) is SymInt and q.t.num_args() == 1 and q.t.decl().name().startswith('card_') and used:
                c.prove('counts the colours used', q.t.arg(0) == IMG(used[-1]))

    def inv(lp):
        i = lp.i
        at = lambda k: Sel(ALL.arrays[1], k)
        if lp.phase == 'assume':
            if c.branch(z3.Const(c.fresh_name('found'), ZB)):
                lp.vals['best_nb_color'], lp.vals['best_solution'] = INT.fresh('nb'), SeqTy(INT).fresh('best')
                state['t'] = z3.Const(c.fresh_name('taken'), U)
            else:
                lp.vals['best_nb_color'], lp.vals['best_solution'] = float('inf'), None
                state['t'] = None
            lp.locals.update(lp.vals)
            state['b'] = lp.vals['best_nb_color']
            used.clear()
        b, s = lp.locals['best_nb_color'], lp.locals['best_solution']
        if lp.phase == 'preserve':
            counted(lp.locals)
            if b is not state['b']:
                state['t'] = used[-1]
        if s is None:
            return [('none found', And(type(b) is float and b == float('inf'), fa([j], z3.Implies(rng(j, i), z3.Not(OK(at(j)))), at(j))))]
        t = state['t']
        return [('the colouring of a strategy', And(OK(t), coloring(SeqTy(INT).unwrap(s), t))), ('its number of colours', eqf(b, nb(t))),
                ('no strategy tried uses fewer', fa([j], z3.Implies(z3.And(rng(j, i), OK(at(j))), num(b) <= nb(at(j))), at(j)))]
    c.loops.append(LoopContract(lambda lp: lp.fn().endswith('solve'), inv, name='strategies',
                                types=lambda lp, nm, v: ConstTy(None) if nm in ('best_solution', 'best_nb_color') else None))
    fitness, params, asked = OBJ.fresh('fitness'), ParamsObjectiveFunction(ObjectiveHandling.AGGREGATE, ['o'], [1], c.case('sense', list(ModeOptim))), []

    def renumbered(colors):
        """contract of transform_color_values_to_value_precede, proved above"""
        if colors is None:
            raise TypeError('no colouring')
        s, r = SeqTy(INT).unwrap(colors), SeqTy(INT).fresh('renumbered')
        R = r.arrays
        c.assume(z3.And(R[0] == s[0], fa([j, k], z3.Implies(z3.And(rng(j, s[0]), rng(k, s[0])), (Sel(R[1], j) == Sel(R[1], k)) == (Sel(s[1], j) == Sel(s[1], k))), (Sel(R[1], j), Sel(R[1], k)))))
        asked.append(s)
        return r
    evaluated = []

    def build(problem, params_objective_function):
        c.prove('objective of the problem', And(problem is w.pb, params_objective_function is given))
        return (lambda s: evaluated.append(s) or fitness), None, params
    given = params if c.case('params', [True, False]) else None
    w.g.to_networkx = lambda: nxg
    saved = gc.nx, gc.strategies, gc.build_aggreg_function_and_params_objective, cm.transform_color_values_to_value_precede
    gc.nx, gc.strategies, gc.sorted, gc.print = NX, ALL, order, lambda *a: None
    gc.build_aggreg_function_and_params_objective, cm.transform_color_values_to_value_precede = build, renumbered
    try:
        solver = gc.GreedyColoring(w.pb, given)
        kw = {} if tried == 'default' else dict(strategy=tried)
        try:
            rs = solver.solve(verbose=verbose, **kw)
        except TypeError:
            if tried in ('default', gc.NXGreedyColoringMethod.best):
                return c.prove('no result only if no strategy works', fa([j], z3.Implies(rng(j, ALL.n), z3.Not(OK(Sel(ALL.arrays[1], j)))), Sel(ALL.arrays[1], j)))
            return c.prove('no result only if the strategy fails', z3.Not(OK(lift(tried.value))))
    finally:
        gc.nx, gc.strategies, gc.build_aggreg_function_and_params_objective, cm.transform_color_values_to_value_precede = saved
        del gc.sorted, gc.print
    (sol, fit), = rs.list_solution_fits
    at = lambda x: num(sol.colors.elem(w.IX(x)))
    c.prove('a proper colouring of all nodes', And(sol.colors.n == w.n, fa([e], z3.Implies(rng(e, w.g.edges.n), at(Sel(w.A, e)) != at(Sel(w.B, e))), Sel(w.A, e))))
    c.prove('of this problem, with its fitness', sol.problem is w.pb and len(evaluated) == 1 and evaluated[0] is sol and fit is fitness and sol.nb_color is None and sol.nb_violations is None)
    c.prove('storage', rs.best_solution is sol and rs.mode_optim is params.sense_function)
    if tried in ('default', gc.NXGreedyColoringMethod.best):
        t = state['t']
        c.prove('no strategy uses fewer colours', And(len(asked) == 1, coloring(asked[0], t), fa([j], z3.Implies(z3.And(rng(j, ALL.n), OK(Sel(ALL.arrays[1], j))), nb(t) <= nb(Sel(ALL.arrays[1], j))), Sel(ALL.arrays[1], j))))
    else:
        c.prove('the strategy asked for', And(len(used) == 1, used[0] == lift(tried.value), coloring(asked[0], used[0])))
