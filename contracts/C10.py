"""Solver-domain matching (skdecide.solvers, skdecide.utils.match_solvers)."""
import builtins, itertools
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
from skdecide import Domain, Solver
import skdecide.utils as utils
import skdecide.domains as doms
import skdecide.builders.domain as bd
from skdecide.builders.domain.dynamics import UncertainTransitions
from skdecide.builders.domain.memory import Memoryless

CONTRACTS = contract = Registry()
ASSUMPTIONS = ['solver domain types are built from the characteristic classes of the library (every combination of levels, directly or '
               'through the predefined domain classes); other characteristic hierarchies are not enumerated']
FN = ['skdecide.solvers:Solver.' + m for m in ('get_domain_requirements', '_get_domain_requirements', 'check_domain',
                                               '_check_domain', '_check_domain_additional')]
# the documented characteristic hierarchies, most general first (None: the characteristic may be absent)
DIMS = dict(agent=[bd.MultiAgent, bd.SingleAgent], concurrency=[bd.Parallel, bd.Sequential],
            constraints=[None, bd.Constrained],
            dynamics=[bd.Environment, bd.Simulation, UncertainTransitions, bd.EnumerableTransitions, bd.DeterministicTransitions],
            events=[bd.Events, bd.Actions, bd.UnrestrictedActions], goals=[None, bd.Goals],
            initialization=[None, bd.Initializable, bd.UncertainInitialized, bd.DeterministicInitialized],
            memory=[bd.History, bd.FiniteHistory, bd.Markovian, Memoryless],
            observability=[bd.PartiallyObservable, bd.TransformedObservable, bd.FullyObservable],
            renderability=[None, bd.Renderable], value=[bd.Rewards, bd.PositiveCosts])


def wanted(combo):
    return {k for k in combo if k is not None}


def classes(combo):
    return tuple(k for k in combo if k is not None)


@contract('requirements of every combination of characteristics', *FN[:2])
def requirements(c):
    ag, dy, me = c.case('agent', DIMS['agent']), c.case('dynamics', DIMS['dynamics']), c.case('memory', DIMS['memory'])
    bad = None
    n = 0
    for rest in itertools.product(*[DIMS[d] for d in ('concurrency', 'constraints', 'events', 'goals', 'initialization',
                                                      'observability', 'renderability', 'value')]):
        co, cn, evs, go, ini, ob, re_, va = rest
        combo = (ag, co, cn, dy, evs, go, ini, me, ob, re_, va)
        T = type('T', (Domain,) + classes(combo), {})
        S = type('S', (Solver,), {'T_domain': T})
        r = S.get_domain_requirements()
        n += 1
        if set(r) != wanted(combo) or len(r) != len(set(r)):
            bad = [combo, r]
            break
    c.prove('exactly the most specific class of every characteristic', bad is None, ) if bad is None else \
        c.fail('exactly the most specific class of every characteristic', {'reason': 'wrong requirements', 'case': repr(bad)[:600]})


@contract('requirements of predefined domain classes', *FN[:2])
def predefined(c):
    K = c.case('class', ['Domain', 'RLDomain', 'MultiAgentRLDomain', 'StatelessSimulatorDomain', 'MDPDomain', 'POMDPDomain', 'GoalMDPDomain',
                         'GoalPOMDPDomain', 'DeterministicPlanningDomain'])
    T = getattr(doms, K)
    kw = c.case('more', [(), (bd.Constrained,), (bd.Renderable, bd.Goals)])
    T2 = type('T', (T,) + tuple(k for k in kw if not issubclass(T, k)), {})
    want = set()
    for lv in DIMS.values():
        have = [k for k in lv if k is not None and issubclass(T2, k)]
        if have:
            want.add(have[-1])
    S = type('S', (Solver,), {'T_domain': T2})
    r = S.get_domain_requirements()
    c.prove('requirements', set(r) == want and len(r) == len(want))


class SymDomain:
    """An arbitrary domain: membership in a characteristic class is an uninterpreted predicate."""


def sym_isinstance():
    def isi(x, k):
        if type(k) is SymObj and type(x) is SymDomain:
            return func('has_characteristic', OBJ, ret=BOOL)(k)
        return builtins.isinstance(x, k)
    engine.CTORS[builtins.isinstance] = isi
    return lambda: engine.CTORS.pop(builtins.isinstance, None)


@contract('check_domain', *FN[2:], setup=sym_isinstance)
def check(c):
    reqs = SeqTy(OBJ).fresh('requirements')
    extra = BOOL.fresh('additional')
    seen = []
    has = func('has_characteristic', OBJ, ret=BOOL)
    over = c.case('additional check', ['overridden', 'default'])

    class S(Solver):
        @classmethod
        def _get_domain_requirements(cls):
            return reqs
    if over == 'overridden':
        S._check_domain_additional = classmethod(lambda cls, d: (seen.append(d), bool(extra))[1])
    d = SymDomain()
    r = S.check_domain(d)
    allreq = forall_in(reqs, lambda k: has(k))
    c.prove('all requirements and the additional check', Iff(r, And(allreq, extra) if over == 'overridden' else allreq))
    c.prove('additional check sees the domain', all(x is d for x in seen))


def compliant(t):
    return func('compliant', OBJ, ret=BOOL)(t)


def listed(out, s, upto):
    """The two halves of "out holds exactly the compliant elements of s[:upto]"."""
    j, k = z3.Int('j!m'), z3.Int('k!m')
    if z3.is_int_value(out.n) and out.n.as_long() == 0:
        return [('only compliant candidates', z3.BoolVal(True)),
                ('every compliant candidate', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < upto), z3.Not(
                    num_bool(compliant(tt(s.elem(k))))))))]
    at = lambda q, t: tt(q.elem(t))
    return [('only compliant candidates', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < out.n), z3.And(
                num_bool(compliant(at(out, j))), z3.Exists([k], z3.And(k >= 0, k < upto, eqf(at(s, k), at(out, j)))))))),
            ('every compliant candidate', z3.ForAll([k], z3.Implies(
                z3.And(k >= 0, k < upto, num_bool(compliant(at(s, k)))),
                z3.Exists([j], z3.And(j >= 0, j < out.n, eqf(at(out, j), at(s, k)))))))]


def match_loop():
    def is_list(loop, nm, v):
        return SeqTy(CAND) if type(v) in (list, SymSeq) else None

    def inv(loop):
        nm = [n for n in loop.mut if type(loop.entry_locals.get(n)) in (list, SymSeq)]
        if len(nm) != 1:
            raise Unsupported('result list of the loop not recognised')
        return listed(to_seq(loop.locals[nm[0]]), loop.seq, loop.i)
    engine.CTX.loops.append(LoopContract(lambda l: l.fn() == 'match_solvers', inv, types=is_list, name='candidates'))


def num_bool(b):
    return b.t if type(b) is SymBool else z3.BoolVal(bool(b))


@contract('match_solvers keeps exactly the compliant candidates', 'skdecide.utils:match_solvers')
def match(c):
    match_loop()
    Cand.dom = object()
    cands = SeqTy(CAND).fresh('candidates')
    old = utils.get_registered_solvers, utils.load_registered_solver
    given, reg = c.case('candidates', ['given', 'empty', 'registered']), {}
    names = ['r%d' % i for i in range(c.case('registered', [0, 1, 3]))]
    for nm in names:
        reg[nm] = None if nm == 'r1' else Cand(OBJ.fresh('registered'))
    utils.get_registered_solvers, utils.load_registered_solver = lambda: list(names), lambda n: reg[n]
    try:
        r = utils.match_solvers(Cand.dom, *{'given': [cands], 'empty': [[]], 'registered': []}[given])
    finally:
        utils.get_registered_solvers, utils.load_registered_solver = old
    if given != 'given':
        want = [k for k in reg.values() if k is not None] if given == 'registered' else []
        ok = func('compliant', OBJ, ret=BOOL)
        c.prove('no other candidate', all(any(x is k for k in want) for x in r))
        for k in want:
            c.prove('compliant registered candidates', Iff(ok(k.t), any(x is k for x in r)))
        return
    out = to_seq(r)
    for n, f in listed(out, cands, cands.n):
        c.prove(n, f)


def tt(x):
    return x.t if type(x) is Cand else x


class Cand:
    def __init__(self, t):
        self.t = t

    def check_domain(self, d):
        if d is not Cand.dom:
            raise Unsupported('another domain checked')
        return func('compliant', OBJ, ret=BOOL)(self.t)

    def __eq__(self, o):
        return self.t == o.t if type(o) is Cand else False
    __hash__ = None


CAND = RecTy(Cand, [('t', OBJ)])
