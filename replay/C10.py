from replay.base import require
from skdecide import Domain, Solver
from skdecide.utils import match_solvers
import skdecide.builders.domain as bd
import skdecide.domains as doms
from skdecide.builders.domain.dynamics import UncertainTransitions
from skdecide.builders.domain.memory import Memoryless

RULE = 'random domains and solver domain types over all characteristic levels (direct or refining a predefined class); lists of solvers ' \
       'including iterators and duplicates'
BOUNDS = 'bounded: sampled pairs, up to 8 candidates'
ROUNDS = 2
DIMS = dict(agent=[bd.MultiAgent, bd.SingleAgent], concurrency=[bd.Parallel, bd.Sequential],
            constraints=[None, bd.Constrained],
            dynamics=[bd.Environment, bd.Simulation, UncertainTransitions, bd.EnumerableTransitions, bd.DeterministicTransitions],
            events=[bd.Events, bd.Actions, bd.UnrestrictedActions], goals=[None, bd.Goals],
            initialization=[None, bd.Initializable, bd.UncertainInitialized, bd.DeterministicInitialized],
            memory=[bd.History, bd.FiniteHistory, bd.Markovian, Memoryless],
            observability=[bd.PartiallyObservable, bd.TransformedObservable, bd.FullyObservable],
            renderability=[None, bd.Renderable], value=[bd.Rewards, bd.PositiveCosts])
PRE = ['Domain', 'RLDomain', 'MultiAgentRLDomain', 'StatelessSimulatorDomain', 'MDPDomain', 'POMDPDomain', 'GoalMDPDomain', 'GoalPOMDPDomain',
       'DeterministicPlanningDomain']


def cases(rng, tier):
    def levels(general=False):
        return {d: min(rng.randrange(len(v)), rng.randrange(len(v)) if general else 9) for d, v in DIMS.items()}
    for _ in range(120):
        dom = levels()
        sols = []
        for _ in range(rng.randint(0, 8)):
            s = levels(True)
            if rng.random() < .7:      # close to the domain: at most one level above in one dimension
                s = {d: rng.randint(0, dom[d]) for d in DIMS}
                if rng.random() < .5:
                    d = rng.choice(list(DIMS))
                    s[d] = min(dom[d] + 1, len(DIMS[d]) - 1)
            sols.append(dict(lv=s, add=rng.choice([True, True, False, None]), sub=rng.random() < .3))
        yield dict(k='lv', dom=dom, sols=sols, it=rng.random() < .5)
    for p in PRE:
        for q in PRE:
            yield dict(k='pre', p=p, q=q)


def top(T):
    out = {}
    for d, lv in DIMS.items():
        have = [k for k in lv if k is not None and issubclass(T, k)]
        if have:
            out[d] = have[-1]
    return out


def compliant(DT, T):
    return all(issubclass(DT, k) for k in top(T).values())


def mk(lv, base=Domain):
    return type('T', (base,) + tuple(DIMS[d][i] for d, i in lv.items() if DIMS[d][i] is not None), {})


def check(case):
    if case['k'] == 'pre':
        P, Q = getattr(doms, case['p']), getattr(doms, case['q'])
        S = type('S', (Solver,), {'T_domain': Q})
        require(set(S.get_domain_requirements()) == set(top(Q).values()), 'requirements of %s: %r' % (case['q'], S.get_domain_requirements()))
        require(S.check_domain(P()) == compliant(P, Q), '%s for a solver of %s' % (case['p'], case['q']))
        return
    DT = mk(case['dom'])
    d = DT()
    sols, want = [], []
    for e in case['sols']:
        T = mk(e['lv'])
        if e['sub']:
            T = type('T2', (T,), {})
        S = type('S', (Solver,), {'T_domain': T})
        if e['add'] is not None:
            S._check_domain_additional = classmethod(lambda cls, dd, e=e: dd is d and e['add'])
        sols.append(S)
        ok = compliant(DT, T) and e['add'] is not False
        r = S.get_domain_requirements()
        require(set(r) == set(top(T).values()) and len(r) == len(set(r)), 'requirements %r' % (r,))
        require(bool(S.check_domain(d)) == ok, 'check_domain: %r for requirements %r' % (DT.__mro__, r))
        if ok:
            want.append(S)
    got = match_solvers(d, iter(sols) if case['it'] else sols)
    require(set(got) == set(want), 'match_solvers gives %d of %d compliant solvers' % (len(got), len(want)))
    import skdecide.utils as utils
    old = utils.get_registered_solvers, utils.load_registered_solver
    reg = {'s%d' % i: S for i, S in enumerate(sols)}
    utils.get_registered_solvers, utils.load_registered_solver = lambda: ['no'] + list(reg), reg.get
    try:
        require(set(match_solvers(d)) == set(want), 'match_solvers among the registered solvers')
        require(match_solvers(d, []) == [] and match_solvers(d, ()) == [], 'match_solvers without candidates')
    finally:
        utils.get_registered_solvers, utils.load_registered_solver = old
