"""Coherence of simulated behaviour with the white-box model (dynamics, initialization, observability builders)."""
from pyvc.contract import Registry
from pyvc.engine import *
from contracts.common import with_memory
from skdecide import Domain
from skdecide.core import Memory, Union, ImplicitDistribution, TransitionValue, SingleValueDistribution
from skdecide.builders.domain import *
from skdecide.builders.domain.dynamics import UncertainTransitions, EnumerableTransitions, DeterministicTransitions

CONTRACTS = contract = Registry()
ASSUMPTIONS = ['the hooks a domain author defines are arbitrary functions; a distribution is an arbitrary sampling function']
B = 'skdecide.builders.domain.'
FN = [B + 'dynamics:UncertainTransitions.' + m for m in (
    '_state_sample', 'get_next_state_distribution', 'get_transition_value', 'is_terminal',
    'is_transition_value_dependent_on_next_state', '_is_transition_value_dependent_on_next_state')] + [
    B + 'dynamics:DeterministicTransitions._get_next_state_distribution', B + 'dynamics:DeterministicTransitions.get_next_state',
    B + 'dynamics:EnumerableTransitions.get_next_state_distribution', B + 'dynamics:Simulation._state_step',
    B + 'dynamics:Environment._step', B + 'dynamics:Simulation._sample',
    B + 'initialization:UncertainInitialized._state_reset', B + 'initialization:UncertainInitialized.get_initial_state_distribution',
    B + 'initialization:DeterministicInitialized._get_initial_state_distribution_',
    B + 'initialization:DeterministicInitialized.get_initial_state', B + 'initialization:Initializable._reset',
    B + 'observability:TransformedObservable._get_observation_distribution', B + 'observability:TransformedObservable.get_observation',
    B + 'observability:FullyObservable._get_observation', B + 'observability:PartiallyObservable.get_observation_distribution']
DYN = {'uncertain': UncertainTransitions, 'enumerable': EnumerableTransitions, 'deterministic': DeterministicTransitions}
INI = {'uncertain': UncertainInitialized, 'deterministic': DeterministicInitialized}
OBS = {'partial': PartiallyObservable, 'transformed': TransformedObservable, 'full': FullyObservable}


MEM = {'Markovian': Markovian, 'Memoryless': Memoryless, 'History': History, 'FiniteHistory': FiniteHistory}


def code(m):
    """The memory a hook receives, as one value (a history of the two states it starts with here)."""
    return func('history', OBJ, OBJ)(m[0], m[1]) if isinstance(m, Memory) and len(m) == 2 else m


def domain(c, kinds=False):
    dyn = c.case('dynamics', list(DYN))
    ini = c.case('init', list(INI))
    ob = c.case('observability', list(OBS))
    mem = c.case('memory kind', list(MEM)) if kinds else 'Markovian'
    log = []
    nxt_, val_, term = func('next', OBJ, OBJ), func('value', OBJ, OBJ, OBJ), func('terminal', OBJ, ret=BOOL)
    nxt, val = (lambda m, a: nxt_(code(m), a)), (lambda m, a, s: val_(code(m), a, s))
    obs = func('observe', OBJ, OBJ)
    s0 = OBJ.fresh('s0')

    def drawn(kind, v):
        def draw():
            w = OBJ.fresh('drawn_' + kind)
            log.append((kind, v, w))
            return w
        return ImplicitDistribution(draw)

    class D(Domain, SingleAgent, Sequential, DYN[dyn], INI[ini], MEM[mem], OBS[ob]):
        def _get_transition_value(self, memory, action, next_state=None):
            return val(memory, action, next_state)

        def _is_terminal(self, state):
            return term(state)

        def _get_memory_maxlen_(self):
            return 2 if mem == 'FiniteHistory' else super()._get_memory_maxlen_()
    if dyn == 'deterministic':
        D._get_next_state = lambda self, m, a: nxt(m, a)
    else:
        D._get_next_state_distribution = lambda self, m, a: drawn('next', (code(m), a))
    if ini == 'deterministic':
        D._get_initial_state_ = lambda self: s0
    else:
        D._get_initial_state_distribution_ = lambda self: drawn('init', ())
    if ob == 'partial':
        D._get_observation_distribution = lambda self, s, a=None: drawn('obs', (s, a))
    elif ob == 'transformed':
        D._get_observation = lambda self, s, a=None: obs(s, a)
    return dyn, ini, ob, D(), log, nxt, val, term, obs, s0


def the(log, kind):
    return [e for e in log if e[0] == kind]


@contract('sample and step follow the model', *FN)
def sample(c):
    dyn, ini, ob, d, log, nxt, val, term, obs, s0 = domain(c, True)
    a, s1, s2 = OBJ.fresh('action'), OBJ.fresh('memory'), OBJ.fresh('memory2')
    m = None if isinstance(d, Memoryless) else s1 if isinstance(d, Markovian) else Memory([s1, s2])
    if c.case('how', ['sample', 'step']) == 'sample':
        out = d.sample(m, a)
    else:
        d.set_memory(m)
        out = d.step(a)
        if not isinstance(d, Memoryless):
            last = d._memory if isinstance(d, Markovian) else d._memory[-1]
            c.prove('memory ends with the reached state', eqf(last, nxt(m, a) if dyn == 'deterministic' else the(log, 'next')[0][2]))
    if dyn == 'deterministic':
        s = nxt(m, a)
    else:
        e = the(log, 'next')
        c.prove('one next state drawn', len(e) == 1)
        c.prove('drawn from the distribution of the source and action', And(eqf(e[0][1][0], code(m)), eqf(e[0][1][1], a)))
        s = e[0][2]
    c.prove('value of that very transition', eqf(out.value, val(m, a, s)))
    c.prove('termination of the reached state', Iff(out.termination, term(s)))
    c.prove('no info', out.info is None)
    if ob == 'partial':
        e = the(log, 'obs')
        c.prove('one observation drawn for the reached state and action', len(e) == 1 and And(eqf(e[0][1][0], s), eqf(e[0][1][1], a)))
        c.prove('observation', eqf(out.observation, e[0][2]))
    else:
        c.prove('observation', eqf(out.observation, s if ob == 'full' else obs(s, a)))


@contract('white-box queries agree', *FN)
def queries(c):
    dyn, ini, ob, d, log, nxt, val, term, obs, s0 = domain(c)
    m, a, s = OBJ.fresh('memory'), OBJ.fresh('action'), OBJ.fresh('state')
    if dyn == 'deterministic':
        c.prove('next state', eqf(d.get_next_state(m, a), nxt(m, a)))
        dist = d.get_next_state_distribution(m, a)
        gv = dist.get_values()
        c.prove('next state certain', len(gv) == 1 and And(eqf(gv[0][0], nxt(m, a)), eqf(gv[0][1], 1)))
        c.prove('next state drawn', eqf(dist.sample(), nxt(m, a)))
    else:
        x = d.get_next_state_distribution(m, a).sample()
        e = the(log, 'next')
        c.prove('distribution of the arguments', len(e) == 1 and And(eqf(e[0][1][0], m), eqf(e[0][1][1], a), eqf(x, e[0][2])))
    c.prove('value', And(eqf(d.get_transition_value(m, a, s), val(m, a, s)),
                         eqf(d.get_transition_value(m, a), val(m, a, None))))
    c.prove('terminal', Iff(d.is_terminal(s), term(s)))
    c.prove('default dependence on next state', d.is_transition_value_dependent_on_next_state() is True)
    act = c.case('obs action', [True, False])
    args = (s, a) if act else (s,)
    if ob == 'partial':
        log.clear()
        x = d.get_observation_distribution(*args).sample()
        c.prove('observation distribution', And(eqf(log[0][1][0], s), eqf(log[0][1][1], a) if act else log[0][1][1] is None,
                                                eqf(x, log[0][2])))
    else:
        want = s if ob == 'full' else obs(s, a if act else None)
        c.prove('observation', eqf(d.get_observation(*args), want))
        gv = d.get_observation_distribution(*args).get_values()
        c.prove('observation certain', len(gv) == 1 and And(eqf(gv[0][0], want), eqf(gv[0][1], 1)))


@contract('initial state', *FN)
def initial(c):
    dyn, ini, ob, d, log, nxt, val, term, obs, s0 = domain(c)
    how = c.case('first', ['reset', 'query'])
    if how == 'query':
        if ini == 'deterministic':
            c.prove('initial state', eqf(d.get_initial_state(), s0))
            gv = d.get_initial_state_distribution().get_values()
            c.prove('initial state certain', len(gv) == 1 and And(eqf(gv[0][0], s0), eqf(gv[0][1], 1)))
        else:
            x = d.get_initial_state_distribution().sample()
            c.prove('drawn', eqf(x, the(log, 'init')[0][2]))
    n = len(the(log, 'init'))
    o = d.reset()
    if ini == 'deterministic':
        s = s0
    else:
        c.prove('one initial state drawn', len(the(log, 'init')) == n + 1)
        s = the(log, 'init')[-1][2]
    c.prove('memory', eqf(d._memory, s))
    if ob == 'partial':
        e = the(log, 'obs')[-1]
        c.prove('observation', And(eqf(e[1][0], s), e[1][1] is None, eqf(o, e[2])))
    else:
        c.prove('observation', eqf(o, s if ob == 'full' else obs(s, None)))
    if ini == 'uncertain':
        d.reset()
        c.prove('a second reset draws again', len(the(log, 'init')) == n + 2)
