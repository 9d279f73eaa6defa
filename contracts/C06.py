"""Internal memory of a domain used as an environment (reset / step / set_memory / sample)."""
from pyvc.contract import Registry
from pyvc.engine import *
from contracts.common import with_memory
from skdecide import Domain
from skdecide.core import Memory, Union, StrDict, TransitionOutcome, ImplicitDistribution, TransitionValue
from skdecide.builders.domain import *
from skdecide.builders.domain import memory as mem_

CONTRACTS = contract = Registry()
ASSUMPTIONS = ['the hooks a domain author defines are arbitrary functions of their arguments (observations and next states are '
               'drawn by arbitrary sampling functions)',
               'the deque constructor and append keep the last maxlen elements (assumed contract)',
               'states are opaque immutable values']
B = 'skdecide.builders.domain.'
FN = [B + 'dynamics:Environment._step', B + 'dynamics:Environment.step', B + 'dynamics:Simulation._state_step',
      B + 'dynamics:Simulation._sample', B + 'dynamics:Simulation.sample', B + 'dynamics:Simulation._set_memory',
      B + 'dynamics:Simulation.set_memory', B + 'initialization:Initializable._reset', B + 'initialization:Initializable.reset',
      B + 'memory:History._init_memory', B + 'memory:History._get_memory_maxlen', B + 'memory:FiniteHistory._get_memory_maxlen',
      B + 'memory:Markovian._init_memory', B + 'memory:Markovian._get_memory_maxlen_', B + 'memory:Memoryless._init_memory',
      B + 'memory:Memoryless._get_memory_maxlen_']
KINDS = {'history': History, 'finite': FiniteHistory, 'markovian': Markovian, 'memoryless': mem_.Memoryless}


def domain(c):
    kind = c.case('memory kind', list(KINDS))
    level = c.case('dynamics', ['environment', 'simulation'])
    N = INT.fresh('maxlen') if kind == 'finite' else None
    if N is not None:
        c.assume(N >= 1)
    log = []

    class D(Domain, SingleAgent, Sequential, {'environment': Environment, 'simulation': Simulation}[level], Initializable,
            KINDS[kind]):
        def _get_observation_distribution(self, state, action=None):
            o = OBJ.fresh('obs')
            log.append(('obs', state, action, o))
            return ImplicitDistribution(lambda: o)

        def _state_reset(self):
            s = OBJ.fresh('s0')
            log.append(('reset', s))
            return s

        def transition(self, memory, action):
            s, v, t, i = OBJ.fresh('next'), OBJ.fresh('value'), BOOL.fresh('term'), OBJ.fresh('info')
            log.append(('next', freeze(memory), action, s, v, t, i))
            return TransitionOutcome(s, v, t, i)
    if level == 'environment':
        D._state_step = lambda self, action: self.transition(self._memory, action)
    else:
        D._state_sample = D.transition
    if kind == 'finite':
        D._get_memory_maxlen_ = lambda self: N
    return kind, level, N, D(), log


def freeze(m):
    return list(m) if type(m) is Memory else m.copy() if type(m) is SymSeq else m


def seq(m):
    return to_seq(list(m)) if type(m) in (Memory, list) else m


def any_memory(c, kind, N, name='memory'):
    """An arbitrary legal memory of the domain."""
    if kind == 'history':
        return SeqTy(OBJ, cls=Memory).fresh(name)
    if kind == 'finite':
        m = SeqTy(OBJ, cls=Memory).fresh(name)
        m.maxlen_ = N
        c.assume(m.n <= num(N))
        return m
    return OBJ.fresh(name)


def same(a, b):
    """Formula: two memories have the same content."""
    if isinstance(a, list) or type(a) in (Memory, SymSeq):
        return seq_eq(seq(a), seq(b))
    return eqf(a, b)


def extended(c, kind, N, old, s):
    """The memory expected after reaching state s from memory old."""
    if kind == 'markovian':
        return s
    if kind == 'memoryless':
        return old
    o = seq(old)
    e, n = o.elem, o.n
    if kind == 'history':
        return SymSeq(n + 1, lambda j: ite(j == n, s, e(j)))
    k = z3.If(n < num(N), n + 1, num(N))
    drop = n + 1 - k
    return SymSeq(k, lambda j: ite(j == k - 1, s, e(j + drop)))


def outcome_ok(c, out, ob, nx):
    c.prove('outcome fields', And(eqf(out.observation, ob[3]), eqf(out.value, nx[4]), eqf(out.termination, nx[5]),
                                  eqf(out.info, nx[6])))


@contract('reset', *FN, setup=with_memory)
def reset(c):
    kind, level, N, d, log = domain(c)
    r = d.reset()
    c.prove('one reset, one observation', [e[0] for e in log] == ['reset', 'obs'])
    s = log[0][1]
    c.prove('observation of the initial state', And(eqf(log[1][1], s), log[1][2] is None, eqf(r, log[1][3])))
    if kind == 'memoryless':
        c.prove('nothing remembered', d._memory is None)
    elif kind == 'markovian':
        c.prove('initial state remembered', eqf(d._memory, s))
    else:
        m = seq(d._memory)
        c.prove('history starts with the initial state', And(m.n == 1, eqf(m.elem(z3.IntVal(0)), s)))
        c.prove('history kind', isinstance(d._memory, Memory) and eqf(d._memory.maxlen, N))


@contract('step', *FN, setup=with_memory)
def step(c):
    kind, level, N, d, log = domain(c)
    d._memory = m = any_memory(c, kind, N) if kind != 'memoryless' else None
    old = freeze(m)
    a = OBJ.fresh('action')
    out = d.step(a)
    c.prove('one transition, one observation', sorted(e[0] for e in log) == ['next', 'obs'])
    nx, ob = [[e for e in log if e[0] == k][0] for k in ('next', 'obs')]
    c.prove('transition from the current memory with the given action', And(same(nx[1], old), eqf(nx[2], a)))
    c.prove('observation of the reached state and action', And(eqf(ob[1], nx[3]), eqf(ob[2], a)))
    outcome_ok(c, out, ob, nx)
    if kind == 'memoryless':
        c.prove('memory', d._memory is None)
    else:
        c.prove('memory', same(d._memory, extended(c, kind, N, old, nx[3])))
        if kind in ('history', 'finite'):
            c.prove('capacity', And(isinstance(d._memory, Memory), eqf(d._memory.maxlen, N)))


@contract('reset then steps', *FN, setup=with_memory)
def run(c):
    """Unrolled start of an episode on concrete (unsymbolic) deques: reset and three steps."""
    kind, level, N, d, log = domain(c)
    if kind == 'finite':
        n = c.case('N', [1, 2, 3, 5])
        type(d)._get_memory_maxlen_ = lambda self: n
    d.reset()
    acts = [OBJ.fresh('action%d' % i) for i in range(3)]
    for a in acts:
        d.step(a)
    states = [e[1] if e[0] == 'reset' else e[3] for e in log if e[0] in ('reset', 'next')]
    seen = [e[1] for e in log if e[0] == 'next']
    for i, s in enumerate(seen):
        want = states[:i + 1]
        if kind == 'finite':
            want = want[-n:]
        if kind in ('history', 'finite'):
            c.prove('memory seen by step %d' % (i + 1), seq_eq(seq(s), to_seq(want)))
        else:
            c.prove('memory seen by step %d' % (i + 1), eqf(s, want[-1]) if kind == 'markovian' else s is None)


@contract('set_memory', *FN, setup=with_memory)
def set_memory(c):
    kind, level, N, d, log = domain(c)
    if level == 'environment':
        return
    m = any_memory(c, kind, N)
    given = freeze(m)
    d.set_memory(m)
    c.prove('memory is the given one', same(d._memory, given))
    c.prove('nothing computed', not log)
    a = OBJ.fresh('action')
    d.step(a)
    nx = [e for e in log if e[0] == 'next'][0]
    c.prove('step starts from it', same(nx[1], given))
    c.prove("caller's object untouched by later steps", same(m, given))
    if kind == 'memoryless':
        c.prove('kept', same(d._memory, given))
    else:
        c.prove('memory after the step', same(d._memory, extended(c, kind, N, given, nx[3])))


@contract('sample', *FN, setup=with_memory)
def sample(c):
    kind, level, N, d, log = domain(c)
    if level == 'environment':
        return
    d._memory = m0 = any_memory(c, kind, N, 'internal')
    old = freeze(m0)
    m, a = any_memory(c, kind, N), OBJ.fresh('action')
    given = freeze(m)
    out = d.sample(m, a)
    c.prove('one transition, one observation', sorted(e[0] for e in log) == ['next', 'obs'])
    nx, ob = [[e for e in log if e[0] == k][0] for k in ('next', 'obs')]
    c.prove('transition from the given memory with the given action', And(same(nx[1], given), eqf(nx[2], a)))
    c.prove('observation of the reached state and action', And(eqf(ob[1], nx[3]), eqf(ob[2], a)))
    outcome_ok(c, out, ob, nx)
    c.prove('internal memory untouched', And(d._memory is m0, same(d._memory, old)))
    c.prove('given memory untouched', same(m, given))


@contract('init_memory', *FN, setup=with_memory)
def init(c):
    kind, level, N, d, log = domain(c)
    m = d._init_memory()
    if kind in ('history', 'finite'):
        c.prove('empty history', And(seq(m).n == 0, isinstance(m, Memory), eqf(m.maxlen, N)))
    else:
        c.prove('nothing', m is None)
    k = d._get_memory_maxlen()
    c.prove('maxlen', k is None if kind == 'history' else eqf(k, {'finite': N, 'markovian': 1, 'memoryless': 0}[kind]))
    c.prove('maxlen again', k is None if kind == 'history' else eqf(d._get_memory_maxlen(), k))
