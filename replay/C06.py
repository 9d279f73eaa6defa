from replay.base import require
from skdecide import Domain
from skdecide.core import Memory, TransitionOutcome, TransitionValue, SingleValueDistribution
from skdecide.builders.domain import *
from skdecide.builders.domain import memory as mem_

RULE = 'random operation sequences (reset, step, set_memory, sample) on every memory kind and dynamics level against a reference list'
BOUNDS = 'bounded: up to 25 operations, history lengths 1 to 5'
ROUNDS = 3
KINDS = {'history': History, 'finite': FiniteHistory, 'markovian': Markovian, 'memoryless': mem_.Memoryless}


def cases(rng, tier):
    for kind in KINDS:
        for level in ('environment', 'simulation', 'uncertain', 'deterministic'):
            for _ in range(6):
                ops = ['reset']
                for _ in range(rng.randint(1, 25)):
                    ops.append(rng.choice(['step'] * 4 + (['set', 'sample'] if level != 'environment' else []) + ['reset'] * (rng.random() < .2)))
                yield dict(kind=kind, level=level, N=rng.randint(1, 5), ops=ops, seed=rng.randrange(10 ** 6))


def make(kind, level, N, rec):
    tr = {'environment': Environment, 'simulation': Simulation}.get(level)
    from skdecide.builders.domain.dynamics import UncertainTransitions, DeterministicTransitions
    tr = tr or {'uncertain': UncertainTransitions, 'deterministic': DeterministicTransitions}[level]
    cnt = [0]

    def fresh():
        cnt[0] += 1
        return [0, '', (), False][cnt[0] - 1] if cnt[0] <= 4 else ('s', cnt[0])

    class D(Domain, SingleAgent, Sequential, tr, Initializable, KINDS[kind]):
        def _get_observation_distribution(self, state, action=None):
            rec.append(('obs', state, action))
            return SingleValueDistribution(('o', state, action))

        def _state_reset(self):
            rec.append(('reset',))
            s = fresh()
            rec[-1] += (s,)
            return s

        def tr(self, memory, action):
            s = fresh()
            rec.append(('next', snap(memory), action, s))
            return s

        def _is_terminal(self, s):
            return isinstance(s, tuple) and bool(s) and s[1] % 3 == 0

        def val(self, s):
            return TransitionValue(reward=hash(str(s)) % 7)
    if level == 'environment':
        D._state_step = lambda self, action: (lambda s: TransitionOutcome(s, self.val(s), self._is_terminal(s), None))(self.tr(self._memory, action))
    elif level == 'simulation':
        D._state_sample = lambda self, m, action: (lambda s: TransitionOutcome(s, self.val(s), self._is_terminal(s), None))(self.tr(m, action))
    else:
        D._get_transition_value = lambda self, m, a, s=None: self.val(s)
        if level == 'uncertain':
            D._get_next_state_distribution = lambda self, m, a: SingleValueDistribution(self.tr(m, a))
        else:
            D._get_next_state = lambda self, m, a: self.tr(m, a)
    if kind == 'finite':
        D._get_memory_maxlen_ = lambda self: N
    return D(), fresh


def snap(m):
    return list(m) if isinstance(m, Memory) else m


def check(case):
    import random
    rng = random.Random(case['seed'])
    kind, N, rec = case['kind'], case['N'], []
    d, fresh = make(kind, case['level'], N, rec)
    ref = None

    def push(m, s):
        return {'history': lambda: m + [s], 'finite': lambda: (m + [s])[-N:], 'markovian': lambda: s, 'memoryless': lambda: m}[kind]()

    def arb():
        if kind in ('history', 'finite'):
            return Memory([fresh() for _ in range(rng.randint(0 if kind == 'history' else 1, N))], maxlen=N if kind == 'finite' else None)
        return None if kind == 'memoryless' else fresh()
    held = []
    for i, op in enumerate(case['ops']):
        rec.clear()
        where = 'operation %d (%s)' % (i, op)
        a = ('a', i)
        if op == 'reset':
            o = d.reset()
            s = [r for r in rec if r[0] == 'reset'][0][1]
            require(o == ('o', s, None), '%s: observation %r' % (where, o))
            ref = {'memoryless': None, 'markovian': s}.get(kind, [s]) if kind != 'markovian' else s
        elif op == 'set':
            m = arb()
            held.append((m, snap(m)))
            d.set_memory(m)
            ref = snap(m)
            require(not rec, where + ' computed something')
        else:
            m = None
            if op == 'sample':
                m = arb()
                held.append((m, snap(m)))
                out = d.sample(m, a)
                src = snap(m)
            else:
                out = d.step(a)
                src = ref
            nx = [r for r in rec if r[0] == 'next']
            require(len(nx) == 1 and len(rec) == 2, '%s: hooks called %r' % (where, rec))
            require(nx[0][1] == src and nx[0][2] == a, '%s: transition computed from %r with %r, expected %r with %r' % (
                where, nx[0][1], nx[0][2], src, a))
            s = nx[0][3]
            require(out.observation == ('o', s, a), '%s: observation %r' % (where, out.observation))
            require(out.value == d.val(s) and out.termination == d._is_terminal(s), where + ': value or termination')
            if op == 'step':
                ref = push(ref, s)
        require(snap(d._memory) == ref and type(snap(d._memory)) == type(ref),
                '%s: memory is %r, expected %r' % (where, snap(d._memory), ref))
        if kind in ('history', 'finite'):
            require(isinstance(d._memory, Memory), where + ': memory kind')
        for m, s in held:
            require(snap(m) == s, "%s: the caller's memory %r became %r" % (where, s, snap(m)))
