"""Episode traces (skdecide.utils.rollout and rollout_episode)."""
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
from contracts.common import with_memory
import skdecide.utils as utils
from skdecide import Domain
from skdecide.core import Memory, Union, EnvironmentOutcome, ImplicitDistribution, Space
from skdecide.builders.domain import *
from skdecide.builders.solver import Policies

CONTRACTS = contract = Registry()
ASSUMPTIONS = ['the domain and the solver are arbitrary (any observation, action, value and termination at every step, possibly depending '
               'on the whole past); console logging and frame-rate pauses are not modelled',
               'rollout() itself is checked for one to three episodes; its step loop is unrolled to at most three steps, the loop of '
               'rollout_episode() is proved for any number of steps']
FE, FR = 'skdecide.utils:rollout_episode', 'skdecide.utils:rollout'


class Ghost:
    """What really happened: sequence functions of the step index, and the number of steps so far."""
    def __init__(self, tag=''):
        self.n = SymInt(z3.IntVal(0))
        self.O, self.A = func('obs' + tag, INT), func('act' + tag, INT)
        self.V, self.T = func('val' + tag, INT), func('end' + tag, INT, ret=BOOL)


def world(c, start, *more):
    """Environment and policy stubs that check how they are used."""
    kind = c.case('memory kind', ['markovian', 'history'])
    g = {'now': None, 'episodes': 0, 'log': [], 'fresh': False}

    def begin():
        g['episodes'] += 1
        g['now'] = Ghost(str(g['episodes']))

    class Env(Domain, SingleAgent, Sequential, Initializable, Markovian if kind == 'markovian' else History, *more):
        def reset(self):
            c.prove('reset only when no memory is given', start[0] is None)
            begin()
            g['log'].append('reset')
            return g['now'].O(0)

        def set_memory(self, m):
            c.prove('memory set to the given one', start[0] is not None and m is start[0])
            g['log'].append('set')

        def get_observation_distribution(self, state, action=None):
            c.prove('observation after setting the memory', start[0] is not None and g['log'][-1:] == ['set'])
            last = start[0] if kind == 'markovian' else start[0].elem(start[0].n - 1)
            c.prove('first observation of the last state and given action', And(
                eqf(state, last), action is None if start[1] is None else eqf(action, start[1])))

            def draw():
                begin()
                return g['now'].O(0)
            return ImplicitDistribution(draw)

        def step(self, a):
            w = g['now']
            c.prove('a step follows the policy action for the current observation', And(g['fresh'] is True, eqf(a, w.A(w.n))))
            n = w.n
            c.prove('no step after the end of the episode', Or(n == 0, Not(w.T(n - 1))))
            w.n = n + 1
            g['fresh'] = False
            return EnvironmentOutcome(w.O(n + 1), w.V(n), w.T(n), None)

    if c.case('goals', [False, True]):
        Env.is_goal = lambda self, o: func('reached', OBJ, ret=BOOL)(lift(o))
        Env = type('GoalEnv', (Goals, Env), {'is_goal': Env.is_goal})

    class Pol(Policies):
        def reset(self):
            g['log'].append('solver reset')

        def sample_action(self, o):
            w = g['now']
            c.prove('the policy is asked for the current observation', eqf(o, w.O(w.n)))
            g['fresh'] = True
            return w.A(w.n)
    return kind, g, Env(), Pol()


def start_of(c, kind_case=None):
    """from_memory / from_action combinations; filled in once the memory kind is known."""
    return [None, None]


def fill(c, start, kind):
    how = c.case('start', ['reset', 'memory', 'memory and action'])
    if how != 'reset':
        if kind == 'markovian':
            start[0] = OBJ.fresh('from_memory')
        else:
            start[0] = SeqTy(OBJ, cls=Memory).fresh('from_memory')
            c.assume(start[0].n >= 1)
        if how != 'memory':
            start[1] = OBJ.fresh('from_action')
    return {} if how == 'reset' else dict(from_memory=start[0], **({} if start[1] is None else dict(from_action=start[1])))


def trace_ok(c, w, r, N, max_steps):
    obs, acts, vals = [to_seq(x) for x in r]
    n = num(N)
    k = z3.Int('k!tr')
    b = lambda f: f.t if type(f) is SymBool else f
    c.prove('lengths', And(obs.n == n + 1, acts.n == n, vals.n == n))
    rng = z3.And(k >= 0, k < n)
    c.prove('observations', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= n), eqf(obs.elem(k), w.O(SymInt(k))))))
    c.prove('actions', z3.ForAll([k], z3.Implies(rng, eqf(acts.elem(k), w.A(SymInt(k))))))
    c.prove('values', z3.ForAll([k], z3.Implies(rng, eqf(vals.elem(k), w.V(SymInt(k))))))
    ends(c, w, n, max_steps)


def ends(c, w, n, max_steps):
    k = z3.Int('k!end')
    c.prove('no step after the end', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n - 1), z3.Not(num_bool(w.T(SymInt(k)))))))
    last = num_bool(w.T(SymInt(n - 1)))
    if max_steps is None:
        c.prove('stops only at the end of the episode', z3.And(n >= 1, last))
    else:
        m = num(max_steps)
        c.prove('stops at the end of the episode or at the step limit', z3.Or(n == z3.If(m > 0, m, 0), z3.And(n >= 1, last)))
        c.prove('step limit', n <= z3.If(m > 0, m, 0))


def num_bool(b):
    return b.t if type(b) is SymBool else z3.BoolVal(bool(b))


def episode_loop(g):
    names = ('observations', 'actions', 'values')

    def lists(loop):
        if not all(type(loop.locals.get(n)) in (list, SymSeq) for n in names):
            raise Unsupported('lists of the episode loop not recognised')
        return [to_seq(loop.locals[n]) for n in names]

    def inv(loop):
        w = g['now']
        obs, acts, vals = lists(loop)
        n = num(w.n)
        k = z3.Int('k!inv')
        out = [('counts', z3.And(n >= 0, obs.n == n + 1, acts.n == n, vals.n == n, num(loop.locals['step']) == n + 1)),
               ('current observation', eqf(loop.locals['observation'], w.O(w.n))),
               ('observations so far', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= n), eqf(obs.elem(k), w.O(SymInt(k)))))),
               ('not ended', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Not(num_bool(w.T(SymInt(k)))))))]
        m = loop.locals.get('max_steps')
        if m is not None:
            out.append(('within the limit', n <= z3.If(num(m) > 0, num(m), 0)))
        for nm, q, f in (('actions', acts, w.A), ('values', vals, w.V)):
            if not (z3.is_int_value(q.n) and q.n.as_long() == 0):
                out.append((nm + ' so far', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), eqf(q.elem(k), f(SymInt(k)))))))
        return out

    def types(loop, nm, v):
        return SeqTy(OBJ) if nm in names else None
    engine.CTX.loops.append(LoopContract(lambda l: l.fn() == 'rollout_episode' and l.kind == 'while', inv, types=types, name='steps',
                                         modifies=lambda loop: [(g['now'], 'n', INT)]))


@contract('episode of any length', FE, setup=with_memory)
def episode(c):
    start = [None, None]
    kind, g, env, pol = world(c, start)
    kw = fill(c, start, kind)
    lim = c.case('limit', ['none', 'some'])
    m = None if lim == 'none' else INT.fresh('max_steps')
    c.loops.clear()
    episode_loop(g)
    r = utils.rollout_episode(env, pol, max_steps=m, render=False, verbose=False, **kw)
    trace_ok(c, g['now'], r, g['now'].n, m)


@contract('short episodes, unrolled', FE, setup=with_memory)
def short(c):
    c.loops.clear()
    start = [None, None]
    kind, g, env, pol = world(c, start)
    kw = fill(c, start, kind)
    m = c.case('limit', [0, 1, 2, 3])
    r = utils.rollout_episode(env, pol, max_steps=m, render=c.case('render', [False, True]), verbose=False, **kw)
    c.prove('solver reset once, before', g['log'].count('solver reset') == 1 and g['log'][0] == 'solver reset')
    trace_ok(c, g['now'], r, g['now'].n, m)


@contract('rollout, unrolled', FR, setup=with_memory)
def rollout(c):
    c.loops.clear()
    start = [None, None]
    kind, g, env, pol = world(c, start)
    kw = fill(c, start, kind)
    e, m = c.case('episodes', [1, 2, 3]), c.case('limit', [0, 1, 2, 3])
    if e * m > 4:
        return
    utils.rollout(env, pol, num_episodes=e, max_steps=m, render=False, verbose=False, **kw)
    c.prove('every episode run', g['episodes'] == e)
    c.prove('solver reset at each episode', g['log'].count('solver reset') == e)
    ends(c, g['now'], num(g['now'].n), m)


class RSpace(Space):
    def __init__(self, tag):
        self.tag = tag

    def sample(self):
        return func('sampled_' + self.tag, OBJ)(OBJ.fresh('rnd'))


def random_walk(which):
    @contract('random policy of ' + which, 'skdecide.utils:' + which, setup=with_memory)
    def verify(c):
        c.loops.clear()
        multi, par = c.case('agents', [False, True]), c.case('parallel', [False, True])
        drawn, sent = {}, []
        now = [0]

        class Sp(Space):
            def __init__(self, k, t):
                self.k, self.t = k, t

            def sample(self):
                v = OBJ.fresh('sampled')
                drawn.setdefault(self.t, {})[self.k] = v
                return v

        class Env(Domain, MultiAgent if multi else SingleAgent, Parallel if par else Sequential, Initializable, Markovian):
            def reset(self):
                return {'a': 0, 'b': 0} if multi else 0

            def get_applicable_actions(self, memory=None):
                return {k: Sp(k, now[0]) for k in ('a', 'b')} if multi else Sp('x', now[0])

            def step(self, a):
                sent.append(a)
                now[0] += 1
                return EnvironmentOutcome({'a': 1, 'b': 1} if multi else 1, None, now[0] == 2, None)
        getattr(utils, which)(Env(), None, render=False, verbose=False, max_steps=5)
        c.prove('two steps', len(sent) == 2)
        for t, a in enumerate(sent):
            part = a if multi else {'x': a}
            c.prove('agents', set(part) == ({'a', 'b'} if multi else {'x'}))
            for k, v in part.items():
                if par:
                    c.prove('list of one action', isinstance(v, list) and len(v) == 1)
                    v = v[0]
                c.prove('sampled from the applicable actions of that moment', eqf(v, drawn[t][k]))


random_walk('rollout_episode')
random_walk('rollout')
