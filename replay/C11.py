from replay.base import require
from skdecide import Domain
from skdecide.core import Memory, EnvironmentOutcome, TransitionValue, SingleValueDistribution, Space
from skdecide.builders.domain import *
from skdecide.builders.solver import Policies
import skdecide.utils as utils, json, os, tempfile, shutil, glob

RULE = 'scripted environments with random termination, limits, starts and episode counts, played by scripted or random policies'
BOUNDS = 'bounded: at most 12 steps and 3 episodes'
ROUNDS = 3


def cases(rng, tier):
    for _ in range(60):
        yield dict(fn=rng.choice(['rollout', 'rollout_episode']), kind=rng.choice(['markovian', 'history']),
                   start=rng.choice(['reset', 'reset', 'memory', 'both']), term=rng.choice([None, 0, 1, 2, 5]),
                   limit=rng.choice([None, 0, 1, 2, 3, 7, 12]), episodes=rng.choice([1, 1, 2, 3]), goal=rng.random() < .5,
                   render=rng.random() < .5, asked=rng.random() < .7, save=rng.random() < .2, fmt=rng.choice(['default', 'none', 'record']),
                   rate=rng.choice([None, None, 100000]), verbose=rng.random() < .3, seed=rng.randrange(10 ** 6))
    for t in (0, 1, 3):
        yield dict(inplace=True, term=t, seed=rng.randrange(10 ** 6))
    for fn in ('rollout', 'rollout_episode'):
        for multi in (False, True):
            for par in (False, True):
                yield dict(fn=fn, walk=True, multi=multi, par=par, term=rng.choice([1, 3]), seed=rng.randrange(10 ** 6))


def walk(case):
    import random
    rng = random.Random(case['seed'])
    multi, par = case['multi'], case['par']
    drawn, sent = [], []

    class Sp(Space):
        def __init__(self, k): self.k = k

        def sample(self):
            drawn[-1][self.k] = v = ('act', self.k, rng.random())
            return v

    class Env(Domain, MultiAgent if multi else SingleAgent, Parallel if par else Sequential, Initializable, Markovian):
        def reset(self): return {'a': 0, 'b': 0} if multi else 0

        def get_applicable_actions(self, memory=None):
            drawn.append({})
            return {k: Sp(k) for k in 'ab'} if multi else Sp('x')

        def step(self, a):
            sent.append((a, dict(drawn[-1])))
            return EnvironmentOutcome({'a': 1, 'b': 1} if multi else 1, None, len(sent) > case['term'], None)
    getattr(utils, case['fn'])(Env(), verbose=False, render=False)
    require(len(sent) == case['term'] + 1, '%d steps' % len(sent))
    for a, d in sent:
        want = {k: [v] for k, v in d.items()} if par else d
        want = want if multi else want.get('x')
        require(a == want, 'random policy sends %r, sampled %r' % (a, d))


class Cell:
    def __init__(self): self.v = 0
    def __hash__(self): return 1000 + self.v
    def __eq__(self, o): return self.v == o.v


def inplace(case):
    """Saved transitions of a domain that updates its observation object in place."""
    n = []

    class Env(Domain, SingleAgent, Sequential, Initializable, Markovian, FullyObservable):
        def reset(self):
            self.c = Cell()
            return self.c

        def step(self, a):
            self.c.v += 1
            return EnvironmentOutcome(self.c, TransitionValue(cost=self.c.v), self.c.v > case['term'], None)

    class Pol(Policies):
        def reset(self): pass
        def sample_action(self, o): return o.v
    tmp = tempfile.mkdtemp()
    try:
        r = utils.rollout(Env(), Pol(), verbose=False, save_result_directory=os.path.join(tmp, 'out'))
        t = json.load(open(os.path.join(r, 'transitions.json')))
        want = {str(i): {'s': 999 + i, 'a': hash(i - 1), 'cost': i, "s'": 1000 + i} for i in range(1, case['term'] + 2)}
        require(t == want, 'saved transitions %r, expected %r' % (t, want))
    finally:
        shutil.rmtree(tmp)


def js(v): return list(v) if isinstance(v, tuple) else v


def check(case):
    if case.get('walk'):
        return walk(case)
    if case.get('inplace'):
        return inplace(case)
    import random
    rng = random.Random(case['seed'])
    kind, term = case['kind'], case['term']
    if term is None and case['limit'] is None:
        return
    eps, log = [], []

    class Env(Domain, SingleAgent, Sequential, Initializable, Markovian if kind == 'markovian' else History, FullyObservable,
              *([Goals] if case['goal'] else []), *([Renderable] if case['render'] else [])):
        def begin(self):
            eps.append(dict(obs=[('o', len(eps), 0) if case['seed'] % 3 else ('same',)], acts=[], vals=[], outs=[], done=False, asked=0))
            return eps[-1]['obs'][0]

        def reset(self):
            require(case['start'] == 'reset', 'domain reset although a starting memory is given')
            return self.begin()

        def set_memory(self, m):
            require(m is mem, 'memory set to %r' % (m,))
            log.append('set')

        def get_observation_distribution(self, s, a=None):
            require(log[-1:] == ['set'], 'observation computed before the memory is set')
            require(s == last and a == act, 'first observation from state %r and action %r' % (s, a))
            return SingleValueDistribution(self.begin())

        def step(self, a):
            e = eps[-1]
            require(e['asked'] == len(e['acts']) + 1, 'step without asking the policy')
            require(a == ('a', len(eps), len(e['acts'])), 'step with %r' % (a,))
            require(len(e['acts']) <= (term if term is not None else 99), 'step after the end of the episode')
            e['acts'].append(a)
            e['obs'].append(rng.choice([None, 0, '', False]) if rng.random() < .2 else e['obs'][rng.randrange(len(e['obs']))] if rng.random() < .4 else ('o', len(eps), len(e['acts'])))
            e['vals'].append(TransitionValue(reward=rng.random()))
            require(not e['done'], 'step after the end')
            e['done'] = term is not None and len(e['acts']) > term
            e['outs'].append(EnvironmentOutcome(e['obs'][-1], e['vals'][-1], e['done'], None))
            return e['outs'][-1]

        def is_goal(self, o): return rng.random() < .3
        def render(self, *a, **k): log.append('render')

    class Pol(Policies):
        def reset(self): log.append('solver')

        def sample_action(self, o):
            e = eps[-1]
            require(o == e['obs'][-1], 'policy asked for %r, current observation is %r' % (o, e['obs'][-1]))
            e['asked'] += 1
            return ('a', len(eps), len(e['acts']))
    last = ('s', 2) if case['seed'] % 2 else 0
    mem = last if kind == 'markovian' else Memory([('s', 1), last])
    act = ('last',) if case['start'] == 'both' else None
    kw = {} if case['start'] == 'reset' else dict(from_memory=mem)
    if act:
        kw['from_action'] = act
    fa, fo = [], []
    if case['fmt'] == 'none':
        kw.update(action_formatter=None, outcome_formatter=None)
    elif case['fmt'] == 'record':
        kw.update(action_formatter=lambda a: fa.append(a), outcome_formatter=lambda o: fo.append(o))
    kw.update(render=case['asked'], max_framerate=case['rate'])
    n = 1 if case['fn'] == 'rollout_episode' else case['episodes']
    tmp = tempfile.mkdtemp() if case['save'] and case['fn'] == 'rollout' and n == 1 else None
    try:
        if tmp:
            kw['save_result_directory'] = os.path.join(tmp, 'out')
        r = getattr(utils, case['fn'])(Env(), Pol(), num_episodes=n, max_steps=case['limit'], verbose=case['verbose'], **kw)
        if tmp:
            got = {k: json.load(open(os.path.join(r, k + '.json'))) for k in ('actions', 'observations', 'transitions')}
            e = eps[0]
            require([js(v) for v in e['obs']] == [got['observations'][str(i)] for i in range(len(e['obs']))] and
                    len(got['observations']) == len(e['obs']), 'saved observations')
            require([list(v) for v in e['acts']] == [got['actions'][str(i + 1)] for i in range(len(e['acts']))] and
                    len(got['actions']) == len(e['acts']), 'saved actions')
            require([v.cost for v in e['vals']] == [got['transitions'][str(i + 1)]['cost'] for i in range(len(e['acts']))], 'saved costs')
            require(all(got['transitions'][str(i + 1)]['s'] == hash(e['obs'][i]) and got['transitions'][str(i + 1)]["s'"] == hash(e['obs'][i + 1])
                        for i in range(len(e['acts']))), 'saved transitions')
    finally:
        if tmp:
            shutil.rmtree(tmp)
    require(len(eps) == n and log.count('solver') == n, '%d episodes, %d solver resets for %d' % (len(eps), log.count('solver'), n))
    want = min(x for x in (case['limit'], None if term is None else term + 1) if x is not None)
    for e in eps:
        require(len(e['acts']) == want, '%d steps instead of %d' % (len(e['acts']), want))
    if case['fmt'] == 'record':
        require(fa == [a for e in eps for a in e['acts']] and len(fo) == len(fa) and
                all(x is y for x, y in zip(fo, (o for e in eps for o in e['outs']))), 'formatters saw %r, %r' % (fa, fo))
    drawn = n * (want + 1) if case['render'] and case['asked'] else 0
    require(log.count('render') == drawn, '%d renders instead of %d' % (log.count('render'), drawn))
    if case['fn'] == 'rollout_episode':
        o, a, v = r
        e = eps[0]
        require(list(o) == e['obs'] and list(a) == e['acts'] and list(v) == e['vals'], 'returned trace %r differs from %r' % (r, e))
