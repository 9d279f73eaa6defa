from replay.base import require
from collections import Counter
from skdecide.hub.domain.maze import Maze
from skdecide.hub.domain.maze import maze as mz
from skdecide.hub.domain.simple_grid_world import SimpleGridWorld
from skdecide.hub.domain.simple_grid_world import simple_grid_world as gw
from skdecide.hub.domain.mastermind import MasterMind
from skdecide.hub.domain.mastermind import mastermind as mm
from skdecide.hub.domain.rock_paper_scissors import RockPaperScissors
from skdecide.hub.domain.rock_paper_scissors import rock_paper_scissors as rps
import itertools
import random as _random

RULE = 'random mazes, grids, codes and games played and compared with their rules'
BOUNDS = 'bounded: mazes and grids up to 9x9, codes of up to 5 pegs and 4 colours, 15 moves'
ROUNDS = 50
STEP = {'up': (0, -1), 'down': (0, 1), 'left': (-1, 0), 'right': (1, 0)}


def cases(rng, tier):
    for _ in range(25):
        w, h = rng.randint(2, 9), rng.randint(2, 9)
        walls = rng.choice(['+', '+-|', '#', 'XO', '.0w'])
        rows = [[rng.choice('  +') for _ in range(w)] for _ in range(h)]
        rows[0][0] = '+'
        a, b = rng.sample([(x, y) for x in range(w) for y in range(h) if (x, y) != (0, 0)], 2)
        rows[a[1]][a[0]], rows[b[1]][b[0]] = 'o', 'x'
        rows = [[rng.choice(walls) if ch == '+' else ch for ch in r[:-1] + ['+' if r[-1] == ' ' else r[-1]]] for r in rows]
        yield dict(maze=[''.join(r) for r in rows], seed=rng.randrange(10 ** 6))
        yield dict(grid=[rng.randint(1, 9), rng.randint(1, 9)], seed=rng.randrange(10 ** 6))
        yield dict(code=[rng.randint(1, 4), rng.randint(1, 5)], seed=rng.randrange(10 ** 6))
        yield dict(moves=rng.randint(1, 15), seed=rng.randrange(10 ** 6))


def walk(d, rng, State, Action, start, goal, free, bounds):
    s = d.reset()
    require(s == start, 'starts at %r' % (s,))
    for _ in range(40):
        a = rng.choice(list(Action))
        t = State(s.x + STEP[a.name][0], s.y + STEP[a.name][1])
        e = t if free(t) else s
        require(d.get_next_state(s, a) == e, '%s from %r leads to %r, expected %r' % (a.name, s, d.get_next_state(s, a), e))
        o = d.step(a)
        require(o.observation == e and o.value.cost == (1 if e != s else 2) and o.termination == (e == goal),
                '%s from %r: %r, expected %r' % (a.name, s, o, e))
        require(d.is_goal(e) == (e == goal) and d.is_terminal(e) == (e == goal), 'goal')
        require(d.get_observation_space().contains(e), '%r is not in the observation space' % (e,))
        s = e
        if o.termination:
            d.set_memory(start)
            s = start
    for x in range(-1, bounds[0] + 1):
        for y in range(-1, bounds[1] + 1):
            require(d.is_goal(State(x, y)) == (State(x, y) == goal), 'goal at %d %d' % (x, y))
            require(d.get_observation_space().contains(State(x, y)) == (0 <= x < bounds[0] and 0 <= y < bounds[1]), 'space at %d %d' % (x, y))
    require(list(d.get_action_space().get_elements()) == list(Action) and all(d.is_applicable_action(a, s) for a in Action), 'actions')


def check(case):
    rng = _random.Random(case['seed'])
    if 'maze' in case:
        rows = case['maze']
        at = lambda s: 0 <= s.y < len(rows) and 0 <= s.x < len(rows[0]) and rows[s.y][s.x] in ' ox'
        find = lambda c: next(mz.State(x, y) for y, r in enumerate(rows) for x, ch in enumerate(r) if ch == c)
        return walk(Maze('\n' + '\n'.join(rows) + '\n'), rng, mz.State, mz.Action, find('o'), find('x'), at, (len(rows[0]), len(rows)))
    if 'grid' in case:
        w, h = case['grid']
        return walk(SimpleGridWorld(w, h), rng, gw.State, gw.Action, gw.State(0, 0), gw.State(w - 1, h - 1),
                    lambda s: 0 <= s.x < w and 0 <= s.y < h, (w, h))
    if 'code' in case:
        k, n = case['code']
        d = MasterMind(k, n)
        rows = list(itertools.product(range(k), repeat=n))
        require(sorted(d.get_action_space().get_elements()) == rows, 'guesses')
        vs = d.get_initial_state_distribution().get_values()
        require(sorted(s.solution for s, _ in vs) == rows and all(abs(p * len(rows) - 1) < 1e-9 for _, p in vs), 'solutions')
        for _ in range(40):
            s = rng.choice(vs)[0]
            g = rng.choice(rows) if rng.random() < .8 else s.solution
            bulls = sum(a == b for a, b in zip(g, s.solution))
            e = (bulls, sum((Counter(g) & Counter(s.solution)).values()) - bulls)
            x = d.get_next_state(s, g)
            require(x.solution == s.solution and tuple(x.score) == e and tuple(d.get_observation(x, g)) == e,
                    'guess %r of %r scores %r, expected %r' % (g, s.solution, x.score, e))
            won = g == s.solution
            require(d.is_terminal(x) == won == d.is_goal(x.score), 'end of the game')
            require(d.get_observation_space().contains(x.score), '%r is not in the observation space' % (x.score,))
            require(d.get_transition_value(s, g, x).cost == 1 and tuple(d.get_observation(s)) == (0, 0), 'cost or first observation')
            d.set_memory(s)
            o = d.step(g)
            require(tuple(o.observation) == e and o.value.cost == 1 and o.termination == won, 'step %r' % o)
        return
    d = RockPaperScissors(case['moves'])
    M = rps.Move
    beats = {(M.rock, M.scissors), (M.scissors, M.paper), (M.paper, M.rock)}
    for _ in range(2):
        require(d.reset() == {'player1': M.rock, 'player2': M.rock}, 'first observation')
        for i in range(case['moves']):
            x, y = rng.choice(list(M)), rng.choice(list(M))
            o = d.step({'player1': x, 'player2': y})
            r = ((x, y) in beats) - ((y, x) in beats)
            require((o.value['player1'].reward, o.value['player2'].reward) == (r, -r), '%s against %s: %r' % (x, y, o.value))
            require(o.observation == {'player1': y, 'player2': x}, 'observations %r of %s, %s' % (o.observation, x, y))
            require(o.termination == (i + 1 >= case['moves']), 'termination at move %d of %d' % (i + 1, case['moves']))
