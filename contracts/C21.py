"""The rules of the bundled domains."""
import itertools
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
from contracts.common import with_memory
from skdecide.hub.domain.maze import maze as mz
from skdecide.hub.domain.simple_grid_world import simple_grid_world as gw
from skdecide.hub.domain.mastermind import mastermind as mm
from skdecide.hub.domain.rock_paper_scissors import rock_paper_scissors as rps

CONTRACTS = contract = Registry()
ASSUMPTIONS = ['MasterMind scores: proved for at most three positions with arbitrary pegs; gym spaces are run as they are']
H = 'skdecide.hub.domain.'
STEP = {'up': (0, -1), 'down': (0, 1), 'left': (-1, 0), 'right': (1, 0)}


def ite(f, a, b):
    return SymInt(z3.If(as_formula(f), num(a), num(b)))


def cost_of(c, d, s, a, n):
    """Cost contract of the grids, for any two states."""
    dx, dy = n.x - s.x, n.y - s.y
    ab = lambda v: z3.If(num(v) < 0, -num(v), num(v))
    v = d.get_transition_value(s, a, n)
    stay = z3.And(num(dx) == 0, num(dy) == 0)
    c.prove('two for staying, else the distance', eqf(v.cost, SymInt(z3.If(stay, z3.IntVal(2), ab(dx) + ab(dy)))))
    c.prove('reward', eqf(v.reward, -1 * v.cost))


@contract('maze', H + 'maze.maze:Maze._get_next_state', H + 'maze.maze:Maze._get_transition_value', H + 'maze.maze:Maze._is_terminal',
          setup=with_memory)
def _(c):
    w, h = INT.fresh('width'), INT.fresh('height')
    free = func('free', INT, INT, ret=BOOL)
    d = object.__new__(mz.Maze)
    d._num_cols, d._num_rows = w, h
    d._ax = d._image = None

    class Row:
        def __init__(self, y): self.y = y

        def __getitem__(self, x):
            c.prove('inside the maze', And(x >= 0, x < w, self.y >= 0, self.y < h))
            return SymInt(z3.If(as_formula(free(x, self.y)), 1, 0))

    class Cells:
        def __getitem__(self, y): return Row(y)
        def __len__(self): raise Unsupported('size')
    d._maze = Cells()
    d._goal = mz.State(INT.fresh('gx'), INT.fresh('gy'))
    d._start = mz.State(INT.fresh('sx'), INT.fresh('sy'))
    s = mz.State(INT.fresh('x'), INT.fresh('y'))
    c.assume(And(s.x >= 0, s.x < w, s.y >= 0, s.y < h, free(s.x, s.y)))
    a = c.case('action', list(mz.Action))
    dx, dy = STEP[a.name]
    n = d.get_next_state(s, a)
    tx, ty = s.x + dx, s.y + dy
    can = And(tx >= 0, tx < w, ty >= 0, ty < h, free(tx, ty))
    c.prove('moves to the free cell in that direction, else stays', And(eqf(n.x, ite(can, tx, s.x)), eqf(n.y, ite(can, ty, s.y))))
    c.prove('stays in the maze', And(n.x >= 0, n.x < w, n.y >= 0, n.y < h, free(n.x, n.y)))
    cost_of(c, d, s, a, mz.State(INT.fresh('nx'), INT.fresh('ny')))
    c.prove('terminal at the goal', Iff(d.is_terminal(s), And(eqf(s.x, d._goal.x), eqf(s.y, d._goal.y))))
    c.prove('goal', Iff(d.is_goal(s), And(eqf(s.x, d._goal.x), eqf(s.y, d._goal.y))))
    c.prove('start', eqf(d.get_initial_state().x, d._start.x) if isinstance(d.get_initial_state(), tuple) else False)


@contract('maze text', H + 'maze.maze:Maze.__init__')
def _(c):
    lines = [''.join(c.case('cell %d %d' % (x, y), [' ', '+', 'o'] if (x, y) == (1, 0) else [' ', '-']) for x in range(3)) for y in range(2)]
    text = '+-+\n' + '\n'.join('|' + l[1:] if l[0] == '-' else l for l in lines) + '\n|x|'
    d = mz.Maze('\n' + text.replace('-', '|') + '\n')
    rows = text.split('\n')
    free = {(x, y) for y, r in enumerate(rows) for x, ch in enumerate(r) if ch in ' ox'}
    c.prove('free cells', all((d._maze[y][x] == 1) == ((x, y) in free) for y in range(len(rows)) for x in range(len(rows[y].rstrip()))))
    c.prove('goal', all(d.is_goal(mz.State(x, y)) == (rows[y][x] == 'x') for y in range(len(rows)) for x in range(3)))
    if 'o' in text:
        s = d.get_initial_state()
        c.prove('start', rows[s.y][s.x] == 'o')
    c.prove('observations', d.get_observation_space().contains(mz.State(2, len(rows) - 1)) and not d.get_observation_space().contains(mz.State(3, 0))
            and not d.get_observation_space().contains(mz.State(0, len(rows))))
    c.prove('actions', list(d.get_action_space().get_elements()) == list(mz.Action))


@contract('grid', H + 'simple_grid_world.simple_grid_world:SimpleGridWorld', setup=with_memory)
def _(c):
    w, h = INT.fresh('width'), INT.fresh('height')
    d = gw.SimpleGridWorld(w, h)
    s = gw.State(INT.fresh('x'), INT.fresh('y'))
    inside = lambda q: And(q.x >= 0, q.x < w, q.y >= 0, q.y < h)
    c.assume(inside(s))
    a = c.case('action', list(gw.Action))
    dx, dy = STEP[a.name]
    n = d.get_next_state(s, a)
    t = gw.State(s.x + dx, s.y + dy)
    c.prove('moves by one inside the grid, else stays', And(eqf(n.x, ite(inside(t), t.x, s.x)), eqf(n.y, ite(inside(t), t.y, s.y))))
    cost_of(c, d, s, a, gw.State(INT.fresh('nx'), INT.fresh('ny')))
    goal = And(eqf(s.x, w - 1), eqf(s.y, h - 1))
    c.prove('goal and terminal at the last cell', And(Iff(d.is_goal(s), goal), Iff(d.is_terminal(s), goal)))
    i = d.get_initial_state()
    c.prove('starts at the first cell', And(eqf(i.x, 0), eqf(i.y, 0)))
    e = gw.SimpleGridWorld(3, 2)
    c.prove('observations', all(e.get_observation_space().contains(gw.State(x, y)) == (0 <= x < 3 and 0 <= y < 2) for x in (0, 1, 2, 3) for y in (0, 1, 2, 3)))
    c.prove('actions', list(e.get_action_space().get_elements()) == list(gw.Action))


def score(sol, guess):
    """Bulls: right pegs in the right place.  Cows: the other pegs of the guess that occur elsewhere, each peg counted once."""
    n = len(guess)
    one = lambda f: z3.If(as_formula(f), 1, 0)
    bulls = z3.Sum([one(eqf(g, s)) for g, s in zip(guess, sol)] + [z3.IntVal(0)])
    total = z3.IntVal(0)
    for i in range(n):
        before = z3.Sum([one(eqf(guess[j], guess[i])) for j in range(i)] + [z3.IntVal(0)])
        there = z3.Sum([one(eqf(sol[j], guess[i])) for j in range(n)])
        total = total + z3.If(before < there, 1, 0)
    return bulls, total - bulls


@contract('MasterMind scores', H + 'mastermind.mastermind:MasterMind._calc_score', H + 'mastermind.mastermind:MasterMind._get_next_state',
          H + 'mastermind.mastermind:MasterMind._get_observation', setup=with_memory)
def _(c):
    n = c.case('positions', [1, 2, 3])
    d = mm.MasterMind(2, n)
    sol, guess = (tuple(INT.fresh('%s%d' % (p, i)) for i in range(n)) for p in ('s', 'g'))
    st = mm.State(sol, mm.Score(INT.fresh('b'), INT.fresh('c')))
    bulls, cows = score(sol, guess)
    how = c.case('query', ['next state', 'observation'])
    if how == 'next state':
        x = d.get_next_state(st, guess)
        c.prove('the solution does not change', x.solution is sol)
        got = x.score
    else:
        got = d.get_observation_distribution(st, guess).get_values()[0][0] if c.case('as', ['value', 'distribution']) == 'distribution' else d.get_observation(st, guess)
    c.prove('bulls', eqf(got.total_bulls, SymInt(bulls)))
    c.prove('cows', eqf(got.total_cows, SymInt(cows)))
    c.prove('in the observation space', z3.And(num(got.total_bulls) >= 0, num(got.total_cows) >= 0, num(got.total_bulls) + num(got.total_cows) <= n))
    c.prove('won exactly when everything is right', Iff(eqf(got.total_bulls, n), And(*[eqf(a, b) for a, b in zip(sol, guess)])))


@contract('MasterMind game', H + 'mastermind.mastermind:MasterMind', setup=with_memory)
def _(c):
    k, n = c.case('colours', [1, 2, 3]), c.case('positions', [1, 2, 3])
    d = mm.MasterMind(k, n)
    rows = list(itertools.product(range(k), repeat=n))
    c.prove('every row can be guessed', sorted(d.get_action_space().get_elements()) == rows)
    init = d.get_initial_state_distribution().get_values()
    c.prove('every row may be the solution, with the same probability', sorted(s.solution for s, _ in init) == rows and all(
        abs(p - 1 / len(rows)) < 1e-12 for _, p in init) and all(s.score == (0, 0) and not d.is_terminal(s) for s, _ in init))
    c.prove('every score can be observed', all(d.get_observation_space().contains(mm.Score(b, w)) for b in range(n + 1) for w in range(n + 1 - b)))
    b, w = INT.fresh('bulls'), INT.fresh('cows')
    won = And(eqf(b, n), eqf(w, 0))
    c.prove('goal and end of the game', And(Iff(d.is_goal(mm.Score(b, w)), won), Iff(d.is_terminal(mm.State(rows[0], mm.Score(b, w))), won)))
    s = mm.State(rows[-1], mm.Score(b, w))
    c.prove('a guess costs one', d.get_transition_value(s, rows[0]).cost == 1 and d.is_transition_value_dependent_on_next_state() is False)
    c.prove('nothing is known before the first guess', d.get_observation(s) == (0, 0))


@contract('rock, paper, scissors', H + 'rock_paper_scissors.rock_paper_scissors:RockPaperScissors', setup=with_memory)
def _(c):
    m, k = INT.fresh('max_moves'), INT.fresh('moves')
    d = rps.RockPaperScissors(m)
    d._memory = rps.State(k)
    M = rps.Move
    a = {p: c.case(p, list(M)) for p in ('player1', 'player2')}
    beats = {(M.rock, M.scissors), (M.scissors, M.paper), (M.paper, M.rock)}
    o = d._state_step(a)
    x, y = a['player1'], a['player2']
    r = 1 if (x, y) in beats else -1 if (y, x) in beats else 0
    c.prove('the winner gets one from the loser', o.value['player1'].reward == r and o.value['player2'].reward == -r)
    c.prove('moves are counted', eqf(o.state.num_move, k + 1))
    c.prove('the game ends after the given number of moves', Iff(o.termination['player1'] if isinstance(o.termination, dict) else o.termination, k + 1 >= m))
    c.prove('each player sees the move of the other', d.get_observation(o.state, a) == {'player1': y, 'player2': x})
    c.prove('starts at zero', eqf(d._state_reset().num_move, 0) and d.get_observation(d._state_reset()) == {'player1': M.rock, 'player2': M.rock})
    c.prove('moves', {p: list(v.get_elements()) for p, v in d.get_action_space().items()} == {p: list(M) for p in a} == {
        p: list(v.get_elements()) for p, v in d.get_observation_space().items()})
