import contextlib, io, random
import numpy as np
from replay.base import require
from replay import C24, C25
from skdecide.builders.discrete_optimization.generic_tools.do_mutation import LocalMoveDefault
from skdecide.builders.discrete_optimization.generic_tools.do_problem import EncodingRegister, TypeAttribute
from skdecide.builders.discrete_optimization.generic_tools.mutations.permutation_mutations import (
    PermutationShuffleMutation, PermutationPartialShuffleMutation, PermutationSwap, TwoOptMutation, SwapsLocalMove, TwoOptMove, ShuffleMove)
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_bool import MutationBitFlip, BitFlipMove
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_integer import MutationIntegerSpecificArrity
from skdecide.builders.discrete_optimization.generic_tools.mutations.mixed_mutation import BasicPortfolioMutation, BasicPortfolioMutationTrack
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPSolution
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import KnapsackSolution

RULE = 'random solutions mutated several times: valid encodings, objectives of the mutated solution, moves undone and applied again'
BOUNDS = 'bounded: permutations and vectors of at most 6 elements, permutations alone of at most 300'
ROUNDS = 60
PERM = ['shuffle', 'partial', 'swap', 'twoopt']


def cases(rng, tier):
    for _ in range(50):
        i = C24.instance(rng, rng.choice([1, 3]))
        while i['n'] < 2:
            i = C24.instance(rng, rng.choice([1, 3]))
        kinds = PERM + (['modes'] if i['multi'] else [])
        yield dict(what='rcpsp', i=i, kind=rng.choice(kinds + ['portfolio', 'portfolio', 'swap']), steps=rng.randint(1, 4), seed=rng.randrange(10 ** 6), p=rng.choice([.3, .5, 1.]), nb=rng.randint(1, 3),
                   evaluated=rng.random() < .5, kinds=rng.sample(kinds, 2), w=[rng.choice([0, 1, 3]), rng.choice([1, 2])])
    for _ in range(15):
        i = C25.instance(rng)
        yield dict(what='bits', i=i, taken=[rng.randint(0, 1) for _ in i['items']], seed=rng.randrange(10 ** 6), p=rng.choice([0., .3, 1.]), steps=rng.randint(1, 4))
    for _ in range(30):
        n = rng.randint(2, 6)
        yield dict(what='moves', perm=rng.sample(range(n), n), swaps=[[rng.randrange(n), rng.randrange(n)] for _ in range(rng.randint(0, 4))],
                   opts=[sorted(rng.sample(range(n), 2)) for _ in range(rng.randint(0, 3))], new=rng.sample(range(n), n), bits=[rng.randint(0, 1) for _ in range(n)], flips=[rng.randrange(n) for _ in range(3)])
    for _ in range(4):
        yield dict(what='long', n=rng.choice([2, 10, 45, 90, 300]), seed=rng.randrange(10 ** 6), kinds=[rng.choice(PERM) for _ in range(6)], p=rng.choice([.3, .5, 1.]), nb=rng.randint(1, 12))
    yield dict(what='reach', n=rng.randint(2, 4), seed=rng.randrange(10 ** 6))


def check(case):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()[case['what']](case)


def make(kind, pb, sol, case):
    return dict(shuffle=lambda: PermutationShuffleMutation.build(pb, sol), partial=lambda: PermutationPartialShuffleMutation.build(pb, sol, proportion=case['p']),
                swap=lambda: PermutationSwap.build(pb, sol, nb_swap=case['nb']), twoopt=lambda: TwoOptMutation.build(pb, sol),
                modes=lambda: MutationIntegerSpecificArrity.build(pb, sol, probability_flip=case['p']))[kind]()


def seed(case):
    random.seed(case['seed'])
    np.random.seed(case['seed'])


def rcpsp(case):
    i = case['i']
    pb = C24.build(i)
    n = i['n']
    sol = RCPSPSolution(pb, rcpsp_permutation=list(i['perm']), rcpsp_modes=list(i['modes']))
    seed(case)
    if case['kind'] == 'portfolio':
        m = random.choice([BasicPortfolioMutation, BasicPortfolioMutationTrack])([make(k, pb, sol, case) for k in case['kinds']], case['w'])
    else:
        m = make(case['kind'], pb, sol, case)
    kinds = case['kinds'] if case['kind'] == 'portfolio' else [case['kind']]
    if case['kind'] == 'portfolio' and case['w'][0] == 0:
        kinds = kinds[1:]
    ar = [len(i['md'][str(a)]) for a in range(2, n + 2)]

    def fresh(perm, modes):
        return pb.evaluate(RCPSPSolution(pb, rcpsp_permutation=list(perm), rcpsp_modes=list(modes)))
    same = lambda a, b: set(a) == set(b) and all(a[k] == b[k] or (a[k] != a[k] and b[k] != b[k]) for k in a)
    for _ in range(case['steps']):
        p0, m0 = list(sol.rcpsp_permutation), list(sol.rcpsp_modes)
        if case['evaluated']:
            require(same(pb.evaluate(sol), fresh(p0, m0)), 'the solution before the mutation')
        if random.random() < .5:
            r, mv = m.mutate(sol)
            raw = list(r.rcpsp_modes)
            require(len(raw) == n and all(1 <= x <= ar[k] for k, x in enumerate(raw) if x != m0[k]), 'modes %r in place of %r, numbers of modes %r' % (raw, m0, ar))
            require(not kinds or set(kinds) - {'shuffle', 'modes'} or (list(sol.rcpsp_permutation) == p0 and list(sol.rcpsp_modes) == m0), 'the solution given changes: %r' % sol.rcpsp_permutation)
            obj = pb.evaluate(r)
        else:
            r, mv, obj = m.mutate_and_compute_obj(sol)
        p1, m1 = list(r.rcpsp_permutation), list(r.rcpsp_modes)
        require(sorted(p1) == list(range(n)), 'not a permutation: %r' % p1)
        require(all(1 <= x <= ar[k] for k, x in enumerate(m1) if x != m0[k]) and len(m1) == n, 'modes %r' % m1)
        if 'modes' not in kinds:
            require(m1 == [x for x in m0], 'the modes changed')
        if kinds == ['modes']:
            require(p1 == p0, 'the permutation changed')
        if kinds == ['swap']:
            require(sum(a != b for a, b in zip(p0, p1)) <= 2 * case['nb'], 'too many positions change: %r to %r' % (p0, p1))
        if kinds == ['partial']:
            require(sum(a != b for a, b in zip(p0, p1)) <= int(case['p'] * n), 'too many positions change: %r to %r' % (p0, p1))
        if kinds == ['twoopt']:
            d = [k for k in range(n) if p0[k] != p1[k]]
            require(d and p1[d[0]:d[-1] + 1] == p0[d[0]:d[-1] + 1][::-1], 'no segment is reversed: %r to %r' % (p0, p1))
        require(same(obj, fresh(p1, m1)), 'objectives %r of the mutated solution, expected %r' % (obj, fresh(p1, m1)))
        b = mv.backtrack_local_move(r)
        require(list(b.rcpsp_permutation) == p0 and list(b.rcpsp_modes) == m0, 'undone: %r %r instead of %r %r' % (b.rcpsp_permutation, b.rcpsp_modes, p0, m0))
        require(same(pb.evaluate(b), fresh(p0, m0)), 'objectives after the move was undone')
        sol = mv.apply_local_move(b)
        require(list(sol.rcpsp_permutation) == p1 and list(sol.rcpsp_modes) == m1, 'applied again: %r' % sol.rcpsp_permutation)
        require(same(pb.evaluate(sol), fresh(p1, m1)), 'objectives after the move was applied again')


class Long:
    def __init__(self, n):
        self.n, self.main, self.other, self.copies = n, list(range(n)), ['x'], 0

    def get_attribute_register(self, problem):
        return EncodingRegister({'main': dict(name='main', type=[TypeAttribute.PERMUTATION], range=range(self.n), n=self.n)})

    def lazy_copy(self):
        o = Long(self.n)
        o.main, o.other = self.main, self.other
        return o


def long(case):
    """Long permutations: the same rules, on a solution with nothing but a permutation."""
    seed(case)
    n = case['n']

    class Pb:
        def evaluate(self, s):
            return dict(v=sum(k * x for k, x in enumerate(s.main)))
    pb, s = Pb(), Long(n)
    random.shuffle(s.main)
    firsts = set()
    for kind in case['kinds']:
        m = make(kind, pb, s, case)
        p0 = list(s.main)
        r, mv, obj = m.mutate_and_compute_obj(s)
        p1 = list(r.main)
        require(sorted(p1) == list(range(n)), '%s: not a permutation: %r' % (kind, p1))
        require(obj == pb.evaluate(r), 'objective')
        require(kind != 'shuffle' or list(s.main) == p0, 'the solution given changes')
        d = [k for k in range(n) if p0[k] != p1[k]]
        if kind == 'shuffle' and n >= 20:
            require(len(d) > n / 3, 'shuffled: only %d of %d positions change' % (len(d), n))
        if kind == 'shuffle' and n >= 40:
            pos = {x: k for k, x in enumerate(p0)}
            for name, part in (('first', p1[:n // 2]), ('last', p1[-(n // 2):])):
                q = [pos[x] for x in part]
                require(q != sorted(q) and q != sorted(q, reverse=True), 'the %s half keeps its order: %r' % (name, q))
        if kind == 'swap':
            require(len(d) <= 2 * case['nb'], 'too many positions change')
        if kind == 'partial':
            require(len(d) <= int(case['p'] * n), 'too many positions change')
        if kind == 'twoopt':
            require(d and p1[d[0]:d[-1] + 1] == p0[d[0]:d[-1] + 1][::-1], 'no segment is reversed: %r to %r' % (p0, p1))
        b = mv.backtrack_local_move(r)
        require(list(b.main) == p0, '%s undone: %r instead of %r' % (kind, b.main, p0))
        s = mv.apply_local_move(b)
        require(list(s.main) == p1, '%s applied again: %r' % (kind, s.main))


def bits(case):
    i = case['i']
    pb = C25.build(i, force_recompute_values=True)
    sol = KnapsackSolution(pb, list(case['taken']))
    seed(case)
    m = MutationBitFlip.build(pb, sol, probability_flip=case['p'])
    for _ in range(case['steps']):
        t0 = list(sol.list_taken)
        r, mv, obj = m.mutate_and_compute_obj(sol)
        t1 = list(r.list_taken)
        require(len(t1) == len(t0) and all(x in (0, 1) for x in t1), 'not a vector of bits: %r' % t1)
        require(case['p'] != 0 or t1 == t0, 'flips with probability 0')
        require(case['p'] != 1 or all(a != b for a, b in zip(t0, t1)), 'no flip with probability 1')
        require(abs(obj['value'] - C25.value(i, t1)) < 1e-9, 'objective')
        b = mv.backtrack_local_move(r)
        require(list(b.list_taken) == t0, 'undone: %r' % b.list_taken)
        sol = mv.apply_local_move(b)
        require(list(sol.list_taken) == t1, 'applied again')


class Obj:
    pass


def moves(case):
    def run(mv, attr, start, exp, msg):
        o = Obj()
        setattr(o, attr, list(start))
        r = mv.apply_local_move(o)
        require(list(getattr(r, attr)) == list(exp), '%s: %r from %r' % (msg, getattr(r, attr), start))
        b = mv.backtrack_local_move(r)
        require(list(getattr(b, attr)) == list(start), '%s undone: %r instead of %r' % (msg, getattr(b, attr), start))
        r = mv.apply_local_move(b)
        require(list(getattr(r, attr)) == list(exp), '%s applied again' % msg)
    p = list(case['perm'])
    for a, b in case['swaps']:
        p[a], p[b] = p[b], p[a]
    run(SwapsLocalMove('x', [tuple(s) for s in case['swaps']]), 'x', case['perm'], p, 'swaps %r' % case['swaps'])
    p = list(case['perm'])
    for a, b in case['opts']:
        p[a:b + 1] = p[a:b + 1][::-1]
    run(TwoOptMove('x', [tuple(s) for s in case['opts']]), 'x', case['perm'], p, 'two-opt %r' % case['opts'])
    run(ShuffleMove('x', list(case['new']), list(case['perm'])), 'x', case['perm'], case['new'], 'shuffle')
    t = list(case['bits'])
    for f in case['flips']:
        t[f] = 1 - t[f]
    run(BitFlipMove('x', list(case['flips'])), 'x', case['bits'], t, 'flips %r' % case['flips'])
    a, b = Obj(), Obj()
    d = LocalMoveDefault(a, b)
    require(d.apply_local_move(a) is b and d.backtrack_local_move(b) is a, 'default move')


def reach(case):
    """Every neighbour is found within many mutations."""
    seed(case)
    n = case['n']
    i = dict(n=n, res={'R0': 2}, nr=[], md={str(a): {'1': dict(R0=0 if a in (1, n + 2) else 1, duration=0 if a in (1, n + 2) else 1)} for a in range(1, n + 3)},
             suc={str(a): ([n + 2] if 1 < a < n + 2 else list(range(2, n + 2)) if a == 1 else []) for a in range(1, n + 3)}, hor=50, mult=1, multi=False, cal=False)
    pb = C24.build(i)
    mk = lambda: RCPSPSolution(pb, rcpsp_permutation=list(range(n)), rcpsp_modes=[1] * n)
    swaps, opts, shuf = set(), set(), set()
    for _ in range(600):
        swaps.add(tuple(PermutationSwap.build(pb, mk()).mutate(mk())[0].rcpsp_permutation))
        opts.add(tuple(TwoOptMutation.build(pb, mk()).mutate(mk())[0].rcpsp_permutation))
        shuf.add(tuple(PermutationShuffleMutation.build(pb, mk()).mutate(mk())[0].rcpsp_permutation))
    base = list(range(n))
    es, eo = {tuple(base)}, set()
    for a in range(n):
        for b in range(a + 1, n):
            q = list(base)
            q[a], q[b] = q[b], q[a]
            es.add(tuple(q))
            eo.add(tuple(base[:a] + base[a:b + 1][::-1] + base[b + 1:]))
    import itertools
    require(swaps == es, 'swaps reach %r, expected %r' % (sorted(swaps), sorted(es)))
    require(opts == eo, 'two-opt reaches %r, expected %r' % (sorted(opts), sorted(eo)))
    require(n > 4 or shuf == set(itertools.permutations(base)), 'shuffles reach %r' % sorted(shuf))
