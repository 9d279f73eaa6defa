"""Local moves and mutations."""
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
import skdecide.builders.discrete_optimization.generic_tools.do_mutation as dm
import skdecide.builders.discrete_optimization.generic_tools.mutations.permutation_mutations as pm
import skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_bool as mb
import skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_integer as mi
import skdecide.builders.discrete_optimization.generic_tools.mutations.mixed_mutation as mx
import skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_util as mt
from skdecide.builders.discrete_optimization.generic_tools.do_problem import TypeAttribute, EncodingRegister

CONTRACTS = contract = Registry()
MBQI, FEAS_MS, TIMEOUT_MS = False, 500, 8000
ASSUMPTIONS = ['random.shuffle rearranges its list in place; random.randint, random.choice, np.random.randint and np.random.choice return some value of the range asked for',
               'np.where(condition)[0] lists the positions where the condition holds, once each',
               'solutions: lazy_copy and copy give new solutions with equal attributes (proved per solution class elsewhere)',
               'deepcopy of a list of integers is an equal list']
G = 'skdecide.builders.discrete_optimization.generic_tools.'
P, B, N, X = G + 'mutations.permutation_mutations:', G + 'mutations.mutation_bool:', G + 'mutations.mutation_integer:', G + 'mutations.mixed_mutation:'
Sel, Sto = z3.Select, z3.Store
I = lambda n: z3.Int(n + '!k')
ZI = z3.IntSort()
VEC = SeqTy(INT)


class Sol:
    """A solution: attributes, and a record of the changes announced by setattr."""
    __module__ = 'skdecide.stub'

    def __init__(self, **kw):
        self.__dict__.update(kw)
        self.__dict__['told'] = []

    def __setattr__(self, k, v):
        self.__dict__[k] = v
        self.told.append(k)

    def lazy_copy(self):
        return Sol(**{k: v for k, v in self.__dict__.items() if k != 'told'})

    def copy(self):
        return Sol(**{k: (v.copy() if isinstance(v, SymSeq) else v) for k, v in self.__dict__.items() if k != 'told'})


class Problem:
    """A problem with the given register of attributes."""
    __module__ = 'skdecide.stub'

    def __init__(self, c, reg=None, sol=None):
        self.c, self.reg, self.sol, self.asked = c, reg, sol, []
        self.objective = OBJ.fresh('objective')

    def get_attribute_register(self, problem=None): return self.reg

    def evaluate(self, sol):
        self.asked.append((sol, {k: (SeqTy(INT).unwrap(v) if isinstance(v, SymSeq) else v) for k, v in sol.__dict__.items()}))
        return self.objective


def perm(a, n):
    """a[0..n) lists distinct values."""
    i, j = I('pi'), I('pj')
    return fa([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), Sel(a, i) != Sel(a, j)), (Sel(a, i), Sel(a, j)))


def eqv(seq, n, a):
    """The sequence is a[0..n)."""
    s = VEC.unwrap(seq)
    j = I('ej')
    return z3.And(s[0] == n, fa([j], z3.Implies(z3.And(0 <= j, j < n), Sel(s[1], j) == Sel(a, j))))


def states(c, a0, m, step):
    """The vectors after 0..m elementary changes."""
    ST = z3.Function(c.fresh_name('state'), ZI, z3.ArraySort(ZI, ZI))
    c.assume(ST(0) == a0)
    return ST


@contract('swaps', P + 'SwapsLocalMove.__init__', P + 'SwapsLocalMove.apply_local_move', P + 'SwapsLocalMove.backtrack_local_move')
def _(c):
    x = VEC.fresh('current')
    n, a = x.n, x.arrays[1]
    swaps = SeqTy(TupTy(INT, INT)).fresh('swaps')
    S, T, m = swaps.arrays[1], swaps.arrays[2], swaps.n
    k = I('k')
    c.assume(n >= 1)
    c.assume(fa([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(0 <= Sel(S, k), Sel(S, k) < n, 0 <= Sel(T, k), Sel(T, k) < n)), Sel(S, k), Sel(T, k)))
    c.assume(perm(a, n))
    ST = states(c, a, m, None)

    def unfold(i):
        p, q = Sel(S, i), Sel(T, i)
        c.assume(ST(i + 1) == Sto(Sto(ST(i), p, Sel(ST(i), q)), q, Sel(ST(i), p)))
    s = Sol(perm=x, other=OBJ.fresh('other'))
    o0 = s.other
    back = [False]

    def inv(lp):
        k = m - lp.i if back[0] else lp.i
        if lp.phase == 'assume':
            unfold(m - lp.i - 1 if back[0] else lp.i)
        v = VEC.unwrap(lp.locals['current'])
        return [('the list of the solution', z3.BoolVal(lp.locals['current'] is x)), ('length', v[0] == n), ('changes so far', fa([I('j')], z3.Implies(z3.And(0 <= I('j'), I('j') < n), Sel(v[1], I('j')) == Sel(ST(k), I('j'))), Sel(v[1], I('j')), Sel(ST(k), I('j')))),
                ('a permutation', perm(v[1], n))]
    c.loops.append(LoopContract(lambda lp: True, inv, {}, lambda lp: [lp.locals['current']], name='swaps'))
    mv = pm.SwapsLocalMove('perm', swaps)
    r = mv.apply_local_move(s)
    c.prove('in place', r is s)
    c.prove('all swaps in order', z3.And(eqv(r.perm, n, ST(m)), perm(VEC.unwrap(r.perm)[1], n)))
    c.prove('the solution is told', s.told == ['perm'])
    back[0] = True
    x = r.perm
    s.told.clear()
    r2 = mv.backtrack_local_move(r)
    c.prove('undone', z3.And(eqv(r2.perm, n, a), z3.BoolVal(r2 is s)))
    c.prove('the solution is told that it was undone', s.told == ['perm'])
    c.prove('nothing else changed', z3.BoolVal(s.other is o0))


@contract('two-opt', P + 'TwoOptMove.__init__', P + 'TwoOptMove.apply_local_move', P + 'TwoOptMove.backtrack_local_move')
def _(c):
    x = VEC.fresh('current')
    n, a = x.n, x.arrays[1]
    segs = SeqTy(TupTy(INT, INT)).fresh('segments')
    S, T, m = segs.arrays[1], segs.arrays[2], segs.n
    k, j = I('k'), I('j')
    c.assume(fa([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(0 <= Sel(S, k), Sel(S, k) <= Sel(T, k), Sel(T, k) < n)), Sel(S, k), Sel(T, k)))
    ST = states(c, a, m, None)

    def unfold(i):
        p, q = Sel(S, i), Sel(T, i)
        s0, s1 = z3.Const(c.fresh_name('st'), z3.ArraySort(ZI, ZI)), z3.Const(c.fresh_name('st'), z3.ArraySort(ZI, ZI))
        c.assume(z3.And(s0 == ST(i), s1 == ST(i + 1)))
        c.assume(fa([j], Sel(s1, j) == z3.If(z3.And(p <= j, j <= q), Sel(s0, p + q - j), Sel(s0, j)), Sel(s1, j)))
        c.assume(fa([j], Sel(s0, j) == z3.If(z3.And(p <= j, j <= q), Sel(s1, p + q - j), Sel(s1, j)), Sel(s0, j)))
    s = Sol(perm=x)
    back = [False]

    def inv(lp):
        k = m - lp.i if back[0] else lp.i
        if lp.phase == 'assume':
            unfold(m - lp.i - 1 if back[0] else lp.i)
        v = VEC.unwrap(lp.locals['current'])
        return [('length', v[0] == n), ('changes so far', fa([j], z3.Implies(z3.And(0 <= j, j < n), Sel(v[1], j) == Sel(ST(k), j)), Sel(v[1], j), Sel(ST(k), j)))]
    c.loops.append(LoopContract(lambda lp: True, inv, dict(current=VEC), name='segments'))
    mv = pm.TwoOptMove('perm', segs)
    r = mv.apply_local_move(s)
    c.prove('in place', r is s)
    c.prove('all segments reversed in order', eqv(r.perm, n, ST(m)))
    c.prove('the solution is told', s.told == ['perm'])
    c.prove('the earlier list is not changed', eqv(x, n, a))
    back[0] = True
    r2 = mv.backtrack_local_move(r)
    c.prove('undone', z3.And(eqv(r2.perm, n, a), z3.BoolVal(r2 is s)))
    c.prove('the solution is told that it was undone', s.told == ['perm'] * 2)


@contract('a reversed segment', P + 'TwoOptMove.apply_local_move')
def _(c):
    x = VEC.fresh('current')
    n, a = x.n, x.arrays[1]
    p, q = INT.fresh('first'), INT.fresh('last')
    c.assume(z3.And(0 <= p.t, p.t <= q.t, q.t < n))
    c.assume(perm(a, n))
    s = Sol(perm=x)
    r = pm.TwoOptMove('perm', [(p, q)]).apply_local_move(s)
    b = VEC.unwrap(r.perm)
    j, k = I('j'), I('k')
    c.prove('the segment is reversed, the rest stays', z3.And(b[0] == n, fa([j], z3.Implies(z3.And(0 <= j, j < n), Sel(b[1], j) == z3.If(z3.And(p.t <= j, j <= q.t), Sel(a, p.t + q.t - j), Sel(a, j))))))
    c.prove('still a permutation', fa([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), Sel(b[1], j) != Sel(b[1], k))))


@contract('shuffle move and default move', P + 'ShuffleMove.__init__', P + 'ShuffleMove.apply_local_move', P + 'ShuffleMove.backtrack_local_move',
          G + 'do_mutation:LocalMoveDefault.__init__', G + 'do_mutation:LocalMoveDefault.apply_local_move', G + 'do_mutation:LocalMoveDefault.backtrack_local_move')
def _(c):
    a, b = VEC.fresh('before'), VEC.fresh('after')
    s = Sol(perm=a, other=OBJ.fresh('other'))
    mv = pm.ShuffleMove('perm', b, a)
    r = mv.apply_local_move(s)
    c.prove('applied', z3.And(eqv(r.perm, b.n, VEC.unwrap(b)[1]), z3.BoolVal(r is s and s.told == ['perm'])))
    r = mv.backtrack_local_move(r)
    c.prove('undone', z3.And(eqv(r.perm, a.n, VEC.unwrap(a)[1]), z3.BoolVal(r is s and s.told == ['perm'] * 2)))
    t = Sol()
    d = dm.LocalMoveDefault(s, t)
    c.prove('default move', d.apply_local_move(s) is t and d.backtrack_local_move(t) is s)


@contract('bit flips', B + 'BitFlipMove.__init__', B + 'BitFlipMove.apply_local_move', B + 'BitFlipMove.backtrack_local_move')
def _(c):
    x = VEC.fresh('bits')
    n, a = x.n, x.arrays[1]
    flips = VEC.fresh('flips')
    f, m = flips.arrays[1], flips.n
    q = I('q')
    c.assume(fa([q], z3.Implies(z3.And(0 <= q, q < m), z3.And(0 <= Sel(f, q), Sel(f, q) < n)), Sel(f, q)))
    PAR = z3.Function(c.fresh_name('parity'), ZI, ZI, ZI)
    c.assume(fa([q], PAR(0, q) == 0, PAR(0, q)))
    s = Sol(bits=x)
    gh = dict(a=a)

    def inv(lp):
        b = VEC.unwrap(lp.locals['l'])
        if lp.phase == 'assume':
            c.assume(fa([q], PAR(lp.i + 1, q) == z3.If(q == Sel(f, lp.i), 1 - PAR(lp.i, q), PAR(lp.i, q)), PAR(lp.i + 1, q)))
        a0 = gh['a']
        return [('the list of the solution', z3.BoolVal(lp.locals['l'] is s.bits)), ('length', b[0] == n), ('parity', fa([q], z3.And(0 <= PAR(lp.i, q), PAR(lp.i, q) <= 1), PAR(lp.i, q))),
                ('flipped so far', fa([q], Sel(b[1], q) == z3.If(PAR(lp.i, q) == 1, 1 - Sel(a0, q), Sel(a0, q)), Sel(b[1], q)))]
    c.loops.append(LoopContract(lambda lp: True, inv, {}, lambda lp: [lp.locals['l']], name='flips'))
    mv = mb.BitFlipMove('bits', flips)
    r = mv.apply_local_move(s)
    c.prove('in place', r is s)
    b = VEC.unwrap(r.bits)
    c.prove('flipped as often as listed', z3.And(b[0] == n, fa([q], z3.Implies(z3.And(0 <= q, q < n), Sel(b[1], q) == z3.If(PAR(m, q) == 1, 1 - Sel(a, q), Sel(a, q))))))
    gh['a'] = b[1]
    r2 = mv.backtrack_local_move(r)
    c.prove('undone', z3.And(eqv(r2.bits, n, a), z3.BoolVal(r2 is s)))


# -------------------------------------------------------------------------------------------- mutations
def register(c, kind):
    """The first attribute of the kind asked for is not the first one registered."""
    rng = VEC.fresh('range')
    L = lambda *t: [TypeAttribute.__members__[x] for x in t]
    ar = VEC.fresh('arrities')
    d = {'flags': dict(name='flags', type=L('LIST_INTEGER'), range=VEC.fresh('r0'), n=OBJ.fresh('n0'), arrities=OBJ.fresh('a0')),
         'main': dict(name='mainattr', type=L('LIST_INTEGER', kind), range=rng, n=SymInt(rng.n), arrities=ar),
         'extra': dict(name='extra', type=L(kind), range=VEC.fresh('r1'), n=OBJ.fresh('n1'), arrities=OBJ.fresh('a1'))}
    return EncodingRegister(d), rng, ar


class Shuffle:
    """random: shuffle rearranges in place; numbers in the range asked for."""
    def __init__(self, c): self.c, self.shuffled, self.inv, self.asked = c, [], [], []

    def shuffle(self, x):
        c = self.c
        n, a = SeqTy(INT).unwrap(x)
        p, v = z3.Const(c.fresh_name('order'), z3.ArraySort(ZI, ZI)), z3.Const(c.fresh_name('place'), z3.ArraySort(ZI, ZI))
        i = I('i')
        c.assume(fa([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= Sel(p, i), Sel(p, i) < n, Sel(v, Sel(p, i)) == i)), Sel(p, i)))
        c.assume(fa([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= Sel(v, i), Sel(v, i) < n, Sel(p, Sel(v, i)) == i)), Sel(v, i), ))
        b = z3.Const(c.fresh_name('shuffled'), z3.ArraySort(ZI, ZI))
        c.assume(fa([i], z3.Implies(z3.And(0 <= i, i < n), Sel(b, i) == Sel(a, Sel(p, i))), Sel(b, i)))
        x._set(VEC.wrap([n, b]))
        self.shuffled.append((x, p, v))

    def randint(self, a, b):
        c = self.c
        c.prove('random range not empty', num(a) <= num(b))
        r = INT.fresh('drawn')
        c.assume(z3.And(num(a) <= r.t, r.t <= num(b)))
        self.asked.append((a, b, r))
        return r

    def choice(self, l):
        c = self.c
        k = INT.fresh('pick')
        c.prove('choice among something', l.n >= 1)
        c.assume(z3.And(0 <= k.t, k.t < l.n))
        return l[k]

    def random(self):
        r = REAL.fresh('r')
        self.c.assume(z3.And(0 <= r.t, r.t < 1))
        self.asked.append(r)
        return r


class Current:
    """Set per path by the contracts."""
    rnd = np = None


class Via:
    def __init__(self, name): self.__dict__['name'] = name
    def __getattr__(self, k): return getattr(getattr(Current, self.name), k)


def stubs():
    saved = [(m, k, m.__dict__[k]) for m in (pm, mb, mi, mx) for k in ('random', 'np', 'deepcopy') if k in m.__dict__]
    for m, k, _ in saved:
        setattr(m, k, Via('rnd') if k == 'random' else Via('np') if k == 'np' else (lambda x: x.copy()))
    for m in (pm, mx):
        m.print = lambda *a, **k: None

    def undo():
        for m, k, v in saved:
            setattr(m, k, v)
        for m in (pm, mx):
            del m.print
    return undo


def identity(c, seq, n):
    """The list 0..n-1 in some order."""
    a = VEC.unwrap(seq)
    j = I('j')
    v = z3.Const(c.fresh_name('where'), z3.ArraySort(ZI, ZI))
    return z3.And(a[0] == n, fa([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= Sel(a[1], j), Sel(a[1], j) < n)), Sel(a[1], j)), perm(a[1], n))


def ordering(c, n):
    """Some ordering of 0..n-1 with its inverse."""
    s = VEC.fresh('indices')
    p, v = s.arrays[1], z3.Const(c.fresh_name('where'), z3.ArraySort(ZI, ZI))
    j = I('j')
    c.assume(s.n == n)
    c.assume(fa([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= Sel(p, j), Sel(p, j) < n, Sel(v, Sel(p, j)) == j)), Sel(p, j)))
    c.assume(fa([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= Sel(v, j), Sel(v, j) < n, Sel(p, Sel(v, j)) == j)), Sel(v, j)))
    return s, p, v


def build(c, cls, kind, given, **kw):
    reg, rng, ar = register(c, kind)
    name = 'main'
    sol = Sol()
    pb = Problem(c, reg)
    sol.get_attribute_register = lambda problem: reg if problem is pb else None
    if given:
        kw['attribute'] = 'main'
    return cls.build(pb, sol, **kw), pb, rng, ar


@contract('shuffling a permutation', P + 'PermutationShuffleMutation.__init__', P + 'PermutationShuffleMutation.mutate', P + 'PermutationShuffleMutation.mutate_and_compute_obj',
          P + 'PermutationShuffleMutation.build', setup=stubs)
def _(c):
    Current.rnd = rnd = Shuffle(c)
    m, pb, rng, _ = build(c, pm.PermutationShuffleMutation, 'PERMUTATION', False)
    n = rng.n
    c.prove('first permutation attribute', m.attribute == 'main' and m.problem is pb)
    j, k = I('j'), I('k')
    r0 = VEC.unwrap(m.range_int)
    c.prove('all positions', z3.And(r0[0] == n, fa([j], z3.Implies(z3.And(0 <= j, j < n), Sel(r0[1], j) == j))))
    m.range_int, _, v0 = ordering(c, n)                        # class invariant: an ordering of the positions
    r0 = m.range_int.arrays[1]
    x = VEC.fresh('previous')
    a = x.arrays[1]
    c.assume(x.n == n)
    c.assume(perm(a, n))
    s = Sol(main=x, other=OBJ.fresh('other'))
    obj = None
    if c.case('objective', [False, True]):
        r, mv, obj = m.mutate_and_compute_obj(s)
        c.prove('objective of the mutated solution', obj is pb.objective and len(pb.asked) == 1 and pb.asked[0][0] is r and 'main' in pb.asked[0][1])
        c.prove('evaluated after the change', pb.asked[0][1]['main'][1] == VEC.unwrap(r.main)[1])
    else:
        r, mv = m.mutate(s)
        c.prove('not evaluated', not pb.asked)
    b = VEC.unwrap(r.main)
    p, v = [z3.Const('%s!s%d' % (t, 0), z3.ArraySort(ZI, ZI)) for t in 'pv']
    sh = VEC.unwrap(m.range_int)[1]
    _, po, vo = rnd.shuffled[0]
    c.prove('one shuffle', len(rnd.shuffled) == 1 and rnd.shuffled[0][0] is m.range_int)
    inr = lambda t: z3.And(0 <= t, t < n)
    c.prove('still an ordering of the positions', z3.And(VEC.unwrap(m.range_int)[0] == n, fa([j], z3.Implies(inr(j), z3.And(inr(Sel(sh, j)), Sel(vo, Sel(v0, Sel(sh, j))) == j))),
                                                       fa([j], z3.Implies(inr(j), z3.And(inr(Sel(vo, Sel(v0, j))), Sel(sh, Sel(vo, Sel(v0, j))) == j)))))
    c.prove('rearranged', z3.And(b[0] == n, fa([j], z3.Implies(inr(j), Sel(b[1], j) == Sel(a, Sel(sh, j))))))
    c.prove('same values', z3.And(perm(b[1], n), fa([j], z3.Implies(inr(j), Sel(b[1], Sel(vo, Sel(v0, j))) == Sel(a, j)))))
    c.prove('the solution given is kept', z3.And(eqv(s.main, n, a), z3.BoolVal(r is not s and s.main is x and s.told == [] and r.other is s.other)))
    c.prove('the change is announced', r.told == ['main'])
    q = mv.backtrack_local_move(r)
    c.prove('undone', eqv(q.main, n, a))
    q = mv.apply_local_move(q)
    c.prove('applied again', eqv(q.main, n, b[1]))


@contract('shuffling a part of a permutation', P + 'PermutationPartialShuffleMutation.__init__', P + 'PermutationPartialShuffleMutation.mutate',
          P + 'PermutationPartialShuffleMutation.mutate_and_compute_obj', P + 'PermutationPartialShuffleMutation.build', setup=stubs)
def _(c):
    Current.rnd = rnd = Shuffle(c)
    prop = REAL.fresh('proportion')
    c.assume(z3.And(0 <= prop.t, prop.t <= 1))
    m, pb, rng, _ = build(c, pm.PermutationPartialShuffleMutation, 'PERMUTATION', c.case('attribute given', [False, True]), proportion=prop)
    n = rng.n
    k = num(m.n_to_move)
    j = I('j')
    inr = lambda t, n=n: z3.And(0 <= t, t < n)
    c.prove('first permutation attribute', m.attribute == 'main' and m.problem is pb)
    c.prove('share of the positions', z3.And(z3.ToReal(k) <= prop.t * z3.ToReal(n), z3.ToReal(k) > prop.t * z3.ToReal(n) - 1, inr(k, n + 1)))
    r0, t0 = VEC.unwrap(m.range_int), VEC.unwrap(m.range_int_total)
    c.prove('all positions', z3.And(t0[0] == n, fa([j], z3.Implies(inr(j), Sel(t0[1], j) == j)), r0[0] == k, fa([j], z3.Implies(inr(j, k), Sel(r0[1], j) == j))))
    kk = INT.fresh('n_to_move')
    c.assume(kk.t == k)
    m.n_to_move, k = kk, kk.t
    m.range_int, ra, rv = ordering(c, k)
    m.range_int_total, ta, tv = ordering(c, n)
    x = VEC.fresh('previous')
    a = x.arrays[1]
    c.assume(x.n == n)
    c.assume(perm(a, n))
    s = Sol(main=x, other=OBJ.fresh('other'))

    def inv(lp):
        b = VEC.unwrap(lp.locals['new'])
        tot, ri = VEC.unwrap(m.range_int_total)[1], VEC.unwrap(m.range_int)[1]
        _, _, sh = rnd.shuffled[0]
        place = lambda p: Sel(tv, p)
        return [('length', b[0] == n),
                ('moved so far', fa([j], z3.Implies(inr(j, lp.i), Sel(b[1], Sel(tot, j)) == Sel(a, Sel(tot, Sel(ri, j)))), Sel(tot, j))),
                ('the rest stays', fa([j], z3.Implies(z3.And(inr(j), Sel(sh, Sel(tv, j)) >= lp.i), Sel(b[1], j) == Sel(a, j)), Sel(b[1], j)))]
    c.loops.append(LoopContract(lambda lp: True, inv, {}, lambda lp: [lp.locals['new']], name='moved'))
    if c.case('objective', [False, True]):
        r, mv, obj = m.mutate_and_compute_obj(s)
        c.prove('objective of the mutated solution', obj is pb.objective and len(pb.asked) == 1 and pb.asked[0][0] is r and 'main' in pb.asked[0][1])
        c.prove('evaluated after the change', pb.asked[0][1]['main'][1] == VEC.unwrap(r.main)[1])
    else:
        r, mv = m.mutate(s)
        c.prove('not evaluated', not pb.asked)
    b = VEC.unwrap(r.main)
    tot, ri = VEC.unwrap(m.range_int_total), VEC.unwrap(m.range_int)
    c.prove('two shuffles', len(rnd.shuffled) == 2 and rnd.shuffled[0][0] is m.range_int_total and rnd.shuffled[1][0] is m.range_int)
    (_, _, sh), (_, _, rh) = rnd.shuffled
    T = lambda t: Sel(sh, Sel(tv, t))                  # place in the shuffled total
    R = lambda t: Sel(rh, Sel(rv, t))
    c.prove('positions', z3.And(tot[0] == n, fa([j], z3.Implies(inr(j), z3.And(inr(Sel(tot[1], j)), T(Sel(tot[1], j)) == j, inr(T(j)), Sel(tot[1], T(j)) == j)))))
    c.prove('order of the part', z3.And(ri[0] == k, fa([j], z3.Implies(inr(j, k), z3.And(inr(Sel(ri[1], j), k), R(Sel(ri[1], j)) == j, inr(R(j), k), Sel(ri[1], R(j)) == j)))))
    src = z3.Function(c.fresh_name('source'), ZI, ZI)
    c.assume(fa([j], src(j) == z3.If(T(j) < k, Sel(tot[1], Sel(ri[1], T(j))), j), src(j)))
    i2 = I('i2')
    c.prove('rearranged', z3.And(b[0] == n, fa([j], z3.Implies(inr(j), z3.And(inr(src(j)), Sel(b[1], j) == Sel(a, src(j)))))))
    c.prove('no position twice', fa([j, i2], z3.Implies(z3.And(inr(j), inr(i2), j != i2), src(j) != src(i2)), (src(j), src(i2))))
    bk = z3.Function(c.fresh_name('target'), ZI, ZI)
    c.assume(fa([j], bk(j) == z3.If(T(j) < k, Sel(tot[1], R(T(j))), j), bk(j)))
    c.prove('every position once', fa([j], z3.Implies(inr(j), z3.And(inr(bk(j)), src(bk(j)) == j)), bk(j)))
    c.prove('same values', fa([j], z3.Implies(inr(j), z3.And(inr(bk(j)), Sel(b[1], bk(j)) == Sel(a, j)))))
    c.prove('only the part changes', fa([j], z3.Implies(z3.And(inr(j), T(j) >= k), Sel(b[1], j) == Sel(a, j))))
    c.prove('the change is announced', z3.BoolVal('main' in r.told and r.other is s.other))
    q = mv.backtrack_local_move(r)
    c.prove('undone', eqv(q.main, n, a))
    q = mv.apply_local_move(q)
    c.prove('applied again', eqv(q.main, n, b[1]))


class Pairs:
    def __init__(self, f): self.f = f

    def __getitem__(self, ij):
        return SymInt(self.f(num(ij[0]), num(ij[1])))


class NP:
    """np in the mutations."""
    def __init__(self, c): self.c, self.random, self.calls = c, self, []

    def randint(self, low, high=None, size=None):
        c = self.c
        f = z3.Function(c.fresh_name('draw'), ZI, ZI, ZI)
        i, j = I('i'), I('j')
        c.prove('draws from something', num(low) < num(high))
        c.assume(fa([i, j], z3.And(num(low) <= f(i, j), f(i, j) < num(high)), f(i, j)))
        self.calls.append((low, high, size, f))
        return Pairs(f)


def recorded(c, cls, valid):
    """Callers of apply_local_move see its contract: in range, the mutated solution returned."""
    calls = []

    def apply(self, solution):
        valid(self)
        calls.append((self, solution))
        solution.__dict__['applied'] = self
        return solution
    return calls, apply


def moves():
    undo = stubs()
    saved = pm.SwapsLocalMove.apply_local_move, pm.TwoOptMove.apply_local_move
    pm.SwapsLocalMove.apply_local_move = pm.TwoOptMove.apply_local_move = lambda self, s: Current.apply(self, s)

    def back():
        pm.SwapsLocalMove.apply_local_move, pm.TwoOptMove.apply_local_move = saved
        undo()
    return back


@contract('swapping positions', P + 'PermutationSwap.__init__', P + 'PermutationSwap.mutate', P + 'PermutationSwap.mutate_and_compute_obj', P + 'PermutationSwap.build', setup=moves)
def _(c):
    Current.np = np = NP(c)
    nb = INT.fresh('nb_swap')
    c.assume(nb.t >= 0)
    default = c.case('one swap', [False, True])
    m, pb, rng, _ = build(c, pm.PermutationSwap, 'PERMUTATION', c.case('attribute given', [False, True]), **({} if default else dict(nb_swap=nb)))
    if default:
        nb = SymInt(1)
    n, j, k = rng.n, I('j'), I('k')
    c.assume(n >= 1)
    s = Sol(main=VEC.fresh('perm'))

    def valid(mv):
        l = to_seq(mv.list_index_swap if type(mv.list_index_swap) is SymSeq else list(mv.list_index_swap))
        e = l.elem(j)
        c.prove('as many swaps as asked for', l.n == num(nb))
        c.prove('swaps of valid positions', fa([j], z3.Implies(z3.And(0 <= j, j < l.n), z3.And(*[z3.And(0 <= num(t), num(t) < n) for t in e]))))
        c.prove('attribute', mv.attribute == 'main')
    calls, Current.apply = recorded(c, pm.SwapsLocalMove, valid)
    if c.case('objective', [False, True]):
        r, mv, obj = m.mutate_and_compute_obj(s)
        c.prove('objective of the mutated solution', obj is pb.objective and len(pb.asked) == 1 and pb.asked[0][0] is r and 'applied' in pb.asked[0][1])
    else:
        r, mv = m.mutate(s)
        c.prove('not evaluated', not pb.asked)
    c.prove('the move is applied once', len(calls) == 1 and calls[0][0] is mv and calls[0][1] is s and r is s)
    lo, hi, size, f = np.calls[0]
    c.prove('any position', z3.And(num(lo) == 0, num(hi) == n))
    l = mv.list_index_swap
    e = to_seq(l).elem(j)
    c.prove('drawn swaps', fa([j], z3.Implies(z3.And(0 <= j, j < num(nb)), z3.And(num(e[0]) == f(j, 0), num(e[1]) == f(j, 1)))))
    c.prove('two draws per swap', z3.And(num(size[0]) == num(nb), num(size[1]) == 2))


@contract('reversing a segment', P + 'TwoOptMutation.__init__', P + 'TwoOptMutation.mutate', P + 'TwoOptMutation.mutate_and_compute_obj', P + 'TwoOptMutation.build', setup=moves)
def _(c):
    Current.rnd = rnd = Shuffle(c)
    m, pb, rng, _ = build(c, pm.TwoOptMutation, 'PERMUTATION', c.case('attribute given', [False, True]))
    n = rng.n
    c.assume(n >= 2)
    s = Sol(main=VEC.fresh('perm'))

    def valid(mv):
        (i, j), = mv.index_2opt
        c.prove('a segment of at least two positions', z3.And(0 <= num(i), num(i) < num(j), num(j) < n))
        c.prove('attribute', mv.attribute == 'main')
    calls, Current.apply = recorded(c, pm.TwoOptMove, valid)
    if c.case('objective', [False, True]):
        r, mv, obj = m.mutate_and_compute_obj(s)
        c.prove('objective of the mutated solution', obj is pb.objective and len(pb.asked) == 1 and pb.asked[0][0] is r and 'applied' in pb.asked[0][1])
    else:
        r, mv = m.mutate(s)
        c.prove('not evaluated', not pb.asked)
    c.prove('the move is applied once', len(calls) == 1 and calls[0][0] is mv and calls[0][1] is s and r is s)
    (a1, b1, i), (a2, b2, j) = rnd.asked
    c.prove('any segment', z3.And(num(a1) == 0, num(b1) == n - 2, num(a2) == i.t + 1, num(b2) == n - 1))
    (x, y), = mv.index_2opt
    c.prove('drawn segment', z3.And(num(x) == i.t, num(y) == j.t))


class Draws:
    """np.random.random(n) <= p and np.where: the positions where the condition holds."""
    def __init__(self, c): self.c, self.random = c, self

    def __call__(self, n): return Drawn(self.c, num(n))

    def where(self, cond):
        n, holds = cond
        c = self.c
        s = VEC.fresh('where')
        w, j = s.arrays[1], I('j')
        at = z3.Const(c.fresh_name('at'), z3.ArraySort(ZI, ZI))
        c.assume(fa([j], z3.Implies(z3.And(0 <= j, j < s.n), z3.And(0 <= Sel(w, j), Sel(w, j) < n, holds(Sel(w, j)), Sel(at, Sel(w, j)) == j)), Sel(w, j)))
        c.assume(fa([j], z3.Implies(z3.And(0 <= j, j < n, holds(j)), z3.And(0 <= Sel(at, j), Sel(at, j) < s.n, Sel(w, Sel(at, j)) == j)), Sel(at, j)))
        self.result, self.at = s, at
        return (s,)


class Drawn:
    __module__ = 'skdecide.stub'

    def __init__(self, c, n):
        self.n = n
        self.r = z3.Const(c.fresh_name('drawn'), z3.ArraySort(ZI, z3.RealSort()))
        j = I('j')
        c.assume(fa([j], z3.And(0 <= Sel(self.r, j), Sel(self.r, j) < 1), Sel(self.r, j)))
        World.drawn = self

    def __le__(self, p): return (self.n, lambda j: Sel(self.r, j) <= num(p))
    def __lt__(self, p): return (self.n, lambda j: Sel(self.r, j) < num(p))


class World:
    drawn = None


@contract('flipping bits', B + 'MutationBitFlip.__init__', B + 'MutationBitFlip.mutate', B + 'MutationBitFlip.mutate_and_compute_obj', B + 'MutationBitFlip.build',
          G + 'mutations.mutation_util:get_attribute_for_type', setup=stubs)
def _(c):
    Current.np = np = Draws(c)
    p = REAL.fresh('probability')
    m, pb, rng, _ = build(c, mb.MutationBitFlip, 'LIST_BOOLEAN', c.case('attribute given', [False, True]), probability_flip=p)
    n = rng.n
    c.prove('attribute', m.attribute == 'main')
    s = Sol(main=VEC.fresh('bits'))
    c.assume(s.main.n == n)
    calls = []

    def apply(self, sol):
        calls.append((self, sol))
        return sol
    old = mb.BitFlipMove.apply_local_move
    mb.BitFlipMove.apply_local_move = apply
    try:
        if c.case('objective', [False, True]):
            r, mv, obj = m.mutate_and_compute_obj(s)
            c.prove('objective of the mutated solution', obj is pb.objective and len(pb.asked) == 1 and pb.asked[0][0] is r)
        else:
            r, mv = m.mutate(s)
            c.prove('not evaluated', not pb.asked)
    finally:
        mb.BitFlipMove.apply_local_move = old
    c.prove('the move is applied once', len(calls) == 1 and calls[0][0] is mv and calls[0][1] is s and r is s and mv.attribute == 'main')
    l = mv.list_index_flip
    e, j, k = VEC.unwrap(l), I('j'), I('k')
    w = World.drawn
    c.prove('valid positions, once each', z3.And(w.n == n, fa([j], z3.Implies(z3.And(0 <= j, j < e[0]), z3.And(0 <= Sel(e[1], j), Sel(e[1], j) < n))), perm(e[1], e[0])))
    c.prove('never with probability 0, always with probability 1', z3.And(z3.Implies(p.t >= 1, fa([j], z3.Implies(z3.And(0 <= j, j < n), Sel(e[1], Sel(np.at, j)) == j), Sel(np.at, j))),
                                                                         z3.Implies(p.t < 0, e[0] == 0)))
    c.prove('flipped when drawn below the probability', fa([j], z3.Implies(z3.And(0 <= j, j < e[0]), Sel(w.r, Sel(e[1], j)) <= p.t)))


@contract('changing integers', N + 'MutationIntegerSpecificArrity.__init__', N + 'MutationIntegerSpecificArrity.mutate', N + 'MutationIntegerSpecificArrity.mutate_and_compute_obj',
          N + 'MutationIntegerSpecificArrity.build', setup=stubs)
def _(c):
    Current.rnd = rnd = Shuffle(c)
    p = REAL.fresh('probability')
    given = c.case('attribute given', [False, True])
    kw = dict(probability_flip=p)
    if given:
        kw['arrities'] = VEC.fresh('arrities')
    m, pb, rng, ar = build(c, mi.MutationIntegerSpecificArrity, 'LIST_INTEGER_SPECIFIC_ARRITY', given, **kw)
    name = 'main' if given else 'mainattr'
    c.prove('attribute', m.attribute == name and (m.arrities is (kw['arrities'] if given else ar)))
    A = m.arrities.arrays[1]
    n, j = m.arrities.n, I('j')
    c.assume(fa([j], Sel(A, j) >= 1, Sel(A, j)))
    c.prove('one range per position', z3.And(num(m.size) == n, to_seq(m.range_arrities).n == n))
    x = VEC.fresh('vector')
    a = x.arrays[1]
    c.assume(x.n == n)
    s = Sol(**{name: x, 'other': OBJ.fresh('other')})
    ok = lambda t, j: z3.And(1 <= t, t <= Sel(A, j))

    def inv(lp):
        v = VEC.unwrap(lp.locals['vector'])
        return [('a copy', z3.BoolVal(lp.locals['vector'] is not x)), ('length', v[0] == n),
                ('values in range or kept', fa([j], z3.Implies(z3.And(0 <= j, j < n), z3.Or(Sel(v[1], j) == Sel(a, j), z3.And(p.t >= 0, j < lp.i, ok(Sel(v[1], j), j)))), Sel(v[1], j)))]
    c.loops.append(LoopContract(lambda lp: True, inv, {}, lambda lp: [lp.locals['vector']], name='positions'))
    if c.case('objective', [False, True]):
        r, mv, obj = m.mutate_and_compute_obj(s)
        c.prove('objective of the mutated solution', obj is pb.objective and len(pb.asked) == 1 and pb.asked[0][0] is r and pb.asked[0][1][name][1] is not None)
        c.prove('evaluated after the change', pb.asked[0][1][name][1] == VEC.unwrap(getattr(r, name))[1])
    else:
        r, mv = m.mutate(s)
        c.prove('not evaluated', not pb.asked)
    b = VEC.unwrap(getattr(r, name))
    c.prove('values in range or kept', z3.And(b[0] == n, fa([j], z3.Implies(z3.And(0 <= j, j < n), z3.Or(Sel(b[1], j) == Sel(a, j), ok(Sel(b[1], j), j))))))
    c.prove('nothing changes without probability', z3.Implies(p.t < 0, eqv(getattr(r, name), n, a)))
    c.prove('the solution given is kept', z3.And(eqv(getattr(s, name), n, a), z3.BoolVal(r is not s and s.told == [] and r.other is s.other)))
    c.prove('the change is announced', name in r.told)
    c.prove('move', mv.apply_local_move(s) is r and mv.backtrack_local_move(r) is s)


@contract('portfolio', X + 'BasicPortfolioMutation.__init__', X + 'BasicPortfolioMutation.mutate', X + 'BasicPortfolioMutation.mutate_and_compute_obj',
          X + 'BasicPortfolioMutationTrack.__init__', X + 'BasicPortfolioMutationTrack.mutate', X + 'BasicPortfolioMutationTrack.mutate_and_compute_obj', setup=stubs)
def _(c):
    cls = c.case('class', [mx.BasicPortfolioMutation, mx.BasicPortfolioMutationTrack])
    n = c.case('mutations', [1, 2, 3])
    as_list = c.case('list of weights', [False, True])

    class Np:
        def __init__(self): self.random = self
        def array(self, l, dtype=None): return [x for x in l]
        def sum(self, l): return sum(l)
        def choice(self, idx, size=None, p=None):
            c.prove('one of the mutations', list(idx) == list(range(n)) and size == 1)
            c.prove('weights', p is m.weight_mutation)
            return [c.case('chosen', list(range(n)))]

    class W(list):
        def __truediv__(self, o): return W([a / o for a in self])

    np = Current.np = Np()
    np.array = lambda l, dtype=None: W(l)
    ws = [REAL.fresh('w%d' % k) for k in range(n)]
    for w in ws:
        c.assume(w.t > 0)

    class M:
        def __init__(self, k): self.k, self.asked = k, []
        def mutate(self, s): self.asked.append(s); return (self.k, 'mutate')
        def mutate_and_compute_obj(self, s): self.asked.append(s); return (self.k, 'both')
    ms = [M(k) for k in range(n)]
    m = cls(ms, list(ws) if as_list else W(ws))
    tot = sum(ws)
    for k in range(n):
        c.prove('normalised weights', num(m.weight_mutation[k]) * num(tot) == num(ws[k]))
    s = OBJ.fresh('s')
    both = c.case('objective', [False, True])
    r = m.mutate_and_compute_obj(s) if both else m.mutate(s)
    k = r[0]
    c.prove('the chosen mutation, once, on the solution', r[1] == ('both' if both else 'mutate') and all(len(x.asked) == (1 if x.k == k else 0) for x in ms) and ms[k].asked[0] is s)
