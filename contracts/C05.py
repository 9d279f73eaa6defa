"""Automatic casting between domain characteristics (skdecide.core: cast, cast_needed, parse_hint, autocast)."""
import functools, inspect, re
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
from contracts.common import memory_ctor, with_memory
import skdecide.core as core
from skdecide.core import Tree, List, Union, Optional, StrDict, Memory

CONTRACTS = contract = Registry()
ASSUMPTIONS = ['the element conversions inside a container are arbitrary functions in the container rules (their own '
               'contracts compose by induction on the hint)',
               'single-agent targets of a per-agent dictionary see dictionaries with exactly one agent',
               'the set of type hints is the set found on the autocastable functions of the current source']
FN = 'skdecide.core:cast', 'skdecide.core:cast_needed'


def stub_cast():
    """Recursive calls of cast() replaced by an arbitrary function of (object, source tree, destination tree)."""
    engine.CTORS[Memory] = memory_ctor
    old = core.cast
    trees = {}

    def stub(obj, s, d):
        return func('cast_%s_%s' % (trees.get(id(s), 'other'), trees.get(id(d), 'other')), OBJ)(obj)
    stub.real, stub.trees = old, trees
    core.cast = stub

    def undo():
        core.cast = old
        engine.CTORS.pop(Memory, None)
    return undo


@contract('container rules', *FN, setup=stub_cast)
def rules(c):
    st = core.cast
    a, b = Tree(Union, [Tree(int)]), Tree(List, [Tree(int)])
    st.trees.clear()
    st.trees.update({id(a): 'a', id(b): 'b'})
    f = func('cast_a_b', OBJ)
    K = c.case('rule', ['Memory>Memory', 'Union>Memory', 'Memory>Union', 'StrDict>StrDict', 'Union>StrDict', 'StrDict>Union',
                        'List>List', 'Union>List', 'List>Union', 'Union>Union', 'Optional', 'Optional None'])
    s, d = (K.split('>') + [None])[:2] if '>' in K else ('Optional', 'Optional')
    T = dict(Memory=Memory, Union=Union, StrDict=StrDict, List=List, Optional=Optional)
    st_, dt_ = Tree(T[s], [a]), Tree(T[d], [b])
    run = lambda x: st.real(x, st_, dt_)
    if s in ('Memory', 'List') and s == d:
        x = SeqTy(OBJ, cls=Memory if s == 'Memory' else list).fresh('x')
        given = x.copy()
        y = run(x)
        c.prove('same length, elements converted in order', And(
            y.n == given.n, forall_in(b_range(SymInt(given.n)), lambda i: eqf(y.elem(i.t), f(given.elem(i.t))))))
        c.prove('same kind of container', isinstance(y, Memory) == (s == 'Memory'))
        c.prove('source untouched', seq_eq(x, given))
    elif s in ('Memory', 'List') and d == 'Union':
        x = SeqTy(OBJ, cls=Memory if s == 'Memory' else list).fresh('x')
        c.assume(x.n >= 1 if s == 'Memory' else x.n == 1)
        given = x.copy()
        y = run(x)
        c.prove('the current (last) element is converted', eqf(y, f(given.elem(given.n - 1))))
        c.prove('source untouched', seq_eq(x, given))
    elif d in ('Memory', 'List'):
        x = OBJ.fresh('x')
        y = run(x)
        c.prove('one-element container', len(y) == 1)
        c.prove('kind', isinstance(y, Memory if d == 'Memory' else list))
        c.prove('element', eqf(y[0], f(x)))
    elif s == 'StrDict' and d == 'StrDict':
        x = DictTy(OBJ, OBJ).fresh('x')
        g = x.copy()
        y = run(x)
        c.prove('same agents', y.terms[0] == g.terms[0])
        c.prove('each agent converted', forall_in(g, lambda k: eqf(y.at(k), f(g.at(k)))))
        c.prove('source untouched', x.eq(g))
    elif s == 'StrDict':
        v = OBJ.fresh('v')
        c.prove('the agent value', eqf(run({c.case('agent', ['agent', 'x', '']): v}), f(v)))
    elif d == 'StrDict':
        x = OBJ.fresh('x')
        y = run(x)
        c.prove('one agent', len(y) == 1)
        c.prove('value', eqf(next(iter(y.values())), f(x)))
    elif K == 'Optional None':
        c.prove('None stays None', run(None) is None)
    else:
        x = OBJ.fresh('x')
        c.prove('converted', eqf(run(x), f(x)))


# ------------------------------------------------------------------------------------- whole hints
from contracts.iface import IFACE
HINTS = sorted({h for d in IFACE.values() for h in d.values()})
HIER = {'memory': [Memory, Union], 'agent': [StrDict, Union], 'concurrency': [List, Union]}


def shape(mem, ag, co):
    return type('D', (), dict(T_memory=mem, T_agent=ag, T_concurrency=co, T_state=object, T_observation=object,
                              T_event=object, T_value=float, T_info=object))


def split(h):
    """hint -> (head, [subhints]); written independently of parse_hint."""
    if '[' not in h:
        return h, []
    head, rest = h.split('[', 1)
    assert rest.endswith(']')
    rest, subs, depth, cur = rest[:-1], [], 0, ''
    for ch in rest:
        if ch == ',' and depth == 0:
            subs.append(cur)
            cur = ''
            continue
        depth += {'[': 1, ']': -1}.get(ch, 0)
        cur += ch
    return head, subs + [cur]


def mk_val(c, h, s, nested=False):
    """An arbitrary value of hint h in domain shape s (unbounded containers; exactly one agent where the other side is
    single-agent is arranged by the caller through c.one_agent)."""
    head, sub = split(h)
    if head in ('D.T_memory', 'D.T_agent', 'D.T_concurrency'):
        T = getattr(s, head[2:])
        if T is Union:
            return mk_val(c, sub[0], s, nested)
        if T is StrDict and c.one_agent:
            return {'theagent': mk_val(c, sub[0], s, nested)}
        if T is StrDict:
            if c.case('agents', ['two', 'any']) == 'any' and split(sub[0])[0] in ('D.T_event', 'D.T_observation', 'D.T_info'):
                return DictTy(OBJ, OBJ).fresh('agents')
            return {k: mk_val(c, sub[0], s, nested) for k in ('a', 'b')}
        if c.one_elem[T] == 1:
            e = [mk_val(c, sub[0], s, nested)]
            return Memory(e) if T is Memory else e
        if split(sub[0])[0] in ('D.T_state', 'D.T_event'):
            x = SeqTy(OBJ, cls=Memory if T is Memory else list).fresh('seq')
            if T is Memory:
                x.maxlen_ = None
            return x
        e = [mk_val(c, sub[0], s, nested) for _ in range(2)]
        return Memory(e) if T is Memory else e
    if head in ('Distribution', 'DiscreteDistribution'):
        if head == 'DiscreteDistribution' or c.case('dist', ['discrete', 'single', 'implicit']) == 'discrete':
            return core.DiscreteDistribution([(mk_val(c, sub[0], s), REAL.fresh('p')) for _ in range(2)])
        v = mk_val(c, sub[0], s)
        if c.case('dist', ['discrete', 'single', 'implicit']) == 'single':
            return core.SingleValueDistribution(v)
        return core.ImplicitDistribution(lambda: v)
    if head in ('EnvironmentOutcome', 'TransitionOutcome'):
        vals = [mk_val(c, x, s) for x in sub]
        return getattr(core, head)(vals[0], vals[1], BOOL.fresh('term'), vals[2])
    if head == 'Constraint':
        b = BOOL.fresh('sat')
        k = core.ImplicitConstraint(lambda m, a, n: (k.rec.append((m, a, n)), b)[1], c.case('dep', [True, False]))
        k.rec, k.b = [], b
        return k
    if head == 'List':
        return [mk_val(c, sub[0], s) for _ in range(2)]
    if head == 'Optional':
        return None if c.case('optional', ['given', 'none']) == 'none' else mk_val(c, sub[0], s)
    return OBJ.fresh(re.sub(r'\W', '_', h))


def ok(c, h, x, y, s, d):
    """Formula: y is x (hint h, shape s) seen in shape d."""
    head, sub = split(h)
    if head in ('D.T_memory', 'D.T_agent', 'D.T_concurrency'):
        S, T = getattr(s, head[2:]), getattr(d, head[2:])
        go = lambda p, q: ok(c, sub[0], p, q, s, d)
        if S is Union and T is Union:
            return go(x, y)
        if S is T is StrDict:
            if type(x) is SymDict or type(y) is SymDict:
                return And(y.terms[0] == x.terms[0], forall_in(x, lambda k: go(x.at(k), y.at(k))))
            if c.one_agent:   # the name of the only agent is not kept through a single-agent shape
                return And(isinstance(y, dict) and len(x) == len(y) == 1, *[go(p, q) for p in x.values() for q in y.values()])
            return And(isinstance(y, dict) and set(y) == set(x), *[go(x[k], y[k]) for k in x])
        if S is T:
            if type(x) is SymSeq or type(y) is SymSeq:
                return And(isinstance(y, Memory) == (T is Memory), y.n == x.n,
                           forall_in(b_range(SymInt(x.n)), lambda i: go(x.elem(i.t), y.elem(i.t))))
            return And(isinstance(y, Memory if T is Memory else list), len(x) == len(y), *[go(p, q) for p, q in zip(x, y)])
        if S is Union:
            if T is StrDict:
                return And(isinstance(y, dict) and len(y) == 1, *[go(x, v) for v in y.values()])
            return And(isinstance(y, Memory if T is Memory else list) and len(y) == 1, *[go(x, v) for v in y])
        if S is StrDict:
            return And(len(x) == 1, *[go(v, y) for v in x.values()])
        return And(len(x) == 1, *[go(v, y) for v in x])
    if head in ('Distribution', 'DiscreteDistribution'):
        if type(x) is not type(y):
            return False
        if type(x) is core.ImplicitDistribution:
            return ok(c, sub[0], x.sample(), y.sample(), s, d)
        gx, gy = x.get_values(), y.get_values()
        return And(len(gx) == len(gy), *[And(ok(c, sub[0], a[0], b[0], s, d), eqf(a[1], b[1])) for a, b in zip(gx, gy)])
    if head in ('EnvironmentOutcome', 'TransitionOutcome'):
        f = 'observation' if head[0] == 'E' else 'state'
        return And(type(y) is type(x), ok(c, sub[0], getattr(x, f), getattr(y, f), s, d), ok(c, sub[1], x.value, y.value, s, d),
                   ok(c, sub[2], x.info, y.info, s, d), eqf(x.termination, y.termination))
    if head == 'Constraint':
        x.rec.clear()
        other = [mk_val(c, t, d) for t in sub]
        r = y.check(*other)
        return And(len(x.rec) == 1, eqf(r, x.b), y.is_constraint_dependent_on_next_state() == x._depends_on_next_state,
                   *[ok(c, t, o, g, d, s) for t, o, g in zip(sub, other, x.rec[0])])
    if head == 'List':
        return And(isinstance(y, list) and len(y) == len(x), *[ok(c, sub[0], p, q, s, d) for p, q in zip(x, y)])
    if head == 'Optional':
        return y is None if x is None else And(y is not None, ok(c, sub[0], x, y, s, d))
    return eqf(x, y)


def shapes(c, h):
    m = c.case('memory', [(a, b) for a in HIER['memory'] for b in HIER['memory']]) if 'T_memory' in h else (Union, Union)
    a = c.case('agent', [(p, q) for p in HIER['agent'] for q in HIER['agent']]) if 'T_agent' in h else (Union, Union)
    k = c.case('conc', [(p, q) for p in HIER['concurrency'] for q in HIER['concurrency']]) if 'T_concurrency' in h else (Union, Union)
    return (m, a, k)


def arrange(c, m, a, k):
    s, d = shape(m[0], a[0], k[0]), shape(m[1], a[1], k[1])
    c.one_agent = a[0] is not a[1]
    c.one_elem = {Memory: 1 if m[0] is not m[1] else 2, List: 1 if k[0] is not k[1] else 2}
    return s, d


def for_hint(h):
    @contract('hint ' + h, *FN, 'skdecide.core:parse_hint', setup=with_memory)
    def verify(c):
        s, d = arrange(c, *shapes(c, h))
        ts, td = core.parse_hint(s, h, 'D'), core.parse_hint(d, h, 'D')
        c.deps = None
        x = mk_val(c, h, s)
        y = core.cast(x, ts, td)
        c.prove('seen in the other shape', ok(c, h, x, y, s, d))
        z = core.cast(y, td, ts)
        c.prove('round trip', ok(c, h, x, z, s, s))
    return verify


for _h in HINTS:
    for_hint(_h)


@contract('autocast wraps arguments and result', 'skdecide.core:autocast', 'skdecide.core:get_args_dict', *FN, setup=with_memory)
def wrap(c):
    s, d = arrange(c, *[c.case(n, [(p, q) for p in HIER[n] for q in HIER[n]]) for n in ('memory', 'agent', 'concurrency')])
    rec = []
    ret_h = 'D.T_agent[D.T_observation]'
    ret = mk_val(c, ret_h, s)
    hints = dict(memory='D.T_memory[D.T_state]', action='D.T_agent[D.T_concurrency[D.T_event]]')

    def f(self, memory, action, extra=None):
        rec.append((self, memory, action, extra))
        return ret
    f.__annotations__ = dict(memory='D.T_memory[D.T_state]', action=' D.T_agent[ D.T_concurrency[D.T_event] ]',
                             extra='Optional[int]')
    f.__annotations__['return'] = ret_h
    inner = f
    if c.case('decorated', [False, True]):
        @functools.wraps(inner)
        def g(*a, **k):
            return inner(*a, **k)
        f = g
    if c.case('method', [False, True]):
        class A:
            m = f
        o = A()
        w = core.autocast(o.m, s, d)
        call = w
    else:
        o = object()
        w = core.autocast(f, s, d)
        call = functools.partial(w, o)
    m, a, e = mk_val(c, hints['memory'], d), mk_val(c, hints['action'], d), object()
    how = c.case('call', ['pos', 'kw', 'mixed'])
    r = call(m, a, e) if how == 'pos' else call(action=a, extra=e, memory=m) if how == 'kw' else call(m, extra=e, action=a)
    c.prove('called once', len(rec) == 1)
    g = rec[0]
    c.prove('receiver and unrelated arguments untouched', g[0] is o and g[3] is e)
    c.prove('memory argument in the function shape', ok(c, hints['memory'], m, g[1], d, s))
    c.prove('action argument in the function shape', ok(c, hints['action'], a, g[2], d, s))
    c.prove('result in the caller shape', ok(c, ret_h, ret, r, s, d))


@contract('autocast_all wraps exactly the autocastable functions', 'skdecide.core:autocast_all', 'skdecide.core:autocastable',
          setup=with_memory)
def wrap_all(c):
    s, d = arrange(c, (Union, Memory), (Union, Union), (Union, Union))
    seen = []

    class A:
        def plain(self, memory):
            seen.append(('plain', memory))

        @core.autocastable
        def auto(self, memory):
            seen.append(('auto', memory))
    for n in ('plain', 'auto'):
        getattr(A, n).__annotations__ = dict(memory='D.T_memory[D.T_state]')
    o, p = A(), A()
    core.autocast_all(o, s, d)
    x = OBJ.fresh('x')
    m = Memory([x])
    o.auto(m)
    o.plain(m)
    p.auto(x)
    c.prove('autocastable converted', seen[0][0] == 'auto' and eqf(seen[0][1], x))
    c.prove('others left alone', seen[1] == ('plain', m))
    c.prove('other instances left alone', seen[2][0] == 'auto' and eqf(seen[2][1], x))


def owner(q):
    import importlib
    mod, name = q.split(':')
    cls, fn = name.split('.')
    return getattr(importlib.import_module(mod), cls), fn


def interface(q):
    @contract('interface ' + q.split(':')[1], 'skdecide.core:autocast', 'skdecide.core:autocast_all', q, setup=with_memory)
    def verify(c):
        """Through autocast_all, every argument and the result of this public function are converted as its documented
        interface says; the body is replaced by a recorder with the same signature."""
        spec = IFACE[q]
        s, d = arrange(c, *shapes(c, ' '.join(spec.values())))
        K, fn = owner(q)
        f = inspect.getattr_static(K, fn)
        f = getattr(f, '__func__', f)
        rec = []
        ret = mk_val(c, spec['return'], s) if 'return' in spec else OBJ.fresh('ret')

        @functools.wraps(f)
        def body(*a, **k):
            rec.append((a, k))
            return ret
        O = type('O', (), {fn: body})
        o = O()
        core.autocast_all(o, s, d)
        args = {a: mk_val(c, h, d) for a, h in spec.items() if a != 'return'}
        names = [n for n in inspect.signature(f).parameters if n in args]
        c.prove('parameters', len(names) == len(args))
        if c.case('call', ['pos', 'kw']) == 'pos':
            r = getattr(o, fn)(*[args[n] for n in names])
        else:
            r = getattr(o, fn)(**args)
        c.prove('called once', len(rec) == 1)
        pos, kw = rec[0]
        got = dict(zip([n for n in inspect.signature(f).parameters if n != 'self'], pos[1 if pos and pos[0] is o else 0:]))
        got.update(kw)
        for n in names:
            c.prove('argument ' + n, ok(c, spec[n], args[n], got[n], d, s))
        c.prove('result', ok(c, spec['return'], ret, r, s, d) if 'return' in spec else eqf(ret, r))
    return verify


for _q in IFACE:
    interface(_q)
