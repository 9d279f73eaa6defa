"""pyvc engine: path-forking symbolic execution of the real functions inside CPython, generating
verification conditions that are discharged by z3 (second back end: cvc5).

Proxies (SymInt, SymReal, SymBool, SymObj, SymSeq, SymDict, SymSet) stand for *arbitrary* values; a
branch on a symbolic condition forks the path (both sides are explored whenever feasible); a loop over a
symbolic collection is cut by its invariant (establish / preserve / use).  Every obligation is proved for
all values: there is no bound on integers, on sizes of collections or on the number of iterations."""
import builtins, contextlib, subprocess, tempfile, time, os, itertools, collections, sys
import z3

U = z3.DeclareSort('Obj')


SLOW = float(os.environ.get('PYVC_SLOW', '0'))


class Unsupported(Exception):
    pass


class PathEnd(BaseException):
    """The current path is finished (loop cut, infeasible assumption)."""


class Undef:
    def __init__(self, name):
        self.name = name

    def __getattr__(self, a):
        raise Unsupported('use of loop-modified local %r without a contract' % self.name)


def _undef(self, *a, **k):
    raise Unsupported('use of loop-modified local %r without a contract' % self.name)


for _n in ('eq ne lt le gt ge add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow neg abs bool int float index '
           'len iter next getitem setitem delitem contains call enter exit and or xor invert hash').split():
    setattr(Undef, '__%s__' % _n, _undef)


# ---------------------------------------------------------------------------------------------- context
class Ctx:
    def __init__(self, name='', timeout_ms=10000, backend='z3'):
        self.name = name
        self.timeout = timeout_ms
        self.obl = {}           # name -> dict(status, vcs, ...)
        self.order = []
        self.stats = dict(paths=0, vcs=0, solver_s=0.0, forks=0, feas=0, z3=0, cvc5=0)
        self.reached = {}
        self.loops = []
        self.max_paths = 20000
        self.deadline = None
        self.crosscheck = False
        self.mbqi = True
        self.opaque_div = False
        self.feas_ms = None
        self._reset([])

    # -- path management
    def _reset(self, prefix):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout)
        if not self.mbqi:
            self.solver.set('smt.mbqi', False)
        self.pc = []
        self.prefix = prefix
        self.pos = 0
        self.names = collections.Counter()
        self.created = []
        self.interned = {}
        self.labels = []
        self.objs = []
        self.sums = []
        self.nofork = 0
        self.sub = None

    params = ()         # variables that terms made now may depend on: the elements of enclosing comprehensions

    @contextlib.contextmanager
    def over(self, x):
        saved, self.params = self.params, tuple(self.params) + (x,)
        try:
            yield
        finally:
            self.params = saved

    def fresh_name(self, base):
        self.names[base] += 1
        c = self.names[base]
        nm = base if c == 1 else '%s!%d' % (base, c)
        self.created.append(nm)
        return nm

    def assume(self, f):
        f = as_formula(f)
        self.pc.append(f)
        self.solver.add(f)

    def feasible(self, *extra):
        self.stats['feas'] += 1
        t = time.time()
        if self.feas_ms:
            self.solver.set('timeout', self.feas_ms)
        r = self.solver.check(*extra)
        if self.feas_ms:
            self.solver.set('timeout', self.timeout)
        self.stats['solver_s'] += time.time() - t
        return r != z3.unsat

    def choose(self, conds, label=None):
        """Fork: returns the index of the branch taken on this path; conds are z3 Bools (or True)."""
        if self.sub is not None:
            return self.sub.choose(conds)
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos][0]
        else:
            feas = []
            for i, c in enumerate(conds):
                if c is True or z3.is_true(c) or (not z3.is_false(c) and self.feasible(c)):
                    feas.append(i)
            if not feas:
                raise PathEnd()
            self.stats['forks'] += len(feas) > 1
            self.prefix.append([feas[0], feas[1:]])
            k = feas[0]
        self.pos += 1
        c = conds[k]
        if c is not True:
            self.assume(c)
        if label:
            self.labels.append('%s=%s' % (label, k))
        return k

    def branch(self, cond):
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return self.choose([cond, z3.Not(cond)]) == 0

    def case(self, label, options):
        """Contract-level case split over concrete alternatives."""
        k = self.choose([True] * len(options), label)
        return options[k]

    def explore(self, fn, label=''):
        """Run fn() on every feasible path."""
        from . import loader
        global CTX
        prefix = []
        n = 0
        loops = list(self.loops)
        while True:
            self._reset(prefix)
            self.loops = list(loops)
            CTX = self
            for c in loader.CACHES:
                c.cache_clear()
            n += 1
            self.stats['paths'] += 1
            if n > self.max_paths or (self.deadline and time.time() > self.deadline):
                raise Unsupported('path or time budget exhausted in %s (%d paths)' % (label, n))
            try:
                fn()
            except PathEnd:
                pass
            while prefix and not prefix[-1][1]:
                prefix.pop()
            if not prefix:
                return n
            k, rest = prefix[-1]
            prefix[-1] = [rest[0], rest[1:]]

    def run(self, label, fn, raises=()):
        """Verify one function contract; `fn` sets up symbolic inputs, calls the real code, proves posts."""
        self.reached.setdefault(label, 0)
        self.current = label

        def body():
            try:
                fn()
            except (PathEnd, Unsupported):
                raise
            except Exception as e:
                if raises and isinstance(e, raises):
                    return
                tb = e.__traceback__
                where = ''
                from .loader import REPO
                last = tb
                while last.tb_next:
                    last = last.tb_next
                fn_ = last.tb_frame.f_code.co_filename
                deliberate = isinstance(e, (KeyError, IndexError, ValueError, ZeroDivisionError, StopIteration)) and \
                    fn_ == __file__
                if os.environ.get("PYVC_TB"): import traceback; traceback.print_exc()
                if not (fn_.startswith(REPO) or deliberate) or (not deliberate and ('Sym' in str(e) or 'proxies' in str(e))):
                    raise Unsupported('the symbolic values reach code outside the verifier: %s: %s at %s:%d' % (
                        type(e).__name__, str(e)[:200], fn_, last.tb_lineno))
                while tb:
                    where = '%s:%d' % (tb.tb_frame.f_code.co_filename, tb.tb_lineno)
                    tb = tb.tb_next
                self.fail('%s/no-exception' % label, 'raises %s: %s at %s' % (type(e).__name__, str(e)[:200], where))
                return
            self.reached[label] += 1
            self.ok('%s/no-exception' % label)
        self.explore(body, label)

    # -- obligations
    def _rec(self, name):
        if name not in self.obl:
            self.obl[name] = dict(status='proved', vcs=0, detail=None)
            self.order.append(name)
        return self.obl[name]

    def ok(self, name):
        r = self._rec(name)
        r['vcs'] += 1
        self.stats['vcs'] += 1

    def fail(self, name, detail):
        # the path itself must be feasible: otherwise nothing fails
        t = time.time()
        res = self.solver.check()
        self.stats['solver_s'] += time.time() - t
        r = self._rec(name)
        r['vcs'] += 1
        self.stats['vcs'] += 1
        if res == z3.unsat:
            return
        st = 'refuted' if res == z3.sat else 'unknown'
        if r['status'] == 'proved' or (r['status'] == 'unknown' and st == 'refuted'):
            r['status'] = st
            r['detail'] = dict(reason=detail, path=list(self.labels),
                               model=model_str(self.solver.model()) if res == z3.sat else None)

    def prove(self, name, f):
        name = '%s/%s' % (self.current, name) if getattr(self, 'current', None) else name
        f = as_formula(f)
        r = self._rec(name)
        r['vcs'] += 1
        self.stats['vcs'] += 1
        if z3.is_true(z3.simplify(f)):
            r.setdefault('by', set()).add('z3')
            return
        self.solver.push()
        self.solver.add(z3.Not(f))
        t = time.time()
        res = self.solver.check()
        by = 'z3'
        model2 = None
        again = r['status'] != 'proved'       # this obligation has already failed: no further retries
        if res == z3.unknown and not self.mbqi and not again:
            s2 = z3.Solver()
            s2.set('timeout', self.timeout)
            s2.add(*self.solver.assertions())
            res = s2.check()
            if res == z3.sat:
                model2 = model_str(s2.model())
        if not again and (res == z3.unknown or (self.crosscheck and res == z3.unsat)):
            c = cvc5_check(self.solver, self.timeout * 2)
            if res == z3.unknown and c in ('unsat', 'sat'):
                res = z3.unsat if c == 'unsat' else z3.sat
                by = 'cvc5'
                self.stats['cvc5'] += 1
            elif res == z3.unknown:
                s2 = z3.Solver()
                s2.set('timeout', self.timeout * 3)
                s2.set('smt.mbqi', False)
                s2.set('smt.random_seed', 7)
                s2.add(*self.solver.assertions())
                if s2.check() == z3.unsat:
                    res = z3.unsat
            elif self.crosscheck and c == 'unsat':
                by = 'z3+cvc5'
                self.stats['cvc5'] += 1
            elif self.crosscheck and c == 'sat':
                r['status'] = 'unknown'
                r['detail'] = dict(reason='back ends disagree')
        self.stats['solver_s'] += time.time() - t
        if SLOW and time.time() - t > SLOW:
            print('slow %.1f s %s %s %s' % (time.time() - t, res, name, self.labels), file=sys.stderr)
        r.setdefault('by', set()).add(by)
        self.stats['z3'] += 'z3' in by
        if res != z3.unsat:
            st = 'refuted' if res == z3.sat else 'unknown'
            if r['status'] == 'proved' or (r['status'] == 'unknown' and st == 'refuted'):
                r['status'] = st
                m = model2
                if res == z3.sat and by == 'z3' and m is None:
                    m = model_str(self.solver.model())
                r['detail'] = dict(reason='negated obligation is %s' % res, path=list(self.labels), model=m,
                                   formula=str(z3.simplify(f))[:1500])
        self.solver.pop()
        # later obligations on this path may use it
        self.assume(f)

    def track(self, obj):
        self.objs.append(obj)
        return obj

    # -- merging exploration of an expression (no side effects on the outer path)
    def merge(self, fn, var=None, guard=None):
        """All (condition, value-or-exception) results of fn under the current path condition.
        With `var`/`guard`, fn is evaluated at an arbitrary element: facts assumed inside are generalised to
        all elements, and results may not depend on symbols created inside (Unsupported)."""
        mark = len(self.created)
        saved_pos, saved_prefix = self.pos, self.prefix
        out = []
        sub_prefix = []
        outer = self.sub
        while True:
            self.solver.push()
            if guard is not None:
                self.solver.add(guard)
            npc = len(self.pc)
            s = _Sub(self, sub_prefix)
            self.sub = s
            try:
                try:
                    v = fn()
                    out.append((z3.And(*s.conds) if s.conds else z3.BoolVal(True), v, None))
                except PathEnd:
                    pass
                except Unsupported:
                    raise
                except Exception as e:
                    out.append((z3.And(*s.conds) if s.conds else z3.BoolVal(True), None, e))
            finally:
                self.sub = outer
                added = self.pc[npc:]
                del self.pc[npc:]
                self.solver.pop()
            extra = [a for a in added if a not in s.conds] if added else []
            if extra and out:
                # facts assumed inside (axioms about fresh symbols) stay valid under the branch condition
                c = out[-1][0]
                new = set(self.created[mark:]) if var is not None else ()
                for a in extra:
                    if any(a.eq(x) for x in s.conds):
                        continue
                    if var is None:
                        self.assume(z3.Implies(c, a))
                    elif not mentions(a, new):
                        # ForAll over the arbitrary element; facts about symbols created inside are dropped
                        self.assume(z3.ForAll([var], z3.Implies(z3.And(guard, c), a)) if mentions(z3.And(a, c), {str(var)})
                                    else z3.Implies(c, a))
            while sub_prefix and not sub_prefix[-1][1]:
                sub_prefix.pop()
            if not sub_prefix:
                break
            k, rest = sub_prefix[-1]
            sub_prefix[-1] = [rest[0], rest[1:]]
        if var is not None:
            new = set(self.created[mark:])
            if new:
                for c, v, e in out:
                    if mentions(c, new) or (e is None and any(mentions(t, new) for t in terms_of(v))):
                        raise Unsupported('comprehension element depends on a symbol created inside it')
        return out


def mentions(t, names):
    if not names:
        return False
    seen = set()
    stack = [t]
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            nm = e.decl().name()
            if nm in names or (nm.rsplit('.', 1)[0] in names and e.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                return True
            stack.extend(e.children())
    return False


def terms_of(v):
    if isinstance(v, Sym):
        return [v.t]
    if type(v) is SymDict:
        return v.terms
    if type(v) is SymSet:
        return [v.t]
    if type(v) is SymSeq:
        p = z3.Int('probe!t')
        return [v.n] + terms_of(v.elem(p))
    if isinstance(v, (tuple, list)) and not isinstance(v, Sym) and type(v) in (tuple, list):
        return [t for x in v for t in terms_of(x)]
    if type(v) is KeyedSeq:
        return [v.dom] + terms_of(v.val)
    if type(v) is dict:
        return [t for x in v.values() for t in terms_of(x)]
    if hasattr(v, '__dict__') and not isinstance(v, type) and not callable(v):
        return [t for x in vars(v).values() for t in terms_of(x)]
    return []


class _Sub:
    def __init__(self, ctx, prefix):
        self.ctx, self.prefix, self.pos, self.conds = ctx, prefix, 0, []

    def choose(self, conds):
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos][0]
        else:
            feas = [i for i, c in enumerate(conds)
                    if c is True or z3.is_true(c) or (not z3.is_false(c) and self.ctx.feasible(c))]
            if not feas:
                raise PathEnd()
            self.prefix.append([feas[0], feas[1:]])
            k = feas[0]
        self.pos += 1
        c = conds[k]
        if c is not True:
            self.conds.append(c)
            self.ctx.pc.append(c)
            self.ctx.solver.add(c)
        return k


CTX = None


def ctx():
    return CTX


def model_str(m):
    out = {}
    for d in m.decls():
        s = str(m[d])
        out[d.name()] = s if len(s) < 300 else s[:300] + '...'
        if len(out) > 60:
            break
    return out


def cvc5_check(solver, timeout_ms):
    txt = '(set-logic ALL)\n' + solver.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout_ms, '-'], input=txt, text=True,
                           capture_output=True, timeout=timeout_ms / 1000 + 5)
    except Exception:
        return 'unknown'
    o = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
    return o if o in ('sat', 'unsat') else 'unknown'


def as_formula(f):
    if isinstance(f, SymBool):
        return f.t
    if isinstance(f, bool):
        return z3.BoolVal(f)
    if isinstance(f, z3.ExprRef):
        return f
    if isinstance(f, (list, tuple)):
        return z3.And(*[as_formula(x) for x in f]) if f else z3.BoolVal(True)
    raise Unsupported('not a formula: %r' % (f,))


# ---------------------------------------------------------------------------------------------- scalars
class Sym:
    __slots__ = ('t', 'cls')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __hash__(self):
        return 7


def num(x):
    """z3 arithmetic term for a number."""
    if isinstance(x, Sym) and type(x) in (SymInt, SymReal):
        return x.t
    if type(x) is SymBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if type(x) is bool:
        return z3.IntVal(int(x))
    if type(x) is int:
        return z3.IntVal(x)
    if type(x) is float:
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('nan/inf in arithmetic')
        return z3.RealVal(repr(x))
    try:
        import numpy as np
        if isinstance(x, np.integer):
            return z3.IntVal(int(x))
        if isinstance(x, np.floating):
            return num(float(x))
        if isinstance(x, np.bool_):
            return z3.IntVal(int(x))
    except ImportError:
        pass
    return None


def mk(t):
    if z3.is_bool(t):
        return SymBool(t)
    if t.sort() == z3.IntSort():
        return SymInt(t)
    if t.sort() == z3.RealSort():
        return SymReal(t)
    if t.sort() == U:
        return SymObj(t)
    raise Unsupported('mk %s' % t.sort())


def coerce2(a, b):
    if a.sort() != b.sort():
        if a.sort() == z3.IntSort():
            a = z3.ToReal(a)
        if b.sort() == z3.IntSort():
            b = z3.ToReal(b)
    return a, b


def _infinite(o):
    return type(o) is float and (o == float('inf') or o == float('-inf'))


class SymNum(Sym):
    __slots__ = ()

    def __init__(self, t):
        self.t = t

    def _bin(self, o, f):
        n = num(o)
        if n is None:
            return NotImplemented
        a, b = coerce2(self.t, n)
        return mk(f(a, b))

    def _rbin(self, o, f):
        n = num(o)
        if n is None:
            return NotImplemented
        a, b = coerce2(n, self.t)
        return mk(f(a, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._rbin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._rbin(o, lambda a, b: a - b)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._rbin(o, lambda a, b: a * b)
    def __neg__(self): return mk(-self.t)
    def __pos__(self): return self
    def __abs__(self): return mk(z3.If(self.t >= 0, self.t, -self.t))

    def __truediv__(self, o):
        n = num(o)
        if n is None:
            return NotImplemented
        return _div(self.t, n)

    def __rtruediv__(self, o):
        n = num(o)
        if n is None:
            return NotImplemented
        return _div(n, self.t)

    def __floordiv__(self, o):
        n = num(o)
        if n is None:
            return NotImplemented
        return _fdiv(self.t, n)

    def __rfloordiv__(self, o):
        return _fdiv(num(o), self.t)

    def __mod__(self, o):
        n = num(o)
        if n is None:
            return NotImplemented
        return _mod(self.t, n)

    def __rmod__(self, o):
        return _mod(num(o), self.t)

    # every symbolic number is finite: comparisons with the infinities are constants
    def __lt__(self, o): return o > 0 if _infinite(o) else self._bin(o, lambda a, b: a < b)
    def __le__(self, o): return o > 0 if _infinite(o) else self._bin(o, lambda a, b: a <= b)
    def __gt__(self, o): return o < 0 if _infinite(o) else self._bin(o, lambda a, b: a > b)
    def __ge__(self, o): return o < 0 if _infinite(o) else self._bin(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if _infinite(o):
            return False
        n = num(o)
        if n is None:
            return False
        a, b = coerce2(self.t, n)
        return SymBool(a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.t))

    __hash__ = Sym.__hash__

    def __bool__(self):
        return CTX.branch(self.t != 0)

    def __repr__(self):
        return 'Sym(%s)' % self.t

    def __format__(self, spec):
        return str(self.t)

    def __pow__(self, o):
        if type(o) is int and 0 <= o <= 4:
            r = z3.IntVal(1) if self.t.sort() == z3.IntSort() else z3.RealVal(1)
            for _ in builtins.range(o):
                r = r * self.t
            return mk(r)
        raise Unsupported('pow')


def _div(a, b):
    if CTX.branch(b == 0):
        raise ZeroDivisionError('division by zero')
    if a.sort() == z3.IntSort():
        a = z3.ToReal(a)
    if b.sort() == z3.IntSort():
        b = z3.ToReal(b)
    if CTX.opaque_div and not z3.is_rational_value(z3.simplify(b)):
        return SymReal(quotient(a, b))
    return SymReal(a / b)


def quotient(a, b):
    """Division of which only the congruence is used (contracts that need no arithmetic facts about it)."""
    return z3.Function('quotient', z3.RealSort(), z3.RealSort(), z3.RealSort())(a, b)


def _fdiv(a, b):
    if a.sort() != z3.IntSort() or b.sort() != z3.IntSort():
        raise Unsupported('real floor division')
    if CTX.branch(b == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    # python floor division
    return SymInt(z3.If(b > 0, a / b, (-a) / (-b)))


def _mod(a, b):
    if a.sort() != z3.IntSort() or b.sort() != z3.IntSort():
        raise Unsupported('real modulo')
    if CTX.branch(b == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    return SymInt(a - b * z3.If(b > 0, a / b, (-a) / (-b)))


class SymInt(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __index__(self):
        s = z3.simplify(self.t)
        if z3.is_int_value(s):
            return s.as_long()
        vals = list(builtins.range(-8, 33))
        k = CTX.choose([self.t == v for v in vals] + [z3.Or(self.t < vals[0], self.t > vals[-1])])
        if k == len(vals):
            raise Unsupported('symbolic int used as a concrete index')
        return vals[k]

    __int__ = __index__

    def __invert__(self):
        return SymInt(-self.t - 1)

    def _rep(self, o):
        """[v] * n"""
        if len(o) != 1:
            raise Unsupported('repetition of a list of %d elements' % len(o))
        v = o[0]
        n = z3.If(self.t > 0, self.t, 0)
        try:
            ty = ty_of(v)
            if v is None:
                ty = None
        except Unsupported:
            ty = None
        if ty is None:
            return SymSeq(n, lambda j: v, None, type(o))
        return SymSeq(n, lambda j: v, ty, type(o), [n] + [z3.K(z3.IntSort(), t) for t in ty.unwrap(v)])

    def __mul__(self, o):
        return self._rep(o) if type(o) in (list, tuple) else SymNum.__mul__(self, o)

    def __rmul__(self, o):
        return self._rep(o) if type(o) in (list, tuple) else SymNum.__rmul__(self, o)


class SymReal(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __float__(self):
        raise Unsupported('float() of symbolic real')


class SymBool(Sym):
    __slots__ = ()

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CTX.branch(self.t)

    def __and__(self, o):
        return SymBool(z3.And(self.t, as_formula(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, as_formula(o)))

    __ror__ = __or__

    def __invert__(self):
        raise Unsupported('~bool')

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.t == as_formula(o))
        n = num(o)
        if n is None:
            return False
        return mk(num(self) == n)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if type(r) is bool else SymBool(z3.Not(r.t))

    __hash__ = Sym.__hash__

    def __add__(self, o): return SymInt(num(self)) + o
    __radd__ = __add__
    def __mul__(self, o): return SymInt(num(self)) * o
    __rmul__ = __mul__
    def __sub__(self, o): return SymInt(num(self)) - o
    def __rsub__(self, o): return o - SymInt(num(self))
    def __neg__(self): return -SymInt(num(self))
    def __lt__(self, o): return SymInt(num(self)) < o
    def __le__(self, o): return SymInt(num(self)) <= o
    def __gt__(self, o): return SymInt(num(self)) > o
    def __ge__(self, o): return SymInt(num(self)) >= o

    def __repr__(self):
        return 'Sym(%s)' % self.t


class SymObj(Sym):
    """An arbitrary opaque object (a state, observation, action, ...): only equality is observable."""
    __slots__ = ('attrs',)

    def __init__(self, t, cls=None):
        self.t = t
        self.cls = cls

    @property
    def __class__(self):
        try:
            return self.cls or SymObj
        except AttributeError:
            return SymObj

    def __eq__(self, o):
        if type(o) is SymObj:
            return True if o.t.eq(self.t) else SymBool(self.t == o.t)
        if isinstance(o, (str, int, type(None), tuple)) and type(o) is not SymInt:
            try:
                return SymBool(self.t == lift(o))
            except Unsupported:
                return False
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if type(r) is bool else SymBool(z3.Not(r.t))

    __hash__ = Sym.__hash__

    def __repr__(self):
        return 'Sym(%s)' % self.t

    def __bool__(self):
        f = z3.Function('truthy', U, z3.BoolSort())
        return CTX.branch(f(self.t))


def lift(o):
    """The U-term of a python object: interned by value, distinct values give distinct terms."""
    if type(o) is SymObj:
        return o.t
    if isinstance(o, Sym):
        if type(o) is SymInt:
            return z3.Function('box_int', z3.IntSort(), U)(o.t)
        if type(o) is SymReal:
            return z3.Function('box_real', z3.RealSort(), U)(o.t)
        if type(o) is SymBool:
            return z3.Function('box_bool', z3.BoolSort(), U)(o.t)
        raise Unsupported('lift %r' % o)
    key = (type(o), o) if isinstance(o, (str, int, float, type(None), bool)) else ('id', id(o))
    c = CTX
    if key not in c.interned:
        t = z3.Const('obj_%d' % len(c.interned), U)
        for (t2, _) in c.interned.values():
            c.assume(t != t2)
        c.interned[key] = (t, o)
    return c.interned[key][0]


# ------------------------------------------------------------------------------------------ types (codecs)
class Ty:
    """Encoding of a python type as a tuple of z3 terms."""
    def fresh(self, name):
        n = CTX.fresh_name(name)
        v = self.wrap([z3.Const('%s.%d' % (n, i) if i else n, s) for i, s in enumerate(self.sorts())])
        for f in self.wf(self.unwrap(v)):
            CTX.assume(f)
        return v

    def wf(self, terms):
        return []


class IntTy(Ty):
    def sorts(self): return [z3.IntSort()]
    def wrap(self, ts, wb=None): return SymInt(ts[0])

    def unwrap(self, v):
        n = num(v)
        if n is None or n.sort() != z3.IntSort():
            raise Unsupported('int expected, got %r' % (v,))
        return [n]


class RealTy(Ty):
    def sorts(self): return [z3.RealSort()]
    def wrap(self, ts, wb=None): return SymReal(ts[0])

    def unwrap(self, v):
        n = num(v)
        if n is None:
            raise Unsupported('real expected, got %r' % (v,))
        return [z3.ToReal(n) if n.sort() == z3.IntSort() else n]


class BoolTy(Ty):
    def sorts(self): return [z3.BoolSort()]
    def wrap(self, ts, wb=None): return SymBool(ts[0])

    def unwrap(self, v):
        if isinstance(v, (bool, SymBool)):
            return [as_formula(v)]
        raise Unsupported('bool expected, got %r' % (v,))


class ObjTy(Ty):
    def __init__(self, cls=None):
        self.cls = cls

    def sorts(self): return [U]
    def wrap(self, ts, wb=None): return SymObj(ts[0], self.cls)
    def unwrap(self, v): return [lift(v)]


class RecTy(Ty):
    """An instance of a concrete python class whose fields are encoded; immutable once stored."""
    def __init__(self, make, fields):
        # fields: list of (getter or attribute name, Ty)
        self.make = make
        self.fields = [((lambda o, n=g: getattr(o, n)) if isinstance(g, str) else g, t) for g, t in fields]

    def sorts(self): return [s for _, t in self.fields for s in t.sorts()]

    def wrap(self, ts, wb=None):
        vals, i = [], 0
        for _, t in self.fields:
            k = len(t.sorts())
            vals.append(t.wrap(ts[i:i + k]))
            i += k
        return self.make(*vals)

    def unwrap(self, v):
        return [x for g, t in self.fields for x in t.unwrap(g(v))]


class TupTy(RecTy):
    def __init__(self, *tys):
        super().__init__(lambda *a: tuple(a), [((lambda v, i=i: v[i]), t) for i, t in enumerate(tys)])


class ConstTy(Ty):
    """A python constant (no symbolic content)."""
    def __init__(self, v): self.v = v
    def sorts(self): return []
    def wrap(self, ts, wb=None): return self.v

    def unwrap(self, v):
        if v is self.v or (type(v) is type(self.v) and v == self.v):
            return []
        raise Unsupported('constant %r expected, got %r' % (self.v, v))


def inst_ty(v):
    cls = type(v)
    names = sorted(vars(v))

    def make(*vals):
        o = object.__new__(cls)
        o.__dict__.update(builtins.zip(names, vals))
        return o
    return RecTy(make, [((lambda o, n=n: getattr(o, n)), ty_of(getattr(v, n))) for n in names])


class DictTy(Ty):
    def __init__(self, K, V, missing=None):
        self.K, self.V, self.missing = K, V, missing       # missing: default factory (defaultdict)
        self.k = K.sorts()[0]

    def sorts(self):
        return [z3.ArraySort(self.k, z3.BoolSort())] + [z3.ArraySort(self.k, s) for s in self.V.sorts()]

    def wrap(self, ts, wb=None):
        return SymDict(self, ts, wb)

    def unwrap(self, v):
        if type(v) is SymDict:
            return list(v.terms)
        if isinstance(v, dict):
            terms = self.empty()
            for k, x in v.items():
                kt = self.K.unwrap(k)[0]
                terms = [z3.Store(terms[0], kt, True)] + [z3.Store(a, kt, t) for a, t in
                                                          builtins.zip(terms[1:], self.V.unwrap(x))]
            return terms
        raise Unsupported('dict expected, got %r' % (v,))

    def empty(self):
        n = CTX.fresh_name('dflt')
        return [z3.K(self.k, z3.BoolVal(False))] + [z3.Const('%s.%d' % (n, i), z3.ArraySort(self.k, s))
                                                    for i, s in enumerate(self.V.sorts())]


class SetTy(Ty):
    def __init__(self, K):
        self.K = K
        self.k = K.sorts()[0]

    def sorts(self): return [z3.ArraySort(self.k, z3.BoolSort())]
    def wrap(self, ts, wb=None): return SymSet(self.K, ts[0], wb)

    def unwrap(self, v):
        if type(v) is SymSet:
            return [v.t]
        if type(v) is SymView and v.kind == 'keys':
            return [v.d.terms[0]]
        if isinstance(v, (set, frozenset, list, tuple)):
            t = z3.K(self.k, z3.BoolVal(False))
            for x in v:
                t = z3.Store(t, self.K.unwrap(x)[0], True)
            return [t]
        raise Unsupported('set expected, got %r' % (v,))


class SeqTy(Ty):
    def __init__(self, V, cls=list):
        self.V, self.cls = V, cls

    def sorts(self):
        return [z3.IntSort()] + [z3.ArraySort(z3.IntSort(), s) for s in self.V.sorts()]

    def wf(self, ts):
        return [ts[0] >= 0]

    def wrap(self, ts, wb=None):
        r = SymSeq(ts[0], lambda i: self.V.wrap([z3.Select(a, i) for a in ts[1:]]), self.V, self.cls, arrays=ts)
        r.wb = wb
        return r

    def unwrap(self, v):
        if type(v) is SymSeq:
            if v.arrays is not None:
                return list(v.arrays)
            # materialize: fresh arrays defined pointwise
            n = CTX.fresh_name('seq')
            # (as a function of the variables of the enclosing comprehension, if any)
            ps = list(CTX.params)
            arrs = [z3.Function('%s.%d' % (n, i), *[p.sort() for p in ps], z3.ArraySort(z3.IntSort(), s))(*ps) if ps else
                    z3.Const('%s.%d' % (n, i), z3.ArraySort(z3.IntSort(), s)) for i, s in enumerate(self.V.sorts())]
            i = z3.Int('i!' + n)
            with CTX.over(i):
                el = self.V.unwrap(v.elem(i))
            if arrs:
                CTX.assume(z3.ForAll(ps + [i], z3.And(*[z3.Select(a, i) == e for a, e in builtins.zip(arrs, el)]), patterns=[z3.Select(a, i) for a in arrs]))
            return [v.n] + arrs
        if isinstance(v, (list, tuple)):
            n = CTX.fresh_name('seq')
            arrs = [z3.Const('%s.%d' % (n, i), z3.ArraySort(z3.IntSort(), s)) for i, s in enumerate(self.V.sorts())]
            for j, x in enumerate(v):
                arrs = [z3.Store(a, j, t) for a, t in builtins.zip(arrs, self.V.unwrap(x))]
            return [z3.IntVal(len(v))] + arrs
        raise Unsupported('sequence expected, got %r' % (v,))


class OptTy(Ty):
    """None or a value of T; reading one forks on which."""
    def __init__(self, T): self.T = T
    def sorts(self): return [z3.BoolSort()] + self.T.sorts()

    def wrap(self, ts, wb=None):
        return self.T.wrap(ts[1:]) if CTX.branch(ts[0]) else None

    def unwrap(self, v):
        if v is None:
            n = CTX.fresh_name('none')
            return [z3.BoolVal(False)] + [z3.Const('%s.%d' % (n, i), s) for i, s in enumerate(self.T.sorts())]
        return [z3.BoolVal(True)] + self.T.unwrap(v)


INT, REAL, BOOL, OBJ = IntTy(), RealTy(), BoolTy(), ObjTy()


def ty_of(v):
    """Best-effort type of a python/symbolic value (for havoc of loop locals)."""
    if type(v) is SymInt: return INT
    if type(v) is SymReal: return REAL
    if type(v) is SymBool: return BOOL
    if type(v) is SymObj: return ObjTy(v.cls)
    if type(v) is bool: return BOOL
    if type(v) is int: return INT
    if type(v) is float: return REAL
    if type(v) is SymDict: return v.ty
    if type(v) is SymSet: return SetTy(v.K)
    if type(v) is SymSeq: return SeqTy(v.V, v.cls)
    if type(v) is tuple: return TupTy(*[ty_of(x) for x in v])
    if v is None: return ConstTy(None)
    if isinstance(v, str): return OBJ
    if type(v) is list:
        raise Unsupported('no symbolic type for a concrete list')
    if hasattr(v, '__dict__') and not isinstance(v, type) and not callable(v) and type(v).__module__.startswith('skdecide'):
        return inst_ty(v)
    raise Unsupported('no symbolic type for %r' % type(v))


def ite(c, a, b):
    """Merge two values."""
    if a is b:
        return a
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return z3.If(c, a, b)
    if a is None and b is None:
        return None
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in builtins.zip(a, b))
    if type(a) is dict and type(b) is dict and list(a) == list(b):
        return {k: ite(c, a[k], b[k]) for k in a}
    na, nb = num(a), num(b)
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return SymBool(z3.If(c, as_formula(a), as_formula(b)))
    if na is not None and nb is not None:
        na, nb = coerce2(na, nb)
        return mk(z3.If(c, na, nb))
    if type(a) is SymObj or type(b) is SymObj:
        return SymObj(z3.If(c, lift(a), lift(b)), getattr(a, 'cls', None) or getattr(b, 'cls', None))
    if type(a) is type(b) and type(a) in (SymDict, SymSet, SymSeq):
        ty = ty_of(a)
        return ty.wrap([z3.If(c, x, y) for x, y in builtins.zip(ty.unwrap(a), ty.unwrap(b))])
    if type(a) is type(b) and type(a).__module__.startswith('skdecide') and hasattr(a, '__dict__') and list(vars(a)) == list(vars(b)):
        r = object.__new__(type(a))
        r.__dict__.update({k: ite(c, x, getattr(b, k)) for k, x in vars(a).items()})
        return r
    try:
        if type(a) is type(b) and a == b:
            return a
    except Exception:
        pass
    raise Unsupported('cannot merge %r and %r' % (type(a), type(b)))


def merged(results):
    """ITE over merge() results; raises if some path raises (forks the outer path on it)."""
    vals = [(c, v) for c, v, e in results if e is None]
    for c, v, e in results:
        if e is not None:
            if CTX.branch(c):
                raise e
    if not vals:
        raise PathEnd()
    acc = vals[-1][1]
    for c, v in reversed(vals[:-1]):
        acc = ite(c, v, acc)
    return acc


# ------------------------------------------------------------------------------------------- collections
class SymDict:
    def __init__(self, ty, terms, wb=None):
        self.ty, self.terms, self.wb = ty, list(terms), wb
        CTX.track(self)

    @property
    def __class__(self):
        return dict

    def _k(self, k):
        return self.ty.K.unwrap(k)[0]

    def has(self, k):
        return z3.Select(self.terms[0], self._k(k))

    def at(self, k):
        kt = self._k(k) if not isinstance(k, z3.ExprRef) else k
        return self.ty.V.wrap([z3.Select(a, kt) for a in self.terms[1:]],
                              lambda ts: self._put(kt, ts))

    def _put(self, kt, ts):
        self.terms = [z3.Store(self.terms[0], kt, True)] + [z3.Store(a, kt, t) for a, t in
                                                            builtins.zip(self.terms[1:], ts)]
        self._w()

    def _w(self):
        if self.wb:
            self.wb(self.terms)

    def __contains__(self, k):
        try:
            return CTX.branch(self.has(k))
        except Unsupported:
            raise

    def __getitem__(self, k):
        if not CTX.branch(self.has(k)):
            if self.ty.missing is None:
                raise KeyError(k)
            self[k] = self.ty.missing()
        return self.at(k)

    def get(self, k, default=None):
        if CTX.branch(self.has(k)):
            return self.at(k)
        return default

    def __setitem__(self, k, v):
        self._put(self._k(k), self.ty.V.unwrap(v))

    def __delitem__(self, k):
        if not CTX.branch(self.has(k)):
            raise KeyError(k)
        self.terms = [z3.Store(self.terms[0], self._k(k), False)] + self.terms[1:]
        self._w()

    def pop(self, k, *d):
        if not CTX.branch(self.has(k)):
            if d:
                return d[0]
            raise KeyError(k)
        v = self.ty.V.wrap([z3.Select(a, self._k(k)) for a in self.terms[1:]])
        self.terms = [z3.Store(self.terms[0], self._k(k), False)] + self.terms[1:]
        self._w()
        return v

    def setdefault(self, k, d=None):
        if not CTX.branch(self.has(k)):
            self[k] = d
        return self.at(k)

    def keys(self): return SymView(self, 'keys')
    def values(self): return SymView(self, 'values')
    def items(self): return SymView(self, 'items')

    def copy(self):
        return SymDict(self.ty, self.terms)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def update(self, o):
        if type(o) is not SymDict:
            for k, v in o.items():
                self[k] = v
            return
        dom = z3.SetUnion(self.terms[0], o.terms[0])
        arrs = []
        for i, s in enumerate(self.ty.V.sorts()):
            a = z3.Const(CTX.fresh_name('upd'), z3.ArraySort(self.ty.k, s))
            x = z3.Const('x!upd', self.ty.k)
            CTX.assume(z3.ForAll([x], z3.Select(a, x) == z3.If(z3.Select(o.terms[0], x), z3.Select(o.terms[i + 1], x),
                                                              z3.Select(self.terms[i + 1], x)),
                                 patterns=[z3.Select(a, x)]))
            arrs.append(a)
        self.terms = [dom] + arrs
        self._w()

    def __len__(self):
        raise Unsupported('native len of symbolic dict')

    def __bool__(self):
        return CTX.branch(self.terms[0] != z3.K(self.ty.k, z3.BoolVal(False)))

    def __iter__(self):
        raise Unsupported('native iteration over symbolic dict')

    def eq(self, o):
        """extensional equality formula"""
        x = z3.Const('x!eq', self.ty.k)
        ot = self.ty.unwrap(o)
        return z3.And(self.terms[0] == ot[0],
                      z3.ForAll([x], z3.Implies(z3.Select(self.terms[0], x),
                                                z3.And(*[z3.Select(a, x) == z3.Select(b, x) for a, b in
                                                         builtins.zip(self.terms[1:], ot[1:])]))))

    def __eq__(self, o):
        if not isinstance(o, dict):
            return False
        return SymBool(self.eq(o))

    __hash__ = None


class SymView:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def __contains__(self, k):
        if self.kind == 'keys':
            return k in self.d
        if self.kind == 'values':
            x = z3.Const('x!v', self.d.ty.k)
            return CTX.branch(z3.Exists([x], z3.And(z3.Select(self.d.terms[0], x),
                                                    eqf(self.d.at(x), k))))
        raise Unsupported('in items()')

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic view')


class SymSet:
    def __init__(self, K, t, wb=None):
        self.K, self.t, self.wb = K, t, wb
        self.k = K.sorts()[0]
        CTX.track(self)

    @property
    def __class__(self):
        return set

    def _k(self, k):
        return self.K.unwrap(k)[0]

    def has(self, k):
        return z3.Select(self.t, self._k(k))

    def _w(self):
        if self.wb:
            self.wb([self.t])

    def __contains__(self, k):
        return CTX.branch(self.has(k))

    def add(self, k):
        self.t = z3.Store(self.t, self._k(k), True)
        self._w()

    def discard(self, k):
        self.t = z3.Store(self.t, self._k(k), False)
        self._w()

    def remove(self, k):
        if not CTX.branch(self.has(k)):
            raise KeyError(k)
        self.discard(k)

    def _o(self, o):
        if type(o) is SymDict or type(o) is SymView and o.kind == 'keys':
            return (o if type(o) is SymDict else o.d).terms[0]
        if isinstance(o, (list, tuple, dict)) and type(o) in (list, tuple, dict):
            o = set(o)
        return SetTy(self.K).unwrap(o)[0] if type(o) is not SymSeq else seq_set(o, self.K)

    def union(self, *os):
        t = self.t
        for o in os:
            t = z3.SetUnion(t, self._o(o))
        return SymSet(self.K, t)

    def __or__(self, o): return self.union(o)
    __ror__ = __or__

    def intersection(self, o): return SymSet(self.K, z3.SetIntersect(self.t, self._o(o)))
    def __and__(self, o): return self.intersection(o)
    __rand__ = __and__
    def difference(self, o): return SymSet(self.K, z3.SetDifference(self.t, self._o(o)))
    def __sub__(self, o): return self.difference(o)
    def __rsub__(self, o): return SymSet(self.K, z3.SetDifference(self._o(o), self.t))

    def symmetric_difference(self, o):
        a, b = self.t, self._o(o)
        return SymSet(self.K, z3.SetUnion(z3.SetDifference(a, b), z3.SetDifference(b, a)))

    __xor__ = symmetric_difference

    def update(self, *os):
        for o in os:
            self.t = z3.SetUnion(self.t, self._o(o))
        self._w()

    def difference_update(self, o):
        self.t = z3.SetDifference(self.t, self._o(o))
        self._w()

    def intersection_update(self, o):
        self.t = z3.SetIntersect(self.t, self._o(o))
        self._w()

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def issubset(self, o): return SymBool(z3.IsSubset(self.t, self._o(o)))
    def issuperset(self, o): return SymBool(z3.IsSubset(self._o(o), self.t))
    def isdisjoint(self, o): return SymBool(z3.SetIntersect(self.t, self._o(o)) == z3.K(self.k, z3.BoolVal(False)))
    __le__ = issubset
    __ge__ = issuperset

    def copy(self): return SymSet(self.K, self.t)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    def __bool__(self): return CTX.branch(self.t != z3.K(self.k, z3.BoolVal(False)))
    def __iter__(self): raise Unsupported('native iteration over symbolic set')
    def __len__(self): raise Unsupported('native len of symbolic set')

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return False
        return SymBool(self.t == self._o(o))

    __hash__ = None

    def pop(self):
        if not bool(self):
            raise KeyError('pop from an empty set')
        x = self.K.fresh('popped')
        CTX.assume(self.has(x))
        self.discard(x)
        return x


class RevSeqTy(Ty):
    """A list that grows at its front only: stored from its end."""
    def __init__(self, V): self.V = V
    def sorts(self): return SeqTy(self.V).sorts()
    def wf(self, ts): return [ts[0] >= 0]

    def wrap(self, ts, wb=None):
        s = SymSeq(ts[0], lambda i: self.V.wrap([z3.Select(a, ts[0] - 1 - i) for a in ts[1:]]), self.V, list)
        s.rev = list(ts)
        return s

    def unwrap(self, v):
        if type(v) is SymSeq and v.rev is not None:
            return list(v.rev)
        if isinstance(v, list) and type(v) is list:
            return SeqTy(self.V).unwrap(v[::-1])
        raise Unsupported('reversed list')


class SymSeq:
    """A list/tuple/deque of arbitrary length n with element function elem: Int term -> value.
    maxlen_ (deques): None or an integer; a full deque drops its first element on append."""
    def __init__(self, n, elem, V=None, cls=list, arrays=None, maxlen_=None):
        self.n, self.elem, self.V, self.cls, self.arrays, self.maxlen_ = n, elem, V, cls, arrays, maxlen_

    rev = None
    wb = None           # a sequence stored in a container writes its changes back

    @property
    def __class__(self):
        return self.cls

    def _w(self):
        if self.wb:
            self.wb(SeqTy(self.V).unwrap(self))

    def at_(self, t):
        """The element at t; a container knows where it is stored."""
        if isinstance(self.V, (SeqTy, SetTy, DictTy)) and self.arrays is not None and type(self.elem(t)) in (SymSeq, SymSet, SymDict):
            def wb(ts):
                self.arrays = [self.arrays[0]] + [z3.Store(a, t, x) for a, x in builtins.zip(self.arrays[1:], ts)]
                arr, V = self.arrays, self.V
                self.elem = lambda j: V.wrap([z3.Select(x, j) for x in arr[1:]])
                self._w()
            return self.V.wrap([z3.Select(a, t) for a in self.arrays[1:]], wb)
        return self.elem(t)

    def _set(self, o):
        self.n, self.elem, self.V, self.arrays, self.rev = o.n, o.elem, o.V, o.arrays, o.rev

    def getitem(self, i):
        if isinstance(i, slice):
            if i.step == -1 and i.start is None and i.stop is None:
                e, n = self.elem, self.n
                return SymSeq(n, lambda j: e(n - 1 - j), self.V, self.cls)
            if i.step not in (None, 1):
                raise Unsupported('slice step')
            n = self.n

            def norm(x, d):
                if x is None:
                    return d
                x = num(x)
                x = z3.If(x < 0, x + n, x)
                return z3.If(x < 0, 0, z3.If(x > n, n, x))
            a, b = norm(i.start, z3.IntVal(0)), norm(i.stop, n)
            e = self.elem
            return SymSeq(z3.If(b > a, b - a, 0), lambda j: e(j + a), self.V, self.cls)
        t = num(i)
        if t is None:
            raise TypeError('list indices must be integers')
        if not CTX.branch(z3.And(t < self.n, t >= -self.n)):
            raise IndexError('index out of range')
        if type(i) is int:
            return self.at_(z3.IntVal(i) if i >= 0 else self.n + i)
        if z3.is_const(t) or z3.is_app(t) and t.num_args() <= 2:
            if CTX.branch(t >= 0):
                return self.at_(t)
            return self.at_(t + self.n)
        return self.at_(z3.simplify(z3.If(t < 0, t + self.n, t)))

    __getitem__ = getitem

    def __setitem__(self, i, v):
        r = self.___setitem__(i, v)
        self._w()
        return r

    def ___setitem__(self, i, v):
        self.rev = None
        t = num(i)
        if not CTX.branch(z3.And(t < self.n, t >= -self.n)):
            raise IndexError('assignment index out of range')
        if not CTX.branch(t >= 0):
            t = t + self.n
        e = self.elem
        ty = self.V
        if ty is not None:
            a = SeqTy(ty).unwrap(self)
            self.arrays = [a[0]] + [z3.Store(x, t, y) for x, y in builtins.zip(a[1:], ty.unwrap(v))]
            arr = self.arrays
            self.elem = lambda j: ty.wrap([z3.Select(x, j) for x in arr[1:]])
        else:
            self.elem = lambda j: ite(j == t, v, e(j))
            self.arrays = None

    def append(self, v):
        r = self._append(v)
        self._w()
        return r

    def _append(self, v):
        self.rev = None
        e, n = self.elem, self.n
        if self.maxlen_ is not None:
            m = num(self.maxlen_)
            if not CTX.branch(n < m):
                # full (n == maxlen): drop the first, then append, unless the capacity is zero
                if CTX.branch(m > 0):
                    self.elem = lambda j: ite(j == n - 1, v, e(j + 1))
                    self.arrays = None
                return
        if self.V is not None:
            a = SeqTy(self.V).unwrap(self)
            arr = [a[0] + 1] + [z3.Store(x, n, y) for x, y in builtins.zip(a[1:], self.V.unwrap(v))]
            ty = self.V
            self.arrays = arr
            self.elem = lambda j: ty.wrap([z3.Select(x, j) for x in arr[1:]])
        else:
            self.elem = lambda j: ite(j == n, v, e(j))
            self.arrays = None
        self.n = n + 1
        if self.arrays is not None:
            self.arrays[0] = self.n

    def insert(self, i, v):
        r = self._insert(i, v)
        self._w()
        return r

    def _insert(self, i, v):
        if type(i) is not int or i != 0 or self.maxlen_ is not None:
            raise Unsupported('insert(i, v)')
        if getattr(self, 'rev', None) is not None:
            n, ty = self.n, self.V
            self._set(RevSeqTy(ty).wrap([n + 1] + [z3.Store(x, n, y) for x, y in builtins.zip(self.rev[1:], ty.unwrap(v))]))
            return
        if self.V is None:
            e = self.elem
            self.elem = lambda j: ite(j == 0, v, e(j - 1))
            self.n = self.n + 1
            return
        a, ty = SeqTy(self.V).unwrap(self), self.V
        arr, j = [a[0] + 1], z3.Int('j!ins')
        for x, y in builtins.zip(a[1:], ty.unwrap(v)):
            b = z3.Const(CTX.fresh_name('ins'), x.sort())
            CTX.assume(z3.And(z3.Select(b, 0) == y, z3.ForAll([j], z3.Implies(j > 0, z3.Select(b, j) == z3.Select(x, j - 1)),
                                                             patterns=[z3.Select(b, j)]),
                              z3.ForAll([j], z3.Implies(j >= 0, z3.Select(b, j + 1) == z3.Select(x, j)), patterns=[z3.Select(x, j)])))
            arr.append(b)
        self.n, self.arrays = arr[0], arr
        self.elem = lambda j: ty.wrap([z3.Select(x, j) for x in arr[1:]])

    def extend(self, o):
        r = self._extend(o)
        self._w()
        return r

    def _extend(self, o):
        r = self + o
        self.n, self.elem, self.arrays = r.n, r.elem, None

    def remove(self, v):
        r = self._remove(v)
        self._w()
        return r

    def _remove(self, v):
        i = self.index(v)
        self.removed = i
        e, n = self.elem, self.n
        if self.V is None or self.rev is not None:
            self.rev, self.arrays = None, None
            self.n, self.elem = n - 1, lambda j: ite(j < i.t, e(j), e(j + 1))
            return
        a, j = SeqTy(self.V).unwrap(self), z3.Int('j!rem')
        arr = [n - 1]
        for x in a[1:]:
            b = z3.Const(CTX.fresh_name('rem'), x.sort())
            CTX.assume(z3.And(z3.ForAll([j], z3.Implies(j < i.t, z3.Select(b, j) == z3.Select(x, j)), patterns=[z3.Select(b, j), z3.Select(x, j)]),
                              z3.ForAll([j], z3.Implies(j >= i.t, z3.Select(b, j) == z3.Select(x, j + 1)), patterns=[z3.Select(b, j)]),
                              z3.ForAll([j], z3.Implies(j > i.t, z3.Select(b, j - 1) == z3.Select(x, j)), patterns=[z3.Select(x, j)])))
            arr.append(b)
        self.n, self.arrays, ty = arr[0], arr, self.V
        self.elem = lambda j: ty.wrap([z3.Select(x, j) for x in arr[1:]])

    def pop(self, i=-1):
        r = self._pop(i)
        self._w()
        return r

    def _pop(self, i=-1):
        if type(i) is not int or i != -1:
            raise Unsupported('pop(i)')
        v = self.getitem(-1)
        self.n = self.n - 1
        if self.arrays is not None:
            self.arrays = [self.n] + list(self.arrays[1:])
        return v

    def __add__(self, o):
        if type(o) in (list, tuple) and self.V is not None and self.maxlen_ is None:
            r = self.copy()
            try:
                for v in o:
                    r.append(v)
                return r
            except (Unsupported, TypeError, AttributeError, z3.Z3Exception):
                pass
        o = to_seq(o)
        e1, n1, e2 = self.elem, self.n, o.elem

        def el(j):
            return ite(j < n1, e1(j), e2(j - n1))
        return SymSeq(n1 + o.n, el, self.V or o.V, self.cls)

    def __radd__(self, o):
        return to_seq(o) + self

    def __contains__(self, v):
        i = z3.Int(CTX.fresh_name('i!in'))
        return CTX.branch(z3.Exists([i], z3.And(i >= 0, i < self.n, eqf(self.elem(i), v))))

    def index(self, v):
        i = INT.fresh('idx')
        if not (v in self):
            raise ValueError('not in list')
        CTX.assume(z3.And(i.t >= 0, i.t < self.n, eqf(self.elem(i.t), v)))
        j = z3.Int('j!idx')
        CTX.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i.t), z3.Not(eqf(self.elem(j), v)))))
        return i

    def copy(self):
        return SymSeq(self.n, self.elem, self.V, self.cls, self.arrays, self.maxlen_)

    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    def __bool__(self): return CTX.branch(self.n > 0)
    def __iter__(self): raise Unsupported('native iteration over symbolic sequence')
    def __len__(self): raise Unsupported('native len of symbolic sequence')
    __hash__ = None

    def __eq__(self, o):
        if isinstance(o, (list, tuple, collections.deque)):
            return SymBool(seq_eq(self, to_seq(o)))
        return False

    @property
    def maxlen(self):
        if issubclass(self.cls, collections.deque):
            return self.maxlen_
        raise AttributeError('maxlen')


def to_seq(o):
    if type(o) is SymSeq:
        return o
    if isinstance(o, (list, tuple)):
        items = list(o)
        if not items:
            return SymSeq(z3.IntVal(0), lambda j: None)

        def el(j):
            if z3.is_int_value(j):
                return items[j.as_long()]
            acc = items[-1]
            for i in builtins.range(len(items) - 2, -1, -1):
                acc = ite(j == i, items[i], acc)
            return acc
        return SymSeq(z3.IntVal(len(items)), el)
    raise Unsupported('to_seq %r' % (o,))


def seq_eq(a, b):
    i = z3.Int(CTX.fresh_name('i!seq'))
    return z3.And(a.n == b.n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.n), eqf(a.elem(i), b.elem(i)))))


def seq_set(s, K):
    a = z3.Const(CTX.fresh_name('set'), z3.ArraySort(K.sorts()[0], z3.BoolSort()))
    i = z3.Int(CTX.fresh_name('i!ss'))
    x = z3.Const('x!ss', K.sorts()[0])
    CTX.assume(z3.ForAll([x], z3.Select(a, x) == z3.Exists([i], z3.And(i >= 0, i < s.n, K.unwrap(s.elem(i))[0] == x))))
    CTX.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n), z3.Select(a, K.unwrap(s.elem(i))[0]))))
    return a


def eqf(a, b):
    """Equality of two values as a z3 formula (no forking)."""
    if a is b:
        return z3.BoolVal(True)
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And(*[eqf(x, y) for x, y in builtins.zip(a, b)]) if a else z3.BoolVal(True)
    if isinstance(b, z3.ArithRef):
        b = mk(b)
    if isinstance(a, z3.ArithRef):
        a = mk(a)
    r = a == b
    if type(r) is SymBool:
        return r.t
    if r is NotImplemented:
        return z3.BoolVal(False)
    if isinstance(r, z3.BoolRef):
        return r
    return z3.BoolVal(bool(r))


# ----------------------------------------------------------------------------------- quantified formulas
def ev(fn):
    """Evaluate a python predicate to one z3 formula (forks are merged, exceptions make it false)."""
    res = CTX.merge(fn)
    out = []
    for c, v, e in res:
        if e is not None:
            continue
        if type(v) is bool or isinstance(v, (SymBool, z3.BoolRef)):
            f = as_formula(v)
        elif num(v) is not None:
            f = num(v) != 0
        else:
            raise Unsupported('predicate value %r' % (v,))
        out.append(z3.And(c, f))
    return z3.Or(*out) if out else z3.BoolVal(False)


def forall_in(coll, pred, name='x'):
    """Formula: pred(e) for every element e of a symbolic collection."""
    if type(coll) is SymSeq:
        i = z3.Int(CTX.fresh_name('i!' + name))
        body = pred(coll.elem(i))
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < coll.n), as_formula(body)))
    if type(coll) is SymSet:
        x = z3.Const(CTX.fresh_name('x!' + name), coll.k)
        return z3.ForAll([x], z3.Implies(z3.Select(coll.t, x), as_formula(pred(coll.K.wrap([x])))))
    if type(coll) is SymDict:
        x = z3.Const(CTX.fresh_name('x!' + name), coll.ty.k)
        return z3.ForAll([x], z3.Implies(z3.Select(coll.terms[0], x), as_formula(pred(coll.ty.K.wrap([x])))))
    if isinstance(coll, (list, tuple, set, dict)):
        return z3.And(*[as_formula(pred(e)) for e in coll]) if len(coll) else z3.BoolVal(True)
    raise Unsupported('forall_in %r' % type(coll))


# ------------------------------------------------------------------------------------------------- folds
class PrefixSum:
    """S(k) = sum of the first k elements of an (arbitrary length) sequence.  S is an uninterpreted
    function constrained only by the instances of its recursive definition that are unfolded."""
    def __init__(self, seq, real=None):
        probe = z3.Int('probe')
        self.seq = seq
        self.n = seq.n
        t = num(seq.elem(probe))
        if t is None:
            raise Unsupported('sum of non-numbers')
        self.sort = t.sort() if not real else z3.RealSort()
        self.f = z3.Function(CTX.fresh_name('S'), z3.IntSort(), self.sort)
        CTX.assume(self.f(z3.IntVal(0)) == 0)
        CTX.sums.append(self)
        for o in CTX.sums[:-1]:
            if o.sort == self.sort and not isinstance(o, SetSum):
                k = z3.Int('k!cg')
                j = z3.Int(CTX.fresh_name('j!cg'))
                # lemma (induction on the length): equal summands give equal prefix sums
                sa, sb = num(self.seq.elem(j)), num(o.seq.elem(j))
                sa, sb = coerce2(sa, sb)
                lim = z3.If(self.n < o.n, self.n, o.n)
                CTX.assume(z3.Implies(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < lim), sa == sb)),
                                      z3.And(self.f(lim) == o.f(lim))))

    def term(self, j):
        t = num(self.seq.elem(j))
        return z3.ToReal(t) if self.sort == z3.RealSort() and t.sort() == z3.IntSort() else t

    def unfold(self, k):
        """instance of the definition at k: S(k+1) = S(k) + term(k)"""
        CTX.assume(z3.Implies(k >= 0, self.f(k + 1) == self.f(k) + self.term(k)))

    def total(self):
        return mk(self.f(self.n))


class SetSum:
    """Sum of a function over a finite set of keys: uninterpreted over sets, unfolded at insertions."""
    def __init__(self, ksort, fn, sort=z3.IntSort(), name='SS'):
        self.fn, self.sort, self.k = fn, sort, ksort
        self.f = z3.Function(CTX.fresh_name(name), z3.ArraySort(ksort, z3.BoolSort()), sort)
        CTX.assume(self.f(z3.K(ksort, z3.BoolVal(False))) == 0)

    def at(self, s):
        return mk(self.f(s))

    def unfold(self, s, x):
        CTX.assume(z3.Implies(z3.Not(z3.Select(s, x)), self.f(z3.Store(s, x, True)) == self.f(s) + num(self.fn(x))))


# -------------------------------------------------------------------------------------------------- loops
class LoopContract:
    """match(loop)->bool; inv(loop)->[(name, formula)]; types: {local: Ty} for locals that need one;
    modifies(loop): symbolic containers / (obj, attr) pairs the body may change;
    on_enter / on_step hooks may unfold definitions."""
    def __init__(self, match, inv, types=None, modifies=None, step=None, name='loop', decreases=None, args=()):
        self.args = args     # local containers the body changes by handing them to functions
        self.match, self.inv, self.types, self.modifies = match, inv, types or {}, modifies
        self.step, self.name, self.decreases = step, name, decreases


class Loop:
    def __init__(self, it, lid, bound, mut, args=(), targets=()):
        self.args, self.targets = args, targets
        if type(it) is KeyedSeq and it.plain is not None:
            it = it.plain               # list(set): every element once, in any order
        self.it, self.lid = it, lid
        self.bound, self.mut = bound, mut
        self.sym = False
        self.native = None
        self.vals = {}
        k = type(it)
        if k in (SymSeq, SymSet, SymDict, SymView):
            self.sym = True
        elif isinstance(it, SymIter):
            self.native = it
        else:
            self.native = it

    def fn(self):
        return self.lid.split(':')[1]

    # ---- symbolic protocol
    def enter(self, loc):
        c = CTX
        self.coll = self.it
        self.kind = type(self.it).__name__
        if type(self.it) is SymView:
            self.coll, self.kind = self.it.d, 'Sym' + self.it.kind
            dom0 = self.it.d.terms[0]
            self.dom = dom0
            self.k = self.it.d.ty.k
            self.src = self.it.d
            self.src_terms = list(self.it.d.terms)
        elif type(self.it) is SymDict:
            self.dom, self.k, self.src = self.it.terms[0], self.it.ty.k, self.it
            self.src_terms = list(self.it.terms)
        elif type(self.it) is SymSet:
            self.dom, self.k, self.src = self.it.t, self.it.k, self.it
        else:
            self.dom = None
            self.src = self.it
            self.seq = self.it.copy()
        self.contract = next((lc for lc in c.loops if lc.match(self)), None)
        if self.contract is None:
            raise Unsupported('no loop contract for the loop at %s' % self.lid)
        self.entry_locals = dict(loc)
        self.locals = dict(loc)
        # establish
        if self.dom is not None:
            self.visited = z3.K(self.k, z3.BoolVal(False))
        else:
            self.i = z3.IntVal(0)
        self._prove_inv('establish')
        # choose: arbitrary iteration / exit
        self.mode = c.choose([True, True], None)   # 0: iterate, 1: exit
        self._havoc(loc)
        if self.dom is not None:
            if self.mode == 0:
                self.visited = z3.Const(c.fresh_name('visited'), z3.ArraySort(self.k, z3.BoolSort()))
                c.assume(z3.IsSubset(self.visited, self.dom))
                self.x = z3.Const(c.fresh_name('cur'), self.k)
                c.assume(z3.And(z3.Select(self.dom, self.x), z3.Not(z3.Select(self.visited, self.x))))
            else:
                self.visited = self.dom
        else:
            self.i = z3.Int(c.fresh_name('i'))
            if self.mode == 0:
                c.assume(z3.And(self.i >= 0, self.i < self.seq.n))
            else:
                self.i = self.seq.n
                c.assume(self.seq.n >= 0)
        self.phase = 'assume'
        for nm, f in self.contract.inv(self):
            c.assume(f)
        if not c.feasible():
            raise PathEnd()

    def _havoc(self, loc):
        c = CTX
        self.frame = {}
        mods = list(self.contract.modifies(self)) if self.contract.modifies else []
        self.vals = {}
        memo = {}
        for nm in tuple(self.bound) + tuple(self.mut) + tuple(a for a in self.args if a in self.contract.args):
            tys = self.contract.types
            ty = tys(self, nm, loc.get(nm)) if callable(tys) else None
            if ty is not None:
                self.vals[nm] = ty.fresh('loc_' + nm)
            elif not callable(tys) and nm in tys:
                ty = tys[nm]
                ty = ty(self) if callable(ty) and not isinstance(ty, Ty) else ty
                self.vals[nm] = ty.fresh('loc_' + nm) if ty is not None else Undef(nm)
            elif nm in loc:
                v = loc[nm]
                if nm in self.mut and type(v) in (SymDict, SymSet, SymSeq):
                    self._havoc_obj(v)
                    continue
                if nm in self.mut and not isinstance(v, (list, dict, set)):
                    continue     # method call on a non-container: its effects are in `modifies`
                try:
                    if isinstance(v, (list, dict, set)) and not isinstance(v, Sym) and type(v) in (list, dict, set):
                        raise Unsupported('container local')
                    self.vals[nm] = ty_of(v).fresh('loc_' + nm)
                except Unsupported:
                    self.vals[nm] = Undef(nm)
        if getattr(self, 'mode', 0) == 1:
            for nm in getattr(self, 'targets', ()):
                # after the loop its variable keeps the last element (or what it was): unknown unless the contract types it
                ty = self.contract.types.get(nm) if not callable(self.contract.types) else None
                self.vals[nm] = ty.fresh('loc_' + nm) if ty is not None else Undef(nm)
        self.held = []
        for m in mods:
            if isinstance(m, tuple):
                o, a, ty = m
                setattr(o, a, ty.fresh('hv_' + a))
                self.held.append(getattr(o, a))
            else:
                self._havoc_obj(m)
        self.locals.update(self.vals)
        # frame snapshot
        self.modset = {id(m) for m in mods if not isinstance(m, tuple)} | {id(m) for m in self.held}
        self.snap = [(o, list(o.terms) if type(o) is SymDict else [o.t]) for o in c.objs]

    def _havoc_obj(self, v):
        c = CTX
        if type(v) is SymDict:
            f = v.ty.fresh('hv')
            v.terms = f.terms
            v._w()
        elif type(v) is SymSet:
            v.t = z3.Const(c.fresh_name('hv'), v.t.sort())
            v._w()
        elif type(v) is SymSeq:
            if v.V is None:
                raise Unsupported('havoc of an untyped sequence')
            v._set(SeqTy(v.V, v.cls).fresh('hv'))
        else:
            raise Unsupported('havoc %r' % type(v))

    def has(self, nm):
        return nm in self.vals

    def val(self, nm):
        return self.vals[nm]

    def _prove_inv(self, phase):
        self.phase = phase
        for nm, f in self.contract.inv(self):
            CTX.prove('%s[%s]:%s:%s' % (self.fn(), self.contract.name, phase, nm), f)

    def __iter__(self):
        if not self.sym:
            yield from self.native
            return
        if self.mode == 1:
            return
        yield self.element()

    def element(self):
        it = self.it
        if type(it) is SymView:
            d = it.d
            key = d.ty.K.wrap([self.x])
            if it.kind == 'keys':
                return key
            if it.kind == 'values':
                return d.at(self.x)
            return (key, d.at(self.x))
        if type(it) is SymDict:
            return it.ty.K.wrap([self.x])
        if type(it) is SymSet:
            return it.K.wrap([self.x])
        return self.seq.elem(self.i)

    def end(self, loc):
        c = CTX
        if self.mode == 1:
            return
        self.locals = dict(loc)
        if self.contract.step:
            self.contract.step(self)
        if self.dom is not None:
            self.visited = z3.Store(self.visited, self.x, True)
            # CPython raises RuntimeError when a dict/set changes size during iteration
            cur = self.src.terms[0] if type(self.src) is SymDict else self.src.t
            if not cur.eq(self.dom):
                c.prove('%s[%s]:iterated-collection-unchanged' % (self.fn(), self.contract.name), cur == self.dom)
        else:
            self.i = self.i + 1
        self._prove_inv('preserve')
        # objects that are written in the body must be in the frame
        for o, old in self.snap:
            new = list(o.terms) if type(o) is SymDict else [o.t]
            if id(o) not in self.modset and not all(a.eq(b) for a, b in builtins.zip(new, old)) and o.wb is None:
                if any(v is o for v in self.vals.values()) or any(self.entry_locals.get(n) is o for n in self.mut):
                    continue
                c.prove('%s[%s]:frame' % (self.fn(), self.contract.name),
                        z3.And(*[a == b for a, b in builtins.zip(new, old)]))
        raise PathEnd()


class WLoop(Loop):
    def __init__(self, lid, bound, mut, args=()):
        self.args = args
        self.lid, self.bound, self.mut = lid, bound, mut
        self.kind = 'while'
        self.vals = {}
        self.it = self.coll = self.src = None
        self.contract = next((lc for lc in CTX.loops if lc.match(self)), None) if CTX else None
        self.sym = self.contract is not None
        self.count = 0

    def enter(self, loc):
        c = CTX
        self.entry_locals = dict(loc)
        self.locals = dict(loc)
        self._prove_inv('establish')
        self._havoc(loc)
        self.phase = 'assume'
        for nm, f in self.contract.inv(self):
            c.assume(f)
        self.snapdec = self.contract.decreases(self) if self.contract.decreases else None
        if not c.feasible():
            raise PathEnd()

    def step(self, loc):
        self.count += 1
        if not self.sym:
            if CTX is not None and CTX.prefix is not None and self.count > 2000:
                raise Unsupported('while loop without contract runs over 2000 iterations at %s' % self.lid)
            return True
        if self.count == 1:
            return True
        self.locals = dict(loc)
        if self.contract.step:
            self.contract.step(self)
        self._prove_inv('preserve')
        if self.snapdec is not None:
            d = num(self.contract.decreases(self))
            o = num(self.snapdec)
            CTX.prove('%s[%s]:decreases' % (self.fn(), self.contract.name), z3.And(d < o, o >= 0))
        for o, old in self.snap:
            new = list(o.terms) if type(o) is SymDict else [o.t]
            if id(o) not in self.modset and not all(a.eq(b) for a, b in builtins.zip(new, old)) and o.wb is None:
                if any(v is o for v in self.vals.values()) or any(self.entry_locals.get(n) is o for n in self.mut):
                    continue
                CTX.prove('%s[%s]:frame' % (self.fn(), self.contract.name),
                          z3.And(*[a == b for a, b in builtins.zip(new, old)]))
        raise PathEnd()


class SymIter:
    pass


# ----------------------------------------------------------------------------------------- comprehensions
def _is_sym(x):
    return type(x) in (SymSeq, SymSet, SymDict, SymView)


def _one(kind, fn, x):
    """Result of the comprehension over the one-element list [x]: (present?, value) merged."""
    return fn([x])


def comp(kind, it, fn, lid, ngen):
    if type(it) is KeyedSeq and it.plain is not None:
        it = it.plain
    if not _is_sym(it):
        if isinstance(it, Loop):
            raise Unsupported('loop object in comprehension')
        return fn(it)
    if ngen > 1:
        raise Unsupported('nested comprehension over a symbolic collection at %s' % lid)
    if type(it) is SymView and it.kind == 'values' or type(it) is SymView and it.kind == 'items' or \
            type(it) in (SymSet, SymDict) or type(it) is SymView:
        return _comp_keyed(kind, it, fn, lid)
    return _comp_seq(kind, it, fn, lid)


def _eval_elem(kind, fn, x, var, guard):
    """[(cond, value, exception)] for an arbitrary element; value is (k, v) for dicts."""
    def go():
        r = fn([x])
        r = list(r.items()) if kind == 'dict' else list(r)
        if len(r) == 0:
            return ()
        return (r[0],)
    return CTX.merge(go, var, guard)


def _exc(res, cond, what):
    """An element evaluation that may raise: the comprehension raises on that path."""
    for c, v, e in res:
        if e is not None:
            if CTX.choose([z3.And(cond, c), z3.BoolVal(True)]) == 0:
                raise e
            # on the other path no element raises: nothing is assumed (sound, weaker)


def _comp_seq(kind, seq, fn, lid):
    c = CTX
    # symbolic index: evaluate the element expression at an arbitrary position
    i = z3.Int(c.fresh_name('i!comp'))
    guard = z3.And(i >= 0, i < seq.n)
    res = _eval_elem(kind, fn, seq.elem(i), i, guard)
    for cc, v, e in res:
        if e is not None:
            if c.branch(z3.Exists([i], z3.And(guard, cc))) if c.sub is None else True:
                raise e
    good = [(cc, v) for cc, v, e in res if e is None]
    if not good:
        # no feasible element: empty sequence
        c.assume(seq.n <= 0)
        return {'set': set(), 'dict': {}}.get(kind, [])
    always = all(len(v) == 1 for _, v in good)
    if not always:
        if all(len(v) == 0 for _, v in good):
            return {'set': set(), 'dict': {}}.get(kind, [])
        return FilteredSeq(kind, seq, i, good, lid).as_value()
    with c.over(i):
        acc = good[-1][1][0]
        for cc, v in reversed(good[:-1]):
            acc = ite(cc, v[0], acc)
    elem = subst_builder(acc, i)
    out = SymSeq(seq.n, elem, None, list)
    out.base = seq
    try:
        out.V = ty_of(acc)
    except Unsupported:
        out.V = None
    if kind == 'set':
        K = ty_of(acc)
        return SymSet(K, seq_set(out, K))
    if kind == 'dict':
        return seq_dict(out)
    return out


def _pattern(t):
    """May t be used as a quantifier pattern: only variables, uninterpreted functions and selections."""
    k = t.decl().kind()
    if k not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and not z3.is_int_value(t):
        return False
    return all(_pattern(x) for x in t.children())


def _direct(t, k):
    """Subterms f(.. k ..) or a[k] of t."""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x):
            if any(y.eq(k) for y in x.children()) and x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and _pattern(x) and not any(x.eq(o) for o in out):
                out.append(x)
            todo += x.children()
    return out


def seq_dict(seq):
    """dict() of a sequence of pairs: the last pair of each key."""
    c = CTX
    i = z3.Int(c.fresh_name('i!sd'))
    kv = seq.elem(i)
    K, V = ty_of(kv[0]), ty_of(kv[1])
    if len(K.sorts()) != 1:
        raise Unsupported('dict comprehension with compound keys')
    D = DictTy(K, V)
    ts = [z3.Const(c.fresh_name('sdict'), x) for x in D.sorts()]
    key, x, j = K.unwrap(kv[0])[0], z3.Const(c.fresh_name('x!sd'), K.sorts()[0]), z3.Int(c.fresh_name('j!sd'))
    at = z3.Function(c.fresh_name('sdat'), K.sorts()[0], z3.IntSort())
    with c.over(i):
        vals = V.unwrap(kv[1])
    val = lambda t: [z3.substitute(v, (i, t)) for v in vals]
    kat = lambda t: z3.substitute(key, (i, t))
    c.assume(z3.ForAll([x], z3.Implies(z3.Select(ts[0], x), z3.And(0 <= at(x), at(x) < seq.n, kat(at(x)) == x, *[
        z3.Select(a, x) == v for a, v in builtins.zip(ts[1:], val(at(x)))])), patterns=[z3.Select(ts[0], x)]))
    body = z3.Implies(z3.And(0 <= j, j < seq.n), z3.And(z3.Select(ts[0], kat(j)), at(kat(j)) >= j))
    kt = kat(j)
    c.assume(z3.ForAll([j], body, patterns=[kt]) if kt.num_args() and _pattern(kt) else z3.ForAll([j], body))
    return SymDict(D, ts)


def subst_builder(val, i):
    """Turn a value computed at symbolic index i into a function of the index."""
    def build(j):
        return subst(val, i, j if isinstance(j, z3.ExprRef) else z3.IntVal(j))
    return build


def subst(v, i, j):
    if type(v) in (SymInt, SymReal, SymBool):
        return mk(z3.substitute(v.t, (i, j)))
    if type(v) is SymObj:
        return SymObj(z3.substitute(v.t, (i, j)), v.cls)
    if type(v) is tuple:
        return tuple(subst(x, i, j) for x in v)
    if type(v) is list:
        return [subst(x, i, j) for x in v]
    if type(v) is dict:
        return {k: subst(x, i, j) for k, x in v.items()}
    if type(v) is SymDict:
        return SymDict(v.ty, [z3.substitute(t, (i, j)) for t in v.terms])
    if type(v) is SymSet:
        return SymSet(v.K, z3.substitute(v.t, (i, j)))
    if type(v) is SymSeq:
        e = v.elem
        return SymSeq(z3.substitute(v.n, (i, j)), lambda k: subst(e(k), i, j), v.V, v.cls)
    if v is None or isinstance(v, (int, float, str, type)):
        return v
    if hasattr(v, '__dict__') and not isinstance(v, Sym):
        import copy as _c
        w = _c.copy(v)
        if w is v:
            return v
        for k, x in vars(v).items():
            try:
                w.__dict__[k] = subst(x, i, j)
            except Unsupported:
                raise
        return w
    raise Unsupported('subst %r' % type(v))


class FilteredSeq:
    """A filtered list: only membership / emptiness facts are exposed (as a set-like sequence)."""
    def __init__(self, kind, seq, i, good, lid):
        self.kind, self.seq, self.i, self.good = kind, seq, i, good

    def as_value(self):
        c = CTX
        seq, i, good = self.seq, self.i, self.good
        present = z3.Or(*[cc for cc, v in good if len(v) == 1])
        acc = None
        with c.over(i):
            for cc, v in good:
                if len(v) == 1:
                    acc = v[0] if acc is None else ite(cc, v[0], acc)
        # order-preserving selection: out[k] = f(seq[idx(k)]) with idx strictly increasing, onto the selected indices
        n = z3.Int(c.fresh_name('nfilt'))
        idx = z3.Function(c.fresh_name('fidx'), z3.IntSort(), z3.IntSort())
        inv = z3.Function(c.fresh_name('finv'), z3.IntSort(), z3.IntSort())
        k, l = z3.Int('k!f'), z3.Int('l!f')
        pres = lambda t: z3.substitute(present, (i, t))
        c.assume(z3.And(n >= 0, n <= z3.If(seq.n >= 0, seq.n, 0)))
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(idx(k) >= 0, idx(k) < seq.n, pres(idx(k)),
                                                                        inv(idx(k)) == k)), patterns=[idx(k)]))
        c.assume(fa(k, z3.Implies(z3.And(k >= 0, k < seq.n, pres(k)), z3.And(inv(k) >= 0, inv(k) < n, idx(inv(k)) == k)),
                    inv(k), *_direct(pres(k), k)[:2]))
        c.assume(z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k < l, l < n), idx(k) < idx(l)),
                           patterns=[z3.MultiPattern(idx(k), idx(l))]))
        b = subst_builder(acc, i)
        out = SymSeq(n, lambda j: b(idx(j)), None, list)
        try:
            out.V = ty_of(acc)
        except Unsupported:
            pass
        out.src, out.idx, out.finv, out.present = seq, idx, inv, pres
        if self.kind == 'set':
            return SymSet(out.V, seq_set(out, out.V))
        if self.kind == 'dict':
            raise Unsupported('filtered dict comprehension over sequence')
        return out


def _comp_keyed(kind, it, fn, lid):
    c = CTX
    if type(it) is SymSet:
        K, dom, wrap = it.K, it.t, lambda x: it.K.wrap([x])
    else:
        d = it if type(it) is SymDict else it.d
        d = d.copy()
        K, dom = d.ty.K, d.terms[0]
        vk = 'keys' if type(it) is SymDict else it.kind
        wrap = {'keys': lambda x: K.wrap([x]), 'values': lambda x: d.at(x),
                'items': lambda x: (K.wrap([x]), d.at(x))}[vk]
    x = z3.Const(c.fresh_name('x!comp'), K.sorts()[0])
    guard = z3.Select(dom, x)
    res = _eval_elem(kind, fn, wrap(x), x, guard)
    for cc, v, e in res:
        if e is not None:
            if c.branch(z3.Exists([x], z3.And(guard, cc))) if c.sub is None else True:
                raise e
    good = [(cc, v) for cc, v, e in res if e is None]
    if not good or all(len(v) == 0 for _, v in good):
        if not good:
            c.assume(dom == z3.K(K.sorts()[0], z3.BoolVal(False)))
        return {'set': set(), 'dict': {}}.get(kind, [])
    pres = z3.simplify(z3.Or(*[cc for cc, v in good if len(v) == 1])) if not all(len(v) for _, v in good) else z3.BoolVal(True)
    acc = None
    with c.over(x):
        for cc, v in good:
            if len(v) == 1:
                acc = v[0] if acc is None else ite(cc, v[0], acc)
    P = lambda t: z3.And(z3.Select(dom, t), z3.substitute(pres, (x, t)))
    ks = K.sorts()[0]
    if kind == 'dict':
        key, val = acc
        kt = K.unwrap(key)[0]
        if not kt.eq(x):
            raise Unsupported('dict comprehension whose key is not the iterated key')
        V = ty_of(val)
        nd = z3.Const(c.fresh_name('dom'), z3.ArraySort(ks, z3.BoolSort()))
        q = z3.Const(c.fresh_name('q!dc'), ks)
        if z3.is_true(z3.simplify(pres)):
            nd = dom
        else:
            c.assume(z3.ForAll([q], z3.Select(nd, q) == P(q), patterns=[z3.Select(nd, q)]))
        arrs = []
        with c.over(x):
            vts = V.unwrap(val)
        for t, s in builtins.zip(vts, V.sorts()):
            a = z3.Const(c.fresh_name('val'), z3.ArraySort(ks, s))
            c.assume(z3.ForAll([q], z3.Implies(P(q), z3.Select(a, q) == z3.substitute(t, (x, q))),
                               patterns=[z3.Select(a, q)]))
            arrs.append(a)
        return SymDict(DictTy(K, V), [nd] + arrs)
    if kind in ('set', 'list', 'gen'):
        try:
            V = ty_of(acc)
            vt = V.unwrap(acc)
        except Unsupported:
            V, vt = None, None
        if kind == 'set' or (vt is not None and len(vt) == 1 and vt[0].eq(x)):
            if V is not None and len(vt) == 1 and vt[0].eq(x):
                ns = z3.Const(c.fresh_name('sset'), z3.ArraySort(ks, z3.BoolSort()))
                q = z3.Const(c.fresh_name('q!sc'), ks)
                c.assume(z3.ForAll([q], z3.Select(ns, q) == P(q), patterns=[z3.Select(ns, q)]))
                if kind == 'set':
                    return SymSet(K, ns)
                return KeyedSeq(SymSet(K, ns), ks, ns, x, acc)
        if kind == 'set':
            raise Unsupported('set comprehension with a non-identity element over keys')
        nd = dom if z3.is_true(z3.simplify(pres)) else None
        if nd is None:
            nd = z3.Const(c.fresh_name('sset'), z3.ArraySort(ks, z3.BoolSort()))
            q = z3.Const(c.fresh_name('q!sc'), ks)
            c.assume(z3.ForAll([q], z3.Select(nd, q) == P(q), patterns=[z3.Select(nd, q)]))
        return KeyedSeq(SymSet(K, nd), ks, nd, x, acc)
    raise Unsupported('comprehension %s over keys' % kind)


class KeyedSeq:
    """A list built over the elements of a set (order unspecified): supports the builtin reducers, `in`,
    membership iteration through loop contracts is not offered."""
    def __init__(self, s, ks, dom, x, val):
        self.s, self.ks, self.dom, self.x, self.val = s, ks, dom, x, val

    plain = None        # the set whose elements are listed, for list(set) and list(dict)

    @property
    def __class__(self):
        return list

    def at(self, t):
        return subst(self.val, self.x, t)

    def __contains__(self, v):
        if self.plain is not None:
            return v in self.plain
        q = z3.Const(CTX.fresh_name('q!in'), self.ks)
        return CTX.branch(z3.Exists([q], z3.And(z3.Select(self.dom, q), eqf(self.at(q), v))))

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic list')

    ends = None         # its first and last elements, once asked for

    def __getitem__(self, i):
        if isinstance(i, Sym) or i not in (0, -1):
            raise Unsupported('element of a list in unspecified order')
        self.ends = self.ends or {}
        if i not in self.ends:
            if not self:
                raise IndexError('list index out of range')
            self.ends[i] = z3.Const(CTX.fresh_name('first' if i == 0 else 'last'), self.ks)
            CTX.assume(z3.Select(self.dom, self.ends[i]))
            if len(self.ends) == 2:
                # the same element exactly if it is the only one
                CTX.assume((self.ends[0] == self.ends[-1]) == (self.dom == z3.Store(z3.K(self.ks, z3.BoolVal(False)), self.ends[0], True)))
        return self.at(self.ends[i])

    def __bool__(self):
        return CTX.branch(self.dom != z3.K(self.ks, z3.BoolVal(False)))

    def __len__(self):
        raise Unsupported('native len')


# ----------------------------------------------------------------------------------------------- builtins
def card(dom):
    f = z3.Function('card_%s' % dom.sort().domain(), dom.sort(), z3.IntSort())
    t = f(dom)
    e = z3.K(dom.sort().domain(), z3.BoolVal(False))
    CTX.assume(z3.And(t >= 0, (t == 0) == (dom == e)))
    x, y = z3.Const('x!card', dom.sort().domain()), z3.Const('y!card', dom.sort().domain())
    CTX.assume((t == 1) == z3.Exists([x], dom == z3.Store(e, x, True)))
    return SymInt(t)


def b_len(x):
    if type(x) is SymSeq:
        return SymInt(x.n)
    if type(x) is SymDict:
        return card(x.terms[0])
    if type(x) is SymView:
        return card(x.d.terms[0])
    if type(x) is SymSet:
        return card(x.t)
    if type(x) is KeyedSeq:
        return card(x.dom)
    f = getattr(type(x), 'sym_len', None)      # containers defined by a contract
    return f(x) if f else builtins.len(x)


def _truth(v):
    if isinstance(v, (bool, SymBool)):
        return as_formula(v)
    n = num(v)
    if n is not None:
        return n != 0
    raise Unsupported('truth of %r' % (v,))


def b_all(x):
    if type(x) is SymSeq:
        i = z3.Int(CTX.fresh_name('i!all'))
        return SymBool(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < x.n), _truth(x.elem(i)))))
    if type(x) is KeyedSeq:
        q = z3.Const(CTX.fresh_name('q!all'), x.ks)
        return SymBool(z3.ForAll([q], z3.Implies(z3.Select(x.dom, q), _truth(x.at(q)))))
    return builtins.all(x)


def b_any(x):
    if type(x) is SymSeq:
        i = z3.Int(CTX.fresh_name('i!any'))
        return SymBool(z3.Exists([i], z3.And(i >= 0, i < x.n, _truth(x.elem(i)))))
    if type(x) is KeyedSeq:
        q = z3.Const(CTX.fresh_name('q!any'), x.ks)
        return SymBool(z3.Exists([q], z3.And(z3.Select(x.dom, q), _truth(x.at(q)))))
    return builtins.any(x)


def b_sum(x, start=0):
    if type(x) is SymSeq:
        if type(start) is int and start == 0:
            return PrefixSum(x).total()
        return PrefixSum(x).total() + start
    if type(x) is KeyedSeq or (type(x) is SymView and x.kind == 'values'):
        if type(x) is SymView:
            d = x.d.copy()
            q = z3.Const(CTX.fresh_name('q!sum'), d.ty.k)
            x = KeyedSeq(SymSet(d.ty.K, d.terms[0]), d.ty.k, d.terms[0], q, d.at(q))
        t = num(x.val)
        ss = keyed_sum(x, t)
        return mk(ss)
    if isinstance(x, Sym):
        raise Unsupported('sum')
    acc = start
    for e in x:
        acc = acc + e
    return acc


def keyed_sum(x, t):
    """sum over keys of dom of t(x): one function symbol per (key sort, value sort) over (dom, values array);
    extensionality of the array argument makes equal summands give equal sums."""
    f = z3.Function('KSum_%s_%s' % (x.ks, t.sort()), z3.ArraySort(x.ks, z3.BoolSort()), z3.ArraySort(x.ks, t.sort()),
                    t.sort())
    a = z3.Const(CTX.fresh_name('summand'), z3.ArraySort(x.ks, t.sort()))
    q = z3.Const(CTX.fresh_name('q!ks'), x.ks)
    zero = z3.IntVal(0) if t.sort() == z3.IntSort() else z3.RealVal(0)
    CTX.assume(z3.ForAll([q], z3.Select(a, q) == z3.If(z3.Select(x.dom, q), z3.substitute(t, (x.x, q)), zero),
                         patterns=[z3.Select(a, q)]))
    CTX.assume(f(z3.K(x.ks, z3.BoolVal(False)), a) == zero)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(t.arg(1)) and z3.is_int_value(t.arg(2)) and {t.arg(1).as_long(), t.arg(2).as_long()} == {0, 1}:
        # lemma: a sum of zeros and ones over a finite set is positive iff it has a one
        hit = lambda k: z3.And(z3.Select(x.dom, k), z3.substitute(t, (x.x, k)) == 1)
        w = z3.Const(CTX.fresh_name('one'), x.ks)
        CTX.assume(z3.And(f(x.dom, a) >= 0, z3.Implies(f(x.dom, a) > 0, hit(w))))
        CTX.assume(fa([q], z3.Implies(hit(q), f(x.dom, a) >= 1), z3.Select(x.dom, q)))
    return f(x.dom, a)


def _key_at(key, x, var, guard, none=False):
    """The key of an arbitrary element of a collection."""
    res = CTX.merge(lambda: num(key(x)), var, guard)
    for cc, v, e in res:
        if e is not None and CTX.branch(z3.Exists([var], z3.And(guard, cc))):
            raise e
    good = [(cc, v) for cc, v, e in res if e is None]
    if none and good and all(v is None for _, v in good):
        return None
    if not good or any(v is None for _, v in good):
        raise Unsupported('key of a minimum or maximum')
    acc = good[-1][1]
    for cc, v in reversed(good[:-1]):
        acc = z3.If(cc, *coerce2(v, acc))
    return acc


def _extreme(x, key, default, lt):
    """min/max over a symbolic collection."""
    c = CTX
    if type(x) is SymSeq:
        if not c.branch(x.n > 0):
            if default is not None:
                return default[0]
            raise ValueError('arg is an empty sequence')
        i = INT.fresh('ext')
        c.assume(z3.And(i.t >= 0, i.t < x.n))
        best = x.elem(i.t)
        j = z3.Int(c.fresh_name('j!ext'))
        kb = key(best) if key else best
        kj = _key_at(key, x.elem(j), j, z3.And(j >= 0, j < x.n)) if key else num(x.elem(j))
        a, b = coerce2(num(kb), kj)
        top = z3.Const(c.fresh_name('ext!v'), a.sort())
        c.assume(top == a)                                        # a ground occurrence of the extreme value, for triggers
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < x.n), z3.And(z3.Not(lt(b, a)), z3.Implies(j < i.t, b != a)))))
        return best
    if type(x) in (KeyedSeq, SymSet) or type(x) is SymView or type(x) is SymDict:
        if type(x) is SymDict:
            x = x.keys()
        if type(x) is SymView:
            d = x.d.copy()
            q = z3.Const(c.fresh_name('q!ext'), d.ty.k)
            val = {'keys': lambda: d.ty.K.wrap([q]), 'values': lambda: d.at(q)}[x.kind]()
            x = KeyedSeq(None, d.ty.k, d.terms[0], q, val)
        if type(x) is SymSet:
            q = z3.Const(c.fresh_name('q!ext'), x.k)
            x = KeyedSeq(x, x.k, x.t, q, x.K.wrap([q]))
        if not c.branch(x.dom != z3.K(x.ks, z3.BoolVal(False))):
            if default is not None:
                return default[0]
            raise ValueError('arg is an empty sequence')
        q = z3.Const(c.fresh_name('best'), x.ks)
        c.assume(z3.Select(x.dom, q))
        best = x.at(q)
        r = z3.Const(c.fresh_name('r!ext'), x.ks)
        kb = key(best) if key else best
        kr = _key_at(key, x.at(r), r, z3.Select(x.dom, r)) if key else num(x.at(r))
        a, b = coerce2(num(kb), kr)
        c.assume(z3.ForAll([r], z3.Implies(z3.Select(x.dom, r), z3.Not(lt(b, a)))))
        return best
    return None


_NO = object()


def _minmax(native, lt):
    def f(*args, key=None, default=_NO):
        if len(args) == 1:
            x = args[0]
            if _is_sym(x) or type(x) is KeyedSeq:
                return _extreme(x, key, None if default is _NO else (default,), lt)
            items = list(x)
        else:
            items = list(args)
        if not any(isinstance(e, Sym) for e in items) and key is None:
            kw = {} if default is _NO else {'default': default}
            return native(items, **kw) if len(args) == 1 else native(*args)
        if not items:
            if default is _NO:
                raise ValueError('empty')
            return default
        best = items[0]
        kb = key(best) if key else best
        for e in items[1:]:
            ke = key(e) if key else e
            na, nb = num(ke), num(kb)
            if key is None and na is not None and nb is not None:
                a, b = coerce2(na, nb)
                best = kb = mk(z3.If(lt(a, b), a, b))
            else:
                if (ke < kb) if native is builtins.min else (ke > kb):
                    best, kb = e, ke
        return best
    return f


b_min = _minmax(builtins.min, lambda a, b: a < b)
b_max = _minmax(builtins.max, lambda a, b: a > b)


def b_range(*a):
    if any(isinstance(x, Sym) for x in a):
        a = [num(x) for x in a]
        if len(a) == 1:
            lo, hi = z3.IntVal(0), a[0]
        elif len(a) == 2:
            lo, hi = a
        else:
            raise Unsupported('range step')
        if z3.is_int_value(lo) and lo.as_long() == 0:
            return SymSeq(z3.If(hi > 0, hi, 0), lambda j: SymInt(j), INT)
        return SymSeq(z3.If(hi > lo, hi - lo, 0), lambda j: SymInt(lo + j), INT)
    return builtins.range(*a)


def b_enumerate(x, start=0):
    if type(x) is SymSeq:
        e = x.elem
        return SymSeq(x.n, lambda j: (SymInt(j + start), e(j)))
    if _is_sym(x):
        raise Unsupported('enumerate over unordered symbolic collection')
    return builtins.enumerate(x, start)


def b_zip(*xs, **kw):
    if any(type(x) is SymSeq for x in xs):
        xs = [to_seq(x if type(x) is SymSeq else list(x)) for x in xs]
        n = xs[0].n
        for x in xs[1:]:
            n = z3.If(x.n < n, x.n, n)
        return SymSeq(n, lambda j: tuple(x.elem(j) for x in xs))
    if any(_is_sym(x) for x in xs):
        raise Unsupported('zip over unordered symbolic collection')
    return builtins.zip(*xs, **kw)


def b_list(x=(), cls=list):
    if type(x) is SymSeq:
        r = x.copy()
        r.cls = cls
        return r
    if type(x) is KeyedSeq:
        return x
    if type(x) is SymSet:
        q = z3.Const(CTX.fresh_name('q!l'), x.k)
        r = KeyedSeq(x.copy(), x.k, x.t, q, x.K.wrap([q]))
        r.plain = x.copy()
        return r
    if type(x) is SymDict:
        x = x.keys()
    if type(x) is SymView:
        d = x.d.copy()
        q = z3.Const(CTX.fresh_name('q!l'), d.ty.k)
        val = {'keys': lambda: d.ty.K.wrap([q]), 'values': lambda: d.at(q),
               'items': lambda: (d.ty.K.wrap([q]), d.at(q))}[x.kind]()
        r = KeyedSeq(SymSet(d.ty.K, d.terms[0]), d.ty.k, d.terms[0], q, val)
        if x.kind == 'keys':
            r.plain = SymSet(d.ty.K, d.terms[0])
        return r
    return cls(x)


def b_set(x=()):
    if type(x) is SymSet:
        return x.copy()
    if type(x) is SymDict:
        return SymSet(x.ty.K, x.terms[0])
    if type(x) is SymView and x.kind == 'keys':
        return SymSet(x.d.ty.K, x.d.terms[0])
    if type(x) is SymSeq:
        if x.V is None:
            x.V = ty_of(x.elem(z3.Int('p')))
        return SymSet(x.V, seq_set(x, x.V))
    if type(x) is KeyedSeq:
        t = ty_of(x.val)
        if len(t.sorts()) == 1 and t.unwrap(x.val)[0].eq(x.x):
            return SymSet(t, x.dom)
        if len(t.sorts()) != 1:
            raise Unsupported('set of mapped keyed list')
        v = t.unwrap(x.val)[0]
        a, q = z3.Const(CTX.fresh_name('set'), z3.ArraySort(v.sort(), z3.BoolSort())), z3.Const('q!ks', x.ks)
        w, y = z3.Function(CTX.fresh_name('setw'), v.sort(), x.ks), z3.Const('y!ks', v.sort())
        at = lambda k: z3.substitute(v, (x.x, k))
        pats = [p for p in _direct(at(q), q)[:1]] or [z3.Select(x.dom, q)]
        CTX.assume(fa([q], z3.Implies(z3.Select(x.dom, q), z3.Select(a, at(q))), *pats))
        CTX.assume(fa([y], z3.Implies(z3.Select(a, y), z3.And(z3.Select(x.dom, w(y)), at(w(y)) == y)), z3.Select(a, y)))
        return SymSet(t, a)
    return builtins.set(x)


def b_dict(*a, **kw):
    if len(a) == 1 and type(a[0]) is SymDict and not kw:
        return a[0].copy()
    return builtins.dict(*a, **kw)


def b_abs(x): return abs(x)


def b_int(x=0, *a):
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return SymInt(num(x))
    if type(x) is SymReal:
        return SymInt(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
    return builtins.int(x, *a)


def b_float(x=0.0):
    if type(x) is SymReal:
        return x
    if type(x) in (SymInt, SymBool):
        return SymReal(z3.ToReal(num(x)))
    return builtins.float(x)


def b_bool(x=False):
    if isinstance(x, Sym) and type(x) is SymBool:
        return x
    return builtins.bool(x)


def b_iter(x):
    if _is_sym(x):
        return LazyIter(x)
    return builtins.iter(x)


class LazyIter:
    def __init__(self, x):
        self.x = x


def b_next(it, *d):
    if type(it) is LazyIter:
        x = it.x
        if type(x) is SymSeq:
            if CTX.branch(x.n > 0):
                return x.elem(z3.IntVal(0))
        else:
            dd = x if type(x) is SymDict else (x.d if type(x) is SymView else None)
            dom = dd.terms[0] if dd is not None else x.t
            if CTX.branch(dom != z3.K(dom.sort().domain(), z3.BoolVal(False))):
                q = z3.Const(CTX.fresh_name('first'), dom.sort().domain())
                CTX.assume(z3.Select(dom, q))
                if type(x) is SymSet:
                    return x.K.wrap([q])
                if type(x) is SymDict or x.kind == 'keys':
                    return dd.ty.K.wrap([q])
                return dd.at(q) if x.kind == 'values' else (dd.ty.K.wrap([q]), dd.at(q))
        if d:
            return d[0]
        raise StopIteration
    return builtins.next(it, *d)


def b_sorted(x, *, key=None, reverse=False):
    if _is_sym(x) or type(x) is KeyedSeq:
        return sorted_sym(x, key, reverse)
    return builtins.sorted(x, key=key, reverse=reverse)


def sorted_sym(x, key, reverse):
    """sorted(): an arbitrary permutation of x ordered by key."""
    c = CTX
    if type(x) is SymSeq:
        n = x.n
        p = z3.Function(c.fresh_name('perm'), z3.IntSort(), z3.IntSort())
        pi = z3.Function(c.fresh_name('perminv'), z3.IntSort(), z3.IntSort())
        i, j = z3.Int('i!so'), z3.Int('j!so')
        rng = lambda t: z3.And(t >= 0, t < n)
        c.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(p(i)), pi(p(i)) == i)), patterns=[p(i)]))
        e = x.elem
        try:
            seen = [t for v in terms_of(e(i)) for t in _direct(v, i)][:2]      # any mention of an element of x locates it in the result
        except Unsupported:
            seen = []
        c.assume(fa([i], z3.Implies(rng(i), z3.And(rng(pi(i)), p(pi(i)) == i)), pi(i), *seen))
        out = SymSeq(n, lambda k: e(p(k)), x.V)
        out.perm, out.perminv, out.src = p, pi, x
        ka, kb = (_key_at(key, out.elem(l), l, rng(l), True) if key else num(out.elem(l)) for l in (i, j))
        if ka is None:
            raise Unsupported('sorted by a non-numeric key')
        le = (ka >= kb) if reverse else (ka <= kb)
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), le), patterns=[z3.MultiPattern(p(i), p(j))]))
        return out
    if type(x) is SymDict or type(x) is SymView and x.kind == 'keys':
        d = x if type(x) is SymDict else x.d
        x = SymSet(d.ty.K, d.terms[0])
    if type(x) is SymSet and len(x.K.sorts()) == 1:
        ks, dom, K = x.K.sorts()[0], x.t, x.K
        n = num(card(dom))
        p, at = z3.Function(c.fresh_name('perm'), z3.IntSort(), ks), z3.Function(c.fresh_name('perminv'), ks, z3.IntSort())
        i, j, k = z3.Int('i!so'), z3.Int('j!so'), z3.Const('k!so', ks)
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(dom, p(i)), at(p(i)) == i)), patterns=[p(i)]))
        c.assume(fa([k], z3.Implies(z3.Select(dom, k), z3.And(0 <= at(k), at(k) < n, p(at(k)) == k)), at(k), *([z3.Select(dom, k)] if _pattern(dom) else [])))
        out = SymSeq(n, lambda l: K.wrap([p(l if isinstance(l, z3.ExprRef) else z3.IntVal(l))]), K)
        ka, kb = (_key_at(key, out.elem(l), l, z3.And(0 <= l, l < n), True) if key else num(out.elem(l)) for l in (i, j))
        if ka is not None:          # otherwise (strings) the order is left open
            le = (ka >= kb) if reverse else (ka <= kb)
            c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), le), patterns=[z3.MultiPattern(p(i), p(j))]))
        return out
    raise Unsupported('sorted over a symbolic set')


def b_map(f, *xs):
    if len(xs) == 1 and _is_sym(xs[0]):
        return comp('list', xs[0], lambda s: [f(v) for v in s], 'map', 1)
    return builtins.map(f, *xs)


def b_reversed(x):
    if type(x) is SymSeq:
        e, n = x.elem, x.n
        return SymSeq(n, lambda j: e(n - 1 - j), x.V)
    return builtins.reversed(x)


MAP = {builtins.len: b_len, builtins.sum: b_sum, builtins.any: b_any, builtins.all: b_all, builtins.min: b_min,
       builtins.max: b_max, builtins.range: b_range, builtins.enumerate: b_enumerate, builtins.zip: b_zip,
       builtins.list: b_list, builtins.tuple: lambda x=(): b_list(x, tuple), builtins.set: b_set,
       builtins.frozenset: b_set, builtins.dict: b_dict, builtins.int: b_int, builtins.float: b_float,
       builtins.bool: b_bool, builtins.iter: b_iter, builtins.next: b_next, builtins.sorted: b_sorted,
       builtins.map: b_map, builtins.reversed: b_reversed}
CTORS = {}     # class -> symbolic-aware constructor (deque subclasses)


class Hooks:
    def bi(self, f):
        if CTX is None:
            return f
        try:
            return MAP.get(f) or CTORS.get(f) or f
        except TypeError:
            return f

    def zipstar(self, z, x):
        if CTX is None or type(x) is not SymSeq:
            return z(*x)
        if not CTX.branch(x.n > 0):
            return z()
        w = x.elem(z3.IntVal(0))
        if type(w) is not tuple:
            raise Unsupported('zip(*x) of non-tuples')
        e = x.elem
        return [SymSeq(x.n, lambda j, i=i: e(j)[i], None, tuple) for i in builtins.range(len(w))]

    def loop(self, it, lid, bound, mut, args=(), targets=()):
        return Loop(it, lid, bound, mut, args, targets)

    def wloop(self, lid, bound, mut, args=()):
        return WLoop(lid, bound, mut, args)

    def comp(self, kind, it, fn, lid, ngen):
        return comp(kind, it, fn, lid, ngen)


HOOKS = Hooks()
Hooks.own_errors = (Unsupported, PathEnd, z3.Z3Exception)


# --------------------------------------------------------------------------------------- contract helpers
def func(name, *tys, ret=OBJ):
    """An arbitrary (uninterpreted) pure function usable from python: f(*args) -> proxy."""
    sorts = [s for t in tys for s in t.sorts()]
    fs = [z3.Function('%s.%d' % (name, i) if i else name, *(sorts + [s])) for i, s in enumerate(ret.sorts())]

    def call(*args):
        terms = [x for t, a in builtins.zip(tys, args) for x in t.unwrap(a)]
        ts = [f(*terms) if terms else z3.Const(f.name(), f.range()) for f in fs]
        v = ret.wrap(ts)
        for w in ret.wf(ts):
            CTX.assume(w)
        return v
    call.decls = fs
    return call


def fa(xs, body, *pats):
    """ForAll with the patterns that z3 accepts."""
    xs = xs if isinstance(xs, (list, tuple)) else [xs]
    ps = [p for p in pats if all(_pattern(t) for t in (p if isinstance(p, (list, tuple)) else [p]))]
    return z3.ForAll(xs, body, patterns=[z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in ps]) if ps else z3.ForAll(xs, body)


def Implies(a, b): return z3.Implies(as_formula(a), as_formula(b))
def And(*a): return z3.And(*[as_formula(x) for x in a]) if a else z3.BoolVal(True)
def Or(*a): return z3.Or(*[as_formula(x) for x in a]) if a else z3.BoolVal(False)
def Not(a): return z3.Not(as_formula(a))
def Iff(a, b): return as_formula(a) == as_formula(b)
