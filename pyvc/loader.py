"""Mechanical extraction: every skdecide module is loaded from /repo's current source text through
this import hook, on every run.  The AST rewriting below is the *only* difference between the code
that runs and the code that is verified:

  R1  for-loops      `for T in E: B else: O`  ->  the same loop over `__pyvc__.loop(E)`, preceded by a
                      re-binding of the names B assigns (used for havoc when E is symbolic) and with an
                      end-of-iteration hook; on a concrete E both hooks are the identity.
  R2  while-loops     `while C: B`  ->  `while __pyvc__.wstep(..) and C: B` plus the same re-binding
                      (active only when a loop contract covers the function).
  R3  comprehensions  `[e for x in E if c]` -> `__pyvc__.comp(kind, E, lambda s: [e for x in s if c])`
                      (on a concrete E: call the lambda on E).
  R4  calls of the builtins in BUILTINS by plain name are dispatched through `__pyvc__.bi`, which is the
                      identity unless an argument is symbolic.

  R5  `zip(*x)`        ->  `__pyvc__.zipstar(zip, x)` (the transposition; native on a concrete x).
  R6  `try: B except E: H` gets a first handler that passes the verifier's own exceptions on (they are not
                      raised in ordinary executions), so that a broad `except` cannot hide an unsupported step.

Nothing is dropped: type hints, decorators, closures, inheritance and imports are executed by CPython.
`functools.lru_cache` is kept, but every cache is cleared between symbolic paths."""
import ast, importlib.abc, importlib.machinery, importlib.util, os, sys, functools

REPO = os.environ.get('VERIF_REPO', '/repo')
BUILTIN_FUNCTIONS = {'min', 'max', 'sum', 'len', 'any', 'all', 'sorted'}
BUILTINS = {'isinstance', 'len', 'sum', 'any', 'all', 'min', 'max', 'sorted', 'list', 'tuple', 'set', 'dict', 'frozenset',
            'range', 'enumerate', 'zip', 'map', 'filter', 'int', 'float', 'abs', 'round', 'next', 'iter',
            'reversed', 'Memory', 'deque', 'bool', 'hash', 'StrDict'}
MUTATORS = {'append', 'extend', 'add', 'update', 'pop', 'remove', 'discard', 'insert', 'clear', 'popleft',
            'appendleft', 'sort', 'setdefault', 'popitem', 'difference_update', 'intersection_update'}


def _targets(t, acc):
    if isinstance(t, ast.Name):
        acc.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            _targets(e, acc)
    elif isinstance(t, ast.Starred):
        _targets(t.value, acc)


def _root(t):
    while isinstance(t, (ast.Subscript, ast.Attribute)):
        if isinstance(t, ast.Attribute):
            return None
        t = t.value
    return t.id if isinstance(t, ast.Name) else None


def assigned(body):
    """Names (re)bound in a loop body, and local names whose container is mutated in place."""
    bound, mut = set(), set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            bound.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ClassDef(self, n):
            bound.add(n.name)

        def visit_Assign(self, n):
            for t in n.targets:
                self._t(t)
            self.visit(n.value)

        def _t(self, t):
            if isinstance(t, ast.Subscript):
                r = _root(t)
                if r:
                    mut.add(r)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    self._t(e)
            else:
                _targets(t, bound)

        def visit_AugAssign(self, n):
            self._t(n.target)
            self.visit(n.value)

        def visit_AnnAssign(self, n):
            if n.value is not None:
                self._t(n.target)
                self.visit(n.value)

        def visit_For(self, n):
            _targets(n.target, bound)
            self.generic_visit(n)

        def visit_With(self, n):
            for i in n.items:
                if i.optional_vars is not None:
                    _targets(i.optional_vars, bound)
            self.generic_visit(n)

        def visit_NamedExpr(self, n):
            _targets(n.target, bound)
            self.visit(n.value)

        def visit_Delete(self, n):
            for t in n.targets:
                r = _root(t)
                if r:
                    mut.add(r)

        def visit_Call(self, n):
            if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                r = _root(n.func.value)
                if r:
                    mut.add(r)
            self.generic_visit(n)

    v = V()
    for s in body:
        v.visit(s)
    return bound, mut


def _has(node, kinds):
    return any(isinstance(x, kinds) for x in ast.walk(node))


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.infn = 0
        self.n = 0
        self.globals_ = [set()]
        self.locals_ = [set()]

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        inf, self.infn = self.infn, 0
        n.body = [self.visit(s) for s in n.body]
        self.infn = inf
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.infn += 1
        g = set()
        for s in ast.walk(n):
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                g |= set(s.names)
        self.globals_.append(g)
        a = n.args
        self.locals_.append({x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
                            | assigned(n.body)[0])
        out = []
        for s in n.body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        n.body = out
        self.globals_.pop()
        self.locals_.pop()
        self.infn -= 1
        self.stack.pop()
        return n

    def visit_Lambda(self, n):
        self.infn += 1
        self.generic_visit(n)
        self.infn -= 1
        return n

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def _loop_id(self, n):
        return '%s:%s:%d' % (self.mod, '.'.join(self.stack), n.lineno)

    def _call(self, attr, *args):
        return ast.Call(func=ast.Attribute(value=ast.Name('__pyvc__', ast.Load()), attr=attr, ctx=ast.Load()),
                        args=list(args), keywords=[])

    def _locals(self):
        return ast.Call(func=ast.Name('__pyvc_locals__', ast.Load()), args=[], keywords=[])

    def _frame(self, body):
        """Names bound in a loop body, local containers mutated there, and local names handed to calls there."""
        bound, mut = assigned(body)
        args = {x.id for s in body for c in ast.walk(s) if isinstance(c, ast.Call) for x in c.args if isinstance(x, ast.Name)}
        return bound, (mut & self.locals_[-1]) - bound, (args & self.locals_[-1]) - mut - bound

    def visit_For(self, n):
        n.iter = self.visit(n.iter)
        if not self.infn or _has(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            n.body = self._body(n.body)
            n.orelse = self._body(n.orelse)
            return n
        bound, mut, args = self._frame(n.body)
        targets = set()
        _targets(n.target, targets)
        names = sorted((bound | mut | args | targets) - self.globals_[-1])
        n.body = self._body(n.body)
        n.orelse = self._body(n.orelse)
        self.n += 1
        lv = '__lp%d' % self.n
        pre = [ast.Assign(targets=[ast.Name(lv, ast.Store())],
                          value=self._call('loop', n.iter, ast.Constant(self._loop_id(n)),
                                           ast.Constant(tuple(sorted(bound))), ast.Constant(tuple(sorted(mut))), ast.Constant(tuple(sorted(args))),
                                           ast.Constant(tuple(sorted(targets - bound)))))]
        rebinding = [ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(lv, ast.Load()), attr='enter', ctx=ast.Load()),
                                       args=[self._locals()], keywords=[]))]
        for nm in names:
            rebinding.append(ast.If(
                test=ast.Call(func=ast.Attribute(value=ast.Name(lv, ast.Load()), attr='has', ctx=ast.Load()),
                              args=[ast.Constant(nm)], keywords=[]),
                body=[ast.Assign(targets=[ast.Name(nm, ast.Store())], value=ast.Call(
                    func=ast.Attribute(value=ast.Name(lv, ast.Load()), attr='val', ctx=ast.Load()),
                    args=[ast.Constant(nm)], keywords=[]))], orelse=[]))
        pre.append(ast.If(test=ast.Attribute(value=ast.Name(lv, ast.Load()), attr='sym', ctx=ast.Load()),
                          body=rebinding, orelse=[]))
        end = ast.If(test=ast.Attribute(value=ast.Name(lv, ast.Load()), attr='sym', ctx=ast.Load()),
                     body=[ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(lv, ast.Load()), attr='end', ctx=ast.Load()),
                                             args=[self._locals()], keywords=[]))], orelse=[])
        new = ast.For(target=n.target, iter=ast.Name(lv, ast.Load()), body=n.body, orelse=[end] + n.orelse)
        return [ast.copy_location(s, n) for s in pre] + [ast.copy_location(new, n)]

    def visit_While(self, n):
        n.test = self.visit(n.test)
        if not self.infn or _has(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            n.body = self._body(n.body)
            n.orelse = self._body(n.orelse)
            return n
        bound, mut, args = self._frame(n.body)
        names = sorted((bound | mut | args) - self.globals_[-1])
        n.body = self._body(n.body)
        n.orelse = self._body(n.orelse)
        self.n += 1
        lv = '__lp%d' % self.n
        pre = [ast.Assign(targets=[ast.Name(lv, ast.Store())],
                          value=self._call('wloop', ast.Constant(self._loop_id(n)),
                                           ast.Constant(tuple(sorted(bound))), ast.Constant(tuple(sorted(mut))), ast.Constant(tuple(sorted(args)))))]
        rebinding = [ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(lv, ast.Load()), attr='enter', ctx=ast.Load()),
                                       args=[self._locals()], keywords=[]))]
        for nm in names:
            rebinding.append(ast.If(
                test=ast.Call(func=ast.Attribute(value=ast.Name(lv, ast.Load()), attr='has', ctx=ast.Load()),
                              args=[ast.Constant(nm)], keywords=[]),
                body=[ast.Assign(targets=[ast.Name(nm, ast.Store())], value=ast.Call(
                    func=ast.Attribute(value=ast.Name(lv, ast.Load()), attr='val', ctx=ast.Load()),
                    args=[ast.Constant(nm)], keywords=[]))], orelse=[]))
        pre.append(ast.If(test=ast.Attribute(value=ast.Name(lv, ast.Load()), attr='sym', ctx=ast.Load()),
                          body=rebinding, orelse=[]))
        step = ast.Call(func=ast.Attribute(value=ast.Name(lv, ast.Load()), attr='step', ctx=ast.Load()),
                        args=[self._locals()], keywords=[])
        new = ast.While(test=ast.BoolOp(op=ast.And(), values=[step, n.test]), body=n.body, orelse=n.orelse)
        return [ast.copy_location(s, n) for s in pre] + [ast.copy_location(new, n)]

    def _stmts(self, n, fields):
        for f in fields:
            v = getattr(n, f)
            setattr(n, f, self._body(v))
        return n

    def visit_If(self, n):
        n.test = self.visit(n.test)
        return self._stmts(n, ('body', 'orelse'))

    def visit_With(self, n):
        n.items = [self.visit(i) for i in n.items]
        return self._stmts(n, ('body',))

    def visit_Try(self, n):
        n.handlers = [self.visit(h) for h in n.handlers]
        if self.infn and any(h.type is None or isinstance(h.type, ast.Name) and h.type.id in ('Exception', 'BaseException') for h in n.handlers):
            own = ast.ExceptHandler(type=ast.Attribute(ast.Name('__pyvc__', ast.Load()), 'own_errors', ast.Load()), name=None, body=[ast.Raise()])
            n.handlers.insert(0, ast.copy_location(own, n.handlers[0]))
        return self._stmts(n, ('body', 'orelse', 'finalbody'))

    def visit_ExceptHandler(self, n):
        return self._stmts(n, ('body',))

    # comprehensions -----------------------------------------------------------------------------
    def _comp(self, n, kind):
        if not self.infn or _has(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) or any(
                g.is_async for g in n.generators) or any(
                isinstance(x, ast.Name) and x.id in ('super', 'locals') for x in ast.walk(n)):
            return n
        first = n.generators[0]
        it = self.visit(first.iter)
        # rewrite the inside (nested comprehensions / builtins), but keep generators[1:] iterables native
        for g in n.generators:
            g.ifs = [self.visit(c) for c in g.ifs]
        for g in n.generators[1:]:
            g.iter = self.visit(g.iter)
        if kind == 'dict':
            n.key = self.visit(n.key)
            n.value = self.visit(n.value)
        else:
            n.elt = self.visit(n.elt)
        self.n += 1
        arg = '__s%d' % self.n
        first.iter = ast.Name(arg, ast.Load())
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg)], kwonlyargs=[], kw_defaults=[],
                                            defaults=[]), body=n)
        return ast.copy_location(self._call('comp', ast.Constant(kind), it, lam,
                                            ast.Constant(self._loop_id(n)), ast.Constant(len(n.generators))), n)

    def visit_ListComp(self, n):
        return self._comp(n, 'list')

    def visit_SetComp(self, n):
        return self._comp(n, 'set')

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'gen')

    def visit_DictComp(self, n):
        return self._comp(n, 'dict')

    def visit_Name(self, n):
        """A builtin function used as a value (f = max)."""
        if self.infn and isinstance(n.ctx, ast.Load) and n.id in BUILTIN_FUNCTIONS:
            return ast.copy_location(self._call('bi', n), n)
        return n

    def visit_Call(self, n):
        f = n.func
        self.generic_visit(n)
        if isinstance(f, ast.Name):
            n.func = f
        if self.infn and isinstance(n.func, ast.Name) and n.func.id == 'zip' and len(n.args) == 1 and \
                isinstance(n.args[0], ast.Starred) and not n.keywords:
            return ast.copy_location(self._call('zipstar', n.func, n.args[0].value), n)
        if self.infn and isinstance(n.func, ast.Name) and n.func.id in BUILTINS:
            n.func = ast.copy_location(self._call('bi', n.func), n.func)
        return n


def transform(source, path, modname):
    tree = ast.parse(source, path)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        SOURCES[fullname] = path
        return compile(transform(src, path, fullname), path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        from . import engine
        module.__dict__['__pyvc__'] = engine.HOOKS
        module.__dict__['__pyvc_locals__'] = locals
        super().exec_module(module)


SOURCES = {}


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != 'skdecide' and not fullname.startswith('skdecide.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path if path is not None else [REPO])
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


CACHES = []
_real_lru = functools.lru_cache


def _lru(maxsize=128, typed=False):
    def reg(f):
        CACHES.append(f)
        return f
    if callable(maxsize) and isinstance(typed, bool):
        return reg(_real_lru(128, typed)(maxsize))
    dec = _real_lru(maxsize, typed)
    return lambda fn: reg(dec(fn))


def install():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.meta_path.insert(0, Finder())
    functools.lru_cache = _lru
