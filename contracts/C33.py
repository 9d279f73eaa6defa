"""Conversions between scheduling domains and project models."""
from pyvc.contract import Registry
from pyvc import engine
from pyvc.engine import *
import skdecide.hub.domain.rcpsp.rcpsp_sk as sk
import skdecide.hub.solver.do_solver.sk_to_do_binding as sb
import skdecide.builders.scheduling.scheduling_domains as sd
import skdecide.builders.discrete_optimization.rcpsp.rcpsp_model as rm
import skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill as ms
from skdecide.builders.scheduling.modes import ConstantModeConsumption

CONTRACTS = contract = Registry()
MBQI, FEAS_MS, TIMEOUT_MS = False, 500, 8000
K, B = 'skdecide.hub.domain.rcpsp.rcpsp_sk:', 'skdecide.hub.solver.do_solver.sk_to_do_binding:'
M = 'skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill:'
ASSUMPTIONS = ['needs are constant over time (what these models can express); every task has mode 1 in the single-mode domains',
               'initialize_domain (C20) is replaced by a record of the call; the model constructors called by build_do_domain, which store their arguments, by a record of them',
               'collections of resource names are sets without order']
Sel, Sto = z3.Select, z3.Store
U = engine.U
ZI, ZB = z3.IntSort(), z3.BoolSort()
I = lambda n: z3.Int(n + '!k')
X = lambda n: z3.Const(n + '!u', U)


class Stub:
    __module__ = 'skdecide.stub'
    def __init__(self, **kw): self.__dict__.update(kw)


class OneTy(engine.Ty):
    """a list of one number"""
    def sorts(self): return [ZI]
    def wrap(self, ts, wb=None): return [SymInt(ts[0])]

    def unwrap(self, v):
        if type(v) is list and len(v) == 1:
            return INT.unwrap(v[0])
        raise Unsupported('list of one number')


NEED = DictTy(OBJ, OneTy())


class ModeTy(engine.Ty):
    """A ConstantModeConsumption; what is written into its table is written back to where it is stored."""
    def sorts(self): return NEED.sorts()

    def wrap(self, ts, wb=None):
        o = object.__new__(ConstantModeConsumption)
        o.mode_details = NEED.wrap(ts, wb)
        return o

    def unwrap(self, v):
        if type(v) is not ConstantModeConsumption:
            raise Unsupported('mode')
        return NEED.unwrap(v.mode_details)


MODES = DictTy(INT, DictTy(INT, ModeTy()))
DUR = DictTy(INT, DictTy(INT, INT))
DETAIL = DictTy(INT, DictTy(INT, DictTy(OBJ, INT)))
SUCC = DictTy(INT, SeqTy(INT))


class Table:
    """Three levels of dictionaries, as functions."""
    def __init__(self, ts):
        self.D, self.d, self.has_, self.val_ = (ts + [None] * 4)[:4]

    def T(self, t): return Sel(self.D, t)
    def M(self, t, m): return Sel(Sel(self.d, t), m)
    def R(self, t, m, r): return Sel(Sel(Sel(self.has_, t), m), r)
    def V(self, t, m, r): return Sel(Sel(Sel(self.val_, t), m), r)
    def dur(self, t, m): return Sel(Sel(self.has_, t), m)           # for two levels


t, m, r = I('task'), I('mode'), X('resource')


def progress(lp, st):
    """Which tasks, modes and resources the loops have dealt with; the loops are nested, outermost first."""
    depth = st['depth'](lp)
    if lp.phase in ('assume', 'establish', 'preserve'):
        st[depth] = lp
    seen = [st[d].visited if d <= depth else None for d in range(3)]
    cur = [None, None]
    for d in range(depth):
        cur[d] = num(st['cur%d' % d](lp))
    return depth, seen, cur


def filled(c, lp, depth, cur, src, name):
    """(task dealt with, mode dealt with, resource dealt with) of the output so far."""
    v = lp.visited
    if depth == 0:
        vt = lambda t: Sel(v, t)
        return vt, (lambda t, m: src.M(t, m)), (lambda t, m, r: z3.BoolVal(True))
    vt = lambda t: z3.Or(Sel(name[0], t), t == cur[0])
    if depth == 1:
        return vt, (lambda t, m: z3.If(t == cur[0], Sel(v, m), src.M(t, m))), (lambda t, m, r: z3.BoolVal(True))
    here = lambda t, m: z3.And(t == cur[0], m == cur[1])
    return vt, (lambda t, m: z3.If(t == cur[0], z3.Or(Sel(name[1], m), m == cur[1]), src.M(t, m))), (lambda t, m, r: z3.Implies(here(t, m), Sel(v, r)))


# ------------------------------------------------------------------------------------------ domains from tables
KINDS = [sk.MRCPSP, sk.MRCPSPCalendar, sk.SMRCPSPCalendar, sk.MSRCPSP, sk.MSRCPSPCalendar, sk.RCPSP, sk.RCPSPCalendar]


@contract('a domain has the needs, durations and quantities it is built from', *[K + k.__name__ + '.' + f for k in KINDS for f in ('__init__',)],
          K + 'MRCPSP._get_task_duration', K + 'MRCPSP._get_tasks_modes', K + 'MRCPSP._get_original_quantity_resource', K + 'MRCPSPCalendar._get_quantity_resource')
def _(c):
    cls = c.case('kind of domain', KINDS)
    skill = cls in (sk.MSRCPSP, sk.MSRCPSPCalendar)
    cal = 'Calendar' in cls.__name__
    names = SetTy(OBJ).fresh('resource names')
    skills = SetTy(OBJ).fresh('skills')
    tm = DETAIL.fresh('tasks_mode')
    T0 = Table(DETAIL.unwrap(tm))
    dur = lift('duration')
    c.assume(fa([t, m], z3.Implies(z3.And(T0.T(t), T0.M(t, m)), T0.R(t, m, dur)), T0.M(t, m)))
    if cls in (sk.RCPSP, sk.RCPSPCalendar):
        c.assume(fa([t], z3.Implies(T0.T(t), T0.M(t, 1)), T0.T(t)))
    started = []

    class Dom(cls):
        __module__ = 'skdecide.stub'
        def initialize_domain(self): started.append(self)
    d = object.__new__(Dom)
    outer = {}
    named, skilled = (lambda x: Sel(names.t, x)), (lambda x: Sel(skills.t, x))

    def inv(lp):
        depth = 0 if lp.coll is tm or type(lp.coll) is SymDict and lp.coll.ty is DETAIL else 1 if type(lp.coll) is SymDict and lp.coll.ty is DETAIL.V else 2
        L = lp.locals
        cur = [num(L['task']) if depth else None, num(L['mode']) if depth > 1 else None]
        if depth < 2:
            outer[depth] = lp.visited if lp.phase == 'assume' else outer.get(depth)
        name = [outer.get(0), outer.get(1)]
        vt, vm, vr = filled(c, lp, depth, cur, T0, name)
        P = Table(MODES.unwrap(d.task_mode_dict))
        D = Table(DUR.unwrap(d.duration_dict))
        timed = (lambda t, m: z3.And(vm(t, m), z3.Not(z3.And(t == cur[0], m == cur[1])))) if depth == 2 else vm
        out = [('tasks so far', fa([t], z3.And(P.T(t) == vt(t), D.T(t) == vt(t)), P.T(t), D.T(t))),
               ('modes so far', fa([t, m], z3.Implies(vt(t), z3.And(P.M(t, m) == vm(t, m), D.M(t, m) == timed(t, m))), P.M(t, m), D.M(t, m))),
               ('needs so far', fa([t, m, r], z3.Implies(z3.And(vt(t), vm(t, m)), P.R(t, m, r) == z3.And(T0.R(t, m, r), named(r), vr(t, m, r))), P.R(t, m, r))),
               ('their amounts', fa([t, m, r], z3.Implies(z3.And(vt(t), vm(t, m), P.R(t, m, r)), P.V(t, m, r) == T0.V(t, m, r)), P.V(t, m, r))),
               ('durations so far', fa([t, m], z3.Implies(z3.And(vt(t), timed(t, m)), D.dur(t, m) == T0.V(t, m, dur)), D.dur(t, m)))]
        if skill:
            S = Table(DETAIL.unwrap(d.task_skills_dict))
            out += [('skills so far', z3.And(fa([t], S.T(t) == vt(t), S.T(t)), fa([t, m], z3.Implies(vt(t), S.M(t, m) == vm(t, m)), S.M(t, m)),
                                             fa([t, m, r], z3.Implies(z3.And(vt(t), vm(t, m)), S.R(t, m, r) == z3.And(T0.R(t, m, r), skilled(r), vr(t, m, r))), S.R(t, m, r)),
                                             fa([t, m, r], z3.Implies(z3.And(vt(t), vm(t, m), S.R(t, m, r)), S.V(t, m, r) == T0.V(t, m, r)), S.V(t, m, r))))]
        return out
    mods = lambda lp: [(d, 'task_mode_dict', MODES), (d, 'duration_dict', DUR)] + ([(d, 'task_skills_dict', DETAIL)] if skill else [])
    c.loops.append(LoopContract(lambda lp: lp.fn().endswith('__init__'), inv, name='tables', modifies=mods, types=dict(task=INT, mode=INT, r=OBJ)))
    avail = {'A': [INT.fresh('a0'), INT.fresh('a1')], 'B': [INT.fresh('b0'), INT.fresh('b1')]} if cal else {'A': INT.fresh('a'), 'B': INT.fresh('b')}
    args = dict(task_ids=object(), tasks_mode=tm, successors=object(), max_horizon=INT.fresh('horizon'), resource_availability=avail, resource_renewable={'A': True, 'B': False})
    if skill:
        args.update(skills_names=skills, resource_unit_names=['u'], resource_type_names=names, resource_skills={'u': {}})
    else:
        args.update(resource_names=names)
    if cls is sk.SMRCPSPCalendar:
        args.update(duration_distribution=object())
    cls.__init__(d, **args)
    c.prove('the domain is initialised once, at the end', len(started) == 1)
    task, mode, res = INT.fresh('task'), INT.fresh('mode'), OBJ.fresh('resource')
    a, b, e = num(task), num(mode), lift(res)
    P = Table(MODES.unwrap(d._get_tasks_modes()))
    c.prove('the same tasks', P.T(a) == T0.T(a))
    c.assume(T0.T(a))
    c.prove('the same modes', P.M(a, b) == T0.M(a, b))
    c.assume(T0.M(a, b))
    c.prove('the same needs', num(d.get_task_modes(task)[mode].get_resource_need_at_time(res, 0)) == z3.If(z3.And(named(e), T0.R(a, b, e)), T0.V(a, b, e), 0))
    c.prove('no other needs', P.R(a, b, e) == z3.And(named(e), T0.R(a, b, e)))
    c.prove('the same durations', num(d._get_task_duration(task, mode)) == T0.V(a, b, dur))
    if cls in (sk.RCPSP, sk.RCPSPCalendar):
        one = d._get_tasks_mode()[task]
        c.prove('the single mode is mode 1', num(one.get_resource_need_at_time(res, 0)) == z3.If(z3.And(named(e), T0.R(a, 1, e)), T0.V(a, 1, e), 0))
    if skill:
        S = d._get_all_tasks_skills()
        c.prove('the same skills', z3.And(*[z3.And(x == y) for x, y in [(Table(DETAIL.unwrap(S)).R(a, b, e), z3.And(skilled(e), T0.R(a, b, e)))]]))
        c.prove('at the same level', z3.Implies(z3.And(skilled(e), T0.R(a, b, e)), Table(DETAIL.unwrap(S)).V(a, b, e) == T0.V(a, b, e)))
        c.prove('units and their skills', d._get_resource_units_names() == ['u'] and d._get_all_resources_skills() == {'u': {}})
    c.prove('everything else as given', d._get_successors() is args['successors'] and d._get_tasks_ids() is args['task_ids'] and d.get_max_horizon() is args['max_horizon']
            and d._get_resource_renewability() == {'A': True, 'B': False} and d._get_resource_types_names() is names)
    if cal:
        c.prove('quantities over time', all(d._get_quantity_resource(x, i) is avail[x][i] for x in avail for i in (0, 1)))
        c.prove('after the calendar its last entry holds', all(d._get_quantity_resource(x, 5) is avail[x][1] for x in avail))
    else:
        c.prove('quantities', all(d.get_quantity_resource(x, 3) is avail[x] for x in avail))
    if cls is sk.SMRCPSPCalendar:
        c.prove('distributions', d.duration_distribution is args['duration_distribution'])


# ------------------------------------------------------------------------------------------ a model from a domain
class Record:
    def __init__(self, kind): self.kind = kind
    def __call__(self, **kw): return Stub(kind=self.kind, **kw)


BASES = [(sd.SingleModeRCPSP, 'single'), (sd.MultiModeRCPSP, 'multi'), (sd.MultiModeRCPSPWithCost, 'multi'), (sd.MultiModeRCPSPCalendar, 'calendar'), (sd.SingleModeRCPSPCalendar, 'calendar'),
         (sd.SingleModeRCPSP_Stochastic_Durations, 'single')]


@contract('a model has the needs, durations and quantities of its domain', B + 'build_do_domain')
def _(c):
    cls, kind = c.case('kind of domain', BASES)
    modes = MODES.fresh('modes')
    T0 = Table(MODES.unwrap(modes))
    names = SetTy(OBJ).fresh('resource names')
    ren = DictTy(OBJ, BOOL).fresh('renewable')
    R0 = list(ren.terms)
    qty, at = func('quantity', OBJ, ret=INT), func('quantity at', OBJ, INT, ret=INT)
    H = INT.fresh('horizon')
    c.assume(num(H) >= 0)
    span = func('duration', INT, INT, ret=INT)
    succ = object()
    real = list(T0.__dict__.values())

    class Dom(cls):
        __module__ = 'skdecide.stub'
        def get_tasks_modes(self): return modes
        def get_task_duration(self, task, mode=1, progress_from=0.): return span(task, mode)
        def sample_task_duration(self, task, mode=1, progress_from=0.): return span(task, mode)
        def get_original_quantity_resource(self, resource): return qty(resource)
        def get_quantity_resource(self, resource, time): return at(resource, time)
        def get_resource_types_names(self): return names
        def get_resource_renewability(self): return ren
        def get_successors(self): return succ
        def get_max_horizon(self): return H
    d = object.__new__(Dom)
    outer = {}
    dur = lift('duration')
    c.assume(z3.Not(Sel(names.t, dur)))
    need = lambda t, m, r: z3.If(T0.R(t, m, r), T0.V(t, m, r), 0)

    def inv(lp):
        depth = 2 if type(lp.coll) is not SymDict or lp.coll.ty not in (MODES, MODES.V) else 0 if lp.coll.ty is MODES else 1
        L = lp.locals
        cur = [num(L['task']) if depth else None, num(L['mode']) if depth > 1 else None]
        if depth < 2:
            outer[depth] = lp.visited if lp.phase == 'assume' else outer.get(depth)
        vt, vm, vr = filled(c, lp, depth, cur, T0, [outer.get(0), outer.get(1)])
        P = Table(DETAIL.unwrap(L['mode_details_do']))
        timed = (lambda t, m: z3.Not(z3.And(t == cur[0], m == cur[1]))) if depth == 2 else (lambda t, m: z3.BoolVal(True))
        return [('tasks so far', fa([t], P.T(t) == vt(t), P.T(t))), ('modes so far', fa([t, m], z3.Implies(vt(t), P.M(t, m) == vm(t, m)), P.M(t, m))),
                ('keys so far', fa([t, m, r], z3.Implies(z3.And(vt(t), vm(t, m)), P.R(t, m, r) == z3.If(r == dur, timed(t, m), z3.And(Sel(names.t, r), vr(t, m, r)))), P.R(t, m, r))),
                ('their amounts', fa([t, m, r], z3.Implies(z3.And(vt(t), vm(t, m), P.R(t, m, r)), P.V(t, m, r) == z3.If(r == dur, span.decls[0](t, m), need(t, m, r))), P.V(t, m, r)))]
    c.loops.append(LoopContract(lambda lp: lp.fn().endswith('build_do_domain'), inv, name='tables', types=dict(mode_details_do=DETAIL, task=INT, mode=INT, r=OBJ)))
    saved = {n: getattr(sb, n) for n in ('SingleModeRCPSPModel', 'MultiModeRCPSPModel', 'RCPSPModelCalendar')}
    for n, k in zip(saved, ('single', 'multi', 'calendar')):
        setattr(sb, n, Record(k))
    try:
        g = sb.build_do_domain(d)
    finally:
        for n, v in saved.items():
            setattr(sb, n, v)
    c.prove('the kind of model', g.kind == kind)
    task, mode, res = INT.fresh('task'), INT.fresh('mode'), OBJ.fresh('resource')
    a, b, e = num(task), num(mode), lift(res)
    P = Table(DETAIL.unwrap(g.mode_details))
    c.prove('the same activities', P.T(a) == T0.T(a))
    c.prove('the same modes', z3.Implies(T0.T(a), P.M(a, b) == T0.M(a, b)))
    c.prove('the same durations', z3.Implies(z3.And(T0.T(a), T0.M(a, b)), z3.And(P.R(a, b, dur), P.V(a, b, dur) == span.decls[0](a, b))))
    c.prove('a need for every resource, the same as in the domain', z3.Implies(z3.And(T0.T(a), T0.M(a, b), Sel(names.t, e)), z3.And(P.R(a, b, e), P.V(a, b, e) == need(a, b, e))))
    Q = g.resources
    c.prove('the same resources', Q.has(res) == Sel(names.t, e))
    c.assume(Sel(names.t, e))
    if kind == 'calendar':
        q = Q[res]
        k = I('time')
        c.prove('quantities over the whole horizon', q.n == num(H) + 1)
        c.prove('the same quantities', fa([k], z3.Implies(z3.And(0 <= k, k < q.n), num(q.elem(k)) == at.decls[0](e, k)), at.decls[0](e, k)))
    else:
        c.prove('the same quantities', num(Q[res]) == qty.decls[0](e))
    nr = res in g.non_renewable_resources
    c.prove('the same resources are not renewable', z3.And(Sel(R0[0], e), z3.Not(Sel(R0[1], e))) == z3.BoolVal(nr))
    c.prove('everything else as given', g.successors is succ and g.horizon is H and g.horizon_multiplier == 1)
    c.prove('the domain is not changed', z3.And(*[x == y for x, y in zip(MODES.unwrap(modes), [T0.D, T0.d, T0.has_, T0.val_])] + [x == y for x, y in zip(ren.terms, R0)]))


@contract('a multi-skill model has the needs, skills, employees and quantities of its domain', B + 'build_do_domain')
def _(c):
    cls = c.case('kind of domain', [sd.MultiModeMultiSkillRCPSP, sd.MultiModeMultiSkillRCPSPCalendar])
    modes = MODES.fresh('modes')
    T0 = Table(MODES.unwrap(modes))
    SK = func('skill', INT, INT, ret=DictTy(OBJ, INT))
    sk_has, sk_val = SK.decls
    names, skills = SetTy(OBJ).fresh('resource names'), SetTy(OBJ).fresh('skills')
    ren = DictTy(OBJ, BOOL).fresh('renewable')
    R0 = list(ren.terms)
    at = func('quantity at', OBJ, INT, ret=INT)
    H = INT.fresh('horizon')
    c.assume(num(H) >= 0)
    span = func('duration', INT, INT, ret=INT)
    succ, ids = object(), [1, 2, 3]
    dur = lift('duration')
    units = c.case('units', [[], ['u'], ['v', 'u']])
    have = {'u': {'s': 2, 't': 0}, 'v': {}}
    # resources, skills and the word duration are different names
    c.assume(fa([t, m, r], z3.Not(z3.And(Sel(sk_has(t, m), r), z3.Or(r == dur, Sel(names.t, r)))), Sel(sk_has(t, m), r)))
    c.assume(fa([t, m], z3.Not(Sel(sk_has(t, m), dur)), sk_has(t, m)))
    c.assume(z3.Not(Sel(names.t, dur)))
    need = lambda t, m, r: z3.If(T0.R(t, m, r), T0.V(t, m, r), 0)

    class Dom(cls):
        __module__ = 'skdecide.stub'
        def get_tasks_modes(self): return modes
        def get_task_duration(self, task, mode=1, progress_from=0.): return span(task, mode)
        def get_skills_of_task(self, task, mode): return SK(task, mode)
        def get_skills_of_resource(self, resource): return dict(have[resource])
        def get_skills_names(self): return skills
        def get_resource_units_names(self): return list(units)
        def get_quantity_resource(self, resource, time): return at(resource, time)
        def get_resource_types_names(self): return names
        def get_resource_renewability(self): return ren
        def get_successors(self): return succ
        def get_max_horizon(self): return H
        def get_tasks_ids(self): return list(ids)
    d = object.__new__(Dom)
    outer = {}

    def inv(lp):
        depth = 2 if type(lp.coll) is not SymDict or lp.coll.ty not in (MODES, MODES.V) else 0 if lp.coll.ty is MODES else 1
        sks = depth == 2 and type(lp.coll) is SymDict and lp.coll.ty not in (MODES, MODES.V) and isinstance(lp.coll.ty.V, engine.IntTy)
        L = lp.locals
        cur = [num(L['task']) if depth else None, num(L['mode']) if depth > 1 else None]
        if depth < 2:
            outer[depth] = lp.visited if lp.phase == 'assume' else outer.get(depth)
        vt, vm, vr = filled(c, lp, depth, cur, T0, [outer.get(0), outer.get(1)])
        P = Table(DETAIL.unwrap(L['mode_details_do']))
        here = (lambda t, m: z3.And(t == cur[0], m == cur[1])) if depth == 2 else (lambda t, m: z3.BoolVal(False))
        keys = lambda t, m, r: z3.If(r == dur, z3.Not(here(t, m)),
                                     z3.Or(z3.And(Sel(names.t, r), z3.BoolVal(True) if sks else vr(t, m, r)),
                                           z3.And(Sel(sk_has(t, m), r), vr(t, m, r) if sks else z3.Not(here(t, m)))))
        return [('tasks so far', fa([t], P.T(t) == vt(t), P.T(t))), ('modes so far', fa([t, m], z3.Implies(vt(t), P.M(t, m) == vm(t, m)), P.M(t, m))),
                ('keys so far', fa([t, m, r], z3.Implies(z3.And(vt(t), vm(t, m)), P.R(t, m, r) == keys(t, m, r)), P.R(t, m, r))),
                ('their amounts', fa([t, m, r], z3.Implies(z3.And(vt(t), vm(t, m), P.R(t, m, r)), P.V(t, m, r) == z3.If(r == dur, span.decls[0](t, m), z3.If(
                    Sel(names.t, r), need(t, m, r), Sel(sk_val(t, m), r)))), P.V(t, m, r)))]
    c.loops.append(LoopContract(lambda lp: lp.fn().endswith('build_do_domain'), inv, name='tables', types=dict(mode_details_do=DETAIL, skills_set=SetTy(OBJ), task=INT, mode=INT, r=OBJ, s=OBJ)))
    saved = {n: getattr(sb, n) for n in ('MS_RCPSPModel_Variant', 'Employee', 'SkillDetail')}
    for n in saved:
        setattr(sb, n, Record(n))
    out = []
    sb.print = lambda *a: out.append(a)
    try:
        g = sb.build_do_domain(d)
    finally:
        del sb.print
        for n, v in saved.items():
            setattr(sb, n, v)
    c.prove('the kind of model', g.kind == 'MS_RCPSPModel_Variant')
    task, mode, res = INT.fresh('task'), INT.fresh('mode'), OBJ.fresh('resource')
    a, b, e = num(task), num(mode), lift(res)
    P = Table(DETAIL.unwrap(g.mode_details))
    c.prove('the same activities', P.T(a) == T0.T(a))
    c.assume(T0.T(a))
    c.prove('the same modes', P.M(a, b) == T0.M(a, b))
    c.assume(T0.M(a, b))
    c.prove('the same durations', z3.And(P.R(a, b, dur), P.V(a, b, dur) == span.decls[0](a, b)))
    c.prove('a need for every resource, the same as in the domain', z3.Implies(Sel(names.t, e), z3.And(P.R(a, b, e), P.V(a, b, e) == need(a, b, e))))
    c.prove('the same skills', z3.Implies(Sel(sk_has(a, b), e), z3.And(P.R(a, b, e), P.V(a, b, e) == Sel(sk_val(a, b), e))))
    c.prove('nothing else', z3.Implies(P.R(a, b, e), z3.Or(e == dur, Sel(names.t, e), Sel(sk_has(a, b), e))))
    k = I('time')
    span_ok = lambda q: q.n == num(H) + 1
    c.prove('one employee for each unit', list(g.employees) == list(range(len(units))))
    for i, u in enumerate(sorted(units)):
        w = g.employees[i]
        q = w.calendar_employee
        c.prove('with its skills', list(w.dict_skill) == list(have[u]) and all(w.dict_skill[s].skill_value == have[u][s] for s in have[u]))
        c.prove('and its calendar', z3.And(span_ok(q), fa([k], z3.Implies(z3.And(0 <= k, k < q.n), as_formula(q.elem(k)) == (at.decls[0](lift(u), k) != 0)), at.decls[0](lift(u), k))))
    q = g.employees_availability
    c.prove('number of employees over time', z3.And(span_ok(q), fa([k], z3.Implies(z3.And(0 <= k, k < q.n), num(q.elem(k)) == sum([at.decls[0](lift(u), k) for u in units], z3.IntVal(0))), at.decls[0](lift('u'), k))))
    Q = g.resources_availability
    c.prove('the same resources', Q.has(res) == Sel(names.t, e))
    c.prove('as a set', z3.And(res in g.resources_set if False else Sel(SetTy(OBJ).unwrap(g.resources_set)[0], e) == Sel(names.t, e)))
    nr = SetTy(OBJ).unwrap(g.non_renewable_resources)[0]
    c.prove('the same resources are not renewable', Sel(nr, e) == z3.And(Sel(R0[0], e), z3.Not(Sel(R0[1], e))))
    c.assume(Sel(names.t, e))
    q = Q[res]
    c.prove('the same quantities over the whole horizon', z3.And(span_ok(q), fa([k], z3.Implies(z3.And(0 <= k, k < q.n), num(q.elem(k)) == at.decls[0](e, k)), at.decls[0](e, k))))
    c.prove('everything else as given', g.successors is succ and g.horizon is H and g.horizon_multiplier == 1 and g.skills_set is skills and g.source_task == 1 and g.sink_task == 3)


# ------------------------------------------------------------------------------------------ a domain from a model
@contract('a domain is built from the tables of a model', B + 'build_sk_domain')
def _(c):
    cls, varying, kind = c.case('model', [(rm.SingleModeRCPSPModel, False, 'RCPSP'), (rm.MultiModeRCPSPModel, False, 'MRCPSP'), (rm.RCPSPModel, True, 'MRCPSP'),
                                          (rm.RCPSPModelCalendar, True, 'MRCPSPCalendar'), (rm.RCPSPModelCalendar, False, 'MRCPSP'),
                                          (ms.MS_RCPSPModel, False, 'MSRCPSP'), (ms.MS_RCPSPModel, True, 'MSRCPSPCalendar'), (ms.MS_RCPSPModel_Variant, True, 'MSRCPSPCalendar')])
    skill = kind.startswith('MS')
    flat = cls is rm.RCPSPModelCalendar and not varying
    g = object.__new__(cls)
    names = ['A', 'B'][:c.case('resources', [0, 1, 2])]
    nonren = c.case('not renewable', [[], ['B'], ['A', 'B']])
    ids = SetTy(INT).fresh('tasks')
    g.mode_details = Stub(keys=lambda: ids)
    g.successors, g.horizon = object(), object()
    g.resources_list, g.non_renewable_resources = list(names), list(nonren)
    seqs = cls is rm.RCPSPModelCalendar or skill
    cap = {x: SeqTy(INT).fresh('quantities') if seqs else INT.fresh('quantity') for x in names}
    if seqs:
        for x in names:
            c.assume(cap[x].n >= 1)
    if skill:
        g.resources_availability = dict(cap)
        g.skills_set = c.case('skills', [set(), {'s', 't'}])
        g.employees = {e: Stub(dict_skill={s: Stub(skill_value=10 * e + i) for i, s in enumerate(['s', 't'][:e])}, calendar_employee=[BOOL.fresh('on'), BOOL.fresh('on')]) for e in c.case('employees', [[], [2], [1, 0]])}
    else:
        g.resources = dict(cap)
    saved = {n: getattr(sb, n) for n in ('RCPSP', 'MRCPSP', 'MRCPSPCalendar', 'MSRCPSP', 'MSRCPSPCalendar')}
    for n in saved:
        setattr(sb, n, Record(n))
    try:
        d = sb.build_sk_domain(g, varying_ressource=varying)
    finally:
        for n, v in saved.items():
            setattr(sb, n, v)
    c.prove('the kind of domain', d.kind == kind)
    c.prove('the same tables', d.tasks_mode is g.mode_details and d.successors is g.successors and d.max_horizon is g.horizon)
    task = INT.fresh('task')
    tids = SeqTy(INT).unwrap(d.task_ids)
    j = I('j')
    x = c.case('direction', ['all', 'only'])
    if x == 'all':
        c.assume(Sel(ids.t, num(task)))
        c.prove('every task', z3.BoolVal(task in d.task_ids))
    else:
        i = INT.fresh('i')
        c.assume(z3.And(0 <= num(i), num(i) < tids[0]))
        c.prove('nothing else', Sel(ids.t, Sel(tids[1], num(i))))
    units = [str(e) for e in g.employees] if skill else []
    c.prove('renewable unless listed, units always', d.resource_renewable == {**{x: x not in nonren for x in names}, **{u: True for u in units}})
    c.prove('names', (list(d.resource_type_names) if skill else list(d.resource_names)) == names)
    A = d.resource_availability
    c.prove('quantities of these', list(A) == names + units)
    for x in names:
        if flat:
            c.prove('the largest quantity', z3.And(fa([j], z3.Implies(z3.And(0 <= j, j < cap[x].n), num(cap[x].elem(j)) <= num(A[x])), num(cap[x].elem(j)))))
            w = SeqTy(INT).unwrap(cap[x])[1]
            c.prove('which is one of them', z3.Exists([j], z3.And(0 <= j, j < cap[x].n, Sel(w, j) == num(A[x]))))
        elif skill and not varying:
            c.prove('the first quantity', num(A[x]) == num(cap[x].elem(0)))
        else:
            c.prove('the same quantities', A[x] is cap[x])
    if skill:
        c.prove('units', list(d.resource_unit_names) == units)
        c.prove('skills', set(d.skills_names) == g.skills_set)
        c.prove('skills of the units', d.resource_skills == {**{x: {} for x in names}, **{str(e): {s: w.skill_value for s, w in g.employees[e].dict_skill.items()} for e in g.employees}})
        for e in g.employees:
            q = A[str(e)]
            if varying:
                c.prove('a unit is there as its calendar says', len(q) == 2 and z3.And(*[num(q[i]) == z3.If(as_formula(g.employees[e].calendar_employee[i]), 1, 0) for i in range(2)]))
            else:
                c.prove('a unit is always there', q == 1)


@contract('the variant of a multi-skill model keeps everything', M + 'MS_RCPSPModel_Variant.__init__', M + 'MS_RCPSPModel.__init__', M + 'MS_RCPSPModel.to_variant_model', M + 'MS_RCPSPModel.copy')
def _(c):
    n = ('skills_set', 'resources_set', 'non_renewable_resources', 'resources_availability', 'employees', 'employees_availability', 'mode_details', 'successors', 'horizon', 'horizon_multiplier')
    v = dict(skills_set={'s'}, resources_set={'A'}, non_renewable_resources={'A'}, resources_availability={'A': [1]}, employees={0: 1}, employees_availability=[1], mode_details={1: {}, 2: {}, 3: {}},
             successors={1: [2]}, horizon=INT.fresh('horizon'), horizon_multiplier=INT.fresh('multiplier'))
    v['one_unit_per_task_max'] = c.case('one unit per task', [False, True])
    ends = c.case('source and sink', [(None, None), (1, 3), (2, 1)])
    cls = c.case('class', [ms.MS_RCPSPModel, ms.MS_RCPSPModel_Variant])
    g = cls(source_task=ends[0], sink_task=ends[1], **v)
    want = (ends[0] or 1, ends[1] or 3)
    for h in (g, g.to_variant_model(), g.copy()):
        c.prove('fields', all(getattr(h, x) is v[x] for x in v) and (h.source_task, h.sink_task) == want and h.n_jobs_non_dummy == 1 and h.nb_tasks == 3 and h.tasks == [1, 2, 3] and list(h.resources_list) == ['A'])
    c.prove('kind', isinstance(g.to_variant_model(), ms.MS_RCPSPModel_Variant))


@contract('a copied employee keeps everything', M + 'Employee.__init__', M + 'Employee.copy', M + 'SkillDetail.__init__', M + 'SkillDetail.copy')
def _(c):
    skills = c.case('skills', [[], ['a'], ['b', 'a']])
    v = {s: [INT.fresh('value'), REAL.fresh('efficiency'), REAL.fresh('experience')] for s in skills}
    e = ms.Employee({s: ms.SkillDetail(*v[s]) for s in skills}, [True, False], REAL.fresh('salary'))
    pay = e.salary
    g = e.copy()
    c.prove('same skills', list(g.dict_skill) == skills and all([g.dict_skill[s].skill_value, g.dict_skill[s].efficiency_ratio, g.dict_skill[s].experience][k] is v[s][k] for s in skills for k in range(3)))
    c.prove('same salary and calendar', g.salary is pay and e.salary is pay and g.calendar_employee == [True, False])
    c.prove('its own calendar and skills', g.calendar_employee is not e.calendar_employee and g.dict_skill is not e.dict_skill and all(g.dict_skill[s] is not e.dict_skill[s] for s in skills))


# ------------------------------------------------------------------------------------------ the end of an execution as a solution
@contract('the schedule of an execution', B + 'from_last_state_to_solution')
def _(c):
    ids = c.case('tasks', [[1, 2, 3], [3, 1, 2, 4], [1, 2]])
    modes = {i: INT.fresh('mode') for i in ids if c.case('%d has a mode' % i, [True, False])}
    tasks = {i: Stub(start=INT.fresh('start'), end=INT.fresh('end')) for i in ids}
    s = Stub(tasks_mode=modes, tasks_details=tasks)
    d = Stub(get_tasks_ids=lambda: list(ids))
    p = object()
    seen = []
    saved = sb.build_do_domain, sb.RCPSPSolution
    sb.build_do_domain, sb.RCPSPSolution = (lambda x: seen.append(x) or p), Record('solution')
    try:
        r = sb.from_last_state_to_solution(s, d)
    finally:
        sb.build_do_domain, sb.RCPSPSolution = saved
    c.prove('of the model of the domain', seen == [d] and r.problem is p)
    c.prove('the modes of the real activities, in order', len(r.rcpsp_modes) == len(ids) - 2 and all((x is modes[i]) if i in modes else x == 1 for i, x in zip(sorted(ids)[1:-1], r.rcpsp_modes)))
    c.prove('the starts and ends', set(r.rcpsp_schedule) == set(ids) and all(r.rcpsp_schedule[i]['start_time'] is tasks[i].start and r.rcpsp_schedule[i]['end_time'] is tasks[i].end for i in ids))


# ------------------------------------------------------------------------------------------ noise
@contract('noisy durations, everything else as it was', K + 'build_stochastic_from_deterministic', K + 'Stochastic_RCPSP.__init__', K + 'Stochastic_RCPSP._get_resource_renewability',
          K + 'Stochastic_RCPSP._get_task_duration_distribution')
def _(c):
    ids = [1, 2, 3]
    modes = {1: {1: object()}, 2: {1: object(), 2: object()}, 3: {1: object()}}
    D = {(a, b): INT.fresh('duration') for a in modes for b in modes[a]}
    for x in D.values():
        c.assume(num(x) >= 0)
    noisy = c.case('noise', [None, {2}, {1, 2, 3}, set()])
    H = INT.fresh('horizon')
    succ, qty, ren = object(), {'A': INT.fresh('a'), 'B': INT.fresh('b')}, {'A': True, 'B': c.case('B is renewable', [True, False])}
    d = Stub(get_tasks_ids=lambda: list(ids), get_task_modes=lambda task_id: modes[task_id], get_tasks_modes=lambda: modes, get_task_duration=lambda task, mode: D[task, mode],
             get_resource_types_names=lambda: ['A', 'B'], successors=succ, max_horizon=H, resource_availability=qty, resource_renewable=ren)
    started = []
    saved = sk.DiscreteDistribution, sk.Stochastic_RCPSP.__dict__.get('initialize_domain')
    sk.DiscreteDistribution = Record('distribution')
    sk.Stochastic_RCPSP.initialize_domain = lambda self: started.append(self)
    try:
        s = sk.build_stochastic_from_deterministic(d, noisy)
    finally:
        sk.DiscreteDistribution = saved[0]
        del sk.Stochastic_RCPSP.initialize_domain
    c.prove('initialised', started == [s])
    for a, b in D:
        v = s.get_task_duration_distribution(a, b).values
        x = num(D[a, b])
        if noisy is None or a in noisy:
            if len(v) == 1:
                c.prove('no noise only on tasks that take no time', z3.And(x == 0, num(v[0][0]) == x))
                c.prove('certain', v[0][1] == 1)
            else:
                c.prove('up to ten longer or shorter, at least 1, all as likely', z3.And(x != 0, *[num(y) == z3.If(x + i >= 1, x + i, 1) for i, (y, p) in zip(range(-10, 11), v)]))
                c.prove('21 of them', len(v) == 21 and all(abs(p - 1 / 21) < 1e-12 for _, p in v))
        else:
            c.prove('no noise', len(v) == 1 and v[0][1] == 1 and v[0][0] is D[a, b])
    c.prove('tasks, modes and successors', s.get_tasks_ids() == ids and s.get_tasks_modes() is modes and s._get_successors() is succ)
    c.prove('horizon', num(s.get_max_horizon()) == 2 * num(H))
    c.prove('resources', s.get_resource_types_names() == ['A', 'B'] and all(s.get_original_quantity_resource(r) is qty[r] for r in qty))
    c.prove('renewability', s.get_resource_renewability() == ren)


@contract('a certain domain sampled from a noisy one', K + 'build_n_determinist_from_stochastic')
def _(c):
    ids = [1, 2]
    need = {(a, b, r): INT.fresh('need') for a in ids for b in (1, 2)[:a] for r in ('A', 'B')}
    md = {a: {b: Stub(get_resource_need_at_time=lambda r, t, a=a, b=b: need[a, b, r], get_ressource_names=lambda: ['A', 'B']) for b in (1, 2)[:a]} for a in ids}
    sampled = []

    def sample(task, mode):
        sampled.append((task, mode, INT.fresh('sampled')))
        return sampled[-1][2]
    succ, H, qty, ren = object(), object(), {'A': INT.fresh('a'), 'B': INT.fresh('b')}, {'A': True, 'B': False}
    s = Stub(get_tasks_modes=lambda: md, sample_task_duration=sample, get_resource_types_names=lambda: ['A', 'B'], get_original_quantity_resource=lambda r: qty[r], get_tasks_ids=lambda: ids,
             successors=succ, get_max_horizon=lambda: H, get_resource_renewability=lambda: ren)
    n = c.case('how many', [0, 1, 2])
    saved, sk.MRCPSP = sk.MRCPSP, Record('MRCPSP')
    try:
        out = sk.build_n_determinist_from_stochastic(s, n)
    finally:
        sk.MRCPSP = saved
    c.prove('as many as asked', len(out) == n and len(sampled) == 3 * n)
    for i, d in enumerate(out):
        one = {(a, b): x for a, b, x in sampled[3 * i:3 * i + 3]}
        c.prove('one sample of each duration', set(one) == {(a, b) for a, b, _ in need} and all(d.tasks_mode[a][b]['duration'] is one[a, b] for a, b in one))
        c.prove('the same needs', all(d.tasks_mode[a][b][r] is x for (a, b, r), x in need.items()))
        c.prove('everything else as it was', d.task_ids is ids and d.successors is succ and d.max_horizon is H and d.resource_availability == qty and d.resource_renewable is ren and d.resource_names == ['A', 'B'])
