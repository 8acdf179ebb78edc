"""Contracts of CVODE (C19), the wrapper around a user's CVODE integrator. The user's side is recorded in ghost variables: call number
n has kind K[n], time TM[n], input IN[n], finds the continuous state ST[n], leaves RS[n]; output calls answer OL[n]. NV is the content of the
vectors of the SUNDIALS library, NA tells which of them exist."""
import z3
from vc.engine import *
from vc import sorts as S
from vc.types import *
from specs import graph as GR, simulator as SM

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
INT_, EXT, CONF, OUT, REINIT, STEP, UNTIL = range(1, 8)
NVec = z3.DeclareSort('NVec')
v_ = z3.Const('v', NVec)
c_ = z3.Real('c')
addc = z3.Function('addc', NVec, R, NVec)            # adds a constant to every element
SH = z3.Function('state_of', I, I)                   # the vector in which a model keeps its state
AX = [z3.ForAll([v_], addc(v_, 0) == v_, patterns=[addc(v_, 0)])]
k_, x_ = z3.Ints('k x')


def init(eng):
    global LPV
    GR.init()
    LPV = LIST(STRUCT('PinValue'))


A_ = lambda s: z3.ArraySort(I, s)
GH = dict(n=lambda: I, K=lambda: A_(I), TM=lambda: A_(R), ST=lambda: A_(NVec), RS=lambda: A_(NVec), IN=lambda: A_(S.sort(LPV)), OL=lambda: A_(S.sort(LPV)), AN=lambda: A_(R), EV=lambda: A_(B),
          NV=lambda: A_(NVec), NA=lambda: A_(B))


class Ghosts(dict):
    def __missing__(self, g):
        return GH[g]()


QUIET = ['static:pin_t::atom']


class M:
    def __init__(self, v, s):
        f = lambda n: v.get('CVODE.' + n, s)
        self.v, self.s = v, s
        self.cp, self.event, self.t, self.tp = f('y_checkpoint'), f('has_event'), f('t'), f('t_projected')
        self.nv, self.na = v.g('NV'), v.g('NA')

    def state(self):
        return z3.Select(self.nv, SH(self.s))

    def mark(self):
        return z3.Select(self.nv, self.cp)

    def own(self):
        return [('state vector', z3.And(SH(self.s) > 0, z3.Select(self.na, SH(self.s)), self.v.g('n') >= 0)),
                ('own vector', z3.Or(self.cp == 0, z3.And(self.cp > 0, self.cp != SH(self.s), z3.Select(self.na, self.cp))))]


def cat(new, a, *parts):
    """the list `new` is `a` followed by the parts"""
    out, at_ = [], S.llen(LPV, a)
    e = S.sel(S.larr(LPV, new), k_)
    out.append(z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < at_), e == S.sel(S.larr(LPV, a), k_)), patterns=[e]))
    for p in parts:
        n = S.llen(LPV, p)
        out.append(z3.ForAll([k_], z3.Implies(z3.And(k_ >= at_, k_ < at_ + n), e == S.sel(S.larr(LPV, p), k_ - at_)), patterns=[e]))
        at_ = at_ + n
    return z3.And(S.llen(LPV, new) == at_, *out)


def build(reg):
    # ------------------------------------------------------------ the library
    vec_ok = lambda C, *ix: [('vector exists', z3.And(*[z3.And(C.a(i) > 0, z3.Select(C.pre.g('NA'), C.a(i))) for i in ix]))]
    note = 'SUNDIALS'
    reg(Contract('extern:N_VClone', lambda C: vec_ok(C, 0), lambda C: [('a new vector', z3.And(C.ret > 0, z3.Not(z3.Select(C.pre.g('NA'), C.ret)), C.post.g('NA') == z3.Store(C.pre.g('NA'), C.ret, True)))], ['ghost:NA'], trusted=True, note=note))
    reg(Contract('extern:N_VAddConst', lambda C: vec_ok(C, 0, 2), lambda C: [('adds', C.post.g('NV') == z3.Store(C.pre.g('NV'), C.a(2), addc(z3.Select(C.pre.g('NV'), C.a(0)), C.a(1))))], ['ghost:NV'], trusted=True, note=note))
    reg(Contract('extern:N_VScale', lambda C: vec_ok(C, 1, 2), lambda C: [('scales', z3.Implies(C.a(0) == 1, C.post.g('NV') == z3.Store(C.pre.g('NV'), C.a(2), z3.Select(C.pre.g('NV'), C.a(1)))))], ['ghost:NV'], trusted=True, note=note))
    reg(Contract('extern:N_VDestroy', lambda C: vec_ok(C, 0), lambda C: [('destroyed', C.post.g('NA') == z3.Store(C.pre.g('NA'), C.a(0), False))], ['ghost:NA'], trusted=True, note=note))

    # ------------------------------------------------------------ the user's model
    G = lambda *gs: ['ghost:' + g for g in gs]
    st = lambda v, s: z3.Select(v.g('NV'), SH(s))

    def rec(C, kind, **kw):
        n = C.pre.g('n')
        up = dict(K=z3.IntVal(kind), ST=st(C.pre, C.this), RS=st(C.post, C.this), **kw)
        return [('recorded', z3.And(C.post.g('n') == n + 1, *[C.post.g(g) == z3.Store(C.pre.g(g), n, x) for g, x in up.items()])),
                ('only the state vector changes', C.post.g('NV') == z3.Store(C.pre.g('NV'), SH(C.this), z3.Select(C.post.g('NV'), SH(C.this))))]
    note = 'user code: records the call; may change the state vector'
    reg(Contract('CVODE::cvode_get_state()', None, lambda C: [('its vector', C.ret == SH(C.this))], (), trusted=True, note='user code: always the same vector'))
    ALL = ('n', 'K', 'ST', 'RS', 'NV')
    reg(Contract('CVODE::cvode_delta_int()', None, lambda C: rec(C, INT_), G(*ALL), trusted=True, note=note))
    reg(Contract('CVODE::cvode_delta_ext(double,list)', None, lambda C: rec(C, EXT, TM=C.a(0), IN=C.a(1)), G(*ALL, 'TM', 'IN'), trusted=True, note=note))
    reg(Contract('CVODE::cvode_delta_conf(list)', None, lambda C: rec(C, CONF, IN=C.a(0)), G(*ALL, 'IN'), trusted=True, note=note))
    reg(Contract('CVODE::cvode_integrate(double,bool)', None, lambda C: rec(C, STEP, AN=C.apost(0), EV=C.apost(1)), lambda C: G(*ALL, 'AN', 'EV') + ['param:0', 'param:1'], trusted=True, note=note))
    reg(Contract('CVODE::cvode_integrate_until(double,bool)', None, lambda C: rec(C, UNTIL, TM=C.a(0), EV=C.apost(1)), lambda C: G(*ALL, 'TM', 'EV') + ['param:1'], trusted=True, note=note))
    reg(Contract('CVODE::cvode_reinit(_generic_N_Vector*,double)', lambda C: vec_ok(C, 0), lambda C: rec(C, REINIT, TM=C.a(1)) + [('starts from there', st(C.post, C.this) == z3.Select(C.pre.g('NV'), C.a(0)))], G(*ALL, 'TM'), trusted=True,
                 note='user code: restarts the integrator from the state and time given'))

    def out_ens(C):
        n = C.pre.g('n')
        ans = z3.Select(C.post.g('OL'), n)
        return [('recorded', z3.And(C.post.g('n') == n + 1, C.post.g('K') == z3.Store(C.pre.g('K'), n, OUT), C.post.g('ST') == z3.Store(C.pre.g('ST'), n, st(C.pre, C.this)), C.post.g('OL') == z3.Store(C.pre.g('OL'), n, ans))),
                ('its answer is added', z3.And(S.llen(LPV, ans) >= 0, cat(C.apost(0), C.a(0), ans)))]
    reg(Contract('CVODE::cvode_output_func(list)', None, out_ens, lambda C: ['param:0'] + G('n', 'K', 'ST', 'OL'), trusted=True, note='user code: adds output to the list; records the call'))

    # ------------------------------------------------------------ CVODE
    pre, post = (lambda C: M(C.pre, C.this)), (lambda C: M(C.post, C.this))
    F = lambda C, *fs: [('CVODE.' + f, [C.this]) for f in fs]
    LOG = G('n', 'K', 'TM', 'ST', 'RS', 'IN', 'AN', 'EV', 'NV')

    def call(C, i, kind, **kw):
        n = C.pre.g('n') + i
        return z3.And(z3.Select(C.post.g('K'), n) == kind, *[z3.Select(C.post.g(g), n) == x for g, x in kw.items()])
    calls = lambda C, k: C.post.g('n') == C.pre.g('n') + k
    after = lambda C, i, g='RS': z3.Select(C.post.g(g), C.pre.g('n') + i)
    settled = lambda m: ('the mark is the state at the last event', z3.Or(m.cp == 0, m.mark() == m.state()))
    planned = lambda m: ('a step was planned', m.cp != 0)
    frame = lambda C, m: ('vectors of others are kept', z3.ForAll([x_], z3.Implies(z3.And(x_ != SH(C.this), z3.Select(C.pre.g('NA'), x_), x_ != pre(C).cp), z3.And(z3.Select(C.post.g('NA'), x_), z3.Select(C.post.g('NV'), x_) == z3.Select(C.pre.g('NV'), x_))),
                                                             patterns=[z3.Select(C.post.g('NV'), x_), z3.Select(C.post.g('NA'), x_)]))

    def ta_ens(C):
        a, b = pre(C), post(C)
        return b.own() + [planned(b), ('one step of the integrator', z3.And(calls(C, 1), call(C, 0, STEP, ST=a.state()))), ('the time to the end of the step', z3.And(b.tp == after(C, 0, 'AN'), b.t == a.t, C.ret == b.tp - b.t)),
                          ('an event is due if the integrator says so', b.event == after(C, 0, 'EV')), ('the state before the step is kept', b.mark() == a.state()), ('the state is the one after the step', b.state() == after(C, 0)), frame(C, b)]
    reg(Contract('CVODE::ta()', lambda C: pre(C).own() + [settled(pre(C))], ta_ens, lambda C: F(C, 'y_checkpoint', 't_projected', 'has_event') + LOG + G('NA')))

    def done(C, k):
        b = post(C)
        return b.own() + [settled(b), planned(b), frame(C, b), ('the state is the one it was left in', b.state() == (after(C, k - 1) if k else pre(C).state()))]

    def di_ens(C):
        a, b = pre(C), post(C)
        return b.own() + [settled(b), planned(b), frame(C, b), ('the time is the end of the step', b.t == a.tp),
                          ('the model is asked exactly if an event is due', z3.If(a.event, z3.And(calls(C, 1), call(C, 0, INT_, ST=a.state()), b.state() == after(C, 0)), z3.And(calls(C, 0), b.state() == a.state())))]
    step_req = lambda C: pre(C).own() + [planned(pre(C))]
    reg(Contract('CVODE::delta_int()', step_req, di_ens, lambda C: F(C, 't') + LOG))

    def dc_ens(C):
        a, b = pre(C), post(C)
        return done(C, 1) + [('the time is the end of the step', b.t == a.tp), ('one call', calls(C, 1)),
                             ('an event that is due is handled with the input', z3.Implies(a.event, call(C, 0, CONF, ST=a.state(), IN=C.a(0)))),
                             ('otherwise the input is handled', z3.Implies(z3.Not(a.event), call(C, 0, EXT, ST=a.state(), TM=a.tp, IN=C.a(0))))]
    reg(Contract('CVODE::delta_conf(list)', step_req, dc_ens, lambda C: F(C, 't') + LOG))

    def de_ens(C):
        a, b = pre(C), post(C)
        now = a.t + C.a(0)
        ev = after(C, 1, 'EV')
        return done(C, 3) + [('the time is the time of the input', b.t == now), ('three calls', calls(C, 3)),
                             ('the integrator starts again from the last event', z3.And(call(C, 0, REINIT, TM=a.t), after(C, 0) == a.mark())),
                             ('and goes to the time of the input', call(C, 1, UNTIL, TM=now, ST=a.mark())),
                             ('an event found there is handled with the input', z3.Implies(ev, call(C, 2, CONF, ST=after(C, 1), IN=C.a(1)))),
                             ('otherwise the input is handled', z3.Implies(z3.Not(ev), call(C, 2, EXT, ST=after(C, 1), TM=now, IN=C.a(1))))]
    reg(Contract('CVODE::delta_ext(double,list)', lambda C: step_req(C) + [('elapsed', C.a(0) >= 0)], de_ens, lambda C: F(C, 't', 'has_event') + LOG))

    def of_ens(C):
        a = pre(C)
        ans = z3.Select(C.post.g('OL'), C.pre.g('n'))
        return [('asked exactly if an event is due', z3.If(a.event, z3.And(calls(C, 1), call(C, 0, OUT, ST=a.state())), calls(C, 0))),
                ('its answer is the output', z3.If(a.event, cat(C.apost(0), C.a(0), ans), cat(C.apost(0), C.a(0))))]
    reg(Contract('CVODE::output_func(list)', step_req, of_ens, lambda C: ['param:0'] + G('n', 'K', 'ST', 'OL')))
    reg(Contract('CVODE::CVODE()', None, lambda C: (lambda b: [('starts at zero with no event', z3.And(b.t == 0, z3.Not(b.event), b.cp == 0))])(post(C)),
                 lambda C: F(C, 'y_checkpoint', 'has_event', 't', 't_projected') + QUIET + [('Atomic.' + f, [C.this]) for f in ('tL', 'tN', 'q_index', 'inputs', 'outputs', 'revisable_inputs', 'graph', 'sim')]))
    reg(Contract('CVODE::~CVODE()', lambda C: pre(C).own(), lambda C: [('exactly its own vector is destroyed', z3.ForAll([x_], z3.Select(C.post.g('NA'), x_) == z3.And(z3.Select(C.pre.g('NA'), x_), z3.Or(x_ == 0, x_ != pre(C).cp)), patterns=[z3.Select(C.post.g('NA'), x_)]))], G('NA')))
    reg(Contract('Atomic::Atomic()', inline=True))


TARGETS = ['CVODE::CVODE()', 'CVODE::~CVODE()', 'CVODE::ta()', 'CVODE::delta_int()', 'CVODE::delta_conf(list)', 'CVODE::delta_ext(double,list)', 'CVODE::output_func(list)']
DRIVER = 'cvode.cpp'
ENGINE = dict(value=('exception',), ghosts=Ghosts())
ASSUMPTIONS = ['double arithmetic is taken as real arithmetic', "the user's side of the model changes only its own state vector and always answers the same one", 'contracts of the SUNDIALS vector functions N_VClone, N_VAddConst, N_VDestroy']


def tenv(prog):
    return TypeEnv(set(), prog.enum_types, {'V': VAL}, {'N_Vector': REF('_generic_N_Vector'), '_generic_N_Vector': Ty('cls', '_generic_N_Vector')})


def prepare(eng):
    init(eng)


def theory(eng):
    return AX
