"""Contracts of ModelExchange (C21), the wrapper of an FMU as a system of equations. The FMU is described by the FMI 2.0 standard: MODE is the
state of its machine, FT, FX its time and continuous states, CFG its discrete state; derivatives, event indicators and partial derivatives are functions
of these. NEED, NXD, NXT: what the last event iteration answered. EVN counts event iterations, STEPS completed integrator steps."""
import os, sys
import z3
from vc.engine import *
from vc import sorts as S
from vc.types import *
from specs import ode as O
from specs.ode import *

PARSED, LOADED, READY, INIT, EVENT, CONT, ENDED = range(7)
VI = lambda: STRUCT('variable_info_t')
MV = lambda: MAP(STR, VI())
PU = PTR(UINT)
PA = lambda: z3.ArraySort(I, I)
GH = dict(MODE=PA, CFG=PA, EVN=PA, STEPS=PA, FT=lambda: z3.ArraySort(I, R), FX=lambda: z3.ArraySort(I, Vec), NEED=lambda: z3.ArraySort(I, B), NXD=lambda: z3.ArraySort(I, B), NXT=lambda: z3.ArraySort(I, R), ASK=lambda: z3.ArraySort(I, B),
          TOL=lambda: z3.ArraySort(I, R), T0=lambda: z3.ArraySort(I, R), VR=lambda: z3.ArraySort(I, z3.ArraySort(I, R)), VI=lambda: z3.ArraySort(I, PA()), VB=lambda: z3.ArraySort(I, PA()), LIB=lambda: z3.ArraySort(I, B))


def enum(n):
    return strlit('enum:' + n)


class Ghosts(dict):
    def __missing__(self, g):
        return GH[g]()


NX = z3.Function('NX', I, I)                         # continuous states, event indicators of an FMU
NZ = z3.Function('NZ', I, I)
FDER = z3.Function('FDER', I, I, R, Vec, I, R)
FIND = z3.Function('FIND', I, I, R, Vec, I, R)
FPAR = z3.Function('FPAR', I, I, R, Vec, I, I, R)    # by value references: of the derivative, of the state
VAR = z3.Function('VAR', I, I, I)                     # variables of an FMU; their reference, type, name
VREF, VTYPE, VNAME, VPOS = [z3.Function(n, I, I) for n in ('VREF', 'VTYPE', 'VNAME', 'VPOS')]
NVAR = z3.Function('NVAR', I, I)
OFF = z3.Function('OFF', I, I)                        # FMU a list of variables belongs to
ROW = z3.Function('ROW', I, I, I)                     # a matrix by columns
COL = z3.Function('COL', I, I, I)
START = z3.Function('START', I, I, I)
HASJ = z3.Function('HASJ', I, B)
KIND = z3.Function('KIND', I, I)
INFO = ['newDiscreteStatesNeeded', 'terminateSimulation', 'nominalsOfContinuousStatesChanged', 'valuesOfContinuousStatesChanged', 'nextEventTimeDefined', 'nextEventTime']   # fields of fmi2_event_info_t
INF = z3.RealVal(int(sys.float_info.max))              # adevs_inf<double>()
fm_ = z3.Int('fm')

AX = O.AX


class F:
    """an FMU"""
    def __init__(self, v, m):
        g = lambda n: z3.Select(v.g(n), m)
        self.v, self.m = v, m
        self.mode, self.cfg, self.evn, self.steps, self.t, self.x = g('MODE'), g('CFG'), g('EVN'), g('STEPS'), g('FT'), g('FX')
        self.need, self.nxd, self.nxt, self.ask = g('NEED'), g('NXD'), g('NXT'), g('ASK')


class ME:
    def __init__(self, v, s):
        f = lambda n: v.get('ModelExchange.' + n, s)
        self.v, self.s = v, s
        self.fmu, self.nte, self.t, self.cont, self.col, self.jv = f('fmu'), f('next_time_event'), f('t_now'), f('cont_time_mode'), f('jac_col'), f('jac_v')
        self.n, self.m = dim(v, s), events(v, s)
        self.f = F(v, self.fmu)

    def layout(self):
        u = lambda p, i: S.acc(PU, i, p)
        cb = u(self.col, 0)
        cols = self.v.eng.mem_sel(self.v.st, UINT, cb)
        k = self.n - 1
        return [('an FMU of its own', z3.And(self.fmu > 0, self.f.evn >= 0, k >= 0, k == NX(self.fmu), self.m >= 0, self.m == NZ(self.fmu))),
                ('arrays for the partial derivatives', z3.And((cb != 0) == HASJ(self.fmu), z3.Implies(cb == 0, u(self.col, 1) == 0), z3.Implies(cb != 0, z3.And(valid(self.v, self.jv, k), off(self.jv) == 0, cb > 0, cb < self.v.alloc, self.v.alive(cb), u(self.col, 1) == 0, self.v.mlen(cb) >= k, cb != base(self.jv))))),
                ('one column at a time', z3.Implies(cb != 0, z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < k), z3.And(S.sel(cols, j_) == k + j_, z3.Select(arr(self.v, self.jv), j_) == 1)), patterns=[z3.Select(cols, j_), z3.Select(arr(self.v, self.jv), j_)])))]

    def inv(self):
        return self.layout() + [('the mode is known', self.f.mode == z3.If(self.cont, z3.IntVal(CONT), z3.IntVal(EVENT))), ('events are dealt with', z3.Implies(z3.Not(self.cont), z3.Not(self.f.need)))]

    def apart(self, *ps):
        return [('own arrays are not written', z3.And(*[z3.Implies(base(self.jv) != 0, base(p) != base(self.jv)) for p in ps]))]


def xs(v, a, q):
    """the states without the time"""
    return norm(a.n - 1, arr(v, q), off(q))


def build(reg):
    note = 'FMI Library: as the FMI 2.0 standard says; calls allowed in the current mode succeed'
    G = lambda *gs: ['ghost:' + g for g in gs]
    p, q = (lambda C: F(C.pre, C.a(0))), (lambda C: F(C.post, C.a(0)))
    ok = ('accepted', )
    st = lambda C, g, x: C.post.g(g) == z3.Store(C.pre.g(g), C.a(0), x)
    there = lambda C, *modes: [('an FMU in a mode that allows the call', z3.And(C.a(0) > 0, z3.Or(*[p(C).mode == m for m in modes])))]

    def call(name, modes, mods, ens, more=lambda C: []):
        reg(Contract('extern:fmi2_import_' + name, lambda C: there(C, *modes) + more(C), lambda C: [('accepted', C.ret == enum('fmi2_status_ok'))] + ens(C), mods, trusted=True, note=note))
    call('enter_initialization_mode', (READY,), G('MODE'), lambda C: [('initialising', st(C, 'MODE', z3.IntVal(INIT)))])
    call('exit_initialization_mode', (INIT,), G('MODE', 'NEED'), lambda C: [('event mode', z3.And(st(C, 'MODE', z3.IntVal(EVENT)), st(C, 'NEED', z3.BoolVal(True))))])
    call('enter_event_mode', (CONT,), G('MODE', 'NEED'), lambda C: [('event mode', z3.And(st(C, 'MODE', z3.IntVal(EVENT)), st(C, 'NEED', z3.BoolVal(True))))])
    call('enter_continuous_time_mode', (EVENT,), G('MODE'), lambda C: [('continuous time mode', st(C, 'MODE', z3.IntVal(CONT)))], lambda C: [('no events are left', z3.Not(p(C).need))])
    call('set_time', (EVENT, CONT), G('FT'), lambda C: [('its time', st(C, 'FT', C.a(1)))])
    nx = lambda C, i: [('its number of states', C.a(i) == NX(C.a(0))), ('room', valid(C.pre, C.a(i - 1), C.a(i)))]
    call('set_continuous_states', (CONT,), G('FX'), lambda C: [('its states', st(C, 'FX', vec(C.pre, C.a(2), C.a(1))))], lambda C: nx(C, 2))

    def answer(C, i, n, val):
        b1 = arr(C.post, C.a(i))
        return [('its value', z3.ForAll([j_], z3.Implies(z3.And(j_ >= off(C.a(i)), j_ < off(C.a(i)) + n), z3.Select(b1, j_) == val(j_ - off(C.a(i)))), patterns=[z3.Select(b1, j_)])), ('only the answer is written', same_outside(b1, arr(C.pre, C.a(i)), off(C.a(i)), n))]
    call('get_derivatives', (INIT, EVENT, CONT), lambda C: [('mem:real', [base(C.a(1))])], lambda C: answer(C, 1, C.a(2), lambda j: FDER(C.a(0), p(C).cfg, p(C).t, p(C).x, j)), lambda C: nx(C, 2))
    call('get_event_indicators', (INIT, EVENT, CONT), lambda C: [('mem:real', [base(C.a(1))])], lambda C: answer(C, 1, C.a(2), lambda j: FIND(C.a(0), p(C).cfg, p(C).t, p(C).x, j)), lambda C: [('its number of indicators', C.a(2) == NZ(C.a(0))), ('room', valid(C.pre, C.a(1), C.a(2)))])
    call('get_continuous_states', (INIT, EVENT, CONT, ENDED), lambda C: [('mem:real', [base(C.a(1))])], lambda C: [('its states', vec(C.post, C.a(2), C.a(1)) == p(C).x), ('only the answer is written', same_outside(arr(C.post, C.a(1)), arr(C.pre, C.a(1)), off(C.a(1)), C.a(2)))], lambda C: nx(C, 2))

    fi = lambda i, x: S.acc(STRUCT('fmi2_event_info_t'), INFO.index(i), x)

    def nds(C):
        x = C.apost(1)
        g = q(C)
        return [('its answer', z3.And(st(C, 'NEED', g.need), st(C, 'NXD', g.nxd), st(C, 'NXT', g.nxt), (fi('newDiscreteStatesNeeded', x) != 0) == g.need, (fi('nextEventTimeDefined', x) != 0) == g.nxd, z3.Implies(g.nxd, fi('nextEventTime', x) == g.nxt))),
                ('one more', st(C, 'EVN', p(C).evn + 1)), ('its states may change', z3.And(st(C, 'CFG', g.cfg), st(C, 'FX', g.x)))]

    def nds_req(C):
        x = C.a(1)
        f0 = fi('newDiscreteStatesNeeded', x) != 0
        d0 = fi('nextEventTimeDefined', x) != 0
        again = p(C).evn > 0
        return [('answers are prepared, as the library may leave them alone', z3.And(z3.Or(z3.Not(f0), z3.And(again, f0 == p(C).need)), z3.Or(z3.Not(d0), z3.And(again, d0 == p(C).nxd))))]
    call('new_discrete_states', (EVENT,), lambda C: ['param:1'] + G('NEED', 'NXD', 'NXT', 'EVN', 'CFG', 'FX'), nds, nds_req)
    call('completed_integrator_step', (CONT,), lambda C: ['param:2', 'param:3'] + G('STEPS', 'ASK'), lambda C: [('one more', st(C, 'STEPS', p(C).steps + 1)), ('whether there is an event', z3.And(st(C, 'ASK', q(C).ask), (C.apost(2) != 0) == q(C).ask))])

    def dd_req(C):
        z = C.a(3)
        k = NX(C.a(0))
        cols = C.pre.eng.mem_sel(C.pre.st, UINT, S.acc(PU, 0, z))
        o = S.acc(PU, 1, z)
        return [('one state', z3.And(C.a(2) == 1, C.a(1) >= 0, C.a(1) < k)), ('the derivatives', z3.And(C.a(4) == k, S.acc(PU, 0, z) > 0, z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < k), S.sel(cols, o + j_) == k + j_), patterns=[S.sel(cols, o + j_)]))),
                ('seed', z3.And(valid(C.pre, C.a(5), 1), at(C.pre, C.a(5), 0) == 1)), ('room', valid(C.pre, C.a(6), k)), ('they are provided', HASJ(C.a(0)))]
    call('get_directional_derivative', (INIT, EVENT, CONT), lambda C: [('mem:real', [base(C.a(6))])], lambda C: answer(C, 6, C.a(4), lambda j: FPAR(C.a(0), p(C).cfg, p(C).t, p(C).x, j, C.a(1))), dd_req)

    # ------------------------------------------------------------ the wrapper
    system(reg)
    a, b = (lambda C: ME(C.pre, C.this)), (lambda C: ME(C.post, C.this))
    FL = lambda C, *fs: [('ModelExchange.' + f, [C.this]) for f in fs]
    same = lambda C, *gs: [('the rest of the FMU is left alone', z3.And(*[F(C.post, a(C).fmu).__dict__[g].eq(F(C.pre, a(C).fmu).__dict__[g]) or F(C.post, a(C).fmu).__dict__[g] == F(C.pre, a(C).fmu).__dict__[g] for g in gs]))]
    others = lambda C, *gs: [('other FMUs are left alone', z3.ForAll([fm_], z3.Implies(fm_ != a(C).fmu, z3.And(*[z3.Select(C.post.g(g), fm_) == z3.Select(C.pre.g(g), fm_) for g in gs])), patterns=[z3.Select(C.post.g(g), fm_) for g in gs]))]
    state = lambda C, i: [('state given', valid(C.pre, C.a(i), a(C).n))]
    at_q = lambda C, i: [('the FMU is where it was asked', z3.And(b(C).cont, b(C).f.t == at(C.pre, C.a(i), a(C).n - 1), b(C).f.x == xs(C.pre, a(C), C.a(i))))]

    def der_ens(C):
        A = a(C)
        q1, d = arr(C.post, C.a(1)), C.a(1)
        x, t = xs(C.pre, A, C.a(0)), at(C.pre, C.a(0), A.n - 1)
        return b(C).inv() + at_q(C, 0) + [('its derivatives', z3.ForAll([j_], z3.Implies(z3.And(j_ >= off(d), j_ < off(d) + A.n - 1), z3.Select(q1, j_) == FDER(A.fmu, A.f.cfg, t, x, j_ - off(d))), patterns=[z3.Select(q1, j_)])),
                                          ('time goes by', at(C.post, d, A.n - 1) == 1), ('only the answer is written', same_outside(q1, arr(C.pre, d), off(d), A.n))] + others(C, 'MODE', 'FT', 'FX')
    CM = lambda C: FL(C, 'cont_time_mode') + G('MODE', 'FT', 'FX')
    reg(Contract('ModelExchange::der_func(double*,double*)', lambda C: a(C).inv() + state(C, 0) + state(C, 1) + a(C).apart(C.a(1)) + [('answer apart from the state', base(C.a(0)) != base(C.a(1)))], der_ens, lambda C: [('mem:real', [base(C.a(1))])] + CM(C)))

    def ind_ens(C):
        A = a(C)
        q1, d = arr(C.post, C.a(1)), C.a(1)
        x, t = xs(C.pre, A, C.a(0)), at(C.pre, C.a(0), A.n - 1)
        return b(C).inv() + [('its indicators', z3.ForAll([j_], z3.Implies(z3.And(j_ >= off(d), j_ < off(d) + A.m), z3.Select(q1, j_) == FIND(A.fmu, A.f.cfg, t, x, j_ - off(d))), patterns=[z3.Select(q1, j_)])),
                             ('only the answer is written', same_outside(q1, arr(C.pre, d), off(d), A.m))] + others(C, 'MODE', 'FT', 'FX')
    reg(Contract('ModelExchange::state_event_func(double*,double*)', lambda C: a(C).inv() + state(C, 0) + a(C).apart(C.a(1)) + [('room for the answer', z3.Implies(a(C).m > 0, z3.And(valid(C.pre, C.a(1), a(C).m), base(C.a(0)) != base(C.a(1)))))], ind_ens, lambda C: [('mem:real', [base(C.a(1))])] + CM(C)))
    reg(Contract('ModelExchange::time_event_func(double*)', lambda C: a(C).layout() + state(C, 0), lambda C: [('the time left', C.ret == z3.If(a(C).nte < INF, a(C).nte - at(C.pre, C.a(0), a(C).n - 1), INF))], ()))

    def ps_ens(C):
        A, Bq = a(C), b(C)
        t = at(C.pre, C.a(0), A.n - 1)
        went = z3.And(Bq.f.steps == A.f.steps + 1, Bq.t == t, Bq.cont, Bq.f.t == t, Bq.f.x == xs(C.pre, A, C.a(0)), Bq.nte == z3.If(Bq.f.ask, t, A.nte))
        return Bq.inv() + [('a step forward is completed where it ended, and an event asked for is due', z3.Implies(t > A.t, went)),
                           ('otherwise nothing is completed', z3.Implies(t <= A.t, z3.And(Bq.f.steps == A.f.steps, Bq.t == A.t, Bq.nte == A.nte)))] + others(C, 'MODE', 'FT', 'FX', 'STEPS', 'ASK')
    reg(Contract('ModelExchange::postStep(double*)', lambda C: a(C).inv() + state(C, 0) + [('after a trial step', a(C).cont)], ps_ens, lambda C: CM(C) + FL(C, 't_now', 'next_time_event') + G('STEPS', 'ASK')))
    reg(Contract('ModelExchange::postTrialStep(double*)', lambda C: a(C).inv() + state(C, 0), lambda C: b(C).inv() + at_q(C, 0) + others(C, 'MODE', 'FT', 'FX'), CM))

    # ------------------------------------------------------------ events
    def next_time(C):
        return ('the time event the FMU asks for', b(C).nte == z3.If(b(C).f.nxd, b(C).f.nxt, INF))
    EV = ('NEED', 'NXD', 'NXT', 'EVN', 'CFG', 'FX')
    reg(Contract('ModelExchange::iterate_events()', lambda C: a(C).layout() + [('event mode', a(C).f.mode == EVENT)], lambda C: [('events are iterated until none is left', z3.And(b(C).f.evn > a(C).f.evn, z3.Not(b(C).f.need))), next_time(C)] + others(C, *EV), lambda C: FL(C, 'next_time_event') + G(*EV),
                 loops=[LoopSpec(lambda L: iter_inv(L), name='over the iterations of the event')]))

    def iter_inv(L):
        A, c = ME(L.fnpre, L.this), ME(L.cur, L.this)
        x = L.local(STRUCT('fmi2_event_info_t'))
        f0, d0 = fi('newDiscreteStatesNeeded', x) != 0, fi('nextEventTimeDefined', x) != 0
        first = c.f.evn == A.f.evn
        return [('answers so far', z3.And(c.f.evn >= A.f.evn, z3.If(first, z3.And(z3.Not(f0), z3.Not(d0)), z3.And(f0 == c.f.need, d0 == c.f.nxd, z3.Implies(c.f.nxd, fi('nextEventTime', x) == c.f.nxt))))),
                ('other FMUs are left alone', z3.ForAll([fm_], z3.Implies(fm_ != A.fmu, z3.And(*[z3.Select(L.cur.g(g), fm_) == z3.Select(L.fnpre.g(g), fm_) for g in EV])), patterns=[z3.Select(L.cur.g(g), fm_) for g in EV]))]

    def ev_ens(C, i=0):
        A, Bq = a(C), b(C)
        q = C.a(i)
        return Bq.inv() + [('event mode', z3.Not(Bq.cont)), ('events are iterated until none is left', z3.And(Bq.f.evn > A.f.evn, z3.Not(Bq.f.need))), next_time(C), ('the state is the one of the FMU', xs(C.post, A, q) == Bq.f.x),
                           ('only the state is written', same_outside(arr(C.post, q), arr(C.pre, q), off(q), A.n - 1)), ('the time of the FMU stays', Bq.f.t == A.f.t)] + others(C, 'MODE', *EV)
    EVM = lambda C: [('mem:real', [base(C.a(0))])] + FL(C, 'next_time_event', 'cont_time_mode') + G('MODE', *EV)
    ev_req = lambda C: a(C).inv() + state(C, 0) + a(C).apart(C.a(0))
    for nm in ('internal_event(double*,bool*)', 'external_event(double*,double,list)', 'confluent_event(double*,bool*,list)'):
        reg(Contract('ModelExchange::' + nm, ev_req, ev_ens, EVM))
    reg(Contract('ModelExchange::output_func(double*,bool*,list)', lambda C: a(C).layout(), lambda C: [('produces nothing of its own', C.apost(2) == C.a(2))], ['param:2']))

    def init_ens(C):
        A, Bq = a(C), b(C)
        return Bq.inv() + [('initialised, events iterated, in continuous time', z3.And(Bq.cont, Bq.f.evn > A.f.evn)), next_time(C), ('the state is the one of the FMU', z3.And(xs(C.post, A, C.a(0)) == Bq.f.x, at(C.post, C.a(0), A.n - 1) == A.t, Bq.f.t == A.t)),
                           ('only the state is written', same_outside(arr(C.post, C.a(0)), arr(C.pre, C.a(0)), off(C.a(0)), A.n))] + others(C, 'MODE', 'FT', *EV)
    reg(Contract('ModelExchange::init(double*)', lambda C: a(C).layout() + [('not initialised yet', a(C).f.mode == READY)] + state(C, 0) + a(C).apart(C.a(0)), init_ens, lambda C: [('mem:real', [base(C.a(0))])] + FL(C, 'next_time_event', 'cont_time_mode') + G('MODE', 'FT', *EV)))

    # ------------------------------------------------------------ partial derivatives
    def gj_req(C):
        n = a(C).n
        J = C.a(1)
        return a(C).inv() + [('state given', z3.Or(z3.And(base(J) == 0, off(J) == 0), z3.And(valid(C.pre, C.a(0), n), valid(C.pre, J, n * n), base(C.a(0)) != base(J))))] + a(C).apart(J) + [('no product overflows', n * n < 2 ** 31)]

    def entry(A, x, t, j, upto):
        r, c = ROW(A.n, j), COL(A.n, j)
        return z3.If(z3.And(r < A.n - 1, c < upto), FPAR(A.fmu, A.f.cfg, t, x, r, c), z3.RealVal(0))

    def gj_ens(C):
        A = a(C)
        J, n = C.a(1), A.n
        x, t = xs(C.pre, A, C.a(0)), at(C.pre, C.a(0), n - 1)
        q1 = arr(C.post, J)
        has = z3.And(base(J) != 0, HASJ(A.fmu))
        return b(C).inv() + [('known or not', C.ret == HASJ(A.fmu)), ('nothing is written without a place or knowledge', z3.Implies(z3.Not(has), q1 == arr(C.pre, J))), ('only the answer is written', same_outside(q1, arr(C.pre, J), off(J), n * n)),
                             ('by columns, for the states; nothing depends on time', z3.Implies(has, z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < n * n - 1), S.sel(q1, off(J) + j_) == entry(A, x, t, j_, n - 1)), patterns=[S.sel(q1, off(J) + j_)]))),
                             ('one for time itself, as documented', z3.Implies(has, S.sel(q1, off(J) + n * n - 1) == 1))] + others(C, 'MODE', 'FT', 'FX')

    def gj_inv(L):
        A, c = ME(L.fnpre, L.this), ME(L.cur, L.this)
        q, J = L.param_entry(0), L.param_entry(1)
        idx = L.mod_locals(UINT)
        if len(idx) != 1:
            raise SpecMismatch('not a loop over the columns')
        i = idx[0]
        x, t = xs(L.fnpre, A, q), at(L.fnpre, q, A.n - 1)
        q1 = arr(L.cur, J)
        return c.inv() + [('column', z3.And(START(A.n, i) == i * A.n, i >= 0, i <= A.n - 1)), ('the FMU is where it was asked', z3.And(c.cont, c.f.t == t, c.f.x == x, c.f.cfg == A.f.cfg)),
                          ('columns so far', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < A.n * A.n), S.sel(q1, off(J) + j_) == entry(A, x, t, j_, i)), patterns=[S.sel(q1, off(J) + j_)])),
                          ('only the answer is written', same_outside(q1, arr(L.fnpre, J), off(J), A.n * A.n))]

    def gj_ax(C):
        n = a(C).n
        c = z3.Int('c')
        inside = z3.And(j_ >= 0, j_ < n * n)
        return [z3.ForAll([j_], z3.Implies(inside, z3.And(ROW(n, j_) >= 0, ROW(n, j_) < n, COL(n, j_) >= 0, COL(n, j_) < n, j_ == COL(n, j_) * n + ROW(n, j_))), patterns=[ROW(n, j_)]),
                z3.ForAll([c], START(n, c) == c * n, patterns=[START(n, c)]),
                z3.ForAll([j_, c], z3.Implies(z3.And(inside, c >= 0, c < n), z3.And((COL(n, j_) == c) == z3.And(j_ >= START(n, c), j_ < START(n, c) + n), (COL(n, j_) < c) == (j_ < START(n, c)), z3.Implies(COL(n, j_) == c, ROW(n, j_) == j_ - START(n, c)))),
                          patterns=[z3.MultiPattern(COL(n, j_), START(n, c))])]
    reg(Contract('ModelExchange::get_jacobian(double*,double*)', gj_req, gj_ens, lambda C: [('mem:real', [base(C.a(1))])] + CM(C), setup_lemmas=gj_ax,
                 loops=[LoopSpec(gj_inv, match=lambda L: not L.mapped, name='over the columns')]))

    # ------------------------------------------------------------ variables
    GET = dict(real=('VR', 'fmi2_base_type_real', 'double', R), integer=('VI', 'fmi2_base_type_int', 'int', I), boolean=('VB', 'fmi2_base_type_bool', 'int', I))
    info = lambda C, s: S.sel(S.mval(MV(), C.pre.get('ModelExchange.name_to_variable_map', C.this)), s)
    known = lambda C, s: S.sel(S.mdom(MV(), C.pre.get('ModelExchange.name_to_variable_map', C.this)), s)
    for nm, (g, e, cn, so) in GET.items():
        val = lambda v, g, C: z3.Select(z3.Select(v.g(g), C.a(0)), C.a(1))
        call('get_' + nm, (READY, INIT, EVENT, CONT, ENDED), lambda C: ['param:3'], lambda C, g=g, val=val: [('its value', C.apost(3) == val(C.pre, g, C))], lambda C: [('one value', C.a(2) == 1)])
        call('set_' + nm, (READY, INIT, EVENT, CONT), G(g), lambda C, g=g, val=val: [('its value', z3.And(st(C, g, z3.Select(C.post.g(g), C.a(0))), val(C.post, g, C) == C.a(3)))], lambda C: [('one value', C.a(2) == 1)])
    cast = lambda cn, so: UF('any_cast:' + cn, S.Val, so)
    typ = UF('any_type', S.Val, I)
    fld = lambda f, x: S.acc(VI(), [n for n, _ in S.struct_fields(VI())].index(f), x)

    def gv_ens(C):
        x = info(C, C.a(0))
        return [('the value of the variable of that name: ' + nm, z3.Implies(fld('var_type', x) == enum(e), z3.And(typ(C.ret) == strlit('type:' + cn), cast(cn, so)(C.ret) == z3.Select(z3.Select(C.pre.g(g), a(C).fmu), fld('ref', x))))) for nm, (g, e, cn, so) in GET.items()]
    reg(Contract('ModelExchange::get_variable(basic_string)', lambda C: a(C).layout() + [('a mode that allows it', z3.And(a(C).f.mode >= READY, a(C).f.mode <= ENDED)), ('a variable of the FMU', known(C, C.a(0)))], gv_ens, ()))

    def sv_ens(C):
        x = info(C, C.a(0))
        m = a(C).fmu
        return [('the variable of that name has the value: ' + nm, z3.Implies(fld('var_type', x) == enum(e), z3.Select(z3.Select(C.post.g(g), m), fld('ref', x)) == cast(cn, so)(C.a(1)))) for nm, (g, e, cn, so) in GET.items()] + others(C, 'VR', 'VI', 'VB')
    reg(Contract('ModelExchange::set_variable(basic_string,any)', lambda C: a(C).layout() + [('a mode that allows it', z3.And(a(C).f.mode >= READY, a(C).f.mode <= CONT)), ('a variable of the FMU', known(C, C.a(0)))] +
                 [('a value of its type: ' + nm, z3.Implies(fld('var_type', info(C, C.a(0))) == enum(e), typ(C.a(1)) == strlit('type:' + cn))) for nm, (g, e, cn, so) in GET.items()], sv_ens, G('VR', 'VI', 'VB')))

    # ------------------------------------------------------------ loading and unloading
    alive = lambda C, *ix: [('exists', z3.And(*[z3.And(C.a(i) > 0, z3.Select(C.pre.g('LIB'), C.a(i))) for i in ix]))]
    new = lambda C: z3.And(C.ret > 0, z3.Not(z3.Select(C.pre.g('LIB'), C.ret)), C.post.g('LIB') == z3.Store(C.pre.g('LIB'), C.ret, True))
    gone = lambda C: [('released', C.post.g('LIB') == z3.Store(C.pre.g('LIB'), C.a(0), False))]
    ext = lambda name, req=None, ens=None, mods=(), **kw: reg(Contract('extern:' + name, req, ens, mods, trusted=True, note=note, **kw))
    ext('fmi_import_mk_temp_dir', None, lambda C: [('a name', C.ret > 0)])
    ext('fmi_import_rmdir')
    ext('free')
    ext('fmi_import_allocate_context', None, lambda C: [('a new context', new(C))], G('LIB'))
    ext('fmi_import_free_context', lambda C: alive(C, 0), gone, G('LIB'))
    ext('fmi_import_get_fmi_version', lambda C: alive(C, 0))
    ext('fmi2_import_parse_xml', lambda C: alive(C, 0), lambda C: [('a new FMU unless it fails', z3.If(C.ret == 0, C.post.g('LIB') == C.pre.g('LIB'), z3.And(new(C), z3.Select(C.pre.g('MODE'), C.ret) == PARSED, z3.Select(C.pre.g('EVN'), C.ret) == 0, z3.Not(z3.Select(C.pre.g('NEED'), C.ret)), NX(C.ret) >= 0, NX(C.ret) < 2 ** 30, NZ(C.ret) >= 0, NZ(C.ret) < 2 ** 30, NVAR(C.ret) >= 0)))], G('LIB'))
    ext('fmi2_import_get_fmu_kind', lambda C: alive(C, 0), lambda C: [('its kind', C.ret == KIND(C.a(0)))])
    ext('fmi2_import_create_dllfmu', lambda C: alive(C, 0) + there(C, PARSED) + [('for model exchange', C.a(1) == enum('fmi2_fmu_kind_me'))], lambda C: [('loaded', st(C, 'MODE', z3.IntVal(LOADED))), ('accepted', C.ret != enum('jm_status_error'))], G('MODE'))
    ext('fmi2_import_instantiate', lambda C: alive(C, 0) + there(C, LOADED) + [('for model exchange', C.a(2) == enum('fmi2_model_exchange'))], lambda C: [('instantiated', st(C, 'MODE', z3.IntVal(READY))), ('accepted', C.ret != enum('jm_status_error'))], G('MODE'))
    ext('fmi2_import_get_number_of_continuous_states', lambda C: alive(C, 0), answer=lambda C: NX(C.a(0)))
    ext('fmi2_import_get_number_of_event_indicators', lambda C: alive(C, 0), answer=lambda C: NZ(C.a(0)))
    ext('fmi2_import_get_variable_list', lambda C: alive(C, 0), lambda C: [('a new list', z3.And(new(C), OFF(C.ret) == C.a(0)))], G('LIB'))
    ext('fmi2_import_free_variable_list', lambda C: alive(C, 0), gone, G('LIB'))
    ext('fmi2_import_get_variable_list_size', lambda C: alive(C, 0), answer=lambda C: NVAR(OFF(C.a(0))))
    ext('fmi2_import_get_variable', lambda C: alive(C, 0) + [('in the list', z3.And(C.a(1) >= 0, C.a(1) < NVAR(OFF(C.a(0)))))], lambda C: [('a variable', C.ret > 0)], answer=lambda C: VAR(OFF(C.a(0)), C.a(1)))
    var = lambda C: [('a variable', C.a(0) > 0)]
    ext('fmi2_import_get_variable_name', var, lambda C: [('a name', C.ret > 0)], answer=lambda C: VNAME(C.a(0)))
    ext('fmi2_import_get_variable_vr', var, answer=lambda C: VREF(C.a(0)))
    ext('fmi2_import_get_variable_base_type', var, answer=lambda C: VTYPE(C.a(0)))
    ext('fmi2_import_set_debug_logging', lambda C: alive(C, 0))
    ext('fmi2_import_setup_experiment', lambda C: there(C, READY) + [('no stop time', C.a(4) == 0)], lambda C: [('set up', z3.And(st(C, 'T0', C.a(3)), st(C, 'TOL', z3.If(C.a(1) != 0, C.a(2), z3.RealVal(0)))))], G('T0', 'TOL'))
    ext('fmi2_import_get_capability', lambda C: alive(C, 0), lambda C: [('its capability', z3.Implies(C.a(1) == enum('fmi2_me_providesDirectionalDerivatives'), (C.ret != 0) == HASJ(C.a(0))))])
    ext('fmi2_import_terminate', lambda C: there(C, EVENT, CONT, READY), lambda C: [('ended', st(C, 'MODE', z3.IntVal(ENDED)))], G('MODE'))
    ext('fmi2_import_free_instance', lambda C: there(C, ENDED, READY), lambda C: [('no instance', st(C, 'MODE', z3.IntVal(LOADED)))], G('MODE'))
    ext('fmi2_import_destroy_dllfmu', lambda C: there(C, LOADED), lambda C: [('unloaded', st(C, 'MODE', z3.IntVal(PARSED)))], G('MODE'))
    ext('fmi2_import_free', lambda C: alive(C, 0) + there(C, PARSED), gone, G('LIB'))

    def named(v, this, fmu, upto):
        m = v.get('ModelExchange.name_to_variable_map', this)
        nm = VNAME(VAR(fmu, j_))
        x = S.sel(S.mval(MV(), m), nm)
        return z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < upto), z3.And(S.sel(S.mdom(MV(), m), nm), fld('ref', x) == VREF(VAR(fmu, j_)), fld('var_type', x) == VTYPE(VAR(fmu, j_)))), patterns=[VAR(fmu, j_)])

    def ct_ens(C):
        c = b(C)
        return c.layout() + [('ready to be initialised', z3.And(c.f.mode == READY, z3.Not(c.cont))), ('starts at time zero without a time event', z3.And(c.t == 0, z3.Select(C.post.g('T0'), c.fmu) == 0, c.nte == INF)), ('tolerance as configured', z3.Select(C.post.g('TOL'), c.fmu) == C.a(1)),
                             ('an FMU for model exchange', KIND(c.fmu) != enum('fmi2_fmu_kind_cs')), ('variables by name', named(C.post, C.this, c.fmu, NVAR(c.fmu))),
                             ('only the FMU stays open', C.post.g('LIB') == z3.Store(C.pre.g('LIB'), c.fmu, True))]

    def names_inv(L):
        c = ME(L.cur, L.this)
        idx = L.mod_locals(ULONG)
        if len(idx) != 1:
            raise SpecMismatch('not a loop over the variables')
        return [('variables so far', named(L.cur, L.this, c.fmu, idx[0]))]
    unique = lambda C: [z3.ForAll([fm_, j_], VPOS(VNAME(VAR(fm_, j_))) == j_, patterns=[VAR(fm_, j_)])]
    reg(Contract('ModelExchange::ModelExchange(char*,double)', lambda C: [], ct_ens, lambda C: FL(C, 'fmu', 'next_time_event', 't_now', 'cont_time_mode', 'jac_col', 'jac_v', 'callbacks', 'name_to_variable_map') + [('ode_system.N', [C.this]), ('ode_system.M', [C.this])] + G('LIB', 'MODE', 'T0', 'TOL') + ['malive', 'mlen', 'alloc'],
                 ensures_throw=lambda C: [], setup_lemmas=unique, loops=[LoopSpec(names_inv, match=lambda L: not L.mapped, name='over the variables')]))
    x = z3.Int('x')
    reg(Contract('ModelExchange::~ModelExchange()', lambda C: a(C).layout() + [('it can be ended', z3.And(z3.Select(C.pre.g('LIB'), a(C).fmu), z3.Or(*[a(C).f.mode == m for m in (READY, EVENT, CONT)])))],
                 lambda C: [('the FMU is released', C.post.g('LIB') == z3.Store(C.pre.g('LIB'), a(C).fmu, False)), ('everything it allocated is released, and nothing else', z3.ForAll([x], C.post.alive(x) == z3.And(C.pre.alive(x), z3.Or(S.acc(PU, 0, a(C).col) == 0, z3.And(x != S.acc(PU, 0, a(C).col), x != base(a(C).jv)))), patterns=[C.post.alive(x)]))],
                 lambda C: ['malive'] + G('LIB', 'MODE')))


TARGETS = ['ModelExchange::' + x for x in ('der_func(double*,double*)', 'state_event_func(double*,double*)', 'time_event_func(double*)', 'postStep(double*)', 'postTrialStep(double*)', 'iterate_events()', 'internal_event(double*,bool*)',
                                           'external_event(double*,double,list)', 'confluent_event(double*,bool*,list)', 'output_func(double*,bool*,list)', 'init(double*)', 'ModelExchange(char*,double)', '~ModelExchange()', 'get_variable(basic_string)', 'set_variable(basic_string,any)', 'get_jacobian(double*,double*)')]
DRIVER = 'fmi.cpp'
PROG = dict(extra=('-I' + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', 'stub'),))
ENGINE = dict(entity=(), value=('exception', 'fmi2_event_info_t', 'variable_info_t', 'jm_callbacks'), ghosts=Ghosts(), opts=dict(numeric=True))
ASSUMPTIONS = ['double arithmetic is taken as real arithmetic', 'the FMI Library and the FMU behave as the FMI 2.0 standard says: calls allowed in the current mode succeed; derivatives, indicators and partial derivatives are functions of time, continuous and discrete state',
               'the library hands the references for partial derivatives on in swapped order and OpenModelica numbers states 0..N-1 and their derivatives N..2N-1 (comment in fmi.h)', 'partial derivatives with respect to time are taken as zero (documented in fmi.h)',
               'termination of the event iteration is up to the FMU']


def tenv(prog):
    return TypeEnv(set(), prog.enum_types, {'V': VAL}, {'path': STR, 'fmi2_import_t': Ty('cls', 'fmi2_import_t'), 'fmi2_value_reference_t': UINT, 'fmi2_real_t': REAL, 'fmi2_integer_t': INT, 'fmi2_boolean_t': INT,
                     **{e: INT for e in ('fmi2_status_t', 'fmi2_base_type_enu_t', 'jm_status_enu_t', 'jm_log_level_enu_t', 'fmi_version_enu_t', 'fmi2_fmu_kind_enu_t', 'fmi2_type_t', 'fmi2_capabilities_enu_t')}})


def prepare(eng):
    S.register_struct('fmi2_event_info_t', [(f, INT) for f in INFO[:-1]] + [(INFO[-1], REAL)])
    S.register_struct('jm_callbacks', [(f, INT) for f in ('malloc', 'calloc', 'realloc', 'free', 'logger', 'log_level')] + [('context', REF('void'))])


def theory(eng):
    return AX
