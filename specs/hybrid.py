"""Contracts of Hybrid (C16). What the discrete part of the user's model is told is recorded in ghost variables: call number n has
kind K[n], state SV[n], flags FL[n], elapsed time EL[n], input IN[n], leaves state RS[n] and answers output OL[n]. The continuous
behaviour between two events of the model is that of one `epoch`; solver and locator enter through relations of states:
  FLOW(ep,v,h,w)   the solver takes v to w in h
  LOC(ep,v,h,w,b)  from v the locator answers w, reached after h, with the flags b
  NOEV(ep,v,h,w)   w was reached from v after h by such answers without any flag
  REACH(ep,v,h,w)  w was reached from v after h by the solver and the locator"""
import z3
from vc.engine import *
from vc import sorts as S
from vc.types import *
from specs import ode as O, graph as GR, simulator as SM, locators as LC
from specs.ode import *

INT_, EXT, CONF, OUT = 1, 2, 3, 4
BV = z3.DeclareSort('BVec')
e_, m_, k_ = z3.Ints('ep m k')
x_, y_ = z3.Consts('x y', AB)
bu_ = z3.Const('bu', BV)
bnorm = z3.Function('bnorm', I, AB, I, BV)
belem = z3.Function('belem', BV, I, B)
bdiff = z3.Function('bdiff', I, AB, I, AB, I, I)
none_ = z3.Function('no_flag', I, BV, B)
FLOW = z3.Function('FLOW', I, Vec, R, Vec, B)
LOC = z3.Function('LOC', I, I, Vec, R, Vec, BV, B)
NOEV = z3.Function('NOEV', I, I, Vec, R, Vec, B)
REACH = z3.Function('REACH', I, I, Vec, R, Vec, B)
POST = z3.Function('POST', I, Vec, Vec, B)
TEV = z3.Function('TEV', I, Vec, R)
INIT = z3.Function('INIT', I, Vec)
t_ = z3.Real('t')
MP = z3.MultiPattern

AX = O.AX[:2] + [
    z3.ForAll([n_, x_, o_, j_], z3.Implies(z3.And(j_ >= 0, j_ < n_), belem(bnorm(n_, x_, o_), j_) == z3.Select(x_, o_ + j_)), patterns=[belem(bnorm(n_, x_, o_), j_)]),
    z3.ForAll([n_, x_, o_, y_, o2_], z3.Or(bnorm(n_, x_, o_) == bnorm(n_, y_, o2_),
                                         z3.And(bdiff(n_, x_, o_, y_, o2_) >= 0, bdiff(n_, x_, o_, y_, o2_) < n_,
                                                z3.Select(x_, o_ + bdiff(n_, x_, o_, y_, o2_)) != z3.Select(y_, o2_ + bdiff(n_, x_, o_, y_, o2_)))),
              patterns=[MP(bnorm(n_, x_, o_), bnorm(n_, y_, o2_))]),
    # nothing is known about the solver and the locator beyond their contracts; these close the relations
    z3.ForAll([e_, m_, v_], NOEV(e_, m_, v_, 0, v_), patterns=[NOEV(e_, m_, v_, 0, v_)]),
    z3.ForAll([e_, m_, v_, h_, w_, bu_], z3.Implies(z3.And(LOC(e_, m_, v_, h_, w_, bu_), none_(m_, bu_)), NOEV(e_, m_, v_, h_, w_)), patterns=[MP(LOC(e_, m_, v_, h_, w_, bu_), none_(m_, bu_))]),
    z3.ForAll([e_, m_, v_, h_, w_, u_], z3.Implies(z3.And(NOEV(e_, m_, v_, h_, w_), POST(e_, w_, u_)), NOEV(e_, m_, v_, h_, u_)), patterns=[MP(NOEV(e_, m_, v_, h_, w_), POST(e_, w_, u_))]),
    z3.ForAll([e_, m_, v_, h_, w_, bu_, u_], z3.Implies(z3.And(LOC(e_, m_, v_, h_, w_, bu_), POST(e_, w_, u_)), LOC(e_, m_, v_, h_, u_, bu_)), patterns=[MP(LOC(e_, m_, v_, h_, w_, bu_), POST(e_, w_, u_))]),
    z3.ForAll([e_, m_, v_, h_, w_, g_, u_, bu_], z3.Implies(z3.And(NOEV(e_, m_, v_, h_, w_), LOC(e_, m_, w_, g_, u_, bu_)), LOC(e_, m_, v_, h_ + g_, u_, bu_)),
              patterns=[MP(NOEV(e_, m_, v_, h_, w_), LOC(e_, m_, w_, g_, u_, bu_))]),
    z3.ForAll([e_, m_, v_, h_, w_, g_, u_], z3.Implies(z3.And(NOEV(e_, m_, v_, h_, w_), FLOW(e_, w_, g_, u_)), REACH(e_, m_, v_, h_ + g_, u_)), patterns=[MP(NOEV(e_, m_, v_, h_, w_), FLOW(e_, w_, g_, u_))]),
    z3.ForAll([e_, m_, v_, h_, w_, u_], z3.Implies(z3.And(REACH(e_, m_, v_, h_, w_), POST(e_, w_, u_)), REACH(e_, m_, v_, h_, u_)), patterns=[MP(REACH(e_, m_, v_, h_, w_), POST(e_, w_, u_))])]


def init(eng):
    global PIN, PV_, LPV, PVS
    GR.init()
    PIN = STRUCT('pin_t')
    PV_ = STRUCT('PinValue')
    PVS = S.sort(PV_)
    LPV = LIST(PV_)


A_ = lambda s: z3.ArraySort(I, s)
GH = dict(ep=lambda: I, n=lambda: I, K=lambda: A_(I), SV=lambda: A_(Vec), FL=lambda: A_(AB), EL=lambda: A_(R), IN=lambda: A_(S.sort(LPV)), RS=lambda: A_(Vec), OL=lambda: A_(S.sort(LPV)))


class Ghosts(dict):
    def __missing__(self, g):
        return GH[g]()


QUIET = ['static:pin_t::atom']
DIMS = z3.Function('DIM', I, I)


class H:
    def __init__(self, v, s):
        self.v, self.s = v, s
        f = lambda n: v.get('Hybrid.' + n, s)
        self.sys, self.solver, self.finder = f('sys'), f('solver'), f('event_finder')
        self.q, self.qt, self.ev = f('q'), f('q_trial'), f('event')
        self.sigma, self.exists, self.happened, self.acc, self.missed = f('sigma'), f('event_exists'), f('event_happened'), f('e_accum'), f('missedOutput')
        self.n, self.m = dim(v, self.sys), O.events(v, self.sys)
        self.ep = v.g('ep')

    @property
    def vq(self):
        return vec(self.v, self.n, self.q)

    @property
    def vt(self):
        return vec(self.v, self.n, self.qt)

    @property
    def flags(self):
        return arr(self.v, self.ev, BOOL)

    @property
    def report(self):
        return bnorm(self.m, self.flags, z3.IntVal(0))

    def flag(self, j):
        return z3.Select(self.flags, j)

    @property
    def nmissed(self):
        return S.llen(LPV, self.missed)

    def layout(self):
        v = self.v
        return [('objects', z3.And(*[z3.And(x > 0, x < v.alloc) for x in (self.sys, self.solver, self.finder)], self.n >= 0, self.m >= 0, DIMS(self.solver) == self.n)),
                ('state arrays', z3.And(valid(v, self.q, self.n), valid(v, self.qt, self.n), off(self.q) == 0, off(self.qt) == 0, base(self.q) != base(self.qt))),
                ('flags array', z3.And(valid(v, self.ev, self.m + 1), off(self.ev) == 0, base(self.ev) != base(self.q), base(self.ev) != base(self.qt)))]

    def step(self):
        """the step that is ahead"""
        return [('the next event is not in the past', self.sigma >= 0),
                ('no further than the time event', self.sigma <= TEV(self.ep, self.vq)),
                ('the tentative state is the one located for the time advance', LOC(self.ep, self.m, self.vq, self.sigma, self.vt, self.report)),
                ('time event flag', self.flag(self.m) == (TEV(self.ep, self.vq) <= self.sigma)),
                ('an event is due only if a flag is set', z3.Implies(self.exists, z3.Or(self.flag(self.m), z3.Exists([j_], z3.And(j_ >= 0, j_ < self.m, self.flag(j_)), patterns=[self.flag(j_)])))),
                ('an event is due if the time flag is set', z3.Implies(self.flag(self.m), self.exists)),
                ('an event is due if a flag is set', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < self.m, self.flag(j_)), self.exists), patterns=[self.flag(j_)])),
                ('an immediate step is an event', z3.Implies(self.sigma == 0, self.exists))]

    def inv(self):
        return self.layout() + self.step() + [('elapsed time', self.acc >= 0), ('late events have just happened', z3.Implies(self.nmissed > 0, self.acc == 0)), ('calls', self.v.g('n') >= 0)]


def anyflag(fl, m):
    return z3.Exists([j_], z3.And(j_ >= 0, j_ <= m, z3.Select(fl, j_)), patterns=[z3.Select(fl, j_)])


def cat(new, a, *parts):
    """the list `new` is `a` followed by the parts"""
    out, at_ = [], S.llen(LPV, a)
    e = S.sel(S.larr(LPV, new), k_)
    out.append(z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < at_), e == S.sel(S.larr(LPV, a), k_)), patterns=[e]))
    for p in parts:
        n = S.llen(LPV, p)
        out.append(z3.ForAll([k_], z3.Implies(z3.And(k_ >= at_, k_ < at_ + n), e == S.sel(S.larr(LPV, p), k_ - at_)), patterns=[e]))
        at_ = at_ + n
    return z3.And(S.llen(LPV, new) == at_, *out)


def build(reg):
    system_(reg)
    FE = 'event_locator::find_events(bool*,double*,double*,ode_solver*,double)'

    # ------------------------------------------------------------ solver and locator
    def so_req(C):
        return [('state given', valid(C.pre, C.a(0), DIMS(C.this))), ('interval', C.a(1) >= 0)]

    def so_ens(C, h):
        n = z3.Int('nn')
        p = C.a(0)
        return [('its solution', z3.ForAll([n], z3.Implies(n == DIMS(C.this), FLOW(C.pre.g('ep'), norm(n, arr(C.pre, p), off(p)), h, norm(n, arr(C.post, p), off(p)))), patterns=[norm(n, arr(C.post, p), off(p))])),
                ('only the state is written', same_outside(arr(C.post, p), arr(C.pre, p), off(p), DIMS(C.this)))]
    note = 'interface of the integrators; proved for rk_45 and corrected_euler (C17)'
    reg(Contract('ode_solver::integrate(double*,double)', so_req, lambda C: so_ens(C, C.ret) + [('no further than asked', z3.And(C.ret >= 0, C.ret <= C.a(1))), ('some progress', z3.Implies(C.a(1) > 0, C.ret > 0))],
                 lambda C: [('mem:real', [base(C.a(0))])], trusted=True, note=note))
    reg(Contract('ode_solver::advance(double*,double)', so_req, lambda C: so_ens(C, C.a(1)), lambda C: [('mem:real', [base(C.a(0))])], trusted=True, note=note))

    def fe_nm(C):
        s = C.pre.get('event_locator.sys', C.this)
        return C.fe if hasattr(C, 'fe') else (dim(C.pre, s), O.events(C.pre, s))

    def hyb(C):
        return H(C.eng_pre if hasattr(C, 'eng_pre') else C.pre, C.eng.frames_this[-1].t if C.eng.frames_this else C.this)

    def fe_req(C):
        h = hyb(C)
        ev, q0, q1 = C.a(0), C.a(1), C.a(2)
        return [('flags given', valid(C.pre, ev, h.m)), ('start given', valid(C.pre, q0, h.n)), ('end given', valid(C.pre, q1, h.n)), ('start and end are different arrays', base(q0) != base(q1)),
                ('step', C.a(4) >= 0), ('solver', z3.And(C.a(3) > 0, DIMS(C.a(3)) == h.n)),
                ('the end is the solution a step after the start', FLOW(h.ep, vec(C.pre, h.n, q0), C.a(4), vec(C.pre, h.n, q1)))]

    def fe_ens(C):
        h = hyb(C)
        ev, q0, q1 = C.a(0), C.a(1), C.a(2)
        h0, h1 = C.a(4), C.apost(4)
        fl = arr(C.post, ev, BOOL)
        rep = bnorm(h.m, fl, off(ev))
        rng = z3.And(j_ >= off(ev), j_ < off(ev) + h.m)
        return [('the step is not lengthened', z3.And(h1 >= 0, h1 <= h0, z3.Implies(h0 > 0, h1 > 0))),
                ('only the state is written', same_outside(arr(C.post, q1), arr(C.pre, q1), off(q1), h.n)),
                ('only the flags are written', same_outside(fl, arr(C.pre, ev, BOOL), off(ev), h.m)),
                ('an event has a cause', z3.Implies(C.ret, z3.Exists([j_], z3.And(rng, S.sel(fl, j_)), patterns=[S.sel(fl, j_)]))),
                ('no event: no flag is set', z3.Implies(z3.Not(C.ret), z3.ForAll([j_], z3.Implies(rng, z3.Not(S.sel(fl, j_))), patterns=[S.sel(fl, j_)]))),
                ('report', none_(h.m, rep) == z3.Not(C.ret)),
                ('its answer', LOC(h.ep, h.m, vec(C.pre, h.n, q0), h1, vec(C.post, h.n, q1), rep))]
    reg(Contract(FE, fe_req, fe_ens, lambda C: [('mem:real', [base(C.a(2))]), ('mem:bool', [base(C.a(0))]), 'param:4'], trusted=True,
                 note='interface of the event locators; proved for those of the library (C18; null_event_locator: for systems without event functions)'))

    # ------------------------------------------------------------ Hybrid
    me = lambda C: C.this
    pre = lambda C: H(C.pre, C.this)
    post = lambda C: H(C.post, C.this)
    F = lambda *fs: (lambda C: [('Hybrid.' + f, [C.this]) for f in fs])
    GEV = ['ghost:' + g for g in ('ep', 'n', 'K', 'SV', 'FL', 'EL', 'IN', 'RS')]
    GOUT = ['ghost:' + g for g in ('n', 'K', 'SV', 'FL', 'OL')]

    def copy_inv(L):
        a = H(L.fnpre, L.this) if not L.fc.fn.kind == 'CXXConstructorDecl' else H(L.entry, L.this)
        idx = L.mod_locals(INT)
        subs = L.mod.get(('mem', 'real'), {})
        if len(idx) != 1 or None in subs or len(subs) != 1:
            raise SpecMismatch('not a loop over the state variables')
        i = idx[0]
        w, = subs.values()
        h = H(L.cur, L.this)
        m0 = L.entry.mem(REAL)
        x = S.sel(L.cur.mem(REAL), w)
        other = h.qt if z3.simplify(w).eq(z3.simplify(base(h.q))) else h.q
        y = arr(L.cur, other)
        return [('copied so far', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < i), z3.Select(x, j_) == z3.Select(y, j_)), patterns=[z3.Select(x, j_)])),
                ('the rest is as before', z3.ForAll([j_], z3.Implies(z3.Or(j_ < 0, j_ >= i), z3.Select(x, j_) == z3.Select(S.sel(m0, w), j_)), patterns=[z3.Select(x, j_)])),
                ('not beyond the state', z3.Or(i <= h.n, i <= 0))]
    COPY = LoopSpec(copy_inv, match=lambda L: ('mem', 'real') in L.mod and not any('advance' in c or 'find_events' in c for c in L.calls), name='copying the state')

    reg(Contract('Hybrid::ta()', None, lambda C: [('the time to the next event, at once if output is late', C.ret == z3.If(pre(C).nmissed > 0, 0, pre(C).sigma))], ()))
    reg(Contract('Hybrid::tentative_step()', inline=True))
    reg(Contract('Hybrid::getState(int)', lambda C: pre(C).layout() + [('variable', z3.And(C.a(0) >= 0, C.a(0) < pre(C).n))], lambda C: [('the variable', C.ret == S.sel(arr(C.pre, pre(C).q), C.a(0)))], ()))
    reg(Contract('Hybrid::getSystem()', None, lambda C: [('the system', C.ret == pre(C).sys)], ()))
    reg(Contract('Hybrid::eventHappened()', None, lambda C: [('as of the last transition', C.ret == pre(C).happened)], ()))

    def call(C, i, kind, state=None, flags=None, el=None, inp=None):
        """call number i of this activation"""
        n = C.pre.g('n') + i
        g = lambda x: z3.Select(C.post.g(x), n)
        r = [g('K') == kind]
        if state is not None:
            r.append(g('SV') == state)
        if flags is not None:
            r.append(g('FL') == flags)
        if el is not None:
            r.append(g('EL') == el)
        if inp is not None:
            r.append(g('IN') == inp)
        return z3.And(*r)

    def calls(C, k):
        return C.post.g('n') == C.pre.g('n') + k

    # construction
    def ct_ens(C):
        b = post(C)
        return b.inv() + [('starts in the initial state', b.vq == INIT(C.a(0))), ('nothing has happened', z3.And(b.nmissed == 0, z3.Not(b.happened), b.acc == 0)), ('no call', calls(C, 0)),
                          ('as configured', z3.And(b.sys == C.a(0), b.solver == C.a(1), b.finder == C.a(2)))]
    reg(Contract('Hybrid::Hybrid(ode_system*,ode_solver*,event_locator*)',
                 lambda C: [('objects', z3.And(*[z3.And(C.a(i) > 0, C.a(i) < C.pre.alloc) for i in range(3)])), ('system', z3.And(dim(C.pre, C.a(0)) >= 0, O.events(C.pre, C.a(0)) >= 0, DIMS(C.a(1)) == dim(C.pre, C.a(0)))), ('calls', C.pre.g('n') >= 0)],
                 ct_ens, lambda C: F('sys', 'solver', 'event_finder', 'sigma', 'q', 'q_trial', 'event', 'event_exists', 'event_happened', 'e_accum', 'missedOutput')(C) + ['malive', 'mlen', 'alloc'] + QUIET +
                 [('Atomic.' + f, [C.this]) for f in ('tL', 'tN', 'q_index', 'inputs', 'outputs', 'revisable_inputs', 'graph', 'sim')], loops=[COPY]))

    # output
    def of_ens(C):
        a, b = pre(C), post(C)
        y0, y1 = C.a(0), C.apost(0)
        ans = z3.Select(C.post.g('OL'), C.pre.g('n'))
        asked = call(C, 0, OUT, b.vt, a.flags)
        late = a.nmissed > 0
        more = z3.If(late, a.sigma == 0, a.exists)
        return b.inv() + [
            ('asked exactly if an event is due', z3.If(more, z3.And(calls(C, 1), asked), calls(C, 0))),
            ('late output first, then what the model answers', z3.If(late, z3.If(more, cat(y1, y0, a.missed, ans), cat(y1, y0, a.missed)), z3.If(more, cat(y1, y0, ans), cat(y1, y0)))),
            ('the flags stay', arr(C.post, a.ev, BOOL) == a.flags)]

    def of_loop(L):
        a = H(L.fnpre, L.this)
        it = L.it('Hybrid.missedOutput')
        y0, y = L.param_entry(0), L.param(0)
        e = S.sel(S.larr(LPV, y), k_)
        n0 = S.llen(LPV, y0)
        return [('so far', z3.And(it.pos >= 0, it.pos <= a.nmissed, S.llen(LPV, y) == n0 + it.pos)),
                ('earlier entries kept', z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < n0), e == S.sel(S.larr(LPV, y0), k_)), patterns=[e])),
                ('late output so far', z3.ForAll([k_], z3.Implies(z3.And(k_ >= n0, k_ < n0 + it.pos), e == S.sel(S.larr(LPV, a.missed), k_ - n0)), patterns=[e]))]
    reg(Contract('Hybrid::output_func(list)#out', lambda C: pre(C).inv(), of_ens, lambda C: ['param:0', ('mem:real', [base(pre(C).qt)])] + GOUT + QUIET, loops=[LoopSpec(of_loop, name='over late output')]))

    # transitions
    TR = lambda C: F('sigma', 'event_exists', 'event_happened', 'e_accum', 'missedOutput')(C) + [('mem:real', [base(pre(C).q), base(pre(C).qt)]), ('mem:bool', [base(pre(C).ev)])] + GEV + QUIET
    rs = lambda C, i: z3.Select(C.post.g('RS'), C.pre.g('n') + i)

    def di_ens(C):
        a, b = pre(C), post(C)
        stay = z3.And(a.nmissed > 0, a.sigma > 0)
        return b.inv() + [
            ('late output is done', b.nmissed == 0),
            ('after late output nothing else happens', z3.Implies(stay, z3.And(calls(C, 0), b.vq == a.vq, b.sigma == a.sigma, b.acc == a.acc, b.exists == a.exists, b.flags == a.flags, b.vt == a.vt, b.ep == a.ep))),
            ('an event that is due is handled once', z3.Implies(z3.And(z3.Not(stay), a.exists), z3.And(calls(C, 1), call(C, 0, INT_, a.vt, a.flags), b.vq == rs(C, 0), b.acc == 0, b.happened))),
            ('otherwise the state moves on', z3.Implies(z3.And(z3.Not(stay), z3.Not(a.exists)), z3.And(calls(C, 0), b.vq == a.vt, b.acc == a.acc + a.sigma, z3.Not(b.happened), b.ep == a.ep)))]
    reg(Contract('Hybrid::delta_int()', lambda C: pre(C).inv(), di_ens, TR, loops=[COPY]))

    def dc_ens(C):
        a, b = pre(C), post(C)
        late = z3.And(a.nmissed > 0, a.sigma > 0)
        return b.inv() + [
            ('late output is done', b.nmissed == 0),
            ('one call', z3.And(calls(C, 1), b.vq == rs(C, 0), b.acc == 0, b.happened)),
            ('an event that is due is handled with the input', z3.Implies(z3.And(z3.Not(late), a.exists), call(C, 0, CONF, a.vt, a.flags, inp=C.a(0)))),
            ('otherwise the input is handled', z3.Implies(z3.And(z3.Not(late), z3.Not(a.exists)), call(C, 0, EXT, a.vt, el=a.acc + a.sigma, inp=C.a(0)))),
            ('after late output the input finds the present state', z3.Implies(late, call(C, 0, EXT, a.vq, el=z3.RealVal(0), inp=C.a(0))))]
    reg(Contract('Hybrid::delta_conf(list)', lambda C: pre(C).inv(), dc_ens, TR, loops=[COPY]))

    def de_ens(C):
        a, b = pre(C), post(C)
        n = C.pre.g('n')
        g = lambda x, i: z3.Select(C.post.g(x), n + i)
        e = C.a(0)
        plain = C.post.g('n') == n + 1
        fl = g('FL', 0)
        return b.inv() + [
            ('one event', z3.Or(plain, calls(C, 2))), ('happened', z3.And(b.happened, b.acc == 0)),
            ('the input is handled', z3.Implies(plain, z3.And(call(C, 0, EXT, el=e + a.acc, inp=C.a(1)), b.vq == rs(C, 0), b.nmissed == 0))),
            ('the state is the one at the time of the input', z3.Implies(plain, z3.Exists([t_], z3.And(t_ == e, REACH(a.ep, a.m, a.vq, t_, g('SV', 0))), patterns=[REACH(a.ep, a.m, a.vq, t_, g('SV', 0))]))),
            ('no event up to the input', z3.Implies(z3.And(plain, a.exists), z3.Exists([t_, w_], z3.And(t_ == e, NOEV(a.ep, a.m, a.vq, t_, w_)), patterns=[NOEV(a.ep, a.m, a.vq, t_, w_)]))),
            ('an event found late is handled with the input', z3.Implies(z3.Not(plain), z3.And(a.exists, call(C, 0, OUT), call(C, 1, CONF, g('SV', 0), fl, inp=C.a(1)), b.vq == rs(C, 1)))),
            ('its output is kept', z3.Implies(z3.Not(plain), cat(b.missed, g('OL', 0)))),
            ('it was located before the input', z3.Implies(z3.Not(plain), z3.Exists([t_], z3.And(t_ >= 0, t_ <= e, LOC(a.ep, a.m, a.vq, t_, g('SV', 0), bnorm(a.m, fl, z3.IntVal(0)))), patterns=[LOC(a.ep, a.m, a.vq, t_, g('SV', 0), bnorm(a.m, fl, z3.IntVal(0)))]))),
            ('it is a state event', z3.Implies(z3.Not(plain), z3.And(z3.Not(z3.Select(fl, a.m)), anyflag(fl, a.m))))]

    def de_loop(L):
        a, c = H(L.fnpre, L.this), H(L.cur, L.this)
        left, = LC.roles(L, REAL, ('e_left',))
        e = L.param_entry(0)
        return [('interval left', z3.And(left >= 0, left <= e)),
                ('no event so far', z3.Exists([t_], z3.And(t_ == e - left, NOEV(a.ep, a.m, a.vq, t_, c.vq)), patterns=[NOEV(a.ep, a.m, a.vq, t_, c.vq)])),
                ('time flag', c.flag(a.m) == a.flag(a.m)),
                ('only own arrays are written', z3.And(same_outside(arr(L.cur, a.q), arr(L.fnpre, a.q), z3.IntVal(0), a.n), same_outside(arr(L.cur, a.qt), arr(L.fnpre, a.qt), z3.IntVal(0), a.n)))]
    reg(Contract('Hybrid::delta_ext(double,list)', lambda C: pre(C).inv() + [('between the events', z3.And(C.a(0) >= 0, C.a(0) <= pre(C).sigma, pre(C).nmissed == 0))], de_ens, lambda C: TR(C) + GOUT,
                 loops=[COPY, LoopSpec(de_loop, match=lambda L: any('find_events' in c for c in L.calls), name='looking for an event before the input'), LoopSpec(of_loop, name='over late output')]))
    reg(Contract('Atomic::Atomic()', inline=True))


def system_(reg):
    """the user's system: its discrete part is recorded"""
    O.system(reg)
    given = lambda C, i=0: ('state given', valid(C.pre, C.a(i), dim(C.pre, C.this)))
    flagsg = lambda C: ('flags given', valid(C.pre, C.a(1), O.events(C.pre, C.this) + 1))
    st = lambda C, v, i=0: vec(v, dim(C.pre, C.this), C.a(i))
    kept = lambda C: ('only the state is written', same_outside(arr(C.post, C.a(0)), arr(C.pre, C.a(0)), off(C.a(0)), dim(C.pre, C.this)))
    mem = lambda C: [('mem:real', [base(C.a(0))])]
    reg(Contract('ode_system::init(double*)', lambda C: [given(C)], lambda C: [('the initial state', st(C, C.post) == INIT(C.this)), kept(C)], mem, trusted=True, note='user code'))
    reg(Contract('ode_system::time_event_func(double*)', lambda C: [given(C)], lambda C: [('its value', C.ret == TEV(C.pre.g('ep'), st(C, C.pre))), ('not negative', C.ret >= 0)], (), trusted=True,
                 note='user code: between two events a non-negative function of the state'))
    reg(Contract('ode_system::postStep(double*)', lambda C: [given(C)], lambda C: [('adjusted', POST(C.pre.g('ep'), st(C, C.pre), st(C, C.post))), kept(C)], mem, trusted=True, note='user code: may adjust the state'))
    reg(Contract('ode_system::postTrialStep(double*)', lambda C: [given(C)], None, (), trusted=True, note='user code: assumed to leave the state itself as it is'))

    def rec(C, kind, **kw):
        n = C.pre.g('n')
        up = dict(K=z3.IntVal(kind), SV=st(C, C.pre), **kw)
        return [('recorded', z3.And(C.post.g('n') == n + 1, *[C.post.g(g) == z3.Store(C.pre.g(g), n, x) for g, x in up.items()]))]
    ev = lambda C: [C.post.g('ep') == C.pre.g('ep') + 1]
    G = lambda *gs: ['ghost:' + g for g in gs]
    fl = lambda C: arr(C.pre, C.a(1), BOOL)
    off0 = lambda C: ('flags from the start', off(C.a(1)) == 0)
    base_g = ('ep', 'n', 'K', 'SV', 'RS')
    ens = lambda C, kind, **kw: rec(C, kind, RS=st(C, C.post), **kw) + [('another epoch', C.post.g('ep') == C.pre.g('ep') + 1), kept(C)]
    note = 'user code: records the call, leaves any state'
    reg(Contract('ode_system::internal_event(double*,bool*)', lambda C: [given(C), flagsg(C), off0(C)], lambda C: ens(C, INT_, FL=fl(C)), lambda C: mem(C) + G(*base_g, 'FL'), trusted=True, note=note))
    reg(Contract('ode_system::external_event(double*,double,list)', lambda C: [given(C)], lambda C: ens(C, EXT, EL=C.a(1), IN=C.a(2)), lambda C: mem(C) + G(*base_g, 'EL', 'IN'), trusted=True, note=note))
    reg(Contract('ode_system::confluent_event(double*,bool*,list)', lambda C: [given(C), flagsg(C), off0(C)], lambda C: ens(C, CONF, FL=fl(C), IN=C.a(2)), lambda C: mem(C) + G(*base_g, 'FL', 'IN'), trusted=True, note=note))

    def out_ens(C):
        n = C.pre.g('n')
        ans = z3.Select(C.post.g('OL'), n)
        return [('recorded', z3.And(C.post.g('n') == n + 1, C.post.g('K') == z3.Store(C.pre.g('K'), n, OUT), C.post.g('SV') == z3.Store(C.pre.g('SV'), n, st(C, C.pre)), C.post.g('FL') == z3.Store(C.pre.g('FL'), n, fl(C)),
                                    C.post.g('OL') == z3.Store(C.pre.g('OL'), n, ans))),
                ('its answer is added', z3.And(S.llen(LPV, ans) >= 0, cat(C.apost(2), C.a(2), ans)))]
    reg(Contract('ode_system::output_func(double*,bool*,list)', lambda C: [given(C), flagsg(C), off0(C)], out_ens, lambda C: ['param:2'] + G('n', 'K', 'SV', 'FL', 'OL'), trusted=True, note='user code: adds output to the list; records the call'))


TARGETS = ['Hybrid::Hybrid(ode_system*,ode_solver*,event_locator*)', 'Hybrid::ta()', 'Hybrid::getState(int)', 'Hybrid::getSystem()', 'Hybrid::eventHappened()', 'Hybrid::output_func(list)#out', 'Hybrid::delta_int()', 'Hybrid::delta_conf(list)', 'Hybrid::delta_ext(double,list)']
DRIVER = 'solvers.cpp'
ENGINE = dict(entity=('spline',), value=('exception',), ghosts=Ghosts(), opts=dict(numeric=True))
ASSUMPTIONS = ['double arithmetic is taken as real arithmetic', 'solver and locator answer for the system of the model; between two discrete events of the model its continuous part is a function of the state',
               'the arrays of the model are not reachable by the solver, the locator or the user code except through the arguments', 'inputs arrive no later than the next internal event and not while late output is due (the simulator sees to it, C07 and C08)',
               'termination of the search for a late event is not proved']


def tenv(prog):
    return TypeEnv(set(), prog.enum_types, {'V': VAL}, {})


def prepare(eng):
    init(eng)


def theory(eng):
    return AX
