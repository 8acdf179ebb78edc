"""Contracts of the event locators and of the interpolation they may use (C18)."""
import z3
from vc.engine import *
from vc import sorts as S
from vc.types import *
from specs import ode as O
from specs.ode import *

NC = z3.Function('NC', I, I, Vec, Vec, B)       # no event function of the system changes its sign between the states
POLY = z3.Function('POLY', AR, AR, AR, AR, R, AR)


def cross(x, y):
    """the product is not positive"""
    return z3.Or(z3.And(x <= 0, y >= 0), z3.And(x >= 0, y <= 0))


m_ = z3.Int('m')
k_ = z3.Array('kc', I, R)
c_, e_ = z3.Const('c', AR), z3.Const('e', AR)
t_ = z3.Real('t')
AX = O.AX + [
    z3.ForAll([s_, m_, v_, w_], z3.Implies(NC(s_, m_, v_, w_), z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < m_), z3.Not(cross(Z(s_, v_, j_), Z(s_, w_, j_)))), patterns=[Z(s_, w_, j_)])), patterns=[NC(s_, m_, v_, w_)]),
    z3.ForAll([s_, m_, v_, w_], z3.Or(NC(s_, m_, v_, w_), z3.Exists([j_], z3.And(j_ >= 0, j_ < m_, cross(Z(s_, v_, j_), Z(s_, w_, j_))), patterns=[Z(s_, w_, j_)])), patterns=[NC(s_, m_, v_, w_)]),
    z3.ForAll([a_, b_, c_, e_, t_, j_], z3.Select(POLY(a_, b_, c_, e_, t_), j_) == z3.Select(a_, j_) * (t_ * t_ * t_) + z3.Select(b_, j_) * (t_ * t_) + z3.Select(c_, j_) * t_ + z3.Select(e_, j_),
              patterns=[z3.Select(POLY(a_, b_, c_, e_, t_), j_)])]


def roles(L, ty, names):
    """values of the locals in these roles: by name, or by the order they were declared in"""
    try:
        return [L.loc(n) for n in names]
    except SpecMismatch:
        r = L.mod_locals(ty)
        if len(r) != len(names):
            raise
        return r


def changed(z0, z1):
    return z3.Or((z0 < 0) != (z1 < 0), (z0 > 0) != (z1 > 0))


class Loc:
    def __init__(self, c, v, s, own):
        self.v, self.s = v, s
        self.sys = v.get('event_locator.sys', s)
        self.n, self.m = dim(v, self.sys), events(v, self.sys)
        self.f = lambda nm: v.get('%s.%s' % (c, nm), s)
        self.z = own[0](self), own[1](self)
        self.own = list(self.z)

    def layout(self):
        return [('own arrays', z3.And(*[z3.And(valid(self.v, p, self.m), off(p) == 0) for p in self.z])), ('own arrays are distinct', z3.Distinct(*[base(p) for p in self.own])),
                ('system', z3.And(self.sys > 0, self.sys < self.v.alloc, self.n >= 0, self.m >= 0))]

    def apart(self, p, what):
        return ('%s apart from own arrays' % what, z3.And(*[base(p) != base(q) for q in self.own]))


def impl(v, s):
    z = lambda i: (lambda a: S.sel(a.f('z'), z3.IntVal(i)))
    return Loc('event_locator_impl', v, s, (z(0), z(1)))


def fast(v, s):
    r = Loc('fast_event_locator', v, s, (lambda a: a.f('z0'), lambda a: a.f('zf')))
    r.p = r.f('p')
    r.d = [r.f('dq0'), r.f('dqh')]
    r.sp = [v.get('spline.' + x, r.p) for x in 'abcd']
    r.extra = r.d + r.sp
    return r


def fast_layout(r):
    al = r.own + r.extra
    return r.layout() + [('interpolation', z3.Or(r.p == 0, z3.And(r.p > 0, r.p < r.v.alloc, r.v.get('spline.N', r.p) == r.n, *[z3.And(valid(r.v, p, r.n), off(p) == 0) for p in r.extra], z3.Distinct(*[base(p) for p in al]))))]


def spl(v, s):
    return v.get('spline.N', s), [v.get('spline.' + x, s) for x in 'abcd']


def poly(v, sp, t):
    return POLY(*[arr(v, p) for p in sp], t)


def hermite(v, sp, n, q0, d0, qh, dh, h):
    """the cubic through both states with the slopes given there; q0, d0, qh, dh: values by index"""
    A, Bc, C, D_ = [arr(v, p) for p in sp]
    g = lambda x: z3.Select(x, j_)
    return z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < n, h != 0), z3.And(
        g(D_) == q0(j_), g(C) == d0(j_),
        g(A) * (h * h * h) + g(Bc) * (h * h) + g(C) * h + g(D_) == qh(j_),
        3 * g(A) * (h * h) + 2 * g(Bc) * h + g(C) == dh(j_))), patterns=[g(A)])


def common_req(a, C, own):
    ev, q0, q1 = C.a(0), C.a(1), C.a(2)
    n, m = a.n, a.m
    return own + [('flags given', valid(C.pre, ev, m)), ('start given', valid(C.pre, q0, n)), ('end given', valid(C.pre, q1, n)), ('start and end are different arrays', base(q0) != base(q1)),
                  a.apart(q0, 'start'), a.apart(q1, 'end'), ('step', C.a(4) >= 0), ('solver', C.a(3) > 0),
                  ('the end is the solution a step after the start', Flow(C.a(3), vec(C.pre, n, q0), C.a(4), vec(C.pre, n, q1)))]


def common_ens(a, C):
    ev, q1 = C.a(0), C.a(2)
    h0, h1 = C.a(4), C.apost(4)
    return [('the step is not lengthened', z3.And(h1 >= 0, h1 <= h0, z3.Implies(h0 > 0, h1 > 0))),
            ('only the state is written', same_outside(arr(C.post, q1), arr(C.pre, q1), off(q1), a.n)),
            ('only the flags are written', same_outside(arr(C.post, ev, BOOL), arr(C.pre, ev, BOOL), off(ev), a.m)),
            ('an event has a cause', z3.Implies(C.ret, z3.Exists([j_], z3.And(j_ >= off(ev), j_ < off(ev) + a.m, S.sel(arr(C.post, ev, BOOL), j_)), patterns=[S.sel(arr(C.post, ev, BOOL), j_)])))]


def build(reg):
    system(reg)
    # ------------------------------------------------------------ what the locators use
    adv = lambda C: [('state given', valid(C.pre, C.a(0), DIM(C.this))), ('interval', C.a(1) >= 0)]
    global DIM
    DIM = z3.Function('DIM', I, I)                  # the number of variables of the system a solver was made for
    reg(Contract('ode_solver::advance(double*,double)', lambda C: [('interval', C.a(1) >= 0)],
                 lambda C: [('its solution', z3.ForAll([n_], z3.Implies(n_ == DIM(C.this), Flow(C.this, norm(n_, arr(C.pre, C.a(0)), off(C.a(0))), C.a(1), norm(n_, arr(C.post, C.a(0)), off(C.a(0))))), patterns=[norm(n_, arr(C.post, C.a(0)), off(C.a(0)))])),
                            ('only the state is written', same_outside(arr(C.post, C.a(0)), arr(C.pre, C.a(0)), off(C.a(0)), DIM(C.this)))],
                 lambda C: [('mem:real', [base(C.a(0))])], trusted=True, note='interface of the integrators; proved for rk_45 and corrected_euler (C17)'))
    reg(Contract('event_locator::event_locator(ode_system*)', inline=True))

    # ------------------------------------------------------------ bisection and interpolation in time
    def D_(C):
        return C.eng.prog.enum_names['DISCONTINUOUS']

    def zs(a, v0, w, j):
        return Z(a.sys, v0, j), Z(a.sys, w, j)

    def i_req(C):
        a = impl(C.pre, C.this)
        return common_req(a, C, a.layout()) + [('solver of this system', DIM(C.a(3)) == a.n), ('tolerance', a.f('err_tol') > 0)]

    def i_ens(C):
        a = impl(C.pre, C.this)
        v0, w = vec(C.pre, a.n, C.a(1)), vec(C.post, a.n, C.a(2))
        h1 = C.apost(4)
        ev = C.a(0)
        flag = lambda j: S.sel(arr(C.post, ev, BOOL), off(ev) + j)
        z0, z1 = zs(a, v0, w, j_)
        rng = z3.And(j_ >= 0, j_ < a.m)
        ab = z3.If(z1 < 0, -z1, z1)
        tol = a.f('err_tol')
        return common_ens(a, C) + [
            ('no event: no flag is set', z3.Implies(z3.Not(C.ret), z3.ForAll([j_], z3.Implies(rng, z3.Not(flag(j_))), patterns=[flag(j_)]))),
            ('the state belongs to the step', Flow(C.a(3), v0, h1, w)),
            ('no event missed', z3.Implies(z3.Not(C.ret), z3.ForAll([j_], z3.Implies(rng, z3.Not(changed(z0, z1))), patterns=[Z(a.sys, w, j_)]))),
            ('the flags tell the events', z3.Implies(C.ret, z3.ForAll([j_], z3.Implies(rng, flag(j_) == changed(z0, z1)), patterns=[flag(j_)]))),
            ('located within tolerance', z3.Implies(C.ret, z3.ForAll([j_], z3.Implies(z3.And(rng, flag(j_)), z3.If(a.f('mode') == D_(C), h1 <= tol, ab <= tol)), patterns=[flag(j_)])))]

    def i_outer(L):
        a = impl(L.fnpre, L.this)
        ev, q0, q1 = L.param_entry(0), L.param_entry(1), L.param_entry(2)
        h, h0 = L.param(4), L.param_entry(4)
        v0 = vec(L.fnpre, a.n, q0)
        z0 = arr(L.cur, a.z[0])
        return [('step', z3.And(h >= 0, h <= h0, z3.Implies(h0 > 0, h > 0))), ('the state belongs to the step', Flow(L.param_entry(3), v0, h, vec(L.cur, a.n, q1))),
                ('event functions at the start', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < a.m), z3.Select(z0, j_) == Z(a.sys, v0, j_)), patterns=[z3.Select(z0, j_), Z(a.sys, v0, j_)])),
                ('only the state is written', same_outside(arr(L.cur, q1), arr(L.fnpre, q1), off(q1), a.n)),
                ('only the flags are written', same_outside(arr(L.cur, ev, BOOL), arr(L.fnpre, ev, BOOL), off(ev), a.m)),
                ('start untouched', arr(L.cur, q0) == arr(L.fnpre, q0))]

    def i_inner(L):
        a = impl(L.fnpre, L.this)
        ev = L.param_entry(0)
        inside, found = roles(L, BOOL, ('event_in_interval', 'found_event'))
        g, = roles(L, REAL, ('tguess',))
        i = L.mod_locals(INT)
        if len(i) != 1:
            raise SpecMismatch('not a loop over the events')
        i = i[0]
        h = L.param(4)
        z0, z1 = arr(L.cur, a.z[0]), arr(L.cur, a.z[1])
        fl = arr(L.cur, ev, BOOL)
        flag = lambda j: S.sel(fl, off(ev) + j)
        rng = z3.And(j_ >= 0, j_ < i)
        ch = changed(z3.Select(z0, j_), z3.Select(z1, j_))
        x = z3.Select(z1, j_)
        ab = z3.If(x < 0, -x, x)
        tol = a.f('err_tol')
        near = z3.If(a.f('mode') == L.eng.prog.enum_names['DISCONTINUOUS'], h <= tol, ab <= tol)
        k = z3.Int('k')
        return [('flags so far', z3.ForAll([k], z3.Implies(z3.And(k >= off(ev), k < off(ev) + i, S.sel(fl, k)), z3.substitute(z3.And(ch, near), (j_, k - off(ev)))), patterns=[S.sel(fl, k)])),
                ('no open event so far', z3.Implies(z3.Not(inside), z3.ForAll([j_], z3.Implies(rng, flag(j_) == ch), patterns=[z3.Select(z1, j_)]))),
                ('found', z3.Implies(found, z3.Or(z3.And(i > 0, S.sel(fl, z3.simplify(off(ev) + i - 1))), z3.Exists([k], z3.And(k >= off(ev), k < off(ev) + i, S.sel(fl, k)), patterns=[S.sel(fl, k)])))),
                ('not found', z3.Implies(z3.Not(found), z3.ForAll([k], z3.Implies(z3.And(k >= off(ev), k < off(ev) + i), z3.Not(S.sel(fl, k))), patterns=[S.sel(fl, k)]))),
                ('guess', z3.And(g >= 0, g <= h, z3.Implies(h > 0, g > 0))),
                ('only the flags are written', same_outside(fl, arr(L.entry, ev, BOOL), off(ev), a.m))]
    i_mod = lambda C: [('mem:real', [base(p) for p in impl(C.pre, C.this).own] + [base(C.a(2))]), ('mem:bool', [base(C.a(0))]), 'param:4']
    reg(Contract('event_locator_impl::find_events(bool*,double*,double*,ode_solver*,double)', i_req, i_ens, i_mod,
                 loops=[LoopSpec(i_inner, match=lambda L: ('mem', 'bool') in L.mod and not any('advance' in c for c in L.calls), name='over the event functions'), LoopSpec(i_outer, match=lambda L: any('advance' in c for c in L.calls), name='towards the event')]))

    def i_ct(C):
        b = impl(C.post, C.this)
        return b.layout() + [('as configured', z3.And(b.sys == C.a(0), b.f('err_tol') == C.a(1), b.f('mode') == C.a(2))), ('new arrays', z3.And(*[base(p) >= C.pre.alloc for p in b.own]))]
    ct_req = lambda C: [('system', z3.And(C.a(0) > 0, C.a(0) < C.pre.alloc, dim(C.pre, C.a(0)) >= 0, events(C.pre, C.a(0)) >= 0))]
    K = 'event_locator_impl'
    i_mods = lambda C: [('event_locator.sys', [C.this])] + [(K + '.' + f, [C.this]) for f in ('z', 'err_tol', 'mode')] + ['malive', 'mlen', 'alloc']
    reg(Contract('%s::%s(ode_system*,double,event_locator_impl::Mode)' % (K, K), ct_req, i_ct, i_mods))
    for c, mode in (('bisection_event_locator', 'BISECTION'), ('linear_event_locator', 'INTERPOLATE'), ('discontinuous_event_locator', 'DISCONTINUOUS')):
        def ens(C, mode=mode):
            b = impl(C.post, C.this)
            return b.layout() + [('as configured', z3.And(b.sys == C.a(0), b.f('err_tol') == C.a(1), b.f('mode') == C.eng.prog.enum_names[mode]))]
        reg(Contract('%s::%s(ode_system*,double)' % (c, c), ct_req, ens, i_mods))
    x = z3.Int('x')

    def released(C, ps):
        return [('everything it allocated is released, and nothing else', z3.ForAll([x], C.post.alive(x) == z3.And(C.pre.alive(x), *[x != base(p) for p in ps]), patterns=[C.post.alive(x)]))]
    reg(Contract('%s::~%s()' % (K, K), lambda C: impl(C.pre, C.this).layout(), lambda C: released(C, impl(C.pre, C.this).own), ['malive']))
    reg(Contract('null_event_locator::find_events(bool*,double*,double*,ode_solver*,double)', None, lambda C: [('no event', z3.Not(C.ret)), ('step', C.apost(4) == C.a(4))], ()))

    # ------------------------------------------------------------ interpolation
    def s_lay(v, s):
        n, sp = spl(v, s)
        return [('own arrays', z3.And(n >= 0, *[z3.And(valid(v, p, n), off(p) == 0) for p in sp])), ('own arrays are distinct', z3.Distinct(*[base(p) for p in sp]))]

    def sp_req(C):
        n, sp = spl(C.pre, C.this)
        return s_lay(C.pre, C.this) + [('arrays given', z3.And(*[valid(C.pre, C.a(i), n) for i in range(4)])), ('apart from own arrays', z3.And(*[base(C.a(i)) != base(p) for i in range(4) for p in sp]))]

    def sp_ens(C):
        n, sp = spl(C.pre, C.this)
        g = lambda i: (lambda j: S.sel(arr(C.pre, C.a(i)), off(C.a(i)) + j))
        return [('meets both states with their slopes', hermite(C.post, sp, n, g(0), g(1), g(2), g(3), C.a(4)))]
    reg(Contract('spline::init(double*,double*,double*,double*,double)', sp_req, sp_ens, lambda C: [('mem:real', [base(p) for p in spl(C.pre, C.this)[1]])]))
    reg(Contract('spline::interpolate(double*,double)', lambda C: s_lay(C.pre, C.this) + [('room for the state', valid(C.pre, C.a(0), spl(C.pre, C.this)[0])), ('apart from own arrays', z3.And(*[base(C.a(0)) != base(p) for p in spl(C.pre, C.this)[1]]))],
                 lambda C: (lambda q, n, sp: [('value of the cubic', z3.ForAll([j_], z3.Implies(z3.And(j_ >= off(q), j_ < off(q) + n), z3.Select(arr(C.post, q), j_) == z3.Select(poly(C.pre, sp, C.a(1)), j_ - off(q))), patterns=[z3.Select(arr(C.post, q), j_)])),
                                                    ('only the state is written', same_outside(arr(C.post, q), arr(C.pre, q), off(q), n))])(C.a(0), *spl(C.pre, C.this)),
                 lambda C: [('mem:real', [base(C.a(0))])]))
    s_mods = lambda C: [('spline.' + f, [C.this]) for f in 'abcd'] + [('spline.N', [C.this]), 'malive', 'mlen', 'alloc']
    reg(Contract('spline::spline(int)', lambda C: [('size', C.a(0) >= 0)], lambda C: s_lay(C.post, C.this) + [('size', spl(C.post, C.this)[0] == C.a(0)), ('new arrays', z3.And(*[base(p) >= C.pre.alloc for p in spl(C.post, C.this)[1]]))] +
                 [('allocates only', z3.ForAll([x], z3.Implies(x < C.pre.alloc, z3.And(C.post.alive(x) == C.pre.alive(x), C.post.mlen(x) == C.pre.mlen(x))), patterns=[C.post.alive(x), C.post.mlen(x)]))], s_mods))
    reg(Contract('spline::~spline()', lambda C: s_lay(C.pre, C.this), lambda C: released(C, spl(C.pre, C.this)[1]), ['malive']))

    # ------------------------------------------------------------ bracketing in time
    F = 'fast_event_locator'

    def sc_any(v, a, upto, z0=None, z1=None):
        z0, z1 = arr(v, a.z[0]), arr(v, a.z[1])
        return z3.Exists([j_], z3.And(j_ >= 0, j_ < upto, cross(z3.Select(z0, j_), z3.Select(z1, j_))), patterns=[z3.Select(z1, j_)])

    def sc_inv(L):
        a = fast(L.fnpre, L.this)
        i = L.mod_locals(INT)
        if len(i) != 1:
            raise SpecMismatch('not a loop over the events')
        return [('none so far', z3.Not(sc_any(L.cur, a, i[0])))]
    reg(Contract(F + '::is_sign_change()', lambda C: fast(C.pre, C.this).layout(), lambda C: [('tells whether a sign changes', C.ret == sc_any(C.pre, fast(C.pre, C.this), fast(C.pre, C.this).m))], (), loops=[LoopSpec(sc_inv, name='over the event functions')]))

    def f_req(C):
        a = fast(C.pre, C.this)
        return common_req(a, C, fast_layout(a)) + [('solver of this system', DIM(C.a(3)) == a.n), ('tolerance', a.f('err_tol') > 0),
                                                  ('apart from the interpolation', z3.Or(a.p == 0, z3.And(*[base(q) != base(p) for q in (C.a(1), C.a(2)) for p in a.extra])))]

    def belongs(C, a, v0, h, w, view):
        """the state of a step"""
        return z3.If(a.p == 0, Flow(C.a(3), v0, h, w), z3.Or(z3.And(h == C.a(4), w == vec(C.pre, a.n, C.a(2))), w == norm(a.n, poly(view, a.sp, h), 0)))

    def clear(C, a, v0, g, view):
        return z3.Exists([u_], z3.And(NC(a.sys, a.m, v0, u_), belongs(C, a, v0, g, u_, view)), patterns=[NC(a.sys, a.m, v0, u_)])

    def cubic(C, a, view):
        q0, q1 = C.a(1), C.a(2)
        v0, v1 = vec(C.pre, a.n, q0), vec(C.pre, a.n, q1)
        return z3.Or(a.p == 0, hermite(view, a.sp, a.n, lambda j: elem(v0, j), lambda j: D(a.sys, v0, j), lambda j: elem(v1, j), lambda j: D(a.sys, v1, j), C.a(4)))

    def f_ens(C):
        a = fast(C.pre, C.this)
        v0, w = vec(C.pre, a.n, C.a(1)), vec(C.post, a.n, C.a(2))
        h1 = C.apost(4)
        ev = C.a(0)
        flag = lambda j: S.sel(arr(C.post, ev, BOOL), off(ev) + j)
        rng = z3.And(j_ >= 0, j_ < a.m)
        crosses = cross(Z(a.sys, v0, j_), Z(a.sys, w, j_))
        g = z3.Real('g')
        return common_ens(a, C) + [
            ('no event: nothing changed', z3.Implies(z3.Not(C.ret), z3.And(h1 == C.a(4), arr(C.post, C.a(2)) == arr(C.pre, C.a(2))))),
            ('no event: no flag is set', z3.Implies(z3.Not(C.ret), z3.ForAll([j_], z3.Implies(rng, z3.Not(flag(j_))), patterns=[flag(j_)]))),
            ('no event missed', z3.Implies(z3.Not(C.ret), z3.ForAll([j_], z3.Implies(rng, z3.Not(crosses)), patterns=[Z(a.sys, w, j_)]))),
            ('the state belongs to the step', belongs(C, a, v0, h1, w, C.post)),
            ('the interpolation meets both ends', z3.Implies(C.ret, cubic(C, a, C.post))),
            ('the flags tell the events', z3.Implies(C.ret, z3.ForAll([j_], z3.Implies(rng, flag(j_) == crosses), patterns=[flag(j_)]))),
            ('first event within tolerance', z3.Implies(C.ret, z3.Or(h1 < a.f('err_tol'), z3.Exists([g], z3.And(g >= 0, g <= h1, h1 - g < a.f('err_tol'), clear(C, a, v0, g, C.post))))))]

    def f_loop(L):
        a = fast(L.fnpre, L.this)
        C = L.fc
        hl, hh, hg = roles(L, REAL, ('hl', 'hh', 'hg'))
        sc, = roles(L, BOOL, ('sign_change',))
        q0, q1 = C.a(1), C.a(2)
        v0, w = vec(L.fnpre, a.n, q0), vec(L.cur, a.n, q1)
        z0, z1 = arr(L.cur, a.z[0]), arr(L.cur, a.z[1])
        rng = z3.And(j_ >= 0, j_ < a.m)
        h0 = C.a(4)
        return [('bracket', z3.And(hl >= 0, hl <= hg, hg <= hh, hh <= h0, z3.Implies(h0 > 0, z3.And(hg > 0, hh > 0)))),
                ('step untouched', L.param(4) == h0),
                ('event functions at the start', z3.ForAll([j_], z3.Implies(rng, z3.Select(z0, j_) == Z(a.sys, v0, j_)), patterns=[z3.Select(z0, j_), Z(a.sys, v0, j_)])),
                ('event functions at the guess', z3.ForAll([j_], z3.Implies(rng, z3.Select(z1, j_) == Z(a.sys, w, j_)), patterns=[z3.Select(z1, j_), Z(a.sys, w, j_)])),
                ('sign change', sc == sc_any(L.cur, a, a.m)), ('sign change between the states', sc == z3.Not(NC(a.sys, a.m, v0, w))),
                ('the state belongs to the guess', belongs(C, a, v0, hg, w, L.cur)),
                ('nothing before the bracket', z3.Or(hl == 0, clear(C, a, v0, hl, L.cur))),
                ('the interpolation meets both ends', cubic(C, a, L.cur)),
                ('only the state is written', same_outside(arr(L.cur, q1), arr(L.fnpre, q1), off(q1), a.n)),
                ('flags untouched', arr(L.cur, C.a(0), BOOL) == arr(L.fnpre, C.a(0), BOOL)), ('start untouched', arr(L.cur, q0) == arr(L.fnpre, q0))]

    def f_flags(L):
        a = fast(L.fnpre, L.this)
        i = L.mod_locals(INT)
        if len(i) != 1:
            raise SpecMismatch('not a loop over the events')
        i = i[0]
        ev = L.param_entry(0)
        fl = arr(L.cur, ev, BOOL)
        k = z3.Int('k')
        z0, z1 = arr(L.cur, a.z[0]), arr(L.cur, a.z[1])
        return [('flags so far', z3.ForAll([k], z3.Implies(z3.And(k >= off(ev), k < off(ev) + i), S.sel(fl, k) == cross(z3.Select(z0, k - off(ev)), z3.Select(z1, k - off(ev)))), patterns=[S.sel(fl, k)])),
                ('flags so far, by event', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < i), S.sel(fl, off(ev) + j_) == (cross(z3.Select(z0, j_), z3.Select(z1, j_)))), patterns=[z3.Select(z1, j_)])),
                ('only the flags are written', same_outside(fl, arr(L.entry, ev, BOOL), off(ev), a.m))]
    f_mod = lambda C: (lambda a: [('mem:real', [base(p) for p in a.own + a.extra] + [base(C.a(2))]), ('mem:bool', [base(C.a(0))]), 'param:4'])(fast(C.pre, C.this))
    reg(Contract(F + '::find_events(bool*,double*,double*,ode_solver*,double)', f_req, f_ens, f_mod,
                 loops=[LoopSpec(f_loop, match=lambda L: L.node.get('kind') == 'LabelStmt' or any('advance' in c for c in L.calls), name='towards the event'), LoopSpec(f_flags, match=lambda L: ('mem', 'bool') in L.mod, name='marking the events')]))

    def f_ct(C):
        b = fast(C.post, C.this)
        return fast_layout(b) + [('as configured', z3.And(b.sys == C.a(0), b.f('err_tol') == C.a(1), (b.p != 0) == C.a(2)))]
    reg(Contract('%s::%s(ode_system*,double,bool)' % (F, F), ct_req, f_ct, lambda C: [('event_locator.sys', [C.this])] + [(F + '.' + f, [C.this]) for f in ('err_tol', 'z0', 'zf', 'dq0', 'dqh', 'p')] + ['malive', 'mlen', 'alloc'] + ['spline.' + f for f in 'abcdN']))
    reg(Contract('%s::~%s()' % (F, F), lambda C: fast_layout(fast(C.pre, C.this)), lambda C: (lambda a: [('everything it allocated is released', z3.And(*[z3.Not(C.post.alive(base(p))) for p in a.own], z3.Implies(a.p != 0, z3.And(*[z3.Not(C.post.alive(base(p))) for p in a.extra]))))])(fast(C.pre, C.this)), ['malive']))


TARGETS = ['event_locator_impl::find_events(bool*,double*,double*,ode_solver*,double)', 'event_locator_impl::event_locator_impl(ode_system*,double,event_locator_impl::Mode)', 'event_locator_impl::~event_locator_impl()',
           'bisection_event_locator::bisection_event_locator(ode_system*,double)', 'linear_event_locator::linear_event_locator(ode_system*,double)', 'discontinuous_event_locator::discontinuous_event_locator(ode_system*,double)',
           'null_event_locator::find_events(bool*,double*,double*,ode_solver*,double)', 'fast_event_locator::find_events(bool*,double*,double*,ode_solver*,double)', 'fast_event_locator::is_sign_change()',
           'fast_event_locator::fast_event_locator(ode_system*,double,bool)', 'fast_event_locator::~fast_event_locator()',
           'spline::spline(int)', 'spline::~spline()', 'spline::init(double*,double*,double*,double*,double)', 'spline::interpolate(double*,double)']
DRIVER = 'solvers.cpp'
ENGINE = dict(entity=('spline',), value=('exception',), opts=dict(numeric=True))
ASSUMPTIONS = ['double arithmetic is taken as real arithmetic', 'the arrays a solver owns are not reachable through the arguments of find_events',
               'termination of the search is not proved (an event function that jumps under a locator for continuous ones may keep it searching)']


def tenv(prog):
    return TypeEnv(set(), prog.enum_types, {'V': VAL}, {})


def theory(eng):
    return AX
