"""Contracts of the explicit integrators rk_45 and corrected_euler (C17)."""
from fractions import Fraction as Q
import z3
from vc.engine import *
from vc import sorts as S
from vc.types import *
from vc.lemma import Lemma
from specs import ode as O
from specs.ode import *


def rv(q):
    return z3.RealVal(str(Q(q)))


# stages: (coefficients of the earlier stages in the argument of stage i), weights of the step, weights of the error estimate
METHODS = {
    'rk_45': dict(stages=[[], [Q(1, 2)], [Q(1, 4), Q(1, 4)], [0, -1, 2], [Q(7, 27), Q(10, 27), 0, Q(1, 27)], [Q(28, 625), Q(-1, 5), Q(546, 625), Q(54, 625), Q(-378, 625)]],
                  step=[Q(1, 24), 0, 0, Q(5, 48), Q(27, 56), Q(125, 336)], err=[Q(1, 8), 0, Q(2, 3), Q(1, 16), Q(-27, 56), Q(-125, 336)], order=5, low=4),
    'corrected_euler': dict(stages=[[], [Q(1, 2)]], step=[0, 1], err=[1, -1], order=2, low=1),
}
ERR = {c: z3.Function('ERR_' + c, I, I, Vec, R, R) for c in METHODS}
RK = {c: z3.Function('RK_' + c, I, I, Vec, R, AR) for c in METHODS}
ACC = {c: z3.Function('ACC_' + c, I, Vec, R, Vec, B) for c in METHODS}


def K(c, i):
    return z3.Function('K%d_%s' % (i, c), I, I, Vec, R, AR)


def Targ(c, i):
    return z3.Function('T%d_%s' % (i, c), I, I, Vec, R, AR)


def lin(cs, xs):
    r = None
    for q, x in zip(cs, xs):
        if Q(q) == 0:
            continue
        t = x if Q(q) == 1 else rv(q) * x
        r = t if r is None else r + t
    return r if r is not None else z3.RealVal(0)


def method(c, n, s, v, h):
    """what the stages, the step and the error estimate of the method are"""
    m = METHODS[c]
    out = []
    args = (n, s, v, h)
    ks = [K(c, i + 1)(*args) for i in range(len(m['stages']))]
    for i, co in enumerate(m['stages']):
        if i == 0:
            at_ = v
        else:
            t = Targ(c, i + 1)(*args)
            out.append(z3.ForAll([j_], z3.Select(t, j_) == elem(v, j_) + lin(co, [z3.Select(k, j_) for k in ks]), patterns=[z3.Select(t, j_)]))
            at_ = norm(n, t, 0)
        out.append(z3.ForAll([j_], z3.Select(ks[i], j_) == h * D(s, at_, j_), patterns=[z3.Select(ks[i], j_)]))
    r = RK[c](*args)
    out.append(z3.ForAll([j_], z3.Select(r, j_) == elem(v, j_) + lin(m['step'], [z3.Select(k, j_) for k in ks]), patterns=[z3.Select(r, j_)]))
    return out, ks


def errors(c, n, s, v, h, e):
    """e is the largest error estimate of a component"""
    m = METHODS[c]
    ks = [K(c, i + 1)(n, s, v, h) for i in range(len(m['stages']))]
    x = lin(m['err'], [z3.Select(k, j_) for k in ks])
    ab = z3.If(x < 0, -x, x)
    pat = [z3.Select(ks[0], j_)]
    return z3.And(e >= 0, z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < n), ab <= e), patterns=pat), z3.Or(e == 0, z3.Exists([j_], z3.And(j_ >= 0, j_ < n, e == ab), patterns=pat)))


def trees(n, memo={}):
    """rooted trees with n vertices, each as the sorted tuple of its subtrees"""
    if n not in memo:
        def forests(m, hi):
            if m == 0:
                yield ()
            for k in range(min(m, hi), 0, -1):
                for t in trees(k):
                    for f in forests(m - k, k):
                        yield tuple(sorted((t,) + f, key=repr))
        memo[n] = sorted(set(forests(n - 1, n - 1)), key=repr)
    return memo[n]


def size(t):
    return 1 + sum(size(c) for c in t)


def density(t):
    r = size(t)
    for c in t:
        r *= density(c)
    return r


def weights(c, t):
    """derivative weights of a tree in each stage"""
    A = METHODS[c]['stages']
    out = []
    for i in range(len(A)):
        r = z3.RealVal(1)
        for ch in t:
            w = weights(c, ch)
            r = r * z3.Sum([z3.RealVal(0)] + [rv(q) * w[k] for k, q in enumerate(A[i])])
        out.append(r)
    return out


def order_conditions(c):
    """Butcher's conditions: the method of the contract has its stated order, and so has the method whose difference
    from it is the error estimate; both hold for the coefficients in METHODS, which trial_step is verified against"""
    m = METHODS[c]

    def proof():
        out = []
        for nm, b, p in (('step', m['step'], m['order']), ('estimate', [Q(x) + Q(y) for x, y in zip(m['step'], m['err'])], m['low'])):
            for k in range(1, p + 1):
                for q, t in enumerate(trees(k)):
                    w = weights(c, t)
                    out.append(('%s: order %d condition %d' % (nm, k, q + 1), [], z3.Sum([rv(x) * y for x, y in zip(b, w)]) == rv(Q(1, density(t)))))
        return out
    return Lemma('order of ' + c, [], lambda: z3.BoolVal(True), proof)


ORDER = {c: order_conditions(c) for c in METHODS}


class Sol:
    def __init__(self, c, v, s):
        self.c, self.v, self.s = c, v, s
        self.sys = v.get('ode_solver.sys', s)
        f = lambda n: v.get('%s.%s' % (c, n), s)
        self.f = f
        self.tol, self.hmax, self.hcur = f('err_tol'), f('h_max'), f('h_cur')
        self.n = dim(v, self.sys)
        self.k = [S.sel(f('k'), z3.IntVal(i)) for i in range(len(METHODS[c]['stages']))]
        self.own = [f('dq'), f('qq'), f('t')] + self.k
        self.qq = f('qq')

    def layout(self):
        return [('own arrays', z3.And(*[z3.And(valid(self.v, p, self.n), off(p) == 0) for p in self.own])),
                ('own arrays are distinct', z3.Distinct(*[base(p) for p in self.own])),
                ('system', z3.And(self.sys > 0, self.sys < self.v.alloc, self.n >= 0))]

    def inv(self):
        return self.layout() + [('limits', z3.And(self.tol > 0, self.hmax > 0, self.hcur > 0))]

    def mods(self):
        return [('mem:real', [base(p) for p in self.own])]

    def apart(self, q):
        return [('state given', valid(self.v, q, self.n)), ('state apart from own arrays', z3.And(*[base(q) != base(p) for p in self.own]))]


def build(reg):
    system(reg)
    for c in METHODS:
        one(reg, c)


def one(reg, c):
    k1 = lambda C: Sol(c, C.pre, C.this)

    def args(C):
        a = k1(C)
        return a.n, a.sys, vec(C.pre, a.n, a.qq), C.a(0)

    def ts_ens(C):
        a = k1(C)
        q1 = arr(C.post, a.qq)
        return [('next state of the method', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < a.n), z3.Select(q1, j_) == z3.Select(RK[c](*args(C)), j_)), patterns=[z3.Select(q1, j_)])),
                ('error estimate of the method', C.ret == ERR[c](*args(C)))]

    def defs(C):
        m, ks = method(c, *args(C))
        return [ORDER[c]()] + m + [errors(c, *args(C), ERR[c](*args(C)))]

    def written(m, b):
        """has the array been written since the function was entered?"""
        while z3.is_app(m) and m.decl().kind() == z3.Z3_OP_STORE:
            if m.arg(1).eq(b):
                return True
            m = m.arg(0)
        return False

    def stage_inv(L):
        """what an array holds so far: the stage, the argument of the next stage, or the next state"""
        a = Sol(c, L.fnpre, L.this)
        ar = (a.n, a.sys, vec(L.fnpre, a.n, a.qq), L.param_entry(0))
        idx = L.mod_locals(INT)
        subs = L.mod.get(('mem', 'real'), {})
        if len(idx) != 1 or None in subs:
            raise SpecMismatch('not a loop over the elements')
        i = idx[0]
        m0 = L.entry.mem(REAL)
        m = METHODS[c]
        out = []

        def so_far(nm, p, what):
            x = arr(L.cur, p)
            out.append((nm, z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < i), z3.Select(x, j_) == z3.Select(what, j_)), patterns=[z3.Select(x, j_)])))
        for b in subs.values():
            for q, k in enumerate(a.k):
                if base(k).eq(b):
                    t = a.f('t')
                    if q and written(m0, base(t)) and not any(base(t).eq(x) for x in subs.values()):
                        out.append(('argument used', vec(L.cur, a.n, t) == norm(a.n, Targ(c, q + 1)(*ar), 0)))
                    so_far('stage %d' % (q + 1), k, K(c, q + 1)(*ar))
            if base(a.f('t')).eq(b):
                done = 0
                while done < len(a.k) and (written(m0, base(a.k[done])) or any(base(a.k[done]).eq(x) for x in subs.values())):
                    done += 1
                if 0 < done < len(a.k):
                    so_far('argument of stage %d' % (done + 1), a.f('t'), Targ(c, done + 1)(*ar))
            if base(a.qq).eq(b):
                so_far('next state', a.qq, RK[c](*ar))
        ers = L.mod_locals(REAL)
        if len(ers) == 1:
            e = ers[0]
            x = lin(m['err'], [z3.Select(K(c, q + 1)(*ar), j_) for q in range(len(m['stages']))])
            ab = z3.If(x < 0, -x, x)
            out += [('error so far', e >= 0), ('error of each element', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < i), ab <= e), patterns=[z3.Select(K(c, 1)(*ar), j_)])),
                    ('error of one element', z3.Or(e == 0, z3.Exists([j_], z3.And(j_ >= 0, j_ < i, e == ab), patterns=[z3.Select(K(c, 1)(*ar), j_)])))]
        if not out:
            raise SpecMismatch('nothing known')
        return out

    reg(Contract(c + '::trial_step(double)', lambda C: k1(C).layout(), ts_ens, lambda C: k1(C).mods(), setup_lemmas=defs,
                 loops=[LoopSpec(stage_inv, name='over the elements')]))

    # ------------------------------------------------------------ one free step
    def in_req(C):
        a = k1(C)
        return a.inv() + a.apart(C.a(0)) + [('interval', C.a(1) >= 0)]

    def in_ens(C):
        a, b = k1(C), Sol(c, C.post, C.this)
        q = C.a(0)
        v = vec(C.pre, a.n, q)
        h, lim = C.ret, C.a(1)
        q1 = arr(C.post, q)
        return b.inv() + [
            ('no further than asked', z3.And(h >= 0, h <= lim)),
            ('no further than the largest step', h <= a.hmax),
            ('some progress', z3.Implies(lim > 0, h > 0)),
            ('steps grow by a tenth at most', h <= a.hcur * z3.RealVal('1.1')),
            ('the state is one step of the method further', z3.ForAll([j_], z3.Implies(z3.And(j_ >= off(q), j_ < off(q) + a.n), z3.Select(q1, j_) == z3.Select(RK[c](a.n, a.sys, v, h), j_ - off(q))), patterns=[z3.Select(q1, j_)])),
            ('the error estimate is within the tolerance', ERR[c](a.n, a.sys, v, h) <= a.tol),
            ('only the state is written', same_outside(q1, arr(C.pre, q), off(q), a.n)),
            ('a step a solver may take', Flow(C.this, v, h, vec(C.post, a.n, q)))]

    def flow_ax(C):
        a = k1(C)
        f = z3.And(ERR[c](a.n, a.sys, v_, h_) <= a.tol, w_ == norm(a.n, RK[c](a.n, a.sys, v_, h_), 0))
        x = z3.Function('STEP_' + c, I, Vec, R, Vec, B)
        return [z3.ForAll([v_, h_, w_], z3.Implies(f, Flow(C.this, v_, h_, w_)), patterns=[Flow(C.this, v_, h_, w_)])]

    def outer(L):
        hs = [(k, v) for k, v in L.cur_st.locals.items() if k[0] == L.frame and ('local', k) in L.mod and isinstance(v, SV) and v.ty == REAL
              and isinstance(L.entry_st.locals.get(k), SV) and not z3.is_rational_value(z3.simplify(L.entry_st.locals[k].t))]
        if len(hs) != 1:
            raise SpecMismatch('no step size')
        h = hs[0][1].t
        a = Sol(c, L.fnpre, L.this)
        lim = L.param_entry(1)
        return [('step size', z3.And(h >= 0, h <= lim, h <= a.hmax, h <= a.hcur * z3.RealVal('1.1'), z3.Implies(lim > 0, h > 0)))]

    reg(Contract(c + '::integrate(double*,double)', in_req, in_ens, lambda C: [('mem:real', [base(p) for p in k1(C).own] + [base(C.a(0))]), (c + '.h_cur', [C.this])],
                 setup_lemmas=flow_ax, loops=[LoopSpec(outer, match=lambda L: L.mod_locals(REAL), name='of trial steps')]))

    # ------------------------------------------------------------ an exact interval
    def ad_ens(C):
        a, b = k1(C), Sol(c, C.post, C.this)
        q = C.a(0)
        return b.inv() + [('the state is the interval further, by steps of the method', Flow(C.this, vec(C.pre, a.n, q), C.a(1), vec(C.post, a.n, q))),
                          ('only the state is written', same_outside(arr(C.post, q), arr(C.pre, q), off(q), a.n))]

    def ad_inv(L):
        a, b = Sol(c, L.fnpre, L.this), Sol(c, L.cur, L.this)
        q, h, h0 = L.param_entry(0), L.param(1), L.param_entry(1)
        return b.inv() + [('interval left', z3.And(h >= 0, h <= h0)), ('so far', Flow(L.this, vec(L.fnpre, a.n, q), h0 - h, vec(L.cur, a.n, q))),
                          ('only the state is written', same_outside(arr(L.cur, q), arr(L.fnpre, q), off(q), a.n)), ('state pointer', L.param(0) == q)]

    def compose(C):
        t = z3.Real('t')
        return [z3.ForAll([v_, h_, w_, g_, u_, t], z3.Implies(z3.And(Flow(C.this, v_, h_, w_), Flow(C.this, w_, g_, u_), t == h_ + g_), Flow(C.this, v_, t, u_)),
                          patterns=[z3.MultiPattern(Flow(C.this, v_, h_, w_), Flow(C.this, w_, g_, u_), Flow(C.this, v_, t, u_))])]
    reg(Contract(c + '::advance(double*,double)', in_req, ad_ens, lambda C: [('mem:real', [base(p) for p in k1(C).own] + [base(C.a(0))]), (c + '.h_cur', [C.this])],
                 setup_lemmas=compose, loops=[LoopSpec(ad_inv, name='of steps')]))

    # ------------------------------------------------------------ creation and destruction
    def ct_ens(C):
        b = Sol(c, C.post, C.this)
        return b.inv() + [('as configured', z3.And(b.sys == C.a(0), b.tol == C.a(1), b.hmax == C.a(2), b.hcur == C.a(2))),
                          ('new arrays', z3.And(*[base(p) >= C.pre.alloc for p in b.own]))]
    reg(Contract('%s::%s(ode_system*,double,double)' % (c, c), lambda C: [('system', z3.And(C.a(0) > 0, dim(C.pre, C.a(0)) >= 0)), ('limits', z3.And(C.a(1) > 0, C.a(2) > 0))], ct_ens,
                 lambda C: [('ode_solver.sys', [C.this])] + [('%s.%s' % (c, f), [C.this]) for f in ('dq', 'qq', 't', 'k', 'err_tol', 'h_max', 'h_cur')] + ['malive', 'mlen', 'alloc']))
    x = z3.Int('x')

    def dt_ens(C):
        a = k1(C)
        return [('everything it allocated is released, and nothing else',
                 z3.ForAll([x], C.post.alive(x) == z3.And(C.pre.alive(x), *[x != base(p) for p in a.own]), patterns=[C.post.alive(x)]))]
    reg(Contract('%s::~%s()' % (c, c), lambda C: k1(C).layout(), dt_ens, ['malive']))
    reg(Contract('ode_solver::ode_solver(ode_system*)', inline=True))


TARGETS = [f % dict(c=c) for c in METHODS for f in ('%(c)s::trial_step(double)', '%(c)s::integrate(double*,double)', '%(c)s::advance(double*,double)', '%(c)s::%(c)s(ode_system*,double,double)', '%(c)s::~%(c)s()')]
DRIVER = 'solvers.cpp'
ENGINE = dict(entity=('spline',), value=('exception',), opts=dict(numeric=True))


def tenv(prog):
    return TypeEnv(set(), prog.enum_types, {'V': VAL}, {})


def theory(eng):
    return O.AX
