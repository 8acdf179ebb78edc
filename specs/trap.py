"""Contracts of the implicit trapezoidal integrator trap (C20) over contracts of the SUNDIALS functions it uses."""
import z3
from vc.engine import *
from vc import sorts as S
from vc.types import *
from specs import ode as O
from specs.ode import *

ARRP = z3.Function('ARRP', I, S.sort(PR))            # the elements of a vector of the library
MATP = z3.Function('MATP', I, S.sort(PR))            # the elements of a matrix of the library
LEN = z3.Function('LEN', I, I)
MD = z3.Function('MD', I, I)                         # dimension of a matrix of the library
FUNC, JACF, NOFN = z3.Ints('fn:func fn:jac fn:none')
GH = dict(LIB=lambda: z3.ArraySort(I, B), UD=lambda: z3.ArraySort(I, I), EQ=lambda: z3.ArraySort(I, I), JF=lambda: z3.ArraySort(I, I), LS=lambda: z3.ArraySort(I, I))
# LIB: which objects of the library exist; UD, EQ, JF, LS: user data, equation, its derivative and linear solver registered with a KINSOL


class Ghosts(dict):
    def __missing__(self, g):
        return GH[g]()


TK = z3.Function('TK', I, Vec, Vec, R, AR)            # fixed term of the trapezoidal rule
EU = z3.Function('EU', I, Vec, Vec, R, AR)            # Euler's rule
DV = z3.Function('DV', I, Vec, AR)
RES = z3.Function('RES', I, I, Vec, R, Vec, AR)      # residual of the equation
SMALL = z3.Function('SMALL', I, AR, I, Vec, B)
small = z3.Function('small', Vec, B)                 # KINSOL stops at such a residual
JAC = z3.Function('JAC', I, Vec, I, I, R)
JACV = z3.Function('JACV', I, Vec, I, R)
DG = z3.Function('DG', I, I, I)
DI = z3.Function('DI', I, I)
TRAP = z3.Function('TRAP', I, I, Vec, R, Vec, B)
LIM = z3.Function('LIM', R, R, R, R, B)               # the error of another step of this size is within the limit, as far as the last one tells
hc_, df_, tol_ = z3.Reals('hc df tol')
sqrt_ = z3.Function('sqrt', R, R)
HASJ = z3.Function('HASJ', I, B)
r_, c_, i_ = z3.Ints('r c i')
x_ = z3.Const('x', Vec)
ds_ = z3.Int('ds')
HALF = z3.RealVal('1/2')
TINY = z3.RealVal('1/80000000000000000000000000000000000000')   # a little above the smallest normal float

AX = O.AX + [
    z3.Distinct(FUNC, JACF, NOFN),
    z3.ForAll([n_, v_, x_, h_, j_], z3.Select(TK(n_, v_, x_, h_), j_) == elem(v_, j_) + h_ * HALF * elem(x_, j_), patterns=[z3.Select(TK(n_, v_, x_, h_), j_)]),
    z3.ForAll([n_, v_, x_, h_, j_], z3.Select(EU(n_, v_, x_, h_), j_) == elem(v_, j_) + h_ * elem(x_, j_), patterns=[z3.Select(EU(n_, v_, x_, h_), j_)]),
    z3.ForAll([s_, v_, j_], z3.Select(DV(s_, v_), j_) == D(s_, v_, j_), patterns=[z3.Select(DV(s_, v_), j_)]),
    z3.ForAll([n_, s_, v_, h_, w_, j_], z3.Select(RES(n_, s_, v_, h_, w_), j_) == elem(v_, j_) + D(s_, w_, j_) * (h_ * HALF) - elem(w_, j_), patterns=[z3.Select(RES(n_, s_, v_, h_, w_), j_)]),
    z3.ForAll([hc_, df_, tol_, h_], LIM(hc_, df_, tol_, h_) == z3.Or(z3.If(df_ < 0, -df_, df_) < 2 * TINY * h_ * h_, hc_ * hc_ * z3.If(df_ < 0, -df_, df_) <= tol_ * h_ * h_), patterns=[LIM(hc_, df_, tol_, h_)]),
]


def solves(n, s, v, d, h, w):
    """w solves the equation of the trapezoidal rule for a step h from v with derivatives d"""
    return small(norm(n, RES(n, s, norm(n, TK(n, v, d, h), 0), h, w), 0))


def dvec(a, v):
    return norm(a.n, DV(a.sys, v), 0)


class Tr:
    def __init__(self, v, s):
        self.v = v
        self.sys = v.get('ode_solver.sys', s)
        f = lambda n: v.get('trap.' + n, s)
        self.f = f
        self.tol, self.hmax, self.hcur = f('err_tol'), f('h_max'), f('h_cur')
        self.n = dim(v, self.sys)
        self.k, self.dq, self.guess = f('k'), f('dq'), f('guess')
        self.y, self.scale, self.kmem = f('y'), f('scale'), f('kmem')
        self.yd, self.sd = ARRP(self.y), ARRP(self.scale)
        self.own = [self.k, self.dq, self.guess, self.yd]
        self.J, self.LS, self.ctx = f('J'), f('LS'), f('sunctx')
        self.g = lambda g, x: z3.Select(v.g(g), x)
        self.data = self.g('UD', self.kmem)
        self.this = s

    def layout(self):
        return [('own arrays', z3.And(*[z3.And(valid(self.v, p, self.n), off(p) == 0) for p in self.own])),
                ('own arrays are distinct', z3.Distinct(*[base(p) for p in self.own])),
                ('system', z3.And(self.sys > 0, self.sys < self.v.alloc, self.n >= 0)),
                ('vectors', z3.And(self.y > 0, self.scale > 0, self.y != self.scale, LEN(self.y) == self.n, LEN(self.scale) == self.n, self.g('LIB', self.y), self.g('LIB', self.scale))),
                ('solvers', z3.And(self.J > 0, self.LS > 0, self.kmem > 0, self.ctx > 0, z3.Distinct(self.y, self.scale, self.J, self.LS, self.kmem, self.ctx), *[self.g('LIB', x) for x in (self.J, self.LS, self.kmem, self.ctx)])),
                ('registered', z3.And(self.data == self.v.get('trap.kinsol_data', self.this), self.data > 0, self.v.get('kinsol_data_t.self', self.data) == self.this,
                                      self.g('EQ', self.kmem) == FUNC, self.g('LS', self.kmem) == self.LS, MD(self.J) == self.n, self.g('JF', self.kmem) == z3.If(HASJ(self.sys), JACF, NOFN))),
                ('no scaling', z3.And(valid(self.v, self.sd, self.n), off(self.sd) == 0, *[base(self.sd) != base(p) for p in self.own])),
                ('scale is one', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < self.n), z3.Select(arr(self.v, self.sd), j_) == 1), patterns=[z3.Select(arr(self.v, self.sd), j_)]))]

    def inv(self):
        return self.layout() + [('limits', z3.And(self.tol > 0, self.hmax > 0, self.hcur > 0, self.hcur <= self.hmax))]

    def mods(self):
        return [('mem:real', [base(p) for p in self.own])]

    def apart(self, q):
        return [('state given', valid(self.v, q, self.n)), ('state apart from own arrays', z3.And(*[base(q) != base(p) for p in self.own + [self.sd]]))]


def build(reg):
    system(reg)
    t1, t2 = (lambda C: Tr(C.pre, C.this)), (lambda C: Tr(C.post, C.this))
    note = 'SUNDIALS'
    reg(Contract('extern:N_VGetArrayPointer', lambda C: [('a vector', C.a(0) > 0)], None, (), trusted=True, note=note, answer=lambda C: ARRP(C.a(0))))
    reg(Contract('extern:SUNDenseMatrix_Data', lambda C: [('a matrix', C.a(0) > 0)], None, (), trusted=True, note=note, answer=lambda C: MATP(C.a(0))))
    reg(Contract('extern:KINSol', lambda C: solver_req(C), lambda C: solver_ens(C), lambda C: [('mem:real', [base(ARRP(C.a(1)))])],
                 trusted=True, note='KINSOL: calls the registered functions; a return code that is not negative means the residual is within its tolerance'))

    def solver_self(C):
        d = z3.Select(C.pre.g('UD'), C.a(0))
        return d, Tr(C.pre, C.pre.get('kinsol_data_t.self', d))

    def solver_req(C):
        d, a = solver_self(C)
        s = ARRP(C.a(3))
        ones = z3.ForAll([j_], z3.Implies(z3.And(j_ >= off(s), j_ < off(s) + a.n), z3.Select(arr(C.pre, s), j_) == 1), patterns=[z3.Select(arr(C.pre, s), j_)])
        return [('a solver', z3.And(C.a(0) > 0, z3.Select(C.pre.g('LIB'), C.a(0)))), ('vectors', z3.And(C.a(1) == a.y, C.a(3) > 0, LEN(C.a(3)) == a.n, C.a(4) == C.a(3))), ('no scaling', ones),
                ('strategy', z3.Or(C.a(2) == 0, C.a(2) == 1)), ('set up', z3.And(z3.Select(C.pre.g('EQ'), C.a(0)) == FUNC, z3.Select(C.pre.g('LS'), C.a(0)) > 0))] + func_ok(C.pre, d)

    def solver_ens(C):
        d, a = solver_self(C)
        h = C.pre.get('kinsol_data_t.h', d)
        y1 = arr(C.post, a.yd)
        return [('a solution unless it reports a failure', z3.Implies(C.ret >= 0, small(norm(a.n, RES(a.n, a.sys, vec(C.pre, a.n, a.k), h, norm(a.n, y1, off(a.yd))), 0))))]

    def func_ok(v, d):
        a = Tr(v, v.get('kinsol_data_t.self', d))
        return [('user data', z3.And(d > 0, v.get('kinsol_data_t.self', d) > 0, v.get('kinsol_data_t.self', d) < v.alloc, d < v.alloc)), ('system', z3.And(a.sys > 0, a.sys < v.alloc, a.n >= 0)), ('fixed term', z3.And(valid(v, a.k, a.n), off(a.k) == 0))]

    # ------------------------------------------------------------ set-up of the library
    G = lambda *gs: ['ghost:' + g for g in gs]

    def new(C):
        return z3.And(C.ret > 0, z3.Not(z3.Select(C.pre.g('LIB'), C.ret)), C.post.g('LIB') == z3.Store(C.pre.g('LIB'), C.ret, True))

    def lib(C, *ix):
        return [('exists', z3.And(*[z3.And(C.a(i) > 0, z3.Select(C.pre.g('LIB'), C.a(i))) for i in ix]))]
    x = z3.Int('x')

    def new_vec(n):
        def ens(C):
            m = n(C)
            p = ARRP(C.ret)
            return [('a new vector unless it fails', z3.If(C.ret == 0, C.post.g('LIB') == C.pre.g('LIB'), z3.And(new(C), LEN(C.ret) == m))),
                    ('with its elements', z3.Implies(C.ret != 0, z3.And(base(p) >= C.pre.alloc, base(p) < C.post.alloc, off(p) == 0, C.post.alive(base(p)), C.post.mlen(base(p)) == m))),
                    ('other arrays stay', z3.And(z3.ForAll([x], z3.Implies(x < C.pre.alloc, C.post.alive(x) == C.pre.alive(x)), patterns=[C.post.alive(x)]),
                                                 z3.ForAll([x], z3.Implies(x < C.pre.alloc, C.post.mlen(x) == C.pre.mlen(x)), patterns=[C.post.mlen(x)])))]
        return ens
    MEM = ['malive', 'mlen', 'alloc'] + G('LIB')
    reg(Contract('extern:SUNContext_Create', None, lambda C: [('a new context unless it fails', z3.If(C.ret < 0, C.post.g('LIB') == C.pre.g('LIB'),
        z3.And(C.apost(1) > 0, z3.Not(z3.Select(C.pre.g('LIB'), C.apost(1))), C.post.g('LIB') == z3.Store(C.pre.g('LIB'), C.apost(1), True))))], lambda C: ['param:1'] + G('LIB'), trusted=True, note=note))
    reg(Contract('extern:N_VNew_Serial', lambda C: lib(C, 1) + [('length', C.a(0) >= 0)], new_vec(lambda C: C.a(0)), MEM, trusted=True, note=note))
    reg(Contract('extern:N_VClone', lambda C: lib(C, 0), new_vec(lambda C: LEN(C.a(0))), MEM, trusted=True, note=note))
    reg(Contract('extern:N_VConst', lambda C: lib(C, 1), lambda C: [('every element', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < LEN(C.a(1))), z3.Select(arr(C.post, ARRP(C.a(1))), j_) == C.a(0)),
                                                                                 patterns=[z3.Select(arr(C.post, ARRP(C.a(1))), j_)]))], lambda C: [('mem:real', [base(ARRP(C.a(1)))])], trusted=True, note=note))
    reg(Contract('extern:SUNDenseMatrix', lambda C: lib(C, 2), lambda C: [('a new matrix unless it fails', z3.If(C.ret == 0, C.post.g('LIB') == C.pre.g('LIB'), z3.And(new(C), z3.Implies(C.a(0) == C.a(1), MD(C.ret) == C.a(0)))))], G('LIB'), trusted=True, note=note))
    reg(Contract('extern:SUNLinSol_Dense', lambda C: lib(C, 0, 1, 2) + [('dimension', LEN(C.a(0)) == MD(C.a(1)))], lambda C: [('a new solver unless it fails', z3.If(C.ret == 0, C.post.g('LIB') == C.pre.g('LIB'), new(C)))], G('LIB'), trusted=True, note=note))
    reg(Contract('extern:KINCreate', lambda C: lib(C, 0), lambda C: [('a new solver unless it fails', z3.If(C.ret == 0, C.post.g('LIB') == C.pre.g('LIB'), new(C))), ('no derivative yet', z3.And(z3.Select(C.pre.g('JF'), C.ret) == NOFN, z3.Select(C.pre.g('LS'), C.ret) == 0))], G('LIB'), trusted=True, note=note))

    def fnval(x):
        if isinstance(x, tuple) and x[0] == 'fn':
            return z3.Int('fn:' + x[1]['referencedDecl']['name'])
        return x if isinstance(x, z3.ArithRef) and x.is_int() else z3.Int('fn:something else')

    def setter(name, g, ix, *objs):
        reg(Contract('extern:' + name, lambda C: lib(C, *objs), lambda C: [('registered unless it fails', z3.Implies(C.ret >= 0, C.post.g(g) == z3.Store(C.pre.g(g), C.a(0), fnval(C.a(ix)))))], G(g), trusted=True, note=note))
    setter('KINInit', 'EQ', 1, 0, 2)
    setter('KINSetUserData', 'UD', 1, 0)
    setter('KINSetLinearSolver', 'LS', 1, 0, 1, 2)
    setter('KINSetJacFn', 'JF', 1, 0)
    for f in ('KINSetErrHandlerFn', 'KINSetInfoHandlerFn'):
        reg(Contract('extern:' + f, lambda C: lib(C, 0), None, (), trusted=True, note=note + ': only what is printed'))

    def gone(name, *rest):
        reg(Contract('extern:' + name, lambda C: lib(C, 0), lambda C: [('destroyed', C.post.g('LIB') == z3.Store(C.pre.g('LIB'), C.a(0), False))], lambda C: G('LIB') + list(rest), trusted=True, note=note))
    for f in ('N_VDestroy', 'SUNLinSolFree', 'SUNMatDestroy'):
        gone(f)
    gone('KINFree', 'param:0')
    gone('SUNContext_Free', 'param:0')

    def ct_ens(C):
        b = t2(C)
        return b.inv() + [('as configured', z3.And(b.sys == C.a(0), b.tol == C.a(1), b.hmax == C.a(2), b.hcur == C.a(2))), ('new arrays', z3.And(*[base(p) >= C.pre.alloc for p in b.own + [b.sd]]))]
    FIELDS = ('dq', 'k', 'guess', 'err_tol', 'h_max', 'h_cur', 'sunctx', 'y', 'scale', 'kmem', 'J', 'LS')
    reg(Contract('trap::prep_kinsol(bool)', inline=True))
    reg(Contract('trap::check_retval(void*,char*,int)', inline=True))
    reg(Contract('ode_solver::ode_solver(ode_system*)', inline=True))
    reg(Contract('trap::trap(ode_system*,double,double,bool)', lambda C: [('system', z3.And(C.a(0) > 0, dim(C.pre, C.a(0)) >= 0)), ('limits', z3.And(C.a(1) > 0, C.a(2) > 0))], ct_ens,
                 lambda C: [('ode_solver.sys', [C.this])] + [('trap.' + f, [C.this]) for f in FIELDS] + [('kinsol_data_t.self', [C.pre.get('trap.kinsol_data', C.this)])] + ['malive', 'mlen', 'alloc'] + G('LIB', 'UD', 'EQ', 'JF', 'LS'), ensures_throw=lambda C: []))

    def dt_ens(C):
        a = t1(C)
        return [('everything it allocated is released, and nothing else', z3.ForAll([x], C.post.alive(x) == z3.And(C.pre.alive(x), *[x != base(p) for p in a.own[:3]]), patterns=[C.post.alive(x)])),
                ('every object of the library is released, and nothing else', z3.ForAll([x], z3.Select(C.post.g('LIB'), x) == z3.And(z3.Select(C.pre.g('LIB'), x), *[x != o for o in (a.y, a.scale, a.J, a.LS, a.kmem, a.ctx)]), patterns=[z3.Select(C.post.g('LIB'), x)]))]
    reg(Contract('trap::~trap()', lambda C: t1(C).layout(), dt_ens, lambda C: ['malive'] + G('LIB') + [('trap.' + f, [C.this]) for f in ('kmem', 'sunctx')]))

    # ------------------------------------------------------------ the equation and its derivative
    def fn_req(C):
        d = C.a(2)
        a = Tr(C.pre, C.pre.get('kinsol_data_t.self', d))
        y, f = ARRP(C.a(0)), ARRP(C.a(1))
        return func_ok(C.pre, d) + [('vectors', z3.And(C.a(0) > 0, C.a(1) > 0, valid(C.pre, y, a.n), valid(C.pre, f, a.n), base(y) != base(f), base(f) != base(a.k)))]

    def fn_ens(C):
        d = C.a(2)
        a = Tr(C.pre, C.pre.get('kinsol_data_t.self', d))
        y, f = ARRP(C.a(0)), ARRP(C.a(1))
        r = RES(a.n, a.sys, vec(C.pre, a.n, a.k), C.pre.get('kinsol_data_t.h', d), vec(C.pre, a.n, y))
        f1 = arr(C.post, f)
        return [('the residual', z3.ForAll([j_], z3.Implies(z3.And(j_ >= off(f), j_ < off(f) + a.n), z3.Select(f1, j_) == z3.Select(r, j_ - off(f))), patterns=[z3.Select(f1, j_)])),
                ('success', C.ret == 0), ('only the answer is written', same_outside(f1, arr(C.pre, f), off(f), a.n))]
    reg(Contract('trap::func(_generic_N_Vector*,_generic_N_Vector*,void*)', fn_req, fn_ens, lambda C: [('mem:real', [base(ARRP(C.a(1)))])]))

    # ------------------------------------------------------------ one attempt
    def st_req(C):
        a = t1(C)
        q, d = C.a(0), C.a(2)
        return a.layout() + a.apart(q) + [('step', C.a(1) > 0), ('derivatives', valid(C.pre, d, a.n)), ('derivatives are not overwritten', z3.And(base(d) != base(q), *[base(d) != base(p) for p in (a.k, a.guess, a.yd)]))]

    def st_ens(C):
        a, b = t1(C), t2(C)
        q, h = C.a(0), C.a(1)
        v, d = vec(C.pre, a.n, q), vec(C.pre, a.n, C.a(2))
        w = vec(C.post, a.n, q)
        g1 = arr(C.post, a.guess)
        return b.layout() + [('a solution if successful', z3.Implies(C.ret, solves(a.n, a.sys, v, d, h, w))),
                             ('otherwise the state is left alone', z3.Implies(z3.Not(C.ret), w == v)),
                             ('only the state is written', same_outside(arr(C.post, q), arr(C.pre, q), off(q), a.n)),
                             ("the guess is Euler's", z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < a.n), z3.Select(g1, j_) == z3.Select(EU(a.n, v, d, h), j_)), patterns=[z3.Select(g1, j_), z3.Select(EU(a.n, v, d, h), j_)]))]
    def st_inv(L):
        a = Tr(L.fnpre, L.this)
        q, h, d = L.param_entry(0), L.param_entry(1), L.param_entry(2)
        idx = L.mod_locals(INT)
        subs = L.mod.get(('mem', 'real'), {})
        if len(idx) != 1 or None in subs:
            raise SpecMismatch('not a loop over the elements')
        i = idx[0]
        args = (a.n, vec(L.fnpre, a.n, q), vec(L.fnpre, a.n, d), h)
        out = []
        for b in subs.values():
            for nm, p, what in (('fixed term', a.k, TK), ("Euler's guess", a.guess, EU), ('first guess', a.yd, EU)):
                if b.eq(base(p)) or p is a.yd and not any(b.eq(base(x)) for x in a.own):
                    x = z3.Select(L.cur.mem(REAL), b)
                    out.append((nm, z3.Implies(b == base(p), z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < i), z3.Select(x, j_) == z3.Select(what(*args), j_)), patterns=[z3.Select(x, j_)]))))
        if not out:
            raise SpecMismatch('nothing known')
        return out
    reg(Contract('trap::step(double*,double,double*)', st_req, st_ens, lambda C: [('mem:real', [base(p) for p in t1(C).own if p is not t1(C).dq and not p.eq(t1(C).dq)] + [base(C.a(0))]), ('kinsol_data_t.h', [t1(C).data])],
                 loops=[LoopSpec(st_inv, name='over the elements')]))

    # ------------------------------------------------------------ the derivative of the equation
    def gj_req(C):
        n = dim(C.pre, C.this)
        return [('state given', z3.Or(base(C.a(1)) == 0, z3.And(valid(C.pre, C.a(0), n), valid(C.pre, C.a(1), n * n), base(C.a(0)) != base(C.a(1)))))]

    def gj_ens(C):
        n, p = dim(C.pre, C.this), C.a(1)
        q1 = arr(C.post, p)
        return [('known or not', C.ret == HASJ(C.this)), ('nothing is written without a place', z3.Implies(base(p) == 0, q1 == arr(C.pre, p))), ('only the answer is written', z3.Implies(base(p) != 0, same_outside(q1, arr(C.pre, p), off(p), n * n))),
                ('its value', z3.Implies(z3.And(base(p) != 0, C.ret), z3.ForAll([j_], z3.Implies(z3.And(j_ >= off(p), j_ < off(p) + n * n), z3.Select(q1, j_) == JACV(C.this, vec(C.pre, n, C.a(0)), j_ - off(p))), patterns=[z3.Select(q1, j_)])))]
    reg(Contract('ode_system::get_jacobian(double*,double*)', gj_req, gj_ens, lambda C: [('mem:real', [base(C.a(1))])], trusted=True, note='user code: the derivatives by columns'))

    def jc_data(C):
        d = C.a(3)
        return d, Tr(C.pre, C.pre.get('kinsol_data_t.self', d)), ARRP(C.a(0)), MATP(C.a(2))

    def jc_req(C):
        d, a, y, J = jc_data(C)
        return func_ok(C.pre, d) + [('derivatives are known', HASJ(a.sys)), ('vector and matrix', z3.And(C.a(0) > 0, C.a(2) > 0, valid(C.pre, y, a.n), valid(C.pre, J, a.n * a.n), base(J) > 0, off(J) == 0, base(y) != base(J)))]

    def diag_ax(C):
        """DG is the column of a diagonal element, -1 for others"""
        d, a, y, J = jc_data(C)
        n = a.n
        return [z3.ForAll([j_], z3.Implies(DG(n, j_) >= 0, z3.And(DG(n, j_) < n, j_ == DG(n, j_) * (n + 1))), patterns=[DG(n, j_)]),
                z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < n), z3.And(DG(n, i_ * (n + 1)) == i_, i_ * (n + 1) >= 0, i_ * (n + 1) < n * n)), patterns=[DI(i_)]),
                z3.ForAll([j_], DG(n, j_) >= -1, patterns=[DG(n, j_)]), z3.ForAll([i_], DI(i_) == 0, patterns=[DI(i_)])]

    def jc_ens(C):
        d, a, y, J = jc_data(C)
        J1 = arr(C.post, J)
        return [('the derivative of the residual', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < a.n * a.n), z3.Select(J1, j_) == JACV(a.sys, vec(C.pre, a.n, y), j_) * (C.pre.get('kinsol_data_t.h', d) * HALF) - z3.If(DG(a.n, j_) >= 0, z3.RealVal(1), z3.RealVal(0))), patterns=[z3.Select(J1, j_)])), ('success', C.ret == 0)]

    def jc_loop(L):
        d = L.param_entry(3)
        a = Tr(L.fnpre, L.fnpre.get('kinsol_data_t.self', d))
        y, J = ARRP(L.param_entry(0)), MATP(L.param_entry(2))
        idx = L.mod_locals(INT)
        if len(idx) != 1:
            raise SpecMismatch('not a loop over the elements')
        i = idx[0]
        x, x0 = arr(L.cur, J), arr(L.entry, J)
        hh = L.fnpre.get('kinsol_data_t.h', d) * HALF
        one = z3.If(z3.And(DG(a.n, j_) >= 0, DG(a.n, j_) < i), z3.RealVal(1), z3.RealVal(0))
        nn = a.n * a.n
        return x, x0, i, hh, one, nn, a

    def jc_diag(L):
        x, x0, i, hh, one, nn, a = jc_loop(L)
        return [('column', DI(i) == 0), ('diagonal so far', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < nn), z3.Select(x, j_) == z3.Select(x0, j_) - one), patterns=[z3.Select(x, j_)]))]
    reg(Contract('trap::jac(_generic_N_Vector*,_generic_N_Vector*,_generic_SUNMatrix*,void*,_generic_N_Vector*,_generic_N_Vector*)', jc_req, jc_ens, lambda C: [('mem:real', [base(MATP(C.a(2)))])],
                 setup_lemmas=diag_ax, loops=[LoopSpec(jc_diag, match=lambda L: not L.mapped, name='over the diagonal')]))

    # ------------------------------------------------------------ one free step
    def in_req(C):
        a = t1(C)
        return a.inv() + a.apart(C.a(0)) + [('interval', C.a(1) >= 0)]

    def euler(C):
        a = t1(C)
        v = vec(C.pre, a.n, C.a(0))
        return z3.Select(EU(a.n, v, dvec(a, v), C.ret), j_)

    def in_ens(C):
        a, b = t1(C), t2(C)
        q = C.a(0)
        v = vec(C.pre, a.n, q)
        h, lim = C.ret, C.a(1)
        q1 = arr(C.post, q)
        df = euler(C) - z3.Select(q1, off(q) + j_)
        return b.inv() + [
            ('no further than asked', z3.And(h >= 0, h <= lim)),
            ('no further than the largest step', h <= a.hmax),
            ('no further than planned', h <= a.hcur),
            ('some progress', z3.Implies(lim > 0, h > 0)),
            ('a step that had to be shorter limits the next', z3.Implies(z3.And(h < lim, h < a.hcur), b.hcur <= h)),
            ('the state solves the trapezoidal rule', z3.If(h == 0, vec(C.post, a.n, q) == v, TRAP(a.n, a.sys, v, h, vec(C.post, a.n, q)))),
            ('only the state is written', same_outside(q1, arr(C.pre, q), off(q), a.n)),
            ('the next step is within the error limit', z3.Implies(h > 0, z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < a.n), LIM(b.hcur, df, a.tol, h)), patterns=[z3.Select(q1, off(q) + j_)]))),
            ('a step a solver may take', Flow(C.this, v, h, vec(C.post, a.n, q)))]


    def limit(hc, df, tol, h):
        d = z3.If(df < 0, -df, df)
        return z3.Or(d < 2 * TINY * h * h, hc * hc * d <= tol * h * h)

    def try_inv(L):
        a, b = Tr(L.fnpre, L.this), Tr(L.cur, L.this)
        q, lim = L.param_entry(0), L.param_entry(1)
        hs = L.mod_locals(REAL)
        if len(hs) != 1:
            raise SpecMismatch('no step size')
        h = hs[0]
        v = vec(L.fnpre, a.n, q)
        return b.inv() + [('step size', z3.And(h > 0, h <= lim, h <= a.hmax, h <= a.hcur)), ('limit after a failure', z3.Implies(z3.And(h < lim, h < a.hcur), b.hcur <= h)), ('state so far', vec(L.cur, a.n, q) == v),
                          ('derivatives of the state', norm(a.n, arr(L.cur, a.dq), 0) == dvec(a, v)),
                          ('only the state is written', same_outside(arr(L.cur, q), arr(L.fnpre, q), off(q), a.n))]

    def lim_inv(L):
        a, b = Tr(L.fnpre, L.this), Tr(L.cur, L.this)
        idx = L.mod_locals(INT)
        if len(idx) != 1:
            raise SpecMismatch('not a loop over the elements')
        q = L.param_entry(0)
        hs = [x.t for k, x in L.entry_st.locals.items() if k[0] == L.frame and isinstance(x, SV) and x.ty == REAL and ('local', k) not in L.mod]
        hs = [x for x in hs if not any(x.eq(y) for y in (L.param_entry(1),))]
        if len(hs) != 1:
            raise SpecMismatch('no step size')
        df = z3.Select(arr(L.cur, a.guess), j_) - S.sel(arr(L.cur, q), off(q) + j_)
        return [('next step size', z3.And(b.hcur > 0, b.hcur <= a.hmax, b.hcur <= Tr(L.entry, L.this).hcur)),
                ('limits so far', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < idx[0]), limit(b.hcur, df, a.tol, hs[0])), patterns=[z3.Select(arr(L.cur, a.guess), j_)]))]

    def flow_ax(C):
        a = t1(C)
        return [z3.ForAll([v_, h_, w_], z3.Implies(TRAP(a.n, a.sys, v_, h_, w_), Flow(C.this, v_, h_, w_)), patterns=[Flow(C.this, v_, h_, w_)]),
                z3.ForAll([v_, h_, w_], TRAP(a.n, a.sys, v_, h_, w_) == solves(a.n, a.sys, v_, dvec(a, v_), h_, w_), patterns=[TRAP(a.n, a.sys, v_, h_, w_)])]
    reg(Contract('trap::integrate(double*,double)', in_req, in_ens, lambda C: [('mem:real', [base(p) for p in t1(C).own] + [base(C.a(0))]), ('trap.h_cur', [C.this]), ('kinsol_data_t.h', [t1(C).data])],
                 setup_lemmas=flow_ax, loops=[LoopSpec(try_inv, match=lambda L: not L.mod_locals(INT), name='of attempts'), LoopSpec(lim_inv, name='over the elements')]))

    # ------------------------------------------------------------ an exact interval
    def ad_ens(C):
        a, b = t1(C), t2(C)
        q = C.a(0)
        return b.inv() + [('the state is the interval further, by steps of the method', Flow(C.this, vec(C.pre, a.n, q), C.a(1), vec(C.post, a.n, q))),
                          ('only the state is written', same_outside(arr(C.post, q), arr(C.pre, q), off(q), a.n))]

    def ad_inv(L):
        a, b = Tr(L.fnpre, L.this), Tr(L.cur, L.this)
        q, h, h0 = L.param_entry(0), L.param(1), L.param_entry(1)
        return b.inv() + [('interval left', z3.And(h >= 0, h <= h0)), ('so far', Flow(L.this, vec(L.fnpre, a.n, q), h0 - h, vec(L.cur, a.n, q))),
                          ('only the state is written', same_outside(arr(L.cur, q), arr(L.fnpre, q), off(q), a.n)), ('state pointer', L.param(0) == q)]

    def compose(C):
        t = z3.Real('t')
        return [z3.ForAll([v_, h_, w_, g_, u_, t], z3.Implies(z3.And(Flow(C.this, v_, h_, w_), Flow(C.this, w_, g_, u_), t == h_ + g_), Flow(C.this, v_, t, u_)),
                          patterns=[z3.MultiPattern(Flow(C.this, v_, h_, w_), Flow(C.this, w_, g_, u_), Flow(C.this, v_, t, u_))])]
    reg(Contract('trap::advance(double*,double)', in_req, ad_ens, lambda C: [('mem:real', [base(p) for p in t1(C).own] + [base(C.a(0))]), ('trap.h_cur', [C.this]), ('kinsol_data_t.h', [t1(C).data])],
                 setup_lemmas=compose, loops=[LoopSpec(ad_inv, name='of steps')]))


TARGETS = ['trap::trap(ode_system*,double,double,bool)', 'trap::~trap()', 'trap::advance(double*,double)', 'trap::jac(_generic_N_Vector*,_generic_N_Vector*,_generic_SUNMatrix*,void*,_generic_N_Vector*,_generic_N_Vector*)', 'trap::integrate(double*,double)', 'trap::func(_generic_N_Vector*,_generic_N_Vector*,void*)', 'trap::step(double*,double,double*)']
DRIVER = 'trap.cpp'
ENGINE = dict(entity=('kinsol_data_t',), value=('exception',), ghosts=Ghosts(), opts=dict(numeric=True))

ASSUMPTIONS = ['double arithmetic is taken as real arithmetic', 'contracts of the SUNDIALS functions used (vectors, dense matrix and solver, KINSOL); KINSOL stops where the residual is within its own tolerance',
               'the derivatives supplied by the user are a function of the state', 'termination of the search for a solvable step is not shown']


def tenv(prog):
    return TypeEnv(set(), prog.enum_types, {'V': VAL}, {'N_Vector': REF('_generic_N_Vector'), '_generic_N_Vector': Ty('cls', '_generic_N_Vector'), 'kinsol_data_t': Ty('cls', 'kinsol_data_t')})


def theory(eng):
    return AX
