"""Common vocabulary of the continuous part: arrays of numbers, the user's system of equations, solvers."""
import z3
from vc.engine import *
from vc import sorts as S
from vc.types import *

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
AR, AB = z3.ArraySort(I, R), z3.ArraySort(I, B)
PR, PB = PTR(REAL), PTR(BOOL)
Vec = z3.DeclareSort('Vec')
n_, o_, o2_, j_, s_, d_ = z3.Ints('n o o2 j s d')
a_, b_ = z3.Const('a', AR), z3.Const('b', AR)
u_, v_, w_ = z3.Consts('u v w', Vec)
h_, g_ = z3.Reals('h g')
norm = z3.Function('norm', I, AR, I, Vec)            # the first n elements of an array, from an offset on
elem = z3.Function('elem', Vec, I, R)
diff = z3.Function('diff', I, AR, I, AR, I, I)
D = z3.Function('D', I, Vec, I, R)                   # derivative of a system
Z = z3.Function('Z', I, Vec, I, R)                   # event functions of a system
Tev = z3.Function('Tev', I, Vec, R)                  # time event function of a system
Flow = z3.Function('Flow', I, Vec, R, Vec, B)        # the solver takes the state to another one in this time

AX = [z3.ForAll([n_, a_, o_, j_], z3.Implies(z3.And(j_ >= 0, j_ < n_), elem(norm(n_, a_, o_), j_) == z3.Select(a_, o_ + j_)), patterns=[elem(norm(n_, a_, o_), j_)]),
      z3.ForAll([n_, a_, o_, b_, o2_], z3.Or(norm(n_, a_, o_) == norm(n_, b_, o2_),
                                           z3.And(diff(n_, a_, o_, b_, o2_) >= 0, diff(n_, a_, o_, b_, o2_) < n_,
                                                  z3.Select(a_, o_ + diff(n_, a_, o_, b_, o2_)) != z3.Select(b_, o2_ + diff(n_, a_, o_, b_, o2_)))),
                patterns=[z3.MultiPattern(norm(n_, a_, o_), norm(n_, b_, o2_))]),
      z3.ForAll([s_, v_], Flow(s_, v_, 0, v_), patterns=[Flow(s_, v_, 0, v_)])]


def base(p):
    return S.acc(PR, 0, p)


def off(p):
    return S.acc(PR, 1, p)


def arr(v, p, ty=REAL):
    return v.eng.mem_sel(v.st, ty, base(p))


def at(v, p, i, ty=REAL):
    return S.sel(arr(v, p, ty), z3.simplify(off(p) + i))


def vec(v, n, p):
    return norm(n, arr(v, p), off(p))


def dim(v, s):
    return v.get('ode_system.N', s)


def events(v, s):
    return v.get('ode_system.M', s)


def valid(v, p, n):
    b = base(p)
    return z3.And(b > 0, b < v.alloc, v.alive(b), off(p) >= 0, off(p) + n <= v.mlen(b))


def same_outside(a, b, o, n):
    return z3.ForAll([j_], z3.Implies(z3.Or(j_ < o, j_ >= o + n), z3.Select(a, j_) == z3.Select(b, j_)), patterns=[z3.Select(a, j_)])


def system(reg):
    """the user's system of equations: functions of the state vector"""
    def fun(name, F, size, mod, pin, pout):
        def req(C):
            n = dim(C.pre, C.this)
            m = size(C.pre, C.this)
            return [('state given', valid(C.pre, C.a(pin), n)), ('room for the answer', valid(C.pre, C.a(pout), m)), ('answer apart from the state', base(C.a(pin)) != base(C.a(pout)))]

        def ens(C):
            n, m, p = dim(C.pre, C.this), size(C.pre, C.this), C.a(pout)
            x = vec(C.pre, n, C.a(pin))
            b1 = arr(C.post, p)
            return [('its value', z3.ForAll([j_], z3.Implies(z3.And(j_ >= off(p), j_ < off(p) + m), z3.Select(b1, j_) == F(C.this, x, j_ - off(p))), patterns=[z3.Select(b1, j_)])),
                    ('only the answer is written', same_outside(b1, arr(C.pre, p), off(p), m))] + ([
                    ('its value, by component', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < m), S.sel(b1, off(p) + j_) == F(C.this, x, j_)), patterns=[F(C.this, x, j_)]))] if F is Z else [])
        reg(Contract('ode_system::' + name, req, ens, lambda C: [('mem:real', [base(C.a(pout))])], trusted=True, note='user code: a function of the state'))
    fun('der_func(double*,double*)', D, dim, 'mem:real', 0, 1)
    fun('state_event_func(double*,double*)', Z, events, 'mem:real', 0, 1)
    reg(Contract('ode_system::time_event_func(double*)', lambda C: [('state given', valid(C.pre, C.a(0), dim(C.pre, C.this)))],
                 lambda C: [('its value', C.ret == Tev(C.this, vec(C.pre, dim(C.pre, C.this), C.a(0)))), ('not negative', C.ret >= 0)], (), trusted=True, note='user code: a non-negative function of the state'))
    reg(Contract('ode_system::ode_system(int,int)', inline=True))
