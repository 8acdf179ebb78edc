"""Contracts of the time types (include/adevs/time.h, src/adevs.cpp) and of pins (include/adevs/models.h)."""
import z3
from vc.engine import *
from vc import sorts as S
from vc.types import *
from vc.lemma import Lemma

SD = STRUCT('sd_time')
DF = STRUCT('double_fcmp')
PIN = STRUCT('pin_t')
PV_ = STRUCT('PinValue')
R, I = z3.RealSort(), z3.IntSort()
KMAX = 2 ** 31 - 1
expo = z3.Function('binary_exponent', R, I)
ldx = z3.Function('scale_by_power_of_two', R, I, R)


def t(x):
    return S.fld(SD, 't', x)


def k(x):
    return S.fld(SD, 'k', x)


def lt(a, b):
    return z3.Or(t(a) < t(b), z3.And(t(a) == t(b), k(a) < k(b)))


def eq(a, b):
    return z3.And(t(a) == t(b), k(a) == k(b))


def sd(x, y):
    return S.mk(SD, x, y)


def plus(a, h):
    return z3.If(t(h) == 0, sd(t(a), k(a) + k(h)), sd(t(a) + t(h), k(h)))


def minus(a, b):
    return z3.If(t(a) == t(b), sd(t(a) - t(a), k(a) - k(b)), sd(t(a) - t(b), k(a)))


def absx(x):
    return z3.If(x < 0, -x, x)


def fcmp(a, b, eps):
    d = ldx(eps, expo(z3.If(absx(a) > absx(b), absx(a), absx(b))))
    return z3.If(a - b > d, z3.IntVal(1), z3.If(a - b < -d, z3.IntVal(-1), z3.IntVal(0)))


def dd(x):
    return S.fld(DF, 'd', x)


def pid(x):
    return S.fld(PIN, 'id', x)


def x_frexp(eng, args, n):
    v = eng.rv(eng.ev(args[0]))
    p = eng.rv(eng.ev(args[1]))
    e = expo(absx(v.t))
    eng.store(eng.deref(p), SV(INT, e))
    return SV(REAL, eng.fresh(R, 'mant'))


def x_ldexp(eng, args, n):
    v, e = eng.rv(eng.ev(args[0])), eng.rv(eng.ev(args[1]))
    eng.assume(z3.Implies(v.t >= 0, ldx(v.t, e.t) >= 0))
    return SV(REAL, ldx(v.t, e.t))


def lemma(name, srt, n, stmt, hyps=lambda *a: []):
    """an algebraic law of the spec functions, proved for all values"""
    def st(*ps):
        return z3.Implies(z3.And(z3.BoolVal(True), *hyps(*ps)), stmt(*ps))
    l = Lemma(name, [srt] * n, st, lambda *ps: [('law', hyps(*ps), stmt(*ps))])
    return l


def laws_sd():
    s = S.sort(SD)
    zero = sd(num(0), z3.IntVal(0))
    eps = sd(num(0), z3.IntVal(1))
    le = lambda a, b: z3.Or(lt(a, b), eq(a, b))
    return [
        lemma('order is total', s, 2, lambda a, b: z3.And(z3.Or(lt(a, b), eq(a, b), lt(b, a)), z3.Not(z3.And(lt(a, b), lt(b, a))), z3.Not(lt(a, a)), z3.Implies(eq(a, b), z3.Not(lt(a, b))))),
        lemma('order is transitive', s, 3, lambda a, b, c: z3.Implies(z3.And(lt(a, b), lt(b, c)), lt(a, c))),
        lemma('adding the elapsed interval reaches the end', s, 2, lambda a, b: z3.Implies(le(a, b), eq(plus(a, minus(b, a)), b))),
        lemma('the interval just added is the elapsed interval', s, 2, lambda a, h: eq(minus(plus(a, h), a), h)),
        lemma('intervals are not negative', s, 2, lambda a, b: z3.Implies(z3.And(le(a, b), z3.Or(t(a) == t(b), k(b) >= 0)), le(zero, minus(b, a)))),
        lemma('zero is neutral', s, 1, lambda a: z3.And(eq(plus(a, zero), a), eq(minus(a, a), zero))),
        lemma('addition is associative', s, 3, lambda a, g, h: z3.Implies(z3.And(t(g) >= 0, t(h) >= 0), eq(plus(plus(a, g), h), plus(a, plus(g, h))))),
        lemma('a positive interval moves time forward', s, 2, lambda a, h: z3.Implies(z3.And(lt(zero, h), t(h) >= 0), lt(a, plus(a, h)))),
        lemma('epsilon is the least step', s, 2, lambda a, b: z3.Implies(lt(a, b), le(plus(a, eps), b))),
    ]


def num(x):
    return z3.RealVal(x) if KIND == 'double' else z3.IntVal(x)


KIND = 'double'


class Spec:
    DRIVER = 'time.cpp'

    def __init__(self, kind):
        self.kind = kind
        self.PROG = dict(extra=('-DTT=' + kind,), restrict={'sd_time': kind})
        self.ENGINE = dict(entity=(), value=('exception',), opts={'overflow': True}, externs={'frexp': x_frexp, 'ldexp': x_ldexp})
        self.ASSUMPTIONS = ['double arithmetic treated as real arithmetic (rounding not modelled)', 'frexp/ldexp: exponent and scaling functions with the libm meaning', 'double_fcmp::epsilon is not negative (precondition of the comparisons)',
                            'fewer than 2^31 - 1 pins are created in one process', 'integer parts of super-dense times stay within int; sums of time values stay in range (precondition)']
        self.CON = {}
        self.TARGETS = []
        self.build0()

    def tenv(self, prog):
        return TypeEnv(set(), prog.enum_types, {'V': VAL}, {'TimeType': self.kind, 'TT': self.kind})

    def theory(self, eng):
        x, e1, e2 = z3.Real('x'), z3.Real('e1'), z3.Int('n')
        return [z3.ForAll([e1, e2], z3.Implies(e1 >= 0, ldx(e1, e2) >= 0), patterns=[ldx(e1, e2)])]

    def find(self, prog, key):
        key = key.split('#')[0]
        if '@' in key:
            key, ret = key.split('@')
            l = [f for f in prog.fns.get(key, []) if clean(f.type.split('(')[0]) == ret and f.body is not None]
        else:
            l = prog.fns.get(key)
        if not l:
            from vc.frontend import ExtractionError
            raise ExtractionError('function %s not found' % key)
        return l[0]

    def build(self, reg):
        global KIND
        KIND = self.kind
        for c in self.CON.values():
            reg(c)

    def add(self, *a, **kw):
        c = Contract(*a, **kw)
        self.CON[c.key] = c
        self.TARGETS.append(c.key)

    def build0(self):
        add = self.add
        T = self.kind
        global KIND
        KIND = T
        lim = {'double': None, 'int': 31, 'long': 63}[T]

        def rng(x):
            if lim is None:
                return z3.BoolVal(True)
            return z3.And(x >= -2 ** lim, x < 2 ** lim)

        def krng(x):
            return z3.And(x >= -2 ** 31, x < 2 ** 31)
        P = 'sd_time::'
        none = lambda C: []
        add(P + 'sd_time()', none, lambda C: [('starts at zero', eq(C.this_post, sd(num(0), z3.IntVal(0))))], ['this'])
        add(P + 'sd_time(%s,int)' % T, none, lambda C: [('parts', eq(C.this_post, sd(C.a(0), C.a(1))))], ['this'])
        add(P + 'sd_time(sd_time)', none, lambda C: [('copy', eq(C.this_post, C.a(0)))], ['this'])
        add(P + 'real()', none, lambda C: [('real part', C.ret == t(C.this))])
        add(P + 'integer()', none, lambda C: [('integer part', C.ret == z3.ToReal(k(C.this)))])
        add(P + 'operator=(sd_time)', none, lambda C: [('assigned', eq(C.this_post, C.a(0)))], ['this'])
        for op, f in (('==', eq), ('!=', lambda a, b: z3.Not(eq(a, b))), ('<', lt), ('<=', lambda a, b: z3.Not(lt(b, a))), ('>', lambda a, b: lt(b, a)), ('>=', lambda a, b: z3.Not(lt(a, b)))):
            add(P + 'operator%s(sd_time)' % op, none, lambda C, f=f: [('lexicographic order', C.ret == f(C.this, C.a(0)))],
                post_lemmas=(lambda C: [l(*[z3.Const('q%d' % i, S.sort(SD)) for i in range(len(l.sorts))]) for l in laws_sd()[:2]]))

        def rp(C):
            r = plus(C.this, C.a(0))
            return [('sum in range', z3.And(rng(t(C.this) + t(C.a(0))), krng(k(C.this) + k(C.a(0)))))]

        def rm(C):
            return [('difference in range', z3.And(rng(t(C.this) - t(C.a(0))), krng(k(C.this) - k(C.a(0)))))]
        use = lambda C: [l(*[z3.Const('q%d' % i, S.sort(SD)) for i in range(len(l.sorts))]) for l in laws_sd()]
        add(P + 'operator+=(sd_time)', rp, lambda C: [('advances by the interval', eq(C.this_post, plus(C.this, C.a(0)))), ('returns the new value', eq(C.ret, plus(C.this, C.a(0))))], ['this'], post_lemmas=use)
        add(P + 'operator-=(sd_time)', rm, lambda C: [('elapsed interval', eq(C.this_post, minus(C.this, C.a(0)))), ('returns the new value', eq(C.ret, minus(C.this, C.a(0))))], ['this'], post_lemmas=use)
        add(P + 'operator+(sd_time)', rp, lambda C: [('advanced by the interval', eq(C.ret, plus(C.this, C.a(0))))], post_lemmas=use)
        add(P + 'operator-(sd_time)', rm, lambda C: [('elapsed interval', eq(C.ret, minus(C.this, C.a(0))))], post_lemmas=use)

        def alias(eng, fn, this, vals):
            vals[0] = this.lv
        for c in ('+=', '-=', '+', '-', '=', '==', '<'):
            o = self.CON[P + 'operator%s(sd_time)' % c]
            add(o.key + '#with itself', o.requires, o.ensures, list(o.modifies) + (['param:0'] if o.modifies else []), setup=alias)
        # ------------------------------------------------------------ constants
        F = fractions.Fraction
        mx = {'float': (2 - F(1, 2 ** 23)) * 2 ** 127, 'double': F(sys.float_info.max), 'long double': (2 - F(1, 2 ** 63)) * 2 ** 16383}

        def rv(f):
            f = F(f)
            return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
        for ty in ('float', 'double', 'long double'):
            for fn, v in (('inf', mx[ty]), ('zero', 0), ('sentinel', -1), ('epsilon', 0)):
                add('adevs_%s()@%s' % (fn, ty), none, lambda C, v=v: [('value', C.ret == rv(v))])
        for ty, b in (('int', 31), ('long', 63)):
            for fn, v in (('inf', 2 ** b - 1), ('zero', 0), ('sentinel', -1), ('epsilon', 0)):
                add('adevs_%s()@%s' % (fn, ty), none, lambda C, v=v: [('value', C.ret == z3.IntVal(v))])
        for fn, v in (('inf', mx['double']), ('zero', 0), ('sentinel', -1), ('epsilon', 0)):
            add('adevs_%s()@double_fcmp' % fn, none, lambda C, v=v: [('value', dd(C.ret) == rv(v))])
        top = {'double': lambda: rv(mx['double']), 'int': lambda: z3.IntVal(KMAX), 'long': lambda: z3.IntVal(2 ** 63 - 1)}[T]
        for fn, v in (('inf', lambda: (top(), KMAX)), ('zero', lambda: (num(0), 0)), ('sentinel', lambda: (num(-1), 0)), ('epsilon', lambda: (num(0), 1))):
            add('adevs_%s()@sd_time<%s>' % (fn, T), none, lambda C, v=v: [('value', eq(C.ret, sd(v()[0], z3.IntVal(v()[1]))))])

        # ------------------------------------------------------------ double_fcmp
        eps = lambda C: C.pre.static('double_fcmp::epsilon')
        tol = lambda C: [('a tolerance', eps(C) >= 0)]

        def known(eng, fn, this, vals):
            eng.touch_static('double_fcmp', 'epsilon')
        Q = 'double_fcmp::'
        add(Q + 'fcmp(double,double,double)', lambda C: [('a tolerance', C.a(2) >= 0)], lambda C: [('compares within epsilon scaled to the larger magnitude', C.ret == fcmp(C.a(0), C.a(1), C.a(2)))],
            post_lemmas=lambda C: [l(*[z3.Real('q%d' % i) for i in range(len(l.sorts))]) for l in laws_fcmp()])
        add(Q + 'double_fcmp(double)', none, lambda C: [('value', dd(C.this_post) == C.a(0))], ['this'])
        add(Q + 'double_fcmp(double_fcmp)', none, lambda C: [('copy', dd(C.this_post) == dd(C.a(0)))], ['this'])
        add(Q + 'operator=(double_fcmp)', none, lambda C: [('assigned', dd(C.this_post) == dd(C.a(0)))], ['this'])
        add(Q + 'operator=(double)', none, lambda C: [('assigned', dd(C.this_post) == C.a(0))], ['this'])
        add(Q + 'operator double()', none, lambda C: [('value', C.ret == dd(C.this))])
        cmpf = (('<', lambda f: f < 0), ('<=', lambda f: f <= 0), ('>', lambda f: f > 0), ('>=', lambda f: f >= 0), ('==', lambda f: f == 0))
        for op, f in cmpf:
            add(Q + 'operator%s(double_fcmp)' % op, tol, lambda C, f=f: [('tolerant comparison', C.ret == f(fcmp(dd(C.this), dd(C.a(0)), eps(C))))], setup=known)
        for op, f in (cmpf[0], cmpf[4]):
            add(Q + 'operator%s(double)' % op, tol, lambda C, f=f: [('tolerant comparison', C.ret == f(fcmp(dd(C.this), C.a(0), eps(C))))], setup=known)
        add(Q + 'operator+(double_fcmp)', none, lambda C: [('sum', dd(C.ret) == dd(C.this) + dd(C.a(0)))])
        add(Q + 'operator-(double_fcmp)', none, lambda C: [('difference', dd(C.ret) == dd(C.this) - dd(C.a(0)))])
        add(Q + 'operator+=(double_fcmp)', none, lambda C: [('sum', dd(C.this_post) == dd(C.this) + dd(C.a(0))), ('returns it', dd(C.ret) == dd(C.this_post))], ['this'])
        add(Q + 'operator-=(double_fcmp)', none, lambda C: [('difference', dd(C.this_post) == dd(C.this) - dd(C.a(0))), ('returns it', dd(C.ret) == dd(C.this_post))], ['this'])

        for c in ('+=', '-=', '+', '-', '=', '=='):
            o = self.CON[Q + 'operator%s(double_fcmp)' % c]

            def itself(eng, fn, this, vals, o=o):
                if o.setup:
                    o.setup(eng, fn, this, vals)
                alias(eng, fn, this, vals)
            add(o.key + '#with itself', o.requires, o.ensures, list(o.modifies) + (['param:0'] if o.modifies else []), setup=itself)

        # ------------------------------------------------------------ pins
        A = 'pin_t::atom'

        def pin_ens(C):
            steps = [s for s in getattr(C.eng.st, 'asteps', ()) if s[0] == A] if C.post_st is C.eng.st else None
            i = pid(C.this_post)
            a0, a1 = C.pre.static(A), C.post.static(A)
            out = [('identity not issued before', i >= a0), ('identity never issued again', z3.And(a1 > i, a1 >= a0))]
            if steps is not None:
                out.append(('one indivisible step reserves the identity', z3.Or(z3.BoolVal(False), *[z3.And(s[1] == i, s[2] > i) for s in steps])))
                out.append(('no step gives an identity back', z3.And(z3.BoolVal(True), *[s[2] >= s[1] for s in steps])))
            return out
        add('pin_t::pin_t()', lambda C: [('fewer than 2^31 pins', C.pre.static(A) < 2 ** 31 - 1)], pin_ens, ['this', 'static:' + A], setup=lambda eng, fn, this, vals: eng.touch_static('pin_t', 'atom', room=True))
        add('pin_t::pin_t(pin_t)', none, lambda C: [('keeps the identity', pid(C.this_post) == pid(C.a(0)))], ['this'])
        add('pin_t::operator=(pin_t)', none, lambda C: [('takes the identity', pid(C.this_post) == pid(C.a(0))), ('returns itself', pid(C.ret) == pid(C.a(0)))], ['this'])
        for op, f in (('==', lambda a, b: a == b), ('!=', lambda a, b: a != b), ('<', lambda a, b: a < b), ('<=', lambda a, b: a <= b), ('>', lambda a, b: a > b), ('>=', lambda a, b: a >= b)):
            add('pin_t::operator%s(pin_t)' % op, none, lambda C, f=f: [('order of identities', C.ret == f(pid(C.this), pid(C.a(0))))])
        pin, val = lambda x: S.fld(PV_, 'pin', x), lambda x: S.fld(PV_, 'value', x)
        add('PinValue::PinValue(pin_t,V)', none, lambda C: [('pin and value', z3.And(pin(C.this_post) == C.a(0), val(C.this_post) == C.a(1)))], ['this', 'static:' + A],
            setup=lambda eng, fn, this, vals: eng.touch_static('pin_t', 'atom', room=True))
        add('PinValue::PinValue(PinValue)', none, lambda C: [('pin and value', z3.And(pin(C.this_post) == pin(C.a(0)), val(C.this_post) == val(C.a(0))))], ['this', 'static:' + A],
            setup=lambda eng, fn, this, vals: eng.touch_static('pin_t', 'atom', room=True))
        add('PinValue::operator=(PinValue)', none, lambda C: [('pin and value', z3.And(pin(C.this_post) == pin(C.a(0)), val(C.this_post) == val(C.a(0)))),
                                                             ('returns itself', C.ret == C.this_post)], ['this'])


def laws_fcmp():
    def ax(e, *xs):
        return [e >= 0] + [ldx(e, expo(z3.If(absx(a) > absx(b), absx(a), absx(b)))) >= 0 for a in xs for b in xs]
    return [lemma('fcmp is antisymmetric', R, 3, lambda a, b, e: fcmp(a, b, e) == -fcmp(b, a, e), lambda a, b, e: ax(e, a, b)),
            lemma('fcmp is reflexive', R, 2, lambda a, e: fcmp(a, a, e) == 0, lambda a, e: ax(e, a)),
            lemma('fcmp equal exactly within the tolerance', R, 3, lambda a, b, e: (fcmp(a, b, e) == 0) == (absx(a - b) <= ldx(e, expo(z3.If(absx(a) > absx(b), absx(a), absx(b))))), lambda a, b, e: ax(e, a, b))]


_cache = {}


def make(kind):
    if kind not in _cache:
        _cache[kind] = Spec(kind)
    return _cache[kind]
