"""Contracts of the second schedule (include/adevs/schedule2.h): a binary heap of models by time advance with an index of positions."""
import z3
from vc.engine import *
from vc import sorts as S
from vc.types import *
from vc.lemma import Lemma, induction

EN = STRUCT('Entry')
AT = REF('Atomic')
LE = LIST(EN)
ML = MAP(AT, ULONG)
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
ii, jj, xx = z3.Ints('i j x')
MAXN = 2 ** 40


class H2:
    def __init__(self, v, s):
        self.v = v
        l, m = v.get('Schedule.model_heap', s), v.get('Schedule.model_index', s)
        self.l, self.m = l, m
        self.n, self.arr, self.dom, self.val = S.llen(LE, l), S.larr(LE, l), S.mdom(ML, m), S.mval(ML, m)

    def at(self, i):
        return S.sel(self.arr, i)

    def mod(self, i):
        return S.fld(EN, 'model', self.at(i))

    def ta(self, i):
        return S.fld(EN, 'time_advance', self.at(i))

    def pos(self, x):
        return S.sel(self.val, x)

    def known(self, x):
        return S.sel(self.dom, x)

    def inH(self, x):
        return z3.And(self.known(x), self.pos(x) >= 0, self.pos(x) < self.n, self.mod(self.pos(x)) == x)

    def tax(self, x):
        return self.ta(self.pos(x))

    def slots(self):
        return [('size', z3.And(self.n >= 0, self.n < MAXN)),
                ('every slot holds a model whose index is that slot', z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < self.n), z3.And(self.mod(ii) > 0, self.known(self.mod(ii)), self.pos(self.mod(ii)) == ii)), patterns=[self.at(ii)]))]

    def child(self, j, i):
        return z3.And(j >= 0, i < self.n, z3.Or(i == 2 * j + 1, i == 2 * j + 2))

    def order(self, *but):
        return z3.ForAll([jj, ii], z3.Implies(z3.And(self.child(jj, ii), *but), self.ta(jj) <= self.ta(ii)), patterns=[z3.MultiPattern(self.at(jj), self.at(ii))])

    def across(self, h):
        return ('order across the slot', z3.ForAll([jj, ii], z3.Implies(z3.And(self.child(jj, h), self.child(h, ii)), self.ta(jj) <= self.ta(ii)), patterns=[z3.MultiPattern(self.at(jj), self.at(ii))]))

    def below(self, h):
        return z3.ForAll([ii], z3.Implies(self.child(h, ii), self.ta(h) <= self.ta(ii)), patterns=[self.at(ii)])

    def inv(self):
        return self.slots() + [('heap order', self.order()), ('every model of the index is in the heap', z3.ForAll([xx], z3.Implies(self.known(xx), self.inH(xx)), patterns=[self.known(xx)]))]


def moved(a, b):
    return [('models keep their time', z3.And(b.n == a.n, z3.ForAll([xx], z3.And(b.inH(xx) == a.inH(xx), z3.Implies(a.inH(xx), b.tax(xx) == a.tax(xx)), z3.Implies(z3.Not(a.inH(xx)), b.pos(xx) == a.pos(xx))), patterns=[b.pos(xx), a.pos(xx)] if not a.val.eq(b.val) else [a.pos(xx)]))),
            ('the same models are known', z3.ForAll([xx], b.known(xx) == a.known(xx), patterns=[b.known(xx)] if not b.dom.eq(a.dom) else [a.known(xx)]))]


_L = {}


def rootmin(h):
    if 'r' not in _L:
        As = z3.ArraySort(I, S.sort(EN))
        P = lambda H, i: S.fld(EN, 'time_advance', z3.Select(H, i))
        order = lambda H, n: z3.ForAll([jj, ii], z3.Implies(z3.And(jj >= 0, ii < n, z3.Or(ii == 2 * jj + 1, ii == 2 * jj + 2)), P(H, jj) <= P(H, ii)), patterns=[z3.MultiPattern(z3.Select(H, jj), z3.Select(H, ii))])
        L = induction('root_is_minimum', [As, I], lambda n, H, N: z3.Implies(n < N, P(H, 0) <= P(H, n)), 0, hyps=lambda H, N: [order(H, N)], pat=lambda n, H, N: [z3.Select(H, n)])

        def proof(H, N):
            n, k, p = z3.Ints('n k p')
            return [('induction step', [order(H, N), n >= 0, n < N, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), P(H, 0) <= P(H, k)), patterns=[z3.Select(H, k)]), z3.Or(n == 0, z3.And(p >= 0, z3.Or(n == 2 * p + 1, n == 2 * p + 2)))],
                     z3.And(z3.Implies(z3.And(n > 0), P(H, 0) <= P(H, p)), P(H, 0) <= P(H, n)))]
        L.proof = proof
        _L['r'] = L
    return _L['r'](h.arr, h.n)


def x_make_heap(eng, args, n):
    """std::make_heap over a whole vector: the elements are put into an order in which, by the comparison's contract, no parent is less than its child"""
    b, e = eng.ev(args[0]), eng.ev(args[1])
    c = args[2] if len(args) > 2 else {}
    while c.get('kind') in ('ImplicitCastExpr', 'CXXConstructExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr') and len(c.get('inner', [])) == 1:
        c = c['inner'][0]
    if not (isinstance(b, It) and isinstance(e, It) and b.kind == e.kind == 'list' and e.pos == 'END' and z3.is_int_value(b.pos) and b.pos.as_long() == 0 and c.get('name') == 'compare_time_advance' and len(eng.prog.fns.get(LESS, [])) == 1):
        raise Unsupported('make_heap')
    lv, a = b.lv, eng.cur(b.lv)
    if not a.eq(eng.cur(e.lv)) or lv.ty != LE:
        raise Unsupported('make_heap')
    m, A = S.llen(LE, a), S.larr(LE, a)
    Rn, p, q = eng.fresh(A.sort(), 'heap'), eng.fresh(z3.ArraySort(I, I), 'from'), eng.fresh(z3.ArraySort(I, I), 'to')
    at = lambda arr, i: z3.Select(arr, i)
    ta = lambda i: S.fld(EN, 'time_advance', at(Rn, i))
    eng.assume(z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < m), z3.And(at(p, ii) >= 0, at(p, ii) < m, at(q, at(p, ii)) == ii, at(Rn, ii) == at(A, at(p, ii)))), patterns=[at(Rn, ii)]))
    eng.assume(z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < m), z3.And(at(q, ii) >= 0, at(q, ii) < m, at(p, at(q, ii)) == ii, at(Rn, at(q, ii)) == at(A, ii))), patterns=[at(A, ii)]))
    eng.assume(z3.ForAll([jj, ii], z3.Implies(z3.And(jj >= 0, ii < m, z3.Or(ii == 2 * jj + 1, ii == 2 * jj + 2)), z3.Not(less(ta(jj), ta(ii)))), patterns=[z3.MultiPattern(at(Rn, jj), at(Rn, ii))]))
    eng.notes.add('std::make_heap by contract: the same elements, no parent less than its child by the comparison it is given')
    eng.setc(lv, S.mk(LE, Rn, m))


LESS = 'Schedule::operator()(Schedule::Entry,Schedule::Entry)'
less = lambda a, b: b < a       # the contract of the comparison (checked for its body)


def build(reg):
    a, b = (lambda C: H2(C.pre, C.this)), (lambda C: H2(C.post, C.this))
    F = lambda C, *fs: [('Schedule.' + f, [C.this]) for f in fs]
    both = lambda C: F(C, 'model_heap', 'model_index')
    lastta = lambda v, x: z3.Select(v.g('lastta'), x)
    reg(Contract('Atomic::ta()', lambda C: [], lambda C: [('recorded', C.post.g('lastta') == z3.Store(C.pre.g('lastta'), C.this, C.ret))], ('ghost:lastta',), trusted=True, note='user code: records the answer'))

    def slot(L):
        """the slot the loop is at (it starts at the slot the function was given) and the one other index it keeps, if any"""
        k, other = L.mod_from(ULONG, L.param_entry(0))
        if len(other) > 1:
            raise SpecMismatch('more than one other index')
        return k, other

    def up_inv(L):
        A, c = H2(L.fnpre, L.this), H2(L.cur, L.this)
        i0, (k, other) = L.param_entry(0), slot(L)
        up = [z3.Implies(k > 0, z3.And(p >= 0, z3.Or(k == 2 * p + 1, k == 2 * p + 2))) for p in other]
        return c.slots() + moved(A, c) + [('slot', z3.And(k >= 0, k < c.n, *up)), ('order around the slot', c.order(ii != k, jj != k)), c.across(k), ('order below once it moved', z3.Implies(k != i0, c.below(k)))]
    up_loop = LoopSpec(up_inv, name='percolate_up', decreases=lambda L: slot(L)[0])
    reg(Contract('Schedule::percolate_up(unsignedlong)', lambda C: a(C).slots() + [('slot', z3.And(C.a(0) >= 0, C.a(0) < a(C).n)), ('order around the slot', a(C).order(ii != C.a(0), jj != C.a(0))), a(C).across(C.a(0))],
                 lambda C: b(C).slots() + moved(a(C), b(C)) + [('slot', z3.And(C.ret >= 0, C.ret < a(C).n)), ('order except below the slot', b(C).order(jj != C.ret)), b(C).across(C.ret), ('order below if it moved', z3.Implies(C.ret != C.a(0), b(C).below(C.ret)))], both, loops=[up_loop]))

    def down_inv(L):
        A, c = H2(L.fnpre, L.this), H2(L.cur, L.this)
        k, other = slot(L)
        return c.slots() + moved(A, c) + [('slot', z3.And(k >= 0, k < c.n, *[ch == 2 * k + 1 for ch in other])), ('order except below the slot', c.order(jj != k)), c.across(k)]
    down_loop = LoopSpec(down_inv, name='percolate_down', decreases=lambda L: H2(L.cur, L.this).n - slot(L)[0])
    reg(Contract('Schedule::percolate_down(unsignedlong)', lambda C: a(C).slots() + [('slot', z3.And(C.a(0) >= 0, C.a(0) < a(C).n)), ('order except below the slot', a(C).order(jj != C.a(0))), a(C).across(C.a(0))],
                 lambda C: b(C).slots() + moved(a(C), b(C)) + [('heap order', b(C).order())], both, loops=[down_loop]))

    # ------------------------------------------------------------ operations
    inv = lambda C: a(C).inv()
    model = lambda C: [('a model', C.a(0) > 0), ('room', a(C).n < MAXN - 1)]

    def others(C, m):
        A, c = a(C), b(C)
        return [('every other model stays at its time', z3.ForAll([xx], z3.Implies(z3.And(A.known(xx), xx != m), z3.And(c.known(xx), c.tax(xx) == A.tax(xx))), patterns=[A.known(xx), c.known(xx)])),
                ('no other model joins', z3.ForAll([xx], z3.Implies(z3.And(c.known(xx), xx != m), A.known(xx)), patterns=[A.known(xx), c.known(xx)]))]
    same = lambda C: [('nothing changes', z3.And(b(C).l == a(C).l, b(C).m == a(C).m))]
    thrown = lambda act: (lambda C: same(C) + [('an active model is refused' if act else 'an inactive model is refused', a(C).known(C.a(0)) == z3.BoolVal(act))])
    W = lambda C: both(C) + ['ghost:lastta']
    reg(Contract('Schedule::add(Atomic*)', lambda C: inv(C) + model(C), lambda C: b(C).inv() + [('was not active', z3.Not(a(C).known(C.a(0)))), ('active at its time advance', z3.And(b(C).known(C.a(0)), b(C).tax(C.a(0)) == lastta(C.post, C.a(0)))), ('one more', b(C).n == a(C).n + 1)] + others(C, C.a(0)),
                 W, ensures_throw=thrown(True)))
    reg(Contract('Schedule::remove(Atomic*)', lambda C: inv(C) + model(C), lambda C: b(C).inv() + [('was active', a(C).known(C.a(0))), ('no longer active', z3.Not(b(C).known(C.a(0)))), ('one less', b(C).n == a(C).n - 1)] + others(C, C.a(0)),
                 W, ensures_throw=thrown(False)))
    reg(Contract('Schedule::update(Atomic*)', lambda C: inv(C) + model(C), lambda C: b(C).inv() + [('was active', a(C).known(C.a(0))), ('active at its time advance', z3.And(b(C).known(C.a(0)), b(C).tax(C.a(0)) == lastta(C.post, C.a(0)))), ('as many', b(C).n == a(C).n)] + others(C, C.a(0)),
                 W, ensures_throw=thrown(False)))
    reg(Contract('Schedule::remove_next()', lambda C: inv(C) + [('not empty', a(C).n > 0)], lambda C: b(C).inv() + [('the next model leaves', z3.Not(b(C).known(a(C).mod(0)))), ('one less', b(C).n == a(C).n - 1)] + others(C, a(C).mod(0)), both))
    T = lambda x: S.fld(EN, 'time_advance', x)
    reg(Contract(LESS, lambda C: [], lambda C: [('the later is the lesser', C.ret == less(T(C.a(0)), T(C.a(1))))], ()))

    def index_inv(L):
        A, c = H2(L.fnpre, L.this), H2(L.cur, L.this)
        k = L.local(ULONG)
        return [('heap', z3.And(c.n == A.n, c.dom == A.dom, k >= 0, k <= c.n, *[i.pos == k for i in L.cur_iters()])), ('indexed so far', z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < k), c.pos(c.mod(ii)) == ii), patterns=[c.at(ii)]))]
    members = lambda A: ('every model of the index is in the heap', z3.ForAll([xx], z3.Implies(A.known(xx), A.inH(xx)), patterns=[A.known(xx)]))
    reg(Contract('Schedule::update_all()', lambda C: a(C).slots() + [members(a(C))], lambda C: b(C).inv() + [('as many', b(C).n == a(C).n), ('no model joins or leaves', b(C).dom == a(C).dom), ('every model stays at its time', z3.ForAll([xx], z3.Implies(a(C).known(xx), b(C).tax(xx) == a(C).tax(xx)), patterns=[a(C).known(xx), b(C).known(xx)]))], both,
                 loops=[LoopSpec(index_inv, name='index', decreases=lambda L: H2(L.cur, L.this).n - L.local(ULONG))]))
    root = lambda C: [rootmin(a(C))]
    reg(Contract('Schedule::get_next()', inv, lambda C: [('none when empty', z3.Implies(a(C).n == 0, C.ret == 0)), ('the model that leaves next', z3.Implies(a(C).n > 0, C.ret == a(C).mod(0))),
                                                     ('an active model of least time', z3.Implies(a(C).n > 0, z3.And(a(C).known(C.ret), z3.ForAll([xx], z3.Implies(a(C).known(xx), a(C).tax(C.ret) <= a(C).tax(xx)), patterns=[a(C).known(xx)]))))], (), setup_lemmas=root))
    reg(Contract('Schedule::get_minimum()', inv, lambda C: [('infinite when empty', z3.Implies(a(C).n == 0, C.ret == T_inf)), ('the time of the next model', z3.Implies(a(C).n > 0, z3.And(a(C).known(a(C).mod(0)), a(C).tax(a(C).mod(0)) == C.ret))),
                                                        ('the least time', z3.ForAll([xx], z3.Implies(a(C).known(xx), C.ret <= a(C).tax(xx)), patterns=[a(C).known(xx)]))], (), setup_lemmas=root))
    reg(Contract('Schedule::empty()', inv, lambda C: [('empty when no model is active', z3.And(z3.Implies(C.ret, z3.ForAll([xx], z3.Not(a(C).known(xx)), patterns=[a(C).known(xx)])), z3.Implies(z3.Not(C.ret), a(C).known(a(C).mod(0)))))], (), setup_lemmas=lambda C: [a(C).at(0) == a(C).at(0)]))
    reg(Contract('Schedule::size()', inv, lambda C: [('the number of models', C.ret == a(C).n)], ()))
    reg(Contract('Schedule::clear()', inv, lambda C: b(C).inv() + [('no model is active', z3.And(b(C).n == 0, z3.ForAll([xx], z3.Not(b(C).known(xx)), patterns=[b(C).known(xx)])))], both))


TARGETS = ['Schedule::' + x for x in ('percolate_up(unsignedlong)', 'percolate_down(unsignedlong)', 'add(Atomic*)', 'remove(Atomic*)', 'update(Atomic*)', 'update_all()', 'operator()(Schedule::Entry,Schedule::Entry)', 'remove_next()', 'get_next()', 'get_minimum()', 'empty()', 'size()', 'clear()')]
DRIVER = 'sched2.cpp'
ENGINE = dict(entity=('Schedule',), value=('exception', 'Entry'), ghosts=dict(lastta=z3.ArraySort(I, R)), externs={'make_heap': x_make_heap})
ASSUMPTIONS = ['get_imminent (which cannot be instantiated) is outside the contracts']


def tenv(prog):
    return TypeEnv(set(), prog.enum_types, {'V': VAL, 'T': TIME}, {})


def theory(eng):
    return [T_sentinel < T_zero, T_zero < T_inf]
