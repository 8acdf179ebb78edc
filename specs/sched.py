"""Contracts of Schedule (include/adevs/sched.h)."""
import z3
from vc.engine import *
from vc import sorts as S
from vc.types import *
from vc.lemma import Lemma, induction

HE = STRUCT('heap_element')
AT = REF('Atomic')
LA = LIST(AT)
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
ii, jj, xx, kk = z3.Ints('i j x k')
MAXCAP = 2 ** 31
MAXSZ = 2 ** 29


class Heap:
    """the abstract heap of schedule s in view v"""
    def __init__(self, v, s):
        self.v, self.s = v, s
        self.cap, self.size = v.get('Schedule.capacity', s), v.get('Schedule.size', s)
        self.p = v.get('Schedule.heap', s)
        self.b, self.off = S.acc(PTR(HE), 0, self.p), S.acc(PTR(HE), 1, self.p)
        self.H = S.sel(v.mem(HE), self.b)
        self.q = v.f('Atomic.q_index')

    def at(self, i):
        return S.sel(self.H, i)

    def item(self, i):
        return S.fld(HE, 'item', self.at(i))

    def prio(self, i):
        return S.fld(HE, 'priority', self.at(i))

    def qi(self, x):
        return S.sel(self.q, x)

    def shape(self):
        v = self.v
        return [('capacity', z3.And(self.cap >= 2, self.cap < MAXCAP)),
                ('size', z3.And(self.size >= 0, self.size < self.cap)),
                ('array', z3.And(v.alive(self.b), self.off == 0, v.mlen(self.b) == self.cap, self.b > 0, self.b < v.alloc)),
                ('sentinel', self.prio(0) == T_sentinel)]

    def itemok(self, i):
        return z3.And(self.item(i) > 0, self.item(i) < self.v.alloc, self.qi(self.item(i)) == i, T_sentinel < self.prio(i), self.prio(i) < T_inf)

    def items(self, but=None):
        c = [ii >= 1, ii <= self.size]
        if but is not None:
            c.append(ii != but)
        return z3.ForAll([ii], z3.Implies(z3.And(*c), self.itemok(ii)), patterns=[self.at(ii)])

    def child(self, j, i):
        return z3.And(j >= 1, i <= self.size, z3.Or(i == 2 * j, i == 2 * j + 1))

    def order(self, but=None):
        c = [self.child(jj, ii)]
        if but is not None:
            c += [ii != but, jj != but]
        return z3.ForAll([jj, ii], z3.Implies(z3.And(*c), self.prio(jj) <= self.prio(ii)),
                         patterns=[z3.MultiPattern(self.at(jj), self.at(ii))])

    def inv(self):
        return self.shape() + [('every slot holds a model that points back to it', self.items()),
                               ('heap order', self.order()),
                               ('empty schedule has infinite priority', z3.Implies(self.size == 0, z3.And(self.prio(1) == T_inf, self.item(1) == 0)))]

    def mem(self, x, but=None):
        c = [self.qi(x) >= 1, self.qi(x) <= self.size, self.item(self.qi(x)) == x, x > 0]
        if but is not None:
            c.append(self.qi(x) != but)
        return z3.And(*c)

    def pr(self, x):
        return self.prio(self.qi(x))

    # a heap with a hole at h into which a model with priority p is about to go
    def below(self, h, p):
        return z3.ForAll([ii], z3.Implies(self.child(h, ii), p <= self.prio(ii)), patterns=[self.at(ii)])

    def skip(self, h):
        return z3.ForAll([jj, ii], z3.Implies(z3.And(self.child(jj, h), self.child(h, ii)), self.prio(jj) <= self.prio(ii)),
                         patterns=[z3.MultiPattern(self.at(jj), self.at(ii))])

    def above(self, h, p):
        return z3.ForAll([jj], z3.Implies(self.child(jj, h), self.prio(jj) <= p), patterns=[self.at(jj)])

    def hole(self, h):
        return [('hole in range', z3.And(h >= 1, h <= self.size)),
                ('items around the hole', self.items(h)),
                ('order around the hole', self.order(h)),
                ('order across the hole', self.skip(h))]


def moved(a, ha, b, hb):
    """b holds exactly the models of a (leaving out the hole), at the same priority"""
    return [('models keep their priority while the hole moves',
             z3.ForAll([xx], z3.Implies(a.mem(xx, ha), z3.And(b.mem(xx, hb), b.pr(xx) == a.pr(xx))), patterns=[a.qi(xx), b.qi(xx)] if not a.q.eq(b.q) else [a.qi(xx)])),
            ('no model appears from nowhere', z3.ForAll([ii], z3.Implies(z3.And(ii >= 1, ii <= b.size, ii != hb), a.mem(b.item(ii), ha)), patterns=[b.at(ii)])),
            ('slots outside the tree untouched', z3.ForAll([ii], z3.Implies(z3.Or(ii < 1, ii > b.size), b.at(ii) == a.at(ii)), patterns=[b.at(ii)])),
            ('other models untouched', z3.ForAll([xx], z3.Implies(z3.Not(a.mem(xx, ha)), b.qi(xx) == a.qi(xx)), patterns=[b.qi(xx)]))]


def same_block(a, b):
    return [('same array', z3.And(b.p == a.p, b.size == a.size, b.cap == a.cap))]


HMEM = 'mem:' + HE.key


def heap_mods(C):
    return [(HMEM, [Heap(C.pre, C.this).b]), 'Atomic.q_index']


# --- lemma: the root is a minimum
def _rootmin():
    Hs = z3.ArraySort(I, S.sort(HE))

    def P(H, i):
        return S.fld(HE, 'priority', z3.Select(H, i))

    def order(H, n):
        return z3.ForAll([jj, ii], z3.Implies(z3.And(jj >= 1, ii <= n, z3.Or(ii == 2 * jj, ii == 2 * jj + 1)), P(H, jj) <= P(H, ii)),
                         patterns=[z3.MultiPattern(z3.Select(H, jj), z3.Select(H, ii))])

    L = induction('root_is_minimum', [Hs, I], lambda n, H, N: z3.Implies(n <= N, P(H, 1) <= P(H, n)), 1,
                  hyps=lambda H, N: [order(H, N)], pat=lambda n, H, N: [z3.Select(H, n)])

    def proof(H, N):
        n, k = z3.Int('n'), z3.Int('k')
        p = z3.Int('p')
        return [('induction step', [order(H, N), n >= 1, n <= N,
                                    z3.ForAll([k], z3.Implies(z3.And(k >= 1, k < n), P(H, 1) <= P(H, k)), patterns=[z3.Select(H, k)]),
                                    z3.Or(n == 2 * p, n == 2 * p + 1)], z3.And(P(H, 1) <= P(H, p) if False else z3.Implies(p >= 1, P(H, 1) <= P(H, p)), P(H, 1) <= P(H, n)))]
    L.proof = proof
    return L


_L = {}


def rootmin(h):
    if 'rootmin' not in _L:
        _L['rootmin'] = _rootmin()
    return _L['rootmin'](h.H, h.size)


# --- descendants in the implicit tree, defined by recursion on i
desc = z3.Function('desc', I, I, B)


def descdef(r, i):
    return desc(r, i) == z3.And(r >= 1, z3.Or(i == r, z3.And(i > r, desc(r, i / 2))))


def _desc_lemmas():
    r = z3.Int('r')
    n = z3.Int('n')
    k = z3.Int('k')

    def mk(name, prop, insts, pats):
        """prop(r, n), proved for an arbitrary r by strong induction on n; instantiated at a given r"""
        def stmt(r0):
            return z3.Implies(r0 >= 1, z3.ForAll([n], z3.Implies(n >= 1, prop(r0, n)), patterns=pats(r0, n)))

        def proof(r):
            h = n / 2
            return [('induction step', [r >= 1, n >= 1, z3.Implies(h >= 1, prop(r, h))] + insts(r, n), prop(r, n))]
        return Lemma(name, [I], stmt, proof)

    l3 = mk('desc_le', lambda r, n: z3.Implies(desc(r, n), r <= n), lambda r, n: [descdef(r, n)], lambda r, n: [desc(r, n)])
    l1 = mk('desc_child_up', lambda r, n: z3.Implies(z3.Or(desc(2 * r, n), desc(2 * r + 1, n)), desc(r, n)),
            lambda r, n: [descdef(r, n), descdef(2 * r, n), descdef(2 * r + 1, n), descdef(r, r)], lambda r, n: [desc(2 * r, n), desc(2 * r + 1, n)])
    l2 = mk('desc_split', lambda r, n: z3.Implies(z3.And(desc(r, n), n != r), z3.Or(desc(2 * r, n), desc(2 * r + 1, n))),
            lambda r, n: [descdef(r, n), descdef(2 * r, n), descdef(2 * r + 1, n), descdef(2 * r, n / 2), descdef(2 * r + 1, n / 2)], lambda r, n: [desc(r, n)])
    l4 = mk('desc_disjoint', lambda r, n: z3.Not(z3.And(desc(2 * r, n), desc(2 * r + 1, n))),
            lambda r, n: [descdef(2 * r, n), descdef(2 * r + 1, n), descdef(2 * r, n / 2), descdef(2 * r + 1, n / 2)], lambda r, n: [desc(2 * r, n), desc(2 * r + 1, n)])
    l5 = mk('desc_root', lambda r, n: desc(1, n), lambda r, n: [descdef(1, n)], lambda r, n: [desc(1, n)])
    return [l1, l2, l3, l4, l5]


def _desc_min():
    Hs = z3.ArraySort(I, S.sort(HE))
    r, n = z3.Ints('r n')

    def P(H, i):
        return S.fld(HE, 'priority', z3.Select(H, i))

    def order(H, N):
        return z3.ForAll([jj, ii], z3.Implies(z3.And(jj >= 1, ii <= N, z3.Or(ii == 2 * jj, ii == 2 * jj + 1)), P(H, jj) <= P(H, ii)),
                         patterns=[z3.MultiPattern(z3.Select(H, jj), z3.Select(H, ii))])

    def prop(r, n, H, N):
        return z3.Implies(z3.And(desc(r, n), n <= N), P(H, r) <= P(H, n))

    def stmt(H, N, r0):
        return z3.Implies(z3.And(order(H, N), r0 >= 1), z3.ForAll([n], z3.Implies(n >= 1, prop(r0, n, H, N)), patterns=[desc(r0, n)]))

    def proof(H, N, r):
        return [('induction step', [order(H, N), r >= 1, n >= 1, z3.Implies(n / 2 >= 1, prop(r, n / 2, H, N)), descdef(r, n)], prop(r, n, H, N))]
    return Lemma('subtree_minimum', [Hs, I, I], stmt, proof)


def desc_theory(h, r):
    if 'desc' not in _L:
        _L['desc'] = _desc_lemmas()
        _L['descmin'] = _desc_min()
    le = _L['desc'][2]
    return [l(r) for l in _L['desc']] + [le(2 * r), le(2 * r + 1)] + [_L['descmin'](h.H, h.size, r), z3.Implies(r >= 1, desc(r, r))]


def build(reg):
    # ---------------------------------------------------------------- percolate_up / percolate_down
    def up_req(C):
        h = Heap(C.pre, C.this)
        idx, p = C.a(0), C.a(1)
        return h.shape() + h.hole(idx) + [('priority above sentinel', z3.And(T_sentinel < p)), ('below', h.below(idx, p))]

    def perc_ens(C, up):
        a, b = Heap(C.pre, C.this), Heap(C.post, C.this)
        idx, p, r = C.a(0), C.a(1), C.ret
        out = same_block(a, b) + b.shape() + b.hole(r) + moved(a, idx, b, r)
        out += [('no violation above the slot', b.above(r, p)), ('no violation below the slot', b.below(r, p))]
        out += [('strictly above' if up else 'x', z3.Implies(r >= 2, b.prio(r / 2) < p))] if up else []
        return out

    def up_inv(L, pre, idx0, idx, p):
        a, b = Heap(pre, L.this), Heap(L.cur, L.this)
        return same_block(a, b) + b.shape() + b.hole(idx) + moved(a, idx0, b, idx) + [('below', b.below(idx, p))]

    def down_req(C):
        h = Heap(C.pre, C.this)
        idx, p = C.a(0), C.a(1)
        return h.shape() + h.hole(idx) + [('above', h.above(idx, p))]

    def down_inv(L, pre, idx0, idx, p):
        a, b = Heap(pre, L.this), Heap(L.cur, L.this)
        return same_block(a, b) + b.shape() + b.hole(idx) + moved(a, idx0, b, idx) + [('above', b.above(idx, p))]

    def loop_vars(L):
        """the hole (it starts at the slot the function was given), where it started and the priority that looks for a place"""
        try:
            k, other = L.mod_from(UINT, L.param_entry(0))
            return k, L.param_entry(0), L.param_entry(1)
        except (SpecMismatch, IndexError):
            k, k0 = L.loc('index', UINT), L.loc_entry('index', UINT)
            if k.eq(k0):
                raise SpecMismatch('no hole that moves')
            return k, k0, L.loc('priority', TIME)

    def nextto(L, k, f):
        """the other index a loop keeps beside the hole, if it had a value before the loop"""
        try:
            return [('the slot compared with', p == f(k)) for p in L.mod_from(UINT, L.param_entry(0))[1]]
        except (SpecMismatch, IndexError):
            return []

    up_loop = LoopSpec(lambda L: up_inv(L, L.entry, loop_vars(L)[1], loop_vars(L)[0], loop_vars(L)[2]) + nextto(L, loop_vars(L)[0], lambda k: k / 2), name='percolate_up',
                       decreases=lambda L: loop_vars(L)[0])
    down_loop = LoopSpec(lambda L: down_inv(L, L.entry, loop_vars(L)[1], loop_vars(L)[0], loop_vars(L)[2]) + nextto(L, loop_vars(L)[0], lambda k: k * 2), name='percolate_down',
                         decreases=lambda L: Heap(L.cur, L.this).size - loop_vars(L)[0])
    reg(Contract('Schedule::percolate_up(unsignedint,T)', up_req, lambda C: perc_ens(C, True), heap_mods, loops=[up_loop]))
    reg(Contract('Schedule::percolate_down(unsignedint,T)', down_req, lambda C: perc_ens(C, False), heap_mods, loops=[down_loop]))

    # ---------------------------------------------------------------- enlarge
    def enl_req(C):
        h = Heap(C.pre, C.this)
        v = C.pre
        return [('array', z3.And(h.cap >= 2, h.cap < 2 ** 30, v.alive(h.b), h.off == 0, v.mlen(h.b) == h.cap, h.b > 0, h.b < v.alloc))]

    def enl_ens(C):
        a, b = Heap(C.pre, C.this), Heap(C.post, C.this)
        v = C.post
        return [('doubled', b.cap == 2 * a.cap), ('array', z3.And(v.alive(b.b), b.off == 0, v.mlen(b.b) == b.cap, b.b >= C.pre.alloc, b.b < v.alloc)),
                ('size kept', b.size == a.size),
                ('elements kept', z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < a.cap), b.at(ii) == a.at(ii)), patterns=[b.at(ii)]))]

    def enl_inv(L):
        a = Heap(L.entry, L.this)
        c = Heap(L.cur, L.this)
        r = L.local(PTR(HE))
        rb, ro = S.acc(PTR(HE), 0, r), S.acc(PTR(HE), 1, r)
        i = L.local(UINT)
        N = L.cur.mem(HE)
        return [('copied so far', z3.And(i <= a.cap, c.b == a.b, c.H == a.H, ro == 0, z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < i), z3.Select(z3.Select(N, rb), ii) == a.at(ii)), patterns=[z3.Select(z3.Select(N, rb), ii)]))),
                ('still allocated', z3.And(L.cur.alive(rb), L.cur.mlen(rb) == 2 * a.cap, L.cur.alive(a.b), L.cur.mlen(a.b) == a.cap))]

    enl_loop = LoopSpec(enl_inv, name='enlarge copy')
    reg(Contract('Schedule::enlarge()', enl_req, enl_ens,
                 lambda C: [('Schedule.capacity', [C.this]), ('Schedule.heap', [C.this]), (HMEM, [Heap(C.pre, C.this).b]), 'malive', 'mlen', 'alloc'],
                 loops=[enl_loop]))

    # ---------------------------------------------------------------- public operations
    def inv_req(C):
        return Heap(C.pre, C.this).inv()

    def others_kept(a, b, m):
        c = [xx != m] if m is not None else []
        return [('every other model stays scheduled at its time', z3.ForAll([xx], z3.Implies(z3.And(a.mem(xx), *c), z3.And(b.mem(xx), b.pr(xx) == a.pr(xx))), patterns=[a.qi(xx), b.qi(xx)])),
                ('no other model becomes scheduled', z3.ForAll([xx], z3.Implies(z3.And(b.mem(xx), *c), a.mem(xx)), patterns=[b.qi(xx)])),
                ('models outside the schedule untouched', z3.ForAll([xx], z3.Implies(z3.And(z3.Not(a.mem(xx)), *c), b.qi(xx) == a.qi(xx)), patterns=[b.qi(xx)]))]

    def wr(C):
        return [('Schedule.size', [C.this]), ('Schedule.capacity', [C.this]), ('Schedule.heap', [C.this]), (HMEM, [Heap(C.pre, C.this).b]),
                'malive', 'mlen', 'alloc', 'Atomic.q_index']

    def sch_req(C):
        h = Heap(C.pre, C.this)
        m, t = C.a(0), C.a(1)
        return h.inv() + [('model', z3.And(m > 0, m < C.pre.alloc)), ('valid time', T_sentinel < t), ('room', h.size < MAXSZ),
                          ('model belongs to no other schedule', z3.Or(h.qi(m) == 0, h.mem(m)))]

    def sch_ens(C):
        a, b = Heap(C.pre, C.this), Heap(C.post, C.this)
        m, t = C.a(0), C.a(1)
        return b.inv() + [
            ('finite time: the model is scheduled at it', z3.Implies(t < T_inf, z3.And(b.mem(m), b.pr(m) == t))),
            ('infinite time: the model is not scheduled', z3.Implies(z3.Not(t < T_inf), b.qi(m) == 0)),
            ('size counts the scheduled models', b.size == a.size + z3.If(z3.And(t < T_inf, a.qi(m) == 0), 1, z3.If(z3.And(z3.Not(t < T_inf), a.qi(m) != 0), -1, 0)))] + others_kept(a, b, m)

    reg(Contract('Schedule::schedule(Atomic*,T)', sch_req, sch_ens, wr, loops=[up_loop, down_loop, enl_loop],
                 setup_lemmas=lambda C: [rootmin(Heap(C.pre, C.this))]))

    def rm_ens(C):
        a, b = Heap(C.pre, C.this), Heap(C.post, C.this)
        m = a.item(1)
        return b.inv() + [('size', b.size == z3.If(a.size == 0, 0, a.size - 1)),
                          ('the minimum leaves', z3.Implies(a.size > 0, z3.And(b.qi(m) == 0))),
                          ('nothing else changes', z3.Implies(a.size == 0, b.q == a.q))] + \
            [(n, z3.Implies(a.size > 0, f)) for n, f in others_kept(a, b, m)]

    reg(Contract('Schedule::removeMinimum()', inv_req, rm_ens,
                 lambda C: [('Schedule.size', [C.this]), (HMEM, [Heap(C.pre, C.this).b]), 'Atomic.q_index'], loops=[down_loop]))

    def min_ens(C):
        a = Heap(C.pre, C.this)
        return [('infinite when empty', z3.Implies(a.size == 0, C.ret == T_inf)),
                ('lower bound', z3.ForAll([xx], z3.Implies(a.mem(xx), C.ret <= a.pr(xx)), patterns=[a.qi(xx)])),
                ('attained', z3.Implies(a.size > 0, z3.And(a.mem(a.item(1)), a.pr(a.item(1)) == C.ret, C.ret < T_inf, T_sentinel < C.ret)))]

    reg(Contract('Schedule::minPriority()', inv_req, min_ens, (), setup_lemmas=lambda C: [rootmin(Heap(C.pre, C.this))]))

    def gm_ens(C):
        a = Heap(C.pre, C.this)
        return [('a scheduled model of least time', z3.Implies(a.size > 0, z3.And(a.mem(C.ret), z3.ForAll([xx], z3.Implies(a.mem(xx), a.pr(C.ret) <= a.pr(xx)), patterns=[a.qi(xx)]))))]

    reg(Contract('Schedule::getMinimum()', inv_req, gm_ens, (), setup_lemmas=lambda C: [rootmin(Heap(C.pre, C.this))]))
    reg(Contract('Schedule::empty()', inv_req, lambda C: [('empty iff nothing is scheduled', C.ret == z3.Not(z3.Exists([xx], Heap(C.pre, C.this).mem(xx))))], (),
                 setup_lemmas=lambda C: [Heap(C.pre, C.this).at(1) == Heap(C.pre, C.this).at(1)]))
    reg(Contract('Schedule::getSize()', inv_req, lambda C: [('size', C.ret == Heap(C.pre, C.this).size)], ()))

    def ctor_req(C):
        return [('capacity', z3.And(C.a(0) >= 2, C.a(0) <= 2 ** 30))]

    def ctor_ens(C):
        b = Heap(C.post, C.this)
        return b.inv() + [('starts empty', z3.And(b.size == 0, z3.ForAll([xx], z3.Not(b.mem(xx)), patterns=[b.qi(xx)]))), ('q_index untouched', b.q == C.pre.f('Atomic.q_index'))]

    reg(Contract('Schedule::Schedule(unsignedint)', ctor_req, ctor_ens,
                 lambda C: [('Schedule.' + f, [C.this]) for f in ('size', 'capacity', 'heap', 'activated')] + ['malive', 'mlen', 'alloc']))

    # ---------------------------------------------------------------- the imminent set
    def act(v, s):
        return v.get('Schedule.activated', s)

    def ok(h, x):
        """x is scheduled at the least time"""
        return z3.And(h.mem(x), z3.Not(h.prio(1) < h.pr(x)))

    def vi_req(C):
        h = Heap(C.pre, C.this)
        return h.inv() + [('root', z3.And(C.a(0) >= 1, C.a(0) <= 2 * h.size + 1)), outs_empty(C, h)]

    def outs_empty(C, h):
        outs = C.pre.f('Atomic.outputs')
        lt = C.pre.fty('Atomic.outputs')
        return ('scheduled models hold no output', z3.ForAll([xx], z3.Implies(h.mem(xx), S.llen(lt, z3.Select(outs, xx)) == 0), patterns=[z3.Select(outs, xx)]))

    def el(l, k):
        return z3.Select(S.larr(LA, l), k)

    def vi_ens(C):
        h = Heap(C.pre, C.this)
        a, b = act(C.pre, C.this), act(C.post, C.this)
        n0, n1 = S.llen(LA, a), S.llen(LA, b)
        r = C.a(0)
        return [('grows', n1 >= n0),
                ('prefix kept', z3.ForAll([kk], z3.Implies(z3.And(kk >= 0, kk < n0), el(b, kk) == el(a, kk)), patterns=[el(b, kk)])),
                ('only imminent models of the subtree', z3.ForAll([kk], z3.Implies(z3.And(kk >= n0, kk < n1), z3.And(ok(h, el(b, kk)), desc(r, h.qi(el(b, kk))))), patterns=[el(b, kk)])),
                ('each once', z3.ForAll([kk, jj], z3.Implies(z3.And(kk >= n0, kk < n1, jj >= n0, jj < n1, kk != jj), el(b, kk) != el(b, jj)), patterns=[z3.MultiPattern(el(b, kk), el(b, jj))])),
                ('every imminent model of the subtree', z3.ForAll([ii], z3.Implies(z3.And(desc(r, ii), ii >= 1, ii <= h.size, z3.Not(h.prio(1) < h.prio(ii))),
                                                                              z3.Exists([kk], z3.And(kk >= n0, kk < n1, el(b, kk) == h.item(ii)))), patterns=[h.at(ii)]))]

    reg(Contract('Schedule::visitImminent(unsignedint)', vi_req, vi_ens, lambda C: [('Schedule.activated', [C.this])],
                 decreases=lambda C: 2 * Heap(C.pre, C.this).size + 2 - C.a(0),
                 setup_lemmas=lambda C: desc_theory(Heap(C.pre, C.this), C.a(0))))

    def v0_req(C):
        h = Heap(C.pre, C.this)
        return h.inv() + [outs_empty(C, h)]

    def v0_ens(C):
        h = Heap(C.pre, C.this)
        b = C.ret
        n1 = S.llen(LA, b)
        return [('only models of least time', z3.ForAll([kk], z3.Implies(z3.And(kk >= 0, kk < n1), z3.And(h.mem(el(b, kk)), z3.ForAll([xx], z3.Implies(h.mem(xx), h.pr(el(b, kk)) <= h.pr(xx)), patterns=[h.qi(xx)]))), patterns=[el(b, kk)])),
                ('each once', z3.ForAll([kk, jj], z3.Implies(z3.And(kk >= 0, kk < n1, jj >= 0, jj < n1, kk != jj), el(b, kk) != el(b, jj)), patterns=[z3.MultiPattern(el(b, kk), el(b, jj))])),
                ('all models of least time', z3.ForAll([xx], z3.Implies(z3.And(h.mem(xx), z3.Not(h.prio(1) < h.pr(xx))), z3.Exists([kk], z3.And(kk >= 0, kk < n1, el(b, kk) == xx))), patterns=[h.qi(xx)]))]

    reg(Contract('Schedule::visitImminent()', v0_req, v0_ens, lambda C: [('Schedule.activated', [C.this])],
                 setup_lemmas=lambda C: desc_theory(Heap(C.pre, C.this), z3.IntVal(1)) + [rootmin(Heap(C.pre, C.this))]))
    reg(Contract('Schedule::visit(Atomic*)', inline=True))


TIME_AX = [T_sentinel < T_zero, T_zero < T_inf]
TARGETS = ['Schedule::Schedule(unsignedint)', 'Schedule::percolate_up(unsignedint,T)', 'Schedule::percolate_down(unsignedint,T)', 'Schedule::enlarge()',
           'Schedule::schedule(Atomic*,T)', 'Schedule::removeMinimum()', 'Schedule::minPriority()', 'Schedule::getMinimum()', 'Schedule::empty()', 'Schedule::getSize()',
           'Schedule::visitImminent(unsignedint)', 'Schedule::visitImminent()']
DRIVER = 'core.cpp'
ENGINE = dict(entity=('Schedule', 'Graph', 'Simulator', 'Coupled'), value=('exception',))


def tenv(prog):
    return TypeEnv(set(), prog.enum_types, {'V': VAL, 'T': TIME}, {})


def theory(eng):
    return TIME_AX
