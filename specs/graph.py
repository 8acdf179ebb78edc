"""Contracts of Graph (include/adevs/graph.h)."""
import z3
from vc.engine import *
from vc import sorts as S
from vc.types import *
from vc.engine import shift_facts
from vc.lemma import Lemma

PIN = STRUCT('pin_t')
AT = REF('Atomic')
I, B = z3.IntSort(), z3.BoolSort()
ii, jj, xx, kk = z3.Ints('i j x k')


def init():
    """sorts (after the structs of this program are registered)"""
    global PINS, pp, qq, EP, EA, LP, LA, MP, MA, PA, LR, OP, MI
    PINS = S.sort(PIN)
    pp, qq = z3.Consts('p q', PINS)
    EP, EA = PAIR(PIN, INT), PAIR(AT, INT)
    LP, LA = LIST(EP), LIST(EA)
    MP, MA = MAP(PIN, LP), MAP(PIN, LA)
    PA = PAIR(PIN, AT)
    LR = LIST(PA)
    OP = STRUCT('graph_op')
    MI = MAP(AT, INT)


class Lst:
    """an adjacency list: entries (target, instance count)"""
    def __init__(self, kind, t):
        self.kind, self.t = kind, t
        self.lt, self.et = (LP, EP) if kind == 'P' else (LA, EA)
        self.ks = PINS if kind == 'P' else I
        ls = S.sort(self.lt)
        self._pos = z3.Function('edgepos' + kind, ls, self.ks, I)
        self._cnt = z3.Function('edgecount' + kind, ls, self.ks, I)

    def len(self):
        return S.llen(self.lt, self.t)

    def at(self, i):
        return S.sel(S.larr(self.lt, self.t), i)

    def key(self, i):
        return S.acc(self.et, 0, self.at(i))

    def count(self, i):
        return S.acc(self.et, 1, self.at(i))

    def inr(self, i):
        return z3.And(i >= 0, i < self.len())

    def pos(self, x):
        return self._pos(self.t, x)

    def cnt(self, x):
        return self._cnt(self.t, x)

    def ok(self):
        return z3.And(z3.ForAll([ii], z3.Implies(self.inr(ii), self.count(ii) >= 1), patterns=[self.at(ii)]), self.distinct())

    def distinct(self):
        return (z3.ForAll([ii, jj], z3.Implies(z3.And(self.inr(ii), self.inr(jj), ii != jj), self.key(ii) != self.key(jj)),
                                patterns=[z3.MultiPattern(self.at(ii), self.at(jj))]))


def axioms():
    """edgepos picks a position of the target if there is one; edgecount is the instance count found there, 0 if there is none"""
    out = []
    for k in 'PA':
        l = z3.Const('l' + k, S.sort(LP if k == 'P' else LA))
        x = z3.Const('x' + k, PINS if k == 'P' else I)
        L = Lst(k, l)
        out.append(z3.ForAll([l, x], L.cnt(x) == z3.If(z3.And(L.inr(L.pos(x)), L.key(L.pos(x)) == x), L.count(L.pos(x)), 0), patterns=[L.cnt(x)]))
        out.append(z3.ForAll([l, x, ii], z3.Implies(z3.And(L.inr(ii), L.key(ii) == x), z3.And(L.inr(L.pos(x)), L.key(L.pos(x)) == x)),
                             patterns=[z3.MultiPattern(L.cnt(x), L.at(ii))]))
    return out


def inst(q, *terms):
    """instance of a universally quantified formula (terms in the order of its variables)"""
    assert q.is_forall() and q.num_vars() == len(terms)
    return z3.substitute_vars(q.body(), *reversed(terms))


def erase_lemma(k):
    """taking the entry at p out of a list whose targets are distinct takes away the edges to that target, and no other"""
    def parts(l, na, p):
        L = Lst(k, l)
        M = Lst(k, S.mk(L.lt, na, L.len() - 1))
        hyp = [L.distinct(), L.inr(p)] + shift_facts(na, S.larr(L.lt, l), p)
        return L, M, hyp

    def stmt(l, na, p):
        L, M, hyp = parts(l, na, p)
        x = z3.Const('x', L.ks)
        return z3.Implies(z3.And(*hyp), z3.ForAll([x], M.cnt(x) == z3.If(x == L.key(p), 0, L.cnt(x)), patterns=[M.cnt(x)]))

    def proof(l, na, p):
        L, M, hyp = parts(l, na, p)
        x = z3.Const('x0', L.ks)
        i, j = L.pos(x), M.pos(x)
        at = [i, i - 1, j, j + 1, p]
        ok2 = L.distinct()
        g = [L.inr(p)]
        g += [inst(ok2, u, v) for u in at for v in at if not u.eq(v)]
        g += [inst(f, u) for f in hyp[2:] for u in at]
        ax = axioms()[0 if k == 'P' else 2:][:2]
        for T in (L, M):
            g += [inst(ax[0], T.t, x)] + [inst(ax[1], T.t, x, u) for u in at]
        return [('one target', [z3.simplify(f) for f in g], M.cnt(x) == z3.If(x == L.key(p), 0, L.cnt(x)))]
    ls = S.sort(LP if k == 'P' else LA)
    return Lemma('erase_' + k, [ls, z3.ArraySort(I, S.sort(EP if k == 'P' else EA)), I], stmt, proof)


def update_lemma(k):
    """rewriting the count of one entry changes the count of that target, and no other"""
    def parts(l, e, p):
        L = Lst(k, l)
        M = Lst(k, S.mk(L.lt, z3.Store(S.larr(L.lt, l), p, e), L.len()))
        hyp = [L.distinct(), L.inr(p), S.acc(L.et, 0, e) == L.key(p)]
        return L, M, hyp, S.acc(L.et, 1, e)

    def stmt(l, e, p):
        L, M, hyp, c = parts(l, e, p)
        x = z3.Const('x', L.ks)
        return z3.Implies(z3.And(*hyp), z3.ForAll([x], M.cnt(x) == z3.If(x == L.key(p), c, L.cnt(x)), patterns=[M.cnt(x)]))

    def proof(l, e, p):
        L, M, hyp, c = parts(l, e, p)
        x = z3.Const('x0', L.ks)
        at = [L.pos(x), M.pos(x), p]
        g = hyp[1:] + [inst(hyp[0], u, v) for u in at for v in at if not u.eq(v)]
        ax = axioms()[0 if k == 'P' else 2:][:2]
        for T in (L, M):
            g += [inst(ax[0], T.t, x)] + [inst(ax[1], T.t, x, u) for u in at]
        return [('one target', [z3.simplify(f) for f in g], M.cnt(x) == z3.If(x == L.key(p), c, L.cnt(x)))]
    return Lemma('update_' + k, [S.sort(LP if k == 'P' else LA), S.sort(EP if k == 'P' else EA), I], stmt, proof)


def on_store(eng, lt, old, new, pos, e):
    for k, t in (('P', LP), ('A', LA)):
        if lt == t:
            return [UPDATE[k](old, e, pos)]
    return []


def on_erase(eng, lt, old, na, pos):
    for k, t in (('P', LP), ('A', LA)):
        if lt == t:
            return [ERASE[k](old, na, pos)]
    return []


class G:
    def __init__(self, v, g):
        self.v, self.g = v, g
        f = lambda n: v.get('Graph.' + n, g)
        self.P, self.A, self.IC, self.models, self.prov, self.pend = f('pin_to_pin'), f('pin_to_atomic'), f('atomic_instance_count'), f('models'), f('provisional'), f('pending')

    def dom(self, k, p):
        return S.sel(S.mdom(MP if k == 'P' else MA, self.P if k == 'P' else self.A), p)

    def lst(self, k, p):
        return Lst(k, S.sel(S.mval(MP if k == 'P' else MA, self.P if k == 'P' else self.A), p))

    def edges(self, k, p, x):
        return z3.If(self.dom(k, p), self.lst(k, p).cnt(x), 0)

    def inst(self, m):
        return z3.If(S.sel(S.mdom(MI, self.IC), m), S.sel(S.mval(MI, self.IC), m), 0)

    def has(self, m):
        return S.sel(self.models, m)

    def wf(self):
        o = []
        for k, nm in (('P', 'pin'), ('A', 'model')):
            l = self.lst(k, pp)
            o.append(('%s edges: each target once' % nm, z3.ForAll([pp, ii, jj], z3.Implies(z3.And(self.dom(k, pp), l.inr(ii), l.inr(jj), ii != jj), l.key(ii) != l.key(jj)),
                                                                patterns=[z3.MultiPattern(l.at(ii), l.at(jj))])))
            o.append(('%s edges: counts positive' % nm, z3.ForAll([pp, ii], z3.Implies(z3.And(self.dom(k, pp), l.inr(ii)), l.count(ii) >= 1), patterns=[l.at(ii)])))
            o.append(('%s edges: lists are lists' % nm, z3.ForAll([pp], z3.Implies(self.dom(k, pp), l.len() >= 0), patterns=[l.t])))
        o.append(('every model counted', z3.ForAll([xx], S.sel(S.mdom(MI, self.IC), xx) == self.has(xx), patterns=[self.has(xx), S.sel(S.mdom(MI, self.IC), xx)])))
        o.append(('model counts positive', z3.ForAll([xx], z3.Implies(S.sel(S.mdom(MI, self.IC), xx), S.sel(S.mval(MI, self.IC), xx) >= 1), patterns=[S.sel(S.mdom(MI, self.IC), xx)])))
        return o


def same_edges(a, b, k, but=None, x=None):
    """all edges as in a, but those selected by but(p, x)"""
    v = qq if k == 'P' else xx
    c = b.edges(k, pp, v) == a.edges(k, pp, v)
    if but is not None:
        c = z3.Implies(z3.Not(but(pp, v)), c)
    return z3.ForAll([pp, v], c, patterns=[b.lst(k, pp).cnt(v)])


def same_list_at(la, a, b, n):
    return z3.ForAll([kk], z3.Implies(z3.And(kk >= 0, kk < n), S.sel(S.larr(la, b), kk) == S.sel(S.larr(la, a), kk)), patterns=[S.sel(S.larr(la, b), kk)])


def struct_same(a, b):
    return [('pin edges as before', b.P == a.P), ('model edges as before', b.A == a.A), ('models as before', z3.And(b.models == a.models, b.IC == a.IC))]


OPFIELDS = ('Graph.pin_to_pin', 'Graph.pin_to_atomic', 'Graph.atomic_instance_count', 'Graph.models', 'Graph.pending')


def queued(C, kind, pins, model):
    a, b = G(C.pre, C.this), G(C.post, C.this)
    lt = LIST(OP)
    n0 = S.llen(lt, a.pend)
    o = S.sel(S.larr(lt, b.pend), n0)
    out = [('one more request', S.llen(lt, b.pend) == n0 + 1), ('earlier requests kept in order', same_list_at(lt, a.pend, b.pend, n0)),
           ('kind of request', S.fld(OP, 'op', o) == C.eng.prog.enum_names[kind])]
    for i, p in enumerate(pins):
        out.append(('pin %d of the request' % i, S.sel(S.fld(OP, 'pin', o), i) == p))
    if model is not None:
        out.append(('model of the request', S.fld(OP, 'model', o) == model))
    return out + struct_same(a, b)


# ---- routing: the entries that routing from a pin must yield, defined by recursion over the edges of (P, A)
class Route:
    def __init__(self, g):
        self.g = g
        sp, sa = g.P.sort(), g.A.sort()
        f = lambda n, *s: z3.Function(n, *s)
        self._rl, self._ps, self._rt, self._rank = f('route_len', sp, sa, PINS, I), f('route_part', sp, sa, PINS, I, I), f('route_at', sp, sa, PINS, I, S.sort(PA)), f('pin_rank', sp, PINS, I)

    def rl(self, p):
        return self._rl(self.g.P, self.g.A, p)

    def ps(self, p, k):
        return self._ps(self.g.P, self.g.A, p, k)

    def rt(self, p, i):
        return self._rt(self.g.P, self.g.A, p, i)

    def rank(self, p):
        return self._rank(self.g.P, p)

    def n(self, k, p):
        return z3.If(self.g.dom(k, p), self.g.lst(k, p).len(), 0)

    def succ(self, p, k):
        return self.g.lst('P', p).key(k)

    def acyclic(self):
        return z3.ForAll([pp, kk], z3.Implies(z3.And(kk >= 0, kk < self.n('P', pp)), z3.And(self.rank(self.succ(pp, kk)) >= 0, self.rank(self.succ(pp, kk)) < self.rank(pp))),
                         patterns=[self.g.lst('P', pp).at(kk)])

    def defs(self):
        p, k, i = pp, kk, ii
        return [z3.ForAll([p], z3.And(self.ps(p, 0) == self.n('A', p), self.rl(p) == self.ps(p, self.n('P', p))), patterns=[self.rl(p)]),
                z3.ForAll([p, k], z3.Implies(z3.And(k >= 0, k < self.n('P', p)), self.ps(p, k + 1) == self.ps(p, k) + self.rl(self.succ(p, k))), patterns=[self.ps(p, k)]),
                z3.ForAll([p, i], z3.Implies(z3.And(i >= 0, i < self.n('A', p)), self.rt(p, i) == S.mk(PA, p, self.g.lst('A', p).key(i))), patterns=[self.rt(p, i)]),
                z3.ForAll([p, k, i], z3.Implies(z3.And(k >= 0, k < self.n('P', p), self.ps(p, k) <= i, i < self.ps(p, k) + self.rl(self.succ(p, k))),
                                                self.rt(p, i) == self.rt(self.succ(p, k), i - self.ps(p, k))), patterns=[z3.MultiPattern(self.rt(p, i), self.ps(p, k))])]


def route_ens(g, p, a, b):
    """list b is list a followed by the entries of routing from p"""
    r = Route(g)
    n0 = S.llen(LR, a)
    e = S.sel(S.larr(LR, b), kk)
    return [('number of entries', z3.And(r.rl(p) >= 0, S.llen(LR, b) == n0 + r.rl(p))),
            ('earlier entries kept', same_list_at(LR, a, b, n0)),
            ('one entry for each path', z3.ForAll([kk], z3.Implies(z3.And(kk >= n0, kk < n0 + r.rl(p)), e == r.rt(p, kk - n0)), patterns=[e]))]


def build(reg):
    def this_mods(C):
        return [(f, [C.this]) for f in OPFIELDS] + ['static:pin_t::atom']

    def unchanged(L, *fields):
        return [('%s unchanged' % f, L.cur.f('Graph.' + f) == L.entry.f('Graph.' + f)) for f in fields if ('field', 'Graph', f) in L.mod]

    def search(field, k, arg):
        """loop that looks for the entry of a target"""
        def inv(L):
            it = L.it('Graph.' + field)
            l = Lst(k, L.cont(it))
            x = L.param_entry(arg)
            return unchanged(L, field) + [('no match so far', z3.ForAll([kk], z3.Implies(z3.And(kk >= 0, kk < it.pos), l.key(kk) != x), patterns=[l.at(kk)]))]

        def dec(L):
            it = L.it('Graph.' + field)
            return Lst(k, L.cont(it)).len() - it.pos
        return LoopSpec(inv, name='search for the target', decreases=dec)

    def method(key, kind, pins, model, effect, loops=(), req=None):
        def rq(C, prov=None):
            g = G(C.pre, C.this)
            r = g.wf()
            if prov is not None:
                r.append(('mode', g.prov == prov))
            if req is not None and prov is not True:
                r += [(nm, z3.Implies(z3.Not(g.prov), e)) for nm, e in req(C, g)]
            return r

        def q(C):
            return queued(C, kind, [C.a(i) for i in pins], C.a(model) if model is not None else None)

        def e(C):
            a, b = G(C.pre, C.this), G(C.post, C.this)
            return effect(C, a, b) + [('nothing is queued', b.pend == a.pend)] + b.wf()

        def both(C):
            a = G(C.pre, C.this)
            return [('queued: ' + nm, z3.Implies(a.prov, x)) for nm, x in q(C)] + [('effect: ' + nm, z3.Implies(z3.Not(a.prov), x)) for nm, x in e(C)]
        reg(Contract(key, rq, both, this_mods, note='verified in two parts, one per mode'))
        reg(Contract(key + '#queued', lambda C: rq(C, True), q, this_mods, loops=loops))
        reg(Contract(key + '#immediate', lambda C: rq(C, False), e, this_mods, loops=loops))

    def models_same(a, b):
        return [('models as before', z3.And(b.models == a.models, b.IC == a.IC))]

    def connect_eff(k, d):
        def eff(C, a, b):
            p, x = C.a(0), C.a(1)
            o = 'A' if k == 'P' else 'P'
            return [('the edge gains %s' % d, b.edges(k, p, x) == (a.edges(k, p, x) + 1 if d == 'an instance' else z3.If(a.edges(k, p, x) > 0, a.edges(k, p, x) - 1, 0))),
                    ('no other edge of this kind changes', same_edges(a, b, k, lambda p1, x1: z3.And(p1 == p, x1 == x))),
                    ('edges of the other kind as before', (b.A == a.A) if k == 'P' else (b.P == a.P))] + models_same(a, b)
        return eff

    for k, f, t in (('P', 'pin_to_pin', 'pin_t'), ('A', 'pin_to_atomic', 'Atomic*')):
        other = 'PIN' if k == 'P' else 'ATOMIC'
        method('Graph::connect(pin_t,%s)' % t, 'CONNECT_PIN_TO_' + other, [0, 1] if k == 'P' else [0], 1 if k == 'A' else None, connect_eff(k, 'an instance'), [search(f, k, 1)])
        method('Graph::disconnect(pin_t,%s)' % t, 'DISCONNECT_PIN_FROM_' + other, [0, 1] if k == 'P' else [0], 1 if k == 'A' else None, connect_eff(k, 'one instance less'), [search(f, k, 1)])

    # ---- add / remove a model
    def inst_eff(C, a, b, new):
        m = C.a(0)
        return [('instances of the model', b.inst(m) == new),
                ('instances of other models', z3.ForAll([xx], z3.Implies(xx != m, z3.And(b.inst(xx) == a.inst(xx), b.has(xx) == a.has(xx))), patterns=[b.has(xx)])),
                ('present while it has instances', b.has(m) == (new > 0)), ('pin edges as before', b.P == a.P)]

    method('Graph::add_atomic(Atomic*)', 'ADD_ATOMIC', [], 0, lambda C, a, b: inst_eff(C, a, b, a.inst(C.a(0)) + 1) + [('model edges as before', b.A == a.A)])

    def rm_eff(C, a, b):
        m = C.a(0)
        last = a.inst(m) == 1
        return inst_eff(C, a, b, a.inst(m) - 1) + [
            ('no edge leads to a model that left', z3.Implies(last, z3.ForAll([pp], b.edges('A', pp, m) == 0, patterns=[b.lst('A', pp).t]))),
            ('edges to other models as before', same_edges(a, b, 'A', lambda p, x: x == m)),
            ('edges of a model that stays as before', z3.Implies(z3.Not(last), b.A == a.A))]

    def rm_outer(L):
        it = L.it('Graph.pin_to_atomic')
        if it.kind != 'map':
            raise SpecMismatch('not the outer loop')
        a, b = G(L.entry, L.this), G(L.cur, L.this)
        m = L.param_entry(0)
        return [('same pins', S.mdom(MA, b.A) == S.mdom(MA, a.A)),
                ('pins ahead untouched', z3.ForAll([pp], z3.Implies(z3.Select(it.rem, pp), b.lst('A', pp).t == a.lst('A', pp).t), patterns=[b.lst('A', pp).t])),
                ('no edge behind', z3.ForAll([pp], z3.Implies(z3.And(b.dom('A', pp), z3.Not(z3.Select(it.rem, pp))), b.lst('A', pp).cnt(m) == 0), patterns=[b.lst('A', pp).t])),
                ('other edges as before', same_edges(a, b, 'A', lambda p, x: x == m))] + [w for w in b.wf() if w[0].startswith('model edges')] + \
               [('other objects', z3.ForAll([xx], z3.Implies(xx != L.this, z3.Select(L.cur.f('Graph.pin_to_atomic'), xx) == z3.Select(L.entry.f('Graph.pin_to_atomic'), xx)), patterns=[z3.Select(L.cur.f('Graph.pin_to_atomic'), xx)]))]

    def rm_inner(L):
        it = L.it('Graph.pin_to_atomic')
        if it.kind != 'list':
            raise SpecMismatch('not the inner loop')
        a, b = G(L.entry, L.this), G(L.cur, L.this)
        m = L.param_entry(0)
        l = Lst('A', L.cont(it))
        l0 = Lst('A', L.eng.load_in(L.entry_st, it.lv))
        p0 = it.lv.path[-1][2]
        return [('same pins', S.mdom(MA, b.A) == S.mdom(MA, a.A)),
                ('other lists untouched', z3.ForAll([pp], z3.Implies(pp != p0, b.lst('A', pp).t == a.lst('A', pp).t), patterns=[b.lst('A', pp).t])),
                ('no match behind', z3.ForAll([kk], z3.Implies(z3.And(kk >= 0, kk < it.pos), l.key(kk) != m), patterns=[l.at(kk)])),
                ('other targets as before', z3.ForAll([xx], z3.Implies(xx != m, l.cnt(xx) == l0.cnt(xx)), patterns=[l.cnt(xx), l0.cnt(xx)])),
                ('list well formed', l.ok()), ('list is a list', l.len() >= 0)] + \
               [('other objects', z3.ForAll([xx], z3.Implies(xx != L.this, z3.Select(L.cur.f('Graph.pin_to_atomic'), xx) == z3.Select(L.entry.f('Graph.pin_to_atomic'), xx)), patterns=[z3.Select(L.cur.f('Graph.pin_to_atomic'), xx)]))]

    def rm_dec(L):
        it = L.it('Graph.pin_to_atomic')
        return Lst('A', L.cont(it)).len() - it.pos
    method('Graph::remove_atomic(Atomic*)', 'REMOVE_ATOMIC', [], 0, rm_eff, [LoopSpec(rm_inner, name='edges of a pin', decreases=rm_dec), LoopSpec(rm_outer, name='pins')],
           req=lambda C, g: [('the model is part of the graph', g.has(C.a(0)))])

    # ---- remove a pin
    def rp_eff(C, a, b):
        p = C.a(0)
        o = []
        for k, nm in (('P', 'pin'), ('A', 'model')):
            v = qq if k == 'P' else xx
            o += [('each %s edge out of the pin loses an instance' % nm, z3.ForAll([v], b.edges(k, p, v) == z3.If(a.edges(k, p, v) > 0, a.edges(k, p, v) - 1, 0), patterns=[b.lst(k, p).cnt(v)])),
                  ('%s edges of other pins as before' % nm, same_edges(a, b, k, lambda p1, x1: p1 == p))]
        return o + models_same(a, b)

    def rp_loop(k, f):

        def inv(L):
            it = L.it('Graph.' + f)
            l, l0 = Lst(k, L.cont(it)), Lst(k, L.eng.load_in(L.entry_st, it.lv))
            v = qq if k == 'P' else xx
            a, b = G(L.entry, L.this), G(L.cur, L.this)
            p = L.param_entry(0)
            mt = MP if k == 'P' else MA
            m0, m1 = (a.P, b.P) if k == 'P' else (a.A, b.A)
            return [('same pins', S.mdom(mt, m1) == S.mdom(mt, m0)),
                    ('other lists untouched', z3.ForAll([pp], z3.Implies(pp != p, b.lst(k, pp).t == a.lst(k, pp).t), patterns=[b.lst(k, pp).t])),
                    ('list well formed', l.ok()),
                    ('behind: one instance less', z3.ForAll([kk], z3.Implies(z3.And(kk >= 0, kk < it.pos), l.count(kk) == l0.cnt(l.key(kk)) - 1), patterns=[l.at(kk)])),
                    ('ahead: as before', z3.ForAll([kk], z3.Implies(z3.And(kk >= it.pos, kk < l.len()), l.count(kk) == l0.cnt(l.key(kk))), patterns=[l.at(kk)])),
                    ('only single edges are gone', z3.ForAll([v], z3.Implies(l.cnt(v) == 0, z3.And(l0.cnt(v) <= 1, l0.cnt(v) >= 0)), patterns=[l.cnt(v), l0.cnt(v)])),
                    ('other objects', z3.ForAll([xx], z3.Implies(xx != L.this, z3.Select(L.cur.f('Graph.' + f), xx) == z3.Select(L.entry.f('Graph.' + f), xx)), patterns=[z3.Select(L.cur.f('Graph.' + f), xx)]))]

        def dec(L):
            it = L.it('Graph.' + f)
            return Lst(k, L.cont(it)).len() - it.pos
        return LoopSpec(inv, name='%s edges' % k, decreases=dec)
    method('Graph::remove_pin(pin_t)', 'REMOVE_PIN', [0], None, rp_eff, [rp_loop('A', 'pin_to_atomic'), rp_loop('P', 'pin_to_pin')])

    # ---- routing
    def rt_req(C):
        g = G(C.pre, C.this)
        return g.wf() + [('no cycle of pins', Route(g).acyclic())]

    def rt_inv(k, f):
        def inv(L):
            it = L.it('Graph.' + f)
            g = G(L.fnpre, L.this)
            r = Route(g)
            p = L.param_entry(0)
            a = L.param_entry(1)
            b = L.param(1)
            n0 = S.llen(LR, a)
            c = it.pos if k == 'A' else r.ps(p, it.pos)
            e = S.sel(S.larr(LR, b), kk)
            return [('entries so far', z3.And(c >= 0, S.llen(LR, b) == n0 + c)), ('earlier entries kept', same_list_at(LR, a, b, n0)),
                    ('each path so far', z3.ForAll([kk], z3.Implies(z3.And(kk >= n0, kk < n0 + c), e == r.rt(p, kk - n0)), patterns=[e]))]

        def dec(L):
            it = L.it('Graph.' + f)
            return Lst(k, L.cont(it)).len() - it.pos
        return LoopSpec(inv, name='%s edges' % ('model' if k == 'A' else 'pin'), decreases=dec)

    reg(Contract('Graph::route(pin_t,list)', rt_req, lambda C: route_ens(G(C.pre, C.this), C.a(0), C.a(1), C.apost(1)), lambda C: ['param:1'],
                 loops=[rt_inv('A', 'pin_to_atomic'), rt_inv('P', 'pin_to_pin')], decreases=lambda C: Route(G(C.pre, C.this)).rank(C.a(0)),
                 setup_lemmas=lambda C: Route(G(C.pre, C.this)).defs() + [Route(G(C.pre, C.this)).rl(C.a(0)) == Route(G(C.pre, C.this)).rl(C.a(0))]))

    # ---- small ones
    reg(Contract('Graph::Graph()', lambda C: [], lambda C: G(C.post, C.this).wf() + [
        ('starts empty', z3.And(z3.ForAll([xx], z3.Not(G(C.post, C.this).has(xx))), z3.ForAll([pp], z3.And(z3.Not(G(C.post, C.this).dom('P', pp)), z3.Not(G(C.post, C.this).dom('A', pp)))))),
        ('immediate mode', z3.Not(G(C.post, C.this).prov)), ('nothing queued', S.llen(LIST(OP), G(C.post, C.this).pend) == 0)],
        lambda C: [(f, [C.this]) for f in OPFIELDS + ('Graph.provisional',)]))
    reg(Contract('Graph::set_provisional(bool)', lambda C: [], lambda C: [('mode', G(C.post, C.this).prov == C.a(0))], lambda C: [('Graph.provisional', [C.this])]))
    reg(Contract('Graph::get_atomics()', lambda C: [], lambda C: [('the models', C.ret == G(C.pre, C.this).models)], ()))


METHODS = ['Graph::connect(pin_t,pin_t)', 'Graph::disconnect(pin_t,pin_t)', 'Graph::connect(pin_t,Atomic*)', 'Graph::disconnect(pin_t,Atomic*)',
           'Graph::add_atomic(Atomic*)', 'Graph::remove_atomic(Atomic*)', 'Graph::remove_pin(pin_t)']
TARGETS = [m + s for m in METHODS for s in ('#queued', '#immediate')] + ['Graph::route(pin_t,list)', 'Graph::Graph()', 'Graph::set_provisional(bool)']
DRIVER = 'core.cpp'
ENGINE = dict(entity=('Schedule', 'Graph', 'Simulator', 'Coupled'), value=('exception',), opts=dict(on_erase=on_erase, on_store=on_store))


def tenv(prog):
    return TypeEnv(set(), prog.enum_types, {'V': VAL, 'T': TIME}, {})


def prepare(eng):
    global ERASE, UPDATE
    init()
    ERASE = {k: erase_lemma(k) for k in 'PA'}
    UPDATE = {k: update_lemma(k) for k in 'PA'}


def theory(eng):
    return axioms()
