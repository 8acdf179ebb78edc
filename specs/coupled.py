"""Contracts of Coupled (include/adevs/models.h). What a coupled model does to its graph is specified by counting the
requests it makes of the graph (ghost counters, one per kind of request); what a request does to the graph is the
business of Graph's own contracts (specs/graph.py)."""
import z3
from vc.engine import *
from vc import sorts as S
from vc.types import *
from vc.lemma import Lemma

PIN = STRUCT('pin_t')
AT, CP = REF('Atomic'), REF('Coupled')
I, B = z3.IntSort(), z3.BoolSort()
m_, c_, x_, g_, d_ = z3.Ints('m c x g d')
PMA, PPP = PAIR(PIN, AT), PAIR(PIN, PIN)


def init():
    global PINS, p_, q_, SM, SC, e_, f_, EM, EC
    PINS = S.sort(PIN)
    p_, q_ = z3.Consts('p q', PINS)
    SM, SC = z3.ArraySort(I, B), z3.ArraySort(I, B)
    EM, EC = S.sort(PMA), S.sort(PPP)
    e_, f_ = z3.Const('e', EM), z3.Const('f', EC)


# ghost counters: graph -> what -> number of requests
KINDS = {'add': 'M', 'remove': 'M', 'connect': 'PP', 'disconnect': 'PP', 'connectA': 'PM', 'disconnectA': 'PM'}


def ksort(k):
    return {'M': I, 'PP': EC, 'PM': EM}[k]


def kvar(k):
    return {'M': m_, 'PP': f_, 'PM': e_}[k]


def gsort(n):
    return z3.ArraySort(I, z3.ArraySort(ksort(KINDS[n]), I))


class Ghosts(dict):
    """sorts are known only when the program is loaded"""
    def __missing__(self, n):
        return gsort(n)


def cnt(v, n, g, x):
    return z3.Select(z3.Select(v.g(n), g), x)


class H:
    """the component sets of all coupled models in a state and what a hierarchy contributes"""
    def __init__(self, v=None, CC=None):
        if v is None:
            self.CC = CC
            return
        f = lambda n: v.f('Coupled.' + n)
        self.AC, self.CC, self.PA, self.PP, self.G = f('atomic_components'), f('coupled_components'), f('pin_to_atomic'), f('pin_to_pin'), f('g')

    def own(self, k):
        return {'M': self.AC, 'PM': self.PA, 'PP': self.PP}[k]

    def fn(self, nm, *s):
        return z3.Function(nm, *s)

    def total(self, k, c, x):
        """number of times x occurs in the hierarchy below c"""
        o = self.own(k)
        return z3.Function('total_' + k, o.sort(), self.CC.sort(), I, ksort(k), I)(o, self.CC, c, x)

    def sub(self, k, r, x):
        """... in the hierarchies of the members of set r together"""
        o = self.own(k)
        return z3.Function('subtotal_' + k, o.sort(), self.CC.sort(), SC, ksort(k), I)(o, self.CC, r, x)

    def reach(self, c, x):
        return z3.Function('in_tree', self.CC.sort(), I, I, B)(self.CC, c, x)

    def sreach(self, r, x):
        return z3.Function('in_trees', self.CC.sort(), SC, I, B)(self.CC, r, x)

    def rank(self, c):
        return z3.Function('depth', self.CC.sort(), I, I)(self.CC, c)

    def acyclic(self):
        return z3.ForAll([c_, d_], z3.Implies(z3.Select(z3.Select(self.CC, c_), d_), z3.And(d_ > 0, self.rank(d_) >= 0, self.rank(d_) < self.rank(c_))),
                         patterns=[z3.Select(z3.Select(self.CC, c_), d_)])

    def defs(self):
        r = z3.Const('r', SC)
        out = []
        for k in ('M', 'PM', 'PP'):
            x = kvar(k)
            out += [z3.ForAll([c_, x], self.total(k, c_, x) == z3.If(z3.Select(z3.Select(self.own(k), c_), x), 1, 0) + self.sub(k, z3.Select(self.CC, c_), x), patterns=[self.total(k, c_, x)]),
                    z3.ForAll([x], self.sub(k, z3.K(I, z3.BoolVal(False)), x) == 0, patterns=[self.sub(k, z3.K(I, z3.BoolVal(False)), x)]),
                    z3.ForAll([r, d_, x], z3.Implies(z3.Select(r, d_), self.sub(k, r, x) == self.sub(k, z3.Store(r, d_, z3.BoolVal(False)), x) + self.total(k, d_, x)),
                              patterns=[self.sub(k, z3.Store(r, d_, z3.BoolVal(False)), x)])]
        return out + self.reach_defs()

    def reach_defs(self):
        r = z3.Const('r', SC)
        wit = lambda r, x: z3.Function('member_of', self.CC.sort(), SC, I, I)(self.CC, r, x)
        out = [z3.ForAll([r, x_], z3.Implies(self.sreach(r, x_), z3.And(z3.Select(r, wit(r, x_)), self.reach(wit(r, x_), x_))), patterns=[self.sreach(r, x_)])]
        out += [z3.ForAll([c_, x_], self.reach(c_, x_) == z3.Or(x_ == c_, self.sreach(z3.Select(self.CC, c_), x_)), patterns=[self.reach(c_, x_)]),
                z3.ForAll([x_], z3.Not(self.sreach(z3.K(I, z3.BoolVal(False)), x_)), patterns=[self.sreach(z3.K(I, z3.BoolVal(False)), x_)]),
                z3.ForAll([r, d_, x_], z3.Implies(z3.Select(r, d_), self.sreach(r, x_) == z3.Or(self.sreach(z3.Store(r, d_, z3.BoolVal(False)), x_), self.reach(d_, x_))),
                          patterns=[self.sreach(z3.Store(r, d_, z3.BoolVal(False)), x_)]),
                z3.ForAll([c_, d_, x_], z3.Implies(z3.And(z3.Select(z3.Select(self.CC, c_), d_), self.reach(d_, x_)), self.sreach(z3.Select(self.CC, c_), x_)),
                          patterns=[z3.MultiPattern(z3.Select(z3.Select(self.CC, c_), d_), self.reach(d_, x_))])]
        return out

    def attached_inv(self):
        """the components of an attached model are attached to the same graph"""
        return z3.ForAll([c_, d_], z3.Implies(z3.And(z3.Select(z3.Select(self.CC, c_), d_), z3.Select(self.G, c_) != 0), z3.Select(self.G, d_) == z3.Select(self.G, c_)),
                         patterns=[z3.Select(z3.Select(self.CC, c_), d_)])

    def one_graph(self, g):
        return z3.ForAll([x_], z3.Or(z3.Select(self.G, x_) == 0, z3.Select(self.G, x_) == g), patterns=[z3.Select(self.G, x_)])


def closed_lemma():
    """components of what is in the tree of a model are in the tree"""
    def stmt(cc, bound=None):
        h = H(CC=cc)
        return z3.ForAll([c_, d_, x_], z3.Implies(z3.And(h.rank(c_) >= 0, h.rank(c_) < bound if bound is not None else True, h.reach(c_, d_), z3.Select(z3.Select(cc, d_), x_)), h.reach(c_, x_)),
                         patterns=[z3.MultiPattern(h.reach(c_, d_), z3.Select(z3.Select(cc, d_), x_))])

    def proof(cc):
        h = H(CC=cc)
        c, d, x = z3.Ints('c0 d0 x0')
        return [('induction over the depth', [h.acyclic()] + h.reach_defs() + [stmt(cc, h.rank(c)), h.rank(c) >= 0, h.reach(c, d), z3.Select(z3.Select(cc, d), x)], h.reach(c, x))]
    return Lemma('tree_closed', [z3.ArraySort(I, SC)], lambda cc: z3.Implies(z3.And(H(CC=cc).acyclic(), *H(CC=cc).reach_defs()), stmt(cc)), proof)


ADD = {'add': 'M', 'connectA': 'PM', 'connect': 'PP'}
REM = {'remove': 'M', 'disconnectA': 'PM', 'disconnect': 'PP'}
NAMES = {'add': 'additions of each model', 'remove': 'removals of each model', 'connect': 'connections of each pair of pins', 'disconnect': 'disconnections of each pair of pins',
         'connectA': 'connections of each pin and model', 'disconnectA': 'disconnections of each pin and model'}


def requests(a, b, g, deltas):
    """counters of b against those of a: graph g gains deltas[kind](x), everything else as before"""
    out = []
    for n in KINDS:
        x = kvar(KINDS[n])
        if n in deltas:
            out.append((NAMES[n], z3.ForAll([x], cnt(b, n, g, x) == cnt(a, n, g, x) + deltas[n](x), patterns=[cnt(b, n, g, x)])))
            out.append((NAMES[n] + ': no other graph', z3.ForAll([g_], z3.Implies(g_ != g, z3.Select(b.g(n), g_) == z3.Select(a.g(n), g_)), patterns=[z3.Select(b.g(n), g_)])))
        else:
            out.append(('no ' + NAMES[n], b.g(n) == a.g(n)))
    return out


def build(reg):
    ALLG = ['ghost:' + n for n in KINDS]
    # ---- the graph, as seen from here: each method counts a request
    for key, n, kv in (('connect(pin_t,pin_t)', 'connect', lambda C: S.mk(PPP, C.a(0), C.a(1))), ('disconnect(pin_t,pin_t)', 'disconnect', lambda C: S.mk(PPP, C.a(0), C.a(1))),
                       ('connect(pin_t,Atomic*)', 'connectA', lambda C: S.mk(PMA, C.a(0), C.a(1))), ('disconnect(pin_t,Atomic*)', 'disconnectA', lambda C: S.mk(PMA, C.a(0), C.a(1))),
                       ('add_atomic(Atomic*)', 'add', lambda C: C.a(0)), ('remove_atomic(Atomic*)', 'remove', lambda C: C.a(0))):
        def ens(C, n=n, kv=kv):
            a = z3.Select(C.pre.g(n), C.this)
            return [('counted', C.post.g(n) == z3.Store(C.pre.g(n), C.this, z3.Store(a, kv(C), z3.Select(a, kv(C)) + 1)))]
        reg(Contract('Graph::' + key, lambda C: [], ens, lambda C, n=n: ['ghost:' + n], trusted=True, note='ghost counter of requests; the effect of a request is verified with Graph (C03, C05)'))

    # ---- attach / detach a hierarchy
    def own_loop(field, k, n):
        def inv(L):
            it = L.it('Coupled.' + field)
            a, b = L.entry, L.cur
            h = H(L.fnpre)
            g = z3.Select(L.cur.f('Coupled.g'), L.this)
            s = z3.Select(h.own(k), L.this)
            return requests(a, b, g, {n: lambda x: z3.If(z3.And(z3.Select(s, x), z3.Not(z3.Select(it.rem, x))), 1, 0)})
        return LoopSpec(inv, name='own ' + NAMES[n])

    def sub_loop(kinds, assign):
        def inv(L):
            it = L.it('Coupled.coupled_components')
            a, b = L.entry, L.cur
            h = H(L.fnpre)
            hb = H(b)
            g = z3.Select(H(a).G, L.this)
            cc = z3.Select(h.CC, L.this)
            o = requests(a, b, g, {n: (lambda x, k=k: h.sub(k, cc, x) - h.sub(k, it.rem, x)) for n, k in kinds.items()})
            if assign:
                o += [('attached so far', z3.ForAll([x_], z3.Implies(h.sreach(cc, x_), z3.Or(z3.Select(hb.G, x_) == g, h.sreach(it.rem, x_))), patterns=[z3.Select(hb.G, x_)])),
                      ('others as before', z3.ForAll([x_], z3.Or(z3.Select(hb.G, x_) == z3.Select(H(a).G, x_), z3.And(h.sreach(cc, x_), z3.Select(hb.G, x_) == g)), patterns=[z3.Select(hb.G, x_)]))]
            else:
                o += [('attachment as before', hb.G == H(a).G)] if ('field', 'Coupled', 'g') in L.mod else []
            return o
        return LoopSpec(inv, name='nested models')
    LOOPS = lambda kinds, assign: [own_loop(f, k, n) for n, k in kinds.items() for f in [{'M': 'atomic_components', 'PM': 'pin_to_atomic', 'PP': 'pin_to_pin'}[k]]] + [sub_loop(kinds, assign)]

    def as_req(C):
        h = H(C.pre)
        return [('graph', C.a(0) != 0), ('no cycle of components', h.acyclic()), ('one graph', h.one_graph(C.a(0)))]

    def as_ens(C):
        h, hb = H(C.pre), H(C.post)
        return requests(C.pre, C.post, C.a(0), {n: (lambda x, k=k: h.total(k, C.this, x)) for n, k in ADD.items()}) + [
            ('the hierarchy is attached', z3.ForAll([x_], z3.Implies(h.reach(C.this, x_), z3.Select(hb.G, x_) == C.a(0)), patterns=[z3.Select(hb.G, x_)])),
            ('others as before', z3.ForAll([x_], z3.Implies(z3.Not(h.reach(C.this, x_)), z3.Select(hb.G, x_) == z3.Select(h.G, x_)), patterns=[z3.Select(hb.G, x_)])),
            ('one graph', hb.one_graph(C.a(0)))]
    tree = lambda C: H(C.pre).rank(C.this)
    defs = lambda C: H(C.pre).defs() + [H(C.pre).reach(C.this, C.this) == H(C.pre).reach(C.this, C.this)]
    reg(Contract('Coupled::assign_to_graph(Graph*)', as_req, as_ens, lambda C: ['Coupled.g'] + ['ghost:' + n for n in ADD], loops=LOOPS(ADD, True), decreases=tree, setup_lemmas=defs))

    def rm_req(C):
        h = H(C.pre)
        return [('attached', z3.Select(h.G, C.this) != 0), ('no cycle of components', h.acyclic()), ('components of attached models are attached', h.attached_inv()),
                ('one graph', h.one_graph(z3.Select(h.G, C.this)))]

    def rm_ens(C):
        h, hb = H(C.pre), H(C.post)
        return requests(C.pre, C.post, z3.Select(h.G, C.this), {n: (lambda x, k=k: h.total(k, C.this, x)) for n, k in REM.items()})
    reg(Contract('Coupled::remove_from_graph()', rm_req, rm_ens, lambda C: ['ghost:' + n for n in REM], loops=LOOPS(REM, False), decreases=tree, setup_lemmas=defs))

    # ---- changes
    def comp(C):
        a, b = H(C.pre), H(C.post)
        return a, b, z3.Select(a.G, C.this)

    def change(key, k, field, n, elem, add, extra=None, mods=()):
        def e(C):
            a, b, g = comp(C)
            x0 = elem(C)
            s0, s1 = z3.Select(a.own(k), C.this), z3.Select(b.own(k), C.this)
            ch = z3.And(g != 0, z3.Select(s0, x0) != z3.BoolVal(add))
            d = {n: lambda x: z3.If(z3.And(ch, x == x0), 1, 0)}
            o = [('the element is %s' % ('in' if add else 'out'), s1 == z3.Store(s0, x0, z3.BoolVal(add)))]
            if extra is not None:
                o += extra(C, a, b, g, d)
            return o + requests(C.pre, C.post, g, d)
        reg(Contract(key, lambda C: [], e, lambda C: [('Coupled.' + f, [C.this]) for f in (field,) + mods] + ALLG, loops=LOOP_RM if not add and k == 'M' else []))

    def rm_loop(L):
        it = L.it('Coupled.pin_to_atomic')
        a, b = H(L.entry), H(L.cur)
        m = L.param_entry(0)
        s0, s1 = z3.Select(a.PA, L.this), z3.Select(b.PA, L.this)
        sec = S.acc(PMA, 1, e_)
        g = z3.Select(a.G, L.this)
        gone = lambda x: z3.And(z3.Select(s0, x), S.acc(PMA, 1, x) == m, z3.Not(z3.Select(it.rem, x)))
        return [('couplings left', z3.ForAll([e_], z3.Select(s1, e_) == z3.And(z3.Select(s0, e_), z3.Not(gone(e_))), patterns=[z3.Select(s1, e_)])),
                ('of the set', z3.ForAll([e_], z3.Implies(z3.Select(it.rem, e_), z3.Select(s0, e_)), patterns=[z3.Select(it.rem, e_)])),
                ('other models', z3.ForAll([x_], z3.Implies(x_ != L.this, z3.Select(b.PA, x_) == z3.Select(a.PA, x_)), patterns=[z3.Select(b.PA, x_)]))] + \
            requests(L.entry, L.cur, g, {'disconnectA': lambda x: z3.If(z3.And(g != 0, gone(x)), 1, 0)})
    LOOP_RM = [LoopSpec(rm_loop, name='couplings to the model')]

    def rm_extra(C, a, b, g, d):
        m = C.a(0)
        s0, s1 = z3.Select(a.PA, C.this), z3.Select(b.PA, C.this)
        d['disconnectA'] = lambda x: z3.If(z3.And(g != 0, z3.Select(s0, x), S.acc(PMA, 1, x) == m), 1, 0)
        return [('couplings to it are out, others stay', z3.ForAll([e_], z3.Select(s1, e_) == z3.And(z3.Select(s0, e_), S.acc(PMA, 1, e_) != m), patterns=[z3.Select(s1, e_)]))]
    change('Coupled::add_atomic(Atomic*)', 'M', 'atomic_components', 'add', lambda C: C.a(0), True)
    change('Coupled::remove_atomic(Atomic*)', 'M', 'atomic_components', 'remove', lambda C: C.a(0), False, rm_extra, ('pin_to_atomic',))
    change('Coupled::create_coupling(pin_t,Atomic*)', 'PM', 'pin_to_atomic', 'connectA', lambda C: S.mk(PMA, C.a(0), C.a(1)), True)
    change('Coupled::remove_coupling(pin_t,Atomic*)', 'PM', 'pin_to_atomic', 'disconnectA', lambda C: S.mk(PMA, C.a(0), C.a(1)), False)
    change('Coupled::create_coupling(pin_t,pin_t)', 'PP', 'pin_to_pin', 'connect', lambda C: S.mk(PPP, C.a(0), C.a(1)), True)
    change('Coupled::remove_coupling(pin_t,pin_t)', 'PP', 'pin_to_pin', 'disconnect', lambda C: S.mk(PPP, C.a(0), C.a(1)), False)

    def contracts_req(C):
        h = H(C.pre)
        g = z3.Select(h.G, C.this)
        h1 = H(C.pre)
        h1.CC = z3.Store(h.CC, C.this, z3.Store(z3.Select(h.CC, C.this), C.a(0), z3.BoolVal(False)))
        return [('without it no cycle', h1.acyclic()), ('a component', z3.And(C.a(0) > 0, z3.Select(z3.Select(h.CC, C.this), C.a(0)))), ('attached', g != 0), ('no cycle of components', h.acyclic()),
                ('components of attached models are attached', h.attached_inv()), ('one graph', h.one_graph(g))]

    def sub(key, add):
        def after(C):
            """component relation after the change"""
            h = H(C.pre)
            h.CC = z3.Store(h.CC, C.this, z3.Store(z3.Select(h.CC, C.this), C.a(0), z3.BoolVal(add)))
            return h

        def rq(C):
            h, h1 = H(C.pre), after(C)
            g = z3.Select(h.G, C.this)
            return [('a model', C.a(0) > 0), ('no cycle of components', z3.And(h.acyclic(), h1.acyclic())), ('components of attached models are attached', h.attached_inv()),
                    ('one graph', z3.Implies(g != 0, h.one_graph(g)))]

        def e(C):
            a, b, g = comp(C)
            h1 = after(C)
            x0 = C.a(0)
            s0, s1 = z3.Select(a.CC, C.this), z3.Select(b.CC, C.this)
            ch = z3.And(g != 0, z3.Select(s0, x0) != z3.BoolVal(add))
            return [('the component is %s' % ('in' if add else 'out'), s1 == z3.Store(s0, x0, z3.BoolVal(add)))] + \
                requests(C.pre, C.post, g, {n: (lambda x, k=k: z3.If(ch, h1.total(k, x0, x), 0)) for n, k in (ADD if add else REM).items()}) + \
                ([('the added hierarchy is attached', z3.Implies(ch, z3.ForAll([x_], z3.Implies(h1.reach(x0, x_), z3.Select(b.G, x_) == g), patterns=[h1.reach(x0, x_)])))] if add else []) + \
                [('components of attached models are attached', b.attached_inv())]
        reg(Contract(key, rq, e, lambda C: [('Coupled.coupled_components', [C.this])] + (['Coupled.g'] if add else []) + ALLG, setup_lemmas=lambda C: after(C).defs() + ([closed_lemma()(after(C).CC)] if add else [])))
    sub('Coupled::add_coupled_model(Coupled*)', True)
    sub('Coupled::remove_coupled_model(Coupled*)', False)

    # verified on its own: callers do not rely on it
    reg(Contract('Coupled::remove_coupled_model(Coupled*)#detached', lambda C: contracts_req(C), lambda C: [
        ('the removed model is detached', z3.Or(z3.Exists([x_], z3.And(x_ != C.this, z3.Select(z3.Select(H(C.pre).CC, x_), C.a(0)), z3.Select(H(C.pre).G, x_) != 0)),
                                                z3.Select(H(C.post).G, C.a(0)) == 0))],
        lambda C: [('Coupled.coupled_components', [C.this]), 'Coupled.g'] + ALLG))

    reg(Contract('Coupled::Coupled()', lambda C: [], lambda C: [
        ('starts empty', z3.And(*[z3.ForAll([kvar(k)], z3.Not(z3.Select(z3.Select(H(C.post).own(k), C.this), kvar(k)))) for k in ('M', 'PM', 'PP')])),
        ('no components', z3.ForAll([x_], z3.Not(z3.Select(z3.Select(H(C.post).CC, C.this), x_)))), ('not attached', z3.Select(H(C.post).G, C.this) == 0)],
        lambda C: [('Coupled.' + f, [C.this]) for f in ('g', 'atomic_components', 'coupled_components', 'pin_to_atomic', 'pin_to_pin')]))


TARGETS = ['Coupled::assign_to_graph(Graph*)', 'Coupled::remove_from_graph()', 'Coupled::add_atomic(Atomic*)', 'Coupled::remove_atomic(Atomic*)',
           'Coupled::create_coupling(pin_t,Atomic*)', 'Coupled::remove_coupling(pin_t,Atomic*)', 'Coupled::create_coupling(pin_t,pin_t)', 'Coupled::remove_coupling(pin_t,pin_t)',
           'Coupled::add_coupled_model(Coupled*)', 'Coupled::remove_coupled_model(Coupled*)', 'Coupled::remove_coupled_model(Coupled*)#detached', 'Coupled::Coupled()']
DRIVER = 'core.cpp'
ENGINE = dict(entity=('Schedule', 'Graph', 'Simulator', 'Coupled'), value=('exception',), ghosts=Ghosts())


def tenv(prog):
    return TypeEnv(set(), prog.enum_types, {'V': VAL, 'T': TIME}, {})


def prepare(eng):
    init()
