"""Contracts of the output phase of Simulator (computeNextOutput, calculate_mealy_output, retract_mealy_output).
What arrives where is stated with counts: how often a value is in a list, and how often it is delivered to a model by the
routes of a list of outputs. Models answer with the lists recorded in ghost variables, so that "what it answers for the input
it ends up with" becomes a statement about these records."""
import z3
from vc.engine import *
from vc import sorts as S
from vc.types import *
from vc.lemma import Lemma
from specs import sched as SC, graph as GR, simulator as SM
from specs.graph import G, Route, route_ens
from specs.simulator import Sim, AT, I, B, R, m_, l_, k_, x_, y_, EVT, LEV, OUT, append, isL, lpos, distinct, ref_of, LL, tsub

PLAIN, EXTO, CONFO = 1, 3, 2          # ways a model with feed-through is asked for output
s_, i_ = z3.Ints('s i')
LAT = LIST(AT)
mealy = z3.Function('is_mealy', I, B)


def init(eng):
    global PV, LPV, RV, LRV, PA, LR, PVS, pv_, CC, CS, CV, dr, dcnt, F, PIN
    SM.init(eng)
    PV, LPV, RV, LRV, PIN = SM.PV, SM.LPV, SM.RV, SM.LRV, SM.PIN
    PA, LR = GR.PA, GR.LR
    PVS = S.sort(PV)
    pv_ = z3.Const('pv', PVS)
    CC = Counter('values_in', S.sort(PV), [PVS], lambda e, pv: e == pv)
    CS = Counter('values_from', S.sort(RV), [I, PVS], lambda e, s, pv: z3.And(S.acc(RV, 0, e) == s, S.acc(RV, 1, e) == pv))
    CV = Counter('values_of', S.sort(RV), [PVS], lambda e, pv: S.acc(RV, 1, e) == pv)
    larr = z3.ArraySort(I, S.sort(PV))
    dr = z3.Function('delivered_by_route', S.sort(PIN), I, S.sort(S.ftype(PV, 'value')), I, PVS, I)
    dcnt = z3.Function('delivered_by', larr, I, I, PVS, I)
    F = z3.Function('delivered_by_models', z3.ArraySort(I, S.sort(LPV)), z3.ArraySort(I, I), I, I, PVS, I)


GH = dict(asked=lambda: z3.ArraySort(I, I), ans=lambda: z3.ArraySort(I, S.sort(LPV)), kind=lambda: z3.ArraySort(I, I), askin=lambda: z3.ArraySort(I, S.sort(LPV)), aske=lambda: z3.ArraySort(I, R),
          bad=lambda: z3.ArraySort(I, B), frev=lambda: z3.ArraySort(I, S.sort(LRV)), fout=lambda: z3.ArraySort(I, S.sort(LPV)), due=lambda: S.sort(LAT), will=lambda: z3.ArraySort(I, S.sort(LPV)))


class Ghosts(dict):
    def __missing__(self, n):
        return GH[n]() if n in GH else SM.gsort(n)


# O what arrives where, M consistency of Mealy outputs, L listeners, E what the next phase relies on
ASPECTS = set('OMLE')
ASPECT_OF = {}
for _a, _l in (('O', ['inputs from outside so far', 'inputs of the due models so far', 'arrived', 'asked', 'starts afresh']),
               ('M', ['the answer is the output', 'asked with the input', 'silent']),
               ('OM', ['what others delivered stays', 'deliveries are those of the output', 'deliveries of this model', 'deliveries of other models']),
               ('E', ['requests']), ('L', ['announced', 'listeners told so far', 'outputs announced so far'])):
    for _x in _l:
        ASPECT_OF[_x] = set(_a)


def asp(items):
    return [i for i in items if i[0].split(':')[0] not in ASPECT_OF or ASPECT_OF[i[0].split(':')[0]] & ASPECTS]


# ---- counting
class Counter:
    """how many of the first n entries of an array match"""
    def __init__(self, name, es, ps, match):
        self.name, self.es, self.ps, self.match = name, es, ps, match
        self.as_ = z3.ArraySort(I, es)
        self.f = z3.Function(name, self.as_, I, *ps, I)
        self.vars = [z3.Const('v%d_%s' % (i, name), s) for i, s in enumerate(ps)]

    def step_at(self, a, n, *ps):
        return z3.Implies(n >= 0, self.f(a, n + 1, *ps) == self.f(a, n, *ps) + z3.If(self.match(z3.Select(a, n), *ps), 1, 0))

    def step(self, a, n):
        v = self.vars
        return z3.Implies(n >= 0, z3.ForAll(v, self.f(a, n + 1, *v) == self.f(a, n, *v) + z3.If(self.match(z3.Select(a, n), *v), 1, 0), patterns=[self.f(a, n + 1, *v), self.f(a, n, *v)]))

    def zero(self):
        a, n, v = z3.Const('a', self.as_), z3.Int('n'), self.vars
        return z3.ForAll([a, n] + v, z3.Implies(n <= 0, self.f(a, n, *v) == 0), patterns=[self.f(a, n, *v)])

    def lemmas(self):
        f, v = self.f, self.vars
        a, k, e, n = z3.Const('a', self.as_), z3.Int('k'), z3.Const('e', self.es), z3.Int('n')
        st = z3.Store(a, k, e)

        def stmt():
            return z3.ForAll([a, k, e, n] + v, z3.And(z3.Implies(n <= k, f(st, n, *v) == f(a, n, *v)),
                                                     z3.Implies(z3.And(k >= 0, n == k + 1), f(st, n, *v) == f(a, k, *v) + z3.If(self.match(e, *v), 1, 0))), patterns=[f(st, n, *v)])

        def proof():
            z = [z3.Implies(n <= 0, f(st, n, *v) == 0), z3.Implies(n <= 0, f(a, n, *v) == 0)]
            d = lambda arr, i: self.step_at(arr, i, *v)
            return [('base', z + [n <= 0, n <= k], f(st, n, *v) == f(a, n, *v)),
                    ('step', [n > 0, n <= k, f(st, n - 1, *v) == f(a, n - 1, *v), d(st, n - 1), d(a, n - 1)], f(st, n, *v) == f(a, n, *v)),
                    ('last', [k >= 0, f(st, k, *v) == f(a, k, *v), d(st, k)], f(st, k + 1, *v) == f(a, k, *v) + z3.If(self.match(e, *v), 1, 0))]
        self.store = Lemma('store_' + self.name, [], stmt, proof)

        def nn_stmt():
            return z3.ForAll([a, n] + v, f(a, n, *v) >= 0, patterns=[f(a, n, *v)])

        def nn_proof():
            return [('base', [z3.Implies(n <= 0, f(a, n, *v) == 0), n <= 0], f(a, n, *v) >= 0),
                    ('step', [n > 0, f(a, n - 1, *v) >= 0, self.step_at(a, n - 1, *v)], f(a, n, *v) >= 0)]
        self.nonneg = Lemma('nonneg_' + self.name, [], nn_stmt, nn_proof)

        def er_stmt(a, na, len_, p):
            return z3.Implies(z3.And(p >= 0, p < len_, *shift_facts(na, a, p)),
                              z3.ForAll(v, z3.And(f(na, len_ - 1, *v) == f(a, len_, *v) - z3.If(self.match(z3.Select(a, p), *v), 1, 0), f(na, p, *v) == f(a, p, *v)),
                                        patterns=[f(na, len_ - 1, *v), f(a, len_, *v), f(na, p, *v)]))

        def er_proof(a, na, len_, p):
            sh = lambda i: [z3.Select(na, i) == z3.If(i < p, z3.Select(a, i), z3.Select(a, i + 1))]
            d = lambda arr, i: self.step_at(arr, i, *v)
            mt = z3.If(self.match(z3.Select(a, p), *v), 1, 0)
            return [('front base', [n <= 0, z3.Implies(n <= 0, f(na, n, *v) == 0), z3.Implies(n <= 0, f(a, n, *v) == 0)], f(na, n, *v) == f(a, n, *v)),
                    ('front step', [n > 0, n <= p, f(na, n - 1, *v) == f(a, n - 1, *v), d(na, n - 1), d(a, n - 1)] + sh(n - 1), f(na, n, *v) == f(a, n, *v)),
                    ('back base', [p >= 0, f(na, p, *v) == f(a, p, *v), d(a, p)], f(na, p, *v) == f(a, p + 1, *v) - mt),
                    ('back step', [p >= 0, n > p, f(na, n - 1, *v) == f(a, n, *v) - mt, d(na, n - 1), d(a, n)] + sh(n - 1), f(na, n, *v) == f(a, n + 1, *v) - mt)]
        self.erase = Lemma('erase_' + self.name, [self.as_, self.as_, I, I], er_stmt, er_proof)

    def of(self, lt, l, *ps):
        return self.f(S.larr(lt, l), S.llen(lt, l), *ps)


def on_erase(eng, lt, old, na, pos):
    out = []
    if lt == LRV:
        for c in (CS, CV):
            out.append(c.erase(S.larr(lt, old), na, S.llen(lt, old), pos))
    if lt == LPV:
        out.append(CC.erase(S.larr(lt, old), na, S.llen(lt, old), pos))
    return out


def mkpv(pin, value):
    return S.mk(PV, *[pin if f == 'pin' else value for f, _ in S.struct_fields(PV)])


def route_steps(eng, g, p, k, val):
    """definition of dr at 0 and at k+1: the first k entries of the route from p, with value val"""
    r = Route(g)
    e = r.rt(p, k)
    eng.assume(z3.ForAll([x_, pv_], dr(p, 0, val, x_, pv_) == 0, patterns=[dr(p, 0, val, x_, pv_)]))
    eng.assume(z3.Implies(k >= 0, z3.ForAll([x_, pv_], dr(p, k + 1, val, x_, pv_) == dr(p, k, val, x_, pv_) + z3.If(z3.And(S.acc(PA, 1, e) == x_, mkpv(S.acc(PA, 0, e), val) == pv_), 1, 0),
                                            patterns=[dr(p, k + 1, val, x_, pv_), dr(p, k, val, x_, pv_)])))


def out_steps(eng, g, a, j):
    """definition of dcnt at 0 and at j+1: the routes of the first j outputs"""
    r = Route(g)
    e = z3.Select(a, j)
    p, val = S.fld(PV, 'pin', e), S.fld(PV, 'value', e)
    eng.assume(z3.ForAll([x_, pv_], dcnt(a, 0, x_, pv_) == 0, patterns=[dcnt(a, 0, x_, pv_)]))
    eng.assume(z3.Implies(j >= 0, z3.ForAll([x_, pv_], dcnt(a, j + 1, x_, pv_) == dcnt(a, j, x_, pv_) + dr(p, r.rl(p), val, x_, pv_), patterns=[dcnt(a, j + 1, x_, pv_), dcnt(a, j, x_, pv_)])))


def dcnt_0():
    a, n = z3.Const('a', z3.ArraySort(I, PVS)), z3.Int('n')
    return z3.ForAll([a, n, x_, pv_], z3.Implies(n <= 0, dcnt(a, n, x_, pv_) == 0), patterns=[dcnt(a, n, x_, pv_)])


def F_0():
    w, a, n = z3.Const('w', z3.ArraySort(I, S.sort(LPV))), z3.Const('a', z3.ArraySort(I, I)), z3.Int('n')
    return z3.ForAll([w, a, n, x_, pv_], z3.Implies(n <= 0, F(w, a, n, x_, pv_) == 0), patterns=[F(w, a, n, x_, pv_)])


def due_steps(eng, will, a, i):
    """definition of F at 0 and at i+1: what the plain models among the first i deliver"""
    m = z3.Select(a, i)
    w = z3.Select(will, m)
    eng.assume(z3.ForAll([x_, pv_], F(will, a, 0, x_, pv_) == 0, patterns=[F(will, a, 0, x_, pv_)]))
    eng.assume(z3.Implies(i >= 0, z3.ForAll([x_, pv_], F(will, a, i + 1, x_, pv_) == F(will, a, i, x_, pv_) + z3.If(mealy(m), 0, dcnt(S.larr(LPV, w), S.llen(LPV, w), x_, pv_)),
                                            patterns=[F(will, a, i + 1, x_, pv_), F(will, a, i, x_, pv_)])))


def outlog(base, outs, i, t, n):
    """log `base` followed by the announcements of the first i outputs"""
    return z3.Function('outputs_announced', base.sort(), outs.sort(), I, R, I, base.sort())(base, outs, i, t, n)


def log_steps(eng, lst, i, t, n):
    b = z3.Const('b', S.sort(LEV))
    eng.assume(z3.ForAll([b], outlog(b, lst, z3.IntVal(0), t, n) == b, patterns=[outlog(b, lst, z3.IntVal(0), t, n)]))
    eng.assume(z3.Implies(i >= 0, z3.ForAll([b], outlog(b, lst, i + 1, t, n) == append(LEV, outlog(b, lst, i, t, n), S.mk(EVT, z3.IntVal(OUT), S.sel(S.larr(LPV, lst), i), t, n)), patterns=[outlog(b, lst, i + 1, t, n)])))


def outlog_0():
    b, i, t, n = z3.Const('b', S.sort(LEV)), z3.Const('i', S.sort(LPV)), z3.Real('t'), z3.Int('n')
    e = outlog(b, i, z3.IntVal(0), t, n)
    return z3.ForAll([b, i, t, n], e == b, patterns=[e])


def pos(l, x):
    """position of x in the list of due models"""
    return z3.Function('due_pos', S.sort(LAT), I, I)(l, x)


# ---- the state of the output phase
class Out(Sim):
    def __init__(self, v, s):
        super().__init__(v, s)
        self.inputs, self.outputs, self.revs, self.recvs = v.f('Atomic.inputs'), v.f('Atomic.outputs'), v.f('Atomic.revisable_inputs'), v.f('MealyAtomic.receivers')

    def inp(self, x):
        return S.sel(self.inputs, x)

    def outp(self, x):
        return S.sel(self.outputs, x)

    def rev(self, x):
        return S.sel(self.revs, x)

    def recv(self, s, x):
        return S.sel(S.sel(self.recvs, s), x)

    def nin(self, x):
        return S.llen(LPV, self.inp(x))

    def nout(self, x):
        return S.llen(LPV, self.outp(x))

    def nrev(self, x):
        return S.llen(LRV, self.rev(x))

    def orph(self, m):
        return S.sel(self.orphaned, m)

    def bad(self, m):
        return S.sel(self.v.g('bad'), m)

    def due(self, m):
        return z3.And(self.member(m), self.tN(m) == self.tNext)

    def cc(self, x, pv):
        return CC.of(LPV, self.inp(x), pv)

    def cs(self, x, s, pv):
        return CS.of(LRV, self.rev(x), s, pv)

    def cv(self, x, pv):
        return CV.of(LRV, self.rev(x), pv)

    def gives(self, l, x, pv):
        return dcnt(S.larr(LPV, l), S.llen(LPV, l), x, pv)

    def env(self):
        """the setting: objects, routes that end, couplings to models of the simulation"""
        return self.refs() + [('graph well formed: ' + n, e) for n, e in self.G.wf()] + [('no cycle of pins', Route(self.G).acyclic()), ('routes lead to models', self.routed())]

    def routed(self):
        r = Route(self.G)
        p = GR.pp
        t = S.acc(PA, 1, r.rt(p, k_))
        return z3.ForAll([p, k_], z3.Implies(z3.And(k_ >= 0, k_ < r.rl(p)), z3.And(self.member(t), t > 0)), patterns=[r.rt(p, k_)])

    def shape(self, but=None):
        c = [x_ != but] if but is not None else []
        return [('orphans', z3.ForAll([m_], z3.Implies(self.orph(m_), z3.And(mealy(m_), self.member(m_))), patterns=[self.orph(m_)])),
                ('active models', z3.ForAll([m_], z3.Implies(self.isactive(m_), self.member(m_)), patterns=[self.isactive(m_)])),
                ('receivers are known', z3.ForAll([x_, s_, pv_], z3.Implies(z3.And(mealy(s_), z3.Not(self.recv(s_, x_))), self.cs(x_, s_, pv_) == 0), patterns=[self.cs(x_, s_, pv_)])),
                ('receivers are models', z3.ForAll([s_, x_], z3.Implies(self.recv(s_, x_), z3.And(self.member(x_), self.isactive(s_), mealy(s_))), patterns=[self.recv(s_, x_)])),
                ('receivers without feed-through are active', z3.ForAll([x_], z3.Implies(z3.And(z3.Not(mealy(x_)), self.nrev(x_) != 0), self.isactive(x_)), patterns=[self.rev(x_)])),
                ('outputs only of active models', z3.ForAll([x_], z3.Implies(self.nout(x_) != 0, self.isactive(x_)), patterns=[self.outp(x_)])),
                ('inputs only of active models', z3.ForAll([x_], z3.Implies(self.nin(x_) != 0, self.isactive(x_)), patterns=[self.inp(x_)])),
                ('inputs of models with feed-through wait', z3.ForAll([x_], z3.Implies(z3.And(mealy(x_), *c), self.nin(x_) == 0), patterns=[self.inp(x_)]))]

    def consistent(self, bad=None, rev=None, outputs=None):
        """every model with feed-through whose output is not pending has answered for the input it has, and its receivers have its answer"""
        v = self.v
        bad = bad or self.bad
        g = lambda n: z3.Select(v.g(n), m_)
        ok = z3.And(mealy(m_), z3.Not(self.orph(m_)), z3.Not(bad(m_)))
        n = self.nrev(m_)
        busy = z3.Or(n != 0, self.due(m_))
        kind = z3.If(n == 0, PLAIN, z3.If(self.due(m_), CONFO, EXTO))
        pats = [self.rev(m_), self.outp(m_), g('ans')]
        o = self.outp(m_)
        return [('deliveries are those of the output', z3.ForAll([m_, x_, pv_], z3.Implies(ok, self.cs(x_, m_, pv_) == self.gives(o, x_, pv_)), patterns=[self.cs(x_, m_, pv_)])),
                ('active when it has input or is due', z3.ForAll([m_], z3.Implies(z3.And(ok, busy), self.isactive(m_)), patterns=pats)),
                ('the answer is the output', z3.ForAll([m_], z3.Implies(z3.And(ok, busy), z3.And(o == g('ans'), g('kind') == kind, z3.Implies(kind == EXTO, g('aske') == tsub(self.tNext, self.tL(m_))))), patterns=pats)),
                ('asked with the input', z3.ForAll([m_, pv_], z3.Implies(z3.And(ok, n != 0), CC.of(LPV, g('askin'), pv_) == self.cv(m_, pv_)), patterns=[CC.of(LPV, g('askin'), pv_), self.cv(m_, pv_)])),
                ('silent', z3.ForAll([m_], z3.Implies(z3.And(ok, z3.Not(busy)), self.nout(m_) == 0), patterns=pats))]


def same(a, b, vs, f, cond=None, pats=None):
    """f is the same in a and b for all vs (under cond)"""
    e = f(a) == f(b)
    if cond is not None:
        e = z3.Implies(cond, e)
    return z3.ForAll(vs, e, patterns=pats or [f(b)])


def build(reg):
    own = {}
    SC.build(lambda c: own.__setitem__(c.key, c))
    grc = {}
    GR.build(lambda c: grc.__setitem__(c.key, c))
    c0 = own['Schedule::minPriority()']
    reg(Contract(c0.key, c0.requires, c0.ensures, c0.modifies, trusted=True, note='verified under C01'))
    c1 = own['Schedule::visitImminent()']

    def vi_ens(C):
        h = SC.Heap(C.pre, C.this)
        b = C.ret
        n = S.llen(LAT, b)
        e = S.sel(S.larr(LAT, b), k_)
        return [('length', n >= 0),
                ('only models of least time, each once', z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < n), z3.And(h.mem(e), z3.Not(h.prio(1) < h.pr(e)), pos(b, e) == k_)), patterns=[e])),
                ('all models of least time', z3.ForAll([x_], z3.Implies(z3.And(h.mem(x_), z3.Not(h.prio(1) < h.pr(x_))), z3.And(pos(b, x_) >= 0, pos(b, x_) < n, S.sel(S.larr(LAT, b), pos(b, x_)) == x_)), patterns=[pos(b, x_)]))]
    reg(Contract(c1.key, c1.requires, vi_ens, c1.modifies, trusted=True, note='verified under C02 (restated with the position of each model in the list)'))
    c2 = grc['Graph::route(pin_t,list)']
    reg(Contract(c2.key, c2.requires, c2.ensures, c2.modifies, trusted=True, note='verified under C04'))
    reg(Contract('Atomic::isMealyAtomic()', lambda C: [], lambda C: [('itself, or nothing', C.ret == z3.If(mealy(C.this), C.this, 0))], (), trusted=True, note='the dynamic type decides: Atomic answers null, MealyAtomic itself'))
    reg(Contract('Atomic::isMealyAtomic()#plain', lambda C: [('a model without feed-through', z3.Not(mealy(C.this)))], lambda C: [('nothing', C.ret == 0)], ()))
    reg(Contract('MealyAtomic::isMealyAtomic()', lambda C: [('a model with feed-through', mealy(C.this))], lambda C: [('itself', C.ret == C.this)], ()))
    quiet = ['Graph.pending', 'ghost:reqs', 'alloc', 'static:pin_t::atom']

    # ---- what models answer
    def of_req(C):
        return [('asked with an empty list', S.llen(LPV, C.a(0)) == 0)]

    def of_ens(C):
        g0, g1 = C.pre.g, C.post.g
        r, m = C.apost(0), C.this
        up = lambda n, c, v: g1(n) == z3.If(c, z3.Store(g0(n), m, v), g0(n))
        return [('length', S.llen(LPV, r) >= 0), ('a model without feed-through', z3.Implies(z3.And(z3.Not(mealy(m)), z3.Select(g0('asked'), m) == 0), r == z3.Select(g0('will'), m))),
                ('recorded', z3.And(up('asked', z3.Not(mealy(m)), z3.Select(g0('asked'), m) + 1), up('ans', mealy(m), r), up('kind', mealy(m), z3.IntVal(PLAIN))))] + requests(C)
    reg(Contract('Atomic::output_func(list)', of_req, of_ens, lambda C: ['param:0', 'ghost:asked', 'ghost:ans', 'ghost:kind'] + quiet, trusted=True, note='user code: records the call; will is the answer to the first call of this step'))

    def requests(C):
        a, b = C.pre.g('simgraph'), C.post
        return asp([('requests', z3.And(b.f('Graph.pending') == z3.Store(C.pre.f('Graph.pending'), a, b.g('reqs')), SM.valid(G(b, a), b.g('reqs'), b)))])

    def mo(nm, kind, e, i, o):
        def ens(C):
            g0, g1 = C.pre.g, C.post.g
            r, m = C.apost(o), C.this
            up = lambda n, v: g1(n) == z3.Store(g0(n), m, v)
            return [('length', S.llen(LPV, r) >= 0), ('recorded', z3.And(up('ans', r), up('kind', z3.IntVal(kind)), up('askin', C.a(i)), *([up('aske', C.a(e))] if e is not None else [])))] + requests(C)
        reg(Contract('MealyAtomic::' + nm, lambda C: [('asked with an empty list', S.llen(LPV, C.a(o)) == 0)], ens,
                     lambda C: ['param:%d' % o, 'ghost:ans', 'ghost:kind', 'ghost:askin'] + (['ghost:aske'] if e is not None else []) + quiet, trusted=True, note='user code: records the call'))
    mo('confluent_output_func(list,list)', CONFO, None, 0, 1)
    mo('external_output_func(T,list,list)', EXTO, 0, 1, 2)

    def lis(C):
        m, v, t = C.a(0), C.a(1), C.a(2)
        e0 = C.pre.g('elog')
        row = z3.Select(e0, C.this)
        return [('recorded', C.post.g('elog') == z3.Store(e0, C.this, z3.Store(row, m, append(LEV, z3.Select(row, m), S.mk(EVT, z3.IntVal(OUT), v, t, z3.Select(C.pre.g('tcount'), m))))))]
    reg(Contract('EventListener::outputEvent(Atomic,PinValue,T)', lambda C: [], lis, ('ghost:elog',), trusted=True, note='user code: records the call; assumed not to change the value or the simulation'))

    # ---- retracting the output of a model
    def others(a, b):
        """what the senders without feed-through delivered stays"""
        return ('what others delivered stays', z3.ForAll([x_, s_, pv_], z3.Implies(z3.Not(mealy(s_)), b.cs(x_, s_, pv_) == a.cs(x_, s_, pv_)), patterns=[b.cs(x_, s_, pv_)]))

    def fewer(a, b):
        return ('nothing arrives', z3.ForAll([x_], z3.Implies(a.nrev(x_) == 0, b.nrev(x_) == 0), patterns=[b.rev(x_), a.rev(x_)]))

    def grows(a, b, nm, f):
        return (nm, z3.ForAll([m_], z3.Implies(f(a, m_), f(b, m_)), patterns=[f(a, m_), f(b, m_)]))
    orph, isact = (lambda o, m: o.orph(m)), (lambda o, m: o.isactive(m))

    def rt_req(C):
        o = Out(C.pre, C.this)
        m = C.a(0)
        return o.env() + asp(o.shape() + o.consistent()) + [('a model with feed-through', z3.And(m > 0, mealy(m), o.member(m))), ('its output is pending', z3.Or(o.bad(m), o.orph(m)))]

    def rt_ens(C):
        a, b = Out(C.pre, C.this), Out(C.post, C.this)
        m = C.a(0)
        return asp(b.shape() + b.consistent()) + [
            ('nothing of it is left', z3.ForAll([x_, pv_], b.cs(x_, m, pv_) == 0, patterns=[b.cs(x_, m, pv_)])),
            ('no receivers', z3.ForAll([x_], z3.Not(b.recv(m, x_)), patterns=[b.recv(m, x_)])),
            grows(a, b, 'pending outputs stay pending', orph), fewer(a, b)] + asp([others(a, b)])

    def rt_loop(L):
        if L.cur_iters() or 'retract_mealy_output' not in L.calls:
            raise SpecMismatch('')
        a, b = Out(L.fnpre, L.this), Out(L.cur, L.this)
        return asp(b.shape() + b.consistent()) + [grows(a, b, 'pending outputs stay pending', orph), fewer(a, b)] + asp([others(a, b)])

    def rt_erase(L):
        it = L.it('Atomic.revisable_inputs')
        r = ref_of(it)
        root = L.param_entry(0)
        a, b = Out(L.entry, L.this), Out(L.cur, L.this)
        l = L.cont(it)
        L.eng.assume(CS.step(S.larr(LRV, l), it.pos))
        return [('none of it so far', z3.ForAll([pv_], CS.f(S.larr(LRV, l), it.pos, root, pv_) == 0, patterns=[CS.f(S.larr(LRV, l), it.pos, root, pv_)])),
                ('what others delivered stays', z3.ForAll([s_, pv_], z3.Implies(s_ != root, b.cs(r, s_, pv_) == a.cs(r, s_, pv_)), patterns=[b.cs(r, s_, pv_)])),
                ('other models', z3.ForAll([x_], z3.Implies(x_ != r, b.rev(x_) == a.rev(x_)), patterns=[b.rev(x_)])),
                ('nothing arrives', z3.Implies(a.nrev(r) == 0, b.nrev(r) == 0))]
    RT = 'Simulator::retract_mealy_output(MealyAtomic*)'
    reg(Contract(RT, rt_req, rt_ens, lambda C: ['Atomic.revisable_inputs', 'MealyAtomic.receivers', ('Simulator.orphaned', [C.this])],
                 loops=[LoopSpec(rt_erase, name='entries of a receiver'), LoopSpec(rt_loop, name='receivers')]))

    # ---- the output of a model with feed-through
    def union(eng, *sets):
        t = eng.fresh(z3.ArraySort(I, B), 'set')
        eng.assume(z3.ForAll([m_], z3.Select(t, m_) == z3.Or(*[s(m_) for s in sets]), patterns=[z3.Select(t, m_)] + [p for p in [s(m_) for s in sets] if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SELECT]))
        return t

    def rq(v, o):
        return asp([('requests', z3.And(v.g('simgraph') == o.graph, v.g('reqs') == o.G.pend, SM.valid(o.G, o.G.pend, v)))])

    def cm_req(C):
        o = Out(C.pre, C.this)
        m = C.a(1)
        b = lambda x: z3.Or(o.bad(x), x == m)
        return o.env() + rq(C.pre, o) + asp(o.shape() + o.consistent(b)) + [('a model with feed-through', z3.And(m > 0, mealy(m), o.member(m))), ('not on the path', z3.Not(S.sel(C.a(0), m)))]

    def cm_ens(C):
        a, b = Out(C.pre, C.this), Out(C.post, C.this)
        m = C.a(1)
        return rq(C.post, b) + asp(b.shape() + b.consistent()) + [
            ('settled', z3.And(z3.Not(b.bad(m)), z3.ForAll([m_], z3.Implies(b.bad(m_), a.bad(m_)), patterns=[b.bad(m_)]))),
            ('the path', C.apost(0) == C.a(0)), grows(a, b, 'active models stay active', isact)] + asp([others(a, b)]) + kept(a, b)

    def kept(a, b):
        return [('inputs of models without feed-through', z3.ForAll([x_], z3.Implies(z3.Not(mealy(x_)), b.inp(x_) == a.inp(x_)), patterns=[b.inp(x_)])),
                ('outputs of models without feed-through', z3.ForAll([x_], z3.Implies(z3.Not(mealy(x_)), b.outp(x_) == a.outp(x_)), patterns=[b.outp(x_)]))] + \
            asp([('asked', b.v.g('asked') == a.v.g('asked'))])

    def cm_gather(L):
        it = L.it('Atomic.revisable_inputs')
        r = ref_of(it)
        a, b = Out(L.entry, L.this), Out(L.cur, L.this)
        if ('field', 'Atomic', 'inputs') not in L.mod:
            raise SpecMismatch('')
        l = L.cont(it)
        L.eng.assume(CV.step(S.larr(LRV, l), it.pos))
        return [('as many', b.nin(r) == it.pos), ('the values', z3.ForAll([pv_], b.cc(r, pv_) == CV.f(S.larr(LRV, l), it.pos, pv_), patterns=[b.cc(r, pv_)])),
                ('other models', z3.ForAll([x_], z3.Implies(x_ != r, b.inp(x_) == a.inp(x_)), patterns=[b.inp(x_)]))]

    def cm_deliver(L):
        it = L.it('Atomic.outputs')
        r = ref_of(it)
        if 'route' not in L.calls or not r.eq(L.param_entry(1)):
            raise SpecMismatch('')
        a, b = Out(L.entry, L.this), Out(L.cur, L.this)
        arr = S.larr(LPV, L.cont(it))
        out_steps(L.eng, a.G, arr, it.pos)
        return [('route list empty', S.llen(LR, L.local(LR)) == 0)] + delivering(L, a, b, r, lambda x, pv: dcnt(arr, it.pos, x, pv), L.fnpre)

    def delivering(L, a, b, root, given, fnpre):
        """the root has delivered `given` since a"""
        act = L.local(SET(REF('MealyAtomic')))
        act0 = L.local(SET(REF('MealyAtomic')), L.entry_st)
        return asp([('deliveries of this model', z3.ForAll([x_, pv_], b.cs(x_, root, pv_) == a.cs(x_, root, pv_) + given(x_, pv_), patterns=[b.cs(x_, root, pv_)])),
                    ('deliveries of other models', z3.ForAll([x_, s_, pv_], z3.Implies(s_ != root, b.cs(x_, s_, pv_) == a.cs(x_, s_, pv_)), patterns=[b.cs(x_, s_, pv_)])),
                    ]) + [
            ('inputs of models not visited', z3.ForAll([m_], z3.Implies(z3.And(mealy(m_), z3.Not(S.sel(act, m_))), b.rev(m_) == a.rev(m_)), patterns=[b.rev(m_)])),
            ('models to visit stay', z3.ForAll([m_], z3.Implies(S.sel(act0, m_), S.sel(act, m_)), patterns=[S.sel(act0, m_), S.sel(act, m_)])),
            ('models to visit', z3.ForAll([m_], z3.Implies(S.sel(act, m_), z3.And(mealy(m_), b.member(m_), z3.Not(S.sel(L.param(0), m_)))), patterns=[S.sel(act, m_)])),
            grows(a, b, 'active models stay active', isact)] + others_if(a, b, root) + asp(b.shape(root))

    def others_if(a, b, root):
        return [('receivers of other models', z3.ForAll([s_], z3.Implies(s_ != root, S.sel(b.recvs, s_) == S.sel(a.recvs, s_)), patterns=[S.sel(b.recvs, s_)]))]

    def consumers(L):
        """the loop over the entries of one route"""
        it = L.it(LR)
        o, kind = source(L)
        a, b = Out(L.entry, L.this), Out(L.cur, L.this)
        lst = L.cont(o)
        y = S.sel(S.larr(LPV, lst), o.pos)
        p, val = S.fld(PV, 'pin', y), S.fld(PV, 'value', y)
        route_steps(L.eng, a.G, p, it.pos, val)
        given = lambda x, pv: dr(p, it.pos, val, x, pv)
        out = []
        for v in L.mod_locals(PV):
            out.append(('the value', S.fld(PV, 'value', v) == val))
        if kind == 'calc':
            return out + delivering(L, a, b, L.param_entry(1), given, L.fnpre)
        src = z3.IntVal(0) if kind == 'ext' else ref_of(o)
        nm = 'inputs from outside so far' if kind == 'ext' else 'inputs of the due models so far'
        return out + arriving(a, b, src, given, nm)

    def arriving(a, b, src, given, nm):
        return asp([(nm, z3.And(z3.ForAll([x_, pv_], z3.Implies(z3.Not(mealy(x_)), b.cc(x_, pv_) == a.cc(x_, pv_) + given(x_, pv_)), patterns=[b.cc(x_, pv_)]),
                               z3.ForAll([x_, pv_], z3.Implies(mealy(x_), b.cs(x_, src, pv_) == a.cs(x_, src, pv_) + given(x_, pv_)), patterns=[b.cs(x_, src, pv_)])))]) + \
            [('deliveries of other models', z3.ForAll([x_, s_, pv_], z3.Implies(s_ != src, b.cs(x_, s_, pv_) == a.cs(x_, s_, pv_)), patterns=[b.cs(x_, s_, pv_)])),
             ('nothing waits at models without feed-through', z3.ForAll([x_], z3.Implies(z3.Not(mealy(x_)), b.nrev(x_) == 0), patterns=[b.rev(x_)])),
             ('models with input are pending', z3.ForAll([x_], z3.Implies(b.nrev(x_) != 0, b.orph(x_)), patterns=[b.rev(x_)])),
             grows(a, b, 'pending outputs stay pending', orph), grows(a, b, 'active models stay active', isact)] + b.shape()

    def source(L):
        """the list whose routes are being followed: injected inputs, outputs of a due model, outputs of a model with feed-through"""
        best = None
        for k, v in L.cur_st.locals.items():
            if isinstance(v, It) and v.kind == 'list' and not isinstance(v.pos, str):
                d = L.eng.lv_desc(v.lv)
                if d == 'Simulator.external_input':
                    best = (v, 'ext')
                elif d.split('[')[0] == 'Atomic.outputs':
                    best = (v, 'calc' if L.eng.frames_fn[0].name == 'calculate_mealy_output' else 'due')
        if best is None:
            raise SpecMismatch('no list of outputs')
        return best

    def cm_descend(L):
        it = L.it(SET(REF('MealyAtomic')))
        if 'calculate_mealy_output' not in L.calls:
            raise SpecMismatch('')
        a, b = Out(L.fnpre, L.this), Out(L.cur, L.this)
        e = Out(L.entry, L.this)
        root = L.param_entry(1)
        return rq(L.cur, b) + asp(b.shape() + b.consistent()) + [
            ('settled', z3.And(z3.Not(b.bad(root)), z3.ForAll([m_], z3.Implies(b.bad(m_), z3.Or(a.bad(m_), z3.Select(it.rem, m_))), patterns=[b.bad(m_)]),
                               z3.ForAll([m_], z3.Implies(z3.And(b.bad(m_), z3.Not(z3.Select(it.rem, m_))), z3.And(a.bad(m_))), patterns=[b.bad(m_)]))),
            ('the path', L.param(0) == L.param_at_entry(0)),
            grows(e, b, 'active models stay active', isact)] + asp([others(e, b)]) + kept(e, b)

    def cm_descend_enter(L):
        it = L.it(SET(REF('MealyAtomic')))
        root = L.param_entry(1)
        a = Out(L.fnpre, L.this)
        act = L.cont(it)
        t = L.eng.fresh(z3.ArraySort(I, B), 'bad')
        L.eng.assume(z3.ForAll([m_], z3.Select(t, m_) == z3.And(m_ != root, z3.Or(a.bad(m_), S.sel(act, m_))), patterns=[z3.Select(t, m_)]))
        return {'bad': t}
    CM = 'Simulator::calculate_mealy_output(set,MealyAtomic*)'
    reg(Contract(CM, cm_req, cm_ens,
                 lambda C: ['param:0', ('Simulator.active', [C.this]), ('Simulator.orphaned', [C.this]), 'Atomic.outputs', 'Atomic.inputs', 'Atomic.revisable_inputs', 'MealyAtomic.receivers',
                            'ghost:asked', 'ghost:ans', 'ghost:kind', 'ghost:askin', 'ghost:aske', 'ghost:bad'] + quiet,
                 may_throw=True, ensures_throw=lambda C: [],
                 enter=lambda C: {'bad': z3.Store(C.pre.g('bad'), C.a(1), z3.BoolVal(True))}, leave=lambda C: {'bad': z3.Store(C.post.g('bad'), C.a(1), z3.BoolVal(False))},
                 loops=[LoopSpec(cm_gather, name='input'), LoopSpec(consumers, name='consumers'), LoopSpec(cm_deliver, name='outputs'), LoopSpec(cm_descend, name='models reached', enter=cm_descend_enter)]))

    # ---- the whole phase
    NOMODELS = lambda: S.empty_set(SET(AT))

    def rest(o):
        """nothing is left over from another step"""
        return [('active models', z3.ForAll([m_], z3.Implies(o.isactive(m_), o.member(m_)), patterns=[o.isactive(m_)])),
                ('outputs only of active models', z3.ForAll([x_], z3.Implies(o.nout(x_) != 0, o.isactive(x_)), patterns=[o.outp(x_)])),
                ('inputs only of active models', z3.ForAll([x_], z3.Implies(o.nin(x_) != 0, o.isactive(x_)), patterns=[o.inp(x_)])),
                ('no revisable input', z3.ForAll([x_], o.nrev(x_) == 0, patterns=[o.rev(x_)])),
                ('no receivers', z3.ForAll([s_, x_], z3.Not(o.recv(s_, x_)), patterns=[o.recv(s_, x_)])),
                ('no orphans', o.orphaned == NOMODELS())]

    def cn_req(C):
        o = Out(C.pre, C.this)
        return o.env() + [i for i in o.sched_inv()] + rest(o) + rq(C.pre, o) + [
            ('listeners registered once', distinct(o.listeners)), ('time', o.tNext < SC.T_inf),
            ('no model is due earlier', z3.ForAll([m_], z3.Implies(o.member(m_), o.tNext <= o.tN(m_)), patterns=[o.member(m_)]))]

    def cn_enter(C):
        return {'asked': z3.K(I, z3.IntVal(0)), 'bad': z3.K(I, z3.BoolVal(False)), 'due': S.mk(LAT, z3.K(I, z3.IntVal(0)), z3.IntVal(0)), 'will': C.eng.fresh(GH['will'](), 'will')}

    def log(v):
        return z3.Select(z3.Select(v.g('elog'), l_), m_)

    def tc(v, m):
        return z3.Select(v.g('tcount'), m)

    def cn_undo(L):
        it = L.it('Simulator.active')
        if ('field', 'Atomic', 'revisable_inputs') in L.mod or ('field', 'Atomic', 'outputs') not in L.mod:
            raise SpecMismatch('')
        a, b = Out(L.entry, L.this), Out(L.cur, L.this)
        done = lambda m: z3.And(a.isactive(m), z3.Not(z3.Select(it.rem, m)))
        return [('cleared', z3.ForAll([x_], z3.Implies(done(x_), z3.And(b.nout(x_) == 0, b.nin(x_) == 0)), patterns=[b.outp(x_), b.inp(x_)])),
                ('other models', z3.ForAll([x_], z3.Implies(z3.Not(done(x_)), z3.And(b.outp(x_) == a.outp(x_), b.inp(x_) == a.inp(x_))), patterns=[b.outp(x_), b.inp(x_)]))]

    def cn_ext(L):
        it = L.it('Simulator.external_input')
        a, b = Out(L.entry, L.this), Out(L.cur, L.this)
        arr = S.larr(LPV, L.cont(it))
        out_steps(L.eng, a.G, arr, it.pos)
        return [('route list empty', S.llen(LR, L.local(LR)) == 0)] + arriving(a, b, z3.IntVal(0), lambda x, pv: dcnt(arr, it.pos, x, pv), 'inputs from outside so far')

    def due_outputs(L):
        """the loop over the outputs of a due model"""
        it = L.it('Atomic.outputs')
        if 'route' not in L.calls or L.eng.frames_fn[0].name != 'computeNextOutput':
            raise SpecMismatch('')
        r = ref_of(it)
        a, b = Out(L.entry, L.this), Out(L.cur, L.this)
        lst = L.cont(it)
        arr = S.larr(LPV, lst)
        out_steps(L.eng, a.G, arr, it.pos)
        return [('route list empty', S.llen(LR, L.local(LR)) == 0)] + arriving(a, b, r, lambda x, pv: dcnt(arr, it.pos, x, pv), 'inputs of the due models so far') + told(L, a, r, lst, it.pos)

    def told(L, a, r, lst, pos_):
        n = tc(L.cur, r)
        log_steps(L.eng, lst, pos_, a.tNext, n)
        return asp([('outputs announced so far', z3.ForAll([l_, m_], log(L.cur) == z3.If(z3.And(m_ == r, isL(a.listeners, l_)), outlog(log(L.entry), lst, pos_, a.tNext, n), log(L.entry)), patterns=[log(L.cur)]))])

    def told_listeners(L):
        it = L.it('Simulator.listeners')
        if 'outputEvent' not in L.calls:
            raise SpecMismatch('')
        a = Out(L.cur, L.this)
        o = L.outer('Atomic.outputs')
        r = ref_of(o)
        ev = S.mk(EVT, z3.IntVal(OUT), S.sel(S.larr(LPV, L.cont(o)), o.pos), a.tNext, tc(L.cur, r))
        return asp([('listeners told so far', z3.ForAll([l_, m_], log(L.cur) == z3.If(z3.And(m_ == r, isL(a.listeners, l_), lpos(a.listeners, l_) < it.pos), append(LEV, log(L.entry), ev), log(L.entry)), patterns=[log(L.cur)]))])

    def told_outputs(L):
        it = L.it('Atomic.outputs')
        if 'route' in L.calls or 'outputEvent' not in L.calls:
            raise SpecMismatch('')
        a = Out(L.entry, L.this)
        return told(L, a, ref_of(it), L.cont(it), it.pos)

    def in_imm(o, due, m):
        p = pos(due, m)
        return z3.And(p >= 0, p < S.llen(LAT, due), S.sel(S.larr(LAT, due), p) == m)

    def cn_imm(L):
        it = L.it(LAT)
        a, b = Out(L.entry, L.this), Out(L.cur, L.this)
        due = L.cont(it)
        arr, i = S.larr(LAT, due), it.pos
        will = L.cur.g('will')
        due_steps(L.eng, will, arr, i)
        seen = lambda m: z3.And(in_imm(b, due, m), pos(due, m) < i)
        ask = lambda m: z3.And(z3.Not(mealy(m)), seen(m))
        w = lambda s: S.sel(will, s)
        asked = z3.Select(L.cur.g('asked'), m_)
        return rq(L.cur, b) + [('route list empty', S.llen(LR, L.local(LR)) == 0),
                ('nothing waits at models without feed-through', z3.ForAll([x_], z3.Implies(z3.Not(mealy(x_)), b.nrev(x_) == 0), patterns=[b.rev(x_)])),
                ('models with input are pending', z3.ForAll([x_], z3.Implies(b.nrev(x_) != 0, b.orph(x_)), patterns=[b.rev(x_)])),
                ('due models with feed-through are pending', z3.ForAll([x_], z3.Implies(z3.And(mealy(x_), seen(x_)), b.orph(x_)), patterns=[pos(due, x_), b.orph(x_)])),
                ('due models are active', z3.ForAll([x_], z3.Implies(ask(x_), b.isactive(x_)), patterns=[pos(due, x_), b.isactive(x_)])),
                ('outputs of models asked', z3.ForAll([x_], z3.Implies(z3.Not(ask(x_)), b.nout(x_) == 0), patterns=[b.outp(x_)])),
                ('asked once', z3.ForAll([m_], asked == z3.If(ask(m_), 1, 0), patterns=[asked])),
                grows(a, b, 'pending outputs stay pending', orph), grows(a, b, 'active models stay active', isact)] + b.shape() + \
            asp([('inputs of the due models so far', z3.And(
                    z3.ForAll([x_, pv_], z3.Implies(z3.Not(mealy(x_)), b.cc(x_, pv_) == a.cc(x_, pv_) + F(will, arr, i, x_, pv_)), patterns=[b.cc(x_, pv_)]),
                    z3.ForAll([x_, s_, pv_], z3.Implies(mealy(x_), b.cs(x_, s_, pv_) == a.cs(x_, s_, pv_) + z3.If(ask(s_), b.gives(w(s_), x_, pv_), 0)), patterns=[b.cs(x_, s_, pv_)]))),
                 ('outputs announced so far', z3.ForAll([l_, m_], log(L.cur) == z3.If(z3.And(ask(m_), isL(a.listeners, l_)), outlog(log(L.entry), w(m_), S.llen(LPV, w(m_)), a.tNext, tc(L.cur, m_)), log(L.entry)), patterns=[log(L.cur)]))])

    def cn_imm_enter(L):
        return {'due': L.cont(L.it(LAT))}

    def cn_orphans(L):
        if L.cur_iters() or 'calculate_mealy_output' not in L.calls or ('field', 'Simulator', 'orphaned') not in L.mod:
            raise SpecMismatch('')
        a, b = Out(L.entry, L.this), Out(L.cur, L.this)
        return rq(L.cur, b) + asp(b.shape() + b.consistent()) + [
            ('settled', z3.ForAll([m_], z3.Not(b.bad(m_)), patterns=[b.bad(m_)])), ('the path', L.local(SET(REF('MealyAtomic'))) == S.empty_set(SET(REF('MealyAtomic')))),
            grows(a, b, 'active models stay active', isact)] + asp([others(a, b)]) + kept(a, b)

    def cn_walk(L):
        it = L.it('Atomic.revisable_inputs')
        if ('field', 'Atomic', 'inputs') not in L.mod or ('field', 'Atomic', 'revisable_inputs') in L.mod:
            raise SpecMismatch('')
        r = ref_of(it)
        a, b = Out(L.entry, L.this), Out(L.cur, L.this)
        l = L.cont(it)
        L.eng.assume(CV.step(S.larr(LRV, l), it.pos))
        return [('as many', b.nin(r) == a.nin(r) + it.pos), ('other models', z3.ForAll([x_], z3.Implies(x_ != r, b.inp(x_) == a.inp(x_)), patterns=[b.inp(x_)]))] + \
            asp([('the values', z3.ForAll([pv_], b.cc(r, pv_) == a.cc(r, pv_) + CV.f(S.larr(LRV, l), it.pos, pv_), patterns=[b.cc(r, pv_)]))])

    def cn_gather(L):
        it = L.it('Simulator.active')
        if ('field', 'Atomic', 'revisable_inputs') not in L.mod:
            raise SpecMismatch('')
        a, b = Out(L.entry, L.this), Out(L.cur, L.this)
        done = lambda m: z3.And(a.isactive(m), z3.Not(z3.Select(it.rem, m)))
        return [('inputs', z3.ForAll([x_], z3.If(done(x_), b.nin(x_) == a.nin(x_) + a.nrev(x_), b.inp(x_) == a.inp(x_)), patterns=[b.inp(x_)])),
                ('revisable inputs', z3.ForAll([x_], z3.If(done(x_), b.nrev(x_) == 0, b.rev(x_) == a.rev(x_)), patterns=[b.rev(x_)])),
                ('outputs', z3.ForAll([x_], z3.If(done(x_), b.nout(x_) == 0, b.outp(x_) == a.outp(x_)), patterns=[b.outp(x_)])),
                ('receivers', z3.ForAll([s_, x_], b.recv(s_, x_) == z3.And(a.recv(s_, x_), z3.Not(done(s_))), patterns=[b.recv(s_, x_)]))] + \
            asp([('arrived', z3.ForAll([x_, pv_], z3.Implies(done(x_), b.cc(x_, pv_) == a.cc(x_, pv_) + a.cv(x_, pv_)), patterns=[b.cc(x_, pv_)])),
                 ('outputs announced so far', z3.ForAll([l_, m_], log(L.cur) == z3.If(z3.And(done(m_), mealy(m_), isL(a.listeners, l_)), outlog(log(L.entry), a.outp(m_), a.nout(m_), a.tNext, tc(L.cur, m_)), log(L.entry)), patterns=[log(L.cur)]))])

    def cn_gather_enter(L):
        L.it('Simulator.active')
        a = Out(L.entry, L.this)
        L.eng.assume(z3.ForAll([x_], a.nrev(x_) >= 0, patterns=[a.rev(x_)]))       # lists have no negative length
        return {'frev': a.revs, 'fout': a.outputs}

    def cn_pop(L):
        if L.cur_iters() or ('field', 'Atomic', 'revisable_inputs') not in L.mod or 'calculate_mealy_output' in L.calls:
            raise SpecMismatch('')
        m = L.outer('Simulator.active').key
        a, b = Out(L.entry, L.this), Out(L.cur, L.this)
        L.eng.facts(a.rev(m), LRV)
        L.eng.facts(b.rev(m), LRV)
        return [('length', z3.And(b.nin(m) + b.nrev(m) == a.nin(m) + a.nrev(m), b.nrev(m) >= 0)),
                ('other models', z3.ForAll([x_], z3.Implies(x_ != m, z3.And(b.inp(x_) == a.inp(x_), b.rev(x_) == a.rev(x_))), patterns=[b.inp(x_), b.rev(x_)]))] + \
            asp([('arrived', z3.ForAll([pv_], b.cc(m, pv_) + b.cv(m, pv_) == a.cc(m, pv_) + a.cv(m, pv_), patterns=[b.cc(m, pv_), b.cv(m, pv_)]))])

    def cn_pop_dec(L):
        return Out(L.cur, L.this).nrev(L.outer('Simulator.active').key)

    def cn_ens(C):
        a, b = Out(C.pre, C.this), Out(C.post, C.this)
        g = C.post.g
        due, will, frev, fout = g('due'), g('will'), g('frev'), g('fout')
        n, arr = S.llen(LAT, due), S.larr(LAT, due)
        e = S.sel(arr, k_)
        isdue = lambda m: a.due(m)
        fr, fo = (lambda x: S.sel(frev, x)), (lambda x: S.sel(fout, x))
        w = lambda s: S.sel(will, s)
        cs = lambda x, s, pv: CS.of(LRV, fr(x), s, pv)
        cv = lambda x, pv: CV.of(LRV, fr(x), pv)
        ext = lambda x, pv: b.gives(a.ext, x, pv)
        busy = z3.And(mealy(m_), z3.Or(b.nin(m_) != 0, isdue(m_)))
        kind = z3.If(b.nin(m_) == 0, PLAIN, z3.If(isdue(m_), CONFO, EXTO))
        asked = z3.Select(g('asked'), m_)
        out = z3.If(mealy(m_), fo(m_), w(m_))
        gg = lambda x: z3.Select(g(x), m_)
        return rest(b) + rq(C.post, b) + [
            ('due models', z3.And(z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < n), z3.And(isdue(e), pos(due, e) == k_)), patterns=[e]),
                                  z3.ForAll([m_], z3.Implies(isdue(m_), in_imm(b, due, m_)), patterns=[a.tN(m_), pos(due, m_)]))),
            ('due models are active', z3.ForAll([m_], z3.Implies(z3.And(isdue(m_), S.llen(LRV, fr(m_)) >= 0), b.isactive(m_)), patterns=[b.isactive(m_)])),
            ('lengths', z3.ForAll([x_], S.llen(LRV, fr(x_)) >= 0, patterns=[fr(x_)])),
            ('no outputs are left', z3.ForAll([x_], b.nout(x_) == 0, patterns=[b.outp(x_)])),
            ('inputs from outside are used up', S.llen(LPV, b.ext) == 0),
            ('number of inputs of models with feed-through', z3.ForAll([x_], z3.Implies(mealy(x_), b.nin(x_) == S.llen(LRV, fr(x_))), patterns=[b.inp(x_)]))] + asp([
            ('asked', z3.ForAll([m_], asked == z3.If(z3.And(z3.Not(mealy(m_)), isdue(m_)), 1, 0), patterns=[asked])),
            ('arrived: models without feed-through', z3.ForAll([x_, pv_], z3.Implies(z3.Not(mealy(x_)), b.cc(x_, pv_) == ext(x_, pv_) + F(will, arr, n, x_, pv_) + cv(x_, pv_)), patterns=[b.cc(x_, pv_)])),
            ('arrived: models with feed-through', z3.ForAll([x_, pv_], z3.Implies(mealy(x_), b.cc(x_, pv_) == cv(x_, pv_)), patterns=[b.cc(x_, pv_)])),
            ('arrived: from outside at models with feed-through', z3.ForAll([x_, pv_], z3.Implies(mealy(x_), cs(x_, 0, pv_) == ext(x_, pv_)), patterns=[cs(x_, 0, pv_)])),
            ('arrived: from models without feed-through at those with', z3.ForAll([x_, s_, pv_], z3.Implies(z3.And(mealy(x_), z3.Not(mealy(s_)), s_ != 0), cs(x_, s_, pv_) == z3.If(isdue(s_), b.gives(w(s_), x_, pv_), 0)), patterns=[cs(x_, s_, pv_)])),
            ('arrived: nothing else waits at models without feed-through', z3.ForAll([x_, s_, pv_], z3.Implies(z3.And(z3.Not(mealy(x_)), z3.Not(mealy(s_))), cs(x_, s_, pv_) == 0), patterns=[cs(x_, s_, pv_)])),
            ('arrived: from models with feed-through', z3.ForAll([x_, s_, pv_], z3.Implies(mealy(s_), cs(x_, s_, pv_) == b.gives(fo(s_), x_, pv_)), patterns=[cs(x_, s_, pv_)])),
            ('the answer is the output', z3.ForAll([m_], z3.Implies(busy, z3.And(fo(m_) == gg('ans'), gg('kind') == kind, z3.Implies(kind == EXTO, gg('aske') == tsub(a.tNext, a.tL(m_))))), patterns=[fo(m_)])),
            ('asked with the input', z3.ForAll([m_, pv_], z3.Implies(z3.And(busy, b.nin(m_) != 0), CC.of(LPV, gg('askin'), pv_) == cv(m_, pv_)), patterns=[cv(m_, pv_)])),
            ('silent', z3.ForAll([m_], z3.Implies(z3.And(mealy(m_), z3.Not(busy)), S.llen(LPV, fo(m_)) == 0), patterns=[fo(m_)])),
            ('announced', z3.ForAll([l_, m_], log(C.post) == z3.If(z3.And(isL(a.listeners, l_), z3.Or(mealy(m_), isdue(m_))), outlog(log(C.pre), out, S.llen(LPV, out), a.tNext, tc(C.post, m_)), log(C.pre)), patterns=[log(C.post)]))])

    reg(Contract('Simulator::computeNextOutput()', cn_req, cn_ens,
                 lambda C: [('Simulator.active', [C.this]), ('Simulator.orphaned', [C.this]), ('Simulator.external_input', [C.this]), 'Schedule.activated', 'Atomic.outputs', 'Atomic.inputs', 'Atomic.revisable_inputs', 'MealyAtomic.receivers',
                            'ghost:elog'] + ['ghost:' + n for n in GH] + quiet,
                 may_throw=True, ensures_throw=lambda C: [], enter=cn_enter,
                 loops=[LoopSpec(cn_undo, name='undo'), LoopSpec(told_listeners, name='listeners'), LoopSpec(consumers, name='consumers'), LoopSpec(cn_ext, name='inputs from outside'),
                        LoopSpec(due_outputs, name='outputs of a due model'), LoopSpec(cn_imm, name='due models', enter=cn_imm_enter), LoopSpec(cn_orphans, name='pending outputs'),
                        LoopSpec(cn_pop, name='input of an active model', decreases=cn_pop_dec), LoopSpec(cn_walk, name='input of an active model'), LoopSpec(told_outputs, name='outputs of a model with feed-through'), LoopSpec(cn_gather, name='active models', enter=cn_gather_enter)]))


TARGETS = ['Atomic::isMealyAtomic()#plain', 'MealyAtomic::isMealyAtomic()', 'Simulator::retract_mealy_output(MealyAtomic*)', 'Simulator::calculate_mealy_output(set,MealyAtomic*)', 'Simulator::computeNextOutput()']
DRIVER = 'core.cpp'
ENGINE = dict(entity=('Schedule', 'Graph', 'Simulator', 'Coupled'), value=('exception',), ghosts=Ghosts(), opts=dict(on_erase=lambda *a: on_erase(*a)))


def tenv(prog):
    return TypeEnv(set(), prog.enum_types, {'V': VAL, 'T': TIME}, {})


def prepare(eng):
    init(eng)
    for c in (CC, CS, CV):
        c.lemmas()


def theory(eng):
    out = SC.TIME_AX + [dcnt_0(), F_0(), outlog_0(), z3.Not(mealy(0))]
    for c in (CC, CS, CV):
        out += [c.zero(), c.store(), c.nonneg()]
    return out


class _Aspect:
    """this module restricted to some of the guarantees"""
    def __init__(self, a):
        import sys
        self.__dict__['m'] = sys.modules[__name__]
        global ASPECTS
        ASPECTS = set(a)

    def __getattr__(self, n):
        return getattr(self.m, n)


def make(a):
    return _Aspect(a)

ASSUMPTIONS = SM.COMMON + ['termination of the re-evaluation of Mealy models is not shown (a cycle is shown to raise the error, a finite acyclic network is assumed to settle)',
                           'pins of the graph form no cycle (precondition of routing, C04)',
                           'a model answers its first output call of a step with a fixed, otherwise arbitrary list']
