"""Contracts of Simulator (include/adevs/simulator.h). The schedule is used through the contracts of specs/sched.py and the graph
through those of specs/graph.py. What models and listeners are told is recorded in ghost variables by the contracts of
their virtual functions, so that "told exactly once, with this" becomes a statement about these records."""
import z3
from vc.engine import *
from vc import sorts as S
from vc.types import *
from vc.lemma import Lemma
from specs import sched as SC, graph as GR
from specs.sched import Heap
from specs.graph import G, inst

AT = REF('Atomic')
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
m_, l_, k_, x_, y_ = z3.Ints('m l k x y')
EVT = STRUCT('Event__')
LEV = LIST(EVT)
OUT, IN, ST = 1, 2, 3          # kinds of events
INT_, EXT, CONF = 1, 2, 3      # kinds of transitions


def init(eng):
    global PIN, PINS, PV, LPV, RV, LRV, OP, LOP, nopv, ENUM
    GR.init()
    PIN = STRUCT('pin_t')
    PINS = S.sort(PIN)
    PV = STRUCT('PinValue')
    S.register_struct('Event__', [('kind', INT), ('v', PV), ('t', TIME), ('n', INT)])
    LPV = LIST(PV)
    RV = PAIR(AT, PV)
    LRV = LIST(RV)
    OP = STRUCT('graph_op')
    LOP = LIST(OP)
    nopv = z3.Const('nopv', S.sort(PV))
    ENUM = eng.prog.enum_names


def gsort(n):
    A = lambda s: z3.ArraySort(I, s)
    lpv = S.sort(LPV)
    return {'tcount': A(I), 'tkind': A(I), 'te': A(R), 'tin': A(lpv), 'lastta': A(R), 'elog': A(A(S.sort(LEV))), 'applied': S.sort(LOP), 'reqs': S.sort(LOP), 'simgraph': I}[n]


class Ghosts(dict):
    def __missing__(self, n):
        return gsort(n)


# which guarantees are looked at: T transitions, C clocks, L listeners, R requests, O outputs, M Mealy outputs; a guarantee left
# out is neither proved nor used
ASPECTS = set('TCLROM')
ASPECT_OF = {}
for _a, _l in (('TL', ['exactly one transition each']),
               ('T', ['the transition that is due', 'elapsed time of an external transition', 'the input received']),
               ('C', ['clocks after a transition', 'current time', 'no model is due earlier', 'some model is due, or never', 'every model starts at time zero', 'models without transition keep their schedule']),
               ('CR', ['models that stay keep their schedule', 'models that join start now', 'models that stay are there']),
               ('CTL', ['clocks of other models']),
               ('L', ['listeners are told inputs then the change', 'inputs announced so far', 'listeners told so far']),
               ('R', ['applied so far', 'applied in order', 'every request was applied'])):
    for _x in _l:
        ASPECT_OF[_x] = set(_a)


def asp(items):
    return [i for i in items if i[0] not in ASPECT_OF or ASPECT_OF[i[0]] & ASPECTS]


def tadd(a, b):
    return UF('tadd', R, R, R)(a, b)


def tsub(a, b):
    return UF('tsub', R, R, R)(a, b)


T_eps = z3.Real('T_epsilon')


class Sim:
    def __init__(self, v, s):
        self.v, self.s = v, s
        g = lambda f: v.get('Simulator.' + f, s)
        self.graph, self.listeners, self.ext, self.active, self.orphaned, self.sched, self.tNext = g('graph'), g('listeners'), g('external_input'), g('active'), g('orphaned'), g('sched'), g('tNext')
        self.H = Heap(v, self.sched)
        self.G = G(v, self.graph)

    def member(self, m):
        return self.G.has(m)

    def a(self, f, m):
        return S.sel(self.v.f('Atomic.' + f), m)

    def tL(self, m):
        return self.a('tL', m)

    def tN(self, m):
        return self.a('tN', m)

    def ninputs(self, m):
        return S.llen(LPV, self.a('inputs', m))

    def isactive(self, m):
        return S.sel(self.active, m)

    def refs(self):
        v = self.v
        return [('objects', z3.And(self.graph > 0, self.graph < v.alloc, self.sched > 0, self.sched < v.alloc)),
                ('listeners are objects', z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < S.llen(LL, self.listeners)), S.sel(S.larr(LL, self.listeners), k_) != 0), patterns=[S.sel(S.larr(LL, self.listeners), k_)])),
                ('models are objects', z3.ForAll([m_], z3.Implies(self.member(m_), z3.And(m_ > 0, m_ < v.alloc)), patterns=[self.member(m_)]))]

    def one(self):
        """no model is in the schedule of another simulator"""
        return ('models are in no other schedule', z3.ForAll([m_], z3.Or(self.H.qi(m_) == 0, self.H.mem(m_)), patterns=[self.H.qi(m_)]))

    def sched_inv(self, but=None):
        c = [m_ != but] if but is not None else []
        H = self.H
        return [('schedule well formed: ' + n, e) for n, e in H.inv()] + [self.one()] + [
            ('only models of the simulation are scheduled, each at its time', z3.ForAll([m_], z3.Implies(z3.And(H.mem(m_), *c), z3.And(self.member(m_), H.pr(m_) == self.tN(m_))), patterns=[H.qi(m_)])),
            ('every model that is due is scheduled', z3.ForAll([m_], z3.Implies(z3.And(self.member(m_), self.tN(m_) < SC.T_inf, *c), H.mem(m_)), patterns=[self.member(m_), H.qi(m_)]))]

    def inv(self):
        """between the steps"""
        return self.refs() + self.sched_inv() + [('graph well formed: ' + n, e) for n, e in self.G.wf()] + [('requests are queued', self.G.prov)]

    def next_time(self):
        H = self.H
        return [('no model is due earlier', z3.ForAll([m_], z3.Implies(self.member(m_), self.tNext <= self.tN(m_)), patterns=[self.member(m_)])),
                ('some model is due, or never', z3.Or(self.tNext == SC.T_inf, z3.Exists([m_], z3.And(self.member(m_), self.tN(m_) == self.tNext))))]


def append(lt, l, e):
    return S.mk(lt, z3.Store(S.larr(lt, l), S.llen(lt, l), e), S.llen(lt, l) + 1)


def lpos(lst, l):
    """position of listener l in the list of listeners"""
    return z3.Function('listener_pos', lst.sort(), I, I)(lst, l)


LL = LIST(REF('EventListener'))


def isL(lst, l):
    p = lpos(lst, l)
    return z3.And(p >= 0, p < S.llen(LL, lst), S.sel(S.larr(LL, lst), p) == l)


def distinct(lst):
    e = S.sel(S.larr(LL, lst), k_)
    return z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < S.llen(LL, lst)), lpos(lst, e) == k_), patterns=[e])


def inlog(base, inputs, i, t, n):
    """log `base` followed by the announcements of the first i inputs"""
    return z3.Function('inputs_announced', base.sort(), inputs.sort(), I, R, I, base.sort())(base, inputs, i, t, n)


def steps(L, lst, i, t, n):
    """definition of inlog at 0 and at i+1"""
    b = z3.Const('b', S.sort(LEV))
    L.eng.assume(z3.ForAll([b], inlog(b, lst, z3.IntVal(0), t, n) == b, patterns=[inlog(b, lst, z3.IntVal(0), t, n)]))
    L.eng.assume(z3.Implies(i >= 0, z3.ForAll([b], inlog(b, lst, i + 1, t, n) == append(LEV, inlog(b, lst, i, t, n), S.mk(EVT, z3.IntVal(IN), S.sel(S.larr(LPV, lst), i), t, n)), patterns=[inlog(b, lst, i + 1, t, n)])))


def inlog_0():
    b, i, t, n = z3.Const('b', S.sort(LEV)), z3.Const('i', S.sort(LPV)), z3.Real('t'), z3.Int('n')
    e = inlog(b, i, z3.IntVal(0), t, n)
    return z3.ForAll([b, i, t, n], e == b, patterns=[e])


def ref_of(it):
    """the model whose list the iterator ranges over"""
    r = it.lv.root
    if r[0] != 'field' or it.lv.path:
        raise SpecMismatch('not a field of a model')
    return r[3]


def acts(s, m):
    """model m has input or an event due"""
    return z3.Or(s.ninputs(m) != 0, s.tN(m) == s.tNext)


def clock_set(v, s, m, t):
    """the clocks of m are those of a model whose last event was at t and whose time advance is what it last answered"""
    dt = z3.Select(v.g('lastta'), m)
    return z3.And(s.tL(m) == t, dt >= SC.T_zero, s.tN(m) == z3.If(dt == SC.T_inf, SC.T_inf, tadd(t, dt)))


# ---- queued requests
def opk(ops, k):
    return S.sel(S.larr(LOP, ops), k)


def instAt(g, ops, k, m):
    """instances of model m after the first k requests"""
    return z3.Function('instances_after', g.IC.sort(), ops.sort(), I, I, I)(g.IC, ops, k, m)


def gone(g, ops, k, m):
    """model m has left the graph at some point of the first k requests"""
    return z3.Function('left_within', g.IC.sort(), ops.sort(), I, I, B)(g.IC, ops, k, m)


def op_steps(L, g, ops, k):
    o = opk(ops, k)
    e = L.eng.prog.enum_names
    hit = S.fld(OP, 'model', o) == m_
    op = S.fld(OP, 'op', o)
    i0, i1 = instAt(g, ops, k, m_), instAt(g, ops, k + 1, m_)
    L.eng.assume(no_ops(g, ops))
    L.eng.assume(z3.Implies(k >= 0, z3.ForAll([m_], i1 == i0 + z3.If(z3.And(hit, op == e['ADD_ATOMIC']), 1, z3.If(z3.And(hit, op == e['REMOVE_ATOMIC']), -1, 0)), patterns=[i1])))
    L.eng.assume(z3.Implies(k >= 0, z3.ForAll([m_], gone(g, ops, k + 1, m_) == z3.Or(gone(g, ops, k, m_), z3.And(hit, op == e['REMOVE_ATOMIC'], i1 == 0)), patterns=[gone(g, ops, k + 1, m_)])))


def no_ops(g, ops=None):
    r = z3.Const('r', S.sort(LOP)) if ops is None else ops
    i, w = instAt(g, r, z3.IntVal(0), m_), gone(g, r, z3.IntVal(0), m_)
    vs = [m_] if ops is not None else [r, m_]
    return z3.And(z3.ForAll(vs, i == g.inst(m_), patterns=[i]), z3.ForAll(vs, z3.Not(w), patterns=[w]))


def valid(g, ops, v):
    """added models are objects, removed models are there to be removed"""
    e = ENUM
    o = opk(ops, k_)
    op, m = S.fld(OP, 'op', o), S.fld(OP, 'model', o)
    return z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < S.llen(LOP, ops)), z3.And(z3.Implies(op == e['ADD_ATOMIC'], z3.And(m > 0, m < v.alloc)), op_range(op),
                                                                                    z3.Implies(op == e['REMOVE_ATOMIC'], instAt(g, ops, k_, m) >= 1))), patterns=[o])


OPS = ('ADD_ATOMIC', 'REMOVE_ATOMIC', 'REMOVE_PIN', 'CONNECT_PIN_TO_PIN', 'DISCONNECT_PIN_FROM_PIN', 'CONNECT_PIN_TO_ATOMIC', 'DISCONNECT_PIN_FROM_ATOMIC')


def op_range(op):
    return z3.Or(*[op == ENUM[n] for n in OPS])


def sameop(eng, a, b):
    """same kind of request with the same pins and model"""
    op = S.fld(OP, 'op', a)
    pin = lambda x, i: S.sel(S.fld(OP, 'pin', x), i)
    isin = lambda *n: z3.Or(*[op == ENUM[x] for x in n])
    return z3.And(op == S.fld(OP, 'op', b),
                  z3.Implies(z3.Not(isin('ADD_ATOMIC', 'REMOVE_ATOMIC')), pin(a, 0) == pin(b, 0)),
                  z3.Implies(isin('CONNECT_PIN_TO_PIN', 'DISCONNECT_PIN_FROM_PIN'), pin(a, 1) == pin(b, 1)),
                  z3.Implies(isin('ADD_ATOMIC', 'REMOVE_ATOMIC', 'CONNECT_PIN_TO_ATOMIC', 'DISCONNECT_PIN_FROM_ATOMIC'), S.fld(OP, 'model', a) == S.fld(OP, 'model', b)))


def build(reg):
    own = {}
    SC.build(lambda c: own.__setitem__(c.key, c))
    GR_c = {}
    GR.build(lambda c: GR_c.__setitem__(c.key, c))
    for k in ('Schedule::Schedule(unsignedint)', 'Schedule::schedule(Atomic*,T)', 'Schedule::minPriority()', 'Schedule::visitImminent()', 'Schedule::empty()', 'Schedule::getMinimum()', 'Schedule::getSize()'):
        c = own[k]
        if k.startswith('Schedule::schedule'):
            reg(Contract(k, lambda C, c=c: [r for r in c.requires(C) if r[0] != 'room'], c.ensures, c.modifies, trusted=True, note='verified under C01; fewer than 2^29 models'))
            continue
        reg(Contract(k, c.requires, c.ensures, c.modifies, trusted=True, note='verified under C01/C02'))
    SCHED_MODS = own['Schedule::schedule(Atomic*,T)'].modifies

    # ---- the virtual functions of models and listeners
    def upd(C, g, m, v):
        return C.post.g(g) == z3.Store(C.pre.g(g), m, v)

    def quiet(C):
        """what user code may change while a step is computed: it may queue requests"""
        return ['Graph.pending', 'ghost:reqs', 'alloc', 'static:pin_t::atom']

    def reqs_ok(C):
        return []

    def transition(kind, has_e, has_in):
        def ens(C):
            i = 0
            out = [upd(C, 'tcount', C.this, z3.Select(C.pre.g('tcount'), C.this) + 1), upd(C, 'tkind', C.this, z3.IntVal(kind))]
            if has_e:
                out.append(upd(C, 'te', C.this, C.a(0)))
                i = 1
            if has_in:
                out.append(upd(C, 'tin', C.this, C.a(i)))
            return [('recorded', z3.And(*out))] + user_ens(C)
        return ens

    def user_ens(C):
        g = C.pre.g('simgraph')
        # requests are queued with the graph of the simulation (it is provisional); they make sense
        return [('requests', C.post.f('Graph.pending') == z3.Store(C.pre.f('Graph.pending'), g, C.post.g('reqs'))), ('requests make sense', valid(G(C.post, g), C.post.g('reqs'), C.post))]
    for nm, kind, e, i in (('delta_int()', INT_, False, False), ('delta_ext(T,list)', EXT, True, True), ('delta_conf(list)', CONF, False, True)):
        reg(Contract('Atomic::' + nm, lambda C: [], transition(kind, e, i), lambda C, e=e, i=i: ['ghost:tcount', 'ghost:tkind'] + (['ghost:te'] if e else []) + (['ghost:tin'] if i else []) + quiet(C),
                     trusted=True, note='user code: records the call; may queue graph requests'))
    reg(Contract('Atomic::ta()', lambda C: [], lambda C: [('recorded', upd(C, 'lastta', C.this, C.ret))], ('ghost:lastta',), trusted=True, note='user code: records the answer'))

    # ---- schedule
    def sc_req(C):
        s = Sim(C.pre, C.this)
        m, t = C.a(0), C.a(1)
        return [('schedule well formed: ' + n, e) for n, e in s.H.inv()] + [
            ('objects', z3.And(s.sched > 0, s.sched < C.pre.alloc)), ('model', z3.And(m > 0, m < C.pre.alloc)),
            ('the model is in no other schedule', z3.Or(s.H.qi(m) == 0, s.H.mem(m))), ('no negative time', t >= SC.T_zero)]

    def sc_ens(C):
        a, b = Sim(C.pre, C.this), Sim(C.post, C.this)
        m, t = C.a(0), C.a(1)
        dt = z3.Select(C.post.g('lastta'), m)
        f0, f1 = C.pre.g('lastta'), C.post.g('lastta')
        return [('schedule well formed: ' + n, e) for n, e in b.H.inv()] + [
            ('time advance asked', f1 == z3.Store(f0, m, z3.Select(f1, m))),
            ('not negative', dt >= SC.T_zero),
            ('last event now', b.tL(m) == t),
            ('never due', z3.Implies(dt == SC.T_inf, b.tN(m) == SC.T_inf)),
            ('due after the time advance', z3.Implies(dt != SC.T_inf, b.tN(m) == tadd(t, dt))),
            ('scheduled when due', z3.Implies(b.tN(m) < SC.T_inf, z3.And(b.H.mem(m), b.H.pr(m) == b.tN(m)))),
            ('not scheduled when never due', z3.Implies(z3.Not(b.tN(m) < SC.T_inf), b.H.qi(m) == 0)),
            ('size', b.H.size <= a.H.size + z3.If(a.H.qi(m) == 0, 1, 0)),
            ] + own_others(C, a.H, b.H, m)

    def own_others(C, a, b, m):
        c = [x_ != m]
        return [('every other model stays scheduled at its time', z3.ForAll([x_], z3.Implies(z3.And(a.mem(x_), *c), z3.And(b.mem(x_), b.pr(x_) == a.pr(x_))), patterns=[a.qi(x_), b.qi(x_)])),
                ('no other model becomes scheduled', z3.ForAll([x_], z3.Implies(z3.And(b.mem(x_), *c), a.mem(x_)), patterns=[b.qi(x_)])),
                ('models outside the schedule untouched', z3.ForAll([x_], z3.Implies(z3.And(z3.Not(a.mem(x_)), *c), b.qi(x_) == a.qi(x_)), patterns=[b.qi(x_)]))]

    def sched_mods(C):
        class D:
            pass
        d = D()
        d.pre, d.this = C.pre, Sim(C.pre, C.this).sched
        return SCHED_MODS(d)

    def sc_throw(C):
        m = C.a(0)
        f0, f1 = C.pre.g('lastta'), C.post.g('lastta')
        o = [('only for a negative time advance', z3.Select(f1, m) < SC.T_zero)]
        if getattr(C, 'thrown', None) is not None:
            o.append(('the error names the model', S.fld(C.thrown.ty, 'model', C.thrown.t) == m))
        return o
    reg(Contract('Simulator::schedule(Atomic*,T)', sc_req, sc_ens, lambda C: [('Atomic.tL', [C.a(0)]), ('Atomic.tN', [C.a(0)]), 'ghost:lastta'] + sched_mods(C),
                 may_throw=True, ensures_throw=sc_throw))

    # ---- the graph: effects as verified with Graph, and a record of what was applied
    for nm, kind, pins, model in (('connect(pin_t,pin_t)', 'CONNECT_PIN_TO_PIN', [0, 1], None), ('disconnect(pin_t,pin_t)', 'DISCONNECT_PIN_FROM_PIN', [0, 1], None),
                                  ('connect(pin_t,Atomic*)', 'CONNECT_PIN_TO_ATOMIC', [0], 1), ('disconnect(pin_t,Atomic*)', 'DISCONNECT_PIN_FROM_ATOMIC', [0], 1),
                                  ('add_atomic(Atomic*)', 'ADD_ATOMIC', [], 0), ('remove_atomic(Atomic*)', 'REMOVE_ATOMIC', [], 0), ('remove_pin(pin_t)', 'REMOVE_PIN', [0], None)):
        c = GR_c['Graph::%s#immediate' % nm]

        def ens(C, c=c, kind=kind, pins=pins, model=model):
            a, b = C.pre.g('applied'), C.post.g('applied')
            n = S.llen(LOP, a)
            o = S.sel(S.larr(LOP, b), n)
            rec = [S.llen(LOP, b) == n + 1, S.fld(OP, 'op', o) == C.eng.prog.enum_names[kind]] + [S.sel(S.fld(OP, 'pin', o), i) == C.a(p) for i, p in enumerate(pins)] + \
                ([S.fld(OP, 'model', o) == C.a(model)] if model is not None else [])
            return c.ensures(C) + [('recorded', z3.And(*rec)), ('earlier records', GR.same_list_at(LOP, a, b, n))]
        reg(Contract('Graph::' + nm, c.requires, ens, lambda C, c=c: [m for m in c.modifies(C) if m[0] != 'Graph.pending'] + ['ghost:applied'], trusted=True, note='effect verified under C03'))
    for k in ('Graph::Graph()', 'Graph::set_provisional(bool)'):
        c = GR_c[k]
        reg(Contract(k, c.requires, c.ensures, c.modifies, trusted=True, note='verified under C03'))

    # ---- listeners
    def listener(nm, kind, has_v):
        def ens(C):
            m = C.a(0)
            v = C.a(1) if has_v else nopv
            t = C.a(2 if has_v else 1)
            e0 = C.pre.g('elog')
            row = z3.Select(e0, C.this)
            ev = S.mk(EVT, z3.IntVal(kind), v, t, z3.Select(C.pre.g('tcount'), m))
            return [('recorded', C.post.g('elog') == z3.Store(e0, C.this, z3.Store(row, m, append(LEV, z3.Select(row, m), ev))))]
        reg(Contract('EventListener::' + nm, lambda C: [], ens, ('ghost:elog',), trusted=True, note='user code: records the call; assumed not to change the value or the simulation'))
    listener('outputEvent(Atomic,PinValue,T)', OUT, True)
    listener('inputEvent(Atomic,PinValue,T)', IN, True)
    listener('stateChange(Atomic,T)', ST, False)

    # ---- constructors
    def ctor_loop(L):
        it = L.it('Graph.models')
        s = Sim(L.cur, L.this)
        done = lambda m: z3.And(s.member(m), z3.Not(z3.Select(it.rem, m)))
        H = s.H
        return s.refs() + [('schedule well formed: ' + n, e) for n, e in H.inv()] + [s.one()] + [
            ('only models seen are scheduled', z3.ForAll([m_], z3.Implies(H.mem(m_), z3.And(done(m_), H.pr(m_) == s.tN(m_))), patterns=[H.qi(m_)])),
            ('models seen are scheduled', z3.ForAll([m_], z3.Implies(done(m_), z3.And(clock_set(L.cur, s, m_, SC.T_zero), z3.Implies(s.tN(m_) < SC.T_inf, H.mem(m_)))), patterns=[s.member(m_), H.qi(m_)]))]

    def unused(v):
        return ('no model is scheduled anywhere', z3.ForAll([m_], S.sel(v.f('Atomic.q_index'), m_) == 0, patterns=[S.sel(v.f('Atomic.q_index'), m_)]))

    def models_ok(g, v):
        return ('models are objects', z3.ForAll([m_], z3.Implies(g.has(m_), z3.And(m_ > 0, m_ < v.alloc)), patterns=[g.has(m_)]))

    def start_ens(C):
        b = Sim(C.post, C.this)
        return asp(b.inv() + b.next_time() + [('every model starts at time zero', z3.ForAll([m_], z3.Implies(b.member(m_), clock_set(C.post, b, m_, SC.T_zero)), patterns=[b.member(m_)])),
                                          ('nothing is active', z3.And(b.active == S.empty_set(SET(AT)), b.orphaned == S.empty_set(SET(AT)))), ('no inputs', S.llen(LPV, b.ext) == 0)])

    def ctor_mods(C):
        return ['Simulator.' + f for f in ('graph', 'listeners', 'external_input', 'active', 'orphaned', 'sched', 'tNext')] + \
            ['Schedule.' + f for f in ('size', 'capacity', 'heap', 'activated')] + [SC.HMEM, 'malive', 'mlen', 'alloc', 'Atomic.q_index', 'Atomic.tL', 'Atomic.tN', 'ghost:lastta', 'Graph.provisional'] + \
            ['Graph.' + f for f in ('pin_to_pin', 'pin_to_atomic', 'atomic_instance_count', 'models', 'pending')] + ['ghost:applied', 'static:pin_t::atom']
    CL = [LoopSpec(ctor_loop, name='models')]
    reg(Contract('Simulator::Simulator(Graph*)', lambda C: [unused(C.pre), models_ok(G(C.pre, C.a(0)), C.pre), ('graph', C.a(0) > 0)] + G(C.pre, C.a(0)).wf(),
                 lambda C: start_ens(C) + [('the models of the graph', Sim(C.post, C.this).G.models == G(C.pre, C.a(0)).models), ('the graph', Sim(C.post, C.this).graph == C.a(0))],
                 ctor_mods, loops=CL, may_throw=True, ensures_throw=lambda C: []))
    reg(Contract('Simulator::Simulator(Atomic*)', lambda C: [unused(C.pre), ('model', z3.And(C.a(0) > 0, C.a(0) < C.pre.alloc))],
                 lambda C: start_ens(C) + [('the model', z3.ForAll([m_], Sim(C.post, C.this).member(m_) == (m_ == C.a(0))))],
                 ctor_mods, loops=CL, may_throw=True, ensures_throw=lambda C: []))

    def asg_ens(C):
        g = G(C.post, C.a(0))
        return g.wf() + [models_ok(g, C.post), ('nothing queued', g.pend == G(C.pre, C.a(0)).pend)]
    reg(Contract('Coupled::assign_to_graph(Graph*)', lambda C: G(C.pre, C.a(0)).wf() + [('mode', z3.Not(G(C.pre, C.a(0)).prov))], asg_ens,
                 lambda C: [(f, [C.a(0)]) for f in GR.OPFIELDS] + ['Coupled.g'], trusted=True, note='what it contributes is verified under C06; each request keeps the graph well formed (C03)'))
    reg(Contract('Simulator::Simulator(Coupled*)', lambda C: [unused(C.pre), ('model', z3.And(C.a(0) > 0, C.a(0) < C.pre.alloc))], start_ens,
                 lambda C: ctor_mods(C) + ['Coupled.g'], loops=CL, may_throw=True, ensures_throw=lambda C: []))

    # ---- computing the next state
    def ns_req(C):
        s = Sim(C.pre, C.this)
        return s.inv() + [('time', z3.And(s.tNext >= SC.T_zero, T_eps >= SC.T_zero)), ('active models are models of the simulation', z3.ForAll([m_], z3.Implies(s.isactive(m_), s.member(m_)), patterns=[s.isactive(m_)])),
                          ('inputs only of active models', z3.ForAll([m_], z3.Implies(s.ninputs(m_) != 0, s.isactive(m_)), patterns=[s.a('inputs', m_)])),
                          ('listeners registered once', distinct(s.listeners)), ('the graph', C.pre.g('simgraph') == s.graph), ('requests so far', C.pre.g('reqs') == s.G.pend), ('requests make sense', valid(s.G, s.G.pend, C.pre))]

    def after(C_or_L, pre, cur, s0, done):
        """records of transitions, clocks and events when exactly the models in `done` have been handled"""
        t = tadd(s0.tNext, T_eps)
        s1 = Sim(cur, s0.s)
        act = lambda m: z3.And(done(m), acts(s0, m))
        sel = lambda v, n, m: z3.Select(v.g(n), m)
        kind = z3.If(s0.ninputs(m_) == 0, INT_, z3.If(s0.tN(m_) == s0.tNext, CONF, EXT))
        has_in = z3.And(act(m_), s0.ninputs(m_) != 0)
        keep = lambda n, c, x: z3.ForAll([m_], sel(cur, n, m_) == z3.If(c, x, sel(pre, n, m_)), patterns=[sel(cur, n, m_)])
        isl = isL(s0.listeners, l_)
        log0, log1 = (z3.Select(z3.Select(v.g('elog'), l_), m_) for v in (pre, cur))
        tc0 = sel(pre, 'tcount', m_)
        return [
            ('exactly one transition each', keep('tcount', act(m_), tc0 + 1)),
            ('the transition that is due', keep('tkind', act(m_), kind)),
            ('elapsed time of an external transition', keep('te', z3.And(act(m_), kind == EXT), tsub(s0.tNext, s0.tL(m_)))),
            ('the input received', keep('tin', has_in, s0.a('inputs', m_))),
            ('clocks after a transition', z3.ForAll([m_], z3.Implies(act(m_), clock_set(cur, s1, m_, t)), patterns=[s1.tL(m_), s1.tN(m_)])),
            ('clocks of other models', z3.ForAll([m_], z3.Implies(z3.Not(act(m_)), z3.And(s1.tL(m_) == s0.tL(m_), s1.tN(m_) == s0.tN(m_))), patterns=[s1.tL(m_), s1.tN(m_)])),
            ('listeners are told inputs then the change', z3.ForAll([l_, m_], log1 == z3.If(z3.And(act(m_), isl), append(LEV, inlog(log0, s0.a('inputs', m_), S.llen(LPV, s0.a('inputs', m_)), s0.tNext, tc0), S.mk(EVT, z3.IntVal(ST), nopv, s0.tNext, tc0 + 1)), log0),
                                                                                     patterns=[log1]))]

    def inputs_after(s0, s1, done):
        act = z3.And(done(m_), acts(s0, m_))
        return [('inputs used up', z3.ForAll([m_], z3.Implies(act, s1.ninputs(m_) == 0), patterns=[s1.a('inputs', m_)])),
                ('inputs of other models', z3.ForAll([m_], z3.Implies(z3.Not(act), s1.a('inputs', m_) == s0.a('inputs', m_)), patterns=[s1.a('inputs', m_)]))]

    def ns_models(L):
        it = L.it('Simulator.active')
        if not ('delta_int' in L.calls):
            raise SpecMismatch('not the loop over active models')
        s0, s1 = Sim(L.fnpre, L.this), Sim(L.cur, L.this)
        done = lambda m: z3.And(s0.isactive(m), z3.Not(z3.Select(it.rem, m)))
        return asp(s1.inv() + after(L, L.fnpre, L.cur, s0, done) + inputs_after(s0, s1, done) + [
            ('requests', z3.And(L.cur.g('reqs') == s1.G.pend, valid(s1.G, s1.G.pend, L.cur)))])

    def ns_inputs(L):
        it = L.it('Atomic.inputs')
        if 'inputEvent' not in L.calls:
            raise SpecMismatch('')
        m = ref_of(it)
        lst = L.cont(it)
        s = Sim(L.cur, L.this)
        n = z3.Select(L.cur.g('tcount'), m)
        steps(L, lst, it.pos, s.tNext, n)
        e0, e1 = (z3.Select(z3.Select(v.g('elog'), l_), m_) for v in (L.entry, L.cur))
        return asp([('inputs announced so far', z3.ForAll([l_, m_], e1 == z3.If(z3.And(m_ == m, isL(s.listeners, l_)), inlog(e0, lst, it.pos, s.tNext, n), e0), patterns=[e1]))])

    def ev_loop(call, kind, cont):
        def inv(L):
            it = L.it('Simulator.listeners')
            if call not in L.calls:
                raise SpecMismatch('')
            s = Sim(L.cur, L.this)
            if cont is not None:
                o = L.outer(cont)
                m = ref_of(o)
                v = S.sel(S.larr(LPV, L.cont(o)), o.pos)
            else:
                m = L.outer('Simulator.active').key
                v = nopv
            ev = S.mk(EVT, z3.IntVal(kind), v, s.tNext, z3.Select(L.cur.g('tcount'), m))
            e0, e1 = (z3.Select(z3.Select(w.g('elog'), l_), m_) for w in (L.entry, L.cur))
            return asp([('listeners told so far', z3.ForAll([l_, m_], e1 == z3.If(z3.And(m_ == m, isL(s.listeners, l_), lpos(s.listeners, l_) < it.pos), append(LEV, e0, ev), e0), patterns=[e1]))])
        return LoopSpec(inv, name='listeners (%s)' % call)

    def ns_pending(L):
        if 'remove_atomic' not in L.calls or ('field', 'Graph', 'pending') not in L.mod:
            raise SpecMismatch('')
        s0, s1 = Sim(L.entry, L.this), Sim(L.cur, L.this)
        reqs = L.cur.g('reqs')
        k = S.llen(LOP, reqs) - S.llen(LOP, s1.G.pend)
        op_steps(L, s0.G, reqs, k)
        L.eng.facts(s1.G.pend, LOP)
        L.eng.facts(L.entry.g('applied'), LOP)
        t = tadd(s0.tNext, T_eps)
        ap0, ap1 = L.entry.g('applied'), L.cur.g('applied')
        n0 = S.llen(LOP, ap0)
        e1 = S.sel(S.larr(LOP, ap1), k_)
        stays = lambda m: z3.And(s0.member(m), z3.Not(gone(s0.G, reqs, k, m)))
        same = lambda m: z3.And(s1.tL(m) == s0.tL(m), s1.tN(m) == s0.tN(m), z3.Select(L.cur.g('lastta'), m) == z3.Select(L.entry.g('lastta'), m))
        return asp([i for i in s1.inv() if i[0] != 'requests are queued'] + [
            ('not queued', z3.Not(s1.G.prov)), ('requests done', z3.And(k >= 0, k <= S.llen(LOP, reqs))),
            ('requests left', z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < S.llen(LOP, s1.G.pend)), S.sel(S.larr(LOP, s1.G.pend), k_) == S.sel(S.larr(LOP, reqs), k + k_)), patterns=[S.sel(S.larr(LOP, s1.G.pend), k_)])),
            ('applied so far', z3.And(S.llen(LOP, ap1) == n0 + k, GR.same_list_at(LOP, ap0, ap1, n0))),
            ('applied in order', z3.ForAll([k_], z3.Implies(z3.And(k_ >= n0, k_ < n0 + k), sameop(L.eng, e1, S.sel(S.larr(LOP, reqs), k_ - n0))), patterns=[e1])),
            ('instances of each model', z3.ForAll([m_], s1.G.inst(m_) == instAt(s0.G, reqs, k, m_), patterns=[s1.member(m_)])),
            ('models that stay keep their schedule', z3.ForAll([m_], z3.Implies(stays(m_), z3.And(s1.member(m_), same(m_))), patterns=[s1.member(m_), s1.tL(m_), s1.tN(m_), z3.Select(L.cur.g('lastta'), m_)])),
            ('models that join start now', z3.ForAll([m_], z3.Implies(z3.And(s1.member(m_), z3.Not(stays(m_))), clock_set(L.cur, s1, m_, t)), patterns=[s1.member(m_), s1.tL(m_), s1.tN(m_)])),
            ('others', z3.And(s1.graph == s0.graph, s1.sched == s0.sched))])

    def ns_dec(L):
        return S.llen(LOP, Sim(L.cur, L.this).G.pend)

    def ns_ens(C):
        s0, s1 = Sim(C.pre, C.this), Sim(C.post, C.this)
        done = lambda m: s0.isactive(m)
        reqs = C.post.g('reqs')
        n = S.llen(LOP, reqs)
        stays = z3.And(s0.member(m_), z3.Not(gone(s0.G, reqs, n, m_)))
        a = after(C, C.pre, C.post, s0, done)
        ap0, ap1 = C.pre.g('applied'), C.post.g('applied')
        n0 = S.llen(LOP, ap0)
        e1 = S.sel(S.larr(LOP, ap1), k_)
        t = tadd(s0.tNext, T_eps)
        return asp([x for x in a if not x[0].startswith('clocks')] + inputs_after(s0, s1, done) + s1.inv() + s1.next_time() + [
            ('current time', C.ret == t),
            ('nothing is active', s1.active == S.empty_set(SET(AT))),
            ('no input is left', z3.ForAll([m_], s1.ninputs(m_) == 0, patterns=[s1.a('inputs', m_)])),
            ('requests are queued', z3.And(C.post.g('reqs') == reqs, s1.G.prov)),
            ('clocks after a transition', z3.ForAll([m_], z3.Implies(z3.And(stays, done(m_), acts(s0, m_)), clock_set(C.post, s1, m_, t)), patterns=[s1.member(m_), s1.tN(m_)])),
            ('models without transition keep their schedule', z3.ForAll([m_], z3.Implies(z3.And(stays, z3.Not(z3.And(done(m_), acts(s0, m_)))), z3.And(s1.tL(m_) == s0.tL(m_), s1.tN(m_) == s0.tN(m_))), patterns=[s1.member(m_), s1.tN(m_)])),
            ('models that stay are there', z3.ForAll([m_], z3.Implies(stays, s1.member(m_)), patterns=[s1.member(m_)])),
            ('models that join start now', z3.ForAll([m_], z3.Implies(z3.And(s1.member(m_), z3.Not(stays)), clock_set(C.post, s1, m_, t)), patterns=[s1.member(m_)])),
            ('instances of each model', z3.ForAll([m_], s1.G.inst(m_) == instAt(s0.G, reqs, n, m_), patterns=[s1.member(m_)])),
            ('every request was applied', z3.And(S.llen(LOP, s1.G.pend) == 0, S.llen(LOP, ap1) == n0 + n, GR.same_list_at(LOP, ap0, ap1, n0))),
            ('applied in order', z3.ForAll([k_], z3.Implies(z3.And(k_ >= n0, k_ < n0 + n), sameop(C.eng, e1, S.sel(S.larr(LOP, reqs), k_ - n0))), patterns=[e1]))])

    def ns_mods(C):
        s = Sim(C.pre, C.this)
        return [('Simulator.active', [C.this]), ('Simulator.tNext', [C.this])] + ['Schedule.' + f for f in ('size', 'capacity', 'heap')] + [SC.HMEM, 'malive', 'mlen', 'alloc', 'Atomic.q_index', 'Atomic.tL', 'Atomic.tN', 'Atomic.inputs',
            'ghost:lastta', 'static:pin_t::atom', 'ghost:tcount', 'ghost:tkind', 'ghost:te', 'ghost:tin', 'ghost:elog', 'ghost:applied', 'ghost:reqs'] + \
            ['Graph.' + f for f in ('pin_to_pin', 'pin_to_atomic', 'atomic_instance_count', 'models', 'pending', 'provisional')]
    reg(Contract('Simulator::computeNextState()', ns_req, ns_ens, ns_mods, may_throw=True, ensures_throw=lambda C: [],
                 loops=[ns_loop for ns_loop in (LoopSpec(ns_inputs, name='inputs of a model'), ev_loop('inputEvent', IN, 'Atomic.inputs'), ev_loop('stateChange', ST, None),
                                                LoopSpec(ns_models, name='active models'), LoopSpec(ns_pending, name='requests', decreases=ns_dec))],
                 setup_lemmas=lambda C: [no_ops(Sim(C.pre, C.this).G), inlog_0()]))


TARGETS = ['Simulator::schedule(Atomic*,T)', 'Simulator::Simulator(Graph*)', 'Simulator::Simulator(Atomic*)', 'Simulator::Simulator(Coupled*)', 'Simulator::computeNextState()']
DRIVER = 'core.cpp'
ENGINE = dict(entity=('Schedule', 'Graph', 'Simulator', 'Coupled'), value=('exception',), ghosts=Ghosts(), opts=dict(on_erase=GR.on_erase, on_store=GR.on_store))


def tenv(prog):
    return TypeEnv(set(), prog.enum_types, {'V': VAL, 'T': TIME}, {})


def prepare(eng):
    init(eng)
    GR.ERASE = {k: GR.erase_lemma(k) for k in 'PA'}
    GR.UPDATE = {k: GR.update_lemma(k) for k in 'PA'}


def theory(eng):
    return SC.TIME_AX + [z3.ForAll([z3.Real('a'), z3.Real('b')], z3.Implies(z3.And(z3.Real('a') >= SC.T_zero, z3.Real('b') >= SC.T_zero), tadd(z3.Real('a'), z3.Real('b')) >= SC.T_zero),
                                   patterns=[tadd(z3.Real('a'), z3.Real('b'))])]


class _Aspect:
    """this module restricted to some of the guarantees"""
    def __init__(self, a):
        import sys
        self.__dict__['m'] = sys.modules[__name__]
        global ASPECTS
        ASPECTS = set(a)

    def __getattr__(self, n):
        return getattr(self.m, n)


def make(a):
    return _Aspect(a)

COMMON = ['the user code called during a step (transitions, outputs, time advance, listeners) changes the simulation only by queueing requests to the graph',
          'a model belongs to one simulator at a time; fewer than 2^29 models; listeners are registered once each',
          'the time type is an exact total order with its zero, addition and subtraction (shown for the time types of the library under C12-C14)',
          'couplings lead to models of the graph (no null models)']
ASSUMPTIONS = COMMON + ['models that join the simulation have no pending inputs or outputs', 'requests queued during a step leave a well formed graph (each is shown to preserve it under C03)']
