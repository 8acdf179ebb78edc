"""A whole step (execNextEvent) from the contracts of its two phases, and the small functions around it. The invariant between the
steps is the precondition of the output phase: this module shows that every step re-establishes it."""
import z3
from vc.engine import *
from vc import sorts as S
from vc.types import *
from specs import sched as SC, graph as GR, simulator as SM, output as OU
from specs.graph import G
from specs.simulator import AT, I, B, R, m_, l_, k_, x_, EVT, LEV, distinct, LL, tadd, tsub, append, Sim
from specs.output import Out, Ghosts

NEXT, STATE = 'Simulator::computeNextOutput()', 'Simulator::computeNextState()'


def same_list(lt, a, b):
    return z3.And(S.llen(lt, a) == S.llen(lt, b), GR.same_list_at(lt, b, a, S.llen(lt, b)))


def build(reg):
    got = {}
    OU.ASPECTS, SM.ASPECTS = set('OE'), set('TCR')
    OU.build(lambda c: got.__setitem__(c.key, c))
    cn = got[NEXT]
    SM.build(lambda c: got.__setitem__(c.key, c))
    cs = got[STATE]

    def aspects(f):
        def g(C):
            OU.ASPECTS, SM.ASPECTS = set('OE'), set('TCR')
            return f(C)
        return g
    reg(Contract(NEXT, aspects(cn.requires), aspects(cn.ensures), cn.modifies, trusted=True, may_throw=True, enter=None, note='verified under C09, C10 and C11'))
    reg(Contract(STATE, aspects(cs.requires), aspects(cs.ensures), cs.modifies, trusted=True, may_throw=True, note='verified under C07, C08 and C22'))

    def en_req(C):
        s = Sim(C.pre, C.this)
        return aspects(cn.requires)(C) + [('time', z3.And(s.tNext >= SC.T_zero, SM.T_eps >= SC.T_zero)), ('requests are queued', s.G.prov), ('nothing is asked for while no step is made', S.llen(SM.LOP, s.G.pend) == 0)]

    def en_ens(C):
        a, b = Out(C.pre, C.this), Out(C.post, C.this)
        sel = lambda v, n, m: z3.Select(v.g(n), m)
        due = z3.And(a.member(m_), a.tN(m_) == a.tNext)
        return b.inv() + b.next_time() + [
            ('current time', C.ret == tadd(a.tNext, SM.T_eps)),
            ('every due model makes one transition', z3.ForAll([m_], z3.Implies(due, sel(C.post, 'tcount', m_) == sel(C.pre, 'tcount', m_) + 1), patterns=[sel(C.post, 'tcount', m_)])),
            ('nothing is active', b.active == S.empty_set(SET(AT))),
            ('no input is left', z3.ForAll([x_], b.nin(x_) == 0, patterns=[b.inp(x_)])),
            ('no outputs are left', z3.ForAll([x_], b.nout(x_) == 0, patterns=[b.outp(x_)])),
            ('no revisable input', z3.ForAll([x_], b.nrev(x_) == 0, patterns=[b.rev(x_)])),
            ('no receivers', z3.ForAll([m_, x_], z3.Not(b.recv(m_, x_)), patterns=[b.recv(m_, x_)])),
            ('no orphans', b.orphaned == S.empty_set(SET(AT))),
            ('every request was applied', S.llen(SM.LOP, b.G.pend) == 0)]

    def en_mods(C):
        l = []
        for m in (cn.modifies, cs.modifies):
            for x in (m(C) if callable(m) else m):
                if str(x) not in [str(y) for y in l]:
                    l.append(x)
        return l
    reg(Contract('Simulator::execNextEvent()', en_req, en_ens, en_mods, may_throw=True, ensures_throw=lambda C: []))

    f = lambda v, s, n: v.get('Simulator.' + n, s)
    reg(Contract('Simulator::nextEventTime()', lambda C: [], lambda C: [('the time of the next event', C.ret == f(C.pre, C.this, 'tNext'))], ()))
    reg(Contract('Simulator::setNextTime(T)', lambda C: [], lambda C: [('as given', f(C.post, C.this, 'tNext') == C.a(0))], lambda C: [('Simulator.tNext', [C.this])]))
    reg(Contract('Simulator::injectInput(PinValue)', lambda C: [], lambda C: [('added at the end', same_list(SM.LPV, f(C.post, C.this, 'external_input'), append(SM.LPV, f(C.pre, C.this, 'external_input'), C.a(0))))], lambda C: [('Simulator.external_input', [C.this])]))
    reg(Contract('Simulator::clearInjectedInput()', lambda C: [], lambda C: [('none is left', S.llen(SM.LPV, f(C.post, C.this, 'external_input')) == 0)], lambda C: [('Simulator.external_input', [C.this])]))
    reg(Contract('Simulator::addEventListener(EventListener*)', lambda C: [], lambda C: [('added at the end', same_list(LL, f(C.post, C.this, 'listeners'), append(LL, f(C.pre, C.this, 'listeners'), C.a(0))))], lambda C: [('Simulator.listeners', [C.this])]))


TARGETS = ['Simulator::execNextEvent()', 'Simulator::nextEventTime()', 'Simulator::setNextTime(T)', 'Simulator::injectInput(PinValue)', 'Simulator::clearInjectedInput()', 'Simulator::addEventListener(EventListener*)']
DRIVER = 'core.cpp'
ENGINE = dict(entity=('Schedule', 'Graph', 'Simulator', 'Coupled'), value=('exception',), ghosts=Ghosts())


def tenv(prog):
    return TypeEnv(set(), prog.enum_types, {'V': VAL, 'T': TIME}, {})


def prepare(eng):
    OU.init(eng)
    GR.ERASE = {k: GR.erase_lemma(k) for k in 'PA'}
    GR.UPDATE = {k: GR.update_lemma(k) for k in 'PA'}


def theory(eng):
    return SM.theory(eng) + [z3.Not(OU.mealy(0))]

ASSUMPTIONS = SM.COMMON
