"""Building the verification conditions of a component and discharging them."""
import sys, os, time, importlib, traceback
import z3
from . import engine as E, sorts as S, solve, lemma
from .frontend import Program, ExtractionError
from .types import *

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Result:
    pass


def generate(spec, only=None, prog=None, verbose=False):
    """spec: module with DRIVER, TARGETS, build(reg), tenv/engine options. Returns Result with tasks"""
    r = Result()
    r.t0 = time.time()
    r.problems, r.tasks, r.funcs, r.stats = [], [], [], {}
    contracts = {}

    def reg(c):
        contracts[c.key] = c
    spec.build(reg)
    r.contracts = contracts
    if prog is None:
        prog = Program(os.path.join(ROOT, 'drivers', spec.DRIVER), **getattr(spec, 'PROG', {}))
    S.reset()
    E.Engine._fty = {}
    E.Engine.static_ty = {}
    te = spec.tenv(prog)
    eng = E.Engine(prog, te, contracts, **spec.ENGINE)
    if hasattr(spec, 'prepare'):
        spec.prepare(eng)
    r.eng = eng
    theory = tuple(spec.theory(eng) if callable(getattr(spec, 'theory', None)) else ())
    lemma.USED.clear()
    for key in spec.TARGETS:
        if only and not any(o in key for o in only):
            continue
        con = contracts[key]
        t1 = time.time()
        try:
            fn = spec.find(prog, key) if hasattr(spec, 'find') else find(prog, key)
            eng.entry_covered = False
            n0 = len(eng.obls)
            nu = len(eng.unmatched_loops)
            st = eng.verify(fn, con)
            st['secs'] = time.time() - t1
            r.stats[key] = st
            r.funcs.append(key)
            if len(eng.unmatched_loops) > nu:
                r.problems.append((key, 'loop without invariant: %s' % (eng.unmatched_loops[nu:],)))
        except (Unsupported, ExtractionError, E.SpecMismatch, KeyError, ValueError, AttributeError, TypeError, z3.Z3Exception, IndexError, AssertionError, RecursionError) as e:
            del eng.obls[n0:]
            r.problems.append((key, '%s: %s' % (type(e).__name__, e)))
            r.funcs.append(key)
            if verbose:
                traceback.print_exc()
    seen = set()
    for o in eng.obls:
        extra = tuple(contracts[o.fn].theory(eng) if callable(contracts[o.fn].theory) else contracts[o.fn].theory)
        for i, g in enumerate(solve.conjuncts(o.goal)):
            k = (g.get_id(), tuple(f.get_id() for f in o.pc), o.name, o.fn)
            if k in seen:
                continue
            seen.add(k)
            r.tasks.append(solve.Task(o.name, o.fn, o.pc, g, theory + extra, o.kind))
            r.tasks[-1].ground_first = bool(eng.opts.get('numeric'))
    byfn = {}
    for key, what, pc in eng.covers:
        byfn.setdefault((key, what), []).append(pc)
    r.covers = []
    for (key, what), l in byfn.items():
        for pc in l[:3]:
            r.covers.append(solve.Task('%s' % what, key, pc, None, theory, 'cover', 'sat'))
    r.lemmas = []
    for l in list(lemma.USED.values()):
        r.lemmas += l.tasks()
    r.gensecs = time.time() - r.t0
    return r


def find(prog, key):
    key = key.split('#')[0]
    c = prog.fns.get(key)
    if not c:
        raise ExtractionError('function %s not found' % key)
    return c[0]


def load_spec(name):
    if ':' in name:
        m, a = name.split(':', 1)
        return importlib.import_module('specs.' + m).make(a)
    return importlib.import_module('specs.' + name)


def main():
    name = sys.argv[1]
    only = sys.argv[2:]
    spec = load_spec(name)
    r = generate(spec, only, verbose=True)
    print('generated in %.1fs: %d obligations, %d lemma VCs' % (r.gensecs, len(r.tasks), len(r.lemmas)))
    for k, st in r.stats.items():
        print('   ', k, st)
    for p in r.problems:
        print('PROBLEM', p)
    t = time.time()
    allt = r.tasks + r.lemmas + r.covers
    solve.discharge(allt, verbose=True)
    bad = [x for x in allt if x.status not in ('proved', 'ok')]
    by = {}
    for x in allt:
        by[x.backend] = by.get(x.backend, 0) + 1
    print('discharged in %.1fs: %d ok, %d not' % (time.time() - t, len(allt) - len(bad), len(bad)), by)
    slow = sorted(allt, key=lambda x: -x.secs)[:5]
    for x in slow:
        print('   slow %.1f %s %s %s' % (x.secs, x.backend, x.fn, x.name))


if __name__ == '__main__':
    sys.path.insert(0, ROOT)
    main()
