#!/usr/bin/env python3-vt
"""check of one property: generate the obligations from /repo's current source, discharge them, replay failures."""
import sys, os, re, time, json, pickle, subprocess, tempfile, shutil, importlib, hashlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
REPO = os.environ.get('ADEVS_REPO', '/repo')
from vc import run as R, solve
from vc.frontend import Program, ExtractionError
from checks.props import P

TRUSTED_BASE = [
    'the verification-condition generator in /verif/vc (symbolic execution of clang 18\'s AST of /repo\'s current source)',
    'clang 18 front end (parsing, overload resolution, template instantiation)', 'z3 5.x, z3 4.8.12, cvc5 1.1.2',
    'models of std::list, vector, set, map, shared_ptr and iterators (value semantics, allocation never fails, no iterator invalidation beyond the erased element)',
]


def replay(prop, cfg, secs, tmp, why):
    """runs the replay program; returns ('found'|'none'|'unavailable', text, cases)"""
    name = cfg.get('replay')
    if not name:
        return 'unavailable', 'no replay program for this property', 0
    exe = os.path.join(tmp, name)
    src = os.path.join(ROOT, 'replay', name + '.cpp')
    flags = []
    for l in open(src):
        if l.startswith('// flags:'):
            flags = l[9:].split()
    flags = [f.replace('$REPO', REPO).replace('$ROOT', ROOT) for f in flags]
    cmd = ['g++', '-std=c++17', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-I' + REPO + '/include', '-I' + ROOT + '/replay', src]
    if '-nolib' in flags:
        flags.remove('-nolib')
    else:
        cmd.append(REPO + '/src/adevs.cpp')
    cmd += flags + ['-o', exe]
    c = subprocess.run(cmd, capture_output=True, text=True, cwd=tmp)
    if c.returncode:
        return 'unavailable', 'replay program does not compile:\n' + c.stderr[:3000], 0
    out = os.path.join(tmp, 'fail.txt')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:abort_on_error=1:allocator_may_return_null=1' % cfg.get('leaks', 0), UBSAN_OPTIONS='print_stacktrace=1:abort_on_error=1')
    try:
        p = subprocess.run([exe, prop, os.environ.get('VERIF_SEED', '1'), str(secs), out], capture_output=True, text=True, timeout=secs * 3 + 120, env=env, cwd=tmp, errors='replace')
    except subprocess.TimeoutExpired:
        return 'none', 'replay program ran out of time', 0
    cases = 0
    for l in p.stdout.split('\n'):
        if l.startswith('CASES '):
            cases = int(l.split()[1])
    if p.returncode == 0:
        return 'none', p.stdout[-500:], cases
    txt = open(out).read() if os.path.exists(out) else p.stdout[-2000:]
    return 'found', 'command: %s\n%s\n%s' % (' '.join(cmd), txt, p.stderr[-3000:]), cases


class T:
    """result of one obligation"""
    def __init__(self, tup):
        self.fn, self.name, self.mode, self.status, self.backend, self.secs, self.detail = tup


def in_child(f, *args):
    """runs f in a forked process (each group gets its own solver context)"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            res = f(*args)
        except BaseException as e:
            res = '%s: %s' % (type(e).__name__, e)
        with os.fdopen(w, 'wb') as o:
            pickle.dump(res, o)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as i:
        try:
            res = pickle.load(i)
        except EOFError:
            res = 'generator process ended without a result'
    os.waitpid(pid, 0)
    if isinstance(res, dict):
        res['tasks'] = [T(x) for x in res['tasks']]
    return res


def group(mod, keys, tier, left, known=()):
    t0 = time.time()
    spec = R.load_spec(mod)
    saved = list(spec.TARGETS)
    if keys is not None:
        spec.TARGETS = [k for k in saved if any(k == q or (q.startswith('re:') and re.match(q[3:], k)) for q in keys)]
        missing = [q for q in keys if not any(k == q or (q.startswith('re:') and re.match(q[3:], k)) for k in saved)]
        assert not missing, missing
    prog = Program(os.path.join(ROOT, 'drivers', spec.DRIVER), **getattr(spec, 'PROG', {}))
    r = R.generate(spec, prog=prog)
    tasks = r.tasks + r.lemmas + r.covers
    for t in tasks:
        if '%s: %s' % (t.fn, t.name) in known:
            t.effort = 0.1
    gen = time.time() - t0
    solve.discharge(tasks, budget=max(20, left - gen), scale=1.0 if tier == 'quick' else 3.0)
    assumed = []
    for k in r.eng.called:
        c = r.contracts.get(k)
        if c is not None and (c.trusted or not any(x.split('#')[0] == k for x in saved)):
            assumed.append('%s: contract assumed%s' % (k, ' (%s)' % c.note if c.note else ''))
    tag = mod.split(':')[1] + ': ' if ':' in mod else ''
    return dict(tasks=[(tag + t.fn, t.name, t.mode, t.status, t.backend, t.secs, t.detail) for t in tasks], problems=[(tag + str(a), str(b)) for a, b in r.problems],
                funcs=[tag + f for f in r.funcs], inlined=sorted(r.eng.inlined), called=sorted(r.eng.called), assumed=assumed, notes=list(getattr(spec, 'ASSUMPTIONS', [])), gen=gen)


def main():
    prop = sys.argv[1]
    cfg = P[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='adevs_%s_' % prop)
    try:
        return check(prop, cfg, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, cfg, tier, seed, t0, tmp):
    tasks, problems, funcs, inlined, assumed, called, notes = [], [], [], set(), [], set(), []
    gen = 0.0
    deadline = time.time() + (500 if tier == 'quick' else 3000)
    known = load_known(prop)
    for mod, keys in cfg['groups']:
        r = in_child(group, mod, keys, tier, deadline - time.time(), set(known))
        if isinstance(r, str):
            problems.append((mod, 'extraction: ' + r))
            continue
        tasks += r['tasks']
        problems += r['problems']
        funcs += r['funcs']
        inlined |= set(r['inlined'])
        called |= set(r['called'])
        assumed += r['assumed']
        notes += r['notes']
        gen += r['gen']
    unfit = {p[0] for p in problems}
    bad, vac, hit = [], {}, {}
    for t in tasks:
        if t.mode == 'sat':
            vac.setdefault((t.fn, t.name), []).append(t.status)
        elif t.status != 'proved' and t.fn not in unfit:
            nm = '%s: %s' % (t.fn, t.name)
            if nm in known:
                hit[nm] = known[nm]
            else:
                bad.append(t)
    for (fn, nm), l in vac.items():
        if all(s == 'vacuous' for s in l) and fn not in unfit and not any(b.fn == fn for b in bad):
            problems.append((fn, 'vacuous: %s' % nm))
    for f in funcs:
        if not any(t.fn == f and t.mode != 'sat' for t in tasks) and f not in unfit and not cfg.get('empty_ok'):
            problems.append((f, 'no obligations generated'))
    obl = [t for t in tasks if t.mode != 'sat']
    backends = {}
    for t in obl:
        if t.status == 'proved':
            backends[t.backend] = backends.get(t.backend, 0) + 1
    solver_s = sum(t.secs for t in tasks)
    # the replay program: always a short conformance run, a long search when something is not proved
    need = bool(bad or problems)
    secs = (60 if need else 8) if tier == 'quick' else (300 if need else 60)
    secs = cfg.get('replay_secs', {}).get((tier, need), secs)
    verdict, text, cases = replay(prop, cfg, secs, tmp, None)
    viol = 0
    rp = os.path.join(ROOT, 'evidence', '%s.replay.txt' % prop)
    if os.path.exists(rp):
        os.unlink(rp)
    rc = 0
    names = sorted({'%s: %s' % (b.fn, b.name) for b in bad})
    if verdict == 'found':
        viol = 1
        write(rp, 'property %s\n' % prop + ('failed obligations:\n  ' + '\n  '.join(names) + '\n' if names else '') +
              ('not under contract: %s\n' % problems if problems else '') + text)
        for n in names[:10]:
            print('failed obligation: ' + n)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    elif bad:
        viol = 1
        write(rp, 'property %s\nfailed obligations (no failing input found by the replay program, %d cases):\n' % (prop, cases) +
              '\n'.join('  %s: %s [%s, %.1fs]\n%s' % (b.fn, b.name, b.status, b.secs, b.detail[:3000]) for b in bad[:20]) + '\nreplay: %s\n' % text)
        for n in names[:10]:
            print('failed obligation: ' + n)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        rc = 1
    for nm, k in sorted(hit.items()):
        print('KNOWN-FINDING: property=%s %s [%s]' % (prop, k, nm))
    for p in problems:
        print('bounded stand-in: %s (%s)' % p)
    disch = sum(1 for t in obl if t.status == 'proved')
    ev = dict(property=prop, tier=tier, seed=seed, level='proof' if not problems else 'other', wall_s=round(time.time() - t0, 2), violations=viol,
              coverage=dict(obligations=len(obl), discharged=disch, checker_cmd='python3-vt /verif/checks/run.py %s' % prop, trusted_base=TRUSTED_BASE,
                            functions_under_contract=sorted(set(funcs) - unfit), functions_inlined=sorted(inlined), contracts_used_at_calls=sorted(called),
                            backends=backends, solver_seconds=round(solver_s, 1), generation_seconds=round(gen, 1),
                            failed_obligations=names[:50], known_findings=sorted(hit),
                            bounded_standins=['%s: %s' % p for p in problems],
                            bounded_replay=dict(program='replay/%s.cpp' % cfg.get('replay'), cases=cases, result=verdict, note='bounded, not counted as proof'),
                            explanation='contracts checked by verification-condition generation from the clang AST of the current source'
                                        + ('; the functions listed under bounded_standins were out of reach in this run and only the bounded replay stands in for them' if problems else '')),
              assumptions=sorted(set(assumed + notes + cfg.get('assumptions', []))))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    write(os.path.join(ROOT, 'evidence', prop + '.json'), json.dumps(ev, indent=1))
    print('%s: %d/%d obligations discharged, %d functions, %s, replay %s (%d cases), %.0fs' % (prop, disch, len(obl), len(set(funcs)), backends, verdict, cases, time.time() - t0))
    return rc


def load_known(prop):
    """failing obligations recorded as findings: 'known: property=ID obligation=<function>: <name> | <what fails>'"""
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) obligation=(.*?) \| (.*)', l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def write(p, s):
    with open(p, 'w') as f:
        f.write(s)


if __name__ == '__main__':
    sys.exit(main())
