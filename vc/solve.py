"""Discharging obligations: forked workers, z3 first (several configurations), then cvc5."""
import os, sys, time, pickle, signal, mmap, struct, resource
import z3

CONFIGS = [
    ('z3', {'smt.mbqi': False, 'smt.auto_config': False}, 3),
    ('z3-4.8', ('smt.mbqi=false', 'smt.auto_config=false'), 5),
    ('z3/mbqi', {}, 5),
    ('z3/s7', {'smt.mbqi': False, 'smt.auto_config': False, 'smt.random_seed': 7, 'smt.qi.eager_threshold': 100.0}, 8),
    ('cvc5', None, 10),
    ('z3-4.8/relevancy', ('smt.mbqi=false', 'smt.auto_config=false', 'smt.relevancy=0'), 8),
    ('z3/s3', {'smt.mbqi': False, 'smt.auto_config': False, 'smt.random_seed': 3, 'smt.relevancy': 0}, 15),
    ('z3/long', {'smt.random_seed': 1}, 30),
]


def conjuncts(g):
    """split a goal into conjuncts (through ForAll and implication consequents)"""
    if z3.is_and(g):
        r = []
        for c in g.children():
            r += conjuncts(c)
        return r
    if z3.is_implies(g):
        return [z3.Implies(g.arg(0), c) for c in conjuncts(g.arg(1))]
    if z3.is_quantifier(g) and g.is_forall() and z3.is_implies(g.body()) and z3.is_and(g.body().arg(1)):
        n = g.num_vars()
        vs = [z3.Const('%s!q%d' % (g.var_name(i), g.get_id()), g.var_sort(i)) for i in range(n)]
        b = z3.substitute_vars(g.body(), *reversed(vs))
        return [z3.ForAll(vs, z3.Implies(b.arg(0), c)) for c in conjuncts(b.arg(1))]
    return [g]


def skolem(g, n=[0]):
    """replace outer universals of a goal by fresh constants; returns (hyps, goal)"""
    hyps = []
    while True:
        if z3.is_quantifier(g) and g.is_forall():
            vs = []
            for i in range(g.num_vars()):
                n[0] += 1
                vs.append(z3.Const('%s!sk%d' % (g.var_name(i), n[0]), g.var_sort(i)))
            g = z3.substitute_vars(g.body(), *reversed(vs))
        elif z3.is_implies(g):
            hyps.append(g.arg(0))
            g = g.arg(1)
        else:
            return hyps, g


WATCH = None   # (shared buffer, offset): the time by which the current in-process solver call must have returned
INPROC = True  # false when a task is repeated after such a call did not return: only solvers that can be killed are asked


def chk(s, t):
    if not INPROC:
        return z3.unknown
    if WATCH is None:
        return s.check()
    buf, off = WATCH
    buf[off:off + 8] = struct.pack('d', time.time() + t + 10)
    try:
        return s.check()
    finally:
        buf[off:off + 8] = struct.pack('d', 0.0)


def run_z3(asserts, opts, t, mem=4000):
    s = z3.Solver()
    s.set('timeout', int(t * 1000))
    for k, v in (opts or {}).items():
        s.set(k, v)
    for a in asserts:
        s.add(a)
    r = chk(s, t)
    return r, s


def run_old(asserts, opts, t):
    """the other z3 on this machine (4.8), whose instantiation finds proofs that the newer one misses and the other way round"""
    import subprocess, tempfile
    s = z3.Solver()
    for a in asserts:
        s.add(a)
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    f.write(s.to_smt2())
    f.close()
    try:
        p = subprocess.run(['/usr/bin/z3', '-T:%d' % max(1, int(t)), '-memory:4000', *opts, f.name], capture_output=True, text=True, timeout=t + 10)
        l = p.stdout.strip().split('\n')
        # a file it cannot read decides nothing
        o = 'error' if any('error' in x for x in l) else l[-1] if l else ''
    except subprocess.TimeoutExpired:
        o = 'timeout'
    finally:
        os.unlink(f.name)
    return o


def run_cvc5(asserts, t):
    import subprocess, tempfile
    s = z3.Solver()
    for a in asserts:
        s.add(a)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    f.write(txt)
    f.close()
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(t * 1000), '--enum-inst-interleave', f.name],
                           capture_output=True, text=True, timeout=t + 10)
        o = p.stdout.strip().split('\n')[0] if p.stdout else ''
    except subprocess.TimeoutExpired:
        o = 'timeout'
    finally:
        os.unlink(f.name)
    return o


def ground(f, seen={}):
    """no quantifier inside"""
    todo, done = [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in done:
            continue
        done.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        todo += x.children()
    return True


ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ,
         z3.Z3_OP_DISTINCT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE, z3.Z3_OP_ANUM, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_XOR, z3.Z3_OP_IFF}


def arith_core(facts, goal):
    """the facts about real numbers that reach the goal, with everything that is no arithmetic replaced by variables"""
    memo = {}
    real = z3.RealSort()

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i][1]
        k = e.decl().kind() if z3.is_app(e) else None
        if k in ARITH and e.num_args() > 0 and all(c.sort() == real or z3.is_bool(c) for c in e.children()):
            ch = [go(c) for c in e.children()]
            if k == z3.Z3_OP_AND:
                r = z3.And(*ch)
            elif k == z3.Z3_OP_OR:
                r = z3.Or(*ch)
            elif k in (z3.Z3_OP_ADD,):
                r = z3.Sum(*ch)
            elif k in (z3.Z3_OP_MUL,):
                r = z3.Product(*ch)
            else:
                r = e.decl()(*ch)
        elif k in (z3.Z3_OP_ANUM, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            r = e
        elif z3.is_bool(e):
            r = z3.Bool('ab!%d' % i)
        elif e.sort() == real:
            r = z3.Real('ar!%d' % i)
        else:
            r = e
        memo[i] = (e, r)
        return r

    def vars_(e):
        out, todo, seen = set(), [e], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo += x.children()
        return out
    fs = [(f, vars_(f)) for f in (go(z3.simplify(x)) for x in facts)]
    g = go(z3.simplify(goal))
    need, chosen = vars_(g), []
    for hop in range(3):
        more = [(f, v) for f, v in fs if v & need and f not in chosen]
        new = set()
        for f, v in more:
            if not any(f.eq(c) for c in chosen):
                chosen.append(f)
            new |= v
        need |= new
    return [f for f in chosen], g


def run_arith(pc, hyps, g, t):
    fs, ng = arith_core([f for f in pc if ground(f)] + [h for h in hyps if ground(h)], z3.Not(g))
    s = z3.Tactic('qfnra-nlsat').solver()
    s.set('timeout', int(t * 1000))
    for f in fs:
        s.add(f)
    s.add(ng)
    return chk(s, t) == z3.unsat


def apart_pairs(facts):
    """pairs of terms some fact says are different"""
    apart, todo, ors = set(), list(facts), []
    while todo or ors:
        if not todo:
            # clauses with all but one literal refuted
            again = []
            for f in ors:
                left = [c for c in f.children() if not (z3.is_eq(c) and (c.arg(0).get_id(), c.arg(1).get_id()) in apart)]
                if len(left) == 1:
                    todo.append(left[0])
                else:
                    again.append(f)
            ors = again
            if not todo:
                break
        f = todo.pop()
        if not z3.is_app(f):
            continue
        k = f.decl().kind()
        if k == z3.Z3_OP_AND:
            todo += f.children()
        elif k == z3.Z3_OP_OR:
            ors.append(f)
        elif k == z3.Z3_OP_DISTINCT:
            c = f.children()
            for i in range(len(c)):
                for j in range(len(c)):
                    if i != j:
                        apart.add((c[i].get_id(), c[j].get_id()))
        elif k == z3.Z3_OP_NOT and z3.is_eq(f.arg(0)):
            a, b = f.arg(0).children()
            apart |= {(a.get_id(), b.get_id()), (b.get_id(), a.get_id())}
        elif k == z3.Z3_OP_NOT and z3.is_or(f.arg(0)):
            todo += [z3.Not(x) for x in f.arg(0).children()]
    return apart


def peel_stores(pc, goal, extra=()):
    """the same obligation with reads of memory over writes at addresses that are known to be others (or the same) carried out"""
    apart = apart_pairs(pc)
    # offsets of pointers to whole arrays
    known = {a.get_id(): b for a, b in fixed_terms(pc) if a.num_args() == 1 and z3.is_int(a)}
    if not apart and not known:
        return pc, goal, list(extra)
    memo, n = {}, [0]

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i][1]
        if i in known:
            return known[i]
        if z3.is_quantifier(e):
            n[0] += 1
            vs = [z3.Const('%s!p%d' % (e.var_name(x), n[0]), e.var_sort(x)) for x in range(e.num_vars())]
            rv = list(reversed(vs))
            b = go(z3.substitute_vars(e.body(), *rv))
            ps = []
            for x in range(e.num_patterns()):
                q = [go(z3.substitute_vars(c, *rv)) for c in e.pattern(x).children()]
                ps.append(z3.MultiPattern(*q) if len(q) > 1 else q[0])
            if e.is_lambda():
                r = e
            else:
                try:
                    r = (z3.ForAll if e.is_forall() else z3.Exists)(vs, b, patterns=ps)
                except z3.Z3Exception:
                    r = e
        elif z3.is_app(e) and e.num_args():
            ch = [go(c) for c in e.children()]
            if e.decl().kind() == z3.Z3_OP_SELECT and len(ch) == 2:
                m, b = ch
                while z3.is_app(m) and m.decl().kind() == z3.Z3_OP_STORE and m.num_args() == 3:
                    if m.arg(1).eq(b):
                        m = m.arg(2)
                        break
                    if (m.arg(1).get_id(), b.get_id()) in apart:
                        m = m.arg(0)
                        continue
                    m = z3.Select(m, b)
                    break
                else:
                    m = z3.Select(m, b)
                r = m
            elif all(a.eq(b) for a, b in zip(ch, e.children())):
                r = e
            elif z3.is_and(e):
                r = z3.And(*ch)
            elif z3.is_or(e):
                r = z3.Or(*ch)
            elif e.decl().kind() == z3.Z3_OP_ADD:
                ch = [c for c in ch if not (z3.is_int_value(c) and c.as_long() == 0)] or ch[:1]
                r = z3.Sum(*ch) if len(ch) > 1 else ch[0]
            elif e.decl().kind() == z3.Z3_OP_MUL:
                r = z3.Product(*ch)
            elif e.decl().kind() == z3.Z3_OP_DISTINCT:
                r = z3.Distinct(*ch)
            else:
                r = e.decl()(*ch)
        else:
            r = e
        memo[i] = (e, r)
        return r
    keep = [a == b for a, b in fixed_terms(pc) if a.num_args() == 1 and z3.is_int(a)]
    return [go(f) for f in pc] + keep, go(goal), [go(f) for f in extra]


def symbols(f):
    """the uninterpreted symbols of a formula"""
    out, todo, seen = set(), [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo += x.children()
    return out


def empty_range(f):
    """a fact about no element"""
    if not (z3.is_quantifier(f) and f.is_forall() and z3.is_implies(f.body())):
        return False
    vs = [z3.Const('er!%d' % i, f.var_sort(i)) for i in range(f.num_vars())]
    b = z3.substitute_vars(f.body(), *reversed(vs))
    if b.arg(1).num_args() == 2 and z3.is_eq(b.arg(1)) and b.arg(1).arg(0).eq(b.arg(1).arg(1)):
        return True
    if symbols(b.arg(0)) - {v.decl().name() for v in vs}:
        return False
    s = z3.Solver()
    s.set('timeout', 100)
    s.add(b.arg(0))
    return chk(s, 1) == z3.unsat


def focus(facts, hyps, g, hops):
    """the facts for every index that share symbols with the goal which are not everywhere, and all others"""
    sy = [(f, symbols(f)) for f in facts]
    count = {}
    for f, v in sy:
        for x in v:
            count[x] = count.get(x, 0) + 1
    rare = lambda v: {x for x in v if count.get(x, 0) <= max(6, len(facts) // 10)}
    need = set()
    for f in [g] + list(hyps):
        need |= rare(symbols(f))
    chosen = set()
    for _ in range(hops):
        new = set()
        for i, (f, v) in enumerate(sy):
            if i not in chosen and v & need:
                chosen.add(i)
                new |= rare(v)
        need |= new
    return [f for i, (f, v) in enumerate(sy) if i in chosen or ground(f)]


def fixed_terms(facts):
    """ground equations with a number, as substitutions"""
    out, todo = [], list(facts)
    while todo:
        f = todo.pop()
        if z3.is_and(f):
            todo += f.children()
        elif z3.is_eq(f):
            a, b = f.children()
            if z3.is_int_value(a):
                a, b = b, a
            if z3.is_int_value(b) and not z3.is_int_value(a):
                out.append((a, b))
    return out


def run_inst(pc, hyps, g, t):
    """facts for every index, taken at the indices the goal is about, then arithmetic alone"""
    end = time.time() + t
    # an index below k + 1 is k or below k
    for h in hyps:
        for c in (h.children() if z3.is_and(h) else [h]):
            if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_GT):
                a, b = c.children() if c.decl().kind() == z3.Z3_OP_LT else reversed(c.children())
                b = z3.simplify(b)
                if z3.is_const(a) and '!sk' in a.decl().name() and z3.is_add(b) and b.num_args() == 2 and z3.is_int_value(b.arg(0)) and b.arg(0).as_long() == 1 and z3.is_const(b.arg(1)):
                    k = b.arg(1)
                    at_ = lambda f: z3.substitute(f, (a, k))
                    return inst(pc, [at_(x) for x in hyps], at_(g), end, [k]) and inst(pc, list(hyps) + [a < k], g, end, [k])
    return inst(pc, hyps, g, end)


def inst(pc, hyps, g, end, idx=()):
    gr = [f for f in pc if ground(f)] + list(hyps)
    sub = fixed_terms(gr)
    fix = lambda f: z3.simplify(z3.substitute(f, *sub)) if sub else z3.simplify(f)
    idx, todo, seen = list(idx), [g] + list(hyps), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.sort() == z3.IntSort() and '!sk' in x.decl().name():
            idx.append(x)
        todo += x.children()
    lin = z3.Solver()
    lin.set('timeout', 300)
    for f in gr:
        lin.add(f)
    facts, got = [fix(f) for f in gr], False
    for f in pc:
        if not (z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == z3.IntSort()):
            continue
        for i in idx:
            if time.time() > end:
                return False
            b = z3.substitute_vars(f.body(), i)
            if z3.is_implies(b):
                lin.push()
                lin.add(z3.Not(b.arg(0)))
                r = chk(lin, 1)
                lin.pop()
                if r != z3.unsat:
                    continue
                b = b.arg(1)
            if ground(b):
                facts.append(fix(b))
                got = True
    if not got:
        return False
    ok = True
    for c in conjuncts(g):
        fs, ng = arith_core(facts, z3.Not(fix(c)))
        s = z3.Tactic('qfnra-nlsat').solver()
        s.set('timeout', max(200, int((end - time.time()) * 1000)))
        for f in fs:
            s.add(f)
        s.add(ng)
        ok = ok and chk(s, max(1, end - time.time())) == z3.unsat
    return ok


def attempt(pc, goal, theory, scale=1.0, configs=None, frame=False, goal_is_frame=True, numeric=False):
    """returns (status, backend, seconds, detail); status in proved/refuted/unknown"""
    t0 = time.time()
    if numeric:
        pc, goal, _ = peel_stores(list(pc), goal)
    hyps, g = skolem(goal)
    if frame:
        # frame conditions rarely need more than the ground facts
        try:
            r, s = run_z3([f for f in pc if ground(f)] + hyps + [z3.Not(g)], {}, 3 * scale)
            if r == z3.unsat:
                return 'proved', 'z3', time.time() - t0, ''
        except z3.Z3Exception:
            pass
        try:
            if not goal_is_frame and run_arith(pc, hyps, g, 3 * scale):
                return 'proved', 'z3/nlsat', time.time() - t0, ''
        except z3.Z3Exception:
            pass
    if numeric:
        pc = [f for f in pc if not empty_range(f)]
        few = list(theory) + focus(pc, hyps, g, 1) + hyps + [z3.Not(g)]
        if run_cvc5(few, 2 * scale) == 'unsat':
            return 'proved', 'cvc5', time.time() - t0, ''
        if run_old(few, CONFIGS[1][1], 2 * scale) == 'unsat':
            return 'proved', 'z3-4.8', time.time() - t0, ''
        few = list(theory) + focus(pc, hyps, g, 2) + hyps + [z3.Not(g)]
        if run_old(few, CONFIGS[5][1], 2 * scale) == 'unsat':
            return 'proved', 'z3-4.8/relevancy', time.time() - t0, ''
    asserts = list(theory) + list(pc) + hyps + [z3.Not(g)]
    detail = ''
    status = 'unknown'
    for no, (nm, opts, t) in enumerate(configs or CONFIGS):
        if numeric and no == 2:
            try:
                if run_inst(pc, hyps, g, 10 * scale):
                    return 'proved', 'z3/nlsat', time.time() - t0, ''
            except z3.Z3Exception:
                pass
        if opts is None:
            r = run_cvc5(asserts, t * scale)
            if r == 'unsat':
                return 'proved', nm, time.time() - t0, ''
            continue
        if isinstance(opts, tuple):
            if run_old(asserts, opts, t * scale) == 'unsat':
                return 'proved', nm, time.time() - t0, ''
            continue
        try:
            r, s = run_z3(asserts, opts, t * scale)
        except z3.Z3Exception as e:
            detail = str(e)
            continue
        if r == z3.unsat:
            return 'proved', nm, time.time() - t0, ''
        if r == z3.sat:
            m = s.model()
            lines = []
            for d in m.decls():
                if d.arity() == 0:
                    v = str(m[d])
                    if len(v) < 200:
                        lines.append('%s = %s' % (d.name(), v.replace('\n', ' ')))
            return 'refuted', nm, time.time() - t0, '\n'.join(sorted(lines)[:200])
        else:
            detail = s.reason_unknown()
    return status, 'none', time.time() - t0, detail


class Task:
    def __init__(self, name, fn, pc, goal, theory=(), kind='ensures', mode='prove'):
        self.name, self.fn, self.pc, self.goal, self.theory, self.kind, self.mode = name, fn, pc, goal, theory, kind, mode
        self.status, self.backend, self.secs, self.detail = 'pending', '', 0.0, ''
        self.effort = 1.0
        self.ground_first = False


def discharge(tasks, workers=8, budget=600, scale=1.0, configs=None, verbose=False, stop_on_fail=None):
    """runs all tasks in forked workers; fills in status"""
    n = len(tasks)
    if n == 0:
        return
    deadline = time.time() + budget
    nw = min(workers, n)
    # counter, then per worker: time by which its current solver call must return, time it took its task, the task
    buf = mmap.mmap(-1, 8 + 24 * nw)
    import multiprocessing, selectors
    lock = multiprocessing.Lock()
    buf[:4] = struct.pack('i', 0)
    sys.stdout.flush()
    sel = selectors.DefaultSelector()
    live = {}

    def work(w, first, out):
        global WATCH, INPROC
        off = 8 + 24 * w
        WATCH = (buf, off)
        try:
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        except Exception:
            pass
        while True:
            if first is not None:
                i, INPROC = first, False
            else:
                INPROC = True
                with lock:
                    i, = struct.unpack('i', buf[:4])
                    buf[:4] = struct.pack('i', i + 1)
            first = None
            if i >= n or time.time() > deadline:
                return
            t = tasks[i]
            buf[off + 8:off + 24] = struct.pack('di', time.time(), i) + b'\0' * 4
            try:
                if t.mode == 'sat':
                    t0 = time.time()
                    rr, s = run_z3(list(t.theory) + list(t.pc), {}, 2 * scale)
                    res = ('vacuous' if rr == z3.unsat else 'ok', 'z3', time.time() - t0, str(rr))
                else:
                    res = attempt(t.pc, t.goal, t.theory, scale * t.effort, configs, t.name.startswith('frame') or (t.ground_first and ground(skolem(t.goal)[1])), t.name.startswith('frame'), t.ground_first)
            except Exception as e:
                res = ('unknown', 'error', 0.0, repr(e))
            buf[off + 8:off + 16] = struct.pack('d', 0.0)
            pickle.dump((i, res), out)
            out.flush()

    def spawn(w, first=None):
        buf[8 + 24 * w:32 + 24 * w] = b'\0' * 24
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                os.close(r)
                with os.fdopen(wfd, 'wb') as out:
                    work(w, first, out)
                rc = 0
            finally:
                os._exit(rc)
        os.close(wfd)
        f = os.fdopen(r, 'rb')
        live[w] = (pid, f)
        sel.register(f, selectors.EVENT_READ, w)

    def reap(w, kill):
        pid, f = live.pop(w)
        sel.unregister(f)
        f.close()
        try:
            if kill:
                os.kill(pid, signal.SIGKILL)
            return os.waitpid(pid, 0)[1]
        except OSError:
            return 0

    for w in range(nw):
        spawn(w)
    again = {}
    while live and time.time() < deadline + 20:
        for key, _ in sel.select(timeout=1):
            w = key.data
            try:
                i, res = pickle.load(key.fileobj)
            except (EOFError, pickle.UnpicklingError):
                start, i = struct.unpack('di', buf[16 + 24 * w:28 + 24 * w])
                if reap(w, False) and start:
                    # the worker was ended from outside (memory) while it had a task
                    again[i] = again.get(i, 0) + 1
                    spawn(w, i if again[i] == 1 else None)
                continue
            t = tasks[i]
            t.status, t.backend, t.secs, t.detail = res
            if verbose and t.status not in ('proved', 'ok'):
                print('  %-9s %-40s %s (%.1fs) %s' % (t.status, t.fn, t.name, t.secs, t.detail[:60].replace('\n', ';')), flush=True)
        now = time.time()
        for w in list(live):
            call, = struct.unpack('d', buf[8 + 24 * w:16 + 24 * w])
            start, i = struct.unpack('di', buf[16 + 24 * w:28 + 24 * w])
            if (call and now > call) or (start and now > start + 200 * scale):
                # a solver call that ignores its time limit: this worker is given up; the task goes once more to the solvers that run outside
                reap(w, True)
                again[i] = again.get(i, 0) + 1
                if verbose:
                    print('  stuck     %-40s %s' % (tasks[i].fn, tasks[i].name), flush=True)
                spawn(w, i if again[i] == 1 else None)
    for w in list(live):
        reap(w, True)
    for t in tasks:
        if t.status == 'pending':
            t.status, t.detail = 'unknown', 'budget exhausted'
