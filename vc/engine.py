"""cxxvc: symbolic execution of clang's AST into verification conditions.

Direct-style executor; paths are enumerated by re-execution with a decision stack (no merging).
Loops are cut at their head by invariants, calls are replaced by the callee's contract when it has one
and inlined otherwise (so a helper that a refactoring extracts needs no contract; recursion does).
"""
import sys, re, fractions
import z3
from .types import *
from . import sorts as S
from .frontend import Fn, ExtractionError

sys.setrecursionlimit(20000)
sys.set_int_max_str_digits(0)


class SV:
    __slots__ = ('ty', 't')

    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def __repr__(self):
        return 'SV(%s,%s)' % (self.ty, self.t)


class LV:
    __slots__ = ('root', 'path', 'ty')

    def __init__(self, root, path, ty):
        self.root, self.path, self.ty = root, tuple(path), ty

    def same(self, o):
        return isinstance(o, LV) and _keyt(self.root) == _keyt(o.root) and _keyt(self.path) == _keyt(o.path)

    def __repr__(self):
        return 'LV(%s,%s,%s)' % (self.root, self.path, self.ty)


class PV:
    """pointer to an lvalue (address of a local/field/element)"""
    __slots__ = ('lv', 'off')

    def __init__(self, lv, off=None):
        self.lv, self.off = lv, off


class It:
    """container iterator"""
    __slots__ = ('kind', 'lv', 'pos', 'key', 'rem', 'isend', 'cid')

    def __init__(self, kind, lv, pos=None, key=None, rem=None, isend=None):
        self.kind, self.lv, self.pos, self.key, self.rem, self.isend = kind, lv, pos, key, rem, isend

    def copy(self, **kw):
        r = It(self.kind, self.lv, self.pos, self.key, self.rem, self.isend)
        for k, v in kw.items():
            setattr(r, k, v)
        return r


class Closure:
    def __init__(self, params, body, frame, this):
        self.params, self.body, self.frame, self.this = params, body, frame, this


class Junk:
    """value of a type the model ignores (streams, ...)"""
    def __init__(self, what=''):
        self.what = what


def _keyt(x):
    if isinstance(x, tuple):
        return tuple(_keyt(y) for y in x)
    if isinstance(x, z3.AstRef):
        return ('z', x.get_id())
    if isinstance(x, Ty):
        return x.key
    return x


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class ThrowEx(Exception):
    def __init__(self, v):
        self.v = v


class GotoEx(Exception):
    def __init__(self, label):
        self.label = label


class PathEnd(Exception):
    pass


def has_ite(e):
    todo = [e]
    while todo:
        x = todo.pop()
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE:
                return True
            todo.extend(x.children())
    return False


def solve_apart(facts):
    from .solve import apart_pairs
    return apart_pairs(facts)


class State:
    def __init__(self):
        self.locals, self.heap, self.mem, self.statics, self.ghost, self.temps = {}, {}, {}, {}, {}, {}
        self.mlen = z3.Const('mlen!0', z3.ArraySort(z3.IntSort(), z3.IntSort()))
        self.malive = z3.Const('malive!0', z3.ArraySort(z3.IntSort(), z3.BoolSort()))
        self.alloc = z3.Int('alloc!0')
        self.pc = []
        self.pcset = set()
        self.writes = {}

    def copy(self):
        n = State.__new__(State)
        n.locals, n.heap, n.mem = dict(self.locals), dict(self.heap), dict(self.mem)
        n.statics, n.ghost, n.temps = dict(self.statics), dict(self.ghost), dict(self.temps)
        n.mlen, n.malive, n.alloc = self.mlen, self.malive, self.alloc
        if hasattr(self, 'asteps'):
            n.asteps = self.asteps
        if hasattr(self, 'apart'):
            n.apart = self.apart
        n.pc, n.pcset = list(self.pc), set(self.pcset)
        n.writes = {k: dict(v) for k, v in self.writes.items()}
        return n


class Obligation:
    def __init__(self, name, pc, goal, fn, kind):
        self.name, self.pc, self.goal, self.fn, self.kind = name, pc, goal, fn, kind


class View:
    """read-only view of a state for specifications"""
    def __init__(self, eng, st):
        self.eng, self.st = eng, st

    def f(self, name):
        c, f = name.split('.')
        return self.eng.heap_arr(self.st, c, f)

    def get(self, name, ref):
        return S.sel(self.f(name), ref)

    def fty(self, name):
        c, f = name.split('.')
        return self.eng.field_ty(c, f)

    def mem(self, ety):
        return self.eng.mem_arr(self.st, ety)

    def cell(self, ety, base, off):
        return S.sel(S.sel(self.mem(ety), base), off)

    def at(self, ety, ptr, i):
        """ptr[i] for a Ptr-typed term"""
        b, o = S.acc(PTR(ety), 0, ptr), S.acc(PTR(ety), 1, ptr)
        return S.sel(S.sel(self.mem(ety), b), o + i)

    def mlen(self, base):
        return S.sel(self.st.mlen, base)

    def alive(self, base):
        return S.sel(self.st.malive, base)

    @property
    def alloc(self):
        return self.st.alloc

    def g(self, name):
        return self.eng.ghost_get(self.st, name)

    def static(self, name):
        return self.eng.static_get(self.st, name)


class Ctx:
    """specification context of a call: arguments, this, pre/post views, result"""
    def __init__(self, eng, fn, this, args, pre, post=None, ret=None):
        self.eng, self.fn, self.this_v, self.args, self.pre_st, self.post_st, self.ret_v = eng, fn, this, args, pre, post, ret
        self.pre = View(eng, pre)
        self.post = View(eng, post) if post is not None else None

    @property
    def this(self):
        return self.this_v.t if isinstance(self.this_v, SV) else self.eng.load_in(self.pre_st, self.this_v.lv)

    @property
    def this_post(self):
        return self.this_v.t if isinstance(self.this_v, SV) else self.eng.load_in(self.post_st, self.this_v.lv)

    def a(self, i):
        v = self.args[i]
        if isinstance(v, (LV,)):
            return self.eng.load_in(self.pre_st, v)
        if isinstance(v, PV):
            return self.eng.load_in(self.pre_st, v.lv)
        return v.t if isinstance(v, SV) else v

    def apost(self, i):
        v = self.args[i]
        if isinstance(v, LV):
            return self.eng.load_in(self.post_st, v)
        if isinstance(v, PV):
            return self.eng.load_in(self.post_st, v.lv)
        return v.t

    def aty(self, i):
        return self.args[i].ty

    @property
    def ret(self):
        if isinstance(self.ret_v, LV):
            return self.eng.load_in(self.post_st, self.ret_v)
        return self.ret_v.t


class LoopCtx:
    def __init__(self, eng, entry, cur, frame, fctx, havoc_keys=(), head_iters=None):
        self.eng, self.entry_st, self.cur_st, self.frame, self.fc = eng, entry, cur, frame, fctx
        self.entry, self.cur = View(eng, entry), View(eng, cur)
        self.mod = havoc_keys
        self.fnpre = View(eng, eng.fn_entry) if eng.fn_entry is not None else None

    @property
    def this(self):
        t = self.eng.frames_this[-1]
        return t.t if isinstance(t, SV) else self.eng.load_in(self.cur_st, t.lv)

    def loc(self, name, ty=None, st=None):
        """current value of local/param `name`; if renamed: the unique modified local of type ty"""
        st = st or self.cur_st
        v = self._find(name, ty, st)
        return v.t if isinstance(v, SV) else v

    def loc_entry(self, name, ty=None):
        return self.loc(name, ty, self.entry_st)

    def _find(self, name, ty, st):
        c = [k for k in st.locals if k[0] == self.frame and self.eng.names.get(k[1]) == name]
        if not c:
            c = [k for k in st.locals if k[0] == self.frame and ('local', k) in self.mod and
                 isinstance(st.locals[k], SV) and ty is not None and st.locals[k].ty == ty]
            if len(c) != 1:
                raise SpecMismatch('no local %s' % name)
        k = c[-1]
        v = st.locals[k]
        if isinstance(v, LV):
            return SV(v.ty, self.eng.load_in(st, v))
        return v

    def param(self, i):
        p = self.eng.frames_fn[-1].params[i]
        v = self.cur_st.locals.get((self.frame, p['id']))
        if isinstance(v, LV):
            return self.eng.load_in(self.cur_st, v)
        return v.t if isinstance(v, SV) else v

    def param_entry(self, i):
        """value at entry of the verified function"""
        return self.fc.a(i)

    def it(self, what):
        """the iterator local (in this frame, non-end) over the container described by `what`
        ('Class.field' or 'local:NAME' or 'param:N' or a type)"""
        c = []
        for k, v in self.cur_st.locals.items():
            if k[0] == self.frame and isinstance(v, It) and not (v.kind == 'list' and isinstance(v.pos, str)):
                if ('local', k) not in self.mod:
                    continue
                if self._cmatch(v.lv, what):
                    c.append(v)
        if not c:
            raise SpecMismatch('no iterator over %s' % (what,))
        return c[-1]

    def outer(self, what):
        """the latest iterator over the described container in any frame, whether or not the loop moves it"""
        c = [v for k, v in self.cur_st.locals.items() if isinstance(v, It) and not (v.kind == 'list' and isinstance(v.pos, str)) and self._cmatch(v.lv, what)
             and not (v.kind in ('set', 'map') and v.rem is None)]
        if not c:
            raise SpecMismatch('no iterator over %s' % (what,))
        return c[-1]

    @property
    def calls(self):
        """names of the functions called in the loop, directly or through functions that are inlined"""
        return self.eng.calls_in(self.node)

    def has_it(self, what):
        try:
            self.it(what)
            return True
        except SpecMismatch:
            return False

    def cur_iters(self):
        """iterators (of this frame) the loop moves"""
        return [v for k, v in self.cur_st.locals.items() if k[0] == self.frame and isinstance(v, It) and ('local', k) in self.mod]

    def mod_locals(self, ty, st=None):
        """values of the local variables of this type the loop modifies"""
        st = st or self.cur_st
        return [v.t for k, v in st.locals.items() if k[0] == self.frame and ('local', k) in self.mod and isinstance(v, SV) and v.ty == ty]

    def mod_from(self, ty, start):
        """current value of the local of this type the loop modifies that starts at `start`, and of the other modified ones that start at something computed from it"""
        c = [(self.entry_st.locals[k].t, v.t) for k, v in self.cur_st.locals.items() if k[0] == self.frame and ('local', k) in self.mod and isinstance(v, SV) and v.ty == ty
             and isinstance(self.entry_st.locals.get(k), SV)]
        at = [i for i, (e, _) in enumerate(c) if e is not None and z3.simplify(e).eq(z3.simplify(start))]
        if len(at) != 1:
            raise SpecMismatch('no single local of type %s that starts there' % (ty,))

        def mentions(e):
            return e is not None and (e.eq(start) or any(mentions(x) for x in e.children()))
        return c[at[0]][1], [v for i, (e, v) in enumerate(c) if i != at[0] and mentions(e)]

    def local(self, ty, st=None):
        """value of the one local variable of this type (of the one the loop modifies, if there are several)"""
        st = st or self.cur_st
        c = [(k, v) for k, v in st.locals.items() if k[0] == self.frame and isinstance(v, SV) and v.ty == ty]
        if len(c) > 1:
            c = [(k, v) for k, v in c if ('local', k) in self.mod]
        if len(c) != 1:
            raise SpecMismatch('no single local of type %s' % (ty,))
        return c[0][1].t

    def param_at_entry(self, i):
        """value of the parameter where the loop starts"""
        p = self.eng.frames_fn[-1].params[i]
        v = self.entry_st.locals.get((self.frame, p['id']))
        return self.eng.load_in(self.entry_st, v) if isinstance(v, LV) else v.t

    def _cmatch(self, lv, what):
        if isinstance(what, Ty):
            return lv.ty == what
        d = self.eng.lv_desc(lv)
        return d == what or d.split('[')[0].split('{')[0] == what

    def cont(self, it):
        """current term of the container an iterator ranges over"""
        return self.eng.load_in(self.cur_st, it.lv)

    def ckey(self, it):
        return it.lv


class SpecMismatch(Exception):
    pass


class LoopSpec:
    def __init__(self, inv, match=None, decreases=None, name='', unroll=0, enter=None):
        self.inv, self.match, self.decreases, self.name, self.unroll = inv, match, decreases, name, unroll
        self.enter = enter      # ghost code run before the loop: enter(L) -> {ghost: value}


class Contract:
    def __init__(self, key, requires=None, ensures=None, modifies=(), throws=None, ensures_throw=None, loops=(),
                 decreases=None, theory=(), inline=False, trusted=False, note='', may_throw=False, this_ty=None, ret_ty=None,
                 check_frame=True, setup=None, hints=None, setup_lemmas=None, post_lemmas=None, enter=None, leave=None, answer=None):
        self.key = key
        self.answer = answer    # for a trusted contract: the term it returns
        self.enter, self.leave = enter, leave       # ghost code at entry and at normal exit: f(C) -> {ghost: value}
        self.requires = requires or (lambda C: [])
        self.ensures = ensures or (lambda C: [])
        self.modifies = modifies
        self.may_throw = may_throw
        self.ensures_throw = ensures_throw
        self.loops = list(loops)
        self.decreases = decreases
        self.theory = theory
        self.inline = inline
        self.trusted = trusted
        self.note = note
        self.ret_ty = ret_ty
        self.check_frame = check_frame
        self.setup = setup
        self.hints = hints
        self.setup_lemmas = setup_lemmas
        self.post_lemmas = post_lemmas


class Explorer:
    def __init__(self):
        self.trace = []       # list of [alts, idx]
        self.pos = 0
        self.flip = -1

    def start(self):
        self.pos = 0

    def next(self):
        while self.trace:
            alts, i = self.trace[-1]
            if i + 1 < len(alts):
                self.trace[-1][1] = i + 1
                self.flip = len(self.trace) - 1
                return True
            self.trace.pop()
        return False


_quant_cache = {}


def has_quant(e):
    i = e.get_id()
    if i in _quant_cache:
        return _quant_cache[i][1]
    r = False
    if z3.is_quantifier(e):
        r = True
    else:
        for c in e.children():
            if has_quant(c):
                r = True
                break
    _quant_cache[i] = (e, r)
    return r


_const_cache = {}


def max_fresh(e):
    """largest fresh number among constants of e"""
    i = e.get_id()
    if i in _const_cache:
        return _const_cache[i][1]
    r = -1
    if z3.is_quantifier(e):
        r = max_fresh(e.body())
    elif z3.is_app(e):
        if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = e.decl().name()
            m = re.search(r'!(\d+)$', n)
            r = int(m.group(1)) if m else 0
        for c in e.children():
            r = max(r, max_fresh(c))
    _const_cache[i] = (e, r)
    return r


class Engine:
    def __init__(self, prog, tenv, contracts, ghosts=None, externs=None, entity=(), value=(), opts=None):
        self.prog, self.tenv = prog, tenv
        self.contracts = contracts            # key -> Contract
        self.ghost_sorts = ghosts if ghosts is not None else {}
        self.externs = externs or {}
        self.opts = opts or {}
        self.obls = []
        self.covers = []
        self.nfresh = 0
        self.dry = 0
        self.modsets = {}
        self.names = {}
        self.fn_entry = None
        self.st = None
        self.frames_this, self.frames_fn, self.frames_no = [], [], []
        self.framecount = 0
        self.inlined = set()
        self.called = set()
        self.notes = set()
        self.cur_contract = None
        self.unmatched_loops = []
        self.loop_count = 0
        self.setup_types(entity, value)

    # ------------------------------------------------------------------ types
    def setup_types(self, entity, value):
        vt = set(value)
        for n, l in self.prog.classes.items():
            c = self.prog.cls(n)
            if n in entity or n in vt or n in self.tenv.opaque:
                continue
            if not self.is_polymorphic(n):
                vt.add(n)
        self.tenv.value |= vt
        for n in vt:
            c = self.prog.cls(n)
            if c is None:
                continue
            try:
                S.register_struct(n, self.struct_fields_of(n))
            except Unsupported as e:
                self.notes.add('struct %s not modelled: %s' % (n, e))
                self.tenv.value.discard(n)

    def struct_fields_of(self, n):
        c = self.prog.cls(n)
        out = []
        for b in c.bases:
            try:
                if b.startswith('std::'):
                    continue
                bt = self.tenv.parse(b)
                if bt.k == 'struct' and bt.a[0] != n:
                    out += self.struct_fields_of(bt.a[0])
            except Unsupported:
                pass
        for fn, ft, node in c.fields:
            t = self.tenv.parse(ft)
            if t.k == 'cls':
                raise Unsupported('entity member in value struct')
            out.append((fn, t))
        if not out:
            out = [('dummy', INT)]
        return out

    def is_polymorphic(self, n, seen=()):
        c = self.prog.cls(n)
        if c is None:
            return False
        if any(m.virtual for m in c.methods):
            return True
        for b in c.bases:
            bn = clean(b).split('<')[0]
            if bn not in seen and self.is_polymorphic(bn, tuple(seen) + (n,)):
                return True
        return False

    def field_ty(self, cls, f):
        k = (cls, f)
        if k in self._fty:
            return self._fty[k]
        c = self.prog.cls(cls)
        if c is not None:
            for fn, ft, node in c.fields:
                if fn == f:
                    t = self.tenv.parse(ft)
                    if t.k == 'cls':
                        t = REF(t.a[0])
                    self._fty[k] = t
                    return t
        if (cls, f) in self.opts.get('ghost_fields', {}):
            return self.opts['ghost_fields'][(cls, f)]
        raise SpecMismatch('no field %s.%s' % (cls, f))

    _fty = {}

    # ------------------------------------------------------------------ fresh / facts
    def fresh(self, sort, hint='v'):
        self.nfresh += 1
        return z3.Const('%s!%d' % (hint, self.nfresh), sort)

    def fresh_val(self, ty, hint='v', facts=True):
        t = self.fresh(S.sort(ty), hint)
        if facts:
            self.facts(t, ty)
        return t

    def facts(self, t, ty, depth=0):
        """type invariants of a well-typed value read from memory"""
        for f in self.type_facts(self.st, t, ty, depth):
            self.assume(f)

    def type_facts(self, st, t, ty, depth=0):
        k = ty.k
        if z3.is_int_value(t):
            return []
        if k == 'uint':
            return [t >= 0, t < 2 ** ty.a[0]]
        if k == 'int':
            return [t >= -2 ** (ty.a[0] - 1), t < 2 ** (ty.a[0] - 1)]
        if k in ('ref', 'cls'):
            return [t >= 0, t < st.alloc]
        if k == 'ptr':
            return [S.acc(ty, 0, t) >= 0, S.acc(ty, 0, t) < st.alloc]
        if k == 'list':
            return [S.llen(ty, t) >= 0]
        if k in ('struct', 'pair') and depth < 3:
            r = []
            for f, ft in S.struct_fields(ty):
                if ft.k in ('uint', 'int', 'ref', 'list', 'ptr', 'struct', 'pair'):
                    r += self.type_facts(st, S.fld(ty, f, t), ft, depth + 1)
            return r
        return []

    def assume(self, f):
        if z3.is_true(f):
            return
        i = f.get_id()
        if i in self.st.pcset:
            return
        self.st.pc.append(f)
        self.st.pcset.add(i)

    # ------------------------------------------------------------------ exploration
    def path_solver(self):
        s = z3.SimpleSolver() if False else z3.Solver()
        s.set('timeout', 150)
        return s

    def _sync(self):
        pc = self.st.pc
        if self.ps is None or self.ps_n > len(pc):
            self.ps = self.path_solver()
            self.ps_n = 0
        while self.ps_n < len(pc):
            f = pc[self.ps_n]
            if not has_quant(f):
                self.ps.add(f)
            self.ps_n += 1

    def feasible(self, cond):
        self._sync()
        self.ps.push()
        self.ps.add(cond)
        r = self.ps.check()
        self.ps.pop()
        return r != z3.unsat

    def choose(self, alts):
        """alts: list of alternatives (any values), returns the chosen"""
        ex = self.ex
        if ex.pos < len(ex.trace):
            a, i = ex.trace[ex.pos]
            ex.pos += 1
            return a[i]
        ex.trace.append([alts, 0])
        ex.pos += 1
        return alts[0]

    def branch(self, cond):
        cond = z3.simplify(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if cond.get_id() in self.st.pcset:
            return True
        ex = self.ex
        if ex.pos < len(ex.trace):
            r = self.choose(None)
        else:
            alts = []
            if self.feasible(cond):
                alts.append(True)
            if self.feasible(z3.Not(cond)):
                alts.append(False)
            if not alts:
                raise PathEnd()
            if len(alts) == 1:
                # forced: still assume for the record
                self.assume(cond if alts[0] else z3.Not(cond))
                ex.trace.append([alts, 0])
                ex.pos += 1
                return alts[0]
            r = self.choose(alts)
        self.assume(cond if r else z3.Not(cond))
        return r

    def surely(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = ('s', cond.get_id(), self.ex.pos)
        return not self.feasible(z3.Not(cond))

    def oblige(self, name, goal, kind='ensures'):
        if self.dry:
            self.assume(goal)
            return
        g = goal
        if z3.is_true(g):
            return
        if self.ex.pos > self.ex.flip or self.ex.flip < 0:
            self.obls.append(Obligation(name, list(self.st.pc), g, self.cur_fn_name, kind))
        self.assume(goal)

    # ------------------------------------------------------------------ memory
    def heap_arr(self, st, cls, f):
        k = (cls, f)
        if k not in st.heap:
            return z3.Const('H_%s_%s!0' % (cls, f), z3.ArraySort(z3.IntSort(), S.sort(self.field_ty(cls, f))))
        return st.heap[k]

    def mem_sel(self, st, ety, b):
        """contents of the array at b, looking through writes to arrays known to be others"""
        a = self.mem_arr(st, ety)
        if not self.opts.get('numeric'):
            return S.sel(a, b)
        n, known = getattr(st, 'apart', (0, frozenset()))
        if n < len(st.pc):
            known = known | solve_apart(st.pc[n:])
            st.apart = (len(st.pc), known)
        i = b.get_id()
        while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and not a.arg(1).eq(b) and (a.arg(1).get_id(), i) in known:
            a = a.arg(0)
        return S.sel(a, b)

    def mem_arr(self, st, ety):
        k = ety.key
        if k not in st.mem:
            return z3.Const('MEM_%s!0' % S._san(k), z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), S.sort(ety))))
        return st.mem[k]

    def ghost_get(self, st, name):
        if name not in st.ghost:
            return z3.Const('G_%s!0' % name, self.ghost_sorts[name])
        return st.ghost[name]

    def static_get(self, st, name):
        if name not in st.statics:
            return z3.Const('ST_%s!0' % S._san(name), S.sort(self.static_ty[name]))
        return st.statics[name]

    static_ty = {}
    atomics = set()

    def interfere(self, lv):
        """another thread may have advanced a shared atomic counter before this access"""
        if isinstance(lv, LV) and lv.root[0] == 'static' and lv.root[1] in self.atomics:
            old = self.load(lv)
            t = self.fresh_val(lv.ty, 'shared')
            self.assume(t >= old.t)
            if lv.ty.k == 'int':
                self.assume(t < 2 ** (lv.ty.a[0] - 1) - 1)      # the counter has room left (listed assumption)
            self.store(lv, SV(lv.ty, t))
            return True
        return False

    def touch_static(self, cls, name, room=False):
        for i, (c, nm, node) in self.prog.statics.items():
            if c == cls and nm == name:
                lv = self.static_lv(i)
                self.atomic_room = room
                return lv
        raise SpecMismatch('no static %s::%s' % (cls, name))

    def atomic_step(self, lv, old, new):
        if isinstance(lv, LV) and lv.root[0] == 'static' and lv.root[1] in self.atomics:
            self.st.asteps = getattr(self.st, 'asteps', ()) + ((lv.root[1], old, new),)

    def wrote(self, key, sub=None):
        d = self.st.writes.setdefault(key, {})
        d[None if sub is None else sub.get_id()] = sub

    def load_root(self, st, root):
        k = root[0]
        if k == 'local':
            v = st.locals.get(root[1])
            if isinstance(v, SV):
                return v.t
            raise Unsupported('load of non-scalar local %s' % (v,))
        if k == 'field':
            return S.sel(self.heap_arr(st, root[1], root[2]), root[3])
        if k == 'mem':
            return S.sel(self.mem_sel(st, root[1], root[2]), root[3])
        if k == 'static':
            return self.static_get(st, root[1])
        if k == 'temp':
            v = st.temps[root[1]]
            return v
        raise Unsupported('root ' + str(k))

    def load_in(self, st, lv):
        t = self.load_root(st, lv.root)
        for p in lv.path:
            t = self.step(t, p)
        return t

    def step(self, t, p):
        if p[0] == 'f':
            return S.fld(p[1], p[2], t)
        if p[0] == 'li':
            return S.sel(S.larr(p[1], t), p[2])
        if p[0] == 'mv':
            return S.sel(S.mval(p[1], t), p[2])
        if p[0] == 'ai':
            return S.sel(t, p[2])
        raise Unsupported('path')

    def root_ty(self, root):
        k = root[0]
        if k == 'local':
            return self.st.locals[root[1]].ty
        if k == 'field':
            return self.field_ty(root[1], root[2])
        if k == 'mem':
            return root[1]
        if k == 'static':
            return self.static_ty[root[1]]
        if k == 'temp':
            return root[2]

    def load(self, lv):
        if lv.root[0] == 'local' and not lv.path:
            v = self.st.locals.get(lv.root[1])
            if v is None:
                raise Unsupported('uninitialised local')
            if not isinstance(v, SV):
                return v
        if lv.root[0] == 'temp' and not lv.path:
            v = self.st.temps[lv.root[1]]
            if not isinstance(v, z3.AstRef):
                return v
        if lv.ty.k == 'arr' and False:
            pass
        t = self.load_in(self.st, lv)
        # only memory reads need type facts
        self.facts(t, lv.ty)
        return SV(lv.ty, t)

    def store_path(self, t, path, v):
        if not path:
            return v
        p = path[0]
        if p[0] == 'f':
            return S.upd(p[1], p[2], t, self.store_path(S.fld(p[1], p[2], t), path[1:], v))
        if p[0] == 'li':
            a = S.larr(p[1], t)
            e = self.store_path(S.sel(a, p[2]), path[1:], v)
            n = S.mk(p[1], z3.Store(a, p[2], e), S.llen(p[1], t))
            hook = self.opts.get('on_store')
            if hook is not None:
                for f in hook(self, p[1], t, n, p[2], e):
                    self.assume(f)
            return n
        if p[0] == 'mv':
            a = S.mval(p[1], t)
            return S.mk(p[1], S.mdom(p[1], t), z3.Store(a, p[2], self.store_path(S.sel(a, p[2]), path[1:], v)))
        if p[0] == 'ai':
            return z3.Store(t, p[2], self.store_path(S.sel(t, p[2]), path[1:], v))
        raise Unsupported('store path')

    def store(self, lv, v):
        st = self.st
        r = lv.root
        if r[0] == 'local':
            if not lv.path:
                if isinstance(v, SV):
                    v = self.coerce(v, lv.ty)
                st.locals[r[1]] = v
                self.wrote(('local', r[1]))
                return
            old = st.locals[r[1]]
            st.locals[r[1]] = SV(old.ty, self.store_path(old.t, lv.path, self.coerce(v, lv.ty).t))
            self.wrote(('local', r[1]))
            return
        if r[0] == 'temp':
            if not lv.path:
                st.temps[r[1]] = v.t if isinstance(v, SV) else v
            else:
                st.temps[r[1]] = self.store_path(st.temps[r[1]], lv.path, self.coerce(v, lv.ty).t)
            self.wrote(('temp', r[1]))
            return
        v = self.coerce(v, lv.ty)
        if r[0] == 'field':
            a = self.heap_arr(st, r[1], r[2])
            nv = self.store_path(S.sel(a, r[3]), lv.path, v.t)
            st.heap[(r[1], r[2])] = z3.Store(a, r[3], nv)
            self.wrote(('field', r[1], r[2]), r[3])
            return
        if r[0] == 'mem':
            a = self.mem_arr(st, r[1])
            inner = self.mem_sel(st, r[1], r[2])
            nv = self.store_path(S.sel(inner, r[3]), lv.path, v.t)
            if self.opts.get('numeric') and r[1] == BOOL and has_ite(nv):
                x = self.fresh(nv.sort(), 'stored')     # so that the array can be used in triggers
                self.assume(x == nv)
                nv = x
            st.mem[r[1].key] = z3.Store(a, r[2], z3.Store(inner, r[3], nv))
            self.wrote(('mem', r[1].key), r[2])
            return
        if r[0] == 'static':
            st.statics[r[1]] = self.store_path(self.static_get(st, r[1]), lv.path, v.t)
            self.wrote(('static', r[1]))
            return
        raise Unsupported('store root')

    def coerce(self, v, ty):
        """make sure the stored value has the sort of the destination"""
        if isinstance(v, LV):
            v = self.load(v)
        if isinstance(v, tuple) and v[0] == 'fn' and ty.k in ('int', 'ref', 'fn'):
            return SV(INT, z3.IntVal(strlit('fn:' + v[1]['referencedDecl']['name'])))
        if not isinstance(v, SV):
            if isinstance(v, PV) and ty.k == 'ptr':
                raise Unsupported('address of a variable stored to memory')
            raise Unsupported('storing %r' % type(v).__name__)
        if ty is None or v.ty == ty:
            return v
        s1, s2 = v.t.sort(), S.sort(ty)
        if s1 == s2:
            return SV(ty, v.t)
        if s1 == z3.IntSort() and s2 == z3.RealSort():
            return SV(ty, z3.ToReal(v.t))
        if s1 == z3.IntSort() and ty.k == 'ptr' and z3.is_int_value(v.t):
            return SV(ty, S.mk(ty, z3.IntVal(0), z3.IntVal(0)))
        raise Unsupported('coerce %s -> %s' % (v.ty, ty))

    def lv_desc(self, lv):
        r = lv.root
        if r[0] == 'field':
            d = '%s.%s' % (r[1], r[2])
        elif r[0] == 'local':
            d = 'local:%s' % self.names.get(r[1][1], '?')
        elif r[0] == 'mem':
            d = 'mem:%s' % r[1].key
        elif r[0] == 'static':
            d = 'static:%s' % r[1]
        else:
            d = 'temp'
        for p in lv.path:
            if p[0] == 'f':
                d += '.' + p[2]
            elif p[0] == 'li':
                d += '[]'
            elif p[0] == 'mv':
                d += '{}'
            else:
                d += '[]'
        return d

    # ------------------------------------------------------------------ temps
    def temp(self, v):
        """cell holding a temporary, as an lvalue"""
        self.nfresh += 1
        n = self.nfresh
        if isinstance(v, LV):
            return v
        self.st.temps[n] = v.t if isinstance(v, SV) else v
        ty = v.ty if isinstance(v, SV) else Ty('obj')
        return LV(('temp', n, ty), (), ty)

    def rv(self, v):
        """lvalue -> rvalue"""
        if isinstance(v, LV):
            return self.load(v)
        return v

    def as_lv(self, v):
        return v if isinstance(v, LV) else self.temp(v)

    # ------------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, 'ev_' + n['kind'], None)
        if m is None:
            raise Unsupported('expression %s' % n['kind'])
        return m(n)

    def evr(self, n):
        return self.rv(self.ev(n))

    def one(self, n):
        return next(c for c in n['inner'] if c.get('kind') and not c['kind'].endswith('Comment'))

    def passthru(self, n):
        return self.ev(self.one(n))

    ev_ParenExpr = ev_ExprWithCleanups = ev_CXXBindTemporaryExpr = ev_ConstantExpr = passthru
    ev_SubstNonTypeTemplateParmExpr = passthru

    def ev_MaterializeTemporaryExpr(self, n):
        v = self.ev(self.one(n))
        return self.as_lv(v)

    def ev_FullExpr(self, n):
        return self.passthru(n)

    def ty(self, n):
        return self.tenv.parse(n.get('type', {}))

    def ev_IntegerLiteral(self, n):
        return SV(self.ty(n), z3.IntVal(int(n['value'])))

    def ev_CXXBoolLiteralExpr(self, n):
        return SV(BOOL, z3.BoolVal(bool(n['value'])))

    def ev_CharacterLiteral(self, n):
        return SV(self.ty(n), z3.IntVal(int(n['value'])))

    def ev_FloatingLiteral(self, n):
        return SV(REAL, real_lit(n['value']))

    def ev_StringLiteral(self, n):
        return SV(STR, z3.IntVal(strlit(n['value'])))

    def ev_PredefinedExpr(self, n):
        return SV(STR, z3.IntVal(1))

    def ev_SourceLocExpr(self, n):
        return SV(INT, z3.IntVal(0))

    def ev_CXXNullPtrLiteralExpr(self, n):
        return SV(REF('void'), z3.IntVal(0))

    ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr

    def ev_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof' and n.get('argType') is not None:
            t = self.tenv.parse(n['argType'])
            sz = self.SIZES.get(t.k) or (t.a[0] // 8 if t.k in ('int', 'uint') else None)
            if sz:
                return SV(ULONG, z3.IntVal(sz))
        return SV(ULONG, self.fresh_val(ULONG, 'sizeof'))

    def ev_CXXThisExpr(self, n):
        return self.frames_this[-1]

    def ev_CXXDefaultArgExpr(self, n):
        if n.get('inner'):
            return self.passthru(n)
        raise Unsupported('default argument without expression')

    def ev_CXXDefaultInitExpr(self, n):
        if n.get('inner'):
            return self.passthru(n)
        raise Unsupported('default init')

    def ev_ImplicitValueInitExpr(self, n):
        return self.zero_value(self.ty(n))

    def ev_CXXScalarValueInitExpr(self, n):
        return self.zero_value(self.ty(n))

    def ev_OpaqueValueExpr(self, n):
        return self.passthru(n)

    def zero_value(self, ty):
        k = ty.k
        if k in ('int', 'uint', 'ref', 'str', 'enum'):
            return SV(ty, z3.IntVal(0))
        if k in ('real',):
            return SV(ty, z3.RealVal(0))
        if k == 'bool':
            return SV(ty, z3.BoolVal(False))
        if k == 'ptr':
            return SV(ty, S.mk(ty, z3.IntVal(0), z3.IntVal(0)))
        return self.default_value(ty)

    def default_value(self, ty):
        """default-initialised value of a type (uninitialised scalars are arbitrary)"""
        k = ty.k
        if k == 'list':
            return SV(ty, S.empty_list(ty))
        if k == 'set':
            return SV(ty, S.empty_set(ty))
        if k == 'map':
            return SV(ty, S.mk(ty, z3.K(S.sort(ty.a[0]), z3.BoolVal(False)),
                               z3.Const('nilmap_' + S._san(ty.key), z3.ArraySort(S.sort(ty.a[0]), S.sort(ty.a[1])))))
        if k == 'pair':
            return SV(ty, S.mk(ty, self.zero_value(ty.a[0]).t, self.zero_value(ty.a[1]).t))
        if k == 'str':
            return SV(ty, z3.IntVal(0))
        if k == 'struct':
            return self.construct_struct(ty, [], None)
        if k in ('fn', 'iter', 'obj'):
            return Junk(k)
        return SV(ty, self.fresh_val(ty, 'uninit'))

    def ev_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        k = rd['kind']
        i = rd['id']
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl', 'DecompositionDecl'):
            for fr in self.visible_frames():
                v = self.st.locals.get((fr, i))
                if v is not None:
                    if isinstance(v, LV):
                        return v
                    return LV(('local', (fr, i)), (), v.ty if isinstance(v, SV) else Ty('obj'))
            if i in self.prog.statics:
                return self.static_lv(i)
            raise Unsupported('unknown variable %s' % rd.get('name'))
        if k == 'EnumConstantDecl':
            if i in self.prog.enums:
                return SV(INT, z3.IntVal(self.prog.enums[i]))
            return SV(INT, z3.IntVal(strlit('enum:' + rd['name'])))
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return ('fn', n)
        raise Unsupported('DeclRef ' + k)

    def visible_frames(self):
        return self.frames_vis[-1]

    def static_lv(self, i):
        cls, name, node = self.prog.statics[i]
        q = (cls + '::' if cls else '') + name
        ty = self.tenv.parse(node.get('type', {}))
        self.static_ty[q] = ty
        if 'atomic' in tstr(node.get('type', {})):
            self.atomics.add(q)
        return LV(('static', q), (), ty)

    def deref(self, v, n=None):
        """value -> lvalue it points to"""
        v = self.rv(v)
        if isinstance(v, PV):
            return self.pv_lv(v)
        if isinstance(v, It):
            return self.it_deref(v)
        if isinstance(v, SV):
            if v.ty.k == 'ptr':
                b, o = S.acc(v.ty, 0, v.t), S.acc(v.ty, 1, v.t)
                return self.mem_lv(v.ty.a[0], b, o)
            if v.ty.k in ('ref', 'cls'):
                self.oblige('null dereference', v.t != 0, 'safety')
                return v
            if v.ty.k in ('pair', 'struct'):
                return v    # set iterator's operator->
        raise Unsupported('deref of %r' % (v,))

    def pv_lv(self, v):
        lv = v.lv
        if lv.ty.k == 'arr':
            off = v.off if v.off is not None else z3.IntVal(0)
            if lv.ty.a[1]:
                self.oblige('array index in bounds', z3.And(off >= 0, off < lv.ty.a[1]), 'safety')
            return LV(lv.root, lv.path + (('ai', lv.ty, off),), lv.ty.a[0])
        return lv

    def mem_lv(self, ety, b, o):
        self.oblige('pointer in bounds', z3.And(S.sel(self.st.malive, b), o >= 0, o < S.sel(self.st.mlen, b), b != 0), 'safety')
        return LV(('mem', ety, b, o), (), ety)

    def ev_MemberExpr(self, n):
        mid = n.get('referencedMemberDecl')
        base = self.ev(self.one(n))
        if mid in self.prog.fn_byid or n.get('type', {}).get('qualType', '').startswith('<bound member'):
            return ('method', n, base)
        name = n.get('name')
        if n.get('isArrow'):
            base = self.rv(base)
            if isinstance(base, SV) and base.ty.k == 'ref':
                obj = base
                self.oblige('null dereference', obj.t != 0, 'safety') if not self.is_this(obj) else None
            else:
                obj = self.deref(base)
        else:
            obj = base
        return self.member(obj, mid, name)

    def is_this(self, v):
        t = self.frames_this[-1]
        return isinstance(t, SV) and t.t.eq(v.t)

    def member(self, obj, mid, name):
        if isinstance(obj, LV) and obj.ty.k in ('ref', 'cls') and obj.ty.k != 'struct':
            obj = self.load(obj)
        if isinstance(obj, SV) and obj.ty.k in ('ref', 'cls'):
            if mid in self.prog.field_byid:
                cls, fname, node = self.prog.field_byid[mid]
                return self.field_lv(cls, fname, obj.t)
            if mid in self.prog.statics:
                return self.static_lv(mid)
            raise Unsupported('member %s of %s' % (name, obj.ty))
        if mid in self.prog.statics:
            return self.static_lv(mid)
        lv = self.as_lv(obj)
        if lv.ty.k in ('pair', 'struct'):
            ft = S.ftype(lv.ty, name)
            return LV(lv.root, lv.path + (('f', lv.ty, name),), ft)
        v = self.rv(obj)
        if isinstance(v, MapRef):
            return v.member(self, name)
        raise Unsupported('member %s of %s' % (name, lv.ty))

    def field_lv(self, cls, fname, ref):
        fnode = None
        c = self.prog.cls(cls)
        ty = None
        for f, ft, node in c.fields:
            if f == fname:
                ty = self.tenv.parse(ft)
                isref = is_ref(ft)
                break
        if ty.k == 'cls':       # sub-object of entity class: represented by a fixed reference
            ty2 = REF(ty.a[0])
            t = S.sel(self.heap_arr(self.st, cls, fname), ref)
            self._fty[(cls, fname)] = ty2
            self.assume(t != 0)
            self.facts(t, ty2)
            return SV(ty2, t)
        return LV(('field', cls, fname, ref), (), ty)

    def ev_ArraySubscriptExpr(self, n):
        b = self.ev(n['inner'][0])
        i = self.evr(n['inner'][1])
        b = self.rv(b)
        return self.index(b, i.t)

    def index(self, b, i):
        if isinstance(b, PV):
            off = i if b.off is None else b.off + i
            if b.lv.ty.k == 'arr':
                return self.pv_lv(PV(b.lv, off))
            if b.lv.path and b.lv.path[-1][0] == 'li':
                lt = b.lv.path[-1]
                lv0 = LV(b.lv.root, b.lv.path[:-1], lt[1])
                return self.list_elem(lv0, lt[2] + off)
            raise Unsupported('indexing address-of')
        if isinstance(b, SV) and b.ty.k == 'ptr':
            return self.mem_lv(b.ty.a[0], S.acc(b.ty, 0, b.t), z3.simplify(S.acc(b.ty, 1, b.t) + i))
        raise Unsupported('subscript of %r' % (b,))

    def list_elem(self, lv, i, check=True):
        t = self.load_in(self.st, lv)
        if check:
            self.oblige('container index in bounds', z3.And(i >= 0, i < S.llen(lv.ty, t)), 'safety')
        return LV(lv.root, lv.path + (('li', lv.ty, i),), lv.ty.a[0])

    # ---- casts
    def ev_ImplicitCastExpr(self, n):
        ck = n['castKind']
        c = self.one(n)
        if ck in ('LValueToRValue',):
            return self.rv(self.ev(c))
        if ck in ('NoOp', 'FunctionToPointerDecay', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion',
                  'UserDefinedConversion', 'AtomicToNonAtomic', 'NonAtomicToAtomic', 'BuiltinFnToFnPtr', 'BaseToDerived', 'Dynamic'):
            v = self.ev(c)
            if ck == 'Dynamic':
                return self.dyn_cast(self.rv(v), self.ty(n))
            return v
        if ck == 'ToVoid':
            self.ev(c)
            return None
        if ck == 'ArrayToPointerDecay':
            v = self.ev(c)
            if isinstance(v, SV) and v.ty.k == 'str':
                return v
            if isinstance(v, LV) and v.ty.k == 'arr':
                return PV(v, None)
            return v
        v = self.rv(self.ev(c))
        if ck == 'NullToPointer':
            t = self.tenv.parse(n['type'])
            if t.k == 'ptr':
                return SV(t, S.mk(t, z3.IntVal(0), z3.IntVal(0)))
            return SV(t, z3.IntVal(0))
        if ck == 'BitCast':
            t = self.tenv.parse(n['type'])
            if isinstance(v, SV) and v.ty.k == 'ref' and t.k == 'ref':
                return SV(t if t.a[0] != 'void' else v.ty, v.t)
            return v
        return self.cast_num(v, self.ty(n), ck)

    ev_CXXStaticCastExpr = ev_CStyleCastExpr = ev_CXXFunctionalCastExpr = ev_CXXReinterpretCastExpr = ev_CXXConstCastExpr = ev_ImplicitCastExpr
    ev_CXXDynamicCastExpr = ev_ImplicitCastExpr

    def dyn_cast(self, v, ty):
        f = self.externs.get('dynamic_cast')
        if f is None:
            raise Unsupported('dynamic_cast')
        return f(self, v, ty)

    def cast_num(self, v, ty, ck):
        if not isinstance(v, SV):
            if ck == 'PointerToBoolean':
                return SV(BOOL, z3.BoolVal(True))
            raise Unsupported('cast %s of %r' % (ck, v))
        if ck == 'IntegralToBoolean':
            return SV(BOOL, v.t != 0)
        if ck == 'PointerToBoolean':
            return SV(BOOL, self.ptr_nonnull(v))
        if ck == 'FloatingToBoolean':
            return SV(BOOL, v.t != 0)
        if ck == 'IntegralToFloating':
            t = z3.If(v.t, z3.RealVal(1), z3.RealVal(0)) if v.ty.k == 'bool' else (
                z3.RealVal(v.t.as_long()) if z3.is_int_value(v.t) else z3.ToReal(v.t))
            return SV(REAL, t)
        if ck == 'FloatingToIntegral':
            t = z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t))
            return SV(ty, t)
        if ck == 'FloatingCast':
            return SV(ty, v.t)
        if ck == 'IntegralCast':
            if v.ty.k == 'bool':
                return SV(ty, z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
            return self.fit(v.t, ty, v.ty)
        if ck in ('IntegralToPointer', 'PointerToIntegral'):
            raise Unsupported(ck)
        raise Unsupported('cast ' + ck)

    def fit(self, t, ty, src=None):
        """value t (mathematical) converted to integer type ty"""
        if ty.k not in ('uint', 'int'):
            return SV(ty, t)
        b = ty.a[0]
        lo, hi = (0, 2 ** b - 1) if ty.k == 'uint' else (-2 ** (b - 1), 2 ** (b - 1) - 1)
        if z3.is_int_value(t):
            v = t.as_long()
            if not (lo <= v <= hi):
                v = (v - lo) % (2 ** b) + lo
            return SV(ty, z3.IntVal(v))
        if src is not None and src.k in ('uint', 'int'):
            sb = src.a[0]
            slo, shi = (0, 2 ** sb - 1) if src.k == 'uint' else (-2 ** (sb - 1), 2 ** (sb - 1) - 1)
            if lo <= slo and shi <= hi:
                return SV(ty, t)
        if self.decide(z3.And(t >= lo, t <= hi)):
            return SV(ty, t)
        if ty.k == 'uint':
            return SV(ty, t % z3.IntVal(2 ** b))
        return SV(ty, (t - lo) % z3.IntVal(2 ** b) + lo)

    def decide(self, cond):
        """is cond entailed by the ground path facts?  (cached in the decision trace for determinism)"""
        ex = self.ex
        if ex.pos < len(ex.trace):
            a, i = ex.trace[ex.pos]
            ex.pos += 1
            return a[i]
        r = self.surely(cond)
        ex.trace.append([[r], 0])
        ex.pos += 1
        return r

    def ptr_nonnull(self, v):
        if v.ty.k == 'ptr':
            return S.acc(v.ty, 0, v.t) != 0
        return v.t != 0

    # ---- operators
    def arith(self, op, a, b, ty):
        """a,b SV; result type ty"""
        if a.ty.k == 'ptr' or b.ty.k == 'ptr':
            if op in '+-' and b.ty.k in ('int', 'uint'):
                o = S.acc(a.ty, 1, a.t) + (b.t if op == '+' else -b.t)
                return SV(a.ty, S.mk(a.ty, S.acc(a.ty, 0, a.t), z3.simplify(o)))
            raise Unsupported('pointer arithmetic')
        if ty.k == 'real':
            x, y = a.t, b.t
            if op == '+':
                return SV(REAL, x + y)
            if op == '-':
                return SV(REAL, x - y)
            if op == '*':
                return SV(REAL, x * y)
            if op == '/':
                return SV(REAL, x / y)
            raise Unsupported('real ' + op)
        if ty.k in ('int', 'uint'):
            x, y = a.t, b.t
            if x.sort() == z3.BoolSort():
                x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
            if y.sort() == z3.BoolSort():
                y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
            if op == '+':
                r = x + y
            elif op == '-':
                r = x - y
            elif op == '*':
                r = x * y
            elif op in ('/', '%'):
                self.oblige('division by zero', y != 0, 'safety')
                if ty.k == 'uint':
                    return SV(ty, x / y if op == '/' else x % y)
                q = z3.If(z3.And(x >= 0, y > 0), x / y, z3.If(z3.And(x < 0, y > 0), -((-x) / y), z3.If(
                    z3.And(x >= 0, y < 0), -(x / (-y)), (-x) / (-y))))
                if z3.is_int_value(y) and y.as_long() > 0 and self.decide(x >= 0):
                    q = x / y
                return SV(ty, q if op == '/' else x - y * q)
            elif op == '<<' and z3.is_int_value(y):
                r = x * (2 ** y.as_long())
            elif op == '>>' and z3.is_int_value(y):
                return SV(ty, x / (2 ** y.as_long()))
            elif op == '&' and z3.is_int_value(y) and y.as_long() == 1:
                return SV(ty, x % 2)
            elif op == '&' and z3.is_int_value(x) and x.as_long() == 1:
                return SV(ty, y % 2)
            else:
                raise Unsupported('integer operator ' + op)
            r = z3.simplify(r) if z3.is_int_value(x) and z3.is_int_value(y) else r
            if ty.k == 'uint':
                return self.fit(r, ty)
            if self.opts.get('overflow') and not z3.is_int_value(r):
                b = ty.a[0]
                self.oblige('no signed overflow', z3.And(r >= -2 ** (b - 1), r < 2 ** (b - 1)), 'safety')
            else:
                self.notes.add('signed integer overflow assumed absent')
            return SV(ty, r)
        if ty.k == 'bool' or a.ty.k == 'bool':
            if op == '&':
                return SV(BOOL, z3.And(a.t, b.t))
            if op == '|':
                return SV(BOOL, z3.Or(a.t, b.t))
        raise Unsupported('arith %s on %s' % (op, ty))

    def compare(self, op, a, b):
        if isinstance(a, It) or isinstance(b, It):
            return self.it_cmp(op, a, b)
        if isinstance(a, PV) or isinstance(b, PV):
            if isinstance(a, PV) and isinstance(b, PV) and a.lv.same(b.lv):
                r = z3.BoolVal(True)
            elif isinstance(a, PV) and isinstance(b, SV) and self.is_null(b) or isinstance(b, PV) and isinstance(a, SV) and self.is_null(a):
                r = z3.BoolVal(False)
            elif op in ('==', '!=') and isinstance(a, PV) and isinstance(b, PV) and a.off is None and b.off is None and not a.lv.path and not b.lv.path and \
                    len(self.frames_no) == 1 and a.lv.root[0] == b.lv.root[0] == 'temp' and _keyt(a.lv.root) != _keyt(b.lv.root):
                r = z3.BoolVal(False)   # two arguments (a contract about one object taken twice has its own variant)
            else:
                raise Unsupported('pointer comparison')
            return SV(BOOL, r if op == '==' else z3.Not(r))
        x, y = a.t, b.t
        if x.sort() != y.sort():
            if a.ty.k == 'ptr' and self.is_null(b):
                y = S.mk(a.ty, z3.IntVal(0), z3.IntVal(0))
            elif b.ty.k == 'ptr' and self.is_null(a):
                x = S.mk(b.ty, z3.IntVal(0), z3.IntVal(0))
            elif x.sort() == z3.BoolSort():
                x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
            elif y.sort() == z3.BoolSort():
                y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
            elif x.sort() == z3.IntSort():
                x = z3.ToReal(x)
            elif y.sort() == z3.IntSort():
                y = z3.ToReal(y)
        if a.ty.k == 'ptr' and op in ('<', '<=', '>', '>='):
            x, y = S.acc(a.ty, 1, x), S.acc(a.ty, 1, y)
        r = {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y,
             '>=': lambda: x >= y}[op]()
        return SV(BOOL, r)

    def is_null(self, v):
        return isinstance(v, SV) and z3.is_int_value(v.t) and v.t.as_long() == 0

    def ev_BinaryOperator(self, n):
        op = n['opcode']
        l, r = n['inner'][0], n['inner'][1]
        if op == '&&':
            if not self.branch(self.cond(l)):
                return SV(BOOL, z3.BoolVal(False))
            return SV(BOOL, self.cond(r))
        if op == '||':
            if self.branch(self.cond(l)):
                return SV(BOOL, z3.BoolVal(True))
            return SV(BOOL, self.cond(r))
        if op == ',':
            self.ev(l)
            return self.ev(r)
        if op == '=':
            v = self.rv(self.ev(r))
            lv = self.ev(l)
            self.assign(lv, v)
            return lv
        a, b = self.evr(l), self.evr(r)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(op, a, b)
        if isinstance(a, PV) and op in '+-':
            off = b.t if op == '+' else -b.t
            return PV(a.lv, off if a.off is None else a.off + off)
        if isinstance(b, PV) and op == '+':
            return PV(b.lv, a.t if b.off is None else b.off + a.t)
        if op == '-' and a.ty.k == 'ptr' and b.ty.k == 'ptr':
            return SV(LONG, S.acc(a.ty, 1, a.t) - S.acc(b.ty, 1, b.t))
        if b.ty.k == 'ptr' and op == '+':
            a, b = b, a
        t = self.ty(n) if a.ty.k != 'ptr' else a.ty
        return self.arith(op, a, b, t)

    def assign(self, lv, v):
        if not isinstance(lv, LV):
            if isinstance(lv, MapRef):
                raise Unsupported('assign map element')
            raise Unsupported('assign to %r' % (lv,))
        self.store(lv, v)

    def ev_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        b = self.evr(n['inner'][1])
        lv = self.ev(n['inner'][0])
        a = self.rv(lv)
        ct = self.tenv.parse(n.get('computeResultType', n['type']))
        if isinstance(a, PV):
            self.store(lv, PV(a.lv, (b.t if op == '+' else -b.t) if a.off is None else a.off + (b.t if op == '+' else -b.t)))
            return lv
        if a.ty.k == 'ptr':
            ct = a.ty
        elif ct.k == 'real' and a.ty.k in ('int', 'uint'):
            a = SV(REAL, z3.ToReal(a.t))
            if b.ty.k in ('int', 'uint'):
                b = SV(REAL, z3.ToReal(b.t))
            r = self.arith(op, a, b, ct)
            self.store(lv, self.cast_num(r, lv.ty, 'FloatingToIntegral'))
            return lv
        elif ct.k == 'real' and b.ty.k in ('int', 'uint'):
            b = SV(REAL, z3.ToReal(b.t))
        r = self.arith(op, a, b, ct)
        if ct.k in ('int', 'uint') and lv.ty.k in ('int', 'uint') and ct != lv.ty:
            r = self.fit(r.t, lv.ty, ct)
        self.store(lv, r)
        return lv

    def ev_UnaryOperator(self, n):
        op = n['opcode']
        c = n['inner'][0]
        if op in ('__extension__',):
            return self.ev(c)
        if op == '!':
            return SV(BOOL, z3.Not(self.cond(c)))
        if op == '*':
            return self.deref(self.ev(c))
        if op == '&':
            v = self.ev(c)
            if isinstance(v, LV):
                if v.root[0] == 'mem' and not v.path:
                    return SV(PTR(v.root[1]), S.mk(PTR(v.root[1]), v.root[2], v.root[3]))
                if v.path and v.path[-1][0] == 'ai':
                    p = v.path[-1]
                    return PV(LV(v.root, v.path[:-1], p[1]), p[2])
                return PV(v)
            if isinstance(v, SV) and v.ty.k in ('ref', 'cls'):
                return v
            raise Unsupported('address of %r' % (v,))
        if op in ('++', '--'):
            lv = self.ev(c)
            a = self.rv(lv)
            if isinstance(a, PV):
                d = z3.IntVal(1 if op == '++' else -1)
                self.store(lv, PV(a.lv, d if a.off is None else a.off + d))
                return a if n.get('isPostfix') else lv
            one = SV(a.ty if a.ty.k != 'ptr' else INT, z3.RealVal(1) if a.ty.k == 'real' else z3.IntVal(1))
            r = self.arith('+' if op == '++' else '-', a, one, a.ty)
            self.store(lv, r)
            return a if n.get('isPostfix') else lv
        v = self.evr(c)
        if op == '-':
            if v.ty.k == 'uint':
                return self.fit(-v.t, v.ty)
            return SV(v.ty if v.ty.k != 'bool' else INT, z3.simplify(-v.t) if is_num(v.t) else -v.t)
        if op == '+':
            return v
        raise Unsupported('unary ' + op)

    def cond(self, n):
        v = self.evr(n)
        return self.truth(v)

    def truth(self, v):
        if isinstance(v, PV):
            return z3.BoolVal(True)
        if v.ty.k == 'bool':
            return v.t
        if v.ty.k in ('ref', 'ptr'):
            return self.ptr_nonnull(v)
        return v.t != 0

    def ev_ConditionalOperator(self, n):
        c, a, b = n['inner']
        if self.branch(self.cond(c)):
            return self.ev(a)
        return self.ev(b)

    # ---- construction
    def ev_CXXConstructExpr(self, n):
        args = [c for c in n.get('inner', []) if c.get('kind')]
        ty = self.ty(n)
        return self.construct(ty, args, n)

    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def construct(self, ty, args, n):
        ctor = n.get('ctorType', {}).get('qualType', '') if n else ''
        if ty.k == 'arr':
            return self.default_array(ty)
        if ty.k == 'struct':
            return self.construct_struct(ty, args, n)
        if ty.k == 'cls':
            raise Unsupported('by-value entity object ' + ty.a[0])
        if ty.k == 'iter':
            if len(args) >= 1:
                v = self.rv(self.ev(args[0]))
                return v.copy() if isinstance(v, It) else v
            return Junk('iter')
        if ty.k == 'fn':
            return self.rv(self.ev(args[0])) if args else Junk('fn')
        real = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        if ty.k in ('ref', 'ptr') and real:     # smart pointers
            v = self.rv(self.ev(real[0]))
            if isinstance(v, SV) and v.ty.k == 'ref' and v.ty.a[0] == 'void' and not z3.is_int_value(v.t):
                return v
            return SV(ty, v.t) if isinstance(v, SV) and v.t.sort() == S.sort(ty) else self.coerce(v, ty)
        if not real:
            if ty.k in ('ref', 'ptr'):
                return self.zero_value(ty)
            return self.default_value(ty)
        if ty == VAL and n and self.any_name(n) == 'any':
            v = self.rv(self.ev(real[0]))
            if isinstance(v, SV) and v.ty != VAL:
                return self.make_any(v, self.any_name(real[0]))
            return v
        if ty.k == 'pair':
            vs = [self.rv(self.ev(a)) for a in real]
            if len(vs) == 1:
                if vs[0].ty == ty:
                    return vs[0]
                src = vs[0]
                return SV(ty, S.mk(ty, *[self.coerce(SV(src.ty.a[i], S.acc(src.ty, i, src.t)), ty.a[i]).t for i in (0, 1)]))
            return SV(ty, S.mk(ty, self.coerce(vs[0], ty.a[0]).t, self.coerce(vs[1], ty.a[1]).t))
        if ty.k in ('list',):
            v = self.rv(self.ev(real[0]))
            if isinstance(v, SV) and v.ty == ty:
                return v
            if isinstance(v, SV) and v.ty.k in ('int', 'uint') and len(real) <= 2:
                if len(real) == 2:
                    e = self.coerce(self.rv(self.ev(real[1])), ty.a[0]).t
                else:
                    e = self.zero_value(ty.a[0]).t
                return SV(ty, S.mk(ty, z3.K(z3.IntSort(), e), v.t))
            raise Unsupported('list construction from %s' % (v,))
        if len(real) == 1:
            v = self.rv(self.ev(real[0]))
            if isinstance(v, Junk):
                return v
            if isinstance(v, SV):
                if v.ty == ty or v.t.sort() == S.sort(ty):
                    return SV(ty, v.t)
                return self.coerce(v, ty)
        if ty.k == 'str':
            return SV(STR, self.fresh_val(STR, 'str'))
        raise Unsupported('construct %s' % ty)

    def default_array(self, ty):
        el = ty.a[0]
        if el.k == 'struct' and ty.a[1] and ty.a[1] <= 4:
            a = self.fresh(S.sort(ty), 'arr')
            for i in range(ty.a[1]):
                a = z3.Store(a, i, self.default_value(el).t)
            return SV(ty, a)
        return SV(ty, self.fresh(S.sort(ty), 'arr'))

    def find_ctor(self, cname, ctor_type, nargs):
        c = self.prog.cls(cname)
        cs = [m for m in c.methods if m.kind == 'CXXConstructorDecl']
        e = [m for m in cs if m.type == ctor_type]
        if not e:
            norm = lambda s: re.sub(r'\s+', '', clean(s))
            e = [m for m in cs if norm(m.type) == norm(ctor_type)]
        if not e:
            e = [m for m in cs if len(m.params) == nargs]
        return e[0] if e else None

    def construct_struct(self, ty, args, n):
        cname = ty.a[0]
        c = self.prog.cls(cname)
        ct = n.get('ctorType', {}).get('qualType', '') if n else 'void ()'
        m = self.find_ctor(cname, ct, len(args)) if c else None
        if len(args) == 1 and (m is None or m.defaulted) and self.ty(args[0]) == ty:
            v = self.rv(self.ev(args[0]))      # implicit copy or move
            if isinstance(v, SV) and v.ty == ty:
                return v
        if m is None or m.body is None:
            # implicit / defaulted constructor
            if len(args) == 1:
                v = self.rv(self.ev(args[0]))
                if isinstance(v, SV) and v.ty == ty:
                    return v
            if not args:
                parts = []
                for f, ft in S.struct_fields(ty):
                    init = self.field_init(cname, f)
                    parts.append(self.coerce(self.rv(self.ev(init)), ft).t if init is not None else self.default_member(ft))
                return SV(ty, S.mk(ty, *parts))
            raise Unsupported('constructor of ' + cname)
        cell = self.temp(SV(ty, S.mk(ty, *[self.fresh(S.sort(ft), 'u') for f, ft in S.struct_fields(ty)])))
        vals = [self.eval_arg(a, p) for a, p in zip(args, m.params)]
        self.run_ctor(m, PV(cell), vals)
        return SV(ty, self.st.temps[cell.root[1]])

    def default_member(self, ft):
        if ft.k == 'arr':
            return self.default_array(ft).t
        if ft.k in ('ref',):
            return z3.IntVal(0)   # smart pointers; raw pointers uninitialised -> see note
        v = self.default_value(ft)
        return v.t

    def field_init(self, cname, f):
        c = self.prog.cls(cname)
        for fn, ft, node in c.fields if c else ():
            if fn == f and node.get('hasInClassInitializer'):
                for x in node.get('inner', []):
                    if x.get('kind') and not x['kind'].endswith('Comment'):
                        return x
        return None

    def run_ctor(self, m, this, vals):
        """execute initialisers and body of constructor m on `this`"""
        self.inlined.add(m.key)
        self.push_frame(m, this, vals)
        try:
            self.ctor_inits(m, this)
            self.exec_body(m)
        finally:
            self.pop_frame()

    def ctor_inits(self, m, this):
        inited = set()
        for i in m.inits:
            e = self.one(i) if i.get('inner') else None
            if 'anyInit' in i:
                f = i['anyInit']
                name = f['name']
                inited.add(name)
                if isinstance(this, PV):
                    ft = S.ftype(this.lv.ty, name)
                    lv = LV(this.lv.root, this.lv.path + (('f', this.lv.ty, name),), ft)
                    if e is not None:
                        self.store(lv, self.init_value(e, ft))
                else:
                    cls = self.prog.field_byid[f['id']][0] if f['id'] in self.prog.field_byid else m.cls
                    lv = self.field_lv(cls, name, this.t)
                    if isinstance(lv, SV):
                        self.construct_sub(lv, e)
                        continue
                    if e is not None:
                        self.store(lv, self.init_value(e, lv.ty))
            elif 'baseInit' in i and e is not None:
                bt = clean(tstr(i['baseInit'])).split('<')[0]
                bc = self.prog.cls(bt) if not tstr(i['baseInit']).startswith('std::') else None
                if bc is not None and e.get('kind') == 'CXXConstructExpr':
                    args = [c for c in e.get('inner', []) if c.get('kind')]
                    bm = self.find_ctor(bt, e.get('ctorType', {}).get('qualType', ''), len(args))
                    if bm is not None and bm.body is not None:
                        vals = [self.eval_arg(a, p) for a, p in zip(args, bm.params)]
                        con = self.contract_of(bm)
                        if con is not None:
                            self.call_contract(con, bm, this, vals)
                        else:
                            self.run_ctor(bm, this, vals)
                elif bc is None:
                    pass

    def construct_sub(self, sv, e):
        """construct an entity sub-object in place"""
        while e is not None and e.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
            e = self.one(e)
        if e is None:
            return
        if e['kind'] == 'CXXConstructExpr':
            args = [c for c in e.get('inner', []) if c.get('kind')]
            cn = sv.ty.a[0]
            m = self.find_ctor(cn, e.get('ctorType', {}).get('qualType', ''), len(args))
            if m is None:
                return
            vals = [self.eval_arg(a, p) for a, p in zip(args, m.params)]
            con = self.contract_of(m)
            if con is not None:
                self.call_contract(con, m, sv, vals)
            elif m.body is not None:
                self.run_ctor(m, sv, vals)
            return
        raise Unsupported('sub-object init')

    def init_value(self, e, ty):
        v = self.ev(e)
        return self.rv(v)

    def ev_InitListExpr(self, n):
        ty = self.ty(n)
        vs = [self.rv(self.ev(c)) for c in n.get('inner', []) if c.get('kind')]
        if ty.k == 'arr':
            a = self.fresh(S.sort(ty), 'arr')
            for i, v in enumerate(vs):
                a = z3.Store(a, i, self.coerce(v, ty.a[0]).t)
            for i in range(len(vs), ty.a[1] if ty.a[1] <= 64 else 0):
                a = z3.Store(a, i, self.zero_value(ty.a[0]).t)
            return SV(ty, a)
        if ty.k in ('struct', 'pair'):
            fs = S.struct_fields(ty)
            parts = [self.coerce(v, ft).t for v, (f, ft) in zip(vs, fs)]
            for f, ft in fs[len(vs):]:
                parts.append(self.default_member(ft))
            return SV(ty, S.mk(ty, *parts))
        if len(vs) == 1:
            return self.coerce(vs[0], ty)
        if not vs:
            return self.zero_value(ty)
        raise Unsupported('init list ' + str(ty))

    def new_ref(self):
        r = self.st.alloc
        nr = self.fresh(z3.IntSort(), 'alloc')
        self.assume(nr == r + 1)
        self.assume(r > 0)
        self.st.alloc = nr
        self.wrote(('alloc',))
        return r

    def ev_CXXNewExpr(self, n):
        kids = [c for c in n.get('inner', []) if c.get('kind')]
        ty = self.tenv.parse(n['type'])
        if n.get('isArray'):
            size = self.evr(kids[0])
            et = ty.a[0]
            if len(kids) > 1 and et.k == 'struct':
                dv = self.default_value(et).t
                arr = z3.K(z3.IntSort(), dv)
            elif len(kids) > 1 and kids[1]['kind'] in ('ImplicitValueInitExpr', 'InitListExpr'):
                arr = z3.K(z3.IntSort(), self.zero_value(et).t)
            elif et.k == 'ref':
                raise Unsupported('new array of pointers')
            else:
                arr = self.fresh(z3.ArraySort(z3.IntSort(), S.sort(et)), 'newarr')
            b = self.new_ref()
            self.st.mem[et.key] = z3.Store(self.mem_arr(self.st, et), b, arr)
            self.st.mlen = z3.Store(self.st.mlen, b, size.t)
            self.st.malive = z3.Store(self.st.malive, b, z3.BoolVal(True))
            self.wrote(('mem', et.key), b)
            self.wrote(('mlen',), b)
            self.wrote(('malive',), b)
            return SV(PTR(et), S.mk(PTR(et), b, z3.IntVal(0)))
        if ty.k == 'ref':
            r = self.new_ref()
            v = SV(ty, r)
            if kids and kids[0]['kind'] in ('CXXConstructExpr',):
                e = kids[0]
                args = [c for c in e.get('inner', []) if c.get('kind')]
                cn = ty.a[0]
                m = self.find_ctor(cn, e.get('ctorType', {}).get('qualType', ''), len(args)) if self.prog.cls(cn) else None
                if m is None:
                    raise Unsupported('new ' + cn)
                vals = [self.eval_arg(a, p) for a, p in zip(args, m.params)]
                con = self.contract_of(m)
                if con is not None:
                    self.call_contract(con, m, v, vals)
                elif m.body is not None:
                    self.run_ctor(m, v, vals)
                elif not m.implicit:
                    raise Unsupported('constructor without body: ' + m.key)
            return v
        raise Unsupported('new ' + str(ty))

    def ev_CXXDeleteExpr(self, n):
        v = self.evr(self.one(n))
        if isinstance(v, SV) and v.ty.k == 'ptr':
            b = S.acc(v.ty, 0, v.t)
            if not self.branch(b == 0):
                self.oblige('delete[] of a live array start', z3.And(S.sel(self.st.malive, b), S.acc(v.ty, 1, v.t) == 0), 'safety')
                self.st.malive = z3.Store(self.st.malive, b, z3.BoolVal(False))
                self.wrote(('malive',), b)
            return None
        if isinstance(v, SV) and v.ty.k == 'ref':
            con = self.contracts.get('delete:' + v.ty.a[0]) or self.contracts.get('delete')
            if con is not None:
                self.call_contract(con, None, v, [])
                return None
            con = self.contracts.get('%s::~%s()' % (v.ty.a[0], v.ty.a[0]))
            if con is not None and not self.branch(v.t == 0):
                self.call_contract(con, None, v, [])
            return None
        raise Unsupported('delete')

    def ev_LambdaExpr(self, n):
        op = None
        for c in n.get('inner', []):
            if c.get('kind') == 'CXXRecordDecl':
                for m in c.get('inner', []):
                    if m.get('kind') == 'CXXMethodDecl' and m.get('name') == 'operator()':
                        op = m
                        self.prog.fn_byid.setdefault(m['id'], None)
                    if m.get('kind') == 'FunctionTemplateDecl':
                        for mm in m.get('inner', []):
                            if mm.get('kind') == 'CXXMethodDecl' and any(x.get('kind') == 'TemplateArgument' for x in mm.get('inner', [])):
                                op = mm
        if op is None:
            raise Unsupported('lambda')
        params = [c for c in op.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        body = next((c for c in op.get('inner', []) if c.get('kind') == 'CompoundStmt'), None)
        if body is None:
            body = next((c for c in n.get('inner', []) if c.get('kind') == 'CompoundStmt'), None)
        return Closure(params, body, list(self.visible_frames()), self.frames_this[-1])

    def ev_CXXThrowExpr(self, n):
        kids = [c for c in n.get('inner', []) if c.get('kind')]
        v = self.rv(self.ev(kids[0])) if kids else None
        raise ThrowEx(v)

    # ------------------------------------------------------------------ calls
    def eval_arg(self, a, p):
        if a.get('kind') == 'CXXDefaultArgExpr' and not a.get('inner') and p is not None:
            d = [c for c in p.get('inner', []) if c.get('kind') and not c['kind'].endswith(('Comment', 'Attr'))]
            if not d:
                d = self.prog.default_args.get((p.get('name'), p.get('type', {}).get('qualType')), [])
            if len(d) == 1:
                return self.coerce(self.rv(self.ev(d[0])), self.tenv.parse(p['type']))
        if p is not None and is_ref(p.get('type', {})):
            v = self.ev(a)
            if isinstance(v, LV):
                return v
            if isinstance(v, SV) and v.ty.k in ('ref', 'cls'):
                return v if self.tenv.parse(p['type']).k == 'cls' else self.temp(v)
            return self.temp(v) if isinstance(v, SV) else v
        return self.rv(self.ev(a))

    def contract_of(self, fn):
        for k in (fn.key, fn.qname):
            if k in self.contracts and not self.contracts[k].inline:
                return self.contracts[k]
        if fn.cls is not None:
            # overriding declarations share the contract of the base virtual function
            k = '*::' + fn.name
            if k in self.contracts:
                return self.contracts[k]
        return None

    def ev_CallExpr(self, n):
        callee = n['inner'][0]
        args = [c for c in n['inner'][1:] if c.get('kind')]
        c = callee
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            c = self.one(c)
        if c['kind'] == 'DeclRefExpr' and c['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            rd = c['referencedDecl']
            fn = self.prog.fn_byid.get(rd['id'])
            if fn is not None:
                return self.call_fn(fn, None, args, n)
            return self.call_extern(rd, args, n)
        if c['kind'] == 'DeclRefExpr' or c['kind'] == 'MemberExpr':
            v = self.rv(self.ev(c))
            if isinstance(v, Closure):
                return self.call_closure(v, args)
        if c['kind'] == 'LambdaExpr':
            return self.call_closure(self.ev(c), args)
        if c['kind'] == 'CXXPseudoDestructorExpr':
            return None
        raise Unsupported('call of %s' % c['kind'])

    def call_closure(self, cl, args):
        vals = [self.eval_arg(a, p) for a, p in zip(args, cl.params)]
        return self.run_closure(cl, vals)

    def run_closure(self, cl, vals):
        self.framecount += 1
        fr = self.framecount
        self.frames_vis.append([fr] + list(cl.frame))
        self.frames_this.append(cl.this)
        self.frames_no.append(fr)
        self.frames_fn.append(self.frames_fn[-1])
        try:
            for p, v in zip(cl.params, vals):
                self.bind_param(fr, p, v)
            try:
                self.exec(cl.body)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.frames_vis.pop(); self.frames_this.pop(); self.frames_no.pop(); self.frames_fn.pop()

    def call_extern(self, rd, args, n):
        name = rd['name']
        f = self.externs.get(name)
        if f is not None:
            r = f(self, args, n)
            if r is not NotImplemented:
                return r
        m = getattr(self, 'x_' + name, None)
        if m is not None:
            return m(args, n)
        con = self.contracts.get('extern:' + name)
        if con is not None:
            vals = [self.ev(a) for a in args]
            vals = [v if isinstance(v, (LV, PV)) else self.rv(v) for v in vals]
            return self.call_contract(con, None, None, vals, self.tenv.parse(n['type']) if n.get('type') else None)
        if name.startswith('operator'):
            return self.op_call(name[8:], args, n)
        raise Unsupported('call of external function ' + name)

    # -- library functions
    def x___assert_fail(self, args, n):
        self.oblige('assert(%s)' % self._strof(args[0]), z3.BoolVal(False), 'assert')
        raise PathEnd()

    def _strof(self, a):
        while a.get('inner') and a['kind'] != 'StringLiteral':
            a = a['inner'][0]
        return a.get('value', '?').strip('"')

    def x_move(self, args, n):
        return self.ev(args[0])

    x_forward = x_move
    x_as_const = x_move
    x_addressof = lambda self, args, n: self.ev_UnaryOperator({'opcode': '&', 'inner': args})

    def x_make_pair(self, args, n):
        a, b = self.rv(self.ev(args[0])), self.rv(self.ev(args[1]))
        t = self.tenv.parse(n['type'])
        return SV(t, S.mk(t, self.coerce(a, t.a[0]).t, self.coerce(b, t.a[1]).t))

    def x_swap(self, args, n):
        a, b = self.ev(args[0]), self.ev(args[1])
        va, vb = self.rv(a), self.rv(b)
        self.store(a, vb)
        self.store(b, va)

    def x_exchange(self, args, n):
        a = self.ev(args[0])
        v = self.rv(self.ev(args[1]))
        old = self.rv(a)
        self.store(a, v)
        return old

    def _minmax(self, args, lt):
        a, b = self.rv(self.ev(args[0])), self.rv(self.ev(args[1]))
        if a.t.sort() != b.t.sort():
            raise Unsupported('min/max types')
        return SV(a.ty, z3.If(lt(a.t, b.t), b.t, a.t) if self.simple_order(a.ty) else None)

    def simple_order(self, ty):
        if ty.k in ('int', 'uint', 'real', 'time'):
            return True
        raise Unsupported('ordering on %s' % ty)

    def x_max(self, args, n):
        if not args:
            return self.numeric_limit(n, 'max')
        return self._minmax(args, lambda a, b: a < b)

    def x_min(self, args, n):
        if not args:
            return self.numeric_limit(n, 'min')
        return self._minmax(args, lambda a, b: b < a)

    x_fmax, x_fmin = x_max, x_min

    def x_lowest(self, args, n):
        return self.numeric_limit(n, 'lowest')

    def x_epsilon(self, args, n):
        return self.numeric_limit(n, 'epsilon')

    def x_infinity(self, args, n):
        self.notes.add('std::numeric_limits::infinity() treated as an uninterpreted constant')
        return SV(REAL, z3.Real('IEEE_INF'))

    def numeric_limit(self, n, what):
        q = clean(n['type']['qualType'])
        t = self.tenv.parse(n['type'])
        if t.k in ('int', 'uint'):
            b = t.a[0]
            v = {'max': 2 ** (b - 1) - 1 if t.k == 'int' else 2 ** b - 1, 'min': -2 ** (b - 1) if t.k == 'int' else 0}
            v['lowest'] = v['min']
            return SV(t, z3.IntVal(v[what]))
        F = fractions.Fraction
        tab = {'double': {'max': F(sys.float_info.max), 'lowest': -F(sys.float_info.max), 'min': F(sys.float_info.min), 'epsilon': F(sys.float_info.epsilon)},
               'float': {'max': (2 - F(1, 2 ** 23)) * 2 ** 127, 'lowest': -(2 - F(1, 2 ** 23)) * 2 ** 127, 'min': F(1, 2 ** 126), 'epsilon': F(1, 2 ** 23)},
               'long double': {'max': (2 - F(1, 2 ** 63)) * 2 ** 16383, 'lowest': -(2 - F(1, 2 ** 63)) * 2 ** 16383, 'min': F(1, 2 ** 16382), 'epsilon': F(1, 2 ** 63)}}
        if q in tab:
            f = tab[q][what]
            return SV(REAL, z3.RealVal('%d/%d' % (f.numerator, f.denominator)))
        raise Unsupported('numeric_limits of ' + q)

    def x_temp_directory_path(self, args, n):
        return SV(STR, self.fresh_val(STR, 'tmp'))

    def any_name(self, n):
        return clean(n['type'].get('desugaredQualType') or n['type']['qualType']).replace('&', '').strip()

    def x_any_cast(self, args, n):
        v = self.rv(self.ev(args[0]))
        t, nm = self.ty(n), self.any_name(n)
        self.oblige('any_cast to the type held', UF('any_type', S.Val, z3.IntSort())(v.t) == strlit('type:' + nm), 'safety')
        r = SV(t, UF('any_cast:' + nm, S.Val, S.sort(t))(v.t))
        self.facts(r.t, t)
        return r

    def make_any(self, v, nm):
        r = UF('any_of:' + nm, v.t.sort(), S.Val)(v.t)
        self.assume(z3.And(UF('any_type', S.Val, z3.IntSort())(r) == strlit('type:' + nm), UF('any_cast:' + nm, S.Val, v.t.sort())(r) == v.t))
        return SV(VAL, r)

    def x_fabs(self, args, n):
        v = self.rv(self.ev(args[0]))
        if z3.is_rational_value(v.t):
            return SV(v.ty, z3.simplify(z3.If(v.t < 0, -v.t, v.t)))
        return SV(v.ty, z3.If(v.t < 0, -v.t, v.t))

    x_abs = x_fabs

    def x_sqrt(self, args, n):
        v = self.rv(self.ev(args[0]))
        r = UF('sqrt', z3.RealSort(), z3.RealSort())(v.t)
        self.assume(z3.Implies(v.t >= 0, z3.And(r >= 0, r * r == v.t)))
        return SV(REAL, r)

    def x_pow(self, args, n):
        a, b = self.rv(self.ev(args[0])), self.rv(self.ev(args[1]))
        x = a.t if a.t.sort() == z3.RealSort() else z3.ToReal(a.t)
        y = b.t if b.t.sort() == z3.RealSort() else z3.ToReal(b.t)
        r = UF('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())(x, y)
        self.assume(z3.Implies(x > 0, r > 0))
        self.assume(z3.Implies(z3.And(x == 0, y > 0), r == 0))
        self.assume(z3.Implies(z3.And(x >= 1, y >= 0), r >= 1))
        return SV(REAL, r)

    def x_isnan(self, args, n):
        self.notes.add('isnan() taken as false: doubles are modelled as reals')
        self.ev(args[0])
        return SV(BOOL, z3.BoolVal(False))

    x_isinf = x_isnan

    def x_isfinite(self, args, n):
        self.ev(args[0])
        self.notes.add('isfinite() taken as true: doubles are modelled as reals')
        return SV(BOOL, z3.BoolVal(True))

    def x_make_shared(self, args, n):
        ty = self.tenv.parse(n['type'])
        r = self.new_ref()
        v = SV(ty, r)
        cn = ty.a[0]
        c = self.prog.cls(cn)
        cands = [m for m in c.methods if m.kind == 'CXXConstructorDecl' and len(m.params) == len(args) and not m.implicit] if c else []
        if len(cands) != 1:
            raise Unsupported('make_shared ' + cn)
        m = cands[0]
        vals = [self.eval_arg(a, p) for a, p in zip(args, m.params)]
        con = self.contract_of(m)
        if con is not None:
            self.call_contract(con, m, v, vals)
        else:
            self.run_ctor(m, v, vals)
        return v

    def x_next(self, args, n):
        it = self.rv(self.ev(args[0]))
        return self.it_inc(it)

    def x_advance(self, args, n):
        lv = self.ev(args[0])
        k = self.evr(args[1])
        it = self.rv(lv)
        if it.kind == 'list' and not isinstance(it.pos, str):
            self.store(lv, it.copy(pos=it.pos + k.t))
            return None
        raise Unsupported('advance')

    def x_begin(self, args, n):
        return self.container_method(self.ev(args[0]), 'begin', [], n)

    def x_end(self, args, n):
        return self.container_method(self.ev(args[0]), 'end', [], n)

    def x_static_pointer_cast(self, args, n):
        v = self.rv(self.ev(args[0]))
        return SV(self.tenv.parse(n['type']), v.t)

    def x_dynamic_pointer_cast(self, args, n):
        return self.dyn_cast(self.rv(self.ev(args[0])), self.tenv.parse(n['type']))

    SIZES = {'real': 8, 'bool': 1}

    def raw(self, a):
        v = self.rv(self.ev(a))
        if not (isinstance(v, SV) and v.ty.k == 'ptr'):
            raise Unsupported('raw memory of %r' % (v,))
        return v.ty.a[0], S.acc(v.ty, 0, v.t), S.acc(v.ty, 1, v.t)

    def span(self, ety, b, o, cnt, what):
        self.oblige(what + ' stays within the array', z3.Or(cnt == 0, z3.And(S.sel(self.st.malive, b), b != 0, o >= 0, cnt >= 0, o + cnt <= S.sel(self.st.mlen, b))), 'safety')

    def count(self, a, ety):
        n = self.rv(self.ev(a)).t
        sz = self.SIZES.get(ety.k)
        if ety.k in ('int', 'uint'):
            sz = ety.a[0] // 8
        if sz is None:
            raise Unsupported('size of ' + str(ety))
        return n if sz == 1 else z3.simplify(n / sz)

    def fill(self, ety, b, o, cnt, at):
        m = self.mem_arr(self.st, ety)
        old = self.mem_sel(self.st, ety, b)
        new = self.fresh(old.sort(), 'filled')
        i = z3.Int('i!fill')
        self.assume(z3.ForAll([i], z3.Select(new, i) == z3.If(z3.And(o <= i, i < o + cnt), at(i - o), z3.Select(old, i)), patterns=[z3.Select(new, i)]))
        self.st.mem[ety.key] = z3.Store(m, b, new)
        self.wrote(('mem', ety.key), b)

    def x_memcpy(self, args, n):
        ty = [self.raw(args[0]), self.raw(args[1])]
        if ty[0][0] != ty[1][0]:
            raise Unsupported('memcpy between types')
        (e, b, o), (_, b2, o2) = ty
        cnt = self.count(args[2], e)
        self.span(e, b, o, cnt, 'destination of memcpy')
        self.span(e, b2, o2, cnt, 'source of memcpy')
        if not self.surely(b != b2):
            self.oblige('memcpy of disjoint memory', z3.Or(cnt == 0, b != b2, o + cnt <= o2, o2 + cnt <= o), 'safety')
        src = self.mem_sel(self.st, e, b2)
        self.fill(e, b, o, cnt, lambda i: z3.Select(src, z3.simplify(i + o2)))

    x_memmove = x_memcpy

    def x_memset(self, args, n):
        e, b, o = self.raw(args[0])
        v = self.rv(self.ev(args[1])).t
        if not z3.is_int_value(v) or v.as_long() != 0:
            raise Unsupported('memset to other than zero')
        cnt = self.count(args[2], e)
        self.span(e, b, o, cnt, 'memset')
        z = self.zero_value(e).t
        self.fill(e, b, o, cnt, lambda i: z)

    def x_copy_n(self, args, n):
        raise Unsupported('copy_n')

    def x_fill(self, args, n):
        e, b, o = self.raw(args[0])
        e2, b2, o2 = self.raw(args[1])
        v = self.coerce(self.rv(self.ev(args[2])), e).t
        cnt = z3.simplify(o2 - o)
        self.oblige('fill over one array', b == b2, 'safety')
        self.span(e, b, o, cnt, 'fill')
        self.fill(e, b, o, cnt, lambda i: v)

    def x_copy(self, args, n):
        e, b, o = self.raw(args[0])
        e2, b2, o2 = self.raw(args[1])
        e3, b3, o3 = self.raw(args[2])
        cnt = z3.simplify(o2 - o)
        self.oblige('copy from one array', b == b2, 'safety')
        self.span(e, b, o, cnt, 'source of copy')
        self.span(e3, b3, o3, cnt, 'destination of copy')
        self.oblige('copy to other memory', z3.Or(cnt <= 0, b != b3, o3 <= o, o3 >= o + cnt), 'safety')
        src = self.mem_sel(self.st, e, b)
        self.fill(e3, b3, o3, cnt, lambda i: z3.Select(src, z3.simplify(i + o)))
        return SV(PTR(e3), S.mk(PTR(e3), b3, z3.simplify(o3 + cnt)))

    # -- program functions
    def call_fn(self, fn, this, args, n, virtual_ok=True):
        if fn.name in ('adevs_inf', 'adevs_zero', 'adevs_sentinel', 'adevs_epsilon') and fn.body is None:
            q = clean(fn.type.split('(')[0])
            t = self.tenv.parse(q)
            if t.k == 'time':
                return SV(t, z3.Real('T_' + fn.name[6:]))
        params = fn.params
        args = list(args)
        vals = []
        for i, a in enumerate(args):
            vals.append(self.eval_arg(a, params[i] if i < len(params) else None))
        return self.invoke(fn, this, vals)

    def invoke(self, fn, this, vals):
        con = self.contract_of(fn)
        if con is not None:
            rt = fn.node.get('type', {}).get('qualType', 'void').split('(')[0]
            return self.call_contract(con, fn, this, vals)
        if fn.virtual and fn.cls and fn.kind != 'CXXDestructorDecl' and not self.opts.get('inline_virtual'):
            raise Unsupported('virtual call without contract: ' + fn.key)
        if fn.body is None:
            if fn.defaulted:
                return self.defaulted(fn, this, vals)
            f = self.externs.get(fn.name)
            if f is not None:
                return f(self, vals, None)
            raise Unsupported('no body and no contract: ' + fn.key)
        if any(f is fn for f in self.frames_fn):
            raise Unsupported('recursive function without contract: ' + fn.key)
        self.inlined.add(fn.key)
        self.push_frame(fn, this, vals)
        try:
            return self.exec_body(fn)
        finally:
            self.pop_frame()

    def defaulted(self, fn, this, vals):
        if fn.name == 'operator=':
            lv = self.deref(this) if not isinstance(this, LV) else this
            self.store(lv, self.rv(vals[0]))
            return lv
        raise Unsupported('defaulted ' + fn.key)

    def push_frame(self, fn, this, vals):
        if len(self.frames_no) > 40:
            raise Unsupported('inlining too deep')
        self.framecount += 1
        fr = self.framecount
        self.frames_no.append(fr)
        self.frames_this.append(this)
        self.frames_fn.append(fn)
        self.frames_vis.append([fr])
        for p, v in zip(fn.params, vals):
            self.bind_param(fr, p, v)
        if len(vals) < len(fn.params):
            for p in fn.params[len(vals):]:
                d = [c for c in p.get('inner', []) if c.get('kind') and not c['kind'].endswith('Comment')]
                if not d:
                    raise Unsupported('missing argument')
                self.bind_param(fr, p, self.rv(self.ev(d[0])))

    def bind_param(self, fr, p, v):
        self.names[p['id']] = p.get('name')
        if is_ref(p.get('type', {})):
            if isinstance(v, SV) and v.ty.k != 'ref':
                v = self.temp(v)
            self.st.locals[(fr, p['id'])] = v
        else:
            v = self.rv(v)
            if isinstance(v, SV):
                try:
                    ty = self.tenv.parse(p['type'])
                    if ty.k not in ('cls', 'iter', 'fn'):
                        v = self.coerce(v, ty) if v.ty.k != 'ref' else v
                except Unsupported:
                    pass
            self.st.locals[(fr, p['id'])] = v
        self.wrote(('local', (fr, p['id'])))

    def pop_frame(self):
        self.frames_no.pop(); self.frames_this.pop(); self.frames_fn.pop(); self.frames_vis.pop()

    def exec_body(self, fn):
        try:
            self.exec(fn.body)
        except ReturnEx as r:
            v = r.v
            if v is None:
                return None
            rt = fn.type.split('(')[0].strip()
            if rt.endswith('&'):
                return v
            v = self.rv(v)
            return v
        return None

    def call_contract(self, con, fn, this, vals, rty=None):
        key = con.key
        self.called.add(key)
        pre = self.st.copy()
        C = Ctx(self, fn, this, vals, pre)
        for nm, e in con.requires(C):
            self.oblige('call %s requires %s' % (key, nm), e, 'call')
        if con.decreases is not None and self.cur_contract is con and not self.dry:
            d0 = self.fn_decr
            d1 = con.decreases(C)
            self.oblige('recursion %s: measure decreases' % key, z3.And(d0 >= 0, d1 < d0), 'termination')
        if con.may_throw:
            if self.choose(['ok', 'throw']) == 'throw':
                self.havoc_modifies(con, C)
                C2 = Ctx(self, fn, this, vals, pre, self.st)
                for nm, e in (con.ensures_throw(C2) if con.ensures_throw else []):
                    self.assume(e)
                if not self.feasible(z3.BoolVal(True)):
                    raise PathEnd()
                raise ThrowEx(None)
        self.havoc_modifies(con, C)
        ret = None
        rt = rty
        if rt is None and con.ret_ty is not None:
            rt = con.ret_ty(self) if callable(con.ret_ty) else con.ret_ty
        if rt is None and fn is not None and fn.kind != 'CXXConstructorDecl':
            q = fn.type.split('(')[0].strip()
            if q and q != 'void':
                if q.startswith('auto'):
                    q = fn.type.rsplit('->', 1)[-1].strip()
                rt = self.tenv.parse(q)
        if rt is not None and rt.k == 'cls':
            rt = REF(rt.a[0])
        if rt is not None and rt.k not in ('void',):
            if rt.k == 'iter':
                raise Unsupported('contract returning iterator')
            if con.answer is not None and con.trusted:
                ret = SV(rt, con.answer(C))
                self.facts(ret.t, rt)
            else:
                ret = SV(rt, self.fresh_val(rt, 'ret_' + (fn.name if fn else 'x')))
        C2 = Ctx(self, fn, this, vals, pre, self.st, ret)
        for nm, e in con.ensures(C2):
            self.assume(e)
        return ret

    def havoc_modifies(self, con, C):
        mods = con.modifies(C) if callable(con.modifies) else con.modifies
        # what the call allocates exists when the new values that may refer to it are made
        for m in sorted(mods, key=lambda m: m != 'alloc'):
            where = None
            if isinstance(m, tuple):
                m, where = m
            if m.startswith('mem:'):
                ety = next((t for t in self.mem_types() if t.key == m[4:]), None)
                if ety is None:
                    continue
                a = self.mem_arr(self.st, ety)
                if where is None:
                    self.st.mem[ety.key] = self.fresh(a.sort(), 'mem')
                    self.wrote(('mem', ety.key))
                else:
                    for b in where:
                        a = z3.Store(a, b, self.fresh(a.sort().range(), 'memb'))
                        self.wrote(('mem', ety.key), b)
                    self.st.mem[ety.key] = a
            elif m.startswith('ghost:'):
                g = m[6:]
                self.st.ghost[g] = self.fresh(self.ghost_sorts[g], 'g_' + g)
                self.wrote(('ghost', g))
            elif m.startswith('param:'):
                v = C.args[int(m[6:])]
                if isinstance(v, PV):
                    v = v.lv
                if not isinstance(v, LV):
                    raise Unsupported('modified parameter is not an lvalue')
                self.store(v, SV(v.ty, self.fresh_val(v.ty, 'out')))
            elif m == 'this':
                lv = C.this_v.lv
                self.store(lv, SV(lv.ty, self.fresh_val(lv.ty, 'this')))
            elif m == 'malive':
                self.st.malive = self.fresh(self.st.malive.sort(), 'malive'); self.wrote(('malive',))
            elif m == 'mlen':
                self.st.mlen = self.fresh(self.st.mlen.sort(), 'mlen'); self.wrote(('mlen',))
            elif m == 'alloc':
                o = self.st.alloc
                self.st.alloc = self.fresh(z3.IntSort(), 'alloc'); self.assume(self.st.alloc >= o); self.wrote(('alloc',))
            elif m.startswith('static:'):
                s = m[7:]
                if s in self.static_ty:
                    self.st.statics[s] = self.fresh_val(self.static_ty[s], 'static'); self.wrote(('static', s))
            else:
                c, f = m.split('.')
                a = self.heap_arr(self.st, c, f)
                if where is None:
                    self.st.heap[(c, f)] = self.fresh(a.sort(), 'H_%s_%s' % (c, f))
                    self.wrote(('field', c, f))
                else:
                    for r in where:
                        a = z3.Store(a, r, self.fresh_val(self.field_ty(c, f), 'fv_' + f))
                        self.wrote(('field', c, f), r)
                    self.st.heap[(c, f)] = a

    def mem_types(self):
        out = [REAL, BOOL, UINT, INT, LONG, ULONG]
        for n in S._structs:
            out.append(STRUCT(n))
        return out

    # ---- method and operator calls
    def ev_CXXMemberCallExpr(self, n):
        callee = n['inner'][0]
        args = [c for c in n['inner'][1:] if c.get('kind')]
        while callee.get('kind') == 'ParenExpr':
            callee = self.one(callee)
        if callee['kind'] != 'MemberExpr':
            raise Unsupported('member call via ' + callee['kind'])
        mid = callee.get('referencedMemberDecl')
        fn = self.prog.fn_byid.get(mid)
        base = self.ev(self.one(callee))
        if fn is not None:
            if callee.get('isArrow'):
                this = self.rv(base)
                if isinstance(this, SV) and this.ty.k == 'ref' and not self.is_this(this):
                    self.oblige('null dereference', this.t != 0, 'safety')
                if isinstance(this, SV) and this.ty.k == 'ptr':
                    this = PV(self.deref(this))
            else:
                v = base
                if isinstance(v, LV) and v.ty.k in ('ref', 'cls'):
                    v = self.load(v)
                if isinstance(v, SV) and v.ty.k in ('ref', 'cls'):
                    this = v
                else:
                    this = PV(self.as_lv(v))
            if fn.kind == 'CXXDestructorDecl':
                return None
            return self.call_fn(fn, this, args, n)
        name = callee.get('name')
        if callee.get('isArrow'):
            base = self.deref(base)
        return self.lib_method(base, name, args, n)

    def lib_method(self, base, name, args, n):
        """method of a library class"""
        v = base
        ty = v.ty if isinstance(v, (LV, SV)) else None
        if ty is not None and ty.k == 'obj':
            v = self.rv(v)
            ty = None
        if isinstance(v, MapRef):
            pass
        if ty is not None and ty.k in ('list', 'set', 'map'):
            return self.container_method(v, name, args, n)
        if ty is not None and ty.k in ('ref', 'ptr'):        # smart pointers
            if name in ('get',):
                return self.rv(v)
            if name == 'reset':
                if args:
                    self.store(v, self.coerce(self.rv(self.ev(args[0])), ty))
                else:
                    self.store(v, self.zero_value(ty))
                return None
            if name.startswith('operator bool') or name == 'operator bool':
                return SV(BOOL, self.ptr_nonnull(self.rv(v)))
            if name == 'release':
                r = self.rv(v)
                self.store(v, self.zero_value(ty))
                return r
            if name == 'swap':
                o = self.ev(args[0])
                a, b = self.rv(v), self.rv(o)
                self.store(v, b)
                self.store(o, a)
                return None
        if ty is not None and ty.k == 'str':
            return SV(STR if name in ('c_str', 'data') else INT, self.rv(v).t if name in ('c_str', 'data') else self.fresh(z3.IntSort(), 's'))
        if ty is not None and ty.k in ('int', 'uint', 'real', 'bool'):   # std::atomic
            if name in ('load',) or name.startswith('operator'):
                if name.startswith('operator++') or name.startswith('operator--'):
                    return self.atomic_incdec(v, name, bool(args))
                self.interfere(v)
                return self.rv(v)
            if name == 'store' or name == 'operator=':
                self.interfere(v)
                o = self.rv(v)
                self.store(v, self.coerce(self.rv(self.ev(args[0])), v.ty))
                self.atomic_step(v, o.t, self.rv(v).t)
                return None
            if name in ('fetch_add', 'fetch_sub', 'exchange'):
                b = self.rv(self.ev(args[0]))
                self.interfere(v)
                a = self.rv(v)
                self.store(v, b if name == 'exchange' else self.arith('+' if name == 'fetch_add' else '-', a, b, a.ty))
                self.atomic_step(v, a.t, self.rv(v).t)
                return a
        if name == 'operator=' and isinstance(v, LV) and ty is not None:
            self.store(v, self.rv(self.ev(args[0])))
            return v
        raise Unsupported('library method %s on %s' % (name, ty))

    def plain_struct(self, cls, seen=()):
        """memberwise assignment copies every member exactly (no member class defines its own operator=)"""
        c = self.prog.cls(cls)
        if c is None:
            return False
        for f, ft, node in c.fields:
            try:
                t = self.tenv.parse(ft)
            except Unsupported:
                return False
            if t.k == 'struct':
                o = self.prog.cls(t.a[0])
                if o is None or t.a[0] in seen or any(m.name == 'operator=' and not m.defaulted for m in o.methods):
                    return False
                if not self.plain_struct(t.a[0], tuple(seen) + (cls,)):
                    return False
        return True

    def atomic_incdec(self, lv, name, post):
        self.interfere(lv)
        a = self.rv(lv)
        r = self.arith('+' if '++' in name else '-', a, SV(a.ty, z3.IntVal(1)), a.ty)
        self.store(lv, r)
        self.atomic_step(lv, a.t, r.t)
        return a if post else r

    def ev_CXXOperatorCallExpr(self, n):
        callee = n['inner'][0]
        args = [c for c in n['inner'][1:] if c.get('kind')]
        c = callee
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            c = self.one(c)
        rd = c['referencedDecl']
        fn = self.prog.fn_byid.get(rd['id'])
        if fn is not None:
            if fn.kind == 'CXXMethodDecl':
                b = self.ev(args[0])
                if isinstance(b, LV) and b.ty.k in ('ref', 'cls'):
                    b = self.load(b)
                this = b if isinstance(b, SV) and b.ty.k in ('ref', 'cls') else PV(self.as_lv(b))
                if fn.defaulted and fn.name == 'operator=' and isinstance(this, PV) and self.plain_struct(fn.cls):
                    v = self.rv(self.ev(args[1]))
                    self.store(this.lv, v)
                    return this.lv
                # C++17: for assignment operators the right operand is evaluated first; no observable difference here
                return self.call_fn(fn, this, args[1:], n)
            return self.call_fn(fn, None, args, n)
        op = rd['name'][8:]
        if op == '()':
            v = self.rv(self.ev(args[0]))
            if isinstance(v, Closure):
                return self.call_closure(v, args[1:])
        return self.op_call(op, args, n)

    def op_call(self, op, args, n):
        op = op.strip()
        if op == '=':
            v = self.rv(self.ev(args[1]))
            lv = self.ev(args[0])
            if isinstance(v, It):
                v = v.copy()
            self.store(lv, v)
            return lv
        a = self.ev(args[0])
        if len(args) == 1 or (op in ('++', '--')):
            if op in ('*', '->'):
                v = self.rv(a)
                if op == '->' and isinstance(v, SV) and v.ty.k == 'ref':
                    return v
                if op == '->' and isinstance(v, It):
                    d = self.it_deref(v)
                    return d if isinstance(d, SV) and d.ty.k == 'ref' and False else PVany(d)
                if isinstance(v, It):
                    return self.it_deref(v)
                return self.deref(v)
            v = self.rv(a)
            if op in ('++', '--') and isinstance(v, It):
                nv = self.it_inc(v) if op == '++' else self.it_dec(v)
                self.store(a, nv)
                return v if len(args) == 2 else a
            if op in ('++', '--') and isinstance(v, SV):
                return self.atomic_incdec(a, op, len(args) == 2)
            if op == 'bool' or op == ' bool':
                return SV(BOOL, self.truth(v))
            if op == '!':
                return SV(BOOL, z3.Not(self.truth(v)))
            if op == '-' and v.ty.k == 'time':
                return SV(TIME, UF('tneg', z3.RealSort(), z3.RealSort())(v.t))
            raise Unsupported('unary operator %s on %r' % (op, v))
        if op == '[]':
            return self.container_method(a, 'operator[]', args[1:], n)
        x = self.rv(a)
        y = self.rv(self.ev(args[1]))
        if isinstance(x, Junk) or op in ('<<', '>>') and not isinstance(x, SV):
            return a
        if isinstance(x, It) or isinstance(y, It):
            if op in ('==', '!='):
                return self.it_cmp(op, x, y)
            if op in ('+', '-') and isinstance(x, It) and isinstance(y, SV) and x.kind == 'list' and x.pos != 'END':
                return x.copy(pos=x.pos + (y.t if op == '+' else -y.t))
            if op == '-' and isinstance(x, It) and isinstance(y, It):
                return SV(LONG, self.pos_of(x) - self.pos_of(y))
            if op == '<':
                return SV(BOOL, self.pos_of(x) < self.pos_of(y))
            raise Unsupported('iterator operator ' + op)
        if isinstance(x, SV) and x.ty.k == 'time':
            if op in ('<', '<=', '>', '>=', '==', '!='):
                return self.compare(op, x, y)
            if op in ('+', '-'):
                return SV(TIME, tadd(x.t, y.t) if op == '+' else tsub(x.t, y.t))
            if op in ('+=', '-='):
                self.store(a, SV(TIME, tadd(x.t, y.t) if op == '+=' else tsub(x.t, y.t)))
                return a
        if op in ('==', '!=') and isinstance(x, SV) and isinstance(y, SV):
            if x.ty.k in ('ref', 'ptr', 'int', 'uint', 'bool', 'real', 'str', 'val'):
                return self.compare(op, x, y)
            if x.ty.k in ('set',) and x.ty == y.ty:
                return self.compare(op, x, y)
            if x.ty.k == 'pair' and x.ty == y.ty:
                return self.compare(op, x, y)
        if op in ('<', '>', '<=', '>=') and isinstance(x, SV) and x.ty.k in ('int', 'uint', 'real', 'ref'):
            return self.compare(op, x, y)
        if op in ('+=', '-=') and isinstance(x, SV) and x.ty.k in ('int', 'uint', 'real'):
            self.store(a, self.arith(op[0], x, y, x.ty))
            return a
        if op in ('<<', '>>'):
            return a
        if op in ('+', '+=') and isinstance(x, SV) and x.ty.k == 'str':
            r = SV(STR, self.fresh(z3.IntSort(), 'str'))
            if op == '+=':
                self.store(a, r)
                return a
            return r
        raise Unsupported('operator %s on %s' % (op, x.ty if isinstance(x, SV) else x))

    # ------------------------------------------------------------------ containers
    def container_method(self, base, name, args, n):
        lv = self.as_lv(base)
        ty = lv.ty
        if ty.k == 'obj':
            raise Unsupported('container method on obj')
        f = getattr(self, 'c_%s_%s' % (ty.k, name.replace('[]', 'idx').replace('operator=', 'assign_').replace('operator', 'op')), None)
        if f is None:
            raise Unsupported('%s on %s' % (name, ty))
        return f(lv, args, n)

    def cur(self, lv):
        t = self.load_in(self.st, lv)
        self.facts(t, lv.ty)
        return t

    def setc(self, lv, t):
        self.store(lv, SV(lv.ty, t))

    def argv(self, args, i, ty):
        return self.coerce(self.rv(self.ev(args[i])), ty).t

    # --- list / vector
    def c_list_size(self, lv, a, n):
        return SV(ULONG, S.llen(lv.ty, self.cur(lv)))

    def c_list_empty(self, lv, a, n):
        return SV(BOOL, S.llen(lv.ty, self.cur(lv)) == 0)

    def c_list_push_back(self, lv, a, n):
        v = self.argv(a, 0, lv.ty.a[0])
        t = self.cur(lv)
        L = S.llen(lv.ty, t)
        self.setc(lv, S.mk(lv.ty, z3.Store(S.larr(lv.ty, t), L, v), z3.simplify(L + 1)))

    def construct_from(self, et, a):
        c = [m for m in self.prog.cls(et.a[0]).methods if m.kind == 'CXXConstructorDecl' and len(m.params) == len(a) and not m.implicit]
        if len(c) != 1:
            raise Unsupported('emplace_back')
        return self.construct_struct(et, a, {'ctorType': {'qualType': c[0].type}}).t

    def c_list_emplace_back(self, lv, a, n):
        et = lv.ty.a[0]
        if len(a) == 1:
            v = self.rv(self.ev(a[0]))
            if isinstance(v, SV) and v.t.sort() == S.sort(et) and v.ty.k == et.k:
                v = v.t
            elif et.k == 'struct':
                v = self.construct_from(et, a)
            else:
                raise Unsupported('emplace_back')
        elif et.k == 'pair' and len(a) == 2:
            v = S.mk(et, self.argv(a, 0, et.a[0]), self.argv(a, 1, et.a[1]))
        elif et.k == 'struct':
            v = self.construct_from(et, a)
        else:
            raise Unsupported('emplace_back')
        t = self.cur(lv)
        L = S.llen(lv.ty, t)
        self.setc(lv, S.mk(lv.ty, z3.Store(S.larr(lv.ty, t), L, v), z3.simplify(L + 1)))
        return self.list_elem(lv, L, False)

    def c_list_clear(self, lv, a, n):
        t = self.cur(lv)
        self.setc(lv, S.mk(lv.ty, S.larr(lv.ty, t), z3.IntVal(0)))
        self.adjust_iters(lv, lambda p: None)

    def c_list_front(self, lv, a, n):
        return self.list_elem(lv, z3.IntVal(0))

    def c_list_back(self, lv, a, n):
        return self.list_elem(lv, S.llen(lv.ty, self.cur(lv)) - 1)

    def c_list_opidx(self, lv, a, n):
        i = self.evr(a[0])
        return self.list_elem(lv, i.t)

    c_list_at = c_list_opidx

    def c_list_data(self, lv, a, n):
        return PV(self.list_elem(lv, z3.IntVal(0), False))

    def c_list_resize(self, lv, a, n):
        k = self.evr(a[0]).t
        t = self.cur(lv)
        e = self.argv(a, 1, lv.ty.a[0]) if len(a) > 1 else self.zero_value(lv.ty.a[0]).t
        arr = self.fresh(S.larr(lv.ty, t).sort(), 'rsz')
        i = z3.Int('i')
        self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), z3.Select(arr, i) == z3.If(
            i < S.llen(lv.ty, t), z3.Select(S.larr(lv.ty, t), i), e)), patterns=[z3.Select(arr, i)]))
        self.setc(lv, S.mk(lv.ty, arr, k))

    def c_list_reserve(self, lv, a, n):
        return None

    def c_list_swap(self, lv, a, n):
        o = self.ev(a[0])
        x, y = self.cur(lv), self.cur(o)
        self.setc(lv, y)
        self.setc(o, x)

    def c_list_assign_(self, lv, a, n):
        self.setc(lv, self.argv(a, 0, lv.ty))
        return lv

    def shifted(self, lv, t, pos, delta):
        """list term with element at pos removed (delta=1)"""
        arr = S.larr(lv.ty, t)
        L = S.llen(lv.ty, t)
        na = self.fresh(arr.sort(), 'er')
        fs = shift_facts(na, arr, pos)
        for f in fs:
            self.assume(f)
        hook = self.opts.get('on_erase')
        if hook is not None:
            for f in hook(self, lv.ty, t, na, pos):
                self.assume(f)
        return S.mk(lv.ty, na, z3.simplify(L - 1))

    def c_list_pop_front(self, lv, a, n):
        t = self.cur(lv)
        self.oblige('pop_front on non-empty list', S.llen(lv.ty, t) > 0, 'safety')
        self.setc(lv, self.shifted(lv, t, z3.IntVal(0), 1))
        self.adjust_iters(lv, lambda p: p - 1)

    def c_list_pop_back(self, lv, a, n):
        t = self.cur(lv)
        self.oblige('pop_back on non-empty list', S.llen(lv.ty, t) > 0, 'safety')
        self.setc(lv, S.mk(lv.ty, S.larr(lv.ty, t), S.llen(lv.ty, t) - 1))

    def inserted(self, lv, t, pos, v):
        arr = S.larr(lv.ty, t)
        L = S.llen(lv.ty, t)
        na = self.fresh(arr.sort(), 'ins')
        i = z3.Int('i')
        self.assume(z3.ForAll([i], z3.Select(na, i) == z3.If(i < pos, z3.Select(arr, i), z3.If(i == pos, v, z3.Select(arr, i - 1))),
                              patterns=[z3.Select(na, i)]))
        self.assume(z3.ForAll([i], z3.And(z3.Implies(i < pos, z3.Select(na, i) == z3.Select(arr, i)),
                                          z3.Implies(i >= pos, z3.Select(na, i + 1) == z3.Select(arr, i))),
                              patterns=[z3.Select(arr, i)]))
        self.assume(z3.Select(na, pos) == v)
        return S.mk(lv.ty, na, z3.simplify(L + 1))

    def c_list_push_front(self, lv, a, n):
        v = self.argv(a, 0, lv.ty.a[0])
        t = self.cur(lv)
        self.setc(lv, self.inserted(lv, t, z3.IntVal(0), v))
        self.adjust_iters(lv, lambda p: p + 1)

    def c_list_begin(self, lv, a, n):
        return It('list', lv, pos=z3.IntVal(0))

    c_list_cbegin = c_list_begin

    def c_list_end(self, lv, a, n):
        return It('list', lv, pos='END')

    c_list_cend = c_list_end

    def c_list_erase(self, lv, a, n):
        it = self.rv(self.ev(a[0]))
        if len(a) > 1:
            raise Unsupported('range erase')
        p = self.pos_of(it)
        t = self.cur(lv)
        if not it.lv.same(lv):
            raise Unsupported('erase with foreign iterator')
        self.oblige('erase of a valid position', z3.And(p >= 0, p < S.llen(lv.ty, t)), 'safety')
        self.setc(lv, self.shifted(lv, t, p, 1))
        self.adjust_iters(lv, lambda q: z3.If(q > p, q - 1, q), p)
        return It('list', lv, pos=p)

    def c_list_insert(self, lv, a, n):
        it = self.rv(self.ev(a[0]))
        if len(a) != 2:
            raise Unsupported('list insert')
        v = self.argv(a, 1, lv.ty.a[0])
        p = self.pos_of(it)
        t = self.cur(lv)
        self.setc(lv, self.inserted(lv, t, p, v))
        self.adjust_iters(lv, lambda q: z3.If(q >= p, q + 1, q))
        return It('list', lv, pos=p)

    def adjust_iters(self, lv, f, erased=None):
        for k, v in list(self.st.locals.items()):
            if isinstance(v, It) and v.kind == 'list' and not isinstance(v.pos, str):
                if v.lv.same(lv):
                    if erased is not None and v.pos.eq(erased) or f(v.pos) is None:
                        continue      # invalidated iterator; left in place (its next use is normally an assignment)
                    np = z3.simplify(f(v.pos))
                    if not np.eq(v.pos):
                        self.st.locals[k] = v.copy(pos=np)
                        self.wrote(('local', k))
                elif v.lv.root[0] == lv.root[0] == 'field' and v.lv.root[1:3] == lv.root[1:3] and v.lv.ty == lv.ty:
                    if self.feasible(v.lv.root[3] == lv.root[3]) and k[0] == self.frames_no[-1]:
                        raise Unsupported('possibly aliased iterator')

    def pos_of(self, it):
        if it.kind != 'list':
            raise Unsupported('position of set iterator')
        if isinstance(it.pos, str):
            return S.llen(it.lv.ty, self.cur(it.lv))
        return it.pos

    def it_cmp(self, op, a, b):
        if isinstance(a, Junk) or isinstance(b, Junk):
            raise Unsupported('iterator comparison')
        if a.kind == 'list':
            r = self.pos_of(a) == self.pos_of(b)
        else:
            ae, be = a.isend, b.isend
            if z3.is_true(be):
                r = ae
            elif z3.is_true(ae):
                r = be
            else:
                r = z3.Or(z3.And(ae, be), z3.And(z3.Not(ae), z3.Not(be), a.key == b.key))
        return SV(BOOL, r if op == '==' else z3.Not(r))

    def it_deref(self, it):
        if it.kind == 'list':
            p = self.pos_of(it)
            return self.list_elem(it.lv, p)
        self.oblige('dereference of end iterator', z3.Not(it.isend), 'safety')
        if it.kind == 'set':
            t = self.cur(it.lv)
            self.facts(it.key, it.lv.ty.a[0])
            return SV(it.lv.ty.a[0], it.key)
        return MapRef(it.lv, it.key)

    def it_inc(self, it):
        if it.kind == 'list':
            if isinstance(it.pos, str):
                raise Unsupported('++end')
            self.oblige('++ on a valid iterator', it.pos < S.llen(it.lv.ty, self.cur(it.lv)), 'safety')
            return it.copy(pos=z3.simplify(it.pos + 1))
        self.oblige('++ on a valid iterator', z3.Not(it.isend), 'safety')
        if it.rem is None:
            rem = self.fresh(z3.ArraySort(it.key.sort(), z3.BoolSort()), 'rem')
        else:
            rem = z3.Store(it.rem, it.key, z3.BoolVal(False))
        return self.it_from_rem(it, rem)

    def it_dec(self, it):
        if it.kind == 'list':
            p = self.pos_of(it)
            self.oblige('-- on a valid iterator', p > 0, 'safety')
            return it.copy(pos=z3.simplify(p - 1))
        raise Unsupported('--set iterator')

    def it_from_rem(self, it, rem):
        ks = it.key.sort() if it.key is not None else S.sort(it.lv.ty.a[0])
        if it.lv.ty.key in UNORDERED:
            k = self.fresh(ks, 'key')
        else:
            # ordered containers: the first of what remains is a function of what remains
            k = UF('first_' + S._san(it.lv.ty.key), rem.sort(), ks)(rem)
        e = self.fresh(z3.BoolSort(), 'isend')
        self.iter_facts(it.lv.ty, k, rem, e)
        return it.copy(key=k, rem=rem, isend=e)

    def iter_facts(self, ty, k, rem, e):
        ks = k.sort()
        self.assume(z3.Or(e, z3.Select(rem, k)))
        x = z3.Const('x', ks)
        self.assume(z3.Implies(e, rem == z3.K(ks, z3.BoolVal(False))))
        self.facts(k, ty.a[0])

    # --- set
    def c_set_size(self, lv, a, n):
        t = self.cur(lv)
        return SV(ULONG, self.card(lv.ty, t))

    def card(self, ty, t):
        f = UF('card_' + S._san(ty.key), t.sort(), z3.IntSort())
        c = f(t)
        self.assume(c >= 0)
        self.assume((c == 0) == (t == z3.K(t.sort().domain(), z3.BoolVal(False))))
        return c

    def c_set_empty(self, lv, a, n):
        t = self.cur(lv)
        return SV(BOOL, t == S.empty_set(lv.ty))

    def c_set_clear(self, lv, a, n):
        self.setc(lv, S.empty_set(lv.ty))

    def c_set_insert(self, lv, a, n):
        if len(a) != 1:
            raise Unsupported('set insert')
        v = self.argv(a, 0, lv.ty.a[0])
        t = self.cur(lv)
        self.setc(lv, z3.Store(t, v, z3.BoolVal(True)))
        return SetIns(lv, v, z3.Not(z3.Select(t, v)))

    def c_set_emplace(self, lv, a, n):
        if len(a) == 1:
            return self.c_set_insert(lv, a, n)
        et = lv.ty.a[0]
        if et.k == 'pair' and len(a) == 2:
            v = S.mk(et, self.argv(a, 0, et.a[0]), self.argv(a, 1, et.a[1]))
            t = self.cur(lv)
            self.setc(lv, z3.Store(t, v, z3.BoolVal(True)))
            return SetIns(lv, v, z3.Not(z3.Select(t, v)))
        raise Unsupported('set emplace')

    def c_set_erase(self, lv, a, n):
        if len(a) != 1:
            raise Unsupported('range erase')
        v = self.rv(self.ev(a[0]))
        t = self.cur(lv)
        if isinstance(v, It):
            self.oblige('erase of end iterator', z3.Not(v.isend), 'safety')
            self.setc(lv, z3.Store(t, v.key, z3.BoolVal(False)))
            rem = z3.Store(v.rem, v.key, z3.BoolVal(False)) if v.rem is not None else self.fresh(t.sort(), 'rem')
            return self.it_from_rem(v, rem)
        k = self.coerce(v, lv.ty.a[0]).t
        self.setc(lv, z3.Store(t, k, z3.BoolVal(False)))
        r = SV(ULONG, z3.If(z3.Select(t, k), z3.IntVal(1), z3.IntVal(0)))
        return r

    def c_set_count(self, lv, a, n):
        k = self.argv(a, 0, lv.ty.a[0])
        return SV(ULONG, z3.If(z3.Select(self.cur(lv), k), z3.IntVal(1), z3.IntVal(0)))

    def c_set_contains(self, lv, a, n):
        return SV(BOOL, z3.Select(self.cur(lv), self.argv(a, 0, lv.ty.a[0])))

    def c_set_find(self, lv, a, n):
        k = self.argv(a, 0, lv.ty.a[0])
        return It('set', lv, key=k, rem=None, isend=z3.Not(z3.Select(self.cur(lv), k)))

    def c_set_begin(self, lv, a, n):
        t = self.cur(lv)
        it = It('set', lv)
        return self.it_from_rem(it, t)

    c_set_cbegin = c_set_begin

    def c_set_end(self, lv, a, n):
        return It('set', lv, key=z3.Const('nokey_' + S._san(lv.ty.key), S.sort(lv.ty.a[0])), rem=None, isend=z3.BoolVal(True))

    c_set_cend = c_set_end

    def c_set_assign_(self, lv, a, n):
        self.setc(lv, self.argv(a, 0, lv.ty))
        return lv

    def c_set_swap(self, lv, a, n):
        return self.c_list_swap(lv, a, n)

    # --- map
    def c_map_size(self, lv, a, n):
        return SV(ULONG, self.card(SET(lv.ty.a[0]), S.mdom(lv.ty, self.cur(lv))))

    def c_map_empty(self, lv, a, n):
        return SV(BOOL, S.mdom(lv.ty, self.cur(lv)) == z3.K(S.sort(lv.ty.a[0]), z3.BoolVal(False)))

    def c_map_clear(self, lv, a, n):
        t = self.cur(lv)
        self.setc(lv, S.mk(lv.ty, z3.K(S.sort(lv.ty.a[0]), z3.BoolVal(False)), S.mval(lv.ty, t)))

    def c_map_opidx(self, lv, a, n):
        k = self.argv(a, 0, lv.ty.a[0])
        t = self.cur(lv)
        d, v = S.mdom(lv.ty, t), S.mval(lv.ty, t)
        if not self.branch(z3.Select(d, k)):
            dv = self.zero_value(lv.ty.a[1]).t
            self.setc(lv, S.mk(lv.ty, z3.Store(d, k, z3.BoolVal(True)), z3.Store(v, k, dv)))
        return LV(lv.root, lv.path + (('mv', lv.ty, k),), lv.ty.a[1])

    def c_map_at(self, lv, a, n):
        k = self.argv(a, 0, lv.ty.a[0])
        self.oblige('map::at key present', z3.Select(S.mdom(lv.ty, self.cur(lv)), k), 'safety')
        return LV(lv.root, lv.path + (('mv', lv.ty, k),), lv.ty.a[1])

    def c_map_count(self, lv, a, n):
        k = self.argv(a, 0, lv.ty.a[0])
        return SV(ULONG, z3.If(z3.Select(S.mdom(lv.ty, self.cur(lv)), k), z3.IntVal(1), z3.IntVal(0)))

    def c_map_contains(self, lv, a, n):
        return SV(BOOL, z3.Select(S.mdom(lv.ty, self.cur(lv)), self.argv(a, 0, lv.ty.a[0])))

    def c_map_find(self, lv, a, n):
        k = self.argv(a, 0, lv.ty.a[0])
        d = S.mdom(lv.ty, self.cur(lv))
        return It('map', lv, key=k, rem=None, isend=z3.Not(z3.Select(d, k)))

    def c_map_begin(self, lv, a, n):
        d = S.mdom(lv.ty, self.cur(lv))
        return self.it_from_rem(It('map', lv), d)

    def c_map_end(self, lv, a, n):
        return It('map', lv, key=z3.Const('nokey_' + S._san(lv.ty.key), S.sort(lv.ty.a[0])), rem=None, isend=z3.BoolVal(True))

    c_map_cbegin, c_map_cend = c_map_begin, c_map_end

    def c_map_erase(self, lv, a, n):
        v = self.rv(self.ev(a[0]))
        t = self.cur(lv)
        d, vals = S.mdom(lv.ty, t), S.mval(lv.ty, t)
        if isinstance(v, It):
            self.oblige('erase of end iterator', z3.Not(v.isend), 'safety')
            self.setc(lv, S.mk(lv.ty, z3.Store(d, v.key, z3.BoolVal(False)), vals))
            rem = z3.Store(v.rem, v.key, z3.BoolVal(False)) if v.rem is not None else self.fresh(d.sort(), 'rem')
            return self.it_from_rem(v, rem)
        k = self.coerce(v, lv.ty.a[0]).t
        self.setc(lv, S.mk(lv.ty, z3.Store(d, k, z3.BoolVal(False)), vals))
        return SV(ULONG, z3.If(z3.Select(d, k), z3.IntVal(1), z3.IntVal(0)))

    def c_map_insert(self, lv, a, n):
        p = self.rv(self.ev(a[0]))
        if not (isinstance(p, SV) and p.ty.k == 'pair'):
            raise Unsupported('map insert')
        k, nv = S.acc(p.ty, 0, p.t), self.coerce(SV(p.ty.a[1], S.acc(p.ty, 1, p.t)), lv.ty.a[1]).t
        t = self.cur(lv)
        d, v = S.mdom(lv.ty, t), S.mval(lv.ty, t)
        if not self.branch(z3.Select(d, k)):
            self.setc(lv, S.mk(lv.ty, z3.Store(d, k, z3.BoolVal(True)), z3.Store(v, k, nv)))
        return MapIns(lv, k, z3.Not(z3.Select(d, k)))

    # ------------------------------------------------------------------ statements
    def exec(self, n):
        k = n.get('kind')
        if k is None:
            return
        m = getattr(self, 'st_' + k, None)
        if m is not None:
            return m(n)
        self.ev(n)

    def st_CompoundStmt(self, n):
        stmts = [c for c in n.get('inner', []) if c.get('kind')]
        self.run_stmts(stmts, 0)

    def run_stmts(self, stmts, i):
        labels = {}
        for j, s in enumerate(stmts):
            t = s
            while t.get('kind') == 'LabelStmt':
                labels[t.get('declId')] = j
                t = t['inner'][0]
        if not labels:
            for s in stmts[i:]:
                self.exec(s)
            return
        j = i
        looping = {}
        while j < len(stmts):
            s = stmts[j]
            try:
                if s.get('kind') == 'LabelStmt' and s.get('declId') not in looping and self.label_is_loop(s, stmts, j):
                    self.goto_loop(s, stmts, j, labels)
                    return
                self.exec(s)
                j += 1
            except GotoEx as g:
                if g.label in labels:
                    if labels[g.label] > j:
                        j = labels[g.label]
                    else:
                        raise
                else:
                    raise

    def st_LabelStmt(self, n):
        for c in n['inner']:
            self.exec(c)

    def label_is_loop(self, s, stmts, j):
        lid = s.get('declId')

        def has(n):
            if n.get('kind') == 'GotoStmt' and n.get('targetLabelDeclId') == lid:
                return True
            return any(has(c) for c in n.get('inner', []))
        return any(has(x) for x in stmts[j:])

    def goto_loop(self, s, stmts, j, labels):
        """label targeted by a backward goto: a loop head whose body is the rest of the block"""
        lid = s.get('declId')

        def body():
            k = j
            first = True
            while k < len(stmts):
                try:
                    if k == j:
                        for c in s['inner']:
                            self.exec(c)
                    else:
                        self.exec(stmts[k])
                    k += 1
                except GotoEx as g:
                    if g.label in labels and labels[g.label] > k:
                        k = labels[g.label]
                    else:
                        raise

        def one_iter():
            try:
                body()
            except GotoEx as g:
                if g.label == lid:
                    return 'again'
                raise
            return 'out'
        self.loop_goto(s, one_iter)

    def st_GotoStmt(self, n):
        raise GotoEx(n.get('targetLabelDeclId'))

    def st_DeclStmt(self, n):
        for d in n.get('inner', []):
            k = d.get('kind')
            if k == 'VarDecl':
                self.decl_var(d)
            elif k == 'DecompositionDecl':
                self.decl_decomp(d)
            elif k in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'EmptyDecl', 'CXXRecordDecl', 'EnumDecl', 'UsingDirectiveDecl', 'LabelDecl'):
                pass
            else:
                raise Unsupported('declaration ' + str(k))

    def decl_var(self, d):
        fr = self.frames_no[-1]
        key = (fr, d['id'])
        self.names[d['id']] = d.get('name')
        if d.get('storageClass') == 'static':
            raise Unsupported('static local')
        init = [c for c in d.get('inner', []) if c.get('kind') and not c['kind'].endswith('Comment') and not c['kind'].endswith('Attr')]
        if is_ref(d.get('type', {})):
            v = self.ev(init[0])
            if isinstance(v, SV) and v.ty.k not in ('ref',):
                v = self.temp(v)
            elif isinstance(v, SV):
                # reference to an entity object, or const-ref to a temporary pointer value
                t = None
                try:
                    t = self.tenv.parse(d['type'])
                except Unsupported:
                    pass
                if t is None or t.k != 'cls':
                    v = self.temp(v)
            self.st.locals[key] = v
            return
        if init:
            v = self.rv(self.ev(init[0]))
            if isinstance(v, It):
                v = v.copy()
            if isinstance(v, SV):
                try:
                    ty = self.tenv.parse(d['type'])
                    if ty.k not in ('cls', 'iter', 'fn'):
                        v = self.coerce(v, ty) if not (v.ty.k == 'ref' and ty.k == 'ref') else (v if ty.a[0] == 'void' else SV(ty, v.t))
                except Unsupported:
                    if 'auto' not in d['type'].get('qualType', ''):
                        pass
            if v is None:
                raise Unsupported('void initialiser')
        else:
            ty = self.tenv.parse(d['type'])
            if ty.k == 'ref' or ty.k == 'ptr':
                v = SV(ty, self.fresh_val(ty, 'uninit'))
            elif ty.k == 'arr':
                v = self.default_array(ty)
            elif ty.k == 'cls':
                raise Unsupported('local entity object ' + ty.a[0])
            elif ty.k in ('list', 'set', 'map', 'struct', 'pair', 'str'):
                v = self.default_value(ty)
            elif ty.k in ('iter', 'fn'):
                v = Junk(ty.k)
            else:
                v = SV(ty, self.fresh_val(ty, 'uninit'))
        self.st.locals[key] = v
        self.wrote(('local', key))

    def decl_decomp(self, d):
        init = [c for c in d.get('inner', []) if c.get('kind') and c['kind'] != 'BindingDecl']
        binds = [c for c in d.get('inner', []) if c.get('kind') == 'BindingDecl']
        v = self.ev(init[0])
        isr = is_ref(d.get('type', {}))
        if isinstance(v, (MapRef, SetIns, MapIns)):
            parts = [v.member(self, 'first'), v.member(self, 'second')]
        else:
            lv = v if isr else self.temp(self.rv(v))
            lv = self.as_lv(lv)
            parts = [LV(lv.root, lv.path + (('f', lv.ty, f),), ft) for f, ft in S.struct_fields(lv.ty)]
        fr = self.frames_no[-1]
        for b, p in zip(binds, parts):
            self.names[b['id']] = b.get('name')
            self.st.locals[(fr, b['id'])] = p if not isinstance(p, SV) else p

    def st_IfStmt(self, n):
        kids = [c for c in n['inner']]
        i = 0
        if n.get('hasInit'):
            self.exec(kids[0])
            i = 1
        if n.get('hasVar'):
            self.exec(kids[i])
            i += 1
        c = kids[i]
        if n.get('isConstexpr'):
            c0 = c
        if self.branch(self.cond(c)):
            self.exec(kids[i + 1])
        elif n.get('hasElse'):
            self.exec(kids[i + 2])

    def st_NullStmt(self, n):
        pass

    def st_ReturnStmt(self, n):
        kids = [c for c in n.get('inner', []) if c.get('kind')]
        if not kids:
            raise ReturnEx(None)
        fn = self.frames_fn[-1]
        v = self.ev(kids[0])
        if not fn.type.split('(')[0].strip().endswith('&'):
            v = self.rv(v)
        raise ReturnEx(v)

    def st_BreakStmt(self, n):
        raise BreakEx()

    def st_ContinueStmt(self, n):
        raise ContinueEx()

    def st_AttributedStmt(self, n):
        for c in n['inner']:
            if c.get('kind') and not c['kind'].endswith('Attr'):
                self.exec(c)

    def st_GCCAsmStmt(self, n):
        if [c for c in n.get('inner', []) if c.get('kind')]:
            raise Unsupported('asm')

    def st_CXXTryStmt(self, n):
        body = n['inner'][0]
        try:
            self.exec(body)
        except ThrowEx as t:
            for h in n['inner'][1:]:
                if h.get('kind') == 'CXXCatchStmt':
                    kids = [c for c in h.get('inner', [])]
                    var = kids[0] if kids and kids[0].get('kind') == 'VarDecl' else None
                    blk = kids[-1]
                    if var is not None:
                        q = clean(var['type'].get('qualType', ''))
                        if not (isinstance(t.v, SV) and (q.startswith('exception'))) and t.v is not None:
                            raise Unsupported('catch ' + q)
                        if t.v is not None:
                            self.st.locals[(self.frames_no[-1], var['id'])] = self.temp(t.v)
                            self.names[var['id']] = var.get('name')
                        else:
                            raise Unsupported('catch of contract exception')
                    self.exec(blk)
                    return
            raise

    def st_SwitchStmt(self, n):
        kids = [c for c in n['inner'] if c.get('kind')]
        cond, body = kids[-2], kids[-1]
        for c in kids[:-2]:
            self.exec(c)
        v = self.evr(cond)
        items = []   # flat list of ('case', val) / ('default',) / ('stmt', node)

        def flat(s):
            if s['kind'] == 'CaseStmt':
                cv = self.prog._const(s['inner'][0])
                if cv is None:
                    cv = self.evr(s['inner'][0]).t.as_long()
                items.append(('case', cv))
                flat(s['inner'][-1])
            elif s['kind'] == 'DefaultStmt':
                items.append(('default',))
                flat(s['inner'][-1])
            else:
                items.append(('stmt', s))
        for s in (body.get('inner', []) if body['kind'] == 'CompoundStmt' else [body]):
            if s.get('kind'):
                flat(s)
        start = None
        for i, it in enumerate(items):
            if it[0] == 'case':
                if self.branch(v.t == it[1]):
                    start = i
                    break
        if start is None:
            for i, it in enumerate(items):
                if it[0] == 'default':
                    start = i
        if start is None:
            return
        try:
            for it in items[start:]:
                if it[0] == 'stmt':
                    self.exec(it[1])
        except BreakEx:
            pass

    # ---- loops
    def st_WhileStmt(self, n):
        kids = n['inner']
        if n.get('hasVar'):
            raise Unsupported('while with declaration')
        c, body = kids[0], kids[1]
        self.loop(n, lambda: self.branch(self.cond(c)), lambda: self.exec(body), None)

    def st_DoStmt(self, n):
        body, c = n['inner'][0], n['inner'][1]
        cc = c
        while cc.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr'):
            cc = self.one(cc)
        if cc.get('kind') == 'CXXBoolLiteralExpr' and not cc['value'] or cc.get('kind') == 'IntegerLiteral' and int(cc['value']) == 0:
            try:
                self.exec(body)
            except (BreakEx, ContinueEx):
                pass
            return
        self.loop_do(n, lambda: self.branch(self.cond(c)), lambda: self.exec(body))

    def st_ForStmt(self, n):
        init, var, c, inc, body = n['inner']
        self.exec(init)
        self.loop(n, (lambda: self.branch(self.cond(c))) if c.get('kind') else (lambda: True), lambda: self.exec(body),
                  (lambda: self.ev(inc)) if inc.get('kind') else None)

    def st_CXXForRangeStmt(self, n):
        kids = n['inner']
        init, rng, beg, end, cond, inc, var, body = kids
        self.exec(init)
        self.exec(rng)
        self.exec(beg)
        self.exec(end)

        def b():
            self.exec(var)
            self.exec(body)
        self.loop(n, lambda: self.branch(self.cond(cond)), b, lambda: self.ev(inc))

    def loop_key(self, n):
        return (n['id'], tuple(f.id for f in self.frames_fn))

    def calls_in(self, n, seen=None):
        seen = set() if seen is None else seen
        out = set()
        stack = [n]
        while stack:
            x = stack.pop()
            if not isinstance(x, dict):
                continue
            ident = None
            if x.get('kind') == 'MemberExpr':
                ident = x.get('referencedMemberDecl')
                if x.get('name'):
                    out.add(x['name'].lstrip('->.'))
            elif x.get('kind') == 'DeclRefExpr':
                ident = x.get('referencedDecl', {}).get('id')
                if x.get('referencedDecl', {}).get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
                    out.add(x['referencedDecl'].get('name'))
            f = self.prog.fn_byid.get(ident) if ident else None
            if f is not None and f.body is not None and f.id not in seen and self.contract_of(f) is None:
                seen.add(f.id)
                out |= self.calls_in(f.body, seen)
            stack.extend(x.get('inner', []))
        return out

    def find_loopspec(self, L, n):
        """pick the loop specification of the verified function that matches this loop"""
        cands = []
        con = self.cur_contract
        if con is None:
            return None
        L.node = n
        for sp in con.loops + self.opts.get('common_loops', []):
            try:
                if sp.match is not None and not sp.match(L):
                    continue
                sp.inv(L)
                cands.append(sp)
            except SpecMismatch as e:
                if __import__("os").environ.get("VCDEBUG"): print("mismatch", sp.name, n.get("range",{}).get("begin",{}).get("offset"), e)
                continue
        if cands:
            return cands[0]
        return None

    def mod_explore(self, key, run_iter):
        """fixpoint of the set of locations written by one iteration"""
        # the set found depends on what is known where the loop starts
        base = self.st
        key = (key, tuple(f.get_id() for f in base.pc), self.nfresh)
        if key in self.modsets:
            return self.modsets[key][0]
        mark = self.nfresh
        mod = {}
        saved_ex, saved_ps, saved_psn = self.ex, self.ps, getattr(self, 'ps_n', 0)
        saved_frames = (list(self.frames_no), list(self.frames_this), list(self.frames_fn), list(self.frames_vis), self.framecount)
        self.dry += 1
        try:
            for rnd in range(8):
                acc = {}
                ex = Explorer()
                self.ex = ex
                npaths = 0
                while True:
                    npaths += 1
                    if npaths > 3000:
                        raise Unsupported('too many paths in loop body')
                    ex.start()
                    self.st = base.copy()
                    self.st.writes = {}
                    self.ps = None
                    self.nfresh = mark
                    (self.frames_no, self.frames_this, self.frames_fn, self.frames_vis, self.framecount) = (
                        list(saved_frames[0]), list(saved_frames[1]), list(saved_frames[2]), list(saved_frames[3]), saved_frames[4])
                    try:
                        self.havoc(mod, base)
                        self.st.writes = {}
                        run_iter()
                    except (PathEnd, ReturnEx, BreakEx, ThrowEx):
                        self.st.writes = {}         # this path does not come back to the head of the loop
                    except (ContinueEx, GotoEx):
                        pass
                    for k, subs in self.st.writes.items():
                        if k[0] == 'local' and k[1] not in base.locals:
                            continue
                        if k[0] == 'temp' and k[1] not in base.temps:
                            continue
                        d = acc.setdefault(k, {})
                        for i, t in subs.items():
                            if t is not None and max_fresh(t) > mark:
                                d[None] = None
                            else:
                                d[i] = t
                    if not ex.next():
                        break
                new = {k: dict(v) for k, v in mod.items()}
                for k, d in acc.items():
                    new.setdefault(k, {}).update(d)
                if {k: set(v) for k, v in new.items()} == {k: set(v) for k, v in mod.items()}:
                    break
                mod = new
            else:
                raise Unsupported('modification set does not converge')
        finally:
            self.dry -= 1
            self.st = base
            self.ex, self.ps, self.ps_n = saved_ex, None, 0
            (self.frames_no, self.frames_this, self.frames_fn, self.frames_vis, self.framecount) = (
                list(saved_frames[0]), list(saved_frames[1]), list(saved_frames[2]), list(saved_frames[3]), saved_frames[4])
            self.nfresh = mark
        self.modsets[key] = (mod, list(base.pc))      # keeps the formulas alive, so that their ids stay theirs
        return mod

    def havoc(self, mod, entry):
        st = self.st
        for k in sorted(mod, key=lambda k: str(k)):
            subs = mod[k]
            for r in subs.values():
                self.wrote(k, r)
            if k[0] == 'local':
                v = st.locals.get(k[1])
                if v is None:
                    continue
                if isinstance(v, SV):
                    st.locals[k[1]] = SV(v.ty, self.fresh_val(v.ty, self.names.get(k[1][1]) or 'v'))
                elif isinstance(v, It):
                    if v.kind == 'list':
                        p = self.fresh(z3.IntSort(), 'pos')
                        st.locals[k[1]] = v.copy(pos=p)
                        st.lazy_iters = getattr(st, 'lazy_iters', []) + [k[1]]
                    else:
                        ks = S.sort(v.lv.ty.a[0])
                        kk = self.fresh(ks, 'key')
                        rem = self.fresh(z3.ArraySort(ks, z3.BoolSort()), 'rem')
                        e = self.fresh(z3.BoolSort(), 'isend')
                        st.locals[k[1]] = v.copy(key=kk, rem=rem, isend=e)
                        self.iter_facts(v.lv.ty, kk, rem, e)
                elif isinstance(v, PV):
                    if v.lv.ty.k == 'arr' or v.off is not None or (v.lv.path and v.lv.path[-1][0] == 'li'):
                        st.locals[k[1]] = PV(v.lv, self.fresh(z3.IntSort(), 'off'))
                    else:
                        raise Unsupported('pointer variable modified in a loop')
                elif isinstance(v, Junk):
                    pass
                else:
                    raise Unsupported('havoc of local %r' % (v,))
            elif k[0] == 'field':
                a = self.heap_arr(st, k[1], k[2])
                if None in subs:
                    st.heap[(k[1], k[2])] = self.fresh(a.sort(), 'H_%s_%s' % (k[1], k[2]))
                else:
                    for i, r in subs.items():
                        a = z3.Store(a, r, self.fresh_val(self.field_ty(k[1], k[2]), 'f_' + k[2]))
                    st.heap[(k[1], k[2])] = a
            elif k[0] == 'mem':
                ety = next(t for t in self.mem_types() if t.key == k[1])
                a = self.mem_arr(st, ety)
                if None in subs:
                    st.mem[k[1]] = self.fresh(a.sort(), 'mem')
                else:
                    for i, b in subs.items():
                        a = z3.Store(a, b, self.fresh(a.sort().range(), 'memb'))
                    st.mem[k[1]] = a
            elif k[0] == 'ghost':
                st.ghost[k[1]] = self.fresh(self.ghost_sorts[k[1]], 'g_' + k[1])
            elif k[0] == 'static':
                st.statics[k[1]] = self.fresh_val(self.static_ty[k[1]], 'static')
            elif k[0] == 'temp':
                if k[1] in st.temps:
                    v = st.temps[k[1]]
                    if isinstance(v, z3.AstRef):
                        st.temps[k[1]] = self.fresh(v.sort(), 'tmp')
                    elif isinstance(v, It):
                        raise Unsupported('temp iterator modified')
            elif k[0] == 'alloc':
                o = st.alloc
                st.alloc = self.fresh(z3.IntSort(), 'alloc')
                self.assume(st.alloc >= o)
            elif k[0] == 'malive':
                if None in subs:
                    st.malive = self.fresh(st.malive.sort(), 'malive')
                else:
                    for i, b in subs.items():
                        st.malive = z3.Store(st.malive, b, self.fresh(z3.BoolSort(), 'al'))
            elif k[0] == 'mlen':
                if None in subs:
                    st.mlen = self.fresh(st.mlen.sort(), 'mlen')
                else:
                    for i, b in subs.items():
                        st.mlen = z3.Store(st.mlen, b, self.fresh(z3.IntSort(), 'ml'))
        # iterator facts after everything is havocked
        for k in mod:
            if k[0] == 'local':
                v = st.locals.get(k[1])
                if isinstance(v, It) and v.kind == 'list' and not isinstance(v.pos, str):
                    t = self.load_in(st, v.lv)
                    self.facts(t, v.lv.ty)
                    self.assume(v.pos >= 0)
                    self.assume(v.pos <= S.llen(v.lv.ty, t))
                elif isinstance(v, It) and v.kind in ('set', 'map') and v.rem is not None:
                    t = self.load_in(st, v.lv)
                    s = t if v.kind == 'set' else S.mdom(v.lv.ty, t)
                    x = z3.Const('x', v.key.sort())
                    self.assume(z3.ForAll([x], z3.Implies(z3.Select(v.rem, x), z3.Select(s, x)), patterns=[z3.Select(v.rem, x)]))
                    self.assume(z3.Or(v.isend, z3.Select(s, v.key)))

    def auto_inv(self, mod):
        """obligations that re-establish the built-in iterator facts"""
        out = []
        for k in mod:
            if k[0] == 'local':
                v = self.st.locals.get(k[1])
                if isinstance(v, It) and v.kind == 'list' and not isinstance(v.pos, str):
                    t = self.load_in(self.st, v.lv)
                    self.facts(t, v.lv.ty)
                    out.append(('iterator in range', z3.And(v.pos >= 0, v.pos <= S.llen(v.lv.ty, t))))
                elif isinstance(v, It) and v.kind in ('set', 'map') and v.rem is not None:
                    t = self.load_in(self.st, v.lv)
                    s = t if v.kind == 'set' else S.mdom(v.lv.ty, t)
                    x = z3.Const('x', v.key.sort())
                    out.append(('iterator within container', z3.ForAll([x], z3.Implies(z3.Select(v.rem, x), z3.Select(s, x)), patterns=[z3.Select(v.rem, x)])))
        return out

    def check_inv(self, spec, L, label, mod):
        for nm, e in self.auto_inv(mod):
            self.oblige('%s: %s' % (label, nm), e, 'loop')
        if spec is not None:
            for nm, e in spec.inv(L):
                self.oblige('%s: %s' % (label, nm), e, 'loop')

    depth = 0
    cond_inc = None

    def in_body(self, f):
        self.depth += 1
        try:
            return f()
        finally:
            self.depth -= 1

    def ghost_code(self, upd):
        if self.depth:
            raise SpecMismatch('ghost code inside a loop')      # it would not show in the set of locations the loop changes
        for g, v in upd.items():
            self.st.ghost[g] = v
            self.wrote(('ghost', g))

    def loop_common(self, n, iter_fn):
        """shared part: modset, spec, entry check, havoc, assume; returns (mod, spec, entry state, label, frame)"""
        key = self.loop_key(n)
        parts = self.cond_inc
        self.cond_inc = None
        mod = self.mod_explore(key, iter_fn)
        self.cond_inc = parts
        entry = self.st.copy()
        fr = self.frames_no[-1]
        L = LoopCtx(self, entry, self.st, fr, self.fctx, mod)
        spec = None
        if not self.dry:
            auto = self.map_inv(mod, self.cond_inc) if self.cond_inc is not None and self.opts.get('numeric') else None
            L.mapped = auto is not None and auto.known
            spec = self.find_loopspec(L, n)
            if self.opts.get('numeric'):
                if auto is not None and spec is not None:
                    sp, inv0 = spec, spec.inv
                    spec = LoopSpec(lambda L: auto.inv(L) + inv0(L), decreases=sp.decreases, name=sp.name, enter=sp.enter)
                elif auto is not None:
                    spec = auto
            if spec is None and self.cur_contract is not None and mod:     # a loop that changes nothing needs no invariant
                self.unmatched_loops.append((self.cur_fn_name, n.get('kind'), (n.get('range', {}).get('begin', {}) or {}).get('line')))
        if spec is not None and spec.enter is not None:
            self.ghost_code(spec.enter(L))
            entry = self.st.copy()
            L = LoopCtx(self, entry, self.st, fr, self.fctx, mod)
            L.node = n
        line = (n.get('range', {}).get('begin', {}) or {}).get('line')
        label = 'loop %s' % (spec.name if spec is not None and spec.name else n.get('kind', 'loop'))
        self.check_inv(spec, L, label + ' entry', mod)
        self.havoc(mod, entry)
        L = LoopCtx(self, entry, self.st, fr, self.fctx, mod)
        L.node = n
        if spec is not None:
            for nm, e in spec.inv(L):
                self.assume(e)
        return mod, spec, entry, label, fr

    def loop(self, n, cond_fn, body_fn, inc_fn):
        def it():
            if cond_fn():
                try:
                    self.in_body(body_fn)
                except ContinueEx:
                    pass
                if inc_fn:
                    inc_fn()
        sp0 = self.unroll_count(n)
        if sp0:
            return self.unrolled(cond_fn, body_fn, inc_fn, sp0)
        if self.opts.get('numeric') and self.peel(n, cond_fn, body_fn, inc_fn):
            return
        self.cond_inc = (cond_fn, body_fn, inc_fn)
        mod, spec, entry, label, fr = self.loop_common(n, it)
        d0 = None
        L = LoopCtx(self, entry, self.st, fr, self.fctx, mod)
        L.node = n
        if spec is not None and spec.decreases is not None:
            d0 = spec.decreases(L)
        if not cond_fn():
            return
        try:
            self.in_body(body_fn)
        except ContinueEx:
            pass
        except BreakEx:
            return
        if inc_fn:
            inc_fn()
        L = LoopCtx(self, entry, self.st, fr, self.fctx, mod)
        L.node = n
        self.check_inv(spec, L, label + ' preserved', mod)
        if d0 is not None:
            d1 = spec.decreases(L)
            self.oblige(label + ': measure decreases', z3.And(d0 >= 0, d1 < d0), 'termination')
        raise PathEnd()

    def unroll_count(self, n):
        return 0

    def peel(self, n, cond_fn, body_fn, inc_fn):
        """executes the iterations of a loop whose condition is decided by constants; True if that is all of them"""
        if n.get('kind') != 'ForStmt' or not n['inner'][2].get('kind'):
            return False
        c = n['inner'][2]

        def lit(x):
            while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr'):
                x = x['inner'][0]
            return x.get('kind') == 'IntegerLiteral'
        if c.get('kind') != 'BinaryOperator' or not any(lit(x) for x in c['inner']):
            return False
        for i in range(17):
            t = z3.simplify(self.cond(c))
            if z3.is_false(t):
                return True
            if not z3.is_true(t) or i == 16:
                if i:
                    raise Unsupported('loop with constant bounds of more than 16 iterations')
                return False
            try:
                body_fn()
            except ContinueEx:
                pass
            except BreakEx:
                return True
            if inc_fn:
                inc_fn()

    def map_inv(self, mod, iter_parts):
        """Invariants of a loop that runs an index upwards and stores, at that index, a value which depends on the index and on what the
        loop does not change (found by executing one iteration; they are obligations like any other invariant)"""
        cond_fn, body_fn, inc_fn = iter_parts
        if inc_fn is None:
            return None
        base, mark = self.st, self.nfresh
        saved_ex, saved_ps, saved_psn = self.ex, self.ps, getattr(self, 'ps_n', 0)
        fr = (list(self.frames_no), list(self.frames_this), list(self.frames_fn), list(self.frames_vis), self.framecount)
        ends = []
        self.dry += 1
        try:
            ex = Explorer()
            self.ex = ex
            for _ in range(60):
                ex.start()
                self.st = base.copy()
                self.st.writes = {}
                self.ps, self.ps_n = None, 0
                self.nfresh = mark
                self.frames_no, self.frames_this, self.frames_fn, self.frames_vis, self.framecount = list(fr[0]), list(fr[1]), list(fr[2]), list(fr[3]), fr[4]
                try:
                    self.havoc(mod, base)
                    start = self.st.copy()
                    n0 = len(self.st.pc)
                    if cond_fn():
                        n1 = len(self.st.pc)
                        self.in_body(body_fn)
                        m1 = self.st.copy()
                        inc_fn()
                        ends.append((start, n0, n1, m1, self.st.copy()))
                except (PathEnd, ReturnEx, BreakEx, ThrowEx, ContinueEx, GotoEx):
                    pass
                if not ex.next():
                    break
        finally:
            self.dry -= 1
            self.st, self.ex, self.ps, self.ps_n, self.nfresh = base, saved_ex, None, 0, mark
            self.frames_no, self.frames_this, self.frames_fn, self.frames_vis, self.framecount = fr
        if not ends:
            return None
        start, n0, n1, m1, end = ends[0]
        idx = [k for k in mod if k[0] == 'local' and isinstance(start.locals.get(k[1]), SV) and start.locals[k[1]].ty.k in ('int', 'uint')
               and isinstance(end.locals.get(k[1]), SV) and all(z3.is_int_value(d) and d.as_long() == 1 for d in
                                                                [z3.simplify(e[4].locals[k[1]].t - e[0].locals[k[1]].t) for e in ends])]
        if len(idx) != 1:
            return None
        ik = idx[0][1]
        j = start.locals[ik].t
        lo = base.locals[ik].t
        subst = []
        cells = []
        for k, subs in mod.items():
            if k[0] == 'mem' and None not in subs:
                ety = next(t for t in self.mem_types() if t.key == k[1])
                m0, a = self.mem_arr(base, ety), self.mem_arr(start, ety)
                chain = []
                while not a.eq(m0) and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
                    chain.append((a.arg(1), a.arg(2)))
                    a = a.arg(0)
                if not a.eq(m0):
                    return None
                for b, f in chain:
                    subst.append((f, S.sel(m0, b)))
                    cells.append((k[1], ety, b, f))
        out = []
        C = [f for f in end.pc[n0:n1] if not has_quant(f)]
        base_subst = list(subst)
        okc = lambda e: max_fresh(z3.substitute(e, (j, z3.IntVal(0)), *base_subst)) <= mark

        def at(e, i):
            return z3.substitute(e, (j, i), *base_subst)
        if C and all(okc(c) for c in C):
            cc = z3.And(*C)
            out.append(('index', lambda jc: z3.And(jc >= lo, z3.Or(jc == lo, at(cc, jc - 1)))))
        else:
            out.append(('index', lambda jc: jc >= lo))
        vals = []
        for key, ety, b, f in cells:
            E, off, good = None, None, True
            for st_, _, n1_, m1_, e_ in ends:
                m = self.mem_arr(m1_, ety)
                inner = None
                a = m
                while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
                    if a.arg(1).eq(b):
                        inner = a.arg(2)
                        break
                    a = a.arg(0)
                if inner is None or not (z3.is_app(inner) and inner.decl().kind() == z3.Z3_OP_STORE):
                    good = False
                    break
                at_, v = inner.arg(1), inner.arg(2)
                rest = inner.arg(0)
                while z3.is_app(rest) and rest.decl().kind() == z3.Z3_OP_STORE and rest.arg(1).eq(at_):
                    rest = rest.arg(0)
                if not rest.eq(f):
                    good = False
                    break
                o = z3.simplify(at_ - j)
                if max_fresh(z3.substitute(o, *base_subst)) > mark or (off is not None and not off.eq(o)):
                    good = False
                    break
                off = o
                pcond = [c for c in e_.pc[n1_:] if not has_quant(c) and okc(c)]
                if not okc(v):
                    good = False
                    break
                E = v if E is None else z3.If(z3.And(*pcond) if pcond else z3.BoolVal(True), v, E)
            if good and E is not None:
                vals.append((key, ety, b, z3.substitute(off, *base_subst), E))
        p = z3.Int('p!map')

        def inv(L):
            jc = L.cur_st.locals[ik].t
            r = [(nm, g(jc)) for nm, g in out]
            for key, ety, b, off, E in vals:
                cur, old = self.mem_sel(L.cur_st, ety, b), self.mem_sel(L.entry_st, ety, b)
                r.append(('elements done', z3.ForAll([p], z3.Implies(z3.And(p >= lo + off, p < jc + off), z3.Select(cur, p) == at(E, z3.simplify(p - off))), patterns=[z3.Select(cur, p)])))
                r.append(('elements to come', z3.ForAll([p], z3.Implies(z3.Or(p < lo + off, p >= jc + off), z3.Select(cur, p) == z3.Select(old, p)), patterns=[z3.Select(cur, p)])))
            return r
        sp = LoopSpec(inv, name='over elements')
        sp.known = bool(vals)
        return sp

    def unrolled(self, cond_fn, body_fn, inc_fn, k):
        for i in range(k):
            if not cond_fn():
                return
            try:
                body_fn()
            except ContinueEx:
                pass
            except BreakEx:
                return
            if inc_fn:
                inc_fn()
        raise Unsupported('loop not exhausted by unrolling')

    def loop_do(self, n, cond_fn, body_fn):
        def it():
            try:
                self.in_body(body_fn)
            except ContinueEx:
                pass
            cond_fn()
        self.cond_inc = None
        mod, spec, entry, label, fr = self.loop_common(n, it)
        try:
            self.in_body(body_fn)
        except ContinueEx:
            pass
        except BreakEx:
            return
        if not cond_fn():
            return
        L = LoopCtx(self, entry, self.st, fr, self.fctx, mod)
        L.node = n
        self.check_inv(spec, L, label + ' preserved', mod)
        raise PathEnd()

    def loop_goto(self, n, one_iter):
        self.cond_inc = None
        mod, spec, entry, label, fr = self.loop_common(n, one_iter)
        r = self.in_body(one_iter)
        if r == 'out':
            return
        L = LoopCtx(self, entry, self.st, fr, self.fctx, mod)
        L.node = n
        self.check_inv(spec, L, label + ' preserved', mod)
        raise PathEnd()

    # ------------------------------------------------------------------ verification of one function
    def initial(self, fn, con):
        self.st = State()
        self.nfresh = 0
        self.framecount = 0
        self.frames_no, self.frames_this, self.frames_fn, self.frames_vis = [], [], [], []
        self.ps, self.ps_n = None, 0
        self.assume(self.st.alloc > 0)

    def verify(self, fn, con, max_paths=4000):
        """explore all paths of fn against con; appends obligations"""
        self.cur_fn_name = con.key
        self.cur_contract = con
        self.modsets = {}
        self.ex = Explorer()
        npaths = 0
        nexits = 0
        n0 = len(self.obls)
        while True:
            npaths += 1
            if npaths > max_paths:
                raise Unsupported('too many paths in ' + con.key)
            self.ex.start()
            self.initial(fn, con)
            try:
                nexits += self.one_path(fn, con)
            except PathEnd:
                pass
            if not self.ex.next():
                break
        return dict(paths=npaths, exits=nexits, obligations=len(self.obls) - n0)

    def make_args(self, fn, con):
        this = None
        if fn.cls is not None and not fn.static:
            ty = self.tenv.parse(fn.cls)
            if ty.k == 'cls':
                t = self.fresh(z3.IntSort(), 'this')
                this = SV(REF(fn.cls), t)
                self.assume(t > 0)
                self.assume(t < self.st.alloc)
            else:
                this = PV(self.temp(SV(ty, self.fresh_val(ty, 'self'))))
        vals = []
        for p in fn.params:
            ty = self.tenv.parse(p['type'])
            if ty.k == 'cls':
                ty = REF(ty.a[0])
                t = self.fresh_val(ty, p.get('name') or 'arg')
                self.assume(t > 0)
                vals.append(SV(ty, t))
                continue
            v = SV(ty, self.fresh_val(ty, p.get('name') or 'arg'))
            vals.append(self.temp(v) if is_ref(p['type']) else v)
        return this, vals

    def one_path(self, fn, con):
        this, vals = self.make_args(fn, con)
        if fn.kind == 'CXXConstructorDecl' and isinstance(this, SV):
            # the object under construction is freshly allocated
            pass
        if con.setup:
            con.setup(self, fn, this, vals)
        C0 = Ctx(self, fn, this, vals, self.st.copy())
        self.fctx = C0
        for nm, e in con.requires(C0):
            self.assume(e)
        self.fn_entry = self.st.copy()
        C0 = Ctx(self, fn, this, vals, self.fn_entry)
        self.fctx = C0
        if con.decreases is not None:
            self.fn_decr = con.decreases(C0)
        if not self.entry_covered:
            self.covers.append((con.key, 'precondition satisfiable', list(self.st.pc)))
            self.entry_covered = True
        if con.setup_lemmas is not None:
            for e in con.setup_lemmas(C0):
                self.assume(e)
        ret = None
        if con.enter is not None:
            self.ghost_code(con.enter(C0))
        self.push_frame(fn, this, vals)
        try:
            try:
                if fn.kind == 'CXXConstructorDecl':
                    self.ctor_inits(fn, this)
                ret = self.exec_body(fn)
            except ThrowEx as t:
                C = Ctx(self, fn, this, vals, self.fn_entry, self.st, None)
                C.thrown = t.v
                C.hyps = []
                if con.ensures_throw is not None:
                    for nm, e in con.ensures_throw(C):
                        self.oblige('ensures_throw ' + nm, e)
                    self.frame_obls(con, C)
                else:
                    self.oblige('no exception escapes', z3.BoolVal(False))
                return 1
        finally:
            pass
        C = Ctx(self, fn, this, vals, self.fn_entry, self.st, ret)
        if con.leave is not None:
            self.ghost_code(con.leave(C))
        self.covers.append((con.key, 'exit', list(self.st.pc)))
        if con.post_lemmas is not None:
            for e in con.post_lemmas(C):
                self.assume(e)
        if con.hints is not None:
            for nm, e in con.hints(C):
                self.oblige('hint ' + nm, e)
        npc = len(self.st.pc)
        for nm, e in con.ensures(C):
            # each postcondition is proved from the path alone (not from the other postconditions)
            if not self.dry and not z3.is_true(e) and (self.ex.pos > self.ex.flip or self.ex.flip < 0):
                self.obls.append(Obligation('ensures ' + nm, list(self.st.pc), e, self.cur_fn_name, 'ensures'))
        self.frame_obls(con, C)
        return 1

    entry_covered = False

    def frame_obls(self, con, C):
        """everything written that is not in modifies must be unchanged (for objects that existed at entry)"""
        if not con.check_frame:
            return
        mods = con.modifies(C) if callable(con.modifies) else con.modifies
        allowed, partial = set(), {}
        for m in mods:
            if isinstance(m, tuple):
                partial.setdefault(m[0], []).extend(m[1])
            else:
                allowed.add(m)
        pre = self.fn_entry
        r = z3.Int('fr')
        for (c, f), a in self.st.heap.items():
            nm = '%s.%s' % (c, f)
            a0 = self.heap_arr(pre, c, f)
            if nm in allowed or a.eq(a0):
                continue
            if isinstance(C.this_v, SV) and c in self.ghosty:
                continue
            ex = partial.get(nm, [])
            g = z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < pre.alloc, *[r != w for w in ex]), z3.Select(a, r) == z3.Select(a0, r)))
            self.obl1('frame: %s unchanged%s' % (nm, ' elsewhere' if ex else ''), g)
        for k, a in self.st.mem.items():
            nm = 'mem:' + k
            ety = next(t for t in self.mem_types() if t.key == k)
            a0 = self.mem_arr(pre, ety)
            if nm in allowed or a.eq(a0):
                continue
            ex = partial.get(nm, [])
            g = z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < pre.alloc, *[r != w for w in ex]), z3.Select(a, r) == z3.Select(a0, r)))
            self.obl1('frame: %s unchanged%s' % (nm, ' elsewhere' if ex else ''), g)
        if 'mlen' not in allowed and not self.st.mlen.eq(pre.mlen):
            self.obl1('frame: no existing array changes length', z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < pre.alloc), z3.Select(self.st.mlen, r) == z3.Select(pre.mlen, r))))
        if 'malive' not in allowed and not self.st.malive.eq(pre.malive):
            self.obl1('frame: no existing array is freed', z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < pre.alloc), z3.Select(self.st.malive, r) == z3.Select(pre.malive, r))))
        for s, t in self.st.statics.items():
            t0 = self.static_get(pre, s)
            if 'static:' + s not in allowed and not t.eq(t0):
                self.obl1('frame: static %s unchanged' % s, t == t0)
        for s, t in self.st.ghost.items():
            t0 = self.ghost_get(pre, s)
            if 'ghost:' + s not in allowed and not t.eq(t0):
                self.obl1('frame: ghost %s unchanged' % s, t == t0)
        if isinstance(C.this_v, PV) and 'this' not in allowed and C.fn.kind != 'CXXConstructorDecl':
            t, t0 = self.load_in(self.st, C.this_v.lv), self.load_in(pre, C.this_v.lv)
            if not t.eq(t0):
                self.obl1('frame: *this unchanged', t == t0)
        for i, v in enumerate(C.args):
            if isinstance(v, LV) and ('param:%d' % i) not in allowed:
                t, t0 = self.load_in(self.st, v), self.load_in(pre, v)
                if not t.eq(t0):
                    self.obl1('frame: parameter %d unchanged' % i, t == t0)

    ghosty = ()

    def obl1(self, name, g):
        if not self.dry and (self.ex.pos > self.ex.flip or self.ex.flip < 0):
            self.obls.append(Obligation(name, list(self.st.pc), g, self.cur_fn_name, 'frame'))


class MapRef:
    """the pair a map iterator refers to"""
    def __init__(self, lv, key):
        self.lv, self.key = lv, key

    def member(self, eng, name):
        if name == 'first':
            return SV(self.lv.ty.a[0], self.key)
        if name == 'second':
            return LV(self.lv.root, self.lv.path + (('mv', self.lv.ty, self.key),), self.lv.ty.a[1])
        raise Unsupported('member ' + name)


class SetIns:
    """result of set::insert"""
    def __init__(self, lv, key, fresh):
        self.lv, self.key, self.fresh_ = lv, key, fresh

    def member(self, eng, name):
        if name == 'second':
            return SV(BOOL, self.fresh_)
        return It('set', self.lv, key=self.key, rem=None, isend=z3.BoolVal(False))


class MapIns(SetIns):
    def member(self, eng, name):
        if name == 'second':
            return SV(BOOL, self.fresh_)
        return It('map', self.lv, key=self.key, rem=None, isend=z3.BoolVal(False))


def PVany(d):
    if isinstance(d, LV):
        return PV(d)
    if isinstance(d, MapRef):
        return PVMap(d)
    if isinstance(d, SV):
        return d
    raise Unsupported('operator->')


class PVMap(PV):
    def __init__(self, m):
        self.lv, self.off, self.m = None, None, m


_orig_pv_lv = Engine.pv_lv


def _pv_lv(self, v):
    if isinstance(v, PVMap):
        return v.m
    return _orig_pv_lv(self, v)


Engine.pv_lv = _pv_lv

_orig_member = Engine.member


def _member(self, obj, mid, name):
    if isinstance(obj, (MapRef, SetIns)):
        return obj.member(self, name)
    if isinstance(obj, LV) and obj.ty.k == 'obj':
        v = self.rv(obj)
        if isinstance(v, (MapRef, SetIns)):
            return v.member(self, name)
    return _orig_member(self, obj, mid, name)


Engine.member = _member

_lits = {}


def strlit(s):
    if s not in _lits:
        _lits[s] = 1000 + len(_lits)
    return _lits[s]


def is_num(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def real_lit(s):
    """the simplest rational whose double rounding is the literal's value"""
    x = float(s)
    f = fractions.Fraction(x)
    best = None
    g = fractions.Fraction(str(s)) if re.match(r'^-?[\d.eE+-]+$', str(s)) else f
    for den in (1, 10 ** 3, 10 ** 6, 10 ** 9, 10 ** 12):
        c = f.limit_denominator(den)
        if float(c) == x:
            best = c
            break
    if best is None:
        best = f
    if best.numerator == 0 and x != 0:
        best = f
    return z3.RealVal('%d/%d' % (best.numerator, best.denominator))


_ufs = {}


def shift_facts(na, arr, pos):
    """na is arr with the element at pos taken out"""
    i = z3.Int('i')
    return [z3.ForAll([i], z3.Select(na, i) == z3.If(i < pos, z3.Select(arr, i), z3.Select(arr, i + 1)), patterns=[z3.Select(na, i)]),
            # the same fact, triggered from the old array
            z3.ForAll([i], z3.And(z3.Implies(i < pos, z3.Select(na, i) == z3.Select(arr, i)),
                                  z3.Implies(i > pos, z3.Select(na, i - 1) == z3.Select(arr, i))), patterns=[z3.Select(arr, i)])]


def UF(name, *sorts):
    if name not in _ufs:
        _ufs[name] = z3.Function(name, *sorts)
    return _ufs[name]


def tadd(a, b):
    return UF('tadd', z3.RealSort(), z3.RealSort(), z3.RealSort())(a, b)


def tsub(a, b):
    return UF('tsub', z3.RealSort(), z3.RealSort(), z3.RealSort())(a, b)


T_inf, T_zero, T_sentinel, T_epsilon = z3.Reals('T_inf T_zero T_sentinel T_epsilon')
