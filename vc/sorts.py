"""z3 sorts of the memory model."""
import z3
from .types import *

Val = z3.DeclareSort('Val')
_cache = {}
_structs = {}     # struct name -> [(field, Ty)]


def reset():
    _cache.clear()
    _structs.clear()


def register_struct(name, fields):
    if name in _structs and [(a, b.key) for a, b in _structs[name]] != [(a, b.key) for a, b in fields]:
        _cache.pop(STRUCT(name).key, None)
    _structs[name] = fields


def struct_fields(t):
    if t.k == 'pair':
        return [('first', t.a[0]), ('second', t.a[1])]
    return _structs[t.a[0]]


def sort(t):
    k = t.key
    if k in _cache:
        return _cache[k]
    r = _mk(t)
    _cache[k] = r
    return r


def _san(s):
    return ''.join(c if c.isalnum() else '_' for c in s)


def _mk(t):
    k = t.k
    if k == 'bool':
        return z3.BoolSort()
    if k in ('int', 'uint', 'ref', 'str', 'enum', 'cls'):
        return z3.IntSort()
    if k in ('real', 'time'):
        return z3.RealSort()
    if k == 'val':
        return Val
    if k == 'list':
        d = z3.Datatype('L_' + _san(t.a[0].key))
        d.declare('mkL_' + _san(t.a[0].key), ('arr_' + _san(t.a[0].key), z3.ArraySort(z3.IntSort(), sort(t.a[0]))),
                  ('len_' + _san(t.a[0].key), z3.IntSort()))
        return d.create()
    if k == 'set':
        return z3.ArraySort(sort(t.a[0]), z3.BoolSort())
    if k == 'map':
        n = _san(t.key)
        d = z3.Datatype('M_' + n)
        d.declare('mk_' + n, ('dom_' + n, z3.ArraySort(sort(t.a[0]), z3.BoolSort())),
                  ('val_' + n, z3.ArraySort(sort(t.a[0]), sort(t.a[1]))))
        return d.create()
    if k == 'ptr':
        d = z3.Datatype('Ptr')
        d.declare('mkPtr', ('pbase', z3.IntSort()), ('poff', z3.IntSort()))
        key = 'ptr'
        if key not in _cache:
            _cache[key] = d.create()
        return _cache[key]
    if k in ('struct', 'pair'):
        n = _san(t.key)
        d = z3.Datatype('S_' + n)
        fs = struct_fields(t)
        d.declare('mk_' + n, *[(n + '_' + f, sort(ft)) for f, ft in fs])
        return d.create()
    if k == 'arr':
        return z3.ArraySort(z3.IntSort(), sort(t.a[0]))
    raise Unsupported('no sort for type %s' % t)


# --- constructors/accessors
def mk(t, *args):
    s = sort(t)
    if args and all(z3.is_app(a) and a.decl().eq(s.accessor(0, i)) for i, a in enumerate(args)):
        p = args[0].arg(0)
        if all(a.arg(0).eq(p) for a in args):
            return p            # a copy, member by member
    return s.constructor(0)(*args)


def acc(t, i, term):
    s = sort(t)
    if z3.is_app(term) and term.decl().eq(s.constructor(0)):
        return term.arg(i)
    return s.accessor(0, i)(term)


def fld(t, name, term):
    fs = struct_fields(t)
    for i, (f, ft) in enumerate(fs):
        if f == name:
            return acc(t, i, term)
    raise Unsupported('no field %s in %s' % (name, t))


def ftype(t, name):
    for f, ft in struct_fields(t):
        if f == name:
            return ft
    raise Unsupported('no field %s in %s' % (name, t))


def upd(t, name, term, v):
    fs = struct_fields(t)
    return mk(t, *[v if f == name else acc(t, i, term) for i, (f, ft) in enumerate(fs)])


def larr(t, term):
    return acc(t, 0, term)


def llen(t, term):
    return acc(t, 1, term)


mdom, mval = larr, llen


def sel(a, i):
    """select with read-over-write simplification for syntactically equal indices"""
    if isinstance(i, int):
        i = z3.IntVal(i)
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        if a.arg(1).eq(i):
            return a.arg(2)
        if z3.is_int_value(a.arg(1)) and z3.is_int_value(i):
            a = a.arg(0)
            continue
        break
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        return a.arg(0)
    return z3.Select(a, i)


def empty_set(t):
    return z3.K(sort(t.a[0]), z3.BoolVal(False))


def empty_list(t, arr=None):
    if arr is None:
        arr = z3.Const('nilarr_' + _san(t.a[0].key), z3.ArraySort(z3.IntSort(), sort(t.a[0])))
    return mk(t, arr, z3.IntVal(0))


# this z3 build does not keep the terms of a pattern alive; hold them here
_held = []
_MP = z3.MultiPattern


def _mp(*args):
    _held.append(args)
    p = _MP(*args)
    _held.append(p)
    return p


_topat = z3.z3._to_pattern


def _tp(arg):
    _held.append(arg)
    p = _topat(arg)
    _held.append(p)
    return p


z3.MultiPattern = z3.z3.MultiPattern = _mp
z3.z3._to_pattern = _tp
_FA = z3.ForAll


def _okpat(vs, p):
    """a usable trigger: applications only, no interpreted booleans/ite, covers the variables"""
    seen, found, bad = set(), set(), []

    def go(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        for v in vs:
            if e.eq(v):
                found.add(v.get_id())
        if z3.is_app(e):
            if e.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ):
                bad.append(e)
            for c in e.children():
                go(c)
    for t in (p.children() if isinstance(p, z3.PatternRef) else [p]):
        if t.num_args() == 0 or z3.is_int_value(t) or (z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE)):
            return False
        go(t)
    return not bad and len(found) == len({v.get_id() for v in vs})


def _forall(vs, body, weight=1, qid='', skid='', patterns=[], no_patterns=[]):
    l = vs if isinstance(vs, list) else [vs]
    ps = [p for p in patterns if _okpat(l, p)]
    return _FA(vs, body, weight, qid, skid, ps, no_patterns)


z3.ForAll = z3.z3.ForAll = _forall
