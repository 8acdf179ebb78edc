"""Clang front end of cxxvc: dumps the AST of /repo's *current* sources on every run and indexes it.

Nothing here is hand-copied from the code under test: a driver translation unit (see /verif/drivers)
only #includes the real headers and asks for explicit template instantiations; clang resolves the
names, overloads, conversions and instantiates the templates; we read the resulting JSON AST.
"""
import json, os, re, subprocess, hashlib, tempfile

CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
REPO = os.environ.get('ADEVS_REPO', '/repo')


class ExtractionError(Exception):
    pass


def dump(driver, filt='adevs', extra=(), std='c++17', includes=()):
    """Run clang on `driver` and return the list of JSON documents printed by -ast-dump-filter."""
    cmd = [CLANG, '-std=' + std, '-I' + REPO + '/include'] + ['-I' + i for i in includes] + list(extra) + [
        '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, driver]
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=120)
    if p.returncode != 0:
        raise ExtractionError('clang failed on %s:\n%s' % (driver, p.stderr[-3000:]))
    s = p.stdout
    d = json.JSONDecoder()
    i, n, docs = 0, len(s), []
    while True:
        while i < n and s[i] in ' \n\r\t':
            i += 1
        if i >= n:
            break
        if s[i] != '{':          # "Dumping ...:" headers
            j = s.find('\n', i)
            i = n if j < 0 else j + 1
            continue
        o, i = d.raw_decode(s, i)
        docs.append(o)
    return docs, ' '.join(cmd)


def strip_ns(s):
    return re.sub(r'\b(adevs|std|__cxx11|__gnu_cxx)::', '', s)


class Cls:
    def __init__(self, name, node):
        self.name, self.node = name, node
        self.fields = []      # (name, type string, node)
        self.methods = []     # Fn
        self.bases = []
        self.spec = False
        self.targs = ''


class Fn:
    def __init__(self, node, cls):
        self.node, self.cls = node, cls
        self.name = node.get('name', '')
        self.id = node['id']
        self.kind = node['kind']
        self.type = node.get('type', {}).get('qualType', '')
        self.params = [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        self.body = next((c for c in node.get('inner', []) if c.get('kind') in ('CompoundStmt', 'CXXTryStmt')), None)
        self.inits = [c for c in node.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
        self.virtual = node.get('virtual', False)
        self.pure = node.get('pure', False)
        self.static = node.get('storageClass') == 'static'
        self.implicit = node.get('isImplicit', False)
        self.defaulted = node.get('explicitlyDefaulted') is not None or self.implicit

    def ptypes(self):
        return [p.get('type', {}) for p in self.params]

    @property
    def key(self):
        from .types import short_type
        ps = ','.join(short_type(t) for t in self.ptypes())
        return (self.cls + '::' if self.cls else '') + self.name + '(' + ps + ')'

    @property
    def qname(self):
        return (self.cls + '::' if self.cls else '') + self.name

    def line(self):
        l = self.node.get('loc', {})
        return l.get('line') or l.get('spellingLoc', {}).get('line') or l.get('expansionLoc', {}).get('line')


RECORDS = ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl')
FNS = ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl', 'FunctionDecl')


class Program:
    """All classes/functions reachable in the AST dump(s) of one driver."""

    def __init__(self, driver, filters=('adevs',), extra=(), includes=(), std='c++17', restrict=None):
        self.driver = driver
        self.restrict = restrict or {}
        self.byid = {}       # decl id -> node
        self.fn_byid = {}    # decl id -> Fn
        self.fns = {}        # key -> [Fn]
        self.classes = {}    # name -> [Cls]
        self.field_byid = {} # id -> (class, name, node)
        self.enums = {}      # id -> value
        self.enum_types = set()
        self.enum_names = {}
        self.statics = {}    # id -> (class, name, node)
        self.cmds = []
        self.opaque = set()
        self.default_args = {}   # (name, type) of a parameter -> expressions
        for f in filters:
            docs, cmd = dump(driver, f, extra, std, includes)
            self.cmds.append(cmd)
            for d in docs:
                self._walk(d, None, False, None)
        self._link()

    def _walk(self, n, cls, dep, spec):
        """dep: inside an uninstantiated template."""
        k = n.get('kind')
        if k is None:
            return
        if k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            first = True
            for c in n.get('inner', []):
                if c.get('kind') == 'CXXRecordDecl':
                    self._defaults(c)
                if c.get('kind') in ('CXXRecordDecl', 'CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl'):
                    isdep = first and k == 'ClassTemplateDecl' or (k == 'FunctionTemplateDecl' and first)
                    first = False
                    if not isdep or k == 'FunctionTemplateDecl':
                        self._walk(c, cls, dep or isdep, spec)
                elif c.get('kind') in RECORDS:
                    self._walk(c, cls, dep, spec)
            return
        if k == 'ClassTemplatePartialSpecializationDecl':
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            if dep:
                return
            name = n.get('name')
            if name is None:
                for c in n.get('inner', []):
                    self._walk(c, cls, dep, spec)
                return
            qn = name
            c0 = Cls(qn, n)
            c0.bases = [b['type'].get('desugaredQualType') or b['type']['qualType'] for b in n.get('bases', [])]
            c0.spec = k == 'ClassTemplateSpecializationDecl'
            if c0.spec:
                from .types import targs_of_spec
                c0.targs = targs_of_spec(n)
            self.byid[n['id']] = n
            n['_cls'] = c0
            if name in self.restrict and c0.spec and c0.targs != self.restrict[name]:
                return
            if n.get('completeDefinition') or n.get('inner'):
                self.classes.setdefault(qn, []).append(c0)
            for c in n.get('inner', []):
                ck = c.get('kind')
                if ck == 'FieldDecl':
                    c0.fields.append((c.get('name'), c.get('type', {}), c))
                    self.field_byid[c['id']] = (qn, c.get('name'), c)
                    self.byid[c['id']] = c
                elif ck == 'VarDecl':
                    self.statics[c['id']] = (qn, c.get('name'), c)
                    self.byid[c['id']] = c
                elif ck in FNS:
                    f = Fn(c, qn)
                    c0.methods.append(f)
                    self._addfn(f)
                    self._walk_body(c)
                elif ck == 'CXXRecordDecl' and c.get('isImplicit'):
                    continue
                else:
                    self._walk(c, qn, dep, spec)
            return
        if k in FNS:
            if dep:
                return
            # out-of-line definition of a member of a non-template class
            owner = cls
            pid = n.get('parentDeclContextId')
            if pid and pid in self.byid and '_cls' in self.byid[pid]:
                owner = self.byid[pid]['_cls'].name
            elif n.get('previousDecl') in self.fn_byid:
                owner = self.fn_byid[n['previousDecl']].cls
            if k != 'FunctionDecl' and owner is None:
                return        # uninstantiated out-of-line template member
            if pid and pid not in self.byid and k != 'FunctionDecl':
                return
            f = Fn(n, owner)
            self._addfn(f)
            self._walk_body(n)
            return
        if k == 'EnumConstantDecl':
            return
        if k == 'EnumDecl':
            v = -1
            if n.get('name'):
                self.enum_types.add(n['name'])
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    val = None
                    for e in c.get('inner', []):
                        val = self._const(e)
                    v = v + 1 if val is None else val
                    self.enums[c["id"]] = v
                    self.enum_names[c["name"]] = v
            return
        if k == 'VarDecl':
            self.byid[n['id']] = n
            if n.get('previousDecl') in self.statics:
                self.statics[n['id']] = self.statics[n['previousDecl']]
            else:
                self.statics[n['id']] = (cls, n.get('name'), n)
            return
        for c in n.get('inner', []):
            self._walk(c, cls, dep, spec)

    def _defaults(self, rec):
        for m in rec.get('inner', []):
            if m.get('kind') in FNS:
                for p in m.get('inner', []):
                    if p.get('kind') == 'ParmVarDecl' and p.get('inner') and p.get('init'):
                        self.default_args.setdefault((p.get('name'), p.get('type', {}).get('qualType')), []).append(p['inner'][-1])

    def _const(self, e):
        if 'value' in e and e.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
            return int(e['value'])
        for c in e.get('inner', []):
            v = self._const(c)
            if v is not None:
                return v
        return None

    def _walk_body(self, n):
        """Index local enums / classes inside bodies (rare)."""
        for c in n.get('inner', []):
            k = c.get('kind')
            if k == 'EnumDecl':
                self._walk(c, None, False, None)
            elif k in ('CompoundStmt', 'DeclStmt', 'IfStmt'):
                self._walk_body(c)

    def _addfn(self, f):
        self.fn_byid[f.id] = f
        self.byid[f.id] = f.node

    def _link(self):
        for f in list(self.fn_byid.values()):
            pd = f.node.get('previousDecl')
            if f.body is not None and pd in self.fn_byid and self.fn_byid[pd].body is None:
                d = self.fn_byid[pd]
                d.body, d.inits, d.params = f.body, f.inits, f.params
                d.defnode = f.node
                if f.cls is None:
                    f.cls = d.cls
                f.static = d.static
                f.virtual = d.virtual
        seen = set()
        for f in self.fn_byid.values():
            self.fns.setdefault(f.key, [])
            lst = self.fns[f.key]
            if f.body is not None:
                lst.insert(0, f)
            else:
                lst.append(f)

    # ---- queries
    def cls(self, name):
        l = self.classes.get(name)
        if not l:
            return None
        l2 = [c for c in l if c.fields or c.methods]
        best = l2 or l
        spec = [c for c in best if c.spec]
        best = spec or best
        # prefer the specialisation with most bodies
        return max(best, key=lambda c: (sum(1 for m in c.methods if m.body is not None), len(c.fields)))

    def find(self, key):
        """key: 'Class::name(argtypes)' or 'Class::name' when unambiguous."""
        if key in self.fns:
            return self.fns[key][0]
        c = [v[0] for k, v in self.fns.items() if k.split('(')[0] == key]
        c = [f for f in c if f.body is not None] or c
        if len(c) == 1:
            return c[0]
        if not c:
            return None
        raise ExtractionError('ambiguous function key %s: %s' % (key, [f.key for f in c]))
