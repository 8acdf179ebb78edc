"""Type descriptors and the parser from clang type strings to them."""
import re


class Unsupported(Exception):
    pass


class Ty:
    __slots__ = ('k', 'a', '_key')

    def __init__(self, k, *a):
        self.k, self.a = k, a
        self._key = k + ('<' + ','.join(x.key if isinstance(x, Ty) else str(x) for x in a) + '>' if a else '')

    @property
    def key(self):
        return self._key

    def __eq__(self, o):
        return isinstance(o, Ty) and self._key == o._key

    def __hash__(self):
        return hash(self._key)

    def __repr__(self):
        return self._key


BOOL, REAL, TIME, VAL, STR, VOID = Ty('bool'), Ty('real'), Ty('time'), Ty('val'), Ty('str'), Ty('void')
INT = Ty('int', 32)
LONG = Ty('int', 64)
UINT = Ty('uint', 32)
ULONG = Ty('uint', 64)


def REF(c):
    return Ty('ref', c)


def LIST(e):
    return Ty('list', e)


def SET(e):
    return Ty('set', e)


def MAP(k, v):
    return Ty('map', k, v)


def PTR(e):
    return Ty('ptr', e)


def STRUCT(n):
    return Ty('struct', n)


def PAIR(a, b):
    return Ty('pair', a, b)


def ARR(e, n):
    return Ty('arr', e, n)


def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def clean(s):
    s = re.sub(r'\b(class|struct|enum|typename|volatile)\s+', '', s)
    s = re.sub(r'\b(adevs|std|__cxx11|__gnu_cxx|__1)::', '', s)
    s = re.sub(r'\bconst\b', ' ', s)
    s = re.sub(r'\s+', ' ', s).strip()
    return s


def tstr(t):
    """type node -> string"""
    if isinstance(t, str):
        return t
    return t.get('desugaredQualType') or t.get('qualType') or ''


def is_ref(t):
    s = tstr(t).strip()
    q = (t.get('qualType', '') if isinstance(t, dict) else s).strip()
    return s.endswith('&') or q.endswith('&')


def targs_of_spec(node):
    out = []
    for c in node.get('inner', []):
        if c.get('kind') == 'TemplateArgument':
            out.append(clean(tstr(c.get('type', {}))) if 'type' in c else str(c.get('value', '')))
    return ','.join(out)


def short_type(t):
    """normalised short form for function keys: template args dropped"""
    s = clean(tstr(t))
    r = ''
    d = 0
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            r += ch
    r = r.replace(' ', '').replace('&&', '').replace('&', '')
    if r == 'shared_ptr' or r == 'unique_ptr':
        inner = s[s.index('<') + 1:s.rindex('>')]
        r = short_type(inner) + '*'
    if r in ('ValueType', 'V'):
        r = 'V'
    return r


INTS = {'int': INT, 'long': LONG, 'long long': LONG, 'short': Ty('int', 16), 'signed char': Ty('int', 8), 'char': Ty('int', 8),
        'unsigned int': UINT, 'unsigned': UINT, 'unsigned long': ULONG, 'unsigned long long': ULONG, 'size_t': ULONG,
        'size_type': ULONG, 'unsigned char': Ty('uint', 8), 'unsigned short': Ty('uint', 16), 'difference_type': LONG,
        'ptrdiff_t': LONG, 'bool': BOOL, 'double': REAL, 'float': REAL, 'long double': REAL, 'void': VOID,
        'string': STR, 'basic_string<char>': STR, 'any': VAL, 'uint8_t': Ty('uint', 8), 'int32_t': INT, 'uint32_t': UINT, 'sunrealtype': REAL, 'realtype': REAL}


UNORDERED = set()          # container types whose order of iteration is not a function of the content


class TypeEnv:
    """How class names map to the memory model for one driver."""

    def __init__(self, value_classes=(), enums=(), opaque=None, aliases=None, handles=()):
        self.value = set(value_classes)
        self.enums = set(enums)
        self.opaque = dict(opaque or {})      # 'V' -> VAL ; 'T' -> TIME
        self.aliases = dict(aliases or {})
        self.handles = set(handles)
        self.cache = {}

    def parse(self, t):
        s = tstr(t)
        if s in self.cache:
            return self.cache[s]
        r = self._parse(clean(s))
        self.cache[s] = r
        return r

    def _parse(self, s):
        s = s.strip()
        while s.endswith('&'):
            s = s[:-1].strip()
        if s in self.aliases:
            s2 = self.aliases[s]
            return s2 if isinstance(s2, Ty) else self._parse(s2)
        if s in self.opaque:
            return self.opaque[s]
        if s in INTS:
            return INTS[s]
        m = re.match(r'^(.*)\[(\d*)\]$', s)
        if m and not s.endswith('*'):
            return ARR(self._parse(m.group(1)), int(m.group(2) or 0))
        if s.endswith('*'):
            inner = s[:-1].strip()
            if inner == 'char':
                return STR
            if inner == 'void':
                return REF('void')
            t = self._parse(inner)
            if t.k == 'cls':
                return REF(t.a[0])
            return PTR(t)
        if '<' in s and s.endswith('>'):
            i = s.index('<')
            head, args = s[:i], split_targs(s[i + 1:-1])
            if head in ('list', 'vector', 'deque'):
                return LIST(self._elem(args[0]))
            if head == 'set' or head == 'unordered_set':
                t = SET(self._elem(args[0]))
                if head == 'unordered_set':
                    UNORDERED.add(t.key)
                return t
            if head == 'map' or head == 'unordered_map':
                t = MAP(self._elem(args[0]), self._elem(args[1]))
                if head == 'unordered_map':
                    UNORDERED.add(t.key)
                return t
            if head == 'pair':
                return PAIR(self._elem(args[0]), self._elem(args[1]))
            if head in ('shared_ptr', 'unique_ptr', '__shared_ptr', '__shared_ptr_access'):
                t = self._parse(args[0])
                if t.k == 'cls':
                    return REF(t.a[0])
                return PTR(t)
            if head == 'atomic' or head == '__atomic_base':
                return self._parse(args[0])
            if head.split('::')[-1] in ('_List_iterator', '_List_const_iterator', '__normal_iterator', '_Rb_tree_iterator',
                        '_Rb_tree_const_iterator', 'reverse_iterator', '_Node_iterator', '_Node_const_iterator'):
                return Ty('iter')
            if head == 'initializer_list':
                return LIST(self._elem(args[0]))
            if head == 'function':
                return Ty('fn')
            rest = s[self._match(s, i) + 1:]
            if rest.startswith('::'):
                return self._named(rest[2:])
            return self._named(head)
        if '<' in s:
            i = s.index('<')
            j = self._match(s, i)
            rest = s[j + 1:]
            if rest.startswith('::'):
                return self._parse(rest[2:])
        if '::' in s:
            return self._parse(s.split('::')[-1])
        return self._named(s)

    def _match(self, s, i):
        d = 0
        for j in range(i, len(s)):
            if s[j] == '<':
                d += 1
            elif s[j] == '>':
                d -= 1
                if d == 0:
                    return j
        return len(s) - 1

    def _elem(self, s):
        t = self._parse(s)
        if t.k == 'cls':
            raise Unsupported('container of entity class by value: ' + s)
        return t

    def _named(self, s):
        if s in self.aliases:
            s2 = self.aliases[s]
            return s2 if isinstance(s2, Ty) else self._parse(s2)
        if s in self.enums:
            return INT
        if s in self.value:
            return STRUCT(s)
        if s in self.opaque:
            return self.opaque[s]
        if re.match(r'^[A-Za-z_]\w*$', s):
            return Ty('cls', s)
        if '(lambda' in s:
            return Ty('fn')
        raise Unsupported('type ' + s)
