"""Hash-consed canonical terms and pattern unification."""

class T:
    __slots__ = ('op', 'a', '_s', 'depth', 'names', '__weakref__')
    def __repr__(self):
        return show(self)

_tab = {}

def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.a = a; t._s = None
        d = 0
        for x in a:
            if x.__class__ is T and x.depth > d: d = x.depth
        t.depth = d + 1
        t.names = None
        _tab[k] = t
    return t

NONE = mk('none')
WILD = mk('wild')
REST = mk('rest')
TRUE = mk('const', 'true')
FALSE = mk('const', 'false')
NULL = mk('const', '0')
OK = mk('OK')
OUTARG = mk('outarg')
STR = mk('str')


def sym(n): return mk('sym', n)
def const(v): return mk('const', str(v))


def is_num(t):
    if t.op != 'const': return False
    s = t.a[0]
    return s.lstrip('-').isdigit()


def show(t):
    if t.__class__ is not T: return str(t)
    if t._s is not None: return t._s
    op, a = t.op, t.a
    if op in ('sym', 'const'): s = a[0]
    elif op == 'none': s = ''
    elif op == 'wild': s = '_'
    elif op == 'rest': s = '...'
    elif op == 'var': s = '$' + a[0]
    elif op == 'call':
        s = ('%s.' % show(a[1]) if a[1] is not NONE else '') + a[0] + '(' + ', '.join(show(x) for x in a[2:]) + ')'
    elif op == 'fld': s = '%s.%s' % (show(a[0]), a[1])
    elif op == 'elem': s = 'elem(%s)' % show(a[0])
    elif op == 'idx': s = '%s[%s]' % (show(a[0]), show(a[1]))
    elif op == 'bin': s = '(%s %s %s)' % (show(a[1]), a[0], show(a[2]))
    elif op == 'un': s = '%s%s' % (a[0], show(a[1]))
    elif op == 'lt': s = '%s < %s' % (show(a[0]), show(a[1]))
    elif op == 'eq': s = '%s == %s' % (show(a[0]), show(a[1]))
    elif op == 'not': s = '!(%s)' % show(a[0])
    elif op == 'and': s = '(%s && %s)' % (show(a[0]), show(a[1]))
    elif op == 'or': s = '(%s || %s)' % (show(a[0]), show(a[1]))
    elif op == 'obj':
        s = '%s{%s}' % (a[0].split('::')[-1], ', '.join('%s=%s' % (n, show(v)) for n, v in a[2]) if len(a) > 2 and a[2] else '')
    elif op == 'out': s = 'out%s[%s]' % (a[1], show(a[0]))
    elif op == 'status': s = 'Status(%s)' % show(a[0])
    elif op == 'str': s = '"..."'
    else: s = '%s(%s)' % (op, ', '.join(show(x) for x in a))
    t._s = s
    return s


def children(t):
    for x in t.a:
        if x.__class__ is T: yield x
        elif x.__class__ is tuple:
            for y in x:
                if y.__class__ is tuple:
                    for z in y:
                        if z.__class__ is T: yield z
                elif y.__class__ is T: yield y


def mentions(t, sub):
    if t is sub: return True
    if t.depth <= sub.depth and t.op != 'obj': return False
    for c in children(t):
        if mentions(c, sub): return True
    return False


def callnames(t):
    """names of all calls inside t (cached)."""
    if t.names is not None: return t.names
    s = set()
    if t.op == 'call': s.add(t.a[0])
    for c in children(t): s |= callnames(c)
    t.names = frozenset(s)
    return t.names


def subst(t, m):
    r = m.get(t)
    if r is not None: return r
    ch = False
    na = []
    for x in t.a:
        if x.__class__ is T:
            y = subst(x, m)
            if y is not x: ch = True
            na.append(y)
        elif x.__class__ is tuple:
            z = _st(x, m)
            if z != x: ch = True
            na.append(z)
        else: na.append(x)
    return mk(t.op, *na) if ch else t


def _st(x, m):
    return tuple(subst(y, m) if y.__class__ is T else (_st(y, m) if y.__class__ is tuple else y) for y in x)


def unify(p, t, b):
    """Match pattern p against term t extending bindings b (dict). Returns dict or None."""
    if p is t and p.op not in ('var',): return b
    op = p.op
    if op == 'wild': return b
    if op == 'var':
        n = p.a[0]
        if n in b: return b if b[n] is t else None
        b = dict(b); b[n] = t
        return b
    if op == 'alt':
        for q in p.a:
            r = unify(q, t, b)
            if r is not None: return r
        return None
    if op == 'mention':
        return b if find_sub(p.a[0], t, b) else None
    if t.op != op:
        return None
    if op == 'call':
        pn = p.a[0]
        if pn != '_' and pn != t.a[0]: return None
        if p.a[1] is not NONE:
            b = unify(p.a[1], t.a[1], b)
            if b is None: return None
        pa, ta = p.a[2:], t.a[2:]
        if pn in ('min', 'max') and len(pa) == 2 and len(ta) == 2 and t.a[1] is NONE:
            for x, y in (ta, (ta[1], ta[0])):
                r = unify(pa[0], x, b)
                if r is not None: r = unify(pa[1], y, r)
                if r is not None: return r
            return None
        i = 0
        for i, x in enumerate(pa):
            if x is REST: return b
            if i >= len(ta): return None
            b = unify(x, ta[i], b)
            if b is None: return None
        return b if len(pa) == len(ta) else None
    if op == 'obj':
        # pattern obj: a[0] type ('_' any), a[1] name ignored, a[2] required fields
        if p.a[0] != '_' and p.a[0].split('::')[-1] != t.a[0].split('::')[-1]: return None
        if p.a[1][:1] == '@' and p.a[1] not in t.a[1]: return None
        tf = dict(t.a[2]) if len(t.a) > 2 else {}
        for n, v in p.a[2]:
            if n not in tf: return None
            b = unify(v, tf[n], b)
            if b is None: return None
        return b
    if op == 'out':
        b = unify(p.a[0], t.a[0], b)
        if b is None: return None
        if p.a[1] != '_' and p.a[1] != t.a[1]: return None
        return b
    if op == 'bin':
        if p.a[0] != t.a[0]: return None
        r = unify(p.a[1], t.a[1], b)
        if r is not None:
            r = unify(p.a[2], t.a[2], r)
            if r is not None: return r
        if p.a[0] in ('+', '*', '&', '|', '^'):
            r = unify(p.a[1], t.a[2], b)
            if r is not None: return unify(p.a[2], t.a[1], r)
        return None
    if op == 'eq':
        r = unify(p.a[0], t.a[0], b)
        if r is not None:
            r = unify(p.a[1], t.a[1], r)
            if r is not None: return r
        r = unify(p.a[0], t.a[1], b)
        if r is not None: return unify(p.a[1], t.a[0], r)
        return None
    if len(p.a) != len(t.a):
        if p.a and p.a[-1] is REST and len(t.a) >= len(p.a) - 1: pass
        else: return None
    for x, y in zip(p.a, t.a):
        if x is REST: return b
        if x.__class__ is T:
            if y.__class__ is not T: return None
            b = unify(x, y, b)
            if b is None: return None
        elif x == '_': continue
        elif x != y: return None
    return b


def find_sub(p, t, b):
    if unify(p, t, b) is not None: return True
    for c in children(t):
        if find_sub(p, c, b): return True
    return False
