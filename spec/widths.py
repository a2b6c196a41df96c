"""Integer widths: no value is squeezed through a narrower type than the reference tree gives it.

For each property: the declared integer types (width and sign) of the fields of the classes its rules name, of the parameters,
results and locals of the functions its rules name, and every conversion inside them whose source width is known.  A place that
is gone carries no obligation; widening is never reported."""
import os, re, json
from fe.spec import Custom
from fe.cxx import E, base_str
from fe.absint import INTS
from fe.repo import AnalysisBroken, walk
from fe.table import load_all

HERE = os.path.dirname(os.path.abspath(__file__))
FL = {'float': (24, True), 'double': (53, True)}
TOK = re.compile(r'\b(?:unsigned long long|unsigned long|unsigned int|unsigned short|unsigned char|signed char|long long|long int|u?int(?:8|16|32|64)_t|s?size_t|ptrdiff_t|uintptr_t|unsigned|int|long|short|bool|char|float|double)\b')

def shape(ty):
    """type text with its integer types taken out, and those types"""
    ty = re.sub(r'\s*(::|<|>|,)\s*', r'\1', ty or '')
    t = re.sub(r'\b(const|static|constexpr|volatile|inline|struct|thread_local|mutable|std::|explicit|virtual)\b|std::|butil::|bthread::', '', ty or '')
    ns = []
    def sub(m):
        ns.append(INTS.get(m.group(0)) or FL[m.group(0)]); return '#'
    t = TOK.sub(sub, t)
    return re.sub(r'[\s&]', '', t), [list(x) for x in ns]

def one(ty):
    """(width, signed) of a plain (possibly atomic) integer type"""
    s, n = shape(ty)
    if len(n) == 1 and s in ('#', 'atomic<#>', 'optional<#>'): return tuple(n[0])
    return None

def fkey(f): return '%s|%s/%d' % (f.file, f.qual(), len(f.params))

def ptypes(f): return [(p[1] if isinstance(p, (tuple, list)) and len(p) > 1 else '') for p in f.params]

def decls(body):
    for x in walk(body):
        if isinstance(x, E) and x.k == 'decl':
            for d in x.a[0]:
                if isinstance(d, tuple) and len(d) == 3 and isinstance(d[0], str) and isinstance(d[1], str): yield d[0], d[1], d[2], x.line

class Types:
    """what is known of the width of an expression of one function"""
    def __init__(s, repo, f):
        s.repo = repo; s.f = f; s.env = {}
        amb = set()
        def put(n, w):
            if n in s.env and s.env[n] != w: amb.add(n)
            s.env[n] = w
        for p in f.params:
            if isinstance(p, (tuple, list)) and len(p) > 1: put(p[0], one(p[1]))
        for n, ty, init, ln in decls(f.body()): put(n, one(ty) if 'auto' not in ty else None)
        for n in amb: s.env[n] = None
        s.fl = dict(repo.fieldcls.get((f.cls or '').split('::')[-1], {}))
    def w(s, e, d=0):
        if not isinstance(e, E) or d > 8: return None
        k = e.k
        if k == 'name':
            n = e.a[0]
            if n in s.env: return s.env[n]
            if n in s.fl: return one(s.fl[n])
            return None
        if k == 'cast': return one(e.a[0]) or None
        if k == 'mem':
            if isinstance(e.a[0], E) and e.a[0].k == 'this': return one(s.fl.get(e.a[1], ''))
            return s.byfield(e.a[1])
        if k == 'asg': return s.w(e.a[1], d + 1)
        if k == 'un' and e.a[0] in ('-', '~', '+', '++', '--'): return s.w(e.a[1], d + 1)
        if k == 'bin':
            if e.a[0] in ('+', '-', '*', '|', '^'):
                a, b = s.w(e.a[1], d + 1), s.w(e.a[2], d + 1)
                if s.const(e.a[1]): return b
                if s.const(e.a[2]): return a
                if a and b: return max(a, b, key=lambda z: z[0])
                return None
            if e.a[0] == '/' and s.const(e.a[2]) is False: return s.w(e.a[1], d + 1)
            return None
        if k == 'cond':
            a, b = s.w(e.a[1], d + 1), s.w(e.a[2], d + 1)
            return max(a, b, key=lambda z: z[0]) if a and b else None
        if k == 'call' and isinstance(e.a[0], E):
            f = e.a[0]; n = f.a[0] if f.k == 'name' else f.a[1] if f.k == 'mem' else None
            if not isinstance(n, str): return None
            if f.k == 'name' and n in ('static_cast', 'implicit_cast') and f.a[1]: return one(f.a[1])
            if f.k == 'name' and len(e.a[1]) == 1 and n.replace('std::', '') in INTS: return INTS[n.replace('std::', '')]
            if f.k == 'mem' and n in ('load', 'fetch_add', 'fetch_sub', 'exchange', 'value', 'get_value'): return s.w(f.a[0], d + 1)
            n = n.split('::')[-1]
            if n in ('min', 'max') and len(e.a[1]) == 2:
                return s.w(e.a[1][0], d + 1)
            if f.k == 'mem' and n in ('size', 'length', 'count', 'ByteSizeLong') and not e.a[1]: return None
            ws = {one(g.ret or '') for g in s.repo.sigs.get(n, ()) if len(g.params) >= len(e.a[1])}
            if len(ws) == 1: return next(iter(ws))
        return None
    def byfield(s, n):
        ws = {one(fl[n]) for fl in s.repo.fieldcls.values() if n in fl}
        return next(iter(ws)) if len(ws) == 1 else None
    def const(s, e):
        return isinstance(e, E) and (e.k in ('num', 'chr', 'lit') or e.k == 'un' and s.const(e.a[1]) or e.k == 'name' and re.match(r'(FLAGS_)?k?[A-Z]', e.a[0].split('::')[-1]) is not None)
    def small_mul(s, e, d=0):
        """a product of two narrow operands that is only widened afterwards"""
        if not isinstance(e, E) or d > 4: return None
        if e.k == 'bin' and e.a[0] == '*' and not s.const(e.a[1]) and not s.const(e.a[2]):
            a, b = s.w(e.a[1]), s.w(e.a[2])
            if a and b and a[0] <= 32 and b[0] <= 32: return e
        if e.k == 'bin' and e.a[0] in ('+', '-', '*'): return s.small_mul(e.a[1], d + 1) or s.small_mul(e.a[2], d + 1)
        return None

def tail(e):
    """a name for the source of a conversion that survives renaming of locals around it"""
    if not isinstance(e, E): return '?'
    if e.k == 'name': return e.a[0].split('::')[-1]
    if e.k == 'mem': return str(e.a[1])
    if e.k == 'call':
        f = e.a[0]
        if isinstance(f, E) and f.k == 'name' and f.a[0] == 'static_cast': return tail(e.a[1][0]) if e.a[1] else '?'
        if isinstance(f, E) and f.k == 'mem' and f.a[1] == 'load': return tail(f.a[0])
        return tail(f)
    if e.k == 'bin': return '%s%s%s' % (tail(e.a[1]), e.a[0], tail(e.a[2]))
    if e.k in ('un', 'cast'): return tail(e.a[1])
    return e.k

def narrowings(repo, f):
    """(kind, to, source name, line) of every conversion that loses bits as far as the types are known"""
    T = Types(repo, f); out = []
    def flow(to, e, line, how):
        if to is None: return
        w = T.w(e)
        if w and to[0] < w[0] and to[0] > 1 and not (to[0] == 53 and w[0] == 64): out.append((how, to[0], tail(e), line))
        if to[0] >= 64:
            m = T.small_mul(e)
            if m is not None: out.append(('product', 32, tail(m), line))
    ret = one(f.ret or '')
    for n, ty, init, ln in decls(f.body()):
        if isinstance(init, E) and 'auto' not in ty:
            if init.k == 'ctor' and len(init.a[1]) == 1: init = init.a[1][0]
            flow(one(ty), init, ln, 'init')
    for x in walk(f.body()):
        if not isinstance(x, E): continue
        if x.k == 'asg' and x.a[0] in ('=', '+=', '-='): flow(T.w(x.a[1]), x.a[2], x.line, 'assign')
        elif x.k == 'cast': flow(one(x.a[0]), x.a[1], x.line, 'cast')
        elif x.k == 'call' and isinstance(x.a[0], E) and x.a[0].k == 'name':
            n = x.a[0].a[0]
            if n == 'static_cast' and x.a[1]: flow(one(x.a[0].a[1] or ''), x.a[1][0], x.line, 'cast')
            elif n.replace('std::', '') in INTS and len(x.a[1]) == 1: flow(INTS[n.replace('std::', '')], x.a[1][0], x.line, 'cast')
        elif x.k == 'ret' and x.a and isinstance(x.a[0], E) and not any(isinstance(y, E) and y.k == 'lambda' for y in walk(f.body())):
            flow(ret, x.a[0], x.line, 'return')
    return out

def worse(ref, now):
    """the first integer type of `now` that is narrower, or of the other sign at the same width, than in `ref`"""
    for (a, sa), (b, sb) in zip(ref, now):
        if b < a: return '%d bits instead of %d' % (b, a)
        if b == a and b > 8 and sa != sb: return '%s instead of %s' % ('signed' if sb else 'unsigned', 'signed' if sa else 'unsigned')
    return None

def anchored():
    """property -> [(file, Cls::fn)] of the contract tables"""
    out = {}
    d = {p: list(rs) for p, rs in load_all().items()}
    import spec, pkgutil, importlib
    for m in pkgutil.iter_modules(spec.__path__):
        if m.name in ('widths', 'copies'): continue
        for p, rs in getattr(importlib.import_module('spec.' + m.name), 'PROPS', {}).items(): d.setdefault(p, []).extend(rs)
    for p, rs in d.items():
        for r in rs:
            if hasattr(r, 'file') and hasattr(r, 'qual'): out.setdefault(p, []).append((r.file, r.qual))
    return out

def funcs_of(repo, file, qual):
    u = repo.try_unit(file)
    if u is None: return []
    cls, name = qual.rsplit('::', 1) if '::' in qual else (None, qual)
    return [f for f in u.funcs if f.name == name and (cls is None or f.cls == cls.split('::')[-1])]

def decl_of(repo, f):
    fs = [(p, shape(t)) for p, t in [('result', f.ret or '')] + [('parameter %d' % (i + 1), t) for i, t in enumerate(ptypes(f))]]
    return [[n, s, w] for n, (s, w) in fs]

def locals_of(f):
    d = {}
    for n, ty, init, ln in decls(f.body()):
        if 'auto' in ty: continue
        s, w = shape(ty)
        if w: d.setdefault(n, []).append([s, w, ln])
    return d

WHERE = {}

def same_file_classes(repo, files):
    out = {}
    for fl in files:
        for g in (fl, fl[:-3] + '.h' if fl.endswith('.cc') else fl):
            u = repo.try_unit(g) if repo.path(g) else None
            if u is not None:
                
                    for c, x in u.fields.items(): out.setdefault(c, {}).update(x); WHERE[c] = u.rel
    return out

def reference(repo):
    """the content of widths.json"""
    from spec.copies import refs, outs
    ref = {'fields': {}, 'funcs': {}, 'locals': {}, 'narrow': {}, 'refs': {}, 'outs': {}, 'copied': []}
    files = {f for l in anchored().values() for f, q in l}
    ref['inits'] = {os.path.relpath(p, repo.root): {n: v for n, (v, ln) in inits(p).items()} for p in headers_of(repo, files)}
    for c, fl in same_file_classes(repo, files).items():
        for n, ty in fl.items():
            s, w = shape(ty)
            if w: ref['fields'].setdefault(c, {})[n] = [s, w]
    us = []
    for g in sorted({g for p in files for g in (p, p[:-3] + '.h' if p.endswith('.cc') else p)}):
        u = repo.try_unit(g) if repo.path(g) else None
        if u is not None and u not in us: us.append(u)
    for u in us:
        if True:
            for f in u.funcs:
                k = fkey(f)
                ref['funcs'].setdefault(k, []).append(decl_of(repo, f))
                if refs(f): ref['refs'][k] = refs(f)
                if outs(f): ref['outs'][k] = outs(f)
                ls = locals_of(f)
                if ls: ref['locals'].setdefault(k, {}).update({n: [x[:2] for x in v] for n, v in ls.items()})
                for how, to, src, ln in narrowings(repo, f):
                    e = [how, to, src]
                    if e not in ref['narrow'].setdefault(f.file, []): ref['narrow'][f.file].append(e)
    return ref

INIT = re.compile(r'^[ \t]+(?:(?:static|inline|mutable|volatile|constexpr|const)\s+)*[A-Za-z_][\w:<>, ]*[ >]\s*(\w+_?)\s*(?:\{([^{}]*)\}|=\s*([^;{}()]+));', re.M)

def inits(path):
    """name -> literal default value of the members declared in a header (names declared once)"""
    t = re.sub(r'//[^\n]*|/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), open(path, errors='replace').read(), flags=re.S)
    out = {}; many = set()
    for m in INIT.finditer(t):
        n = m.group(1); v = (m.group(2) if m.group(2) is not None else m.group(3)).strip()
        v = re.sub(r'(?<=[0-9])[uUlL]+$', '', v)
        if n in out: many.add(n)
        if v in ('', '0', 'false', 'nullptr', '0.0', 'NULL'): v = '0'
        elif v == 'true' or re.fullmatch(r'-?\d+', v): v = '1' if v == 'true' else v
        elif not re.fullmatch(r'-?0x[0-9a-fA-F]+', v): continue
        out[n] = (v, t.count('\n', 0, m.start(1)) + 1)
    return {n: v for n, v in out.items() if n not in many}

def headers_of(repo, files):
    return sorted({p for p in (repo.path(f[:-3] + '.h' if f.endswith('.cc') else f) for f in files) if p})

_ref = None
def load():
    global _ref
    if _ref is None: _ref = json.load(open(os.path.join(HERE, 'widths.json')))
    return _ref

def widths(repo, rep, anchors):
    ref = load()
    inv = set(json.load(open(os.path.join(HERE, 'inventory.json'))))
    fs = []
    for fl, q in anchors:
        for f in funcs_of(repo, fl, q):
            if f not in fs: fs.append(f)
    # functions the reference tree does not have are parts of the anchored ones
    for fl in {f for f, q in anchors}:
        u = repo.try_unit(fl)
        if u is not None: fs += [f for f in u.funcs if f.qual() not in inv and f not in fs]
        h = repo.try_unit(fl[:-3] + '.h') if fl.endswith('.cc') and repo.path(fl[:-3] + '.h') else u if fl.endswith('.h') else None
        if h is not None: fs += [f for f in h.funcs if f not in fs]
    n0 = rep.obligations
    for f in fs:
        k = fkey(f); now = decl_of(repo, f); rr = ref['funcs'].get(k)
        if rr and len(rr) == 1:
            for (n, s, w), (n2, s2, w2) in zip(rr[0], now):
                if s != s2 or not w: continue
                bad = worse(w, w2)
                rep.check(bad is None, f.file, f.qual(), 'width', n, f.line, '%s is %s' % (n, bad))
        rl = ref['locals'].get(k, {})
        for n, v in locals_of(f).items():
            if n not in rl: continue
            for s, w, ln in v:
                c = [x for x in rl[n] if x[0] == s]
                if not c: continue
                bad = all(worse(x[1], w) and any(b < a for (a, _), (b, _) in zip(x[1], w)) for x in c)
                rep.check(not bad, f.file, f.qual(), 'width', n, ln, '%s is narrower than the values it has to hold' % n)
        ok = {tuple(x) for x in ref['narrow'].get(f.file, [])}
        okn = {(t, s) for h, t, s in ok}
        for how, to, src, ln in narrowings(repo, f):
            rep.check((to, src) in okn, f.file, f.qual(), 'narrowing ' + how, src, ln,
                      'a product of two %d-bit values (%s) is widened only after it has wrapped' % (to, src) if how == 'product' else '%s is squeezed into %d bits' % (src, to))
    rep.obligations += len(fs)
    here = same_file_classes(repo, {f for f, q in anchors})
    for c, fl in here.items():
        r = ref['fields'].get(c)
        if not r: continue
        for n, ty in fl.items():
            if n not in r: continue
            s, w = shape(ty)
            if r[n][0].startswith('atomic<'):
                rep.check(r[n][0][7:-1] != s, WHERE.get(c, 'src'), c, 'atomic', n, 0, 'field %s::%s is no longer atomic' % (c, n))
            if s != r[n][0]: continue
            bad = worse(r[n][1], w)
            rep.check(bad is None, WHERE.get(c, 'src'), c, 'width', n, 0, 'field %s::%s is %s' % (c, n, bad))
    for p in headers_of(repo, {f for f, q in anchors}):
        rel = os.path.relpath(p, repo.root); r = ref['inits'].get(rel, {})
        u = repo.try_unit(rel); fns = {n for fl in u.fields.values() for n in fl} if u is not None else set()
        for n, (v, ln) in inits(p).items():
            if n in r and n in fns: rep.check(v == r[n], rel, n, 'initial value', v, ln, '%s starts as %s instead of %s' % (n, v, r[n]))
    if rep.obligations > n0: rep.rules.append({'function': '*', 'rule': 'no value passes a narrower integer type than in the reference tree', 'instances': rep.obligations - n0})

PROPS = {p: [Custom(lambda repo, rep, a=a: widths(repo, rep, a), 'integer widths')] for p, a in anchored().items()}
