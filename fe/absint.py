"""Abstract interpreter for the codecs.

Domain: an integer is a vector of abstract bits -- 0, 1, (source, index, negated) or T (unknown); a byte string is a
list of abstract bytes with a known length; objects map field names to values.  Every input byte and integer is an opaque
source, so one pass over a function covers all inputs of that shape: the result is the layout (which input bit, plain or
negated, ends up where).  A condition that the domain cannot decide splits the analysis (both outcomes are followed).
Anything the domain cannot express raises Imprecise: no verdict, never a guess.
"""
import re
from .cxx import E

T = 'T'


class Imprecise(Exception): pass
class Abort(Exception):
    """the function stops the process or throws on this path."""
class _Ret(Exception):
    def __init__(s, v): s.v = v
class _Brk(Exception): pass
class _Cont(Exception): pass


def bnot(b):
    if b == T: return T
    if b in (0, 1): return 1 - b
    return (b[0], b[1], not b[2])


class BV:
    __slots__ = ('b', 'w', 's', 'ct')
    def __init__(s, bits, signed, ct=None):
        s.b = tuple(bits); s.w = len(s.b); s.s = signed; s.ct = ct
    def __repr__(s):
        c = s.conc()
        if c is not None: return str(c)
        return '{%s}' % ','.join(fbit(x) for x in reversed(s.b))
    def conc(s):
        v = 0
        for i, x in enumerate(s.b):
            if x.__class__ is int and x == 1: v |= 1 << i
            elif x != 0 or x.__class__ is not int: return None
        if s.s and s.w and v >> (s.w - 1): v -= 1 << s.w
        return v
    def cast(s, w, signed, ct=None):
        if w <= s.w: return BV(s.b[:w], signed, ct)
        ext = s.b[-1] if s.s else 0
        return BV(s.b + (ext,) * (w - s.w), signed, ct)
    def __eq__(s, o): return o.__class__ is BV and s.b == o.b
    def __hash__(s): return hash(s.b)


def fbit(x):
    if x.__class__ is int: return str(x)
    if x == T: return '?'
    return ('~' if x[2] else '') + '%s[%d]' % (x[0], x[1])


def mk(v, w=32, signed=True, ct=None):
    return BV([(v >> i) & 1 for i in range(w)], signed, ct)


def src(name, w, signed, fixed=None):
    b = [(name, i, False) for i in range(w)]
    for i, v in (fixed or {}).items(): b[i] = v
    return BV(b, signed)


class Str:
    """owning string or view: mutable list of 8-bit values."""
    __slots__ = ('d', 'view')
    def __init__(s, d=(), view=False): s.d = list(d); s.view = view
    def copy(s, view=None): return Str(s.d, s.view if view is None else view)
    def __repr__(s): return 'bytes(%s)' % ' '.join(fbyte(x) for x in s.d)


def fbyte(x):
    c = x.conc()
    if c is not None: return '%02x' % (c & 255)
    a = x.b[0]
    if a.__class__ is tuple and all(y.__class__ is tuple and y[0] == a[0] and y[2] == a[2] and y[1] == a[1] + i for i, y in enumerate(x.b)):
        return '%s%s%s' % ('~' if a[2] else '', a[0], '[%d..%d]' % (a[1] + 7, a[1]) if a[1] or True else '')
    return repr(x)


class Vec:
    def __init__(s, d=()): s.d = list(d)
    def __repr__(s): return repr(s.d)
class Obj:
    def __init__(s, ty='', f=None): s.ty = ty; s.f = dict(f or {})
    def __repr__(s): return '%s%r' % (s.ty, s.f)
class Cell:
    __slots__ = ('v', 'ty')
    def __init__(s, v=None, ty=None): s.v = v; s.ty = ty
class Ptr:
    """pointer: into a string (obj Str/Vec list, off) or to a cell."""
    __slots__ = ('o', 'off', 'ty')
    def __init__(s, o, off=0, ty=None): s.o = o; s.off = off; s.ty = ty
class Opaque:
    def __repr__(s): return '<opaque>'
OP = Opaque()

INTS = {'bool': (1, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'int8_t': (8, True), 'uint8_t': (8, False),
        'short': (16, True), 'int16_t': (16, True), 'uint16_t': (16, False), 'unsigned short': (16, False), 'int': (32, True), 'int32_t': (32, True),
        'uint32_t': (32, False), 'unsigned': (32, False), 'unsigned int': (32, False), 'long': (64, True), 'int64_t': (64, True),
        'uint64_t': (64, False), 'size_t': (64, False), 'ssize_t': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
        'unsigned long long': (64, False), 'ptrdiff_t': (64, True), 'long int': (64, True), 'uintptr_t': (64, False)}
LIM = {'INT64_MAX': 2**63 - 1, 'INT64_MIN': -2**63, 'INT32_MAX': 2**31 - 1, 'UINT8_MAX': 255}


def strip(ty):
    ty = re.sub(r'\b(const|static|constexpr|volatile|inline|struct|thread_local|mutable)\b', '', ty or '').strip()
    return ty


def base(ty):
    return strip(ty).rstrip('&* ').replace('std::', '').replace('::dingodb::', '').strip()


class Interp:
    def __init__(self, repo, files, maxsteps=400000):
        self.repo = repo
        self.files = files
        self.by = {}
        self.enums = {}    # Enum -> (width, signed)
        self.env0 = {}
        self.steps = 0; self.maxsteps = maxsteps
        self.depth = 0
        self.visited = {}
        for f in files:
            u = repo.unit(f)
            for fn in u.funcs: self.by.setdefault(fn.name, []).append(fn)
            self._consts(u)
        self._defaults = {}
        for f in files:
            for fn in repo.unit(f).decls: self._defaults.setdefault((fn.cls, fn.name), []).append(fn)
        self.script = []; self.taken = []

    # constants and enums come from the token stream
    def _consts(self, u):
        txt = open(u.path if hasattr(u, 'path') else u.file, errors='replace').read()
        txt = re.sub(r'//[^\n]*', '', txt); txt = re.sub(r'/\*.*?\*/', '', txt, flags=re.S)
        for m in re.finditer(r'\benum\s+(?:class\s+|struct\s+)?(\w+)\s*(?::\s*([\w: ]+?))?\s*\{([^}]*)\}', txt):
            nm, ty, body = m.groups()
            w, s = INTS.get(base(ty) if ty else 'int', (32, True))
            self.enums[nm] = (w, s)
            v = -1
            for it in body.split(','):
                it = it.strip()
                if not it: continue
                if '=' in it:
                    k, x = it.split('=', 1); k = k.strip()
                    try: v = int(x.strip(), 0)
                    except ValueError: continue
                else: k = it; v += 1
                self.env0[nm + '::' + k] = mk(v, w, s, nm)
                self.env0.setdefault(k, mk(v, w, s, nm))
        for m in re.finditer(r'\b(?:static\s+|inline\s+|constexpr\s+|const\s+)+((?:unsigned |signed |std::)?\w+)\s+(k\w+)\s*(?:=\s*([^;{}]+)|\{([^;{}]+)\})\s*;', txt):
            ty, nm, x, y = m.groups()
            x = (x or y).strip()
            t = INTS.get(base(ty))
            if not t: continue
            mm = re.fullmatch(r"(-?)(0[xX][0-9a-fA-F]+|\d+)[uUlL]*", x)
            if mm: v = int(mm.group(2), 0) * (-1 if mm.group(1) else 1)
            elif re.fullmatch(r"'(\\.[^']*|.)'", x): v = chrval(x)
            else:
                try: v = int(eval(re.sub(r'\bk\w+\b', lambda q: str(self.env0[q.group(0)].conc()), re.sub(r'(\d)[uUlL]+', r'\1', x)), {'__builtins__': {}}))
                except Exception: continue
            self.env0[nm] = mk(v, *t)

    # ---- driver
    def paths(self, fn, args, limit=64):
        """all (outcome, value, args, decisions) of fn on deep copies of args; args built by callables."""
        out = []
        work = [[]]
        while work:
            sc = work.pop()
            self.script = sc; self.taken = []
            a = [x() if callable(x) else x for x in args]
            self.steps = 0
            try:
                v = self.call_fn(fn, a)
                out.append(('ret', v, a, list(self.taken)))
            except Abort as ex:
                out.append(('abort', str(ex), a, list(self.taken)))
            for i in range(len(sc), len(self.taken)):
                work.append([t for t, _ in self.taken[:i]] + [not self.taken[i][0]])
            if len(out) + len(work) > limit: raise Imprecise('too many undecided conditions in %s' % fn.name)
        return out

    def decide(self, what):
        i = len(self.taken)
        d = self.script[i] if i < len(self.script) else True
        self.taken.append((d, what))
        return d

    def pick(self, cls, name, args):
        c = [f for f in self.by.get(name, ()) if (cls is None or f.cls == cls)]
        c = [f for f in c if len(f.params) >= len(args) and (len(f.params) == len(args) or self.ndef(f) >= len(f.params) - len(args))]
        if not c: return None
        if len(c) == 1: return c[0]
        best = None; bs = -1
        for f in c:
            s = 0
            for a, p in zip(args, f.params):
                q = self.match(a, p[1])
                if q < 0: s = -1; break
                s += q
            if s >= 0 and len(f.params) == len(args): s += 1
            if s > bs: best = f; bs = s
        return best

    def ndef(self, f):
        n = sum(1 for p in f.params if len(p) > 2 and p[2])
        for d in self._defaults.get((f.cls, f.name), ()):
            if len(d.params) == len(f.params) and [base(p[1]) for p in d.params] == [base(p[1]) for p in f.params]:
                n = max(n, sum(1 for p in d.params if len(p) > 2 and p[2]))
        return n

    def match(self, a, ty):
        v = a.v if a.__class__ is Cell else a
        b = base(ty)
        if v.__class__ is Str:
            if b == 'string': return 3 if not v.view else (-1)
            if b in ('string_view',): return 3 if v.view else 1
            return -1
        if v.__class__ is BV or v.__class__ is bool:
            if v.__class__ is BV and v.ct in self.enums:
                return 3 if b.split('::')[-1] == v.ct else -1
            if b in INTS: return 2
            if b.split('::')[-1] in self.enums: return -1
            if b in ('string', 'string_view'): return -1
            return 0
        if v.__class__ is Vec: return 3 if b.startswith('vector') else -1
        if v.__class__ is Obj: return -1 if b in INTS or b in ('string', 'string_view') or b.startswith('vector') else 2
        if v.__class__ is Ptr: return 2 if '*' in ty else -1
        return 0

    def call_fn(self, fn, args):
        self.visited[(fn.file, fn.cls, fn.name, len(fn.params))] = fn
        if self.depth > 24: raise Imprecise('call depth')
        env = [dict()]
        for i, p in enumerate(fn.params):
            nm, ty = p[0], p[1]
            if i >= len(args): raise Imprecise('default argument of %s' % fn.name)
            a = args[i]
            t = strip(ty)
            if t.endswith('&') and not re.search(r'\bconst\b', ty) and not t.endswith('&&'):
                c = a if a.__class__ is Cell else Cell(a)
                v = c.v
                if base(ty) in INTS and v.__class__ is BV: c.ty = ty
            else:
                v = a.v if a.__class__ is Cell else a
                c = Cell(self.conv(v, ty, copy=True), ty)
            env[0][nm] = c
        self.depth += 1
        old = getattr(self, 'cur', None)
        self.cur = fn
        self.rett = fn.ret
        try:
            self.stmt(fn.body(), env)
            r = None
        except _Ret as x:
            r = x.v
        finally:
            self.depth -= 1
            self.cur = old
        if r.__class__ is Cell: r = r.v
        if fn.ret and r is not None and base(fn.ret) not in ('void', 'auto'): r = self.conv(r, fn.ret, copy=True)
        return r

    def conv(self, v, ty, copy=False):
        t = strip(ty)
        b = base(ty)
        if t.endswith('*'): return v
        if b in INTS:
            w, s = INTS[b]
            if b == 'bool': return self.truth_val(v)
            if v.__class__ is bool: v = mk(int(v), 32)
            if v.__class__ is BV: return v.cast(w, s)
            raise Imprecise('conversion of %r to %s' % (v, ty))
        e = b.split('::')[-1]
        if e in self.enums and v.__class__ is BV:
            w, s = self.enums[e]
            return v.cast(w, s, e)
        if b in ('string', 'string_view'):
            if v.__class__ is Str: return v.copy(b == 'string_view')
            if v.__class__ is Ptr and v.o.__class__ is Str: return Str(self.cstr(v), b == 'string_view')
            if v.__class__ is Vec and not v.d: return Str()
            raise Imprecise('conversion of %r to %s' % (v, ty))
        return self.clone(v) if copy and not t.endswith('&') else v

    def clone(self, v):
        if v.__class__ is Str: return v.copy()
        if v.__class__ is Vec: return Vec(self.clone(x) for x in v.d)
        if v.__class__ is Obj: return Obj(v.ty, {k: Cell(self.clone(c.v)) for k, c in v.f.items()})
        return v

    # ---- statements
    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps: raise Imprecise('no termination within %d steps' % self.maxsteps)

    def stmt(self, s, env):
        self.tick()
        k = s.k
        if k == 'block':
            env.append({})
            try:
                for x in s.a[0]: self.stmt(x, env)
            finally: env.pop()
        elif k == 'expr': self.ev(s.a[0], env)
        elif k == 'decl': self.decl(s, env)
        elif k == 'if':
            env.append({})
            try:
                if s.a[0] is not None: self.stmt(s.a[0], env) if s.a[0].k in ('decl', 'expr') else self.ev(s.a[0], env)
                c = s.a[1]
                if c.__class__ is E and c.k == 'decl':
                    self.decl(c, env); t = self.truth(env[-1][c.a[0][0][0]].v)
                else: t = self.truth(self.val(c, env))
                if t: self.stmt(s.a[2], env)
                elif s.a[3] is not None: self.stmt(s.a[3], env)
            finally: env.pop()
        elif k in ('while', 'for', 'do'):
            env.append({})
            try:
                if k == 'for':
                    init, cond, step, body = s.a
                    if init is not None: self.stmt(init, env)
                elif k == 'while': (cond, body), step = s.a, None
                else: (body, cond), step = s.a, None
                first = k == 'do'
                while True:
                    self.tick()
                    if not first and cond is not None and not (cond.__class__ is E and cond.k == 'empty') and not self.truth(self.val(cond, env)): break
                    first = False
                    try: self.stmt(body, env)
                    except _Brk: break
                    except _Cont: pass
                    if step is not None: self.ev(step, env)
            finally: env.pop()
        elif k == 'rfor':
            names, ty, rng, body = s.a
            r = self.val(rng, env)
            if r.__class__ is Str or r.__class__ is Vec: items = r
            else: raise Imprecise('range-for over %r' % (r,))
            i = 0
            while i < len(items.d):
                self.tick()
                env.append({})
                try:
                    nm = names[0] if names.__class__ in (tuple, list) else names
                    x = items.d[i]
                    if strip(ty).endswith('&') and 'const' not in ty and x.__class__ is BV:
                        c = ElemCell(items.d, i)
                    elif x.__class__ is BV: c = Cell(x if base(ty) == 'auto' else self.conv(x, ty), ty)
                    else: c = Cell(x if strip(ty).endswith('&') else self.clone(x), ty)
                    env[-1][nm] = c
                    try: self.stmt(body, env)
                    except _Brk: break
                    except _Cont: pass
                finally: env.pop()
                i += 1
        elif k == 'ret':
            if s.a[0] is None: raise _Ret(None)
            raise _Ret(self.val(s.a[0], env))
        elif k == 'break': raise _Brk()
        elif k == 'continue': raise _Cont()
        elif k == 'switch': self.switch(s, env)
        elif k in ('empty', 'label', 'case', 'default'): pass
        elif k == 'try': self.stmt(s.a[0], env)
        elif k == 'opaque': raise Imprecise('unparsed statement line %d' % s.line)
        else: raise Imprecise('statement %s line %d' % (k, s.line))

    def switch(self, s, env):
        v = self.val(s.a[0], env)
        body = s.a[1].a[0] if s.a[1].k == 'block' else (s.a[1],)
        start = None; dflt = None
        for i, x in enumerate(body):
            if x.k == 'case':
                t = self.cmp('==', v, self.val(x.a[0], env))
                if self.truth(t): start = i; break
            elif x.k == 'default': dflt = i
        if start is None: start = dflt
        if start is None: return
        env.append({})
        try:
            for x in body[start:]: self.stmt(x, env)
        except _Brk: pass
        finally: env.pop()

    def decl(self, s, env):
        for (nm, ty, init) in s.a[0]:
            b = base(ty); t = strip(ty)
            if init is None:
                v = self.default(ty)
                env[-1][nm] = Cell(v, ty); continue
            if init.k in ('ctor',) :
                v = self.construct(ty if b != 'auto' else init.a[0], init.a[1], env)
            elif init.k == 'init' and (b == 'auto' or not t.endswith('&')):
                v = self.construct(ty, init.a[1], env)
            else:
                c = self.ev(init, env)
                if t.endswith('&'):
                    if c.__class__ is Cell or isinstance(c, Cell): env[-1][nm] = c; continue
                    env[-1][nm] = Cell(c, None); continue
                v = c.v if isinstance(c, Cell) else c
                if b == 'auto' or '*' in t:
                    if '*' in t and v.__class__ is Ptr and base(ty) in INTS: v = Ptr(v.o, v.off, base(ty))
                    v = self.clone(v)
                else: v = self.conv(v, ty, copy=True)
            if v.__class__ is bool and b not in ('bool', 'auto') and b in INTS: v = self.conv(v, ty)
            env[-1][nm] = Cell(v, ty if b != 'auto' else None)

    def default(self, ty):
        b = base(ty)
        if '*' in ty: return None
        if b in INTS: return BV([T] * INTS[b][0], INTS[b][1])
        if b in ('string', 'string_view'): return Str(view=b == 'string_view')
        if b.startswith('vector'): return Vec()
        m = re.match(r'array<(.+),\s*(\w+)>$', b)
        if m: return Vec(self.default(m.group(1)) for _ in range(int(m.group(2), 0)))
        m = re.match(r'(\w+)\[(\w*)\]$', b)
        return Obj(b)

    def construct(self, ty, args, env):
        b = base(ty)
        a = [self.val(x, env) for x in args]
        if b in INTS:
            return self.conv(a[0], ty) if a else (False if b == 'bool' else mk(0, *INTS[b]))
        if b in ('string', 'string_view'):
            view = b == 'string_view'
            if not a: return Str(view=view)
            if len(a) == 1: return self.conv(a[0], b, copy=True)
            if a[0].__class__ is BV and a[1].__class__ is BV:
                return Str([a[1].cast(8, True)] * self.cn(a[0]), view)
            if a[0].__class__ is Ptr and a[1].__class__ is BV:
                n = self.cn(a[1])
                if a[0].off + n > len(a[0].o.d): raise Abort('read past the end of the buffer')
                return Str(a[0].o.d[a[0].off:a[0].off + n], view)
            if a[0].__class__ is Ptr and a[1].__class__ is Ptr: return Str(a[0].o.d[a[0].off:a[1].off], view)
            if a[0].__class__ is Str:
                p = self.cn(a[1]); n = self.cn(a[2]) if len(a) > 2 else len(a[0].d)
                if p > len(a[0].d): raise Abort('position past the end')
                return Str(a[0].d[p:p + n], view)
        if b.startswith('vector') and not a: return Vec()
        if b.startswith('vector') and len(args) >= 1 and a[0].__class__ is BV:
            return Vec([a[1] if len(a) > 1 else mk(0, *INTS.get(re.sub(r'^vector<(.*)>$', r'\1', b), (32, True)))] * self.cn(a[0]))
        if not a: return Obj(b)
        if len(a) == 1 and a[0].__class__ in (Obj, Vec): return self.clone(a[0])
        e = b.split('::')[-1]
        if e in self.enums and len(a) == 1: return self.conv(a[0], ty)
        raise Imprecise('construction of %s' % ty)

    # ---- expressions
    def cn(self, v):
        if v.__class__ is bool: return int(v)
        if v.__class__ is BV:
            c = v.conc()
            if c is not None: return c
        raise Imprecise('length or index is not determined: %r' % (v,))

    def val(self, e, env):
        r = self.ev(e, env)
        return r.v if isinstance(r, Cell) else r

    def truth_val(self, v):
        if v.__class__ is bool: return v
        if v.__class__ is BV:
            c = v.conc()
            if c is not None: return c != 0
            if any(x.__class__ is int and x == 1 for x in v.b): return True
            if len(v.b) == 1: return v
            return ('?', 'value %r' % v)
        if v is None: return False
        if v.__class__ is Ptr: return True
        return v

    def truth(self, v):
        v = self.truth_val(v)
        if v.__class__ is bool: return v
        if v.__class__ is tuple: return self.decide(v[1])
        if v.__class__ is BV: return self.decide('bit %r' % v)
        raise Imprecise('condition %r' % (v,))

    def lookup(self, nm, env):
        for d in reversed(env):
            if nm in d: return d[nm]
        if nm in self.env0: return self.env0[nm]
        q = nm.split('::')
        if len(q) > 1:
            if '::'.join(q[-2:]) in self.env0: return self.env0['::'.join(q[-2:])]
            if q[-1] in self.env0: return self.env0[q[-1]]
            m = re.match(r'std::numeric_limits', nm)
        if nm in LIM: return mk(LIM[nm], 64)
        if nm == 'std::string::npos' or nm == 'std::string_view::npos' or nm.endswith('::npos'): return mk(2**64 - 1, 64, False)
        raise Imprecise('name %s' % nm)

    def ev(self, e, env):
        self.tick()
        k = e.k
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Imprecise('expression %s line %d' % (k, e.line))
        return m(e, env)

    def e_num(self, e, env):
        s = e.a[0].replace("'", '')
        m = re.fullmatch(r'(0[xX][0-9a-fA-F]+|0[bB][01]+|\d+)([uUlL]*)', s)
        if not m: raise Imprecise('number %s' % s)
        x = m.group(1); v = int(x, 8) if re.fullmatch(r'0[0-7]+', x) else int(x, 0)
        suf = m.group(2).lower()
        u = 'u' in suf
        w = 64 if 'l' in suf or v >= 1 << 32 or (v >= 1 << 31 and not u and not x.lower().startswith('0x')) else 32
        if not u and w == 32 and v >= 1 << 31: u = True
        if not u and w == 64 and v >= 1 << 63: u = True
        return mk(v, w, not u)
    def e_chr(self, e, env): return mk(chrval(e.a[0]), 8, True)
    def e_str(self, e, env):
        out = []
        for m in re.finditer(r'"((?:\\.|[^"\\])*)"', e.a[0]):
            for c in re.finditer(r'\\x[0-9a-fA-F]+|\\[0-7]{1,3}|\\.|[^\\]', m.group(1)):
                out.append(mk(chrval("'" + c.group(0) + "'"), 8, True))
        return Str(out)
    def e_lit(self, e, env): return {'true': True, 'false': False, 'nullptr': None}[e.a[0]]
    def e_name(self, e, env): return self.lookup(e.a[0], env)
    def e_sizeof(self, e, env):
        b = base(e.a[0].replace(' ', ' '))
        if b in INTS: return mk(max(1, INTS[b][0] // 8), 64, False)
        for d in reversed(env):
            if b in d and d[b].v.__class__ is BV: return mk(d[b].v.w // 8, 64, False)
        m = re.match(r"name\('(\w+)'", b)
        if m:
            for d in reversed(env):
                if m.group(1) in d and d[m.group(1)].v.__class__ is BV: return mk(d[m.group(1)].v.w // 8, 64, False)
        raise Imprecise('sizeof %s' % e.a[0])
    def e_init(self, e, env):
        ty = e.a[0]
        if ty: return self.construct(ty, e.a[1], env)
        if not e.a[1]: return Vec()
        return Vec(self.val(x, env) for x in e.a[1])
    def e_ctor(self, e, env): return self.construct(e.a[0], e.a[1], env)
    def e_comma(self, e, env):
        self.ev(e.a[0], env); return self.ev(e.a[1], env)
    def e_cond(self, e, env):
        if self.truth(self.val(e.a[0], env)): return self.ev(e.a[1], env)
        return self.ev(e.a[2], env)
    def e_cast(self, e, env): return self.do_cast(e.a[0], self.ev(e.a[1], env))
    def e_throw(self, e, env): raise Abort('throw')
    def e_raw(self, e, env): return OP
    def e_lambda(self, e, env): return ('lambda', e, list(env))

    def do_cast(self, ty, c):
        t = strip(ty)
        v = c.v if isinstance(c, Cell) else c
        if t.endswith('*'):
            if v.__class__ is Ptr: return Ptr(v.o, v.off, base(ty))
            return v
        if base(ty) == 'void': return v
        if t.endswith('&') and isinstance(c, Cell): return c
        if base(ty) == 'bool':
            return self.truth_val(v)
        return self.conv(v, ty)

    def prom(self, v):
        if v.__class__ is bool: return mk(int(v), 32)
        if v.__class__ is tuple: return BV([T] + [0] * 31, True)
        if v.__class__ is BV:
            if v.w < 32: return v.cast(32, True)
            return v
        raise Imprecise('arithmetic on %r' % (v,))

    def usual(self, a, b):
        a = self.prom(a); b = self.prom(b)
        w = max(a.w, b.w)
        if a.w == b.w: s = a.s and b.s
        else: s = a.s if a.w > b.w else b.s
        return a.cast(w, s), b.cast(w, s), w, s

    def e_bin(self, e, env):
        op, l, r = e.a
        if op == '<<':
            x = l
            while x.k == 'bin' and x.a[0] == '<<': x = x.a[1]
            if x.k == 'call' and x.a[0].k == 'name':
                nm = x.a[0].a[0]
                if re.fullmatch(r'(D?CHECK(_\w+)?|DINGO_LOG\w*|LOG|VLOG|DLOG|LOG_IF)', nm):
                    self.ev(x, env); return OP
        if op == '&&':
            if not self.truth(self.val(l, env)): return False
            return self.truth(self.val(r, env))
        if op == '||':
            if self.truth(self.val(l, env)): return True
            return self.truth(self.val(r, env))
        return self.binop(op, self.val(l, env), self.val(r, env))

    def binop(self, op, a, b):
        if op in ('==', '!=', '<', '>', '<=', '>='): return self.cmp(op, a, b)
        if a.__class__ is Str or b.__class__ is Str:
            if op == '+':
                f = lambda v: v.d if v.__class__ is Str else [v.cast(8, True)]
                return Str(f(a) + f(b))
            raise Imprecise('string %s' % op)
        if a.__class__ is Ptr:
            if op == '+': return Ptr(a.o, a.off + self.cn(b), a.ty)
            if op == '-':
                if b.__class__ is Ptr: return mk(a.off - b.off, 64)
                return Ptr(a.o, a.off - self.cn(b), a.ty)
        if b.__class__ is Ptr and op == '+': return Ptr(b.o, b.off + self.cn(a), b.ty)
        if op in ('<<', '>>'):
            a = self.prom(a); n = self.cn(b)
            if n < 0 or n >= a.w: raise Abort('shift by %d bits' % n)
            if op == '<<': return BV((0,) * n + a.b[:a.w - n], a.s)
            return BV(a.b[n:] + ((a.b[-1] if a.s else 0),) * n, a.s)
        x, y, w, s = self.usual(a, b)
        cx, cy = x.conc(), y.conc()
        if cx is not None and cy is not None:
            if op == '+': v = cx + cy
            elif op == '-': v = cx - cy
            elif op == '*': v = cx * cy
            elif op in '/%':
                if cy == 0: raise Abort('division by zero')
                q = abs(cx) // abs(cy)
                if (cx < 0) != (cy < 0): q = -q
                v = q if op == '/' else cx - q * cy
            elif op == '&': v = cx & cy
            elif op == '|': v = cx | cy
            elif op == '^': v = cx ^ cy
            else: raise Imprecise('operator ' + op)
            return mk(v, w, s)
        if op == '&': return BV([fand(p, q) for p, q in zip(x.b, y.b)], s)
        if op == '|': return BV([for_(p, q) for p, q in zip(x.b, y.b)], s)
        if op == '^': return BV([fxor(p, q) for p, q in zip(x.b, y.b)], s)
        z = lambda v: v.__class__ is int and v == 0
        o = lambda v: v.__class__ is int and v == 1
        if op == '+' and all(z(p) or z(q) for p, q in zip(x.b, y.b)): return BV([for_(p, q) for p, q in zip(x.b, y.b)], s)
        if op == '-' and all(z(q) or o(p) for p, q in zip(x.b, y.b)): return BV([fxor(p, q) for p, q in zip(x.b, y.b)], s)
        if op == '*':
            for p, c in ((x, cy), (y, cx)):
                if c is not None and c > 0 and c & (c - 1) == 0:
                    n = c.bit_length() - 1
                    return BV((0,) * n + p.b[:w - n], s)
        if op in '/%' and cy is not None and cy > 0 and cy & (cy - 1) == 0 and (not x.s or z(x.b[-1])):
            n = cy.bit_length() - 1
            return BV(x.b[n:] + (0,) * n, s) if op == '/' else BV(x.b[:n] + (0,) * (w - n), s)
        return BV([T] * w, s)

    def cmp(self, op, a, b):
        if a.__class__ is Str and b.__class__ is Str:
            if op in ('==', '!='):
                if len(a.d) != len(b.d): return op == '!='
                r = True
                for p, q in zip(a.d, b.d):
                    t = self.cmp('==', p, q)
                    if t is False: return op == '!='
                    if t is not True: r = None
                if r: return op == '=='
                return ('?', 'string comparison')
            for p, q in zip(a.d, b.d):
                if p.b == q.b: continue
                p, q = p.cast(8, False).conc(), q.cast(8, False).conc()
                if p is None or q is None: return ('?', 'string comparison')
                if p != q: return (p < q) if op[0] == '<' else (p > q)
            n, m = len(a.d), len(b.d)
            return {'<': n < m, '<=': n <= m, '>': n > m, '>=': n >= m}[op]
        if a.__class__ is Ptr or b.__class__ is Ptr or a is None or b is None:
            if a.__class__ is Ptr and b.__class__ is Ptr:
                if a.o is not b.o: return op == '!='
                return {'==': a.off == b.off, '!=': a.off != b.off, '<': a.off < b.off, '<=': a.off <= b.off, '>': a.off > b.off, '>=': a.off >= b.off}[op]
            return op == '!='
        if (a.__class__ is tuple and b.__class__ is bool): return a if b == (op == '==') else Imprecise
        x, y, w, s = self.usual(a, b)
        cx, cy = x.conc(), y.conc()
        if cx is not None and cy is not None:
            return {'==': cx == cy, '!=': cx != cy, '<': cx < cy, '<=': cx <= cy, '>': cx > cy, '>=': cx >= cy}[op]
        if x.b == y.b and T not in x.b: return op in ('==', '<=', '>=')
        if op in ('==', '!='):
            for p, q in zip(x.b, y.b):
                if (p.__class__ is int and q.__class__ is int and p != q) or (p.__class__ is tuple and q.__class__ is tuple and p[:2] == q[:2] and p[2] != q[2]):
                    return op == '!='
            return ('?', '%r %s %r' % (x, op, y))
        lx, hx = rng(x); ly, hy = rng(y)
        if op == '<': r = True if hx < ly else (False if lx >= hy else None)
        elif op == '<=': r = True if hx <= ly else (False if lx > hy else None)
        elif op == '>': r = True if lx > hy else (False if hx <= ly else None)
        else: r = True if lx >= hy else (False if hx < ly else None)
        return r if r is not None else ('?', '%r %s %r' % (x, op, y))

    def e_un(self, e, env):
        op, x = e.a
        if op == '&':
            c = self.ev(x, env)
            if isinstance(c, Cell):
                if c.__class__ is ElemCell: return Ptr(StrRef(c.l), c.i)
                return Ptr(c)
            return Ptr(Cell(c))
        if op == '*':
            v = self.val(x, env)
            return self.deref(v)
        if op in ('++', '--'):
            c = self.ev(x, env)
            c.v = self.conv_like(self.binop(op[0], c.v, mk(1)), c)
            return c
        v = self.val(x, env)
        if op == '!':
            t = self.truth_val(v)
            if t.__class__ is bool: return not t
            if t.__class__ is BV: return not self.truth(t)
            return not self.truth(t)
        v = self.prom(v)
        if op == '~': return BV([bnot(b) for b in v.b], v.s)
        if op == '-':
            c = v.conc()
            if c is not None: return mk(-c, v.w, v.s)
            return BV([T] * v.w, v.s)
        if op == '+': return v
        raise Imprecise('unary %s' % op)

    def e_post(self, e, env):
        op, x = e.a
        c = self.ev(x, env)
        if not isinstance(c, Cell): raise Imprecise('%s on a value' % op)
        o = c.v
        c.v = self.conv_like(self.binop(op[0], o, mk(1)), c)
        return o

    def conv_like(self, v, c):
        if c.ty and base(c.ty) in INTS: return self.conv(v, c.ty)
        if v.__class__ is BV and c.v.__class__ is BV: return v.cast(c.v.w, c.v.s, c.v.ct)
        return v

    def deref(self, v):
        if v.__class__ is Ptr:
            if isinstance(v.o, Cell):
                x = v.o.v
                if v.ty and v.ty in INTS and x.__class__ is BV:
                    w, s = INTS[v.ty]
                    if v.off or w != x.w: return BV((x.b + (T,) * 64)[v.off * w:v.off * w + w], s)
                    return CastCell(v.o, s)
                return v.o
            if not 0 <= v.off < len(v.o.d): raise Abort('access outside the buffer at %d of %d' % (v.off, len(v.o.d)))
            if v.ty in ('uint8_t', 'unsigned char'): return ElemCell(v.o.d, v.off, False)
            if v.ty and v.ty in INTS and INTS[v.ty][0] > 8:
                n = INTS[v.ty][0] // 8; b = ()
                if v.off + n > len(v.o.d): raise Abort('access outside the buffer')
                for y in v.o.d[v.off:v.off + n]: b += y.b
                return BV(b, INTS[v.ty][1])
            return ElemCell(v.o.d, v.off)
        if v.__class__ in (Obj, Str, Vec): return Cell(v)
        raise Imprecise('dereference of %r' % (v,))

    def e_idx(self, e, env):
        o = self.val(e.a[0], env); i = self.cn(self.val(e.a[1], env))
        if o.__class__ is Ptr:
            if isinstance(o.o, Cell): return self.deref(Ptr(o.o, o.off + i, o.ty))
            return self.deref(Ptr(o.o, o.off + i, o.ty))
        if o.__class__ in (Str, Vec):
            if not 0 <= i < len(o.d): raise Abort('index %d outside a sequence of %d' % (i, len(o.d)))
            return ElemCell(o.d, i)
        raise Imprecise('index of %r' % (o,))

    def e_asg(self, e, env):
        op, l, r = e.a
        c = self.ev(l, env)
        if not isinstance(c, Cell): raise Imprecise('assignment to a value line %d' % e.line)
        v = self.val(r, env)
        if op != '=':
            o = op[:-1]
            if c.v.__class__ is Str:
                c.v.d.extend(v.d if v.__class__ is Str else [v.cast(8, True)]); return c
            v = self.binop(o, c.v, v)
            c.v = self.conv_like(v, c); return c
        if c.v.__class__ is Str and v.__class__ in (Str, Ptr):
            n = self.conv(v, 'std::string_view' if c.v.view else 'std::string', copy=True)
            if c.v.view: c.v = n
            else: c.v.d[:] = n.d
            return c
        if c.v.__class__ is Obj and v.__class__ is Obj:
            n = self.clone(v); c.v.f = n.f; return c
        if c.v.__class__ is Vec and v.__class__ is Vec:
            c.v.d[:] = self.clone(v).d; return c
        c.v = self.conv_like(self.clone(v), c) if v.__class__ is not bool else (v if not (c.ty and base(c.ty) in INTS and base(c.ty) != 'bool') else self.conv(v, c.ty))
        return c

    def e_mem(self, e, env):
        o = self.val(e.a[0], env)
        if o.__class__ is Ptr and isinstance(o.o, Cell): o = o.o.v
        if o.__class__ is Obj:
            return o.f.setdefault(e.a[1], Cell(Str()))
        raise Imprecise('member %s' % e.a[1])

    # ---- calls
    def e_call(self, e, env):
        f, args = e.a
        if f.k == 'mem': return self.method(f, args, env, e)
        if f.k != 'name':
            fv = self.val(f, env)
            return self.call_value(fv, args, env)
        nm = f.a[0]; targs = f.a[1]
        if re.fullmatch(r'(static|reinterpret|const|dynamic)_cast', nm) and targs: return self.do_cast(targs, self.ev(args[0], env))
        if nm in ('BAIDU_LIKELY', 'BAIDU_UNLIKELY', 'LIKELY', 'UNLIKELY', '__builtin_expect'): return self.ev(args[0], env)
        if re.fullmatch(r'D?CHECK', nm):
            t = self.truth_val(self.val(args[0], env))
            if t is False: raise Abort('CHECK failed at line %d' % e.line)
            return OP     # an undecided CHECK: the path on which it holds
        m = re.fullmatch(r'D?CHECK_(EQ|NE|LT|LE|GT|GE)', nm)
        if m:
            o = {'EQ': '==', 'NE': '!=', 'LT': '<', 'LE': '<=', 'GT': '>', 'GE': '>='}[m.group(1)]
            if self.cmp(o, self.val(args[0], env), self.val(args[1], env)) is False: raise Abort('CHECK failed at line %d' % e.line)
            return OP
        if nm in ('DINGO_LOG', 'LOG'):
            if args and args[0].k in ('name', 'raw') and args[0].a[0] == 'FATAL': raise Abort('FATAL at line %d' % e.line)
            return OP
        if re.match(r'(DINGO_LOG|LOG|VLOG|DLOG)', nm): return OP
        if nm.split('::')[-1] in ('IsLE',): return True
        if nm in ('std::move', 'std::forward', 'std::cref', 'std::ref', 'std::as_const'): return self.ev(args[0], env)
        if nm in ('std::string', 'std::string_view') or base(nm) in INTS or base(nm).split('::')[-1] in self.enums:
            return self.construct(nm, args, env)
        if re.match(r'std::(vector|array)', nm): return self.construct(nm + ('<%s>' % targs if targs else ''), args, env)
        for d in reversed(env):
            if nm in d:
                return self.call_value(d[nm].v, args, env)
        a = [self.ev(x, env) for x in args]
        r = self.builtin(nm, targs, a)
        if r is not NotImplemented: return r
        q = nm.split('::')
        cls = q[-2] if len(q) > 1 else None
        fn = None
        if cls is None and self.cur is not None:
            fn = self.pick(self.cur.cls, q[-1], a)
            if fn is None: fn = self.pick(None, q[-1], a)
        else:
            fn = self.pick(cls, q[-1], a) or (self.pick(None, q[-1], a) if cls and cls[0].islower() else None)
        if fn is None: raise Imprecise('call of %s with %d arguments' % (nm, len(a)))
        return self.call_fn(fn, a)

    def call_value(self, v, args, env):
        if v.__class__ is tuple and v and v[0] == 'lambda':
            _, e, cenv = v
            env2 = list(cenv) + [{}]
            for p, x in zip(e.a[1], args):
                c = self.ev(x, env)
                ty = p[1]
                if strip(ty).endswith('&') and 'const' not in ty and isinstance(c, Cell): env2[-1][p[0]] = c
                else:
                    x = c.v if isinstance(c, Cell) else c
                    env2[-1][p[0]] = Cell(self.clone(x) if base(ty) == 'auto' else self.conv(x, ty, copy=True), None if base(ty) == 'auto' else ty)
            try: self.stmt(e.a[2], env2)
            except _Ret as r: return r.v
            return None
        raise Imprecise('call of a value')

    def cstr(self, p):
        '''the bytes a C string function sees: up to the first zero byte (every place that may hold one is a case)'''
        k = p.off
        while k < len(p.o.d) and not self.truth(self.cmp('==', p.o.d[k], mk(0))): k += 1
        return list(p.o.d[p.off:k])

    def builtin(self, nm, targs, a):
        V = [x.v if isinstance(x, Cell) else x for x in a]
        b = nm.split('::')[-1]
        if b in ('memcpy', 'memmove'):
            d, s, n = V[0], V[1], self.cn(V[2])
            if n == 0: return d
            if d.__class__ is Ptr and s.__class__ is Ptr:
                if isinstance(s.o, Cell):
                    x = s.o.v
                    by = [BV(x.b[i * 8:i * 8 + 8], True) for i in range(x.w // 8)]
                    sd, so = by, s.off
                else: sd, so = s.o.d, s.off
                if so + n > len(sd): raise Abort('memcpy reads past the source')
                chunk = list(sd[so:so + n])
                if isinstance(d.o, Cell):
                    x = d.o.v
                    bits = list(x.b)
                    for i, y in enumerate(chunk): bits[(d.off + i) * 8:(d.off + i) * 8 + 8] = y.b
                    if len(bits) != x.w: raise Abort('memcpy writes past the target')
                    d.o.v = BV(bits, x.s); return d
                if d.off + n > len(d.o.d): raise Abort('memcpy writes past the target')
                d.o.d[d.off:d.off + n] = chunk
                return d
        if b in ('strncpy', 'strcpy', 'strlen', 'strnlen') and V[-1 if b == 'strcpy' else (1 if b == 'strncpy' else 0)].__class__ is Ptr:
            # C string functions stop at the first zero byte: every position that may hold one is a case of its own
            s = V[0] if b.startswith('strl') or b.startswith('strn') and b.endswith('len') else V[1]
            if not isinstance(s.o, Cell):
                n = self.cn(V[2]) if b == 'strncpy' else self.cn(V[1]) if b == 'strnlen' else None
                k = 0
                while (n is None or k < n) and s.off + k < len(s.o.d) and not self.truth(self.cmp('==', s.o.d[s.off + k], mk(0))): k += 1
                if b.endswith('len'): return mk(k, 64, False)
                d = V[0]
                if d.__class__ is Ptr and not isinstance(d.o, Cell):
                    w = s.o.d[s.off:s.off + k] + [mk(0, 8, True)] * ((n - k) if n is not None else 1)
                    if d.off + len(w) > len(d.o.d) + (1 if n is None else 0): raise Abort('%s writes past the target' % b)
                    w = w[:len(d.o.d) - d.off]
                    d.o.d[d.off:d.off + len(w)] = w
                    return d
        if b == 'memset' and V[0].__class__ is Ptr and not isinstance(V[0].o, Cell):
            n = self.cn(V[2])
            if V[0].off + n > len(V[0].o.d): raise Abort('memset writes past the target')
            V[0].o.d[V[0].off:V[0].off + n] = [self.prom(V[1]).cast(8, True)] * n
            return V[0]
        if b == 'memcmp':
            n = self.cn(V[2])
            x = Str(V[0].o.d[V[0].off:V[0].off + n]); y = Str(V[1].o.d[V[1].off:V[1].off + n])
            t = self.truth(self.cmp('==', x, y))
            return mk(0 if t else 1)
        if b in ('copy', 'copy_n') and nm.startswith('std::') and len(V) == 3:
            s = V[0]; n = self.cn(V[1]) if b == 'copy_n' else V[1].off - s.off
            if n == 0: return V[2]
            if V[2].__class__ is tuple and V[2][0] == 'backins': V[2][1].d.extend(s.o.d[s.off:s.off + n]); return V[2]
            if V[2].off + n > len(V[2].o.d): raise Abort('std::copy writes past the target')
            V[2].o.d[V[2].off:V[2].off + n] = s.o.d[s.off:s.off + n]
            return Ptr(V[2].o, V[2].off + n)
        if b == 'back_inserter': return ('backins', V[0])
        if b in ('fill', 'fill_n') and nm.startswith('std::'):
            n = self.cn(V[1]) if b == 'fill_n' else V[1].off - V[0].off
            if V[0].off + n > len(V[0].o.d): raise Abort('std::fill writes past the target')
            V[0].o.d[V[0].off:V[0].off + n] = [self.prom(V[2]).cast(8, True)] * n
            return None
        if b in ('all_of', 'any_of', 'none_of') and nm.startswith('std::'):
            for i in range(V[0].off, V[1].off):
                r = self.call_value2(V[2], V[0].o.d[i])
                t = self.truth(r)
                if b == 'all_of' and not t: return False
                if b == 'any_of' and t: return True
                if b == 'none_of' and t: return False
            return b != 'any_of'
        if b == 'reverse' and nm.startswith('std::'):
            V[0].o.d[V[0].off:V[1].off] = V[0].o.d[V[0].off:V[1].off][::-1]; return None
        if b in ('begin', 'end', 'data', 'size', 'empty') and nm.startswith('std::') and len(V) == 1: return self.smethod(b, V[0], [], None)
        if b in ('htobe64', 'be64toh', '__builtin_bswap64', 'bswap_64', 'HostToNet64'):
            x = self.prom(V[0]).cast(64, False); r = ()
            for i in range(7, -1, -1): r += x.b[i * 8:i * 8 + 8]
            return BV(r, False)
        if b in ('min', 'max') and nm.startswith('std::') and len(V) == 2:
            t = self.truth(self.cmp('<', V[0], V[1]))
            x = (V[0] if t else V[1]) if b == 'min' else (V[1] if t else V[0])
            if targs and base(targs) in INTS: return self.conv(x, targs)
            return x
        if nm in ('fmt::format', 'butil::gettimeofday_ms') or b in ('StringToHex', 'RangeToString', 'KeyToString'): return OP
        if b == 'StringToInt64' or b == 'Int64ToString': raise Imprecise('%s (text conversion)' % b)
        return NotImplemented

    def call_value2(self, v, x):
        _, e, cenv = v
        env2 = list(cenv) + [{}]
        p = e.a[1][0]
        env2[-1][p[0]] = Cell(x if base(p[1]) == 'auto' else self.conv(x, p[1]))
        try: self.stmt(e.a[2], env2)
        except _Ret as r: return r.v
        return None

    def method(self, f, args, env, e):
        oc = self.ev(f.a[0], env)
        o = oc.v if isinstance(oc, Cell) else oc
        if o.__class__ is Ptr and isinstance(o.o, Cell): o = o.o.v
        nm = f.a[1]
        a = [self.ev(x, env) for x in args]
        if o.__class__ in (Str, Vec): return self.smethod(nm, o, a, oc)
        if o.__class__ is Obj:
            if nm.startswith('set_') and len(a) == 1:
                v = a[0].v if isinstance(a[0], Cell) else a[0]
                o.f[nm[4:]] = Cell(self.clone(v) if v.__class__ is not Str else v.copy(False)); return None
            if nm.startswith('mutable_'): return Ptr(o.f.setdefault(nm[8:], Cell(Str())))
            if nm.startswith('clear_'): o.f[nm[6:]] = Cell(Str()); return None
            if nm in ('CopyFrom', 'Swap'):
                v = a[0].v if isinstance(a[0], Cell) else a[0]
                if nm == 'CopyFrom': o.f = self.clone(v).f; return None
            if nm.startswith('swap_'): pass
            if not a: return o.f.setdefault(nm, Cell(Str()))
        if o is OP: return OP
        if o.__class__ is Ptr and nm == 'base': return o
        raise Imprecise('method %s of %r' % (nm, o))

    def smethod(self, nm, o, a, oc):
        V = [x.v if isinstance(x, Cell) else x for x in a]
        d = o.d
        S = o.__class__ is Str
        byte = lambda v: (v.cast(8, True) if v.__class__ is BV else mk(int(v), 8)) if S else self.clone(v)
        if nm in ('size', 'length'): return mk(len(d), 64, False)
        if nm == 'empty': return len(d) == 0
        if nm == 'clear': del d[:]; return None
        if nm in ('reserve', 'shrink_to_fit'): return None
        if nm in ('data', 'c_str', 'begin', 'cbegin'): return Ptr(o, 0)
        if nm in ('end', 'cend'): return Ptr(o, len(d))
        if nm in ('push_back', 'emplace_back'):
            if S or V: d.append(byte(V[0]))
            else: d.append(Obj())
            return ElemCell(d, len(d) - 1)
        if nm == 'pop_back':
            if not d: raise Abort('pop_back of an empty sequence')
            d.pop(); return None
        if nm in ('back', 'front'):
            if not d: raise Abort('%s() of an empty sequence' % nm)
            return ElemCell(d, len(d) - 1 if nm == 'back' else 0)
        if nm in ('at', 'operator[]'):
            i = self.cn(V[0])
            if not 0 <= i < len(d): raise Abort('at(%d) outside a sequence of %d' % (i, len(d)))
            return ElemCell(d, i)
        if nm == 'resize':
            n = self.cn(V[0])
            if n < 0 or n > 1 << 20: raise Abort('resize to %d' % n)
            fill = byte(V[1]) if len(V) > 1 else mk(0, 8) if S else None
            if n < len(d): del d[n:]
            else: d.extend([fill] * (n - len(d)))
            return None
        if nm == 'substr':
            p = self.cn(V[0]) if V else 0
            n = self.cn(V[1]) if len(V) > 1 else len(d)
            if p < 0 or p > len(d): raise Abort('substr(%d) of %d bytes' % (p, len(d)))
            if n < 0: n = len(d)
            return Str(d[p:p + n], o.view)
        if nm in ('remove_prefix', 'remove_suffix'):
            n = self.cn(V[0])
            if n > len(d): raise Abort(nm)
            o2 = d[n:] if nm == 'remove_prefix' else d[:len(d) - n]
            d[:] = o2; return None
        if nm in ('append', 'assign'):
            if nm == 'assign': base_ = []
            if len(V) == 1 and V[0].__class__ is Str: x = list(V[0].d)
            elif len(V) == 1 and V[0].__class__ is Ptr: x = self.cstr(V[0])
            elif len(V) == 2 and V[0].__class__ is BV: x = [byte(V[1])] * self.cn(V[0])
            elif len(V) == 2 and V[0].__class__ is Ptr and V[1].__class__ is BV:
                n = self.cn(V[1])
                if isinstance(V[0].o, Cell):
                    y = V[0].o.v; by = [BV(y.b[i * 8:i * 8 + 8], True) for i in range(y.w // 8)]
                else: by = V[0].o.d
                if V[0].off + n > len(by): raise Abort('%s reads past the source' % nm)
                x = by[V[0].off:V[0].off + n]
            elif len(V) == 2 and V[0].__class__ is Ptr: x = V[0].o.d[V[0].off:V[1].off]
            elif len(V) == 2 and V[0].__class__ is Str and nm == 'append': x = V[0].d[:self.cn(V[1])] if False else V[0].d[self.cn(V[1]):]
            elif len(V) == 3 and V[0].__class__ is Str: p = self.cn(V[1]); x = V[0].d[p:p + self.cn(V[2])]
            else: raise Imprecise(nm)
            if nm == 'assign': d[:] = x
            else: d.extend(x)
            return Cell(o)
        if nm == 'insert' and V[0].__class__ is Ptr:
            at = V[0].off
            if len(V) == 3 and V[1].__class__ is Ptr: d[at:at] = V[1].o.d[V[1].off:V[2].off]
            elif len(V) == 3: d[at:at] = [byte(V[2])] * self.cn(V[1])
            elif len(V) == 2: d[at:at] = [byte(V[1])]
            return Ptr(o, at)
        if nm == 'insert' and V[0].__class__ is BV:
            at = self.cn(V[0])
            if len(V) == 3: d[at:at] = [byte(V[2])] * self.cn(V[1])
            else: d[at:at] = V[1].d
            return Cell(o)
        if nm == 'erase':
            if V[0].__class__ is Ptr:
                if len(V) > 1: del d[V[0].off:V[1].off]
                else: del d[V[0].off]
                return Ptr(o, V[0].off)
            p = self.cn(V[0]); n = self.cn(V[1]) if len(V) > 1 else len(d)
            if p > len(d): raise Abort('erase')
            del d[p:p + n]; return Cell(o)
        if nm == 'swap' and V[0].__class__ is o.__class__:
            d[:], V[0].d[:] = list(V[0].d), list(d); return None
        if nm == 'compare' and len(V) == 1:
            return mk(0 if self.truth(self.cmp('==', o, V[0])) else (-1 if self.truth(self.cmp('<', o, V[0])) else 1))
        raise Imprecise('method %s' % nm)


class StrRef:
    def __init__(s, l): s.d = l


class ElemCell(Cell):
    __slots__ = ('l', 'i', 'sg')
    def __init__(s, l, i, sg=None): s.l = l; s.i = i; s.sg = sg
    @property
    def v(s):
        x = s.l[s.i]
        if s.sg is False and x.__class__ is BV: return BV(x.b, False)
        return x
    @v.setter
    def v(s, x):
        o = s.l[s.i]
        if o.__class__ is BV: x = (x if x.__class__ is BV else mk(int(x))).cast(o.w, o.s)
        s.l[s.i] = x
    ty = None


class CastCell(Cell):
    __slots__ = ('c', 'sg')
    def __init__(s, c, sg): s.c = c; s.sg = sg
    @property
    def v(s): return BV(s.c.v.b, s.sg)
    @v.setter
    def v(s, x): s.c.v = x.cast(s.c.v.w, s.c.v.s)
    ty = None


def fand(p, q):
    for a, b in ((p, q), (q, p)):
        if a.__class__ is int: return b if a else 0
    if p == q: return p
    if p.__class__ is tuple and q.__class__ is tuple and p[:2] == q[:2]: return 0
    return T
def for_(p, q):
    for a, b in ((p, q), (q, p)):
        if a.__class__ is int: return 1 if a else b
    if p == q: return p
    if p.__class__ is tuple and q.__class__ is tuple and p[:2] == q[:2]: return 1
    return T
def fxor(p, q):
    for a, b in ((p, q), (q, p)):
        if a.__class__ is int: return bnot(b) if a else b
    if p == T or q == T: return T
    if p == q: return 0
    if p[:2] == q[:2]: return 1
    return T


def rng(x):
    lo = hi = 0
    for i, b in enumerate(x.b):
        wgt = 1 << i
        if x.s and i == x.w - 1: wgt = -wgt
        if b.__class__ is int:
            if b: lo += wgt; hi += wgt
        elif wgt < 0: lo += wgt
        else: hi += wgt
    return lo, hi


def chrval(s):
    s = s[s.index("'") + 1:-1]
    if s[0] != '\\':
        v = s.encode('latin-1', 'replace')[0]
        return v - 256 if v > 127 else v
    c = s[1]
    if c == 'x': v = int(s[2:], 16)
    elif c.isdigit(): v = int(s[1:], 8)
    else: v = {'n': 10, 't': 9, 'r': 13, 'a': 7, 'b': 8, 'f': 12, 'v': 11}.get(c, ord(c))
    return v - 256 if v > 127 else v
