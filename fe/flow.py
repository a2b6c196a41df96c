"""Whole-tree flow analysis over the syntax tree: locksets, lock balance, nullness of local pointers.

Per function a forward dataflow with must-held locks, may-held manually taken locks and a definite-null map.
Joins are intersections (must facts) / unions (may facts); loops are run to a fixpoint (two rounds suffice for the
finite lattice used).  Between functions of one class, entry locksets are propagated from call sites."""
import re
from .cxx import E, ParseError

GUARD = re.compile(r'\b(lock_guard|unique_lock|scoped_lock|shared_lock|RWLockReadGuard|RWLockWriteGuard)\b')
ASYNC = re.compile(r'Execute|Schedule|Async|bthread|thread|make_shared|AddTask|Submit|SetDone|Register|emplace_back|push_back|Put$|Init$|add_')
MUTATE = re.compile(r'^(push_back|push_front|emplace|emplace_back|emplace_hint|insert|insert_or_assign|erase|clear|pop|pop_back|pop_front|push|swap|resize|reset|assign|Put|PutIfExists|PutIfNotExists|Erase|Clear|MultiPut|merge|store|fetch_add|fetch_sub|append|CopyFrom|MergeFrom|Swap|mutable_.*|add_.*|set_.*|clear_.*|Set[A-Z].*)$')
NORET = {'exit', 'abort', '_exit', 'std::abort', 'std::exit'}


class St:
    __slots__ = ('L', 'P', 'N')
    def __init__(self, L=frozenset(), P=frozenset(), N=None):
        self.L = L; self.P = P; self.N = N or {}
    def copy(self): return St(self.L, self.P, dict(self.N))

def join(a, b):
    if a is None: return b
    if b is None: return a
    return St(a.L & b.L, a.P | b.P, {k: v for k, v in a.N.items() if b.N.get(k) == v})


def text(e):
    if e is None: return ''
    k, a = e.k, e.a
    if k == 'name': return a[0]
    if k == 'this': return 'this'
    if k == 'mem':
        b = text(a[0])
        return a[1] if b == 'this' else b + '.' + a[1]
    if k == 'idx': return text(a[0]) + '[' + text(a[1]) + ']'
    if k == 'un': return text(a[1]) if a[0] in '&*' else a[0] + text(a[1])
    if k == 'call': return text(a[0]) + '(' + ','.join(text(x) for x in a[1]) + ')'
    if k == 'lit' or k == 'num' or k == 'str': return str(a[0])
    if k == 'cast': return text(a[1])
    return '?' + k


class FnFlow:
    """events: ('acc', name, rw, L, line) ('acq', lock, mode, L, line) ('call', recv, name, L, line) ('null', var, line)
    ('leak', lock, line) ('unheld', lock, line)"""
    def __init__(self, f, fields):
        self.f = f; self.fields = fields
        self.ev = []
        self.seen = set()
        self.lam = {}
        self.loc = [set(p[0] for p in f.params)]
        self.acqd = set()
        self.captured = set()
    def emit(self, *e):
        if e not in self.seen: self.seen.add(e); self.ev.append(e)
    def islocal(self, n): return any(n in s for s in self.loc)
    def run(self):
        b = self.f.body()
        for nm, args in (self.f.inits or ()) if isinstance(self.f.inits, (list, tuple)) and False else (): pass
        self.brk = []; self.cont = []
        self.sw = []
        self.ptrs = {p[0] for p in self.f.params if p[1].rstrip().endswith('*') or 'Ptr' in p[1] or '_ptr<' in p[1]}
        st = self.stmt(b, St())
        if st is not None: self.leave(st, self.f.endline)
        return self.ev
    # -- exits
    def leave(self, st, line):
        for l in sorted(st.P): self.emit('leak', l[0], line)
    # -- locks
    def lockname(self, e):
        while e.k == 'un' and e.a[0] in '&*': e = e.a[1]
        return text(e)
    def acquire(self, st, lock, mode, line, manual):
        self.emit('acq', lock, mode, st.L, line)
        if any(x[0] == lock for x in st.P): self.emit('again', lock, line)
        st.L = st.L | {(lock, mode)}
        if manual: st.P = st.P | {(lock, mode)}
    def release(self, st, lock, line):
        st.L = frozenset(x for x in st.L if x[0] != lock)
        st.P = frozenset(x for x in st.P if x[0] != lock)
    # -- statements
    def block(self, stmts, st, scope=None):
        self.loc.append(set())
        guards = []
        self.gs.append(guards) if hasattr(self, 'gs') else None
        if not hasattr(self, 'gs'): self.gs = [guards]
        for s in stmts:
            if s.k == 'label' and st is None: st = St()
            if s.k in ('case', 'default') and self.sw:
                st = join(st, self.sw[-1].copy())
                if s.k == 'default': self.swdef[-1] = True
                continue
            if st is None: continue
            st = self.stmt(s, st)
        self.gs.pop(); self.loc.pop()
        if st is not None:
            st = st.copy()
            for lock, mode, var in guards:
                if var is None or st.N.get('guard:' + var, 1) == 1: self.release(st, lock, 0)
        return st
    def scope_exit_locks(self, st): return st
    def stmt(self, s, st):
        k, a = s.k, s.a
        if k == 'block': return self.block(a[0], st)
        if k in ('empty', 'label', 'opaque', 'case', 'default'): return st
        if k == 'expr':
            e = a[0]
            if e.k == 'call' and e.a[0].k == 'name' and e.a[0].a[0] == 'BAIDU_SCOPED_LOCK' and e.a[1]:
                l = self.lockname(e.a[1][0]); st = st.copy()
                self.use(e.a[1][0], st, lockarg=True)
                self.acquire(st, l, 'w', s.line, False)
                self.gs[-1].append((l, 'w', None))
                return st
            return self.ex(e, st)
        if k == 'decl':
            st = st.copy()
            for names, ty, init in a[0]:
                if isinstance(names, tuple):
                    if init is not None: st = self.ex(init, st)
                    if st is None: return None
                    self.loc[-1].update(names[1:])
                    for n in names[1:]: st.N.pop(n, None)
                    continue
                m = GUARD.search(ty or '')
                if init is None and m is None and s.line and False: pass
                if m and init is not None and init.k == 'ctor' and init.a[1]:
                    l = self.lockname(init.a[1][0])
                    mode = 'r' if m.group(1) in ('RWLockReadGuard', 'shared_lock') else 'w'
                    defer = any('defer_lock' in text(x) for x in init.a[1][1:])
                    if not defer: self.acquire(st, l, mode, s.line, False)
                    self.gs[-1].append((l, mode, names if m.group(1) in ('unique_lock', 'shared_lock') else None))
                    st.N['guardvar:' + names] = (l, mode)
                    self.loc[-1].add(names)
                    continue
                if init is not None and init.k == 'lambda':
                    self.lam[names] = init; self.loc[-1].add(names); continue
                isnull = False
                if init is not None and init.k == 'call' and init.a[0].k == 'name' and init.a[0].a[0].split('::')[-1] in ('bthread_mutex_trylock', 'pthread_mutex_trylock') and init.a[1]:
                    st.N['try:' + names] = self.lockname(init.a[1][0]); self.loc[-1].add(names); continue
                if init is not None:
                    st = self.ex(init, st)
                    if st is None: return None
                    isnull = self.nullish(init)
                self.loc[-1].add(names)
                st.N.pop(names, None)
                t = (ty or '').strip()
                if t.endswith('*') or 'Ptr' in t or '_ptr' in t:
                    self.ptrs.add(names)
                    if isnull or (init is None and ('Ptr' in t or '_ptr' in t)) and not t.endswith('&') and '*' not in t and False: st.N[names] = 0
                elif 'auto' in t: self.ptrs.add(names)
            return st
        if k == 'ret':
            if a[0] is not None:
                st = self.ex(a[0], st)
                if st is None: return None
            self.leave(st, s.line)
            return None
        if k == 'break':
            if self.brk: self.brk[-1].append(self.unscope(st, self.brkdepth[-1]))
            return None
        if k == 'continue':
            if self.cont: self.cont[-1].append(self.unscope(st, self.contdepth[-1]))
            return None
        if k == 'goto': return None
        if k == 'if':
            init, cond, th, el = a
            self.loc.append(set())
            if init is not None: st = self.stmt(init, st)
            if cond.k == 'decl':
                st = self.stmt(cond, st)
                nm = cond.a[0][0][0]
                t, f = (st.copy(), st.copy()) if st is not None else (None, None)
                if st is not None and isinstance(nm, str) and nm in self.ptrs: t.N[nm] = 1; f.N[nm] = 0
            else: t, f = self.cond(cond, st)
            r1 = self.stmt(th, t) if t is not None else None
            r2 = (self.stmt(el, f) if el is not None else f) if f is not None else None
            self.loc.pop()
            return join(r1, r2)
        if k in ('while', 'do', 'for', 'rfor'): return self.loop(s, st)
        if k == 'switch':
            st = self.ex(a[0], st)
            if st is None: return None
            self.initbrk()
            self.brk.append([]); self.brkdepth.append(len(self.gs)); self.sw.append(st); self.swdef.append(False)
            b = a[1]
            r = self.block(b.a[0], None) if b.k == 'block' else self.stmt(b, st)
            self.sw.pop(); d = self.swdef.pop(); self.brkdepth.pop()
            for x in self.brk.pop(): r = join(r, x)
            if not d: r = join(r, st)
            return r
        if k == 'try':
            r = self.stmt(a[0], st)
            for h in a[1]:
                h0 = St(st.L, st.P)
                r = join(r, self.stmt(h, h0))
            return r
        return st
    def initbrk(self):
        for n in ('brkdepth', 'contdepth', 'swdef'):
            if not hasattr(self, n): setattr(self, n, [])
    def unscope(self, st, depth):
        st = st.copy()
        for g in self.gs[depth:]:
            for lock, mode, var in g: self.release(st, lock, 0)
        return st
    def loop(self, s, st):
        k, a = s.k, s.a
        self.initbrk()
        self.loc.append(set())
        if k == 'for':
            init, cond, step, body = a
            if init is not None: st = self.stmt(init, st)
        elif k == 'rfor':
            names, ty, rng, body = a
            st = self.ex(rng, st)
            if st is None: self.loc.pop(); return None
            if isinstance(names, str): self.loc[-1].add(names); st.N.pop(names, None)
            else:
                self.loc[-1].update(names[1:])
                for n in names[1:]: st.N.pop(n, None)
            cond = step = None
        elif k == 'while': cond, body = a; step = None
        else: body, cond = a; step = None
        ent = st
        out = None
        for rnd in range(3):
            self.brk.append([]); self.cont.append([]); self.brkdepth.append(len(self.gs)); self.contdepth.append(len(self.gs))
            if ent is None: t, f = None, None
            elif k == 'do': t, f = ent.copy(), None
            elif k == 'rfor':
                t, f = ent.copy(), ent.copy()
                for n in ((names,) if isinstance(names, str) else names[1:]): t.N.pop(n, None)
            elif cond is None: t, f = ent.copy(), None
            elif cond.k == 'decl':
                q = self.stmt(cond, ent); t, f = q.copy(), q.copy()
                nm = cond.a[0][0][0]
                if nm in self.ptrs: t.N[nm] = 1; f.N[nm] = 0
            else: t, f = self.cond(cond, ent)
            r = self.stmt(body, t) if t is not None else None
            for x in self.cont.pop(): r = join(r, x)
            if k == 'do' and r is not None:
                t2, f = self.cond(cond, r)
                r = t2
            if step is not None and r is not None: r = self.ex(step, r)
            out = f
            for x in self.brk.pop(): out = join(out, x)
            self.brkdepth.pop(); self.contdepth.pop()
            if r is None: break
            n = join(ent, r)
            if n is not None and ent is not None and n.L == ent.L and n.P == ent.P and n.N == ent.N: break
            ent = n
        self.loc.pop()
        return out
    # -- expressions
    def nullish(self, e):
        return (e.k == 'lit' and e.a[0] == 'nullptr') or (e.k == 'name' and e.a[0] == 'NULL') or (e.k == 'ctor' and len(e.a[1]) == 1 and self.nullish(e.a[1][0]))
    def strip(self, e):
        while e.k == 'call' and e.a[0].k == 'name' and e.a[0].a[0] in ('BAIDU_LIKELY', 'BAIDU_UNLIKELY', 'likely', 'unlikely', '__builtin_expect', 'bool', 'DINGO_LIKELY', 'DINGO_UNLIKELY') and e.a[1]:
            e = e.a[1][0]
        return e
    def cond(self, e, st):
        e = self.strip(e)
        if e.k == 'bin' and e.a[0] in ('&&', 'and'):
            t, f = self.cond(e.a[1], st)
            if t is None: return None, f
            t2, f2 = self.cond(e.a[2], t)
            return t2, join(f, f2)
        if e.k == 'bin' and e.a[0] in ('||', 'or'):
            t, f = self.cond(e.a[1], st)
            if f is None: return t, None
            t2, f2 = self.cond(e.a[2], f)
            return join(t, t2), f2
        if e.k == 'un' and e.a[0] == '!':
            t, f = self.cond(e.a[1], st)
            return f, t
        if e.k == 'lit' and e.a[0] in ('true', 'false'):
            return (st, None) if e.a[0] == 'true' else (None, st)
        v = None; eq = True
        if e.k == 'bin' and e.a[0] in ('==', '!='):
            l, r = e.a[1], e.a[2]
            if self.nullish(r): v = l
            elif self.nullish(l): v = r
            if v is not None: eq = e.a[0] == '=='
        elif e.k == 'name' and e.a[0] in self.ptrs and self.islocal(e.a[0]): v = e; eq = False
        tl, pos = self.trylock(e, st)
        if tl is not None:
            a, b = st.copy(), st.copy()
            self.acquire(a, tl, 'w', e.line, True)
            return (a, b) if pos else (b, a)
        st = self.ex(e, st)
        if st is None: return None, None
        if v is not None and v.k == 'name' and self.islocal(v.a[0]) and v.a[0] not in self.captured:
            n = v.a[0]
            a, b = st.copy(), st.copy()
            cur = st.N.get(n)
            a.N[n] = 0; b.N[n] = 1
            if cur == 1: a = None
            elif cur == 0: b = None
            return (a, b) if eq else (b, a)
        return st.copy(), st.copy()
    def trylock(self, e, st):
        """(lock, truth of e when the lock was obtained)"""
        pos = False      # pthread convention: 0 means obtained
        if e.k == 'bin' and e.a[0] in ('==', '!='):
            x, y = e.a[1], e.a[2]
            if text(x) in ('0',): x, y = y, x
            if text(y) != '0': return None, False
            pos = e.a[0] == '=='
            e = self.strip(x)
        if e.k == 'name' and ('try:' + e.a[0]) in st.N: return st.N['try:' + e.a[0]], pos
        if e.k == 'call' and e.a[0].k == 'name' and e.a[0].a[0].split('::')[-1] in ('bthread_mutex_trylock', 'pthread_mutex_trylock') and e.a[1]:
            return self.lockname(e.a[1][0]), pos
        if e.k == 'call' and e.a[0].k == 'mem' and e.a[0].a[1] in ('try_lock', 'TryLock') and not e.a[1]:
            return self.lockname(e.a[0].a[0]), True
        return None, False
    def deref(self, e, st):
        if e.k == 'name' and self.islocal(e.a[0]) and st.N.get(e.a[0]) == 0: self.emit('null', e.a[0], e.line)
    def use(self, e, st, lockarg=False):
        pass
    def access(self, n, rw, st, line):
        if n in self.fields and not self.islocal(n): self.emit('acc', n, rw, st.L, line)
    def root(self, e):
        while e.k in ('mem', 'idx') or (e.k == 'un' and e.a[0] == '*') or e.k == 'cast':
            if e.k == 'mem' and e.a[0].k == 'this': return e.a[1]
            e = e.a[0] if e.k in ('mem', 'idx') else e.a[1]
        if e.k == 'name': return e.a[0]
        return None
    def lambody(self, e, st, mode):
        """mode: 'now' (current locks) or 'later' (no locks)"""
        cap, params, body = e.a
        save = (self.brk, self.cont, self.sw, self.gs, self.loc, self.ptrs)
        self.brk = []; self.cont = []; self.sw = []; self.gs = []
        self.loc = self.loc + [set(p[0] for p in params)]
        s2 = St(st.L if mode == 'now' else frozenset(), frozenset(), dict(st.N) if mode == 'now' else {})
        for p in params: s2.N.pop(p[0], None)
        self.stmt(body, s2)
        self.brk, self.cont, self.sw, self.gs, self.loc, self.ptrs = save
        if '&' in cap:
            for n in list(st.N):
                if isinstance(n, str) and not n.startswith('guard') and re.search(r'\b%s\b' % re.escape(n), self.srcof(body)): st.N.pop(n, None)
    def srcof(self, b):
        return repr(b)
    def ex(self, e, st):
        """evaluate; returns state or None when control does not continue"""
        if e is None or st is None: return st
        k, a = e.k, e.a
        if k in ('num', 'str', 'chr', 'lit', 'this', 'sizeof', 'raw'): return st
        if k == 'name':
            self.access(a[0], 'r', st, e.line); return st
        if k == 'lambda':
            st = st.copy(); self.lambody(e, st, 'later'); return st
        if k == 'asg':
            op, l, r = a
            st = self.ex(r, st)
            if st is None: return None
            st = st.copy()
            n = self.root(l)
            if l.k == 'name' and self.islocal(l.a[0]):
                st.N.pop(l.a[0], None)
                if op == '=' and self.nullish(r) and l.a[0] in self.ptrs: st.N[l.a[0]] = 0
                return st
            if l.k != 'name':
                st = self.ex(l.a[0] if l.k in ('mem', 'idx') else l.a[1] if l.k == 'un' else l, st)
                if st is None: return None
                if l.k == 'idx': st = self.ex(l.a[1], st)
                if l.k == 'mem': self.derefmem(l, st)
                if l.k == 'un' and l.a[0] == '*': self.deref(l.a[1], st)
            if n: self.access(n, 'w', st, e.line)
            return st
        if k in ('un', 'post'):
            op, x = a
            st = self.ex(x, st)
            if st is None: return None
            if op in ('++', '--'):
                n = self.root(x)
                if n: self.access(n, 'w', st, e.line)
                if x.k == 'name': st = st.copy(); st.N.pop(x.a[0], None)
            elif op == '*' and k == 'un': self.deref(x, st)
            elif op == '&' and k == 'un' and x.k == 'name':
                st = st.copy(); st.N.pop(x.a[0], None)
            return st
        if k == 'bin':
            if a[0] in ('&&', '||', 'and', 'or'):
                t, f = self.cond(e, st)
                return join(t, f)
            if a[0] == '<<' and self.isfatal(e):
                self.ex(a[2], self.ex(a[1], st) or st)
                return None
            st = self.ex(a[1], st)
            return self.ex(a[2], st) if st is not None else None
        if k == 'cond':
            t, f = self.cond(a[0], st)
            t = self.ex(a[1], t) if t is not None else None
            f = self.ex(a[2], f) if f is not None else None
            return join(t, f)
        if k == 'comma':
            for x in a:
                st = self.ex(x, st)
                if st is None: return None
            return st
        if k == 'mem':
            st = self.ex(a[0], st)
            if st is None: return None
            self.derefmem(e, st)
            if a[0].k == 'this': self.access(a[1], 'r', st, e.line)
            return st
        if k == 'idx':
            st = self.ex(a[0], st)
            return self.ex(a[1], st) if st is not None else None
        if k == 'cast': return self.ex(a[1], st)
        if k == 'del': return self.ex(a[0], st)
        if k == 'throw':
            self.ex(a[0], st); return None
        if k in ('ctor', 'new'):
            for x in a[1]:
                if isinstance(x, E):
                    st = self.ex(x, st)
                    if st is None: return None
            return st
        if k == 'init':
            for x in a[1]:
                st = self.ex(x, st)
                if st is None: return None
            return st
        if k == 'desig': return self.ex(a[1], st)
        if k == 'stmtexpr': return self.stmt(a[0], st)
        if k == 'stmtarg':
            self.lambody(E('lambda', ('&', (), a[0]), e.line), st, 'now'); return st
        if k == 'call': return self.call(e, st)
        for x in a:
            if isinstance(x, E): st = self.ex(x, st)
            if st is None: return None
        return st
    def derefmem(self, e, st):
        if e.a[2] == '->': self.deref(e.a[0], st)
    def isfatal(self, e):
        while e.k == 'bin' and e.a[0] == '<<': e = e.a[1]
        return e.k == 'call' and e.a[0].k == 'name' and e.a[0].a[0] in ('DINGO_LOG', 'LOG') and len(e.a[1]) == 1 and text(e.a[1][0]) in ('FATAL',)
    def call(self, e, st):
        fn, args = e.a
        nm = fn.a[0] if fn.k == 'name' else fn.a[1] if fn.k == 'mem' else ''
        last = nm.split('::')[-1]
        if fn.k == 'name' and nm in NORET: return None
        if fn.k == 'name' and nm in ('DINGO_LOG', 'LOG', 'DLOG', 'VLOG', 'DCHECK'): return st
        if fn.k == 'name' and nm in ('CHECK', 'CHECK_NE', 'CHECK_EQ') and args:
            if nm == 'CHECK':
                t, f = self.cond(args[0], st); return t
            for x in args: st = self.ex(x, st)
            if nm == 'CHECK_NE' and st is not None and len(args) == 2:
                for x, y in ((args[0], args[1]), (args[1], args[0])):
                    if self.nullish(y) and x.k == 'name': st = st.copy(); st.N[x.a[0]] = 1
            return st
        if fn.k == 'name' and last in ('bthread_mutex_lock', 'pthread_mutex_lock') and args:
            l = self.lockname(args[0]); st = st.copy(); self.acquire(st, l, 'w', e.line, True); return st
        if fn.k == 'name' and last in ('bthread_mutex_unlock', 'pthread_mutex_unlock') and args:
            l = self.lockname(args[0]); st = st.copy()
            if not any(x[0] == l for x in st.L) and not any(x[0] == l for x in st.P): self.emit('unheld', l, e.line)
            self.release(st, l, e.line); return st
        if fn.k == 'mem' and last in ('lock', 'unlock', 'LockRead', 'LockWrite', 'UnlockRead', 'UnlockWrite', 'Lock', 'Unlock', 'lock_shared', 'unlock_shared', 'UnLock') and not args:
            r = fn.a[0]; st = st.copy()
            if r.k == 'name' and ('guardvar:' + r.a[0]) in st.N:
                l, mode = st.N['guardvar:' + r.a[0]]
                if last == 'lock': self.acquire(st, l, mode, e.line, False)
                else: self.release(st, l, e.line)
                return st
            l = self.lockname(r)
            if re.search(r'(lock|mutex)_?$', l, re.I):
                if last.lower().startswith('un'): self.release(st, l, e.line)
                else: self.acquire(st, l, 'r' if last in ('LockRead', 'lock_shared') else 'w', e.line, True)
                return st
        # receiver
        recv = None
        if fn.k == 'mem':
            st = self.ex(fn.a[0], st)
            if st is None: return None
            if fn.a[2] == '->': self.deref(fn.a[0], st)
            recv = text(fn.a[0])
            n = self.root(fn.a[0])
            if n and MUTATE.match(last): self.access(n, 'w', st, e.line)
            if fn.a[0].k == 'name' and last in ('reset', 'swap', 'release') : st = st.copy(); st.N.pop(fn.a[0].a[0], None)
        elif fn.k == 'name':
            if '::' in nm and nm.split('::')[-2] != self.f.cls: recv = '::'
            if nm in self.lam and self.islocal(nm):
                for x in args:
                    st = self.ex(x, st)
                    if st is None: return None
                if getattr(self, 'depth', 0) < 4:
                    self.depth = getattr(self, 'depth', 0) + 1
                    st = st.copy(); self.lambody(self.lam[nm], st, 'now')
                    self.depth -= 1
                return st
        elif fn.k == 'lambda':
            for x in args:
                st = self.ex(x, st)
                if st is None: return None
            st = st.copy(); self.lambody(fn, st, 'now')
            return st
        else:
            st = self.ex(fn, st)
            if st is None: return None
        for x in args:
            if x.k == 'lambda' or (x.k == 'name' and x.a[0] in self.lam and self.islocal(x.a[0])):
                lam = x if x.k == 'lambda' else self.lam[x.a[0]]
                st = st.copy()
                if getattr(self, 'depth', 0) < 4:
                    self.depth = getattr(self, 'depth', 0) + 1
                    self.lambody(lam, st, 'later' if ASYNC.search(last) else 'now')
                    self.depth -= 1
                continue
            st = self.ex(x, st)
            if st is None: return None
            if x.k == 'name' and x.a[0] in st.N and not x.a[0].startswith('guard'):
                # may be taken by reference
                if st.N[x.a[0]] == 0: st = st.copy(); st.N.pop(x.a[0], None)
        self.emit('call', recv, last, st.L, e.line)
        return st
