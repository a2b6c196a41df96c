"""Whole-tree flow of outcomes: what happens to the result of every call that returns a status.

Forward dataflow over the syntax tree.  A local that holds a status carries tags ('u' not looked at yet, 'b' known to be a
failure and only logged, 'B' a failure that was handed on, 'o' known good, 'r' looked at) with the name of the call it came
from.  Joins are unions.  Events: drop (result of the call thrown away), unread (overwritten or dead before anybody
looked), lost (a known failure overwritten after at most a log line), swallow (known failure, function answers success)."""
import re
from .cxx import E
from .flow import text

STATUS = re.compile(r'^(const\s+)?(butil::)?Status(\s*&)?$')
READS = {'ok', 'error_code', 'error_str', 'error_cstr', 'error_data'}
LOGS = {'DINGO_LOG', 'DINGO_LOG_IF', 'LOG', 'DLOG', 'VLOG', 'LOG_IF'}
NORET = {'exit', 'abort', '_exit', 'std::abort', 'std::exit'}


def clean(ret):
    r = re.sub(r'\b(static|virtual|inline|const|explicit|friend|extern|constexpr)\b|\[\[\w+\]\]', ' ', ret or '')
    return re.sub(r'\s*::\s*', '::', r).replace('dingodb::', '').replace('&', '').strip()

def is_status(ret): return clean(ret) in ('butil::Status', 'Status')
def is_bool(ret): return clean(ret) == 'bool'


def join(a, b):
    if a is None: return b
    if b is None: return a
    if a is b: return a
    d = dict(a)
    for k, v in b.items(): d[k] = d.get(k, frozenset()) | v
    return d


class Outcome:
    def __init__(self, f, kind):
        """kind(callee name, Expr, func) -> 'S' status, 'Z' checked bool, None"""
        self.f = f; self.kind = kind; self.ev = []; self.seen = set()
        self.ret = 'S' if is_status(f.ret) else 'Z' if is_bool(f.ret) else 'V' if clean(f.ret) == 'void' else '?'
        self.stats = 0
    def emit(self, *e):
        if e not in self.seen: self.seen.add(e); self.ev.append(e)
    def run(self):
        self.scopes = [set()]; self.brk = []; self.cont = []; self.sw = []; self.swdef = []; self.lamdepth = 0; self.logd = 0; self.typed = {}
        st = self.stmt(self.f.body(), {})
        if st is not None: self.exit(st, None, self.f.endline)
        return self.ev
    # ---- tags
    def dead(self, st, n, line):
        for t in st.get(n, ()):
            if t[0] in 'uz': self.emit('unread', t[1], t[2])
    def exit(self, st, e, line):
        named = set()
        if e is not None:
            names(e, named)
        for n, tags in st.items():
            if n in named: continue
            for t in tags:
                if t[0] in 'uz': self.emit('unread', t[1], t[2])
                if t[0] == 'b' and self.lamdepth == 0 and self.success(e, st): self.emit('swallow', t[1], line)
    def success(self, e, st):
        if self.ret == 'V': return e is None
        if e is None: return False
        if self.ret == 'S':
            x = e
            if x.k == 'call' and not x.a[1]:
                t = text(x.a[0]).replace('dingodb::', '')
                return t in ('butil::Status::OK', 'Status::OK', 'butil::Status', 'Status')
            if x.k in ('ctor', 'init') and not x.a[1]: return True
            if x.k == 'name': return x.a[0] in st and not any(t[0] in 'bB' for t in st[x.a[0]])
            c = self.status_call(x)
            return c is not None and c[1] == 'S'
        if self.ret == 'Z': return e.k == 'lit' and e.a[0] == 'true'
        return False
    # ---- statements
    def block(self, stmts, st):
        self.scopes.append(set())
        for s in stmts:
            if s.k == 'label' and st is None: st = {}
            if s.k in ('case', 'default') and self.sw:
                st = join(st, self.sw[-1])
                if s.k == 'default': self.swdef[-1] = True
                continue
            if st is None: continue
            st = self.stmt(s, st)
        sc = self.scopes.pop()
        if st is not None and sc:
            for n in sc:
                if n in st: self.dead(st, n, 0)
            # a failure that goes out of scope is still a failure of the function
            st = self.leave(st, sc)
        return st
    def shadow(self, st, n):
        while n in st: n += '^'
        return n
    def leave(self, st, sc):
        d = {}
        for k, v in st.items():
            if k in sc: k = k + "'"; d[k] = d.get(k, frozenset()) | v
            elif '^' in k and k.rstrip('^') in sc: d[k[:-1]] = v
            else: d[k] = d.get(k, frozenset()) | v if k.endswith("'") else v
        return d
    def stmt(self, s, st):
        k, a = s.k, s.a
        if k == 'block': return self.block(a[0], st)
        if k in ('empty', 'label', 'opaque', 'case', 'default'): return st
        if k == 'expr':
            e = a[0]
            c = self.status_call(e)
            if c is not None:
                st = self.ex(e, st)
                if st is not None: self.emit('drop', c[0], e.line)
                return st
            return self.ex(e, st)
        if k == 'decl':
            for nm, ty, init in a[0]:
                if init is not None: st = self.ex(init, st)
                if st is None: return None
                if not isinstance(nm, str): continue
                st = dict(st)
                if nm in st: st[self.shadow(st, nm)] = st.pop(nm)
                self.scopes[-1].add(nm)
                self.typed[nm] = is_status(ty)
                if init is not None: self.bind(st, nm, init)
            return st
        if k == 'ret':
            if a[0] is not None:
                st = self.ex(a[0], st)
                if st is None: return None
            self.exit(st, a[0], s.line)
            return None
        if k == 'break':
            if self.brk: self.brk[-1].append(st)
            return None
        if k == 'continue':
            if self.cont: self.cont[-1].append(st)
            return None
        if k == 'goto': return None
        if k == 'if':
            init, cond, th, el = a
            self.scopes.append(set())
            if init is not None: st = self.stmt(init, st)
            if st is None: self.scopes.pop(); return None
            if cond.k == 'decl':
                st = self.stmt(cond, st); t = f = st
            else: t, f = self.cond(cond, st)
            r1 = self.stmt(th, t) if t is not None else None
            r2 = (self.stmt(el, f) if el is not None else f) if f is not None else None
            sc = self.scopes.pop()
            r = join(r1, r2)
            if r is not None and sc:
                for n in sc: self.dead(r, n, 0)
                r = self.leave(r, sc)
            return r
        if k in ('while', 'do', 'for', 'rfor'): return self.loop(s, st)
        if k == 'switch':
            st = self.ex(a[0], st)
            if st is None: return None
            self.brk.append([]); self.sw.append(st); self.swdef.append(False)
            b = a[1]
            r = self.block(b.a[0], None) if b.k == 'block' else self.stmt(b, st)
            self.sw.pop(); d = self.swdef.pop()
            for x in self.brk.pop(): r = join(r, x)
            if not d: r = join(r, st)
            return r
        if k == 'try':
            r = self.stmt(a[0], st)
            for h in a[1]: r = join(r, self.stmt(h, dict(st)))
            return r
        return st
    def loop(self, s, st):
        k, a = s.k, s.a
        self.scopes.append(set())
        step = None
        if k == 'for':
            init, cond, step, body = a
            if init is not None: st = self.stmt(init, st)
        elif k == 'rfor':
            nm, ty, rng, body = a; cond = None
            st = self.ex(rng, st)
        elif k == 'while': cond, body = a
        else: body, cond = a
        ent, out = st, None
        for rnd in range(4):
            if ent is None: break
            self.brk.append([]); self.cont.append([])
            if k in ('do', 'rfor'): t, f = ent, (None if k == 'do' else ent)
            elif cond is None: t, f = ent, None
            elif cond.k == 'decl': t = f = self.stmt(cond, ent)
            else: t, f = self.cond(cond, ent)
            r = self.stmt(body, t) if t is not None else None
            for x in self.cont.pop(): r = join(r, x)
            if k == 'do' and r is not None: r, f = self.cond(cond, r)
            if step is not None and r is not None:
                for x in (step.a if step.k == 'comma' else (step,)):
                    c = self.status_call(x)
                    if c: self.emit('drop', c[0], x.line)
                r = self.ex(step, r)
            out = f
            for x in self.brk.pop(): out = join(out, x)
            if r is None: break
            n = join(ent, r)
            if n == ent: break
            ent = n
        sc = self.scopes.pop()
        if out is not None and sc:
            for n in sc: self.dead(out, n, 0)
            out = self.leave(out, sc)
        return out
    # ---- expressions
    def status_call(self, e):
        while e.k == 'cast': return None
        if e.k != 'call': return None
        fn = e.a[0]
        nm = (fn.a[0] if fn.k == 'name' else fn.a[1] if fn.k == 'mem' else '').split('<')[0].split('::')[-1]
        if nm in ('Status', 'OK') or (fn.k == 'name' and 'Status' in fn.a[0].split('::')): return None
        k = self.kind(nm, e, self.f)
        return (nm, k) if k else None
    def bind(self, st, n, v):
        """n = v in st"""
        if n in st:
            for t in st[n]:
                if t[0] in 'uz': self.emit('unread', t[1], t[2])
                if t[0] == 'b': self.emit('lost', t[1], v.line)
        st.pop(n, None)
        while v.k == 'ctor' and len(v.a[1]) == 1 and isinstance(v.a[1][0], E): v = v.a[1][0]
        c = self.status_call(v)
        if c is None and v.k == 'call' and self.typed.get(n):
            fn = v.a[0]
            nm = (fn.a[0] if fn.k == 'name' else fn.a[1] if fn.k == 'mem' else '').split('<')[0].split('::')[-1]
            if nm and nm not in ('Status', 'OK', 'move') and not (fn.k == 'name' and 'Status' in fn.a[0].split('::')): c = (nm, 'S')
        if c: st[n] = frozenset({('u' if c[1] == 'S' else 'z', c[0], v.line)}); self.stats += 1
        elif v.k == 'name' and v.a[0] in st: st[n] = st[v.a[0]]
        elif v.k == 'call' and text(v.a[0]).replace('dingodb::', '') in ('butil::Status', 'Status') and v.a[1]:
            st[n] = frozenset({('b', 'Status', v.line)})
    def look(self, st, n, kind):
        """kind: 'r' looked at, 'B' handed on"""
        if n not in st: return st
        st = dict(st)
        s = set()
        for t in st[n]:
            if t[0] == 'z': s.add(('r',) + t[1:] + ('z',))
            elif t[0] == 'u': s.add((('r' if kind == 'r' else 'B'),) + t[1:])
            elif t[0] == 'b' and kind == 'B': s.add(('B',) + t[1:])
            else: s.add(t)
        st[n] = frozenset(s)
        return st
    def know(self, st, n, good):
        st = dict(st); s = set()
        for t in st[n]:
            if good:
                if t[0] in 'bB': continue
                s.add(('o',) + t[1:])
            elif t[0] == 'z' or len(t) > 3: s.add(('r',) + t[1:3] + ('z',))
            else:
                if t[0] == 'o': continue
                s.add(t if t[0] in 'bB' else ('b',) + t[1:])
        if not s: return None
        st[n] = frozenset(s)
        return st
    def test(self, e):
        """(local, good-when-true) when e decides whether a tracked local is a success"""
        while e.k == 'call' and e.a[0].k == 'name' and e.a[0].a[0] in ('BAIDU_LIKELY', 'BAIDU_UNLIKELY') and e.a[1]: e = e.a[1][0]
        if e.k == 'call' and e.a[0].k == 'mem' and e.a[0].a[1] == 'ok' and e.a[0].a[0].k == 'name': return e.a[0].a[0].a[0], True
        if e.k == 'bin' and e.a[0] in ('==', '!='):
            x, y = e.a[1], e.a[2]
            for x, y in ((x, y), (y, x)):
                if x.k == 'call' and x.a[0].k == 'mem' and x.a[0].a[1] == 'error_code' and x.a[0].a[0].k == 'name':
                    t = text(y).split('::')[-1]
                    if t in ('OK', '0'): return x.a[0].a[0].a[0], e.a[0] == '=='
        if e.k == 'name': return e.a[0], True
        return None
    def cond(self, e, st):
        while e.k == 'call' and e.a[0].k == 'name' and e.a[0].a[0] in ('BAIDU_LIKELY', 'BAIDU_UNLIKELY') and e.a[1]: e = e.a[1][0]
        if e.k == 'bin' and e.a[0] in ('&&', 'and'):
            t, f = self.cond(e.a[1], st)
            if t is None: return None, f
            t2, f2 = self.cond(e.a[2], t)
            return t2, join(f, f2)
        if e.k == 'bin' and e.a[0] in ('||', 'or'):
            t, f = self.cond(e.a[1], st)
            if f is None: return t, None
            t2, f2 = self.cond(e.a[2], f)
            return join(t, t2), f2
        if e.k == 'un' and e.a[0] == '!':
            t, f = self.cond(e.a[1], st)
            return f, t
        if e.k == 'lit' and e.a[0] in ('true', 'false'):
            return (st, None) if e.a[0] == 'true' else (None, st)
        x = self.test(e)
        if x and x[0] in st:
            st = self.look(st, x[0], 'r')
            t, f = self.know(st, x[0], x[1]), self.know(st, x[0], not x[1])
            return t, f
        st = self.ex(e, st)
        return st, st
    def ex(self, e, st):
        if e is None or st is None: return st
        k, a = e.k, e.a
        if k in ('num', 'str', 'chr', 'lit', 'this', 'sizeof', 'raw'): return st
        if k == 'name': return self.look(st, a[0], 'r' if self.logd else 'B')
        if k == 'lambda':
            return self.lam(e, st)
        if k == 'asg':
            op, l, r = a
            st = self.ex(r, st)
            if st is None: return None
            if l.k == 'name' and op == '=':
                st = dict(st); self.bind(st, l.a[0], r); return st
            return self.ex(l, st)
        if k == 'bin':
            if a[0] in ('&&', '||', 'and', 'or'):
                t, f = self.cond(e, st); return join(t, f)
            if a[0] == '<<' and self.isfatal(e): return None
            if a[0] == '<<' and self.islog(e):
                self.logd += 1
                st = self.ex(a[1], st); st = self.ex(a[2], st)
                self.logd -= 1
                return st
            st = self.ex(a[1], st)
            return self.ex(a[2], st)
        if k == 'cond':
            t, f = self.cond(a[0], st)
            t = self.ex(a[1], t) if t is not None else None
            f = self.ex(a[2], f) if f is not None else None
            return join(t, f)
        if k == 'call':
            fn, args = a
            if fn.k == 'name' and fn.a[0] in NORET: return None
            if fn.k == 'name' and fn.a[0] in ('CHECK',) and args:
                t, f = self.cond(args[0], st); return t
            if fn.k == 'name' and fn.a[0] in LOGS:
                self.logd += 1
                for x in args: st = self.ex(x, st)
                self.logd -= 1
                return st
            if fn.k == 'mem':
                if fn.a[0].k == 'name' and fn.a[0].a[0] in st:
                    st = self.look(st, fn.a[0].a[0], 'r' if fn.a[1] == 'ok' or self.logd else 'B')
                    if fn.a[1] in ('set_error', 'reset', 'swap'):
                        st = dict(st); st.pop(fn.a[0].a[0], None)
                else: st = self.ex(fn.a[0], st)
            elif fn.k == 'lambda': st = self.lam(fn, st)
            elif fn.k != 'name': st = self.ex(fn, st)
            for x in args:
                st = self.ex(x, st)
                if st is None: return None
            return st
        if k == 'stmtexpr': return self.stmt(a[0], st)
        if k == 'stmtarg': return self.stmt(a[0], st) or st
        if k == 'throw':
            self.ex(a[0], st); return None
        if k in ('ctor', 'new', 'init'):
            for x in a[1]:
                if isinstance(x, E): st = self.ex(x, st)
                if st is None: return None
            return st
        if k == 'comma':
            for x in a:
                st = self.ex(x, st)
                if st is None: return None
            return st
        for x in a:
            if isinstance(x, E): st = self.ex(x, st)
            if st is None: return None
        return st
    def lam(self, e, st):
        cap, params, body = e.a
        save = (self.brk, self.cont, self.sw, self.swdef, self.logd)
        self.brk, self.cont, self.sw, self.swdef, self.logd = [], [], [], [], 0
        self.lamdepth += 1
        self.stmt(body, {})
        self.lamdepth -= 1
        self.brk, self.cont, self.sw, self.swdef, self.logd = save
        ids = set(); names(body, ids)
        for n in list(st):
            if n in ids: st = self.look(st, n, 'B')
        return st
    def islog(self, e):
        while e.k == 'bin' and e.a[0] == '<<': e = e.a[1]
        return e.k == 'call' and e.a[0].k == 'name' and e.a[0].a[0] in LOGS
    def isfatal(self, e):
        while e.k == 'bin' and e.a[0] == '<<': e = e.a[1]
        return e.k == 'call' and e.a[0].k == 'name' and e.a[0].a[0] in ('DINGO_LOG', 'LOG') and len(e.a[1]) == 1 and text(e.a[1][0]) == 'FATAL'


def names(e, out):
    st = [e]
    while st:
        x = st.pop()
        if x.__class__ is E:
            if x.k == 'name': out.add(x.a[0])
            st.extend(y for y in x.a if y.__class__ in (E, tuple, list))
        elif x.__class__ in (tuple, list): st.extend(y for y in x if y.__class__ in (E, tuple, list))


SKIP = ('/client', '/simd/')

class Whole8:
    def __init__(self, repo, inventory, checked):
        from .repo import idents
        self.repo = repo; self.checked = checked; self.broken = []; self.inv = inventory
        self.units = [u for u in repo.all_units() if not any(s in u.rel for s in SKIP)]
        self.fields, self.bases = {}, {}
        for u in self.units:
            for c, fl in u.fields.items(): self.fields.setdefault(c, {}).update(fl)
            for c, b in u.bases.items(): self.bases.setdefault(c, []).extend(b)
        self.sig = {}
        self.bycls = {}
        for u in self.units:
            for f in u.decls + u.funcs:
                self.sig.setdefault(f.name, []).append(f)
                if f.cls: self.bycls.setdefault((f.cls, f.name), []).append(f)
        self.funcs = [f for u in self.units for f in u.funcs]
        self.new = [f for f in self.funcs if not self.isknown(f)]
        # a call name is fresh when no function of that name is in the inventory
        old = {k.split('|')[1].split('::')[-1] for k in inventory}
        self.fresh = {f.name for f in self.new if f.name not in old}
        self.callers = {}
        if self.new:
            want = {f.name for f in self.new}
            for g in self.funcs:
                for n in idents(g.body()) & want: self.callers.setdefault(n, []).append(g)
    def isknown(self, f):
        rel = f.file[4:] if f.file.startswith('src/') else f.file
        return '%s|%s|%d' % (rel, f.qual(), len(f.params)) in self.inv
    def owners(self, f):
        out, st, seen = set(), [f], set()
        while st:
            g = st.pop()
            if g in seen: continue
            seen.add(g)
            if self.isknown(g): out.add(g.qual()); continue
            st.extend(h for h in self.callers.get(g.name, ()) if h is not g)
        return out or {f.qual()}
    def hier(self, c, seen=()):
        yield c
        for b in self.bases.get(c, ()):
            b = b.split('::')[-1].split('<')[0].strip()
            if b != c and b not in seen: yield from self.hier(b, seen + (c,))
    def typeclass(self, ty):
        for t in re.findall(r'[A-Za-z_]\w*', ty or ''):
            if t in self.fields and t != 'T': return t
            if t.endswith('Ptr') and t[:-3] in self.fields: return t[:-3]
        return None
    def cands(self, nm, e, f):
        fn = e.a[0]
        if fn.k == 'name':
            parts = re.sub(r'<.*>', '', fn.a[0]).split('::')
            if len(parts) > 1 and (parts[-2], nm) in self.bycls: return self.bycls[(parts[-2], nm)]
            if len(parts) == 1 and f.cls:
                for c in self.hier(f.cls):
                    if (c, nm) in self.bycls: return self.bycls[(c, nm)]
        elif fn.k == 'mem':
            b = fn.a[0]
            if b.k == 'this' and f.cls: c0 = f.cls
            elif b.k == 'name' and f.cls:
                c0 = None
                for c in self.hier(f.cls):
                    if b.a[0] in self.fields.get(c, {}): c0 = self.typeclass(self.fields[c][b.a[0]]); break
            else: c0 = None
            if c0:
                for c in self.hier(c0):
                    if (c, nm) in self.bycls: return self.bycls[(c, nm)]
        return self.sig.get(nm, ())
    def kind(self, nm, e, f):
        s = self.cands(nm, e, f)
        if not s: return None
        s2 = [x for x in s if len(x.params) == len(e.a[1])] or [x for x in s if len(x.params) >= len(e.a[1])] or s
        if all(is_status(x.ret) for x in s2): return 'S'
        if nm in self.checked and all(is_bool(x.ret) for x in s2): return 'Z'
        return None
    def results(self):
        for f in self.funcs:
            try:
                o = Outcome(f, self.kind); ev = o.run()
            except (RecursionError, AssertionError, IndexError, AttributeError) as ex:
                self.broken.append((f, repr(ex))); continue
            yield f, ev, o.stats
