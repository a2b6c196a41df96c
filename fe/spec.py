"""Rule layer: clauses over the events and conditions the explorer sees on every path of an anchored function.

A Fn names one anchored function and lists clauses.  All clauses of a Fn are decided in one exploration of that function
(helpers in the same file that matter to the clauses are followed).  Every clause instance met on a path is one obligation.
"""
import re, os, hashlib
from .term import *
from .term import T
from .repo import Repo, AnalysisBroken, idents, walk
from .explore import Explorer, Rule, pattern, truth, bnot, is_constlike, lastname, TooBig

PATOPS = {'wild', 'rest', 'var', 'alt', 'mention'}
_hp = {}

def haspat(t):
    r = _hp.get(t)
    if r is None:
        r = t.op in PATOPS or t.op == 'obj' or t.a[:1] == ('_',) or '_' in [x for x in t.a if isinstance(x, str)]
        if not r:
            for c in children(t):
                if haspat(c): r = True; break
        _hp[t] = r
    return r


def expand(src, m):
    for _ in range(12):
        n = re.sub(r'@(\w+)', lambda g: '(%s)' % m[g.group(1)] if g.group(1) in m else bad(g.group(1), src), src)
        if n == src: return n
        src = n
    raise ValueError('macro loop in ' + src)


def bad(n, src): raise ValueError('unknown macro @%s in %s' % (n, src))


def evpat(src, m):
    """event pattern"""
    t = pattern(expand(src, m))
    return toevent(t)


def toevent(t):
    if t.op == 'fld': return mk('call', t.a[1], t.a[0])
    if t.op == 'alt': return mk('alt', *[toevent(x) for x in t.a])
    if t.op == 'not' and t.a[0].op == 'fld' and t.a[0].a[1] == 'empty': return mk('call', 'empty', t.a[0].a[0])
    return t


def formula(src, m):
    if src is None: return TRUE
    return norm(pattern(expand(src, m)))


def norm(t):
    """truth-normalise the leaves of a formula"""
    if t.op in ('and', 'or'): return mk(t.op, norm(t.a[0]), norm(t.a[1]))
    if t.op == 'not': return bnot(norm(t.a[0]))
    if t.op == 'call' and t.a[0] == 'DID': return mk('call', 'DID', NONE, *[toevent(x) for x in t.a[2:]])
    return truth(t)


def neg(t):
    if t is TRUE: return FALSE
    if t is FALSE: return TRUE
    if t.op == 'not': return t.a[0]
    if t.op == 'and': return mk('or', neg(t.a[0]), neg(t.a[1]))
    if t.op == 'or': return mk('and', neg(t.a[0]), neg(t.a[1]))
    return mk('not', t)


def atoms(t, out):
    if t.op in ('and', 'or'): atoms(t.a[0], out); atoms(t.a[1], out)
    elif t.op == 'not': atoms(t.a[0], out)
    elif t.op == 'call' and t.a[0] == 'DID': pass
    elif t.op == 'call' and t.a[0] in ('ERR', 'OKR'): pass
    elif t is not TRUE and t is not FALSE: out.append(t)
    return out


def dids(t, out):
    if t.op in ('and', 'or'): dids(t.a[0], out); dids(t.a[1], out)
    elif t.op == 'not': dids(t.a[0], out)
    elif t.op == 'call' and t.a[0] == 'DID': out.append(t.a[2])
    return out


def inst(p, b):
    if not b or not haspat(p): return p
    if p.op == 'var': return b.get(p.a[0], p)
    na = []
    ch = False
    for x in p.a:
        if x.__class__ is T:
            y = inst(x, b)
            ch = ch or y is not x
            na.append(y)
        elif x.__class__ is tuple and x and x[0].__class__ is tuple:
            y = tuple((n, inst(v, b)) for n, v in x)
            ch = ch or y != x
            na.append(y)
        else: na.append(x)
    return mk(p.op, *na) if ch else p


class Ctx:
    """formula evaluation against one state"""
    __slots__ = ('lits', 'trace', 'ex', 'ret', 'env')
    def __init__(self, st, ex, ret=None, after=None):
        self.lits = st.lits; self.env = st.env; self.ex = ex; self.ret = ret
        tr = st.trace
        if after is not None:
            for i in range(len(tr) - 1, -1, -1):
                if tr[i] == after: tr = tr[i + 1:]; break
        self.trace = tr

    def holds(self, f, b):
        op = f.op
        if f is TRUE: return [b]
        if f is FALSE: return []
        if op == 'and':
            return [y for x in self.holds(f.a[0], b) for y in self.holds(f.a[1], x)]
        if op == 'or': return self.holds(f.a[0], b) or self.holds(f.a[1], b)
        if op == 'not':
            g = f.a[0]
            if g.op in ('and', 'or', 'not'): return self.holds(neg(g), b)
            if g.op == 'call' and g.a[0] == 'DID': return [] if self.did(g.a[2], b) else [b]
            if g.op == 'call' and g.a[0] == 'GHOST': return [b] if self.env.get(('#', g.a[2].a[0]), FALSE) is FALSE else []
            return self.atom(inst(g, b), b, False)
        if op == 'call' and f.a[0] == 'DID': return self.did(f.a[2], b)
        if op == 'call' and f.a[0] == 'GHOST': return [b] if self.env.get(('#', f.a[2].a[0])) is TRUE else []
        return self.atom(inst(f, b), b, True)

    def did(self, p, b):
        r = []
        for ent in self.trace:
            if ent[0] == '@iter': continue
            x = unify(p, ent[1], b)
            if x is not None: r.append(x)
        return r

    def atom(self, p, b, want):
        p = truth(p)
        if p is TRUE: return [b] if want else []
        if p is FALSE: return [] if want else [b]
        if p.op == 'not': return self.atom(p.a[0], b, not want)
        if p.op in ('and', 'or'): return self.holds(p if want else neg(p), b)
        if not haspat(p):
            v = self.lits.get(p)
            if v is None: v = self.ex.known(p, self.lits)
            if v is None and p.op == 'fld' and p.a[1] == 'ok':
                pass
            return [b] if v is want else []
        r = []
        for t, v in self.lits.items():
            if v is want:
                x = unify(p, t, b)
                if x is not None: r.append(x)
            if p.op == 'eq' and not want:
                if v and t.op == 'lt':
                    x = unify(mk('lt', p.a[0], p.a[1]), t, b) or unify(mk('lt', p.a[1], p.a[0]), t, b)
                    if x is not None: r.append(x)
                elif v and t.op == 'eq' and is_constlike(p.a[1]) and is_constlike(t.a[1]) and t.a[1] is not p.a[1]:
                    x = unify(p.a[0], t.a[0], b)
                    if x is not None: r.append(x)
            elif p.op == 'lt' and not want and v:
                if t.op == 'lt': x = unify(mk('lt', p.a[1], p.a[0]), t, b)
                elif t.op == 'eq': x = unify(mk('eq', p.a[0], p.a[1]), t, b)
                else: x = None
                if x is not None: r.append(x)
            elif p.op == 'fld' and p.a[1] == 'ok' and not want and v and t.op == 'eq' and t.a[0].op == 'fld' and t.a[0].a[1] == 'error_code':
                x = unify(p.a[0], t.a[0].a[0], b)
                if x is not None: r.append(x)
        return r

    def possible(self, f, b):
        """f is not refuted"""
        return not self.holds(neg(f), b)


def retkind(ret, ctx):
    if ret is OK: return 'ok'
    if ret.op == 'status': return 'err'
    if ret is TRUE or ret is FALSE: return 'ok' if ret is TRUE else 'err'
    if ret.op in ('void',): return 'void'
    if ret.op == 'const' and is_num(ret): return 'ok' if ret.a[0] == '0' else 'err'
    v = ctx.lits.get(mk('fld', ret, 'ok'))
    if v is None: v = ctx.ex.known(mk('fld', ret, 'ok'), ctx.lits)
    if v is True: return 'ok'
    if v is False: return 'err'
    v = ctx.lits.get(ret)
    if v is True: return 'ok'
    if v is False: return 'err'
    return 'maybe'


class RetPat:
    """'ERR' any error, 'OK' success, 'ANYOK' success or delegated, or a term pattern; alternatives with |"""
    def __init__(self, src, m):
        self.src = src
        self.alts = []
        for s in src.split('|||'):
            s = s.strip()
            if s in ('ERR', 'OKR', 'MAYBE', 'NOTERR', 'NOTOK', 'VOID', 'ANY'): self.alts.append(s)
            else: self.alts.append(formula_ret(s, m))
    def match(self, ret, ctx, b):
        for a in self.alts:
            if isinstance(a, str):
                k = retkind(ret, ctx)
                if a == 'ANY' or (a == 'ERR' and k == 'err') or (a == 'OKR' and k == 'ok') or (a == 'MAYBE' and k == 'maybe') or \
                        (a == 'NOTERR' and k != 'err') or (a == 'NOTOK' and k not in ('ok',)) or (a == 'VOID' and k == 'void'): return b
            else:
                x = unify(a, ret, b)
                if x is not None: return x
        return None


def formula_ret(s, m):
    return pattern(expand(s, m))


class Clause:
    name = None
    why = ''
    minimum = 1
    def __init__(self): self.hits = 0; self.bad = {}
    def events(self): return []
    def forms(self): return []
    def desc(self): return '%s %s' % (self.__class__.__name__, getattr(self, 'text', ''))
    def fail(self, detail, line, ex, msg):
        k = detail
        if k not in self.bad: self.bad[k] = (line, msg, ex.curfile)
    def event(self, kind, term, st, line, ex): pass
    def exit(self, st, term, line, ex): pass
    def iter(self, loop, cont, st, how, line, ex): pass
    def end(self, ex): pass


class G(Clause):
    """whenever the event happens the condition is known to hold on the path"""
    def __init__(self, ev, cond, name=None, min=1):
        super().__init__(); self.ev = ev; self.cond = cond; self.name = name; self.minimum = min
        self.text = '%s only if %s' % (ev, cond)
    def compile(self, m): self.e = evpat(self.ev, m); self.f = formula(self.cond, m)
    def events(self): return [self.e] + dids(self.f, [])
    def forms(self): return [self.f]
    def event(self, kind, term, st, line, ex):
        b = unify(self.e, term, {})
        if b is None: return
        self.hits += 1
        if not Ctx(st, ex).holds(self.f, b):
            self.fail(show(term)[:200], line, ex, 'reached without %s' % self.cond)


class O(G):
    """second event only after the first"""
    def __init__(self, first, then, name=None, min=1):
        G.__init__(self, then, 'DID(%s)' % first, name, min)
        self.text = '%s before %s' % (first, then)


class N(Clause):
    """the event never happens [unless cond holds]"""
    minimum = 0
    def __init__(self, ev, unless=None, name=None):
        super().__init__(); self.ev = ev; self.unless = unless; self.name = name
        self.text = 'never %s%s' % (ev, ' unless ' + unless if unless else '')
    def compile(self, m): self.e = evpat(self.ev, m); self.f = formula(self.unless, m) if self.unless else FALSE
    def events(self): return [self.e] + dids(self.f, [])
    def forms(self): return [self.f]
    def event(self, kind, term, st, line, ex):
        b = unify(self.e, term, {})
        if b is None: return
        self.hits += 1
        if not Ctx(st, ex).holds(self.f, b): self.fail(show(term)[:200], line, ex, 'must not happen here')


class A(Clause):
    """every event of a family is one of the listed forms"""
    def __init__(self, base, allowed, name=None, min=1):
        super().__init__(); self.base = base; self.al = [allowed] if isinstance(allowed, str) else allowed
        self.name = name; self.minimum = min
        self.text = '%s only as %s' % (base, ' | '.join(self.al))
    def compile(self, m):
        self.e = evpat(self.base, m); self.ps = [evpat(x, m) for x in self.al]
    def events(self): return [self.e]
    def event(self, kind, term, st, line, ex):
        if unify(self.e, term, {}) is None: return
        self.hits += 1
        for p in self.ps:
            if unify(p, term, {}) is not None: return
        self.fail(show(term)[:200], line, ex, 'not one of the admitted forms')


class R(Clause):
    """at every exit where `when` is not excluded (and the return matches ret) the event has happened"""
    def __init__(self, when, ev, ret='ANY', name=None, min=1):
        super().__init__(); self.when = when; self.ev = ev; self.ret = ret; self.name = name; self.minimum = min
        self.text = 'at exit [%s] if %s then %s' % (ret, when or 'true', ev)
    def compile(self, m):
        self.f = formula(self.when, m); self.e = formula_did(self.ev, m); self.r = RetPat(self.ret, m)
    def events(self): return dids(self.e, []) + dids(self.f, [])
    def forms(self): return [self.f, self.e]
    def exit(self, st, term, line, ex):
        c = Ctx(st, ex, term)
        b = self.r.match(term, c, {})
        if b is None: return
        if not c.possible(self.f, b): return
        self.hits += 1
        if not c.holds(self.e, b): self.fail('return %s' % show(term)[:120], line, ex, 'exit without %s' % self.ev)


def formula_did(src, m):
    """event requirement: plain event pattern, or a formula using DID()"""
    t = pattern(expand(src, m))
    if t.op == 'not' and t.a[0].op == 'fld' and t.a[0].a[1] == 'empty': return mk('call', 'DID', NONE, toevent(t))
    if 'DID' in callnames(t) or t.op in ('and', 'or', 'not', 'eq', 'lt', 'const'): return norm(t)
    return mk('call', 'DID', NONE, toevent(t))


class W(Clause):
    """at every exit where `when` is not excluded the return matches"""
    def __init__(self, when, ret, name=None, unless=None, min=1):
        super().__init__(); self.when = when; self.ret = ret; self.name = name; self.minimum = min
        self.text = 'if %s then return %s' % (when, ret)
        self.unl = unless
    def compile(self, m):
        self.f = formula(self.when, m); self.r = RetPat(self.ret, m)
        self.u = formula(self.unl, m) if self.unl else FALSE
    def events(self): return dids(self.f, []) + dids(self.u, [])
    def forms(self): return [self.f, self.u]
    def exit(self, st, term, line, ex):
        c = Ctx(st, ex, term)
        if not c.possible(self.f, {}): return
        self.hits += 1
        if self.r.match(term, c, {}) is None and not c.holds(self.u, {}):
            self.fail('return %s' % show(term)[:160], line, ex, 'must return %s' % self.ret)


class RET(Clause):
    """a return of this form only when the condition is known"""
    def __init__(self, ret, cond, name=None, min=1):
        super().__init__(); self.ret = ret; self.cond = cond; self.name = name; self.minimum = min
        self.text = 'return %s only if %s' % (ret, cond)
    def compile(self, m): self.r = RetPat(self.ret, m); self.f = formula(self.cond, m)
    def events(self): return dids(self.f, [])
    def forms(self): return [self.f]
    def exit(self, st, term, line, ex):
        c = Ctx(st, ex, term)
        b = self.r.match(term, c, {})
        if b is None: return
        self.hits += 1
        if not c.holds(self.f, b): self.fail('return %s' % show(term)[:160], line, ex, 'returned without %s' % self.cond)


class BOOL(Clause):
    """the truth of the returned value is the truth of the condition, on every path"""
    def __init__(self, cond, name=None, min=1):
        super().__init__(); self.cond = cond; self.name = name; self.minimum = min
        self.text = 'returns whether %s' % cond
    def compile(self, m): self.f = formula(self.cond, m)
    def forms(self): return [self.f]
    def exit(self, st, term, line, ex):
        self.hits += 1
        r = norm(truth(term))
        at = []
        for x in atoms(self.f, []) + atoms(r, []):
            if x not in at: at.append(x)
        fixed = {}
        free = []
        for x in at:
            v = st.lits.get(x)
            if v is None: v = ex.known(x, st.lits)
            if v is None: free.append(x)
            else: fixed[x] = v
        if len(free) > 12: self.fail('return %s' % show(term)[:160], line, ex, 'undecided'); return
        for m in range(1 << len(free)):
            a = dict(fixed)
            for i, x in enumerate(free): a[x] = bool(m >> i & 1)
            if not self.consistent(a): continue
            if self.ev(self.f, a) != self.ev(r, a):
                self.fail('return %s' % show(term)[:160], line, ex, 'not %s' % self.cond); return
    @staticmethod
    def consistent(a):
        for x, v in a.items():
            if not v or x.op != 'lt': continue
            if a.get(mk('lt', x.a[1], x.a[0])): return False
            if a.get(mk('eq', x.a[0], x.a[1])) or a.get(mk('eq', x.a[1], x.a[0])): return False
        return True
    def ev(self, t, a):
        if t is TRUE: return True
        if t is FALSE: return False
        if t.op == 'and': return self.ev(t.a[0], a) and self.ev(t.a[1], a)
        if t.op == 'or': return self.ev(t.a[0], a) or self.ev(t.a[1], a)
        if t.op == 'not': return not self.ev(t.a[0], a)
        return a[t]


class RETS(Clause):
    """every return is one of the listed forms"""
    def __init__(self, *rets, name=None):
        super().__init__(); self.rets = rets; self.name = name
        self.text = 'returns only %s' % ' | '.join(rets)
    def compile(self, m): self.rs = [RetPat(x, m) for x in self.rets]
    def exit(self, st, term, line, ex):
        self.hits += 1
        c = Ctx(st, ex, term)
        for r in self.rs:
            if r.match(term, c, {}) is not None: return
        self.fail('return %s' % show(term)[:160], line, ex, 'not one of the admitted results')


class E(Clause):
    """the status of every such call is honoured: an unsuccessful or untested one makes the function fail"""
    def __init__(self, call, name=None, boolean=False, via=None, ok=None, min=1, success=None):
        super().__init__(); self.call = call; self.name = name; self.boolean = boolean; self.via = via; self.okf = ok; self.minimum = min
        self.text = 'status of %s honoured' % call
        self.succ = success
    def compile(self, m):
        self.e = evpat(self.call, m)
        self.v = formula_did(self.via, m) if self.via else None
        self.o = formula(self.okf, m) if self.okf else FALSE
        self.s = RetPat(self.succ, m) if self.succ else None
    def events(self): return [self.e] + (dids(self.v, []) if self.v else []) + dids(self.o, [])
    def forms(self): return ([self.v] if self.v else []) + [self.o]
    def tracks(self, a):
        if self.boolean: return unify(self.e, a, {}) is not None
        if a.op == 'fld' and a.a[1] == 'ok': return unify(self.e, a.a[0], {}) is not None
        if a.op == 'eq' and a.a[0].op == 'fld' and a.a[0].a[1] == 'error_code': return unify(self.e, a.a[0].a[0], {}) is not None
        return False
    def exit(self, st, term, line, ex):
        c = Ctx(st, ex, term)
        for lab, t in st.trace:
            if lab == '@iter' or t.op != 'call': continue
            b = unify(self.e, t, {})
            if b is None: continue
            self.hits += 1
            if self.boolean: v = ex.known(t, st.lits)
            else: v = ex.known(mk('fld', t, 'ok'), st.lits)
            if v is True: continue
            if self.v is not None:
                if c.holds(self.v, b): continue
            else:
                if self.s is not None:
                    if self.s.match(term, c, b) is None: continue
                elif retkind(term, c) == 'err' or mentions(term, t): continue
            if c.holds(self.o, b): continue
            self.fail('%s -> return %s' % (show(t)[:160], show(term)[:80]), line, ex, 'status dropped')


class LK(Clause):
    """the event happens only while the lock is held"""
    def __init__(self, ev, lock, name=None, min=1):
        super().__init__(); self.ev = ev; self.lock = lock; self.name = name; self.minimum = min
        self.text = '%s only under %s' % (ev, lock)
    def compile(self, m):
        self.e = evpat(self.ev, m); l = pattern(expand(self.lock, m))
        self.l = mk('call', 'LOCK', NONE, l); self.u = mk('call', 'UNLOCK', NONE, l)
    def events(self): return [self.e, self.l, self.u]
    def event(self, kind, term, st, line, ex):
        b = unify(self.e, term, {})
        if b is None: return
        self.hits += 1
        held = False
        for lab, t in st.trace:
            if lab == '@iter': continue
            if unify(self.l, t, b) is not None: held = True
            elif unify(self.u, t, b) is not None: held = False
        if not held: self.fail(show(term)[:200], line, ex, 'lock %s not held' % self.lock)


class BAL(Clause):
    """every lock acquired is released on every exit (and never acquired twice)"""
    def __init__(self, lock='_', name=None, min=1):
        super().__init__(); self.lock = lock; self.name = name; self.minimum = min
        self.text = 'lock %s released at every exit' % lock
    def compile(self, m):
        l = pattern(expand(self.lock, m))
        self.l = mk('call', 'LOCK', NONE, l); self.u = mk('call', 'UNLOCK', NONE, l)
    def events(self): return [self.l, self.u]
    def event(self, kind, term, st, line, ex):
        if unify(self.l, term, {}) is None: return
        held = None
        for lab, t in st.trace:
            if lab == '@iter': continue
            if t is term: held = t
            elif held is not None and t.op == 'call' and t.a[0] == 'UNLOCK' and t.a[2] is term.a[2]: held = None
        if held is not None: self.fail('double ' + show(term)[:160], line, ex, 'lock taken twice')
    def exit(self, st, term, line, ex):
        held = {}
        for lab, t in st.trace:
            if lab == '@iter': continue
            if unify(self.l, t, {}) is not None: held[t.a[2]] = t; self.hits += 1
            elif unify(self.u, t, {}) is not None: held.pop(t.a[2], None)
        for t in held.values(): self.fail('held at exit ' + show(t)[:160], line, ex, 'lock still held at exit')


class ONCE(Clause):
    """the event happens exactly once (or at most once) on every path"""
    def __init__(self, ev, when=None, name=None, most=False, min=1, unless=None, ret='ANY'):
        super().__init__(); self.ev = ev; self.when = when; self.name = name; self.most = most; self.minimum = min; self.ret = ret
        self.text = '%s %s once' % (ev, 'at most' if most else 'exactly')
        self.unl = unless
    def compile(self, m):
        self.e = evpat(self.ev, m); self.f = formula(self.when, m)
        self.r = RetPat(self.ret, m)
    def events(self): return [self.e] + dids(self.f, [])
    def forms(self): return [self.f]
    def event(self, kind, term, st, line, ex):
        if unify(self.e, term, {}) is None: return
        self.hits += 1
        for lab, t in st.trace:
            if lab != '@iter' and unify(self.e, t, {}) is not None:
                self.fail('twice ' + show(term)[:160], line, ex, 'happens twice on one path'); return
    def exit(self, st, term, line, ex):
        if self.most: return
        c = Ctx(st, ex, term)
        if self.r.match(term, c, {}) is None: return
        if not c.possible(self.f, {}): return
        for lab, t in st.trace:
            if lab != '@iter' and unify(self.e, t, {}) is not None: return
        self.fail('missing at exit', line, ex, 'path without %s' % self.ev)


class RI(Clause):
    """every finished iteration over the container where `when` is not excluded has performed the event"""
    def __init__(self, cont, when, ev, how=('end',), name=None, min=1):
        super().__init__(); self.cont = cont; self.when = when; self.ev = ev; self.how = how; self.name = name; self.minimum = min
        self.text = 'each element of %s: if %s then %s' % (cont, when or 'true', ev)
    def compile(self, m):
        self.loops = {}
        self.c = pattern(expand(self.cont, m)); self.f = formula(self.when, m); self.e = formula_did(self.ev, m)
    def events(self): return dids(self.e, []) + dids(self.f, [])
    def forms(self): return [self.f, self.e]
    def iter(self, loop, cont, st, how, line, ex):
        if how not in self.how or cont is None: return
        b = unify(self.c, cont, {})
        if b is None: return
        c = Ctx(st, ex, None, after=('@iter', const('L%d' % loop.line)))
        if not c.possible(self.f, b): return
        good = bool(c.holds(self.e, b))
        if cont is LOOP:
            # a condition loop has no container to tell it apart: the rule speaks about the loops that hold the event
            l = self.loops.setdefault(loop.line, [0, False, None])
            l[0] += 1; l[1] = l[1] or good
            if not good: l[2] = (line, ex)
            return
        self.hits += 1
        if not good: self.fail('iteration of %s' % show(cont)[:100], line, ex, 'element done without %s' % self.ev)
    def end(self, ex):
        for n, seen, bad in self.loops.values():
            if not seen: continue
            self.hits += n
            if bad: self.fail('iteration', bad[0], bad[1], 'iteration done without %s' % self.ev)


class STOP(Clause):
    """an iteration may end this way only when the condition is known"""
    def __init__(self, cont, how, cond, name=None, min=1):
        super().__init__(); self.cont = cont; self.how = (how,) if isinstance(how, str) else how; self.cond = cond; self.name = name
        self.minimum = min
        self.text = 'loop over %s may %s only if %s' % (cont, '/'.join(self.how), cond)
    def compile(self, m): self.c = pattern(expand(self.cont, m)); self.f = formula(self.cond, m)
    def events(self): return dids(self.f, [])
    def forms(self): return [self.f]
    def iter(self, loop, cont, st, how, line, ex):
        if how not in self.how or cont is None: return
        b = unify(self.c, cont, {})
        if b is None: return
        c = Ctx(st, ex, None, after=('@iter', const('L%d' % loop.line)))
        self.hits += 1
        if not c.holds(self.f, b): self.fail('%s in loop over %s' % (how, show(cont)[:100]), line, ex, 'loop left without %s' % self.cond)


class THRU(Clause):
    """an element gets past the loops over its container only with the condition known: some loop checks it for every element"""
    def __init__(self, cont, conds, name=None, min=1):
        super().__init__(); self.cont = cont; self.conds = conds; self.name = name; self.minimum = min
        self.text = 'each element of %s passes only with %s' % (cont, ' and '.join(conds))
    def compile(self, m): self.loops = {}; self.c = pattern(expand(self.cont, m)); self.f = [formula(x, m) for x in self.conds]
    def events(self): return [d for f in self.f for d in dids(f, [])]
    def forms(self): return self.f
    def iter(self, loop, cont, st, how, line, ex):
        if how != 'end' or cont is None: return
        b = unify(self.c, cont, {})
        if b is None: return
        c = Ctx(st, ex, None, after=('@iter', const('L%d' % loop.line)))
        l = self.loops.setdefault((ex.curfile, loop.line), [[True] * len(self.f), line])
        for i, f in enumerate(self.f):
            if l[0][i] and not c.holds(f, b): l[0][i] = False
        self.ex = ex
    def end(self, ex):
        if not self.loops: return
        for i, t in enumerate(self.conds):
            self.hits += 1
            if not any(l[0][i] for l in self.loops.values()):
                self.fail('element', next(iter(self.loops.values()))[1], ex, 'element passes without %s' % t)


class GHOST(Clause):
    """a fact about the history that no variable need hold: set to the value when the event happens under the condition"""
    minimum = 1
    def __init__(self, gname, value, ev, cond, name=None):
        super().__init__(); self.g = gname; self.value = TRUE if value else FALSE; self.ev = ev; self.cond = cond; self.name = name
        self.text = 'ghost %s = %s at %s if %s' % (gname, value, ev, cond)
    def compile(self, m): self.e = evpat(self.ev, m); self.f = formula(self.cond, m)
    def events(self): return [self.e] + dids(self.f, [])
    def forms(self): return [self.f]
    def step(self, term, c):
        b = unify(self.e, term, {})
        if b is None: return None
        self.hits += 1
        if c.holds(self.f, b): return self.value
        return UNDECIDED if c.possible(self.f, b) else None


UNDECIDED = sym('UNDECIDED')


class DIR(Clause):
    """a loop over this container runs this way"""
    def __init__(self, cont, d, name=None):
        super().__init__(); self.cont = cont; self.d = d; self.name = name or 'direction ' + cont
        self.minimum = 0
        self.text = 'loop over %s runs %s' % (cont, d)
    def compile(self, m): self.c = pattern(expand(self.cont, m))
    def iter(self, loop, cont, st, how, line, ex):
        if cont is None or unify(self.c, cont, {}) is None: return
        self.hits += 1
        if ex.loopdir.get(loop.line) != self.d: self.fail('loop over %s' % show(cont)[:100], loop.line, ex, 'runs the other way')


LOOP = sym('LOOP')


class FnRule(Rule):
    def __init__(self, fn):
        self.fn = fn
        self.opaque = frozenset(fn.opaque); self.inline = frozenset(fn.inline)
        self.files = fn.files; self.params = fn.params
        self.lambda_calls = fn.lambda_calls; self.autoinline = fn.autoinline
        self.maxstates = fn.maxstates; self.widen = fn.widen; self.cut = fn.cut; self.until = fn.until
        self.maxdepth = fn.maxdepth; self.noout = fn.noout; self.cap = fn.cap
        self.evs = []
        ats = []
        for c in fn.clauses:
            for e in c.events():
                if e.op == 'alt': self.evs.extend(toevent(x) for x in e.a)
                else: self.evs.append(e)
            for f in c.forms(): atoms(f, ats)
        self.ats = list(dict.fromkeys(ats))
        self.errs = [c for c in fn.clauses if isinstance(c, E)]
        self.ghosts = [c for c in fn.clauses if isinstance(c, GHOST)]
        self.byhead = {}
        for e in dict.fromkeys(self.evs): self.byhead.setdefault(head(e), []).append(e)
        self.anyhead = self.byhead.pop(None, [])
        self.lsets = 'L' in self.byhead
        keys = set(fn.keys)
        for e in self.evs:
            evkeys(e, keys)
        for a in self.ats: termkeys(a, keys)
        self.keys = frozenset(keys)
        self._tc = {}
        self._lc = {}
    def track(self, a):
        r = self._tc.get(a)
        if r is None:
            r = any(unify_atom(p, a) for p in self.ats) or any(c.tracks(a) for c in self.errs)
            self._tc[a] = r
        return r
    def label(self, kind, term):
        if kind == 'lset' and not self.lsets: return None
        k = term
        r = self._lc.get(k)
        if r is None:
            r = False
            for e in self.byhead.get(head(term), ()):
                if unify(e, term, {}) is not None: r = True; break
            if not r:
                for e in self.anyhead:
                    if unify(e, term, {}) is not None: r = True; break
            self._lc[k] = r
        return 'e' if r else None
    def on_event(self, kind, term, st, line, lab, ex):
        for c in self.fn.clauses: c.event(kind, term, st, line, ex)
    def ghost(self, term, st, ex):
        c = Ctx(st, ex); new = {}
        for g in self.ghosts:
            v = g.step(term, c)
            if v is None: continue
            k = ('#', g.g)
            if v is UNDECIDED:
                if st.env.get(k, FALSE) is g.value or new.get(k) is g.value: continue
            new[k] = v
        for k, v in new.items(): st = st.setenv(k, v)
        return st
    def on_exit(self, st, term, line, ex):
        for c in self.fn.clauses: c.exit(st, term, line, ex)
    def on_iter(self, loop, cont, st, how, line, ex):
        if cont is None: cont = LOOP
        for c in self.fn.clauses: c.iter(loop, cont, st, how, line, ex)


def unify_atom(p, a):
    if unify(p, a, {}) is not None: return True
    # the sibling atoms the little theory can use
    if p.op in ('eq', 'lt'):
        q = (p.a[0], p.a[1])
        if a.op in ('eq', 'lt'):
            if a.op == 'lt' and (unify(mk('lt', *q), a, {}) is not None or unify(mk('lt', q[1], q[0]), a, {}) is not None): return True
            if a.op == 'eq' and unify(mk('eq', *q), a, {}) is not None: return True
            if is_constlike(q[1]) and is_constlike(a.a[1]) and q[0].op != 'wild' and unify(q[0], a.a[0], {}) is not None: return True
        if q[1].op == 'const' and unify(q[0], a, {}) is not None and q[0].op not in ('wild', 'var'): return True
    elif a.op in ('eq', 'lt') and a.a[1].op == 'const' and p.op not in ('wild', 'var') and unify(p, a.a[0], {}) is not None: return True
    elif p.op == 'fld' and p.a[1] == 'ok' and a.op == 'eq' and a.a[0].op == 'fld' and a.a[0].a[1] == 'error_code' and \
            unify(p.a[0], a.a[0].a[0], {}) is not None: return True
    return False


def head(e):
    if e.op == 'call': return e.a[0] if e.a[0] != '_' else None
    if e.op == 'set': return '='
    if e.op == 'lset': return 'L'
    return None


GENERIC = {'ok', 'size', 'empty', 'first', 'second', 'begin', 'end', 'push_back', 'insert', 'erase', 'clear', 'contains', 'find', 'LOCK',
           'UNLOCK', 'error_code', '_', 'DID', 'value', 'id', 'key', 'this', 'LOCK', 'OK', 'type', 'ret', 'status', 'request', 'response',
           'i', 'it', 'iter', 'region', 'ctx', 'lock', 'count', 'back', 'front', 'Id', 'keys', 'start_ts', 'range', 'elem',
           'errcode', 'true', 'false', 'nullptr', 'mutex_', 'append', 'get', 'start_key', 'end_key', 'end_ts', 'data', 'Valid', 'Next'}


def evkeys(e, keys):
    if e.op == 'call':
        if e.a[0] not in GENERIC: keys.add(e.a[0])
        if e.a[0] == 'LOCK' or e.a[0] in GENERIC: termkeys(e, keys)
        if e.a[0] == 'guard_exit' or e.a[0] == 'guard_release': keys.update(('ClosureGuard', 'Run', 'release'))
    elif e.op == 'set':
        l = e.a[0]
        if l.op == 'fld' and l.a[1] not in GENERIC: keys.update((l.a[1], 'set_' + l.a[1], 'mutable_' + l.a[1]))
        elif l.op == 'sym' and l.a[0] not in GENERIC: keys.add(l.a[0])
        elif l.op in ('fld', 'idx'): termkeys(l, keys)


def termkeys(t, keys):
    if t.op == 'call':
        if t.a[0] not in GENERIC: keys.add(t.a[0])
    elif t.op == 'fld':
        if t.a[1] not in GENERIC: keys.add(t.a[1])
    elif t.op == 'sym':
        if t.a[0] not in GENERIC: keys.add(t.a[0])
    for c in children(t): termkeys(c, keys)


class Fn:
    def __init__(self, file, qual, *clauses, n=None, m=None, keys=(), opaque=(), inline=(), files=(), lambda_calls=None, params=None,
                 maxstates=20000, maxdepth=5, pick=None, all=False, why='', init=None, autoinline=True, widen=False, cut=None, until=None, noout=(), cap=None):
        self.noout = noout; self.cap = cap; self.cut = cut; self.until = until
        self.autoinline = autoinline; self.widen = widen
        self.file = file; self.qual = qual; self.n = n; self.m = m or {}; self.keys = keys; self.opaque = opaque
        self.inline = inline; self.files = files; self.lambda_calls = lambda_calls or {}; self.params = params
        self.maxstates = maxstates; self.maxdepth = maxdepth; self.pick = pick; self.why = why; self.init = init
        self.clauses = []
        for c in clauses:
            if isinstance(c, (list, tuple)): self.clauses += list(c)
            else: self.clauses.append(c)
        self._fresh = False
    def compile(self):
        for i, c in enumerate(self.clauses):
            c.hits = 0; c.bad = {}
            try: c.compile(self.m)
            except Exception as e: raise ValueError('%s clause %d (%s): %s' % (self.qual, i, c.text, e))
            if c.name is None: c.name = '%s%d' % (c.__class__.__name__, i)
    def run(self, repo, rep):
        self.compile()
        f = repo.func(self.file, self.qual, self.n, pick=self.pick)
        rule = FnRule(self)
        ex = Explorer(repo, rule)
        ex.curfile = f.file
        ex.known_funcs = rep.known_funcs
        if not self.clauses: raise AnalysisBroken('no clauses for ' + self.qual)
        pn = self.params or rep.param_names(f)
        rule.params = pn
        ex.run(f, init=self.init)
        for c in self.clauses: c.end(ex)
        rep.add_fn(self, f, ex)
        for c in self.clauses:
            rep.obl(c.hits, len(c.bad))
            for k, (line, msg, fl) in c.bad.items():
                rep.violation(self.file, self.qual, c.name, k, line, '%s: %s [%s]' % (c.text, msg, k))
            if c.hits < c.minimum:
                rep.broken('%s %s: clause %s (%s) matched nothing' % (self.file, self.qual, c.name, c.text), absent=not isinstance(c, (N,)))


class Custom:
    """a rule given as a python function (repo, report)"""
    def __init__(self, fn, desc): self.fn = fn; self.desc = desc
    def run(self, repo, rep):
        n0 = rep.obligations
        self.fn(repo, rep)
        rep.customs.append(self.desc)
        if rep.obligations == n0: rep.broken('%s matched nothing' % self.desc)
