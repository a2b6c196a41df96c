"""Path explorer: walks every path of a function with canonical values.

States carry an environment (canonical value of every local), a heap (fields of non-local objects), the truth of the
conditions the rule tracks, and a trace of the events the rule asked for.  States equal in all of these are merged, so
the exploration is a fixpoint over a finite product (no solver; infeasible paths are cut only by remembered truths).
"""
import re, sys
from .term import *
from .term import T
from .cxx import E
from .repo import AnalysisBroken, idents, ekey, walk

sys.setrecursionlimit(20000)

LOGS = {'DINGO_LOG', 'LOG', 'VLOG', 'DINGO_LOG_IF', 'LOG_IF', 'DLOG', 'LOG_EVERY_N', 'LOG_EVERY_SECOND', 'PLOG', 'DVLOG',
        'BRAFT_VLOG', 'DINGO_LOG_EVERY_N', 'DINGO_LOG_EVERY_SECOND'}
CHECKS = {'CHECK': None, 'DCHECK': None, 'CHECK_EQ': '==', 'CHECK_NE': '!=', 'CHECK_LT': '<', 'CHECK_LE': '<=',
          'CHECK_GT': '>', 'CHECK_GE': '>=', 'CHECK_NOTNULL': None, 'DCHECK_EQ': '==', 'DCHECK_GT': '>', 'DCHECK_GE': '>=',
          'DCHECK_LT': '<', 'DCHECK_LE': '<='}
PASS = {'BAIDU_LIKELY', 'BAIDU_UNLIKELY', 'move', 'forward', 'ref', 'cref', 'as_const', 'const_cast', 'static_cast',
        'dynamic_cast', 'reinterpret_cast', 'dynamic_pointer_cast', 'static_pointer_cast', '__builtin_expect', 'addressof',
        'implicit_cast', 'LIKELY', 'UNLIKELY', 'likely', 'unlikely'}
SCOPED_LOCK = {'BAIDU_SCOPED_LOCK'}
LOCK_GUARDS = {'lock_guard', 'unique_lock', 'scoped_lock', 'shared_lock', 'RWLockReadGuard', 'RWLockWriteGuard'}
SCALAR = {'int', 'long', 'short', 'char', 'bool', 'float', 'double', 'unsigned', 'signed', 'size_t', 'int64_t', 'int32_t',
          'uint64_t', 'uint32_t', 'uint8_t', 'int8_t', 'uint16_t', 'int16_t', 'string', 'string_view', 'auto', 'Slice', 'ssize_t',
          'time_t', 'off_t'}
NARROW = {'int', 'int32_t', 'uint32_t', 'unsigned', 'unsigned int', 'uint8_t', 'int8_t', 'uint16_t', 'int16_t', 'char', 'short',
          'float', 'unsigned char', 'unsigned short', 'signed char'}
ITMOVE = {'Next', 'Prev', 'Seek', 'SeekForPrev', 'next'}
MUT = {'push_back', 'push_front', 'pop_back', 'pop_front', 'push', 'pop', 'insert', 'erase', 'clear', 'emplace', 'emplace_back',
       'insert_or_assign', 'swap', 'assign', 'append', 'resize', 'reset', 'Next', 'next', 'Prev', 'Seek', 'SeekToFirst', 'SeekToLast',
       'SeekForPrev', 'Clear', 'MergeFrom', 'CopyFrom', 'ParseFromString', 'ParseFromArray', 'Swap', 'remove_prefix',
       'try_emplace', 'emplace_front', 'Add', 'RemoveLast', 'DeleteSubrange', 'AddAllocated', 'fetch_add', 'fetch_sub', 'next', 'release', 'merge', 'reserve', 'remove_suffix'}
HAVOC = {'bthread_cond_wait', 'bthread_cond_timedwait', 'bthread_usleep', 'pthread_cond_wait'}
PURE_STMT = {'reserve', 'shrink_to_fit'}
ALG = {'for_each', 'any_of', 'all_of', 'none_of', 'find_if', 'count_if'}


class TooBig(AnalysisBroken):
    pass


def lastname(n):
    i = n.rfind('::')
    return n[i + 2:] if i >= 0 else n


def base_type(ty):
    s = ty.replace('const ', ' ').replace('static ', ' ').replace('constexpr ', ' ').replace('thread_local ', ' ').strip()
    s = s.rstrip('&* ').strip()
    j = s.find('<')
    if j >= 0: s = s[:j]
    return lastname(s.strip())


def num_text(s):
    t = s.replace("'", '')
    low = t.lower()
    try:
        if low.startswith('0x'):
            return str(int(low.rstrip('ul'), 16))
        if '.' in low or ('e' in low and not low.startswith('0x')):
            return t
        b = low.rstrip('ulz')
        if b.startswith('0b'): return str(int(b, 2))
        if len(b) > 1 and b.startswith('0'): return str(int(b, 8))
        return str(int(b))
    except ValueError:
        return t


def is_constlike(t):
    if t.op == 'const' or t.op == 'OK' or t.op == 'status': return True
    if t.op == 'sym':
        n = t.a[0]
        if n.startswith('FLAGS_'): return False
        return n[:1].isupper() or (len(n) > 1 and n[0] == 'k' and n[1].isupper())
    return False


def bnot(t):
    if t is TRUE: return FALSE
    if t is FALSE: return TRUE
    if t.op == 'not': return t.a[0]
    return mk('not', t)


BOOLOPS = {'lt', 'eq', 'not', 'and', 'or'}


def truth(t):
    if t.op == 'const':
        s = t.a[0]
        if s in ('true', 'false'): return t
        if is_num(t): return FALSE if int(s) == 0 else TRUE
        return TRUE
    if t.op in ('init',): return t
    if t.op == 'fld' and t.a[1] == 'size': return bnot(mk('fld', t.a[0], 'empty'))
    if t.op == 'fld' and t.a[1] == 'has_value': return t.a[0]
    if t.op == 'call' and t.a[0] == 'count' and len(t.a) == 3 and t.a[1] is not NONE:
        return mk('call', 'contains', t.a[1], t.a[2])
    if t.op in ('lam', 'found', 'str'): return TRUE
    return t


def mklt(a, b):
    """a < b"""
    if a is b: return FALSE
    if is_num(a) and is_num(b): return TRUE if int(a.a[0]) < int(b.a[0]) else FALSE
    if a.op == 'call' and a.a[0] == 'compare' and len(a.a) == 3 and b is NULL: return mklt(a.a[1], a.a[2])
    if b.op == 'call' and b.a[0] == 'compare' and len(b.a) == 3 and a is NULL: return mklt(b.a[2], b.a[1])
    if is_num(a):   # c < x  <=>  !(x < c+1)
        return bnot(mklt(b, const(int(a.a[0]) + 1)))
    if b.op == 'const' and b.a[0] == '1' and a.op == 'fld' and a.a[1] == 'size': return mk('fld', a.a[0], 'empty')
    return mk('lt', a, b)


def mkeq(a, b):
    if a is b: return TRUE
    for x, y in ((a, b), (b, a)):
        if y.op == 'const':
            if y.a[0] == 'true': return truth(x)
            if y.a[0] == 'false' or y.a[0] == '0':
                if x.op == 'call' and x.a[0] == 'compare' and len(x.a) == 3: return mkeq(x.a[1], x.a[2])
                return bnot(truth(x))
        if y.op == 'fld' and y.a[1] in ('end', 'cend', 'rend'):
            if x.op == 'call' and x.a[0] == 'find' and len(x.a) == 3 and x.a[1] is not NONE:
                return bnot(mk('call', 'contains', x.a[1], x.a[2]))
            if x.op == 'found': return FALSE
        if y.op == 'sym' and y.a[0] == 'nullopt': return bnot(truth(x))
    if is_constlike(a) and is_constlike(b):
        if a.op == b.op: return FALSE
    if b.op in ('const',) or (is_constlike(b) and not is_constlike(a)): pass
    elif is_constlike(a): a, b = b, a
    elif show(a) > show(b): a, b = b, a
    return mk('eq', a, b)


def cmp_term(op, a, b):
    if op == '==': return mkeq(a, b)
    if op == '!=': return bnot(mkeq(a, b))
    if op == '<': return mklt(a, b)
    if op == '>': return mklt(b, a)
    if op == '<=': return bnot(mklt(b, a))
    if op == '>=': return bnot(mklt(a, b))
    raise ValueError(op)


def mkbin(op, a, b):
    if op in ('+', '-') and is_num(a) and is_num(b):
        return const(int(a.a[0]) + int(b.a[0]) if op == '+' else int(a.a[0]) - int(b.a[0]))
    if op == '*' and is_num(a) and is_num(b): return const(int(a.a[0]) * int(b.a[0]))
    if op == '<<' and is_num(a) and is_num(b): return const(int(a.a[0]) << int(b.a[0]))
    if op == '-' and is_num(b): return mkbin('+', a, const(-int(b.a[0])))
    if op == '+' and is_num(a): a, b = b, a
    if op == '+' and is_num(b):
        if int(b.a[0]) == 0: return a
        if a.op == 'bin' and a.a[0] == '+' and is_num(a.a[2]):
            return mkbin('+', a.a[1], const(int(a.a[2].a[0]) + int(b.a[0])))
    if op in ('*', '&', '|', '^'):
        if is_num(a) and not is_num(b): a, b = b, a
        elif not is_num(b) and show(a) > show(b): a, b = b, a
    return mk('bin', op, a, b)


class St:
    __slots__ = ('env', 'heap', 'lits', 'trace', '_k')
    def __init__(self, env, heap, lits, trace):
        self.env = env; self.heap = heap; self.lits = lits; self.trace = trace
        self._k = None
    def key(self):
        if self._k is None:
            self._k = (frozenset(self.env.items()), frozenset(self.heap.items()), frozenset(self.lits.items()), self.trace)
        return self._k
    def setenv(self, k, v):
        if self.env.get(k) is v: return self
        e = dict(self.env); e[k] = v
        return St(e, self.heap, self.lits, self.trace)
    def dropenv(self, ks):
        if not any(k in self.env for k in ks): return self
        e = dict(self.env)
        for k in ks: e.pop(k, None)
        return St(e, self.heap, self.lits, self.trace)
    def setlit(self, a, v):
        l = dict(self.lits); l[a] = v
        return St(self.env, self.heap, l, self.trace)
    def withheap(self, h): return St(self.env, h, self.lits, self.trace)
    def withlits(self, l): return St(self.env, self.heap, l, self.trace)
    def withtrace(self, t): return St(self.env, self.heap, self.lits, t)


class Out:
    __slots__ = ('nxt', 'brk', 'cont', 'rets', 'gotos')
    def __init__(self, nxt=None):
        self.nxt = nxt if nxt is not None else []
        self.brk = []; self.cont = []; self.rets = []; self.gotos = []


def dedupe(sts):
    if len(sts) < 2: return sts
    seen = set(); out = []
    for s in sts:
        k = s.key()
        if k not in seen: seen.add(k); out.append(s)
    return out


def dedupe_rets(rets):
    if len(rets) < 2: return rets
    seen = set(); out = []
    for s, t, ln in rets:
        k = (s.key(), t, ln)
        if k not in seen: seen.add(k); out.append((s, t, ln))
    return out


NOTVAL = re.compile(r'auto|_ptr|Ptr\b|iterator|\b(char|bool|int|long|double|float)\b|Type\b')
class Frame:
    __slots__ = ('fid', 'func', 'cls', 'unit', 'recv', 'scopes', 'depth', 'multi', 'pattern', 'base')
    def key(self, name):
        for sc in reversed(self.scopes):
            k = sc.get(name)
            if k is not None: return k
        return None


INOUT = ('PackageValue',)      # calls that transform the argument they write


class Rule:
    """Interface used by the explorer (see rules)."""
    opaque = frozenset()
    inline = frozenset()
    keys = frozenset()
    maxstates = 6000
    noout = ()
    cap = None
    widen = False
    cut = None
    until = None
    ghosts = ()
    maxdepth = 5
    files = ()
    lambda_calls = {}
    autoinline = True
    def track(self, atom): return False
    def label(self, kind, term): return None
    def on_event(self, kind, term, st, line, label, ex): pass
    def on_exit(self, st, term, line, ex): pass
    def on_iter(self, loop, cont, st, how, line, ex): pass


def lastidx(i, v):
    """index of a loop that counts a container down"""
    neg = False
    if i.op == 'bin' and i.a[0] == '+' and i.a[2] is const(-1): i = i.a[1]; neg = True
    if i.op != 'lv' or i.a[1] != '--': return False
    b = i.a[0]
    if not neg and b.op == 'bin' and b.a[0] == '+' and b.a[2] is const(-1): b = b.a[1]
    elif not neg: return False
    return b.op == 'fld' and b.a[1] == 'size' and b.a[0] is v


class Explorer:
    def __init__(self, repo, rule):
        self.repo = repo
        self.rule = rule
        self.fidn = 0
        self.npaths = 0
        self.nstates = 0
        self.inlined = set()
        self.opaque_stmts = []
        self.outkeys = {}
        self.refkeys = set()
        self.loopids = []
        self.valkeys = set()
        self._multi = {}
        self._readn = set()
        self._lams = {}
        self.loopdir = {}
        self._mention = {}
        self._liv = {}
        self.trackmulti = True

    # ---------------------------------------------------------------- frames
    def newframe(self, func, cls, unit, recv, depth):
        fr = Frame()
        self.fidn += 1
        fr.fid = func.qual() if func is not None and depth == 0 else self.fidn
        fr.func = func; fr.cls = cls; fr.unit = unit; fr.recv = recv; fr.scopes = [{}]; fr.depth = depth
        fr.multi = self.multi(func) if func is not None else frozenset()
        fr.pattern = False
        fr.base = None
        return fr

    def multi(self, func):
        m = self._multi.get(id(func))
        if m is None:
            cnt = {}
            for x in walk(func.body()):
                if x.k in ('if', 'while'):
                    self.cond_leaves(x.a[1] if x.k == 'if' else x.a[0], cnt)
            m = frozenset(k for k, n in cnt.items() if n > 1)
            self._multi[id(func)] = m
            for x in walk(func.body()):
                if x.k == 'mem': self._readn.add(x.a[1])
            if func.opaque: self.opaque_stmts += [(func.file,) + o for o in func.opaque]
        return m

    def cond_leaves(self, e, cnt):
        if e is None: return
        if e.k == 'bin' and e.a[0] in ('&&', '||'):
            self.cond_leaves(e.a[1], cnt); self.cond_leaves(e.a[2], cnt); return
        if e.k == 'un' and e.a[0] == '!': self.cond_leaves(e.a[1], cnt); return
        if e.k == 'call' and e.a[0].k == 'name' and e.a[0].a[0] in PASS and len(e.a[1]) == 1:
            self.cond_leaves(e.a[1][0], cnt); return
        if e.k == 'bin' and e.a[0] in ('==', '!='):
            k = ('==', ekey(e.a[1]), ekey(e.a[2]))
        else: k = ekey(e)
        cnt[k] = cnt.get(k, 0) + 1

    # ---------------------------------------------------------------- entry
    def run(self, func, init=None):
        unit = self.repo.unit(func.file)
        fr = self.newframe(func, func.cls, unit, None, 0)
        st = St({}, {}, {}, ())
        names = getattr(self.rule, 'params', None)
        for i, (n, ty, _) in enumerate(func.params):
            if not n: continue
            cn = n
            if names and n not in names and i < len(names) and len(names) == len(func.params) and \
                    names[i] not in [p[0] for p in func.params]:
                cn = names[i]
            k = (fr.fid, n, 0)
            fr.scopes[0][n] = k
            st.env[k] = sym(cn)
            if ('&' in ty and not ty.startswith('const')) or '*' in ty or 'Ptr' in ty or 'shared_ptr' in ty:
                self.outkeys[k] = sym(cn)
        if init: st = init(self, st, fr)
        sts = [st]
        for (nm, q, cc) in func.inits:
            # member initialiser  name(args)
            from .cxx import Parser
            p = Parser(func.toks, q + 1, cc)
            args = []
            while p.i < cc:
                args.append(p.init_or_assign())
                if not p.accept(','): break
            nst = []
            for s in sts:
                if len(args) == 1:
                    for v, s2 in self.eval(args[0], s, fr):
                        nst.append(self.assign(('term', self.member(nm, fr)), v, s2, fr, func.line))
                else: nst.append(s)
            sts = nst
        out = self.exec(func.body(), sts, fr)
        for s in out.nxt:
            self.npaths += 1
            self.rule.on_exit(s, mk('void'), func.endline, self)
        for (s, t, ln) in dedupe_rets(out.rets):
            self.npaths += 1
            self.rule.on_exit(s, t, ln, self)
        return out

    # ---------------------------------------------------------------- events
    def event(self, kind, term, st, line):
        if kind == 'lset': term = mk('lset', term.a[1])
        lab = self.rule.label(kind, term)
        if lab is None: return st
        self.rule.on_event(kind, term, st, line, lab, self)
        if self.rule.ghosts: st = self.rule.ghost(term, st, self)
        ent = (lab, term)
        tr = st.trace
        if tr and tr[-1] == ent: return st
        if ent in tr: tr = tuple(x for x in tr if x != ent)
        return st.withtrace(tr + (ent,))

    # ---------------------------------------------------------------- statements
    def exec(self, s, sts, fr):
        k = s.k
        if not sts: return Out()
        self.nstates += len(sts)
        m = getattr(self, 'x_' + k, None)
        if m is None: raise AnalysisBroken('statement kind %s' % k)
        return m(s, sts, fr)

    def x_empty(self, s, sts, fr): return Out(sts)

    def x_opaque(self, s, sts, fr):
        return Out(sts)

    def x_block(self, s, sts, fr):
        fr.scopes.append({})
        o = self.exec_list(s.a[0], sts, fr)
        sc = fr.scopes.pop()
        if sc:
            ks = list(sc.values())
            o.nxt = dedupe([x.dropenv(ks) for x in o.nxt])
            o.brk = dedupe([x.dropenv(ks) for x in o.brk])
            o.cont = dedupe([x.dropenv(ks) for x in o.cont])
            o.rets = dedupe_rets([(x.dropenv(ks), t, ln) for x, t, ln in o.rets])
        return o

    def liv(self, stmts):
        """for each index: names whose last mention in this list is there."""
        r = self._liv.get(id(stmts))
        if r is None or r[0] is not stmts:
            last = {}
            keep = set()
            for i, s in enumerate(stmts):
                for n in idents(s): last[n] = i
                for x in walk(s):
                    if x.k == 'decl':
                        for (n, ty, ini) in x.a[0]:
                            if ini is not None and ('&' in ty or '*' in ty): keep |= idents(ini)
                            if ini is not None:
                                for y in walk(ini):
                                    if y.k == 'un' and y.a[0] == '&': keep |= idents(y)
                                    if y.k == 'lambda': keep |= idents(y)
                    elif x.k == 'rfor' and '&' in x.a[1]: keep |= idents(x.a[2])
                    elif x.k == 'call' and x.a[0].k == 'name' and x.a[0].a[0] in ('DEFER', 'ON_SCOPE_EXIT'): keep |= idents(x)
                    elif x.k == 'ctor' and base_type(x.a[0]) in ('ScopeGuard',): keep |= idents(x)
            dead = {}
            for n, i in last.items():
                if n not in keep: dead.setdefault(i, []).append(n)
            r = (stmts, dead)
            self._liv[id(stmts)] = r
        return r[1]

    def exec_list(self, stmts, sts, fr):
        out = Out()
        dead = self.liv(stmts)
        cur = sts
        defers = []          # (index, fn)
        pend = {}            # label -> states
        i = 0
        n = len(stmts)
        labels = {x.a[0]: j for j, x in enumerate(stmts) if x.k == 'label'}
        guard = 0
        mydefers = []
        done_rets = []
        while i < n:
            s = stmts[i]
            if s.k == 'label' and s.a[0] in pend:
                cur = dedupe(cur + pend.pop(s.a[0]))
            if cur:
                d = self.defer_of(s, fr)
                if d is not None:
                    # everything collected so far leaves without this deferred action
                    o = self.exec_list_tail(stmts, i + 1, d[0](cur), fr, labels)
                    fin = lambda xs: [y for x in xs for y in d[1]([x])]
                    out.nxt += fin(o.nxt); out.brk += fin(o.brk); out.cont += fin(o.cont)
                    out.gotos += [(y, l) for x, l in o.gotos for y in d[1]([x])]
                    for x, t, ln in o.rets:
                        out.rets += [(y, t, ln) for y in d[1]([x])]
                    out.nxt = dedupe(out.nxt)
                    return out
                if self.rule.until and s.k == 'decl' and not idents(s).isdisjoint(self.rule.until):
                    # the contract is about the part before this point only
                    out.rets += [(x, mk('until'), s.line) for x in cur]
                    cur = []; i += 1
                    continue
                o = self.exec(s, cur, fr)
                out.brk += o.brk; out.cont += o.cont; out.rets += o.rets
                for (x, l) in o.gotos:
                    if l in labels and labels[l] > i: pend.setdefault(l, []).append(x)
                    else: out.gotos.append((x, l))
                cur = dedupe(o.nxt)
                if self.rule.cut and len(cur) > 1 and s.k == 'decl' and not idents(s).isdisjoint(self.rule.cut): cur = self.widen(cur, {}, True)
                if self.rule.cap and len(cur) > self.rule.cap and not self.loopids and s.k == 'if': cur = self.widen(cur, {}, True)
                dd = dead.get(i)
                if dd and cur and fr.scopes:
                    top = fr.scopes[-1]
                    ks = [top[x] for x in dd if x in top and top[x] not in self.outkeys]
                    if ks: cur = dedupe([x.dropenv(ks) for x in cur])
                if len(cur) > self.rule.maxstates:
                    raise TooBig('too many states at %s:%d' % (fr.func.file if fr.func else '?', s.line))
            i += 1
        out.nxt = cur + out.nxt
        return out

    def exec_list_tail(self, stmts, i, sts, fr, labels):
        return self.exec_list(stmts[i:], sts, fr)

    def defer_of(self, s, fr):
        """RAII statement: returns (enter, leave) functions on state lists, or None."""
        if s.k == 'expr' and s.a[0].k == 'call' and s.a[0].a[0].k == 'name':
            nm = s.a[0].a[0].a[0]
            a = s.a[0].a[1]
            ln = s.line
            if nm == 'DEFER' and a:
                def leave(sts):
                    if a[0].k == 'stmtarg': return self.exec(a[0].a[0], sts, fr).nxt
                    return [y for x in sts for _, y in self.eval(a[0], x, fr)]
                return (lambda sts: sts), leave
            if nm == 'ON_SCOPE_EXIT' and a and a[0].k == 'lambda':
                return (lambda sts: sts), (lambda sts: [y for o in [self.exec(a[0].a[2], sts, fr)] for y in o.nxt + [r[0] for r in o.rets]])
            if nm in SCOPED_LOCK and a:
                return self.lockpair(a[0], fr, ln)
        if s.k == 'decl' and len(s.a[0]) == 1:
            n, ty, ini = s.a[0][0]
            bt = base_type(ty)
            if ini is not None and ini.k == 'ctor' and ini.a[1]:
                if bt in LOCK_GUARDS:
                    p = self.lockpair(ini.a[1][0], fr, s.line)
                    k = (fr.fid, n, s.line)
                    fr.scopes[-1][n] = k
                    return p
                if bt == 'ScopeGuard' and ini.a[1][0].k == 'lambda':
                    lam = ini.a[1][0]
                    k = (fr.fid, n, s.line)
                    def enter(sts):
                        fr.scopes[-1][n] = k
                        return [x.setenv(k, mk('obj', 'ScopeGuard', n, ())) for x in sts]
                    def leave(sts):
                        r = []
                        for x in sts:
                            v = x.env.get(k)
                            if v is not None and v.op == 'released': r.append(x); continue
                            o = self.exec(lam.a[2], [x], fr)
                            r += o.nxt + [q[0] for q in o.rets]
                        return r
                    return enter, leave
                if bt in ('ClosureGuard', 'AtomicGuard'):
                    k = (fr.fid, n, s.line)
                    def enter(sts):
                        r = []
                        for x in sts:
                            for v, y in self.eval(ini.a[1][0], x, fr):
                                r.append(self.event('call', mk('call', 'guard_enter', NONE, v), y.setenv(k, mk('guard', bt, v)), s.line))
                        fr.scopes[-1][n] = k
                        return r
                    def leave(sts):
                        r = []
                        for x in sts:
                            v = x.env.get(k)
                            if v is not None and v.op == 'guard' and v.a[1] is not NULL:
                                x = self.event('call', mk('call', 'guard_exit', NONE, v.a[1]), x, s.line)
                            r.append(x)
                        return r
                    return enter, leave
        return None

    def lockpair(self, arg, fr, ln):
        def enter(sts):
            return [self.event('call', mk('call', 'LOCK', NONE, v), y, ln) for x in sts for v, y in self.eval(arg, x, fr)]
        def leave(sts):
            return [self.event('call', mk('call', 'UNLOCK', NONE, v), y, ln) for x in sts for v, y in self.eval(arg, x, fr)]
        return enter, leave

    def x_expr(self, s, sts, fr):
        e = s.a[0]
        r = []
        # logging statements
        lc = self.leftmost_call(e)
        if lc is not None:
            nm = lc.a[0].a[0]
            if nm in LOGS:
                if lc.a[1] and lc.a[1][0].k in ('name',) and lc.a[1][0].a[0] == 'FATAL':
                    if nm.endswith('_IF'):
                        for st in sts:
                            for b, s2 in self.cond(lc.a[1][1], st, fr):
                                if not b: r.append(s2)
                        return Out(r)
                    for st in sts: self.event('call', mk('call', 'FATAL', NONE), st, s.line)
                    return Out()
                return Out(sts)
            if nm in CHECKS:
                op = CHECKS[nm]
                for st in sts:
                    if op is None:
                        if lc.a[1] and lc.a[1][0].k != 'raw':
                            for b, s2 in self.cond(lc.a[1][0], st, fr):
                                if b: r.append(s2)
                    else:
                        for b, s2 in self.cond(E('bin', (op, lc.a[1][0], lc.a[1][1]), s.line), st, fr):
                            if b: r.append(s2)
                return Out(dedupe(r))
            if nm == 'assert': return Out(sts)
        for st in sts:
            for v, s2 in self.eval(e, st, fr, stmt=True):
                if v.op != 'abort': r.append(s2)
        return Out(r)

    def leftmost_call(self, e):
        while True:
            if e.k == 'bin' and e.a[0] == '<<': e = e.a[1]
            elif e.k == 'call' and e.a[0].k == 'name': return e
            else: return None

    def x_decl(self, s, sts, fr):
        cur = sts
        for (n, ty, ini) in s.a[0]:
            nxt = []
            bt = base_type(ty)
            if isinstance(n, tuple):
                for st in cur:
                    for v, s2 in self.eval(ini, st, fr) if ini is not None else [(NONE, st)]:
                        if v.op == 'abort': continue
                        for i, x in enumerate(n[1:]):
                            k = (fr.fid, x, s.line)
                            fr.scopes[-1][x] = k
                            s2 = s2.setenv(k, self.nth(v, i, s2))
                        nxt.append(s2)
                cur = nxt
                continue
            k = (fr.fid, n, s.line)
            isref = ('&' in ty or '*' in ty or ty.startswith('auto*'))
            if '&' in ty and '*' not in ty and not ty.startswith('const') and ini is not None: self.refkeys.add(k)
            if not isref and bt not in SCALAR and not NOTVAL.search(ty): self.valkeys.add(k)
            cleared = not isref and ini is not None and bt not in SCALAR and ini.k in ('name', 'mem', 'un') and fr.func is not None and self.cleared(fr.func, n)
            for st in cur:
                if ini is None:
                    if bt in SCALAR:
                        v = mk('str0') if bt in ('string', 'string_view') else mk('uninit', n)
                    elif bt == 'Status': v = OK
                    elif '*' in ty: v = mk('uninit', n)
                    else: v = mk('obj', bt, self.rolename(fr, n, bt), ())
                    if bt in ('string', 'string_view'): v = mk('obj', 'string', n, ())
                    nxt.append((k, v, st))
                    continue
                if ini.k == 'ctor':
                    for v, s2 in self.ctor(ty, bt, n, ini.a[1], st, fr, s.line, brace=len(ini.a) > 2):
                        if v.op != 'abort': nxt.append((k, v, s2))
                    continue
                if isref and ini.k not in ('call', 'new', 'cond', 'lambda') or (ini.k == 'un' and ini.a[0] == '&') or \
                        (isref and ini.k == 'call' and ini.a[0].k == 'mem' and ini.a[0].a[1].startswith('mutable_') and not ini.a[1]):
                    done = True
                    for l, s2 in self.lval(ini, st, fr):
                        if l[0] == 'var' and not ty.startswith('const'):
                            nxt.append((k, mk('alias', l[1], l[2]), s2))
                        elif l[0] == 'var':
                            nxt.append((k, self.readl(l, s2), s2))
                        else: nxt.append((k, self.readl(l, s2), s2))
                    continue
                if ini.k == 'init' and not ini.a[0]:
                    vs = self.evals(ini.a[1], st, fr)
                    for a, s2 in vs:
                        if bt in SCALAR and len(a) == 1: nxt.append((k, a[0], s2))
                        elif bt in SCALAR and not a: nxt.append((k, NULL, s2))
                        elif not a: nxt.append((k, OK if bt == 'Status' else mk('obj', bt, self.rolename(fr, n, bt), ()), s2))
                        else: nxt.append((k, mk('init', *a), s2))
                    continue
                if self.rule.widen == 'join' and bt == 'bool' and ini.k in ('bin', 'call', 'un'):
                    # decided here: a later call may change what the operands show
                    nxt += [(k, TRUE if b else FALSE, s2) for b, s2 in self.cond(ini, st, fr)]
                    continue
                for v, s2 in self.eval(ini, st, fr):
                    if v.op != 'abort': nxt.append((k, mk('old', v) if cleared and v.op in ('out', 'fld', 'elem', 'call', 'sym') else v, s2))
            fr.scopes[-1][n] = k
            cur = dedupe([st.setenv(kk, self.rename_obj(v, bt, n)) for kk, v, st in nxt])
        return Out(cur)

    # ---------------------------------------------------------------- roles of local containers
    ROLED = ('vector', 'map', 'set', 'unordered_map', 'unordered_set', 'list', 'deque', 'queue', 'multimap')
    _roles = {}
    def roles(self, func, depth=0):
        """what a function does with its locals and parameters: 'callee:argument' for every repository function they are handed to,
        'each:CF' when their elements fill the part of a write request that names column family CF"""
        key = (id(func), bool(self.known_funcs))
        r = self._roles.get(key)
        if r is not None and r[1] is func: return r[0]
        r = {}
        self._roles[key] = (r, func)
        if depth > 4: return r
        unit = self.repo.unit(func.file)
        body = func.body()
        calls = [x for x in walk(body) if x.k == 'call']
        cf = {}
        for x in calls:
            if x.a[0].k == 'mem' and x.a[0].a[1] == 'set_cf_name' and x.a[0].a[0].k == 'name' and x.a[1]:
                cf[x.a[0].a[0].a[0]] = lastname_of(x.a[1][0])
        def strip(a):
            while True:
                if a.k == 'un' and a.a[0] in ('&', '*'): a = a.a[1]
                elif a.k == 'call' and a.a[0].k == 'name' and a.a[0].a[0].split('::')[-1] in ('move', 'ref', 'cref', 'forward') and len(a.a[1]) == 1: a = a.a[1][0]
                else: break
            return a.a[0] if a.k == 'name' else None
        for x in calls:
            cn = x.a[0].a[1] if x.a[0].k == 'mem' else x.a[0].a[0].split('::')[-1] if x.a[0].k == 'name' else None
            if cn is None or cn not in self.repo.sigs: continue
            g = [f for f in self.byname(unit).get(cn, ()) if len(f.params) >= len(x.a[1]) and self.is_new(f)]
            for i, a in enumerate(x.a[1]):
                v = strip(a)
                if v is None: continue
                if len(g) == 1:
                    pn = [q[0] for q in g[0].params]
                    for ro in self.roles(g[0], depth + 1).get(pn[i], ()):
                        h, _, t = ro.partition(':')
                        if h == 'each' and t in pn and pn.index(t) < len(x.a[1]): ro = 'each:' + (lastname_of(x.a[1][pn.index(t)]) or '?')
                        r.setdefault(v, set()).add(ro)
                else: r.setdefault(v, set()).add('%s:%d' % (cn, i))
        for x in walk(body):
            if x.k == 'rfor': vs = idents(x.a[2]); b = x.a[3]
            elif x.k == 'for': vs = idents(x.a[1]) if x.a[1] is not None else set(); b = x.a[3]
            elif x.k == 'while': vs = idents(x.a[0]); b = x.a[1]
            else: continue
            if b is None: continue
            ws = {cf[y.a[0].a[0].a[0]] for y in walk(b) if y.k == 'call' and y.a[0].k == 'mem' and y.a[0].a[0].k == 'name' and y.a[0].a[0].a[0] in cf}
            for v in vs:
                for w in ws: r.setdefault(v, set()).add('each:' + str(w))
        return r

    def rolename(self, fr, n, bt):
        if bt not in self.ROLED or fr.func is None: return n
        ro = self.roles(fr.func).get(n)
        return n + '@' + '@'.join(sorted(ro)) + '@' if ro else n

    _clr = {}
    def cleared(self, func, n):
        """the function calls n.clear_<field>(): the local is a copy that diverges from its source"""
        r = self._clr.get(id(func))
        r = r[0] if r is not None and r[1] is func else None
        if r is None:
            r = set()
            for x in walk(func.body()):
                if isinstance(x, E) and x.k == 'call' and x.a[0].k == 'mem' and x.a[0].a[1].startswith('clear_') and x.a[0].a[0].k == 'name':
                    r.add(x.a[0].a[0].a[0])
            self._clr[id(func)] = (r, func)
        return n in r

    def rename_obj(self, v, bt, n):
        return v

    def nth(self, v, i, st):
        if v.op == 'init': return v.a[i] if i < len(v.a) else NONE
        return self.mkfld(v, ('first', 'second', 'third', 'fourth')[i] if i < 4 else 'n%d' % i, st)

    def ctor(self, ty, bt, n, args, st, fr, line, brace=False):
        if bt == 'Status':
            return self.mkstatus(args, st, fr)
        if bt in LOCK_GUARDS:
            return [(self.event('call', mk('call', 'LOCK', NONE, a[0]), s2, line) and mk('lockguard', a[0]), s2)
                    for a, s2 in self.evals(args, st, fr) if a]
        out = []
        for a, s2 in self.evals(args, st, fr):
            if bt in SCALAR:
                if len(a) == 1: out.append((self.narrow(ty, a[0]), s2))
                elif not a: out.append((NULL if bt != 'string' else mk('obj', 'string', n, ()), s2))
                else: out.append((mk('ctor', bt, *a), s2))
            elif not a: out.append((mk('obj', bt, self.rolename(fr, n, bt), ()), s2))
            elif bt in ('vector', 'map', 'set', 'unordered_map', 'shared_ptr', 'unique_ptr', 'list', 'deque', 'optional') and len(a) == 1 \
                    and not brace and a[0].op != 'init' and not is_num(a[0]) and bt in ('shared_ptr', 'unique_ptr', 'optional'):
                out.append((a[0], s2))
            else:
                t = mk('ctor', bt, *a)
                s2 = self.event('call', mk('call', bt, NONE, *a), s2, line)
                out.append((t, s2))
        return out

    def narrow(self, ty, v):
        b = ty.replace('const', '').strip()
        return v

    def mkstatus(self, args, st, fr):
        if not args: return [(OK, st)]
        out = []
        for v, s2 in self.eval(args[0], st, fr):
            if v.op in ('status', 'OK') or (v.op in ('out', 'call') and len(args) == 1):
                out.append((v, s2))
            elif v is NULL or (v.op == 'sym' and v.a[0] == 'OK'): out.append((OK, s2))
            else: out.append((mk('status', v), s2))
        return out

    def x_if(self, s, sts, fr):
        init, c, th, el = s.a
        fr.scopes.append({})
        if init is not None:
            sts = self.exec(init, sts, fr).nxt
        ts, fs = [], []
        for st in sts:
            if c.k == 'decl':
                o = self.x_decl(c, [st], fr)
                nm = c.a[0][0][0]
                for s2 in o.nxt:
                    for b, s3 in self.cond(E('name', (nm, ''), c.line), s2, fr): (ts if b else fs).append(s3)
            else:
                for b, s2 in self.cond(c, st, fr): (ts if b else fs).append(s2)
        o = self.exec(th, dedupe(ts), fr) if ts else Out()
        if el is not None:
            o2 = self.exec(el, dedupe(fs), fr) if fs else Out()
        else:
            o2 = Out(fs)
        r = self.merge(o, o2)
        sc = fr.scopes.pop()
        if sc: r.nxt = [x.dropenv(list(sc.values())) for x in r.nxt]
        r.nxt = dedupe(r.nxt)
        return r

    def merge(self, a, b):
        a.nxt = a.nxt + b.nxt; a.brk += b.brk; a.cont += b.cont; a.rets += b.rets; a.gotos += b.gotos
        return a

    def x_ret(self, s, sts, fr):
        o = Out()
        e = s.a[0]
        for st in sts:
            if e is None: o.rets.append((st, mk('void'), s.line))
            elif e.k == 'init' and not e.a[0]:
                rt = base_type(fr.func.ret) if fr.func is not None else ''
                if rt == 'Status':
                    for v, s2 in self.mkstatus(e.a[1], st, fr): o.rets.append((s2, v, s.line))
                else:
                    for a, s2 in self.evals(e.a[1], st, fr): o.rets.append((s2, mk('init', *a), s.line))
            else:
                for v, s2 in self.eval(e, st, fr):
                    if v.op != 'abort': o.rets.append((s2, v, s.line))
        return o

    def x_break(self, s, sts, fr):
        o = Out(); o.brk = sts
        return o
    def x_continue(self, s, sts, fr):
        o = Out(); o.cont = sts
        return o
    def x_goto(self, s, sts, fr):
        o = Out(); o.gotos = [(x, s.a[0]) for x in sts]
        return o
    def x_label(self, s, sts, fr): return Out(sts)
    def x_case(self, s, sts, fr): return Out(sts)
    def x_default(self, s, sts, fr): return Out(sts)

    def x_try(self, s, sts, fr):
        o = self.exec(s.a[0], sts, fr)
        for h in s.a[1]:
            o = self.merge(o, self.exec(h, sts, fr))
        return o

    def x_switch(self, s, sts, fr):
        c, body = s.a
        stmts = body.a[0] if body.k == 'block' else (body,)
        fr.scopes.append({})
        out = Out()
        pend = []
        for st in sts:
            for v, s2 in self.eval(c, st, fr): pend.append((v, s2))
        entries = []      # (index, states)
        default = None
        rest = pend
        for i, x in enumerate(stmts):
            if x.k == 'default': default = i
            elif x.k == 'case':
                hit, miss = [], []
                for v, st in rest:
                    for cv, s2 in self.eval(x.a[0], st, fr):
                        for b, s3 in self.decide(mkeq(v, cv), s2, False):
                            if b: hit.append(s3)
                            else: miss.append((v, s3))
                rest = miss
                entries.append((i, hit))
        dst = [st for v, st in rest]
        if default is not None: entries.append((default, dst)); leftover = []
        else: leftover = dst
        entries.sort(key=lambda x: x[0])
        cur = []
        # run segments in order, falling through
        idx = [i for i, _ in entries] + [len(stmts)]
        for n, (i, hit) in enumerate(entries):
            cur = dedupe(cur + hit)
            seg = stmts[i:idx[n + 1]]
            if cur:
                o = self.exec_list(seg, cur, fr)
                leftover += o.brk
                out.cont += o.cont; out.rets += o.rets; out.gotos += o.gotos
                cur = o.nxt
        out.nxt = dedupe(leftover + cur)
        sc = fr.scopes.pop()
        if sc: out.nxt = [x.dropenv(list(sc.values())) for x in out.nxt]
        return out

    # loops -----------------------------------------------------------------
    def x_while(self, s, sts, fr):
        return self.loop(s, sts, fr, s.a[0], None, s.a[1])
    def x_do(self, s, sts, fr):
        c = s.a[1]
        if c is not None and c.k in ('lit', 'num') and c.a[0] in ('false', '0', 'nullptr'):
            o = self.exec(s.a[0], sts, fr)      # do { ... } while (false): a block that break and continue leave
            r = Out(dedupe(o.nxt + o.brk + o.cont)); r.rets = o.rets; r.gotos = o.gotos
            return r
        return self.loop(s, sts, fr, s.a[1], None, s.a[0], post=True)
    def x_for(self, s, sts, fr):
        fr.scopes.append({})
        if s.a[0] is not None: sts = self.exec(s.a[0], sts, fr).nxt
        o = self.loop(s, sts, fr, s.a[1], s.a[2], s.a[3])
        sc = fr.scopes.pop()
        if sc:
            ks = list(sc.values())
            o.nxt = dedupe([x.dropenv(ks) for x in o.nxt])
        return o

    def x_rfor(self, s, sts, fr):
        names, ty, rng, body = s.a
        out = Out()
        cont = []
        if rng.k == 'init' and not rng.a[0] and 0 < len(rng.a[1]) <= 8:
            # range over a literal list: unroll
            cur = sts
            for e in rng.a[1]:
                nx = []
                fr.scopes.append({})
                for st in cur:
                    for v, s2 in self.eval(e, st, fr):
                        nx.append(self.bind(names, v, s2, fr, s.line))
                o = self.exec(body, nx, fr)
                sc = fr.scopes.pop()
                out.rets += o.rets; out.gotos += o.gotos
                out.nxt += o.brk
                cur = dedupe([x.dropenv(list(sc.values())) for x in o.nxt + o.cont])
            out.nxt = dedupe(out.nxt + cur)
            return out
        bycont = {}
        for st in sts:
            for v, s2 in self.eval(rng, st, fr): bycont.setdefault(v, []).append(s2)
        for c, ss in bycont.items():
            el = mk('elem', self.contbase(c))
            fr.scopes.append({})
            o = self.loop(s, ss, fr, None, None, body, elem=el, bind=lambda st: self.bind(names, el, st, fr, s.line))
            sc = fr.scopes.pop()
            ks = list(sc.values())
            o.nxt = [x.dropenv(ks) for x in o.nxt]
            out = self.merge(out, o)
        out.nxt = dedupe(out.nxt)
        return out

    def contbase(self, c):
        if c.op == 'obj': return mk('obj', c.a[0], c.a[1], ())
        return c

    def bind(self, names, v, st, fr, line):
        if isinstance(names, tuple):
            for i, x in enumerate(names[1:]):
                k = (fr.fid, x, line)
                fr.scopes[-1][x] = k
                st = st.setenv(k, self.nth(v, i, st))
            return st
        k = (fr.fid, names, line)
        fr.scopes[-1][names] = k
        return st.setenv(k, v)

    def counters(self, nodes, fr):
        """local keys stepped inside a loop: key -> op"""
        r = {}
        for nd in nodes:
            if nd is None: continue
            for x in walk(nd):
                t = None; op = None
                if x.k == 'post': op, t = x.a[0], x.a[1]
                elif x.k == 'un' and x.a[0] in ('++', '--'): op, t = x.a[0], x.a[1]
                elif x.k == 'asg' and x.a[0] in ('+=', '-=', '|=', '&=', '*=', '<<=', '>>='): op, t = x.a[0], x.a[1]
                elif x.k == 'asg' and x.a[0] == '=' and x.a[1].k == 'name' and lastname(x.a[1].a[0]) in idents(x.a[2]):
                    op, t = 'self', x.a[1]
                if t is not None and t.k == 'name':
                    k = fr.key(t.a[0])
                    if k is not None and (k not in r or op in ('++', '--')): r[k] = op
        return r

    def loop(self, *a, **k):
        self.loopids.append(idents(a[0]))
        try: return self.loop1(*a, **k)
        finally: self.loopids.pop()

    def loop1(self, node, sts, fr, cond, step, body, elem=None, bind=None, post=False):
        out = Out()
        if elem is None and not post and (cond is None or cond.k in ('lit', 'num') and cond.a[0] in ('true', '1')) and body.k == 'block' and body.a[0]:
            # for (;;) { if (C) break; ... }  is  while (!C) { ... }
            f = body.a[0][0]
            if f.k == 'if' and f.a[0] is None and f.a[3] is None and f.a[1].k != 'decl':
                th = f.a[2]
                if th.k == 'block' and len(th.a[0]) == 1: th = th.a[0][0]
                if th.k == 'break':
                    cond = E('un', ('!', f.a[1]), f.line)
                    body = E('block', (body.a[0][1:],), body.line)
        d = 'fwd'
        exits = []
        steps = self.counters([cond, step, body], fr)
        names = idents(body) | (idents(cond) if cond is not None else set()) | (idents(step) if step is not None else set())
        wid = []
        for st in sts:
            for k, op in steps.items():
                v = st.env.get(k)
                if v is None or v.op == 'alias': continue
                if v.op == 'const' and v.a[0] in ('true', 'false'): continue
                if op == '--' or (v.op == 'fld' and v.a[1] in ('rbegin', 'crbegin')): d = 'rev'
                if v.op == 'lv' and v.a[1] == op: continue
                if op in ('++', 'self') and v.op == 'fld' and v.a[1] in ('begin', 'cbegin'): nv = mk('elem', self.contbase(v.a[0]))
                elif op in ('++',) and v.op == 'fld' and v.a[1] in ('rbegin', 'crbegin'): nv = mk('elem', self.contbase(v.a[0]))
                elif v.op == 'elem': continue
                elif v.op == 'obj': continue
                elif v.op in ('out', 'call') and op == 'self': continue
                else: nv = mk('lv', v if v.depth < 12 else mk('deep', str(k[1])), op)
                st = st.setenv(k, nv)
            wid.append(st)
        if elem is None and cond is not None and cond.k != 'decl' and len(wid) > 1:
            # the paths that reach the loop may run over different containers
            groups = {}
            for st0, st in zip(sts, wid): groups.setdefault(self.loop_cont(cond, st, fr), []).append(st0)
            if len(groups) > 1:
                for g in groups.values():
                    o = self.loop1(node, g, fr, cond, step, body, elem, bind, post)
                    out.nxt += o.nxt; out.rets += o.rets; out.gotos += o.gotos
                out.nxt = dedupe(out.nxt)
                return out
        if self.rule.widen in ('paths', 'join') and len(sts) > 1:
            # join only the rounds of one and the same path into the loop
            for st0 in dedupe(sts):
                o = self.loop1(node, [st0], fr, cond, step, body, elem, bind, post)
                out.nxt += o.nxt; out.rets += o.rets; out.gotos += o.gotos
            out.nxt = dedupe(out.nxt)
            return out
        seen = set()
        work = dedupe(wid)
        loopid = const('L%d' % node.line)
        self.loopdir[node.line] = d
        first = True; brks = []
        cont = elem.a[0] if elem is not None else None
        while work:
            new = []
            for st in work:
                k = st.key()
                if k in seen: continue
                seen.add(k); new.append(st)
            if not new: break
            if len(seen) > self.rule.maxstates:
                raise TooBig('too many loop states at %s:%d' % (fr.func.file if fr.func else '?', node.line))
            tr = []
            if post and first: tr = new
            elif cond is None:
                if elem is not None: exits += new
                elif node.k == 'for' or node.k == 'while': pass
                tr = new
            else:
                for st in new:
                    if cond.k == 'decl':
                        for s2 in self.x_decl(cond, [st], fr).nxt:
                            for b, s3 in self.cond(E('name', (cond.a[0][0][0], ''), cond.line), s2, fr): (tr if b else exits).append(s3)
                        continue
                    for b, s2 in self.cond(cond, st, fr): (tr if b else exits).append(s2)
            first = False
            # remember counter terms of this round
            start = []
            for st in tr:
                st = self.iter_start(st, loopid, names, elem if elem is not None or cont is None else mk('elem', self.contbase(cont)), steps)
                if bind is not None: st = bind(st)
                start.append(st)
            start = dedupe(start)
            if cont is None and cond is not None and start and cond.k != 'decl': cont = self.loop_cont(cond, start[0], fr)
            o = self.exec(body, start, fr) if start else Out()
            out.rets += o.rets; out.gotos += o.gotos
            for s2 in o.brk:
                self.rule.on_iter(node, cont, s2, 'break', node.line, self)
            for (s2, t, ln) in o.rets:
                self.rule.on_iter(node, cont, s2, 'ret', ln, self)
            brks += o.brk
            ends = dedupe(o.nxt + o.cont)
            if step is not None:
                nx = []
                for s2 in ends:
                    for _, s3 in self.eval(step, s2, fr, stmt=True):
                        nx.append(s3)
                        # the facts of the finished round, the events of the step included
                        self.rule.on_iter(node, cont, St(s3.env, s3.heap, s2.lits, s3.trace), 'end', node.line, self)
                ends = nx
            else:
                for s2 in ends: self.rule.on_iter(node, cont, s2, 'end', node.line, self)
            work = []
            for s2 in ends:
                # re-normalise stepped variables
                env = None
                for k, op in steps.items():
                    v = s2.env.get(k)
                    if v is None: continue
                    w = self.norm_step(v, op, k)
                    if w is not v:
                        if env is None: env = dict(s2.env)
                        env[k] = w
                for k, v in s2.env.items():
                    if v.depth > 16:
                        if env is None: env = dict(s2.env)
                        env[k] = mk('deep', str(k[1]))
                if env is not None: s2 = St(env, s2.heap, s2.lits, s2.trace)
                h = None
                for t, v in s2.heap.items():
                    if v.op == 'bin' or v.depth > 16:
                        if h is None: h = dict(s2.heap)
                        h[t] = mk('lv', t, 'mut')
                if h is not None: s2 = s2.withheap(h)
                work.append(s2)
            if self.rule.widen: work = self.widen(work, steps)
        if self.rule.widen == 'join' and len(exits) > 1: exits = self.widen(exits, steps)
        out.nxt = dedupe(exits + brks)
        return out

    def widen(self, sts, steps, flags=False):
        # one state: locals that differ become unknown, facts that differ are forgotten, events not common to all are forgotten
        res = []
        groups = {}
        if flags or self.rule.widen == 'flags':
            # boolean locals and the ghosts of a contract stay exact
            for s in sts: groups.setdefault(frozenset((k, v) for k, v in s.env.items() if v is TRUE or v is FALSE or k[0] == '#'), []).append(s)
        elif sts: groups[0] = sts
        for g in groups.values():
            envs = [s.env for s in g]
            env = {}; wids = []
            for k in set().union(*envs):
                vs = {e.get(k) for e in envs}
                if len(vs) == 1: env[k] = vs.pop(); continue
                if any(v is not None and v.op == 'alias' for v in vs) or k in self.outkeys:
                    raise TooBig('cannot join the values of %s' % str(k[1]))
                vs.discard(None)
                env[k] = mk('lv', mk('joined', str(k[1])), 'mut'); wids.append(env[k])
            wids += [v for v in env.values() if v.op == 'lv' and v.a[0].op == 'joined']
            lits = dict(g[0].lits); heap = dict(g[0].heap)
            for s in g[1:]:
                lits = {a: v for a, v in lits.items() if s.lits.get(a) is v}
                heap = {a: v for a, v in heap.items() if s.heap.get(a) is v}
            lits = {a: v for a, v in lits.items() if not any(mentions(a, w) for w in wids)}
            heap = {a: v for a, v in heap.items() if not any(mentions(a, w) or mentions(v, w) for w in wids)}
            com = frozenset.intersection(*[frozenset(s.trace) for s in g])
            res.append(St(env, heap, lits, tuple(x for x in g[0].trace if x in com)))
        return res

    def loop_cont(self, cond, st, fr):
        if cond.k == 'bin' and cond.a[0] == '&&':
            r = self.loop_cont(cond.a[1], st, fr)
            return r if r is not None else self.loop_cont(cond.a[2], st, fr)
        if cond.k in ('asg', 'post') or (cond.k == 'un' and cond.a[0] in ('++', '--')): return None
        hold = self.rule
        self.rule = Rule()
        try: t = truth(self.eval(cond, st, fr)[0][0])
        except Exception: return None
        finally: self.rule = hold
        n = False
        if t.op == 'not': t = t.a[0]; n = True
        if t.op == 'lt' and t.a[1].op == 'fld' and t.a[1].a[1] == 'size' and t.a[0].op == 'lv': return t.a[1].a[0]
        if t.op in ('lt', 'eq') and n and t.a[0].op == 'lv' and t.a[0].a[1] == '--':
            x = t.a[0].a[0]
            if x.op == 'bin' and x.a[0] == '+' and x.a[2] is const(-1): x = x.a[1]
            if x.op == 'fld' and x.a[1] in ('size', 'end', 'cend'): return x.a[0]
        if t.op == 'eq' and n and t.a[1].op == 'lv' and t.a[1].a[1] == '--' and t.a[1].a[0].op == 'fld' and t.a[1].a[0].a[1] in ('end', 'cend'): return t.a[1].a[0].a[0]
        if t.op == 'eq' and n and 'lv' in (t.a[0].op, t.a[1].op):
            for x in t.a:
                if x.op == 'fld' and x.a[1] == 'size': return x.a[0]
        if t.op == 'lt' and n and t.a[1].op == 'lv' and t.a[1].a[0] is const(1) and t.a[0].op == 'fld' and t.a[0].a[1] == 'size': return t.a[0].a[0]
        if t.op == 'lt' and not n and t.a[0].op == 'lv': return t.a[1]
        if t.op == 'eq' and n:
            for x in t.a:
                if x.op == 'elem': return x.a[0]
                if x.op == 'fld' and x.a[1] in ('end', 'cend', 'rend'): return x.a[0]
        if t.op == 'fld' and t.a[1] in ('Valid', 'valid'): return t.a[0]
        if t.op == 'fld' and t.a[1] == 'empty' and n: return t.a[0]
        if t.op == 'elem': return t.a[0]
        return None

    def norm_step(self, v, op, k):
        # collapse  lv + c  back to lv, elem.next back to elem
        t = v
        while t.op in ('bin',) and t.a[0] in ('+', '-', '|', '&', '*', '<<', '>>'):
            t = t.a[1]
        if t.op in ('lv', 'elem') and t is not v: return t
        if t.op in ('lv', 'elem'): return t
        if v.op == 'call' and v.a[0] == 'erase' and len(v.a) > 2 and v.a[2].op in ('elem', 'lv'): return v.a[2]
        if op == 'self' and v.op in ('const', 'sym'): return v
        if op != 'self' and v.op == 'const' and not v.a[0].lstrip('-').isdigit(): return v
        if v.depth > 8: return mk('lv', mk('deep', str(k[1])), op)
        if op != 'self' and is_num(v): return v if v in (NULL, const(1)) else mk('lv', NULL, op)
        return v

    def iter_start(self, st, loopid, names, elem, steps):
        ent = ('@iter', loopid)
        tr = tuple(x for x in st.trace if x != ent)
        lits = None
        lvs = [v for k, v in st.env.items() if k in steps and v.op in ('lv', 'elem')]
        for a in st.lits:
            drop = False
            if elem is not None and mentions(a, elem): drop = True
            elif any(mentions(a, v) for v in lvs): drop = True
            elif callnames(a) & names: drop = True
            if drop:
                if lits is None: lits = dict(st.lits)
                del lits[a]
        heap = None
        if elem is not None:
            for t in st.heap:
                if mentions(t, elem):
                    if heap is None: heap = dict(st.heap)
                    del heap[t]
        # events about the previous element belong to the previous iteration
        return St(st.env, heap if heap is not None else st.heap, lits if lits is not None else st.lits, tr + (ent,))

    # ---------------------------------------------------------------- lvalues
    def member(self, name, fr):
        return mk('fld', fr.recv, name) if fr.recv is not None else sym(name)

    def lval(self, e, st, fr):
        k = e.k
        if k == 'name':
            nm = e.a[0]
            key = fr.key(nm) if '::' not in nm else None
            if key is not None:
                v = st.env.get(key)
                if v is not None and v.op == 'alias': return [(('var', v.a[0], v.a[1]), st)]
                if v is not None and key in self.refkeys and v.op in ('fld', 'idx', 'elem', 'call'): return [(('term', v), st)]
                return [(('var', key, ()), st)]
            return [(('term', v), s) for v, s in self.e_name(e, st, fr, rd=False)]
        if k == 'un' and e.a[0] == '*':
            r = []
            for l, s in self.lval(e.a[1], st, fr):
                if l[0] == 'var' and not l[2]:
                    v = s.env.get(l[1])
                    if v is not None and v.op in ('fld', 'idx', 'elem'): l = ('term', v)
                r.append((l, s))
            return r
        if k == 'un' and e.a[0] == '&': return self.lval(e.a[1], st, fr)
        if k == 'cast': return self.lval(e.a[1], st, fr)
        if k == 'mem':
            return [(self.extend(l, e.a[1], s), s) for l, s in self.lval(e.a[0], st, fr)]
        if k == 'call':
            f = e.a[0]
            if f.k == 'mem' and not e.a[1] and (f.a[1].startswith('mutable_') or f.a[1] in ('get', 'value')):
                nm = f.a[1]
                if nm == 'get': return self.lval(f.a[0], st, fr)
                if nm.startswith('mutable_'): nm = nm[8:]
                return [(self.extend(l, nm, s), s) for l, s in self.lval(f.a[0], st, fr)]
            if f.k == 'name' and lastname(f.a[0]) in PASS and e.a[1]:
                return self.lval(e.a[1][0], st, fr)
        return [(('term', v), s) for v, s in self.eval(e, st, fr)]

    def extend(self, l, name, st):
        if name.startswith('mutable_'): name = name[8:]
        if l[0] == 'var':
            v = st.env.get(l[1])
            if v is not None and v.op == 'obj': return ('var', l[1], l[2] + (name,))
            if v is not None:
                t = v
                for p in l[2]: t = self.mkfld(t, p, st)
                return ('term', self.mkfld(t, name, st, rd=False))
            return ('var', l[1], l[2] + (name,))
        return ('term', self.mkfld(l[1], name, st, rd=False))

    def readl(self, l, st):
        if l[0] == 'term':
            return st.heap.get(l[1], l[1])
        v = st.env.get(l[1])
        if v is None: return mk('unbound', str(l[1][1]))
        if v.op == 'alias':
            v = self.readl(('var', v.a[0], v.a[1]), st)
        for p in l[2]: v = self.mkfld(v, p, st)
        return v

    def objset(self, o, path, val):
        f = dict(o.a[2])
        p = path[0]
        if len(path) == 1: f[p] = val
        else:
            sub = f.get(p)
            if sub is None or sub.op != 'obj': sub = mk('obj', '_', p, ())
            f[p] = self.objset(sub, path[1:], val)
        return mk('obj', o.a[0], o.a[1], tuple(sorted(f.items())))

    def assign(self, l, val, st, fr, line):
        if l[0] == 'var':
            key, path = l[1], l[2]
            v = st.env.get(key)
            if not path:
                st = st.setenv(key, val)
                ok = self.outkeys.get(key)
                if ok is not None:
                    st = self.event('set', mk('set', ok, val), st, line)
                    st = self.purge(st, ok)
                else:
                    bv = v
                    st = self.event('lset', mk('set', sym(key[1]), val), st, line)
                    if bv is not None and bv.op == 'obj': st = self.purge(st, mk('obj', bv.a[0], bv.a[1], ()))
                return st
            if v is not None and v.op == 'obj':
                base = mk('obj', v.a[0], v.a[1], ())
                t = base
                for p in path: t = mk('fld', t, p)
                st = st.setenv(key, self.objset(v, path, val))
                return self.purge(self.event('set', mk('set', t, val), st, line), t)
            t = v if v is not None else mk('unbound', str(key[1]))
            for p in path: t = mk('fld', t, p)
            l = ('term', t)
        t = l[1]
        if self.valkeys and t.op == 'fld':
            # a struct copied out before one of its fields changes keeps the old contents
            anc = set(); x = t.a[0]
            while x.op == 'fld': anc.add(x); x = x.a[0]
            env = None
            for k, v in st.env.items():
                if v in anc and k in self.valkeys:
                    if env is None: env = dict(st.env)
                    env[k] = mk('old', v)
            if env is not None: st = St(env, st.heap, st.lits, st.trace)
        st = self.event('set', mk('set', t, val), st, line)
        st = self.purge(st, t)
        if t.op == 'fld':
            rd = t.a[1] in self._readn or t.a[1] in ('first', 'second')
        elif t.op == 'sym': rd = True
        else: rd = False
        if rd:
            if st.heap.get(t) is not val:
                h = dict(st.heap)
                h[t] = val
                st = st.withheap(h)
        return st

    def purge(self, st, t):
        """drop literals and heap facts about t."""
        lits = None
        for a in st.lits:
            if mentions(a, t):
                if lits is None: lits = dict(st.lits)
                del lits[a]
        heap = None
        for x in st.heap:
            if x is not t and mentions(x, t):
                if heap is None: heap = dict(st.heap)
                del heap[x]
        if lits is None and heap is None: return st
        return St(st.env, heap if heap is not None else st.heap, lits if lits is not None else st.lits, st.trace)

    def purge_recv(self, st, r):
        """r was mutated through a method: drop facts about its contents (not about r itself being null)."""
        lits = None
        for a in st.lits:
            if a is not r and mentions(a, r) and not (a.op == 'eq' and (a.a[0] is r or a.a[1] is r)):
                if lits is None: lits = dict(st.lits)
                del lits[a]
        heap = None
        for x in st.heap:
            if x is not r and mentions(x, r):
                if heap is None: heap = dict(st.heap)
                del heap[x]
        if lits is None and heap is None: return st
        return St(st.env, heap if heap is not None else st.heap, lits if lits is not None else st.lits, st.trace)

    def moved(self, st, r, pre):
        """r is an iterator that moved: what a member or local copied from it no longer equals what it shows now."""
        h = {k: v for k, v in st.heap.items() if k.op == 'obj' or v is r or not mentions(v, r)}
        if len(h) != len(st.heap): st = st.withheap(h)
        env = None
        same = {}
        if self.rule.widen:
            # values known to equal what the iterator showed
            for a, b in pre.items():
                if b and a.op == 'eq':
                    for x, y in (a.a, a.a[::-1]):
                        if mentions(y, r) and not (x.op == 'old' and x.a[0] is y) and not mentions(x, r): same[x] = y
        for k, v in st.env.items():
            if v in same and k[0] != '#':
                if env is None: env = dict(st.env)
                env[k] = mk('old', same[v])
            elif v is not r and v.op not in ('obj', 'old', 'alias', 'lambda', 'lam') and mentions(v, r):
                if env is None: env = dict(st.env)
                env[k] = mk('old', v)
            elif v.op == 'old' and self.rule.widen and k[0] != '#' and mentions(v.a[0], r) and self.known(mkeq(v, v.a[0]), pre) is not True:
                # a copy older than the one the next round takes
                if env is None: env = dict(st.env)
                env[k] = mk('lv', mk('joined', str(k[1])), 'mut')
        if env is not None: st = St(env, st.heap, st.lits, st.trace)
        return st

    # ---------------------------------------------------------------- expressions
    def evals(self, es, st, fr):
        r = [((), st)]
        for e in es:
            n = []
            for a, s in r:
                for v, s2 in self.eval(e, s, fr):
                    if v.op != 'abort': n.append((a + (v,), s2))
            r = n
        return r

    def eval(self, e, st, fr, stmt=False):
        m = getattr(self, 'e_' + e.k, None)
        if m is None: raise AnalysisBroken('expression kind %s' % e.k)
        if e.k == 'call': return m(e, st, fr, stmt)
        return m(e, st, fr)

    def e_num(self, e, st, fr): return [(const(num_text(e.a[0])), st)]
    def e_str(self, e, st, fr):
        if e.a[0] == '""': return [(mk('obj', 'string', '', ()), st)]
        return [(mk('const', e.a[0]), st)]
    def e_chr(self, e, st, fr):
        s = e.a[0]
        return [(const(s), st)]
    def e_lit(self, e, st, fr):
        if e.a[0] == 'nullptr': return [(NULL, st)]
        return [(const(e.a[0]), st)]
    def e_this(self, e, st, fr): return [(fr.recv if fr.recv is not None else sym('this'), st)]
    def e_raw(self, e, st, fr): return [(mk('raw', e.a[0]), st)]
    def e_sizeof(self, e, st, fr): return [(mk('const', 'sizeof(%s)' % e.a[0]), st)]
    def e_stmtarg(self, e, st, fr):
        return [(mk('void'), s) for s in self.exec(e.a[0], [st], fr).nxt]
    def e_stmtexpr(self, e, st, fr):
        return [(mk('raw', 'stmtexpr'), s) for s in self.exec(e.a[0], [st], fr).nxt]
    def e_throw(self, e, st, fr): return [(mk('abort'), st)]
    def e_del(self, e, st, fr):
        r = []
        for v, s in self.eval(e.a[0], st, fr):
            r.append((mk('void'), self.event('call', mk('call', 'delete', NONE, v), s, e.line)))
        return r
    def e_desig(self, e, st, fr): return self.eval(e.a[1], st, fr)
    def e_opaque(self, e, st, fr): return [(mk('raw', 'opaque'), st)]

    def e_name(self, e, st, fr, rd=True):
        nm = e.a[0]
        if '::' not in nm:
            key = fr.key(nm)
            if key is not None:
                v = st.env.get(key)
                if v is None: return [(mk('unbound', nm), st)]
                if v.op == 'alias': v = self.readl(('var', v.a[0], v.a[1]), st)
                return [(v, st)]
            if fr.pattern:
                if nm == '_': return [(WILD, st)]
                if nm == '__': return [(REST, st)]
                if nm == '_STR': return [(mk('obj', 'string', '', ()), st)]
                if nm[0] == '$': return [(mk('var', nm[1:]), st)]
            elif fr.recv is not None and (nm.endswith('_') or self.repo.is_field(fr.cls, nm)):
                t = mk('fld', fr.recv, nm)
                return [(st.heap.get(t, t) if rd else t, st)]
        n = lastname(nm)
        if n == 'OK' and ('::' not in nm and fr.pattern or nm.endswith('::OK') and 'error::' in nm): return [(OK, st)]
        if n == 'max' and 'numeric_limits' in nm: n = 'INT64_MAX'
        if n in ('kMaxVer', 'kMaxTs') and False: n = 'INT64_MAX'
        t = sym(n)
        if rd: t = st.heap.get(t, t)
        return [(t, st)]

    def e_un(self, e, st, fr):
        op, x = e.a
        if op in ('++', '--'):
            return self.step(x, '+' if op == '++' else '-', const(1), st, fr, e.line, old=False)
        if op in ('*', '&', '+'): return self.eval(x, st, fr)
        r = []
        for v, s in self.eval(x, st, fr):
            if op == '!': r.append((bnot(truth(v)), s))
            elif op == '-' and is_num(v): r.append((const(-int(v.a[0])), s))
            else: r.append((mk('un', op, v), s))
        return r

    def e_post(self, e, st, fr):
        return self.step(e.a[1], '+' if e.a[0] == '++' else '-', const(1), st, fr, e.line, old=True)

    def step(self, x, op, amt, st, fr, line, old):
        r = []
        for l, s in self.lval(x, st, fr):
            v = self.readl(l, s)
            if op == '-' and v.op == 'lv' and v.a[0].op == 'fld' and v.a[0].a[1] in ('end', 'cend'): nv = mk('elem', v.a[0].a[0])
            elif v.op in ('elem', 'found') or (v.op == 'lv' and v.a[0].op in ('call',) and False):
                nv = v
            elif v.op == 'call' and v.a[0] in ('lower_bound', 'upper_bound', 'find', 'begin'): nv = mk('lv', v, op * 2)
            else: nv = mkbin(op, v, amt)
            s = self.assign(l, nv, s, fr, line)
            r.append((v if old else nv, s))
        return r

    def e_asg(self, e, st, fr):
        op, le, re_ = e.a
        if fr.pattern:
            l = self.eval(le, st, fr)[0][0]; v = self.eval(re_, st, fr)[0][0]
            return [(mk('set', l, v if op == '=' else mkbin(op[:-1], l, v)), st)]
        out = []
        if le.k == 'call' and le.a[0].k == 'name' and lastname(le.a[0].a[0]) == 'tie':
            for v, s in self.eval(re_, st, fr):
                for i, x in enumerate(le.a[1]):
                    for l, s in self.lval(x, s, fr)[:1]: s = self.assign(l, self.nth(v, i, s), s, fr, e.line)
                out.append((v, s))
            return out
        if re_.k == 'init' and not re_.a[0]:
            rs = [(mk('init', *a) if a else mk('obj', '_', 'empty', ()), s) for a, s in self.evals(re_.a[1], st, fr)]
        elif self.rule.widen == 'join' and op == '=' and le.k == 'name' and st.env.get(fr.key(le.a[0])) in (TRUE, FALSE):
            rs = [(TRUE if b else FALSE, s2) for b, s2 in self.cond(re_, st, fr)]
        else:
            rs = self.eval(re_, st, fr)
        for v, s in rs:
            if v.op == 'abort':
                out.append((v, s)); continue
            for l, s2 in self.lval(le, s, fr):
                if op == '=': nv = v
                else:
                    nv = mkbin(op[:-1], self.readl(l, s2), v)
                out.append((nv, self.assign(l, nv, s2, fr, e.line)))
        return out

    def e_bin(self, e, st, fr):
        op, a, b = e.a
        if op in ('&&', '||'):
            if fr.pattern:
                return [(mk('and' if op == '&&' else 'or', self.eval(a, st, fr)[0][0], self.eval(b, st, fr)[0][0]), st)]
            r = []
            for va, s in self.eval(a, st, fr):
                va = truth(va)
                if va is TRUE:
                    if op == '||': r.append((TRUE, s)); continue
                    r += [(truth(v), s2) for v, s2 in self.eval(b, s, fr)]; continue
                if va is FALSE:
                    if op == '&&': r.append((FALSE, s)); continue
                    r += [(truth(v), s2) for v, s2 in self.eval(b, s, fr)]; continue
                for vb, s2 in self.eval(b, s, fr):
                    vb = truth(vb)
                    if op == '&&':
                        t = va if vb is TRUE else (FALSE if vb is FALSE else mk('and', va, vb))
                    else:
                        t = va if vb is FALSE else (TRUE if vb is TRUE else mk('or', va, vb))
                    r.append((t, s2))
            return r
        r = []
        for va, s in self.eval(a, st, fr):
            if va.op == 'abort': r.append((va, s)); continue
            for vb, s2 in self.eval(b, s, fr):
                if vb.op == 'abort': r.append((vb, s2)); continue
                if op in ('==', '!=', '<', '>', '<=', '>='): r.append((cmp_term(op, va, vb), s2))
                elif op == '<<' and self.is_stream(va):
                    r.append((va, self.event('call', mk('call', 'stream', va, vb), s2, e.line)))
                elif op == '*' and not fr.pattern and self.narrow32(a, fr) and self.narrow32(b, fr): r.append((mk('bin', '*w32', va, vb), s2))
                else: r.append((mkbin(op, va, vb), s2))
        return r

    def narrow32(self, e, fr):
        """a parameter of a 32-bit type: a product of two of them is computed in 32 bits"""
        return e.k == 'name' and fr.func is not None and base_type(self.ptype(fr, e)) in ('uint32_t', 'int32_t', 'int', 'unsigned')

    def is_stream(self, v):
        return v.op == 'obj' and 'stream' in v.a[0] or (v.op == 'sym' and v.a[0] in ('cout', 'cerr'))

    def e_cond(self, e, st, fr):
        c, a, b = e.a
        if fr.pattern:
            return [(mk('tern', *(self.eval(x, st, fr)[0][0] for x in (c, a, b))), st)]
        r = []
        for t, s in self.cond(c, st, fr):
            r += self.eval(a if t else b, s, fr)
        return r

    def e_comma(self, e, st, fr):
        r = []
        for _, s in self.eval(e.a[0], st, fr, stmt=True): r += self.eval(e.a[1], s, fr)
        return r

    def e_cast(self, e, st, fr):
        ty = e.a[0].replace('const', '').strip()
        r = []
        for v, s in self.eval(e.a[1], st, fr): r.append((self.castto(ty, v), s))
        return r

    def castto(self, ty, v):
        b = lastname(ty)
        if b in NARROW and v.op not in ('const',) and '*' not in ty and '&' not in ty: return mk('cast', b, v)
        return v

    def e_init(self, e, st, fr):
        tn, items = e.a
        if tn:
            bt = base_type(tn)
            if bt == 'Status': return self.mkstatus(items, st, fr)
            r = []
            for a, s in self.evals(items, st, fr):
                if bt in SCALAR:
                    r.append((a[0] if len(a) == 1 else NULL, s))
                elif bt in ('pair', 'make_pair'): r.append((mk('init', *a), s))
                elif not a: r.append((mk('obj', bt, 'tmp', ()), s))
                else: r.append((mk('ctor', bt, *a), s))
            return r
        return [(mk('init', *a), s) for a, s in self.evals(items, st, fr)]

    def e_ctor(self, e, st, fr):
        return self.ctor(e.a[0], base_type(e.a[0]), 'tmp', e.a[1], st, fr, e.line)

    def e_new(self, e, st, fr):
        r = []
        bt = base_type(e.a[0])
        for a, s in self.evals(e.a[1], st, fr):
            s = self.event('call', mk('call', 'new_' + bt, NONE, *a), s, e.line)
            r.append((mk('ctor', bt, *a) if a else mk('obj', bt, 'new%d' % e.line, ()), s))
        return r

    def e_idx(self, e, st, fr):
        r = []
        for v, s in self.eval(e.a[0], st, fr):
            for i, s2 in self.eval(e.a[1], s, fr):
                t = self.mkidx(v, i)
                r.append((s2.heap.get(t, t), s2))
        return r

    def mkidx(self, v, i):
        v = self.contbase(v)
        if i.op == 'lv' and i.a[0] is NULL and i.a[1] in ('++', 'self'): return mk('elem', v)
        if lastidx(i, v): return mk('elem', v)
        if v.op == 'init' and is_num(i) and int(i.a[0]) < len(v.a): return v.a[int(i.a[0])]
        return mk('idx', v, i)

    def e_lambda(self, e, st, fr):
        t = mk('lam', '%s:%d' % (fr.func.file if fr.func else '', e.line), str(id(e)))
        self._lams[t] = (e, [dict(x) for x in fr.scopes], fr)
        return [(t, st)]

    def e_mem(self, e, st, fr):
        r = []
        for v, s in self.eval(e.a[0], st, fr):
            if v.op == 'abort': r.append((v, s)); continue
            if e.a[0].k == 'this': r.append((s.heap.get(self.member(e.a[1], fr), self.member(e.a[1], fr)), s)); continue
            r.append((self.mkfld(v, e.a[1], s), s))
        return r

    def mkfld(self, v, name, st=None, rd=True):
        if name.startswith('mutable_') and len(name) > 8: name = name[8:]
        if '::' in name: name = lastname(name)
        if name == 'get' or name == 'value_or_die': return v
        if name in ('c_str', 'string_view'): return v
        if name == 'length': name = 'size'
        if name == 'IsOk' or name == 'Ok': name = 'ok'
        op = v.op
        if op == 'found': v = v.a[0]; op = v.op
        if name == 'value' and op == 'call' and any('optional' in (f.ret or '') for f in self.repo.sigs.get(v.a[0], ())): return v
        if op == 'OK':
            if name == 'ok': return TRUE
            if name == 'error_code': return NULL
        elif op == 'status':
            if name == 'ok': return FALSE
            if name == 'error_code': return v.a[0]
        elif op == 'obj':
            for n, x in v.a[2]:
                if n == name: return x
            v = mk('obj', v.a[0], v.a[1], ())
        elif op == 'init':
            if name in ('first', 'second') and len(v.a) == 2: return v.a[0] if name == 'first' else v.a[1]
        elif op == 'const' and name in ('ok',): return v
        if op == 'sym' and v.a[0] == 'this': t = sym(name)
        elif name.endswith('_size') and len(name) > 5 and name not in ('batch_size', 'max_size', 'page_size'):
            t = mk('fld', mk('fld', v, name[:-5]), 'size')
        else: t = mk('fld', v, name)
        if rd and st is not None: return st.heap.get(t, t)
        return t

    # conditions ------------------------------------------------------------
    def cond(self, e, st, fr):
        """list of (truth, state)"""
        k = e.k
        if k == 'bin' and e.a[0] in ('&&', '||'):
            r = []
            for b, s in self.cond(e.a[1], st, fr):
                if b == (e.a[0] == '||'): r.append((b, s))
                else: r += self.cond(e.a[2], s, fr)
            return self.dedupe_c(r)
        if k == 'un' and e.a[0] == '!':
            return [(not b, s) for b, s in self.cond(e.a[1], st, fr)]
        if k == 'call' and e.a[0].k == 'name' and lastname(e.a[0].a[0]) in ('BAIDU_LIKELY', 'BAIDU_UNLIKELY', '__builtin_expect') and e.a[1]:
            return self.cond(e.a[1][0], st, fr)
        if k == 'cond':
            r = []
            for b, s in self.cond(e.a[0], st, fr): r += self.cond(e.a[1] if b else e.a[2], s, fr)
            return r
        if k == 'bin' and e.a[0] in ('==', '!='): kk = ('==', ekey(e.a[1]), ekey(e.a[2]))
        else: kk = ekey(e)
        trk = kk in fr.multi
        r = []
        for v, s in self.eval(e, st, fr):
            if v.op == 'abort': continue
            r += self.decide(truth(v), s, trk)
        return self.dedupe_c(r)

    def dedupe_c(self, r):
        if len(r) < 2: return r
        seen = set(); out = []
        for b, s in r:
            k = (b, s.key())
            if k not in seen: seen.add(k); out.append((b, s))
        return out

    def decide(self, t, st, trk):
        if t.op == 'const':
            t = truth(t)
            if t is TRUE: return [(True, st)]
            if t is FALSE: return [(False, st)]
        if t.op == 'not': return [(not b, s) for b, s in self.decide(t.a[0], st, trk)]
        if t.op in ('and', 'or'):
            r = []
            for b, s in self.decide(truth(t.a[0]), st, trk):
                if b == (t.op == 'or'): r.append((b, s))
                else: r += self.decide(truth(t.a[1]), s, trk)
            return r
        if t.op == 'OK': return [(True, st)]
        if t.op in ('ctor', 'guard'): return [(True, st)]
        v = self.known(t, st.lits)
        if v is not None: return [(v, st)]
        if trk and self.trackmulti or (t.op == 'sym' and self.trackmulti) or self.rule.track(t):
            r = []
            for b in (True, False):
                r.append((b, st.setlit(t, b)))
            return r
        return [(True, st), (False, st)]

    def known(self, t, lits):
        v = lits.get(t)
        if v is not None: return v
        op = t.op
        if op == 'eq':
            a, b = t.a
            if lits.get(mk('lt', a, b)) or lits.get(mk('lt', b, a)): return False
            cb = is_constlike(b)
            for x, xv in lits.items():
                if not xv: continue
                if x.op == 'eq' and cb and x.a[0] is a and is_constlike(x.a[1]): return False
                if a.op == 'fld' and a.a[1] == 'error_code' and x.op == 'fld' and x.a[1] == 'ok' and x.a[0] is a.a[0]: return False
                if x.op == 'lt' and x.a[0] is a and is_num(b) and is_num(x.a[1]) and int(b.a[0]) >= int(x.a[1].a[0]): return False
            return None
        if op == 'lt':
            a, b = t.a
            if lits.get(mk('lt', b, a)): return False
            if lits.get(mk('eq', a, b)) or lits.get(mk('eq', b, a)): return False
            if is_num(b):
                n = int(b.a[0])
                for x, xv in lits.items():
                    if x.op == 'lt' and x.a[0] is a and is_num(x.a[1]):
                        m = int(x.a[1].a[0])
                        if xv and m <= n: return True
                        if not xv and m >= n: return False
                    elif x.op == 'eq' and xv and x.a[0] is a and is_num(x.a[1]): return int(x.a[1].a[0]) < n
                    elif x is a and not xv: return 0 < n
            return None
        if op == 'fld' and t.a[1] == 'ok':
            for x, xv in lits.items():
                if xv and x.op == 'eq' and x.a[0].op == 'fld' and x.a[0].a[1] == 'error_code' and x.a[0].a[0] is t.a[0]: return False
            return None
        for x, xv in lits.items():
            if x.op == 'eq' and xv and x.a[0] is t and x.a[1].op == 'const' and x.a[1] is not NULL: return True
            if x.op == 'lt' and x.a[0] is t and is_num(x.a[1]):
                n = int(x.a[1].a[0])
                if xv and n <= 0: return True
                if not xv and n >= 1: return True
        return None

    # calls -----------------------------------------------------------------
    def e_call(self, e, st, fr, stmt=False):
        f, args = e.a
        ln = e.line
        if f.k == 'name':
            full = f.a[0]
            nm = lastname(full)
            if fr.pattern:
                r = self.pattern_call(nm, full, args, st, fr)
                if r is not None: return r
            if nm in PASS and args:
                if nm == 'static_cast' and f.a[1]:
                    return [(self.castto(f.a[1].replace('const', '').strip(), v), s) for v, s in self.eval(args[0], st, fr)]
                return self.eval(args[0], st, fr)
            if full in NARROW or (full in SCALAR and len(args) == 1) or full in ('std::string', 'std::string_view', 'std::int64_t'):
                if len(args) == 1: return [(self.castto(full, v), s) for v, s in self.eval(args[0], st, fr)]
                if not args: return [(mk('obj', 'string', '', ()), st)]
            if nm in LOGS: return [(mk('log'), st)]
            if nm == 'Status' and (full.startswith('butil') or full == 'Status'): return self.mkstatus(args, st, fr)
            if nm == 'OK' and 'Status' in full: return [(OK, st)]
            if nm in CHECKS or nm == 'assert': return [(mk('void'), st)]
            if nm in ('make_shared', 'make_unique'):
                bt = base_type(f.a[1])
                r = []
                for a, s in self.evals(args, st, fr):
                    s = self.lambdas(nm + '_' + bt, a, s, fr)
                    for s in s:
                        s2 = self.event('call', mk('call', 'new_' + bt, NONE, *a), s, ln)
                        r.append((mk('ctor', bt, *a) if a else mk('obj', bt, 'new%d' % ln, ()), s2))
                return r
            if nm in ('make_pair', 'make_tuple'):
                return [(mk('init', *a), s) for a, s in self.evals(args, st, fr)]
            if nm == 'pair' and full.startswith('std::'):
                return [(mk('init', *a), s) for a, s in self.evals(args, st, fr)]
            if full == 'fmt::format' or nm == 'StringPrintf': return [(STR, st)]
            if nm in ('min', 'max') and full in ('std::min', 'std::max') and len(args) == 2 or (nm in ('MIN', 'MAX') and len(args) == 2):
                return [(mk('call', nm.lower(), NONE, *sorted(a, key=show)), s) for a, s in self.evals(args, st, fr)]
            if nm == 'swap' and len(args) == 2:
                r = []
                for l1, s in self.lval(args[0], st, fr):
                    for l2, s2 in self.lval(args[1], s, fr):
                        v1, v2 = self.readl(l1, s2), self.readl(l2, s2)
                        s2 = self.assign(l1, v2, s2, fr, ln)
                        r.append((mk('void'), self.assign(l2, v1, s2, fr, ln)))
                return r
            if nm in ALG and full.startswith('std::'): return self.alg(nm, args, st, fr, ln)
            if nm in ('exit', 'abort', '_exit', 'quick_exit', 'terminate'):
                self.event('call', mk('call', 'FATAL', NONE), st, ln)
                return [(mk('abort'), st)]
            if nm in ('bthread_mutex_lock', 'pthread_mutex_lock') and args:
                return [(NULL, self.event('call', mk('call', 'LOCK', NONE, v), s, ln)) for v, s in self.eval(args[0], st, fr)]
            if nm in ('bthread_mutex_unlock', 'pthread_mutex_unlock') and args:
                return [(NULL, self.event('call', mk('call', 'UNLOCK', NONE, v), s, ln)) for v, s in self.eval(args[0], st, fr)]
            key = fr.key(nm) if '::' not in full else None
            if key is not None and st.env.get(key) is not None and st.env[key].op == 'lam':
                return self.call_lambda(st.env[key], args, st, fr, ln)
            if '::' not in full and fr.recv is not None and self.find_func(nm, len(args), fr, None) is None:
                return self.generic(nm, full, None, args, st, fr, ln, stmt)
            return self.generic(nm, full, None, args, st, fr, ln, stmt)
        if f.k == 'mem':
            nm = lastname(f.a[1])
            return self.method(e, f, nm, args, st, fr, ln, stmt)
        if f.k == 'lambda':
            r = []
            for v, s in self.eval(f, st, fr): r += self.call_lambda(v, args, s, fr, ln)
            return r
        r = []
        for v, s in self.eval(f, st, fr):
            if v.op == 'lam': r += self.call_lambda(v, args, s, fr, ln); continue
            for a, s2 in self.evals(args, s, fr):
                t = mk('call', '()', v, *a)
                r.append((t, self.event('call', t, s2, ln)))
        return r

    def pattern_call(self, nm, full, args, st, fr):
        ev = lambda x: self.eval(x, st, fr)[0][0]
        if nm == 'INOUT': return [(mk('inout', ev(args[0])), st)]
        if nm == 'OUT':
            i = '_' if len(args) < 2 else 'this' if args[1].k == 'this' else num_text(args[1].a[0])
            return [(mk('out', ev(args[0]), i), st)]
        if nm == 'ELEM': return [(mk('elem', ev(args[0])), st)]
        if nm == 'ANY': return [(mk('alt', *[ev(x) for x in args]), st)]
        if nm == 'HAS': return [(mk('mention', ev(args[0])), st)]
        if nm == 'OBJ':
            # OBJ(Type, field, pattern, field, pattern...)
            ty = args[0].a[0]
            fs = []
            for i in range(1, len(args), 2): fs.append((args[i].a[0], ev(args[i + 1])))
            return [(mk('obj', lastname(ty), '_', tuple(fs)), st)]
        if nm == 'ROLE': return [(mk('obj', lastname(args[0].a[0]), '@%s:%s@' % (args[1].a[0], num_text(args[2].a[0])), ()), st)]
        if nm == 'INIT': return [(mk('init', *[ev(x) for x in args]), st)]
        if nm == 'CTOR': return [(mk('ctor', args[0].a[0], *[ev(x) for x in args[1:]]), st)]
        if nm == 'LV': return [(mk('lv', *( [ev(args[0]), '_' if len(args) < 2 else args[1].a[0].strip('"')])), st)]
        if nm == 'CAST': return [(mk('cast', args[0].a[0], ev(args[1])), st)]
        if nm == 'STATUS': return [(mk('status', ev(args[0])), st)]
        if nm == 'FOUND': return [(mk('found', ev(args[0])), st)]
        if nm == 'EMPTYSTR': return [(mk('obj', 'string', '', ()), st)]
        if nm == 'STR': return [(STR, st)]
        if nm == 'OLD': return [(mk('old', ev(args[0])), st)]
        if nm == 'DELETE': return [(mk('call', 'delete', NONE, ev(args[0])), st)]
        if nm == 'LSET': return [(mk('lset', ev(args[0])), st)]
        if nm == 'LAM': return [(mk('lam', '_', '_'), st)]
        if nm == 'UNINIT': return [(mk('uninit', '_'), st)]
        return None

    def method(self, e, f, nm, args, st, fr, ln, stmt):
        obj = f.a[0]
        r = []
        n = len(args)
        # field-like access and setters through lvalues
        if n == 0 and nm not in MUT and not nm.startswith('add_') and not nm.startswith('release_'):
            for v, s in self.eval(obj, st, fr):
                if v.op == 'abort': r.append((v, s)); continue
                if nm in ('lock', 'unlock', 'lock_shared', 'unlock_shared') and stmt:
                    r.append((mk('void'), self.event('call', mk('call', 'LOCK' if nm.startswith('lock') else 'UNLOCK', NONE,
                                                                v.a[0] if v.op == 'lockguard' else v), s, ln)))
                    continue
                if nm == 'load': r.append((v, s)); continue
                if nm == 'OK' and v is OK: r.append((v, s)); continue
                if v.op == 'guard' or v.op == 'released': pass
                fn = self.find_method(nm, 0, v, obj, fr)
                if fn is not None:
                    r += self.call_func(fn, [], [], s, fr, ln, recv=v if obj.k != 'this' else fr.recv)
                    continue
                if obj.k == 'this':
                    t = self.member(nm, fr) if False else mk('call', nm, sym('this'))
                    r += self.generic(nm, nm, None, args, s, fr, ln, stmt)
                    continue
                if nm == 'value' and v.op not in ('obj',) and v.op in ('call',) and not self.pb_like(v): pass
                t = self.mkfld(v, nm, s)
                if stmt:
                    # a statement call on an object: an effect
                    ct = mk('call', nm, v)
                    s = self.event('call', ct, s, ln)
                    if nm in ('clear',): pass
                    r.append((ct, s)); continue
                s2 = self.event('get', mk('call', nm, v), s, ln)
                r.append((t, s2))
            return r
        if n == 0 and nm in ('Next', 'Prev', 'SeekToFirst', 'SeekToLast', 'clear', 'Clear', 'pop_back', 'pop_front', 'pop', 'reset',
                             'next', 'release', 'swap'):
            for l, s in self.lval(obj, st, fr):
                v = self.readl(l, s)
                if nm == 'release' and v.op == 'guard':
                    s = self.event('call', mk('call', 'guard_release', NONE, v.a[1]), s, ln)
                    s = self.assign(l, mk('released', v), s, fr, ln)
                    r.append((v.a[1], s)); continue
                if nm in ('Release', 'release') and v.op == 'obj' and v.a[0] == 'ScopeGuard':
                    r.append((NULL, self.assign(l, mk('released', v), s, fr, ln))); continue
                fn = self.find_method(nm, 0, v, obj, fr)
                if fn is not None:
                    r += self.call_func(fn, [], [], s, fr, ln, recv=v if obj.k != 'this' else fr.recv)
                    continue
                bv = self.contbase(v)
                ct = mk('call', nm, bv)
                s = self.event('call', ct, s, ln)
                if nm in ('clear', 'Clear', 'reset') and l[0] == 'var' and not l[2] and v.op == 'obj':
                    s = s.setenv(l[1], bv)
                elif nm in ('clear', 'Clear', 'reset') and l[0] == 'var' and not l[2] and l[1] in self.outkeys:
                    s = s.setenv(l[1], self.outkeys[l[1]])
                pre = s.lits
                s = self.purge_recv(s, bv)
                if nm in ITMOVE: s = self.moved(s, bv, pre)
                if nm == 'clear' and v.op == 'out': s = self.assume_empty(s, bv, True)
                r.append((ct, s))
            return r
        if n == 0 and nm in ('Release',):
            for l, s in self.lval(obj, st, fr):
                v = self.readl(l, s)
                if v.op == 'obj' and v.a[0] == 'ScopeGuard':
                    r.append((NULL, self.assign(l, mk('released', v), s, fr, ln)))
                else: r.append((mk('call', nm, v), self.event('call', mk('call', nm, v), s, ln)))
            return r
        if nm.startswith('set_') and n >= 1 and nm not in ('set_error',):
            for a, s in self.evals(args[:1], st, fr):
                for l, s2 in self.lval(obj, s, fr):
                    l2 = self.extend(l, nm[4:], s2)
                    r.append((mk('void'), self.assign(l2, a[0], s2, fr, ln)))
            return r
        if nm == 'set_error' and n >= 1:
            for a, s in self.evals(args[:1], st, fr):
                for l, s2 in self.lval(obj, s, fr):
                    r.append((mk('void'), self.assign(l, mk('status', a[0]), s2, fr, ln)))
            return r
        if nm in ('store',) and n in (1, 2):
            for a, s in self.evals(args[:1], st, fr):
                for l, s2 in self.lval(obj, s, fr):
                    r.append((mk('void'), self.assign(l, a[0], s2, fr, ln)))
            return r
        if nm in ('CopyFrom', 'assign') and n == 1:
            for a, s in self.evals(args, st, fr):
                for l, s2 in self.lval(obj, s, fr):
                    r.append((mk('void'), self.assign(l, a[0], s2, fr, ln)))
            return r
        if nm in ('swap', 'Swap') and n == 1:
            for l1, s in self.lval(obj, st, fr):
                for l2, s2 in self.lval(args[0].a[1] if args[0].k == 'un' and args[0].a[0] == '&' else args[0], s, fr):
                    v1, v2 = self.readl(l1, s2), self.readl(l2, s2)
                    if nm == 'Swap' and l1[0] == 'var' and not l1[2] and l1[1] not in self.valkeys and v1.op in ('fld', 'call', 'elem'):
                        l1 = ('term', v1)
                    s2 = self.assign(l1, v2, s2, fr, ln)
                    r.append((mk('void'), self.assign(l2, v1, s2, fr, ln)))
            return r
        if nm in ('at', 'Get', 'operator[]') and n == 1:
            for v, s in self.eval(obj, st, fr):
                fn = self.find_method(nm, 1, v, obj, fr)
                for i, s2 in self.eval(args[0], s, fr):
                    if nm == 'Get' and not (i.op in ('lv', 'const')):
                        r.append(self.opaque_call(nm, v, args, (i,), s2, fr, ln)); continue
                    t = self.mkidx(v, i)
                    r.append((s2.heap.get(t, t), s2))
            return r
        if n == 1 and nm.islower() and nm not in MUT and not nm.startswith('add_') and nm not in ('count', 'find', 'contains', 'compare'):
            for v, s in self.eval(obj, st, fr):
                for i, s2 in self.eval(args[0], s, fr):
                    if i.op == 'lv' and v.op != 'lam':
                        nm2 = nm[8:] if nm.startswith('mutable_') else nm
                        r.append((self.mkidx(self.mkfld(v, nm2, s2), i), s2))
                    elif is_num(i) and nm not in ('resize', 'reserve', 'substr', 'wait'):
                        nm2 = nm[8:] if nm.startswith('mutable_') else nm
                        r.append((self.mkidx(self.mkfld(v, nm2, s2), i), s2))
                    elif v.op == 'lam': r += self.call_lambda(v, args, s, fr, ln)
                    else: r.append(self.opaque_call(nm, v, args, (i,), s2, fr, ln))
            return r
        if obj.k == 'this':
            return self.generic(nm, nm, None, args, st, fr, ln, stmt)
        for v, s in self.eval(obj, st, fr):
            if v.op == 'abort': r.append((v, s)); continue
            r += self.generic(nm, nm, (obj, v), args, s, fr, ln, stmt)
        return r

    def pb_like(self, v): return True

    # inlining --------------------------------------------------------------
    def fmention(self, fn, depth=3, seen=None):
        k = (id(fn), depth)
        r = self._mention.get(k)
        if r is not None: return r
        seen = seen or set()
        seen.add(id(fn))
        ids = set(idents(fn.body()))
        if depth > 0:
            unit = self.repo.unit(fn.file)
            byname = self.byname(unit)
            for x in list(ids):
                for g in byname.get(x, ()):
                    if id(g) not in seen and g.name not in self.rule.opaque:
                        ids = ids | self.fmention(g, depth - 1, set(seen))
        self._mention[k] = ids
        return ids

    def byname(self, unit):
        b = getattr(unit, '_byname', None)
        if b is None:
            b = {}
            for f in unit.funcs: b.setdefault(f.name, []).append(f)
            unit._byname = b
        return b

    def cand_units(self, fr):
        us = [fr.unit]
        rel = fr.unit.rel
        if rel.endswith('.cc'):
            h = self.repo.try_unit(rel[:-3] + '.h')
            if h: us.append(h)
        elif rel.endswith('.h'):
            h = self.repo.try_unit(rel[:-2] + '.cc')
            if h: us.append(h)
        for f in self.rule.files:
            u = self.repo.unit(f)
            if u not in us: us.append(u)
            if f.endswith('.cc'):
                h = self.repo.try_unit(f[:-3] + '.h')
                if h and h not in us: us.append(h)
        return us

    def find_func(self, nm, nargs, fr, quals):
        if nm in self.rule.opaque: return None
        for u in self.cand_units(fr):
            c = [f for f in self.byname(u).get(nm, ()) if self.arity(f, nargs)]
            if quals:
                c2 = [f for f in c if f.cls == quals]
                if not c2: c2 = [f for f in c if f.cls is None]
                c = c2
            else:
                c = [f for f in c if f.cls is None or self.same_cls(f.cls, fr.cls)]
            if c: return c[0]
        return None

    def same_cls(self, a, b):
        if a == b: return True
        seen = set(); st = [b]
        while st:
            c = st.pop()
            if c is None or c in seen: continue
            seen.add(c)
            if c == a: return True
            for u in self.repo.units.values(): st.extend(u.bases.get(c, ()))
        return False

    def arity(self, f, n):
        hi = len(f.params)
        lo = sum(1 for p in f.params if not p[2])
        if f.isdecl is False and lo <= n <= hi: return True
        # defaults live on the declaration
        if n < hi:
            for d in self.repo.sigs.get(f.name, ()):
                if d.isdecl and len(d.params) == hi and sum(1 for p in d.params if not p[2]) <= n: return True
        return False

    def want_inline(self, fn, fr):
        if fn.name in self.rule.opaque: return False
        if fr.depth >= self.rule.maxdepth: return False
        if fn.name in self.rule.inline: return True
        if self.is_new(fn): return True
        if not self.rule.autoinline or not self.rule.keys: return False
        if (fn.endline - fn.line) > 400: return False
        return bool(self.fmention(fn) & self.rule.keys)

    known_funcs = None
    def is_new(self, fn):
        """not in the reference inventory: a helper introduced later, always followed"""
        if not self.known_funcs: return False
        return '%s|%s|%d' % (fn.file.replace('src/', '', 1), fn.qual(), len(fn.params)) not in self.known_funcs

    def find_method(self, nm, n, v, obj, fr):
        """inline candidate for a method called on an object."""
        if nm in self.rule.opaque: return None
        if obj.k == 'this':
            fn = self.find_func(nm, n, fr, None)
            return fn if fn is not None and fn.cls is not None and self.want_inline(fn, fr) else None
        if nm in self.rule.inline:
            for u in self.cand_units(fr):
                c = [f for f in self.byname(u).get(nm, ()) if self.arity(f, n) and f.cls is not None]
                if c: return c[0]
        if self.known_funcs and nm in self.repo.sigs and nm not in self.rule.opaque and fr.depth < self.rule.maxdepth:
            for u in self.cand_units(fr):
                c = [f for f in self.byname(u).get(nm, ()) if self.arity(f, n) and f.cls is not None and self.is_new(f)]
                if len(c) == 1: return c[0]
        return None

    def call_func(self, fn, args, vals, st, fr, ln, recv=None):
        """inline a call. vals: list of ('val', T) or ('ref', lvalue)"""
        self.inlined.add('%s:%d %s' % (fn.file, fn.line, fn.qual()))
        unit = self.repo.unit(fn.file)
        nf = self.newframe(fn, fn.cls, unit, recv, fr.depth + 1)
        env = dict(st.env)
        keys = []
        for i, (n, ty, dflt) in enumerate(fn.params):
            if not n: continue
            k = (nf.fid, n, 0)
            nf.scopes[0][n] = k
            keys.append(k)
            if i < len(vals):
                kind, v = vals[i]
                if kind == 'ref':
                    if v[0] == 'var': env[k] = mk('alias', v[1], v[2])
                    else: env[k] = self.readl(v, st)
                else: env[k] = v
            else: env[k] = mk('default', n)
        s0 = St(env, st.heap, st.lits, st.trace)
        o = self.exec(fn.body(), [s0], nf)
        r = []
        for s in o.nxt: r.append((mk('void'), s.dropenv(keys)))
        for s, t, _ in o.rets: r.append((t, s.dropenv(keys)))
        # drop leftovers of the frame
        out = []
        seen = set()
        for t, s in r:
            left = [k for k in s.env if k[0] == nf.fid]
            if left: s = s.dropenv(left)
            k = (t, s.key())
            if k not in seen: seen.add(k); out.append((t, s))
        if len(out) > self.rule.maxstates: raise TooBig('too many states inlining %s' % fn.name)
        return out

    def prep_args(self, fn, args, st, fr):
        """evaluate args for an inlined function, keeping references as lvalues."""
        r = [([], st)]
        for i, a in enumerate(args):
            n = []
            ty = fn.params[i][1] if i < len(fn.params) else ''
            ref = ('&' in ty and not ty.startswith('const') and '&&' not in ty) or '*' in ty
            ref = ref and a.k in ('name', 'mem', 'un', 'call') and not (a.k == 'call' and not (a.a[0].k == 'mem' and a.a[0].a[1].startswith('mutable_')))
            if a.k == 'un' and a.a[0] not in ('*', '&'): ref = False
            for vs, s in r:
                if ref:
                    for l, s2 in self.lval(a, s, fr): n.append((vs + [('ref', l)], s2))
                else:
                    for v, s2 in self.eval(a, s, fr):
                        if v.op != 'abort': n.append((vs + [('val', v)], s2))
            r = n
        return r

    def call_lambda(self, lam, args, st, fr, ln, vals=None):
        e, scopes, lfr = self._lams[lam]
        cap, params, body = e.a
        if fr.depth >= self.rule.maxdepth + 2:
            return [(mk('call', 'lambda', NONE), st)]
        nf = self.newframe(lfr.func, lfr.cls, lfr.unit, lfr.recv, fr.depth + 1)
        nf.scopes = [dict(x) for x in scopes] + [{}]
        nf.multi = lfr.multi
        r0 = [([], st)]
        if vals is not None: r0 = [([('val', v) for v in vals], st)]
        else:
            class P: pass
            p = P(); p.params = params
            r0 = self.prep_args(p, args, st, fr)
        out = []
        for vs, s in r0:
            env = dict(s.env)
            keys = []
            for i, (n, ty, d) in enumerate(params):
                k = (nf.fid, n, 0)
                nf.scopes[-1][n] = k
                keys.append(k)
                if i < len(vs):
                    kind, v = vs[i]
                    if kind == 'ref' and v[0] == 'var': env[k] = mk('alias', v[1], v[2])
                    elif kind == 'ref': env[k] = self.readl(v, s)
                    else: env[k] = v
                else: env[k] = sym(n)
            o = self.exec(body, [St(env, s.heap, s.lits, s.trace)], nf)
            for x in o.nxt: out.append((mk('void'), x.dropenv(keys)))
            for x, t, _ in o.rets: out.append((t, x.dropenv(keys)))
        return out

    def alg(self, nm, args, st, fr, ln):
        r = []
        for a, s in self.evals(args, st, fr):
            if len(a) < 3 or a[2].op != 'lam':
                t = mk('call', nm, NONE, *a)
                r.append((t, self.event('call', t, s, ln)))
                continue
            c = a[0]
            c = c.a[0] if c.op == 'fld' and c.a[1] in ('begin', 'cbegin') else c
            el = mk('elem', self.contbase(c))
            lam = a[2]
            node = E('alg', (), ln)
            done = []
            seen = set()
            work = [s]
            names = idents(self._lams[lam][0])
            res_end = {'for_each': mk('void'), 'any_of': FALSE, 'all_of': TRUE, 'none_of': TRUE, 'find_if': mk('fld', c, 'end'),
                       'count_if': mk('call', 'count_if', NONE, c)}[nm]
            while work:
                new = []
                for x in work:
                    if x.key() in seen: continue
                    seen.add(x.key()); new.append(x)
                work = []
                for x in new:
                    done.append((res_end, x))
                    x = self.iter_start(x, const('L%d' % ln), names, el, {})
                    for v, y in self.call_lambda(lam, None, x, fr, ln, vals=[el]):
                        if nm in ('for_each', 'count_if'):
                            self.rule.on_iter(node, c, y, 'end', ln, self)
                            work.append(y); continue
                        for b, z in self.decide(truth(v), y, False):
                            stop = (b if nm in ('any_of', 'none_of', 'find_if') else not b)
                            self.rule.on_iter(node, c, z, 'break' if stop else 'end', ln, self)
                            if stop:
                                done.append(({'any_of': TRUE, 'all_of': FALSE, 'none_of': FALSE, 'find_if': mk('found', el)}[nm], z))
                            else: work.append(z)
            r += done
        return r

    def lambdas(self, name, a, st, fr):
        """lambda arguments of an opaque call: run them 0..1 times when they hold relevant code."""
        sts = [st]
        for v in a:
            if v.op != 'lam' or v not in self._lams: continue
            mode = self.rule.lambda_calls.get(name)
            if mode is None:
                e = self._lams[v][0]
                ids = idents(e)
                # look one level down for relevance
                rel = bool(ids & self.rule.keys)
                if not rel:
                    for x in ids:
                        for g in self.byname(fr.unit).get(x, ()):
                            if g.name not in self.rule.opaque and self.fmention(g) & self.rule.keys: rel = True
                mode = 'maybe' if rel else 'skip'
            if mode == 'skip': continue
            nx = []
            for s in sts:
                if mode == 'maybe': nx.append(s)
                e = self._lams[v][0]
                names = [p[0] for p in e.a[1]]
                if isinstance(mode, tuple) and mode[0] and len(mode) == len(names): names = list(mode)
                for rv, s2 in self.call_lambda(v, None, s, fr, e.line, vals=[sym(x) for x in names]):
                    if isinstance(mode, tuple) and rv.op not in ('void', 'abort'):
                        if rv.op in ('lt', 'eq', 'not', 'and', 'or') or truth(rv) in (TRUE, FALSE):
                            for b, s3 in self.decide(truth(rv), s2, True):
                                nx.append(self.event('call', mk('call', 'LAMRET', NONE, mk('sym', name), TRUE if b else FALSE), s3, e.line))
                        else: nx.append(self.event('call', mk('call', 'LAMRET', NONE, mk('sym', name), rv), s2, e.line))
                    else: nx.append(s2)
            sts = dedupe(nx)
        return sts

    def generic(self, nm, full, recv, args, st, fr, ln, stmt):
        n = len(args)
        fn = None
        if recv is None:
            q = full.split('::')
            quals = q[-2] if len(q) > 1 else None
            fn = self.find_func(nm, n, fr, quals)
            if fn is not None and not self.want_inline(fn, fr): fn = None
            if fn is not None and fr.func is fn: fn = None
        else:
            if recv[1].op == 'lam' : return self.call_lambda(recv[1], args, st, fr, ln)
            fn = self.find_method(nm, n, recv[1], recv[0], fr)
        if fn is not None:
            r = []
            rv = None
            if recv is not None: rv = recv[1]
            elif fn.cls is not None and self.same_cls(fn.cls, fr.cls): rv = fr.recv
            for vs, s in self.prep_args(fn, args, st, fr):
                r += self.call_func(fn, args, vs, s, fr, ln, recv=rv)
            return r
        # opaque
        r = []
        for a, s in self.evals(args, st, fr):
            r.append(self.opaque_call(nm, recv[1] if recv is not None else None, args, a, s, fr, ln, recvexpr=recv[0] if recv else None, full=full))
        # lambdas passed along
        if any(x.op == 'lam' for _, s in r for x in ()): pass
        out = []
        for t, s in r:
            lam = [x for x in t.a[2:] if x.op == 'lam'] if t.op == 'call' else []
            if lam:
                for s2 in self.lambdas(nm, lam, s, fr): out.append((t, s2))
            else: out.append((t, s))
        return out

    def outargs(self, nm, args, recv, full=None):
        """indexes of arguments that the callee may write."""
        n = len(args)
        r = set()
        if nm in self.rule.noout: return r
        cands = [f for f in self.repo.sigs.get(nm, ()) if len(f.params) >= n and
                 sum(1 for p in f.params if not p[2]) <= n and not (f.params and 'RpcController' in f.params[0][1])]
        if full and recv is None and '::' in full:
            own = [f for f in cands if f.cls == full.split('::')[-2]]
            if own: cands = own
        exact = [f for f in cands if len(f.params) == n]
        if exact: cands = exact
        for i, a in enumerate(args):
            if a.k == 'un' and a.a[0] == '&':
                if not cands or not all(f.params[i][1].startswith('const') for f in cands): r.add(i)
            elif cands and a.k in ('name', 'mem') or (cands and a.k == 'un' and a.a[0] == '*'):
                def wr(ty):
                    return '&' in ty and '&&' not in ty and not ty.startswith('const') and 'const' not in ty.split('<')[0]
                if all(wr(f.params[i][1]) for f in cands): r.add(i)
        return r

    def opaque_call(self, nm, recv, args, a, st, fr, ln, recvexpr=None, full=None):
        if nm == 'emplace_back': nm = 'push_back'
        elif nm == 'emplace_front': nm = 'push_front'
        elif nm == 'emplace': nm = 'insert'
        if nm == 'insert' and len(a) == 1 and a[0].op == 'init' and len(a[0].a) == 2: a = (a[0].a[0], a[0].a[1])
        if nm in ('ParseFromString', 'ParsePartialFromString') and recv is not None and len(a) == 1:
            # object := PARSE(bytes)
            rr = recv
            t = mk('call', 'ParseFromString', NONE, a[0])
            if recvexpr is not None:
                for l, s in self.lval(recvexpr, st, fr)[:1]:
                    st = self.assign(l, mk('out', t, 'this'), s, fr, ln)
            return t, self.event('call', t, st, ln)
        if nm == 'load' and recv is not None and not fr.pattern and all(x.op == 'sym' and 'memory_order' in x.a[0] for x in a): return (recv if recv.op != 'obj' else self.contbase(recv)), st
        if nm in ('load', 'fetch_add', 'fetch_sub', 'exchange', 'compare_exchange_strong', 'compare_exchange_weak'):
            a = tuple(x for x in a if not (x.op == 'sym' and 'memory_order' in x.a[0]))
        outs = self.outargs(nm, args, recv, full) if args and not fr.pattern and not nm.startswith(('bthread_', 'pthread_')) else ()
        ta = list(a)
        for i in outs:
            if i < len(ta):
                v = ta[i]
                if nm == 'Scan' and v.op == 'out' and st.lits.get(mk('fld', self.contbase(v), 'empty')) is not True:
                    st = self.event('call', mk('call', 'REUSE', NONE, v), st, ln)
                if v.op == "obj" and v.a[2]: st = self.event("call", mk("call", "IN", NONE, mk('sym', nm), const(i), v), st, ln)
                ta[i] = mk('inout', v) if nm in INOUT and v.op in ('call', 'fld', 'elem', 'out') else OUTARG
        ta = [self.freeze(x) for x in ta]
        rv = recv if recv is not None else NONE
        if rv.op == 'obj': rv = self.contbase(rv)
        t = mk('call', nm, rv, *ta)
        st = self.event('call', t, st, ln)
        if nm in HAVOC and not fr.pattern: st = self.havoc(st, self.loopids[-1] if nm == 'bthread_usleep' and self.loopids else None)
        if recv is not None and nm in MUT:
            pre = st.lits
            st = self.purge_recv(st, self.contbase(recv))
            if nm in ITMOVE: st = self.moved(st, self.contbase(recv), pre)
        if recv is not None and not fr.pattern and nm.startswith(('add_', 'clear_')):
            f = mk('fld', self.contbase(recv), nm.split('_', 1)[1])
            if nm[0] == 'c': st = self.purge(st, f)
            else: st = self.purge(self.purge(st, mk('fld', f, 'empty')), mk('fld', f, 'size'))
            if not a: st = self.assume_empty(st, mk('fld', self.contbase(recv), nm.split('_', 1)[1]), nm[0] == 'c')
        if recv is not None and not fr.pattern and nm in ('push_back', 'push_front', 'Add'):
            st = self.assume_empty(st, self.contbase(recv), False)
        for i in outs:
            if i >= len(args): continue
            for l, s in self.lval(args[i], st, fr)[:1]:
                if l[0] == 'var' and not l[2]:
                    cur = s.env.get(l[1])
                    if cur is not None and cur.op == 'sym' and l[1] not in self.outkeys and args[i].k != 'un':
                        st = s; continue
                    if cur is not None and cur.op == 'sym' and l[1] in self.outkeys and base_type(self.ptype(fr, args[i])) in ('Context', 'RawEngine', 'Region'):
                        st = s; continue
                if l[0] == 'term' and l[1].op in ('sym', 'call', 'ctor') and args[i].k != 'un':
                    st = s; continue
                st = self.assign(l, mk('out', t, str(i)), s, fr, ln)
        return t, st

    def assume_empty(self, st, c, v):
        lits = dict(st.lits); lits[mk('fld', c, 'empty')] = v
        return St(st.env, st.heap, lits, st.trace)

    def havoc(self, st, only=None):
        """other threads ran: forget everything known about members (after a plain sleep: those the enclosing loop looks at)"""
        def shared(t):
            if t.op == 'sym': return (t.a[0].endswith('_') or t.a[0].startswith('is_')) and (only is None or t.a[0] in only)
            return any(shared(c) for c in children(t))
        return St(st.env, {k: v for k, v in st.heap.items() if not shared(k)}, {k: v for k, v in st.lits.items() if not shared(k)}, st.trace)

    def ptype(self, fr, a):
        if a.k == 'name' and fr.func is not None:
            for n, ty, d in fr.func.params:
                if n == a.a[0]: return ty
        return ''

    def freeze(self, x): return x


# -------------------------------------------------------------------- patterns
def lastname_of(e):
    if e.k == 'name': return e.a[0].split('::')[-1]
    if e.k == 'mem': return e.a[1]
    return None


class _PatRule(Rule):
    pass


_pat_cache = {}

def pattern(src):
    """Compile a pattern expression (C++-like) into a term."""
    t = _pat_cache.get(src)
    if t is None:
        t = _compile(src)
        _pat_cache[src] = t
    return t


class _NoRepo:
    sigs = {}
    def is_field(self, c, n): return False


def _compile(src):
    from .lex import tokenize
    from .cxx import Parser
    toks = tokenize(src, pp=False)
    p = Parser(toks)
    e = p.init_or_assign()
    if p.i != len(toks) - 1: raise ValueError('bad pattern %r at %d' % (src, p.i))
    ex = Explorer(_NoRepo(), _PatRule())
    fr = Frame()
    fr.fid = 0; fr.func = None; fr.cls = None; fr.unit = None; fr.recv = None; fr.scopes = [{}]; fr.depth = 0
    fr.multi = frozenset(); fr.pattern = True; fr.base = None
    class U: funcs = []; rel = '<pattern>'
    fr.unit = U()
    st = St({}, {}, {}, ())
    return ex.eval(e, st, fr)[0][0]
