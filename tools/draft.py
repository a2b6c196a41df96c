#!/usr/bin/env python3
"""draft.py FILE Cls::Fn [n=] [ev=regex] [xev=regex] [inl=a,b] [opq=a,b] [keys=a,b] [files=..] [sets] [lsets]
Authoring aid (not used by any check): lists the events of a function with a minimal condition under which each happens."""
import sys, re, time, os
sys.dont_write_bytecode = True
sys.path.insert(0, '/verif')
from fe.repo import Repo
from fe.explore import *
from fe.term import *
from fe.spec import Fn
A = dict(a.split('=', 1) for a in sys.argv[3:] if '=' in a)
F = [a for a in sys.argv[3:] if '=' not in a]
r = Repo(); r.headers()
xre = re.compile(A.get('xev', r'^$')); ere = re.compile(A.get('ev', '.'))
NOISE = re.compile(r'^((.*\.)?(Timestamp(Us|Ms|Ns)?|WorkerNum|GetInstance|bvar.*|Trace|SleepUs|reserve|gettimeofday_us|StatusToString|StringToHex|ToHex|.*PrintDebug.*|.*ToHex.*|GetId|Bvar.*|HumanReadable.*)$|_?DINGO|LOG|FLAGS|fmt|.*\.(size|empty|begin|end|first|second|id|Id|Name|data|c_str|ToString|ShortDebugString|find|count|ok|error_code|error_str|status)$)')
GET = re.compile(r'(^|\.)(get|is|has)_?[a-z_]*\(\)$')

class D(Rule):
    autoinline = False
    maxstates = 30000
    widen = A.get('widen') or 'widen' in F
    inline = frozenset(A.get('inl', '').split(',')) - {''}
    opaque = frozenset(A.get('opq', '').split(',')) - {''}
    cap = int(A['cap']) if 'cap' in A else None
    noout = tuple(A.get('noout', '').split(','))
    keys = frozenset(A.get('keys', '').split(',')) - {''}
    files = tuple(x for x in A.get('files', '').split(',') if x)
    lambda_calls = {k: tuple(v.split('|')) for k, v in (x.split(':') for x in A['lam'].split(','))} if 'lam' in A else {}
    def __init__(s): s.ev = {}; s.exits = []; s.iters = {}
    def track(s, a):
        return not ('trk' in A) or bool(re.search(A['trk'], show(a)))
    def label(s, k, t):
        if k == 'lset' and 'lsets' not in F: return None
        if k == 'get': return None
        x = show(t)
        if not ere.search(x) or xre.search(x) and 'xev' in A: return None
        if k == 'call' and 'calls' not in F:
            if t.op == 'call' and NOISE.match(str(t.a[0])): return None
        return 'e'
    def on_event(s, k, t, st, line, lab, ex): s.ev.setdefault(t, []).append((line, k, st.lits, [x[1] for x in st.trace if x[0] != '@iter'], ex.curfile))
    def on_exit(s, st, t, line, ex): s.exits.append((t, st.lits, st.trace, line))
    def on_iter(s, loop, cont, st, how, line, ex):
        tr = st.trace; m = ('@iter', const('L%d' % loop.line))
        for i in range(len(tr) - 1, -1, -1):
            if tr[i] == m: tr = tr[i + 1:]; break
        s.iters.setdefault((loop.line, cont), []).append((how, st.lits, [x[1] for x in tr if x[0] != '@iter']))

def pat(t, top=False):
    if t.__class__ is not T: return str(t)
    op, a = t.op, t.a
    if op in ('sym', 'const'):
        return a[0] if re.fullmatch(r'-?[\w.:]+', a[0]) else '_'
    if op == 'none': return ''
    if op == 'OK': return 'OK'
    if op == 'call':
        nm = 'DELETE' if a[0] == 'delete' else a[0] if re.fullmatch(r'[\w~]+', a[0]) else '_'
        return ('%s.' % par(a[1]) if a[1] is not NONE else '') + nm + '(' + ', '.join(pat(x) for x in a[2:]) + ')'
    if op == 'fld': return '%s.%s' % (par(a[0]), a[1])
    if op == 'old': return 'OLD(%s)' % pat(a[0])
    if op == 'elem': return 'ELEM(%s)' % pat(a[0])
    if op == 'idx': return '%s[%s]' % (par(a[0]), pat(a[1]))
    if op == 'bin': return '(%s %s %s)' % (pat(a[1]), a[0], pat(a[2]))
    if op == 'un': return '(%s%s)' % (a[0], pat(a[1]))
    if op == 'lt': s = '%s < %s' % (pat(a[0]), pat(a[1])); return s if top else '(%s)' % s
    if op == 'eq': s = '%s == %s' % (pat(a[0]), pat(a[1])); return s if top else '(%s)' % s
    if op == 'not': return '!(%s)' % pat(a[0])
    if op == 'and': return '(%s && %s)' % (pat(a[0]), pat(a[1]))
    if op == 'or': return '(%s || %s)' % (pat(a[0]), pat(a[1]))
    if op == 'out': return 'OUT(%s, %s)' % (pat(a[0]), a[1])
    if op == 'obj':
        ty = a[0].split('::')[-1].split('<')[0]
        if ty == 'string' and not (len(a) > 2 and a[2]): return 'EMPTYSTR()'
        if not re.fullmatch(r'\w+', ty): return '_'
        if len(a) > 1 and '@' in str(a[1]):
            ro = str(a[1]).split('@')[1].split(':'); return 'ROLE(%s, %s, %s)' % (ty, ro[0], ro[1])
        return 'OBJ(%s)' % ', '.join([ty] + ['%s, %s' % (n, pat(v)) for n, v in (a[2] if len(a) > 2 else ()) if re.fullmatch(r'\w+', str(n))])
    if op == 'init': return 'INIT(%s)' % ', '.join(pat(x) for x in a)
    if op == 'ctor': return 'CTOR(%s)' % ', '.join([a[0] if re.fullmatch(r'\w+', a[0]) else '_'] + [pat(x) for x in a[1:]])
    if op == 'lv': return 'LV(%s)' % pat(a[0])
    if op == 'cast': return 'CAST(%s, %s)' % (a[0], pat(a[1])) if re.fullmatch(r'\w+', a[0]) else '_'
    if op == 'status': return 'STATUS(%s)' % pat(a[0])
    if op == 'found': return 'FOUND(%s)' % pat(a[0])
    if op == 'str': return 'STR()'
    if op == 'OK': return 'OK()'
    if op == 'void': return 'VOID'
    if op == 'lam': return 'LAM()'
    if op == 'uninit': return 'UNINIT()'
    if op == 'set': return '%s = %s' % (pat(a[0]), pat(a[1]))
    if op == 'lset': return 'LSET(%s)' % ', '.join(pat(x) for x in a[1:] or a)
    return '_'
def par(t):
    s = pat(t)
    return s if re.fullmatch(r'[\w.:\[\]]+(\(.*\))?', s) or s[0] == '(' else '(%s)' % s if t.op in ('lt', 'eq', 'not', 'un') else s

def conflict(a, b):
    for k, v in a.items():
        w = b.get(k)
        if w is not None and w is not v: return True
        if v and k.op == 'eq' and is_constlike(k.a[1]):
            for k2, v2 in b.items():
                if v2 and k2.op == 'eq' and k2.a[0] is k.a[0] and is_constlike(k2.a[1]) and k2.a[1] is not k.a[1]: return True
    return False

def minimise(pos, neg):
    cubes = []
    for p in pos:
        c = dict(p)
        if any(not conflict(c, n) for n in neg): cubes.append((c, False)); continue
        for k in list(c):
            v = c.pop(k)
            if any(not conflict(c, n) for n in neg): c[k] = v
        cubes.append((c, True))
    out = []
    for c, e in cubes:
        if any(set(d.items()) <= set(c.items()) and d is not c for d, _ in out): continue
        out = [(d, x) for d, x in out if not set(c.items()) <= set(d.items())] + [(c, e)]
    return out

def lit(k, v):
    return pat(k, True) if v else '!' + (pat(k) if k.op in ('eq', 'lt') else pat(k))
def loopend(k, v): return not v and k.op == 'lt' and k.a[0].op == 'lv'
def txt(c): return ' && '.join(sorted(lit(k, v) for k, v in c.items() if not loopend(k, v))) or 'true'
def common(ls):
    it = None
    for l in ls:
        x = set(l.items()); it = x if it is None else it & x
    return dict(it)

READ = re.compile(A.get('read', r'^(Get\w+|Is\w+|Has\w+|Encode\w*|Decode\w*|Timestamp\w*|To\w+|Pack\w+|UnPack\w+|Truncate\w+|Find\w*|New\w*|new_\w+|Query\w*|Contain\w*|get|at|load|value|format|dynamic_pointer_cast|static_pointer_cast|make_\w+|Format\w*|Concat\w*|Compare|seek|exists|Exist\w*|contains|substr|min|max|Type|RenewEpoch|gettimeofday_\w+|generations|revisions|string|begin|end|front|back|lower_bound|upper_bound|find|count|Exists)$'))
def droppable(t):
    if 'all' in F: return False
    if t.op == 'call': return bool(READ.match(str(t.a[0]))) and not ('keep' in A and re.search(A['keep'], str(t.a[0])))
    if t.op == 'set':
        l = t.a[0]
        while l.op in ('fld', 'idx', 'elem'): l = l.a[0]
        return l.op == 'obj'
    return False

def fallback(line):
    kw, _, rest = line.partition(' ')
    if kw in ('each', 'eachmust'):
        ct, r = re.split(r'\s+:\s+', rest, maxsplit=1)
        return 'may ' + r if ' if ' in r else None
    if kw == 'on': return 'may ' + rest if ' if ' in rest else None
    if kw == 'ret': return 'retmay ' + rest if ' if ' in rest else None
    return None

def main(q):
    f = r.func(sys.argv[1], q, int(A['n']) if 'n' in A else None)
    d = D(); ex = Explorer(r, d); ex.curfile = f.file; t0 = time.time()
    ex.run(f)
    print('#', f.file, f.line, f.qual(), 'params', [str(getattr(p, 'name', p)) for p in f.params], 'paths', ex.npaths, 'states', ex.nstates, 'inl', sorted(ex.inlined), '%.1fs' % (time.time() - t0))
    loops = sorted(d.iters.items(), key=lambda x: x[0][0])
    rep_ = {}; byt = {}
    for t in list(d.ev):
        t0_ = byt.setdefault(pat(t, True), t)
        if t0_ is not t: rep_[t] = t0_; d.ev[t0_] += d.ev.pop(t)
    if rep_:
        d.exits = [(a, b, [(x, rep_.get(y, y)) for x, y in tr], e) for a, b, tr, e in d.exits]
        d.ev = {t: [(a, b, c, [rep_.get(y, y) for y in tr], e) for a, b, c, tr, e in occ] for t, occ in d.ev.items()}
        for k_ in d.iters: d.iters[k_] = [(h, l, [rep_.get(y, y) for y in tr]) for h, l, tr in d.iters[k_]]
        loops = sorted(d.iters.items(), key=lambda x: x[0][0])
    for (ln, cont), its in loops: print('# loop', ln, show(cont) if cont is not None else None, sorted(set(h for h, _, _ in its)))
    MAXC = 8; loopgood = set()
    out = []
    def cond(c): return ' || '.join(('(%s)' % txt(x) if len(c) > 1 and len(x) > 1 else txt(x)) for x, _ in c)
    for t, occ in sorted(d.ev.items(), key=lambda x: x[1][0][0]):
        if 'calls' not in F and droppable(t): continue
        inl = None
        for (ln, cont), its in loops:
            if any(t in tr for _, _, tr in its): inl = (ln, cont, its)
        if inl and not any(t in tr and h == 'end' for _, its2 in loops for h, _, tr in its2):
            pos = [l for _, _, l, _, _ in occ]
            c = minimise(pos, [l for (_, c2), its2 in loops if c2 is inl[1] and (c2 is not None or its2 is inl[2]) for h, l, tr in its2 if t not in tr])
            if len(c) > MAXC or not all(e for _, e in c): c = [(common(pos), False)]
            cc = cond(c)
            if cc != 'true': out.append('may %s if %s' % (pat(t, True), cc))
            continue
        pos = [l for _, _, l, _, _ in occ]
        if inl: neg = [l for (_, c2), its2 in loops if c2 is inl[1] and (c2 is not None or its2 is inl[2]) for h, l, tr in its2 if t not in tr and h == 'end']
        else: neg = [l for _, l, tr, _ in d.exits if not any(x[1] is t for x in tr if x[0] != '@iter')]
        c = minimise(pos, neg)
        exact = all(e for _, e in c)
        kw = 'each ' + (pat(inl[1]) if inl[1] is not None else 'LOOP') + ' : ' if inl else 'on '
        if (len(c) > MAXC or not exact) and inl and inl[1] is not None and t.op == 'call':
            for (l2, c2), its2 in loops:
                if c2 is not inl[1] or not any(t in tr for h, l, tr in its2): continue
                p2 = [l for h, l, tr in its2 if t in tr and h == 'end']; n2 = [l for h, l, tr in its2 if t not in tr and h == 'end']
                c3 = minimise(p2, n2) if p2 else []
                if c3 and all(e for _, e in c3) and len(c3) <= MAXC:
                    x_ = cond(c3)
                    out.append('through %s if %sDID(%s)' % (pat(c2), '!(%s) || ' % x_ if x_ != 'true' else '', pat(t, True)))
                break
        if len(c) > MAXC or not exact: c = [(common(pos), False)]; kw = 'may '
        cc = cond(c)
        if cc == 'true' and kw == 'may ': kw = '# may '
        out.append('%s%s%s' % (kw, pat(t, True), ' if ' + cc if cc != 'true' else ''))
    for (ln, cont), its in loops:
        ends = [l for h, l, tr in its if h == 'end']
        if 'chk' in F:
            rt = [l for h, l, tr in its if h == 'ret']
            if not rt or not ends: continue
            c = minimise(rt, ends); cs = pat(cont) if cont is not None else 'LOOP'
            c = [x for x, e in c if e]
            if c: out.append('through %s if %s' % (cs, ' ;; '.join('!(%s)' % txt(x) for x in c)))
            loopgood |= set(common(ends).items())
            continue
        br = [l for h, l, tr in its if h in ('break', 'ret')]
        cs = pat(cont) if cont is not None else 'LOOP'
        if br:
            c = minimise(br, ends)
            if len(c) > MAXC or not all(e for _, e in c): c = [(common(br), False)]
            cc = cond(c)
            if cc != 'true': out.append('stop? %s break,ret if %s' % (cs, cc))
        elif len([1 for (a, b), _ in loops if b is cont]) == 1: out.append('stop? %s break,ret if false' % cs)
    lk = {}
    for t, occ in d.ev.items():
        if t.op == 'call' and t.a[0] in ('LOCK', 'UNLOCK'): continue
        if droppable(t) and not (t.op == 'call' and t.a[1].op == 'sym' and str(t.a[1].a[0]).endswith('_')): continue
        hs = None
        for line, k, lits, tr, fl in occ:
            h = set()
            for x in tr:
                if x.op == 'call' and x.a[0] == 'LOCK': h.add(pat(x.a[2]))
                if x.op == 'call' and x.a[0] == 'UNLOCK': h.discard(pat(x.a[2]))
            hs = h if hs is None else hs & h
        p_ = pat(t, True)
        if t.op == 'set': p_ = pat(t.a[0], True) + ' = _'
        if hs and re.search(r'\w_\b', p_) and not p_.startswith('_'):
            for h in hs: lk.setdefault('under %s : %s' % (h, p_), 1)
    if any(t.op == 'call' and t.a[0] == 'LOCK' for t in d.ev):
        out = [l for l in out if not re.match(r'(on|may|each [^:]*:) (UN)?LOCK\(', l)] + list(lk) + ['on LOCK(%s)' % m for m in sorted({pat(t.a[2]) for t in d.ev if t.op == 'call' and t.a[0] == 'LOCK'}) if not any(k.startswith('under %s :' % m) for k in lk)] + ['balanced']
    bases = {}
    for t in d.ev:
        if t.op == 'set' and t.a[0].op != 'obj' and not (t.a[0].op == 'fld' and t.a[0].a[0].op == 'obj') and 'noonly' not in F: bases.setdefault(pat(t.a[0], True), []).append(pat(t, True))
    for b, fs in sorted(bases.items()):
        fs = sorted(set(fs))
        if len(fs) <= 6 and not b.startswith('_') and not any(x.endswith('= _') for x in fs) and '|' not in b: out.append('only %s = _ : %s' % (b, ' ;; '.join(fs)))
    rets = {}
    for t, l, tr, line in d.exits: rets.setdefault(t, []).append((line, l))
    if any(t.op != 'void' for t in rets):
        okc = []
        if 'chk' in F:
            okt = {t for t in rets if t.op == 'OK' or t.op == 'call' and not any(mk('fld', t, 'ok') in l for _, l, _, _ in d.exits)}
            for t, occ in rets.items():
                if t in okt: okc += minimise([l for _, l in occ], [l for t2, l, _, _ in d.exits if t2 is not t])
            sure = []
            for t in d.ev:
                p_ = pat(t, True)
                if (t.op == 'set' or t.op == 'call' and re.match(r'push_back|insert|add_|emplace', str(t.a[0]))) and 'LV(' not in p_:
                    if all(any(x[1] is t for x in tr) for t2, _, tr, _ in d.exits if t2 in okt): sure.append(p_)
            out = [re.sub(r' if .*', '', l) if l.startswith('each') else l for l in out if re.match(r'each [^:]*: .*(push_back|insert|add_|emplace)', l) or l.startswith('through')]
        for t, occ in sorted(rets.items(), key=lambda x: x[1][0][0]):
            neg = [l for t2, l, _, _ in d.exits if t2 is not t]
            if okc:
                c = minimise([l for _, l in occ], neg)
                if t in okt:
                    cc = cond(c); O_ = pat(t, True)
                    if not all(e for _, e in c) or len(c) > MAXC or 'LV(' in cc:
                        c = [(common([l for _, l in occ]), False)]; cc = cond(c)
                        if cc == 'true' and not sure: continue
                        cc = cc if cc != 'true' else ''
                        out.append('retmay %s if ' % O_ + ' && '.join(([cc] if cc else []) + ['DID(%s)' % x for x in sure])); continue
                    cc = '(%s)' % cc if ' || ' in cc and sure else cc
                    out.append('ret %s if ' % O_ + ' && '.join(([cc] if cc != 'true' else []) + ['DID(%s)' % x for x in sure]) if cc != 'true' or sure else 'ret ' + O_); continue
                good = set(loopgood)
                for x, _ in okc: good |= set(x.items())
                c2 = []
                for x, e in c:
                    y = {k: v for k, v in x.items() if (k, v) not in good and not loopend(k, v)}
                    if not any(set(z.items()) <= set(y.items()) for z, _ in c2): c2 = [(z, e2) for z, e2 in c2 if not set(y.items()) <= set(z.items())] + [(y, e)]
                if len(c2) <= 12 and all(y for y, _ in c2): out.append('retmay %s if %s' % (pat(t, True), cond(c2)))
                continue
            c = minimise([l for _, l in occ], neg)
            exact = all(e for _, e in c); kw = 'ret '
            if len(c) > MAXC or not exact: c = [(common([l for _, l in occ]), False)]; kw = 'retmay '
            cc = cond(c)
            if cc == 'true' and kw == 'retmay ': kw = '# retmay '
            if 'LV(' in cc: continue
            out.append('%s%s%s' % (kw, pat(t, True), ' if ' + cc if cc != 'true' else ''))
        out.append('rets ' + ' ;; '.join(sorted(set(pat(t, True) for t in rets))))
    # abbreviate frequent long subterms
    freq = {}
    def sub(t):
        if t.__class__ is not T: return
        if t.op in ('call', 'out', 'fld', 'idx', 'elem'):
            p = pat(t)
            if len(p) > 22: freq[p] = freq.get(p, 0) + 1
        for x in children(t): sub(x)
    text = '\n'.join(out); lets = []
    cand = {}
    for coll in list(d.ev) + [t for t, *_ in d.exits] + [k for _, l, _, _ in d.exits for k in l]:
        sub(coll)
    names = set()
    for p in sorted(freq, key=len, reverse=False):
        pp = p
        for nme, qq in lets: pp = pp.replace(qq, '@' + nme)
        if len(pp) > 22 and text.count(pp) >= 3:
            m = re.findall(r'(\w+)\(', pp) or re.findall(r'\w+', pp)
            b = ''.join(ch for ch in m[0] if ch.isupper())[:4] or m[0][:4].upper()
            nme = b; i = 2
            while nme in names: nme = b + str(i); i += 1
            names.add(nme); lets.append((nme, pp)); text = text.replace(pp, '@' + nme)
    text = '\n'.join(l for l in text.split('\n') if l.startswith('ret') or not re.search(r'errmsg|SetTracker|LogMetaInc|\.Tracker|HexToString|set_error_message', l.split(' if ')[0]))
    if 'drop' in A:
        dr = re.compile(A['drop'])
        text = '\n'.join(l for l in text.split('\n') if l.startswith('ret') or not dr.search(l.split(' if ')[0]))
    text = '\n'.join(l for l in text.split('\n') if not l.startswith('# '))
    conds = {}
    for l in text.split('\n'):
        if ' if ' in l: conds.setdefault(l.split(' if ', 1)[1], []).append(l)
    k = 1
    for cnd in sorted(conds, key=len, reverse=True):
        if len(cnd) > 30 and text.count(cnd) >= 3:
            lets.append(('C%d' % k, cnd)); text = text.replace(cnd, '@C%d' % k); k += 1
    for nme, p in list(lets):
        if not re.search(r'@%s\b' % nme, text + ' '.join(q2 for _, q2 in lets)): lets.remove((nme, p))
    opt = ''.join(' %s=%s' % (k, A[k]) for k in ('n', 'inl', 'opq', 'keys', 'files', 'lam', 'pick') if k in A)
    if 'widen' in F: opt += ' widen'
    if 'widen' in A: opt += ' widen=' + A['widen']
    o = '@%s %s %s%s\n' % (A.get('prop', 'PROP'), re.sub('^src/', '', sys.argv[1]), q, opt)
    for nme, p in lets: o += 'let %s = %s\n' % (nme, p)
    o += text + '\n'
    import tempfile
    with tempfile.NamedTemporaryFile('w', suffix='.tbl', delete=False) as fo: fo.write(o)
    os.unlink(fo.name)
    from fe.report import Report
    from fe.table import load
    dropped = []
    def test(o, show_=False):
        with tempfile.NamedTemporaryFile('w', suffix='.tbl', delete=False) as fo: fo.write(o)
        rep = Report('draft', 'quick', 1)
        try:
            for fns in load(fo.name).values():
                for fn in fns: fn.run(r, rep)
        except Exception as e:
            rep.brk.append(repr(e))
        os.unlink(fo.name)
        return rep
    rep = test(o)
    if rep.viol or rep.brk:
        # isolate: test every clause alone, weaken or drop those that fail
        lines = o.split('\n'); keep = []
        head = [l for l in lines if l.startswith('@') or l.startswith('let ')]
        for l in lines:
            if not l or l.startswith('@') or l.startswith('let '): keep.append(l); continue
            cur = l
            while cur:
                x = test('\n'.join(head + [cur]) + '\n')
                if not (x.viol or x.brk): break
                cur = fallback(cur)
            if cur != l:
                dropped.append((l, cur))
                if l.startswith('each ') and not l.startswith('each LOOP'):
                    ct, r_ = re.split(r'\s+:\s+', l[5:], maxsplit=1)
                    ev_, _, cd_ = r_.partition(' if ')
                    th = 'through %s if %sDID(%s)' % (ct, '!(%s) || ' % cd_ if cd_ else '', ev_)
                    x = test('\n'.join(head + [th]) + '\n')
                    if not (x.viol or x.brk): keep.append(th)
            if cur: keep.append(cur)
        o = '\n'.join(keep)
        rep = test(o)
    for l, cur in dropped: print('!! ', ('weakened ' if cur else 'DROPPED ') + l[:220])
    for k, (line, m) in rep.viol.items(): print('!! ', line, k[:300])
    for b in rep.brk: print('!! ', b)
    if 'out' in A:
        with open(os.path.join('/verif/spec/tables', A['out'] + '.tbl'), 'a') as fo: fo.write(o + '\n')
    W = int(A.get('w', 260))
    print('\n'.join(l[:W] + ('…' if len(l) > W else '') for l in o.split('\n')))

if 'prop' in A: A['prop'] = A['prop']

for q in sys.argv[2].split(','):
    try: main(q)
    except Exception as e: print('#', q, 'FAILED', repr(e)[:300])
