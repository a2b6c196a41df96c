#!/usr/bin/env python3
"""mut.py (mut|eq) PROP[,PROP] [fn=regex] [file=regex] [max=N] [show]
Development aid, not part of any check.
mut: token-level mutants of the functions a property's rules are anchored in; lists those no rule reports.
eq:  behaviour-preserving rewrites of the same functions; lists those that raise an alarm or give no verdict."""
import sys, os, re, time, random
sys.dont_write_bytecode = True
sys.path.insert(0, '/verif')
from multiprocessing import Pool
from fe.repo import Repo, AnalysisBroken
from fe.cxx import Unit
from fe.report import Report
from fe.spec import Fn
from fe import lex
import importlib.util
A = dict(a.split('=', 1) for a in sys.argv[3:] if '=' in a)
FL = [a for a in sys.argv[3:] if '=' not in a]

def allprops():
    import spec, pkgutil, importlib
    d = {}
    for m in pkgutil.iter_modules(spec.__path__):
        mod = importlib.import_module('spec.' + m.name)
        for k, v in getattr(mod, 'PROPS', {}).items(): d.setdefault(k, []).extend(v)
    from fe.table import load_all
    for k, v in load_all().items(): d.setdefault(k, []).extend(v)
    return d

import json
KNOWN = {f['key'] for f in json.load(open('/verif/known_findings.json'))['findings']}
PROPS = allprops()
BASE = Repo(); BASE.headers()

def clone(path, text):
    r = Repo(); r._headers = True
    for p, u in BASE.units.items():
        if p == path: continue
        r.units[p] = u
    u = Unit(path, text, os.path.relpath(path, r.root))
    r.units[path] = u
    for u in r.units.values():
        for f in u.decls + u.funcs: r.sigs.setdefault(f.name, []).append(f)
        for c, fl in u.fields.items(): r.fieldcls.setdefault(c, {}).update(fl)
        for e, vs in u.enums.items():
            for v in vs: r.enum_of[v] = e
    return r

def rules_for(path):
    rel = os.path.relpath(path, BASE.root).replace('src/', '', 1)
    out = []
    for p, rs in PROPS.items():
        for x in rs:
            if isinstance(x, Fn):
                if x.file == rel or rel in getattr(x, 'files', ()): out.append((p, x))
            elif p in TARGET and 'custom' in FL: out.append((p, x))
    return out

def verdict(path, text):
    try: r = clone(path, text)
    except Exception as e: return ('parse', str(e)[:100])
    hit = set(); brk = []
    first = ''
    for p, x in rules_for(path):
        rep = Report(p, 'quick', 1)
        try: x.run(r, rep)
        except AnalysisBroken as e: rep.brk.append(str(e))
        except Exception as e: rep.brk.append('internal ' + repr(e)[:200])
        for k in list(rep.viol):
            if k in KNOWN or k.rsplit('|', 1)[0] in KNOWN: del rep.viol[k]
        if rep.viol:
            hit.add(p)
            if not first: k = next(iter(rep.viol)); first = rep.viol[k][1][:230]
        brk += rep.brk
    if hit: return ('viol', ','.join(sorted(hit)) + ' ' + first)
    if brk: return ('broken', brk[0][:200])
    return ('quiet', '')

def toks(text):
    out = []; i = 0
    while i < len(text):
        m = lex.TOK.match(text, i)
        if not m: i += 1; continue
        k = m.lastgroup
        if k == 'delim': k = 'raw'
        if k not in ('ws', 'nl', 'lc', 'bc'): out.append((k, m.group(0), m.start(), m.end()))
        i = m.end()
    return out

def bodies(path, text, want):
    """[(name, first token index, last)] of the bodies of wanted functions"""
    u = BASE.unit(os.path.relpath(path, BASE.root))
    T = toks(text)
    lines = [0]
    for m in re.finditer('\n', text): lines.append(m.end())
    import bisect
    def ln(o): return bisect.bisect_right(lines, o)
    st = []; match = {}
    for i, t in enumerate(T):
        if t[1] in '([{' and t[0] == 'op': st.append(i)
        elif t[1] in ')]}' and t[0] == 'op' and st: j = st.pop(); match[i] = j; match[j] = i
    res = []
    for f in u.funcs:
        if f.qual() not in want: continue
        c = [i for i, t in enumerate(T) if t[1] == '}' and t[0] == 'op' and i in match and ln(t[2]) == f.endline and T[match[i]][1] == '{' and ln(T[match[i]][2]) >= f.line]
        if not c: continue
        i = max(c, key=lambda i: i - match[i])
        sig = max((k for k, t in enumerate(T[:match[i]]) if ln(t[2]) < f.line), default=-1) + 1
        res.append((f, match[i], i, sig))
    return T, match, res

def logspan(T, match, a, b):
    """token indexes inside log statements"""
    s = set()
    i = a
    while i < b:
        if T[i][1] in ('DINGO_LOG', 'DINGO_LOG_IF', 'LOG', 'CHECK', 'CHECK_EQ', 'DINGO_LOG_EVERY_N'):
            j = i
            d = 0
            while T[j][1] != ';' or d:
                if T[j][1] in '([{': d += 1
                if T[j][1] in ')]}': d -= 1
                s.add(j); j += 1
            s.add(j); i = j
        i += 1
    return s

def stmts(T, match, a, b):
    """top-level spans of expression statements (start, end) in a body"""
    out = []
    i = a + 1
    start = i
    while i < b:
        s = T[i][1]
        if s in '([': i = match.get(i, i) + 1; continue
        if s == '{':
            prev = T[i - 1][1]
            if prev in (')', 'else', ';', '{', '}', 'do', 'try') : i += 1; start = i; continue
            i = match.get(i, i) + 1; continue
        if s in ('}',): i += 1; start = i; continue
        if s == ';': out.append((start, i)); i += 1; start = i; continue
        if s in ('if', 'while', 'for', 'switch') and T[i + 1][1] == '(':
            i = match[i + 1] + 1; start = i; continue
        if s == 'else': i += 1; start = i; continue
        if s == ':' and T[start][1] in ('case', 'default'): i += 1; start = i; continue
        i += 1
    return out

def mutants(path, text, want):
    T, match, fs = bodies(path, text, want)
    for f, a, b, sig in fs:
        logs = logspan(T, match, a, b)
        def sub(i, j, s): return text[:T[i][2]] + s + text[T[j][3]:]
        for i in range(a + 1, b):
            if i in logs: continue
            k, s, o, e = T[i]
            ctx = text[max(0, T[max(a, i - 6)][2]):T[min(b, i + 6)][3]].replace('\n', ' ')
            ctx = re.sub(r'\s+', ' ', ctx)
            L = text.count('\n', 0, o) + 1
            def M(d, t): return (f.qual(), L, '%s   [%s]' % (d, ctx[:110]), t)
            if k == 'op':
                flip = {'==': '!=', '!=': '==', '&&': '||', '||': '&&', '<=': '<', '>=': '>', '++': '--'}
                if s in flip: yield M('%s -> %s' % (s, flip[s]), sub(i, i, flip[s]))
                if s in ('<', '>') and T[i - 1][0] in ('id', 'num') or s in ('<', '>') and T[i - 1][1] == ')':
                    nx = T[i + 1][1]
                    ty = re.search(r'[\w:]+$', text[:o]); nm = ty.group(0) if ty else ''
                    if text[o - 1] == ' ' and text[e] == ' ':
                        yield M('%s -> %s=' % (s, s), sub(i, i, s + '='))
                        yield M('%s -> %s' % (s, '>' if s == '<' else '<'), sub(i, i, '>' if s == '<' else '<'))
                if s == '!' : yield M('drop !', sub(i, i, ''))
                if s in '+-' and text[o - 1] == ' ' and text[e] == ' ': yield M('%s flip' % s, sub(i, i, '-' if s == '+' else '+'))
            elif k == 'num' and s in ('0', '1'): yield M('%s -> %s' % (s, '1' if s == '0' else '2'), sub(i, i, '1' if s == '0' else '2'))
            elif k == 'id' and s in ('true', 'false'): yield M('%s flip' % s, sub(i, i, 'false' if s == 'true' else 'true'))
            elif s == 'continue': yield M('continue -> break', sub(i, i, 'break'))
            elif s == 'break' and 'switch' not in text[max(0, o - 400):o]: yield M('break -> continue', sub(i, i, 'continue'))
            elif s == 'if' and T[i + 1][1] == '(' and T[i - 1][1] != 'else':
                c = match[i + 1]
                yield M('if(true)', sub(i + 2, c - 1, 'true'))
                yield M('if(false)', sub(i + 2, c - 1, 'false'))
        for (x, y) in stmts(T, match, a, b):
            if x in logs or x >= y: continue
            h = T[x][1]
            L = text.count('\n', 0, T[x][2]) + 1
            st = re.sub(r'\s+', ' ', text[T[x][2]:T[y][3]])
            if h in ('return', 'break', 'continue', 'using', 'static', 'const', 'auto', 'case', 'default', 'goto', 'throw') and h != 'return': continue
            # declarations are not deletable
            if h == 'return':
                if T[x + 1][1] != ';' and T[x-1][1] == '{' : yield (f.qual(), L, 'delete return [%s]' % st[:90], text[:T[x][2]] + text[T[y][3]:])
                continue
            if re.match(r'^(const |static )?[\w:]+(<[^;]*>)?[ *&]+\w+( = |;|\(|\{)', st) and not re.match(r'^(return|delete|throw)', st): continue
            yield (f.qual(), L, 'delete [%s]' % st[:90], text[:T[x][2]] + ';' + text[T[y][3]:])

# ------------------------------------------------------------------ behaviour-preserving rewrites
def equivs(path, text, want):
    T, match, fs = bodies(path, text, want)
    for f, a, b, sig in fs:
        q = f.qual()
        def out(edits):
            s = text
            for x, y, r in sorted(edits, key=lambda e: (-e[0], -e[1])): s = s[:x] + r + s[y:]
            return s
        body = range(a + 1, b)
        logs = logspan(T, match, a, b)
        # rename locals and parameters
        loc = set()
        for i in body:
            if T[i][0] == 'id' and T[i + 1][1] in ('=', ';', ':', '{', '(', ',', ')') and i > a + 1:
                p = T[i - 1]
                if (p[0] == 'id' and p[1] not in ('return', 'delete', 'new', 'case', 'goto', 'else', 'typename', 'throw', 'operator', 'co_return') and T[i - 2][1] in (';', '{', '}', '(', 'const', ':', '::', ')') or p[1] in ('&', '*', '>') and (T[i - 2][0] == 'id' or T[i-2][1] == '>') and T[i + 1][1] in ('=', ':', ';', ',', ')') and text[T[i-1][2]-1] != ' ') and T[i + 1][1] != ':' or (T[i + 1][1] == ':' and p[1] in ('&', '*', 'auto')):
                    loc.add(T[i][1])
        loc -= {'std', 'pb', 'butil'}
        fieldish = {T[i][1] for i in body if T[i - 1][1] in ('.', '->', '::') or (T[i + 1][1] == '::')}
        lam = {'rn_' + x for x in loc}
        pn = set(p[0] for p in f.params if p[0])
        ren = loc | pn
        ed = []
        sg = range(sig, a)
        for i in list(sg) + list(body):
            k, s, o, e = T[i]
            if k == 'id' and s in ren and T[i - 1][1] not in ('.', '->', '::') and T[i + 1][1] != '::':
                if i < a and s not in pn: continue
                if i < a and T[i + 1][1] not in (',', ')', '='): continue
                ed.append((o, e, s + '_rn'))
        if ed and not any(T[i][1] == '[' and T[i + 1][1] in ('=', '&', 'this', ']') for i in ()) : yield (q, 0, 'rename locals %s' % sorted(ren)[:8], out(ed))
        # inert statements
        yield (q, 0, 'inert at start', out([(T[a][3], T[a][3], ' int inert_x = 0; (void)inert_x; ')]))
        ed = [(T[i][3], T[i][3], ' int inert_x = 0; (void)inert_x; ') for i in [a] + list(body) if T[i][1] == '{' and i in match and T[i - 1][1] in (')', 'else', 'do', 'const') and i not in logs]
        yield (q, 0, 'inert in all blocks', out(ed))
        # inert before returns
        sp = stmts(T, match, a, b)
        ed = []
        for x, y in sp:
            if T[x][1] == 'return' and T[x - 1][1] in ('{', ';', '}'): ed.append((T[x][2], T[x][2], 'do { } while (false); '))
        if ed: yield (q, 0, 'empty do before returns', out(ed))
        # return expression in a local
        for x, y in sp:
            if T[x][1] == 'return' and y - x > 2 and T[x - 1][1] in ('{', ';', '}') and T[x + 1][1] != '{':
                r = text[T[x + 1][2]:T[y - 1][3]]
                yield (q, text.count('\n', 0, T[x][2]) + 1, 'return via local [%s]' % r[:50].replace('\n', ' '), out([(T[x][2], T[y][3], 'auto ret_val_x = %s; return ret_val_x;' % r)]))
        # ifs
        for i in body:
            if T[i][1] == 'if' and T[i + 1][1] == '(' and i not in logs:
                c = match[i + 1]
                L = text.count('\n', 0, T[i][2]) + 1
                cond = text[T[i + 2][2]:T[c - 1][3]]
                if ';' in cond: continue
                elseif = T[i - 1][1] == 'else'
                if T[c + 1][1] != '{': continue
                e = match[c + 1]
                tail = [t[1] for t in T[e + 1:e + 3]]
                if tail[:1] != ['else']:
                    if not elseif: yield (q, L, 'cond in local [%s]' % cond[:60].replace('\n', ' '), out([(T[i][2], T[c][3], 'const bool cond_x = (%s); if (cond_x)' % cond)]))
                    yield (q, L, 'negated empty-then [%s]' % cond[:60].replace('\n', ' '), out([(T[i + 2][2], T[c - 1][3], '!(%s)' % cond), (T[c + 1][2], T[c + 1][2], '{ } else ')]))
                    # split &&
                    d = 0; parts = []; s0 = i + 2
                    for j in range(i + 2, c):
                        if T[j][1] in '([{' and T[j][0] == 'op': d += 1
                        elif T[j][1] in ')]}' and T[j][0] == 'op': d -= 1
                        elif T[j][1] == '||' and d == 0: parts = None; break
                        elif T[j][1] == '&&' and d == 0: parts.append((s0, j)); s0 = j + 1
                    if parts:
                        parts.append((s0, c))
                        txt = ' '.join('if (%s) {' % text[T[x][2]:T[y - 1][3]] for x, y in parts[:-1]) + ' if (%s)' % text[T[parts[-1][0]][2]:T[parts[-1][1] - 1][3]]
                        if not elseif: yield (q, L, 'nested ifs [%s]' % cond[:60].replace('\n', ' '), out([(T[i][2], T[c][3], txt), (T[e][3], T[e][3], ' }' * (len(parts) - 1))]))
                    # early return -> else around the rest of the block
                    if T[e - 1][1] == ';' and not elseif:
                        last = max((x for x, y in sp if y == e - 1), default=None)
                        if last is not None and T[last][1] in ('return', 'continue'):
                            # enclosing block end
                            en = min((match[j] for j in [a] + list(body) if T[j][1] == '{' and j < i and match.get(j, 0) > e), default=None)
                            if en is not None and 'case' not in [t[1] for t in T[e:en]] and e + 1 < en: yield (q, L, 'else after return [%s]' % cond[:60].replace('\n', ' '), out([(T[e][3], T[e][3], ' else {'), (T[en][2], T[en][2], ' } ')]))
                elif T[e + 2][1] == '{' and not elseif:
                    e2 = match[e + 2]
                    yield (q, L, 'swap branches [%s]' % cond[:60].replace('\n', ' '), out([(T[i + 2][2], T[c - 1][3], '!(%s)' % cond), (T[c + 1][2], T[e][3], text[T[e + 2][2]:T[e2][3]]), (T[e + 2][2], T[e2][3], text[T[c + 1][2]:T[e][3]])]))
                # block into lambda called at once
                inner = [t[1] for t in T[c + 2:e]]
                if not ({'return', 'break', 'continue', 'goto'} & set(inner)) and inner: yield (q, L, 'block in lambda [%s]' % cond[:40].replace('\n', ' '), out([(T[c + 1][3], T[c + 1][3], ' [&]() {'), (T[e][2], T[e][2], '}(); ')]))
        # comparisons mirrored
        mir = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}
        for i in body:
            if T[i][1] in mir and T[i][0] == 'op' and i not in logs and text[T[i][2] - 1] == ' ' and text[T[i][3]] == ' ':
                l = i - 1; ok = True
                def back(l):
                    while True:
                        if T[l][1] in (')', ']') : l = match[l] - 1
                        if T[l][0] not in ('id', 'num', 'str'): return l + 1
                        if T[l - 1][1] in ('.', '->', '::'): l -= 2; continue
                        return l
                if T[l][1] not in (')', ']') and T[l][0] not in ('id', 'num', 'str'): continue
                ls = back(l)
                if T[ls - 1][1] not in ('(', '&&', '||', 'return', '=', '!') and True: continue
                r = i + 1; 
                if T[r][0] not in ('id', 'num', 'str'): continue
                while True:
                    if T[r + 1][1] in ('.', '->', '::'): r += 2; continue
                    if T[r + 1][1] in ('(', '[') : r = match[r + 1]; continue
                    break
                if T[r + 1][1] not in (')', '&&', '||', ';'): continue
                if T[ls - 1][1] == '!': continue
                yield (q, text.count('\n', 0, T[i][2]) + 1, 'mirror [%s]' % text[T[ls][2]:T[r][3]].replace('\n', ' ')[:70], out([(T[ls][2], T[r][3], '%s %s %s' % (text[T[i + 1][2]:T[r][3]], mir[T[i][1]], text[T[ls][2]:T[i - 1][3]]))]))
        # range for -> iterator / index; for -> while
        for i in body:
            if T[i][1] == 'for' and T[i + 1][1] == '(' and i not in logs:
                c = match[i + 1]
                L = text.count('\n', 0, T[i][2]) + 1
                inside = T[i + 2:c]
                semis = [j for j in range(i + 2, c) if T[j][1] == ';']
                colon = [j for j in range(i + 2, c) if T[j][1] == ':' and T[j][0] == 'op']
                if not semis and colon and T[c + 1][1] == '{':
                    decl = text[T[i + 2][2]:T[colon[0] - 1][3]]; rng = text[T[colon[0] + 1][2]:T[c - 1][3]]
                    if re.fullmatch(r'[\w.\->()]+', rng):
                        yield (q, L, 'range-for -> iterator [%s : %s]' % (decl, rng), out([(T[i][2], T[c + 1][3], 'for (auto it_x = %s.begin(); it_x != %s.end(); ++it_x) { %s = *it_x;' % (rng, rng, decl))]))
                        if '[' not in decl: yield (q, L, 'range-for -> while [%s : %s]' % (decl, rng), out([(T[i][2], T[c + 1][3], 'auto it_x = %s.begin(); while (it_x != %s.end()) { %s = *it_x; ++it_x;' % (rng, rng, decl))]))
                elif len(semis) == 2 and T[c + 1][1] == '{':
                    e = match[c + 1]
                    init = text[T[i + 2][2]:T[semis[0]][3]]; cd = text[T[semis[0] + 1][2]:T[semis[1] - 1][3]] if semis[1] > semis[0] + 1 else 'true'
                    step = text[T[semis[1] + 1][2]:T[c - 1][3]] if c > semis[1] + 1 else ''
                    if 'continue' not in [t[1] for t in T[c:e]]:
                        yield (q, L, 'for -> while [%s]' % cd[:50], out([(T[i][2], T[c][3], '{ %s while (%s)' % (init, cd)), (T[e][2], T[e][3], '%s%s } }' % (step, ';' if step else ''))]))
        # helper extraction: the whole body moves to a new function
        rt = text[T[sig][2]:T[a][2]]
        nm = f.name
        if f.cls and '::' in rt and not nm.startswith('~') and nm != f.cls and 'override' not in rt:
            head = re.sub(r'\b%s\b(?=\s*\()' % re.escape(nm), nm + '_Impl', rt, count=1)
            if head != rt:
                args = ', '.join(('std::move(%s)' % p[0] if '&&' in p[1] else p[0]) for p in f.params)
                if all(p[0] for p in f.params): yield (q, 0, 'whole body in helper', out([(T[sig][2], T[sig][2], head + text[T[a][2]:T[b][3]] + '\n'), (T[a][2], T[b][3], '{ return %s_Impl(%s); }' % (nm, args))]))
        # tail of the function into a helper is covered by 'block in lambda'

def job(x):
    path, q, L, d, t = x
    t0 = time.time()
    v, why = verdict(path, t)
    return (q, L, d, v, why, time.time() - t0)

def main():
    global TARGET
    mode = sys.argv[1]; TARGET = set(sys.argv[2].split(','))
    want = {}
    for p in TARGET:
        for x in PROPS.get(p, ()):
            if isinstance(x, Fn):
                pp = BASE.path(x.file)
                if 'file' in A and not re.search(A['file'], x.file): continue
                if 'fn' in A and not re.search(A['fn'], x.qual): continue
                want.setdefault(pp, set()).add('::'.join(x.qual.split('::')[-2:]))
    jobs = []
    gen = mutants if mode == 'mut' else equivs
    for pp, w in want.items():
        text = open(pp, errors='replace').read()
        BASE.unit(os.path.relpath(pp, BASE.root))
        for q, L, d, t in gen(pp, text, w): jobs.append((pp, q, L, d, t))
    if 'max' in A and len(jobs) > int(A['max']): random.seed(1); jobs = random.sample(jobs, int(A['max']))
    cnt = {}
    t0 = time.time()
    with Pool(8) as pool:
        for q, L, d, v, why, dt in pool.imap(job, jobs, chunksize=2):
            cnt[v] = cnt.get(v, 0) + 1
            if mode == 'mut' and v != 'viol' or mode == 'eq' and v != 'quiet' or 'show' in FL:
                print('%-7s %s:%d %s %s' % (v, q, L, d, ('=> ' + why[:260]) if why else ''))
            if dt > 20: print('SLOW', q, d, dt)
    print(mode, sys.argv[2], len(jobs), cnt, '%.0fs' % (time.time() - t0))

TARGET = set(sys.argv[2].split(','))
if __name__ == '__main__': main()
