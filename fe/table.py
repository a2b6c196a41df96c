"""Contract tables (spec/tables/*.tbl): a line-oriented notation for Fn rules.

@PROP[,PROP] file Cls::Fn [n=K] [inl=a,b] [opq=a,b] [keys=a,b] [files=a,b] [lam=name:param|param]
let NAME = text              macro, used as @NAME
on EV [if COND]              the event happens on a path exactly when COND
may EV if COND               ... only when COND
must EV [if COND]            ... on every path where COND is not excluded
each CONT : EV [if COND]     per finished iteration over CONT, exactly when COND
eachmust CONT : EV [if COND]
only BASE : FORM ;; FORM     events of shape BASE take only these forms
never EV [unless COND]
ret PAT [if COND]            this value is returned exactly when COND
retmay PAT if COND
bool COND                    the returned truth value is COND on every path
rets PAT ;; PAT
err COND : PAT               every exit where COND is not excluded returns PAT
order A >> B                 B only after A
under LOCK : EV
balanced [LOCK]
once EV / atmost EV
status CALL / boolean CALL   a failure of CALL is returned
stop CONT how if COND
through CONT if A ;; B
dir CONT fwd|rev             a loop over CONT runs this way
py CLAUSE                    any clause in Python syntax
"""
import os, glob, re
from . import spec as S


def _split(s, sep):
    """split on a separator surrounded by blanks"""
    return [x.strip() for x in re.split(r'\s+%s\s+' % re.escape(sep), s)]


def _if(s):
    m = re.search(r'\s+if\s+', s)
    if not m: return s.strip(), None
    return s[:m.start()].strip(), s[m.end():].strip()


def clause(line):
    kw, _, rest = line.partition(' ')
    if kw.startswith('name='):
        cs = clause(rest)
        for c in cs: c.name = kw[5:]
        return cs
    rest = rest.strip()
    mn = 1
    if kw.endswith('?'): kw = kw[:-1]; mn = 0
    if kw == 'on':
        e, c = _if(rest)
        return [S.R(c, e, name='on ' + e, min=mn)] + ([S.G(e, c, name='guard of ' + e, min=mn)] if c else [])
    if kw == 'may':
        e, c = _if(rest); return [S.G(e, c, name='guard of ' + e, min=mn)]
    if kw == 'must':
        e, c = _if(rest); return [S.R(c, e, name='must ' + e, min=mn)]
    if kw in ('each', 'eachmust'):
        ct, r = re.split(r'\s+:\s+', rest, maxsplit=1)
        e, c = _if(r)
        return [S.RI(ct, c, e, name='each ' + e, min=mn)] + ([S.G(e, c, name='guard of ' + e, min=mn)] if c and kw == 'each' else [])
    if kw == 'only':
        b, r = re.split(r'\s+:\s+', rest, maxsplit=1)
        return [S.A(b, _split(r, ';;'), name='forms of ' + b, min=mn)]
    if kw == 'never':
        p = _split(rest, 'unless')
        if len(p) == 1:
            e, c = _if(rest)
            if c: p = [e, '!(%s)' % c]
        return [S.N(p[0], unless=p[1] if len(p) > 1 else None, name='never ' + p[0])]
    if kw == 'ret':
        e, c = _if(rest)
        return [S.RET(e, c or 'true', name='return ' + e, min=mn), S.W(c, e, name='returned when ' + e, min=mn)]
    if kw == 'retmay':
        e, c = _if(rest); return [S.RET(e, c, name='return ' + e, min=mn)]
    if kw == 'rets': return [S.RETS(*_split(rest, ';;'), name='returns')]
    if kw == 'err':
        c, r = re.split(r'\s+:\s+', rest, maxsplit=1)
        return [S.W(c, r, name='result when ' + c, min=mn)]
    if kw == 'order':
        a, b = _split(rest, '>>'); return [S.O(a, b, name='%s before %s' % (a, b), min=mn)]
    if kw == 'seq':
        a, b = _split(rest, '>>'); return [S.N(a, unless='!(DID(%s))' % b, name='%s never after %s' % (a, b))]
    if kw == 'under':
        l, r = re.split(r'\s+:\s+', rest, maxsplit=1)
        return [S.LK(r, l, name='lock for ' + r, min=mn)]
    if kw == 'balanced': return [S.BAL(rest or '_', name='locks released', min=mn)]
    if kw == 'once': return [S.ONCE(rest, name='once ' + rest, min=mn)]
    if kw == 'atmost': return [S.ONCE(rest, most=True, name='at most once ' + rest, min=mn)]
    if kw == 'status': return [S.E(rest, name='status of ' + rest, min=mn)]
    if kw == 'bool': return [S.BOOL(rest, name='value', min=mn)]
    if kw == 'boolean': return [S.E(rest, boolean=True, name='result of ' + rest, min=mn)]
    if kw == 'stop':
        m = re.match(r'(.*?)\s+(\S+)\s+if\s+(.*)$', rest)
        return [S.STOP(m.group(1), tuple(m.group(2).split(',')), m.group(3), name='stop ' + m.group(1), min=mn)]
    if kw == 'through':
        c, r = _if(rest)
        return [S.THRU(c, tuple(_split(r, ';;')), name='through ' + c, min=mn)]
    if kw == 'dir':
        m = rest.split(); return [S.DIR(' '.join(m[:-1]), m[-1])]
    if kw == 'ghost':
        m = re.match(r'(\w+)\s*=\s*(true|false)\s+at\s+(.*)$', rest)
        e, c = _if(m.group(3))
        return [S.GHOST(m.group(1), m.group(2) == 'true', e, c or 'true', name='ghost %s' % m.group(1))]
    if kw == 'py':
        return [eval(rest, {k: getattr(S, k) for k in dir(S) if not k.startswith('_')})]
    raise ValueError('unknown clause keyword ' + kw)


def load(path):
    props = {}
    cur = None; glob_m = {}
    def flush():
        nonlocal cur
        if cur is None: return
        pids, file, qual, opt, m, cl = cur
        g = re.match(r'(.*?)\{([\w,]+)\}(.*)$', qual)
        if g:
            for c in g.group(2).split(','):
                cur = [pids, file, g.group(1) + c + g.group(3), opt, {**m, 'CLS': c}, cl]
                flush()
            return
        kw = {}
        if 'n' in opt: kw['n'] = int(opt['n'])
        for a, b in (('inl', 'inline'), ('opq', 'opaque'), ('keys', 'keys'), ('files', 'files')):
            if a in opt: kw[b] = tuple(x for x in opt[a].split(',') if x)
        if 'lam' in opt: kw['lambda_calls'] = {k: tuple(v.split('|')) for k, v in (x.split(':') for x in opt['lam'].split(','))}
        if 'pick' in opt:
            k, v = opt['pick'].split(':', 1); kw['pick'] = (lambda k, v: lambda f: v in str(f.params[int(k)]))(k, v)
        kw['autoinline'] = 'auto' in opt
        kw['widen'] = {'1': True}.get(opt['widen'], opt['widen']) if 'widen' in opt else False
        if 'cut' in opt: kw['cut'] = opt['cut'].split(',')
        if 'cap' in opt: kw['cap'] = int(opt['cap'])
        if 'noout' in opt: kw['noout'] = tuple(opt['noout'].split(','))
        if 'until' in opt: kw['until'] = opt['until'].split(',')
        if 'max' in opt: kw['maxstates'] = int(opt['max'])
        for p in pids:
            cs = []
            for ln, t in cl:
                try: cs += clause(t)
                except Exception as e: raise ValueError('%s:%d: %s (%s)' % (path, ln, e, t))
            props.setdefault(p, []).append(S.Fn(file, qual, *cs, m={**glob_m, **m}, **kw))
        cur = None
    buf = ''
    for n, l in enumerate(open(path), 1):
        l = l.rstrip('\n')
        if l.lstrip().startswith('#') or not l.strip(): continue
        if l[0] in ' \t' and buf: buf += ' ' + l.strip(); continue
        if buf: cur = _line(buf, bn, cur, flush, glob_m)
        buf = l; bn = n
    if buf: cur = _line(buf, bn, cur, flush, glob_m)
    flush()
    return props


def _line(l, n, cur, flush, glob_m):
    if l[0] == '@':
        flush()
        w = l[1:].split()
        return [w[0].split(','), w[1], w[2], dict((x + '=1' if '=' not in x else x).split('=', 1) for x in w[3:]), {}, []]
    if l.startswith('let '):
        k, v = l[4:].split('=', 1)
        (glob_m if cur is None else cur[4])[k.strip()] = v.strip()
        return cur
    if cur is None: raise ValueError('line %d: clause outside a function: %s' % (n, l))
    cur[5].append((n, l))
    return cur


def load_all():
    d = {}
    for p in sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'tables', '*.tbl'))):
        for k, v in load(p).items(): d.setdefault(k, []).extend(v)
    return d
