"""M01 / M02: layouts of the versioned key and value codecs (abstract interpretation, fe/absint.py)."""
from fe.spec import Custom
from fe.repo import AnalysisBroken
from fe import absint as A

MV = 'mvcc/codec.cc'; SH = 'common/serial_helper.cc'; VC = 'vector/codec.cc'; DC = 'document/codec.cc'
FILES = [SH, 'common/serial_helper.h', MV, 'mvcc/codec.h', 'common/constant.h', VC, 'vector/codec.h', DC, 'document/codec.h', 'mvcc/ts_provider.cc']

_it = {}
def interp(repo):
    k = id(repo)
    if k not in _it:
        _it.clear()
        _it[k] = A.Interp(repo, FILES)
    return _it[k]


def B(v): return A.mk(v, 8, True)
def opq(n, nm='k', off=0): return [A.src('%s%d' % (nm, i + off), 8, True) for i in range(n)]
def I64(nm='ts', top=0): return A.src(nm, 64, True, {63: top} if top is not None else None)
def S(d, view=False): return lambda: A.Str(d, view)
def U(): return lambda: A.Cell(A.Str())
def be(x): return [A.BV(x.b[i * 8:i * 8 + 8], True) for i in range(7, -1, -1)]
def neg(x): return A.BV([A.bnot(b) for b in x.b], x.s)
def cmpb(x): return A.BV(x.b[:63] + (A.bnot(x.b[63]),), True)


def enc(d):
    out = []
    i = 0
    while True:
        g = d[i:i + 8]
        out += g + [B(0)] * (8 - len(g)) + [B(-1 - (8 - len(g)))]
        i += 8
        if len(g) < 8: return out


def top(v):
    if v.__class__ is A.BV: return A.T in v.b
    if v.__class__ in (A.Str, A.Vec): return any(top(x) for x in v.d)
    if v.__class__ is A.Obj: return any(top(c.v) for c in v.f.values())
    return False


def hazy(v, w):
    """the computed value is unknown in places and agrees with the wanted one wherever it is known"""
    if not top(v): return False
    if isinstance(v, A.Cell): v = v.v
    if v.__class__ is A.BV and w.__class__ is A.BV:
        x = w.cast(v.w, w.s).b
        return all(p == A.T or p == q for p, q in zip(v.b, x))
    if v.__class__ is A.Str and w.__class__ is list:
        return len(v.d) == len(w) and all(hazy(p, q) or p.b == q.b for p, q in zip(v.d, w))
    return True


def same(v, w):
    if isinstance(v, A.Cell): v = v.v
    if w.__class__ is list:
        return v.__class__ is A.Str and len(v.d) == len(w) and all(p.b == q.b for p, q in zip(v.d, w))
    if w.__class__ is dict:
        return v.__class__ is A.Obj and all(k in v.f and same(v.f[k].v, x) for k, x in w.items())
    if w.__class__ is tuple:
        return v.__class__ is A.Vec and len(v.d) == len(w) and all(same(p, q) for p, q in zip(v.d, w))
    if w.__class__ is A.BV: return v.__class__ is A.BV and v.b == w.cast(v.w, w.s).b and v.w >= min(w.w, 8)
    if w.__class__ is bool:
        if v.__class__ is A.BV and v.conc() is not None: v = v.conc() != 0
        return v is w
    return v == w


class Case:
    def __init__(s, rep, repo):
        s.rep = rep; s.it = interp(repo); s.repo = repo; s.fns = {}; s.und = {}

    def run(s, cls, name, args, what, ret=None, out=None, bad=False, anyret=False, only_value=False):
        """bad: must abort or return false on every path.  ret/out: expected layout."""
        probe = [x() if callable(x) else x for x in args]
        fn = s.it.pick(cls, name, probe)
        if fn is None: raise AnalysisBroken('no overload of %s::%s for %s' % (cls, name, what))
        s.fns[fn.qual(), fn.line] = fn
        rep = s.rep
        try: ps = s.it.paths(fn, args)
        except A.Imprecise as e:
            s.und.setdefault('%s %s' % (fn.file, fn.qual()), str(e)); return
        rep.paths += len(ps)
        for k, v, a, dec in ps:
            ok = True; got = ''
            if bad:
                ok = k == 'abort' or same(v, False)
                got = 'accepted'
            elif k == 'abort': ok = False; got = 'aborts (%s)' % v
            else:
                if ret is not None and not same(v, ret):
                    if hazy(v.v if isinstance(v, A.Cell) else v, ret): s.und.setdefault('%s %s' % (fn.file, fn.qual()), 'result layout'); continue
                    ok = False; got = 'result is %r' % (v,)
                for i, w in (out or {}).items():
                    x = a[i].v if isinstance(a[i], A.Cell) else a[i]
                    if ok and not same(x, w):
                        if hazy(x, w): s.und.setdefault('%s %s' % (fn.file, fn.qual()), 'output layout'); ok = None; break
                        ok = False; got = 'output %d is %r' % (i, x)
                if ok is None: continue
            ty = ','.join(A.base(p[1]) for p in fn.params)
            rep.check(ok, fn.file, fn.qual(), 'layout', '(%s) %s' % (ty, what.split(' of ')[0]), fn.line,
                      '%s(%s): %s: %s' % (fn.name, ty, what, got[:300]))

    def done(s):
        for f in s.fns.values(): s.rep.functions.append('%s:%d %s' % (f.file, f.line, f.qual()))
        for key, f in s.it.visited.items(): s.rep.inlined.add('%s %s' % (f.file, f.qual()))
        for k, v in s.und.items(): s.rep.broken('%s: cannot decide the layout (%s)' % (k, v))


def lens(rep, repo):
    """lengths explored: all small ones, the neighbourhood of every integer literal of the codec sources
    (a branch on the length needs such a literal) and of the ranges of the narrow integer types used there"""
    import re
    from fe import lex
    out = set(range(0, 26) if rep.tier == 'quick' else range(0, 140)) | {254, 255, 256, 257}
    for f in ('mvcc/codec.cc', 'mvcc/codec.h', 'common/serial_helper.cc', 'common/serial_helper.h'):
        p = repo.path(f)
        if not p: continue
        txt = re.sub(r'//[^\n]*|/\*.*?\*/|"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', ' ', open(p, errors='replace').read(), flags=re.S)
        for m in re.finditer(r'\b(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\b', txt):
            v = int(m.group(1), 0) if not re.fullmatch(r'0\d+', m.group(1)) else int(m.group(1), 8)
            if 9 <= v <= 1100: out |= {x for x in range(v - 9, v + 10) if x >= 0}
            elif 1100 < v <= 20000: out |= {v - 1, v, v + 1, v + 4}
        for m in re.finditer(r'\b1[uUlL]*\s*<<\s*(\d+)', txt):
            v = 1 << int(m.group(1))
            if 16 <= v <= 1100: out |= set(range(v - 9, v + 10))
            elif 1100 < v <= 20000: out |= {v - 1, v, v + 1, v + 4}
        for m in re.finditer(r'\b(\d+)[uUlL]*\s*\*\s*(\d+)', txt):
            v = int(m.group(1)) * int(m.group(2))
            if 1100 < v <= 20000: out |= {v - 1, v, v + 1, v + 4}
    return sorted(out)


def m01_bytes(repo, rep):
    c = Case(rep, repo)
    for n in lens(rep, repo):
        d = opq(n); e = enc(d)
        w = 'layout of %d bytes' % n
        c.run('Codec', 'EncodeBytes', [S(d)], 'memcomparable ' + w, ret=e)
        c.run('Codec', 'EncodeBytes', [S(d), U()], 'memcomparable ' + w, out={1: e})
        c.run('Codec', 'EncodeBytes', [S(d, True), U()], 'memcomparable ' + w, out={1: e})
        # the output buffer may hold earlier content
        c.run('Codec', 'EncodeBytes', [S(d, True), lambda: A.Cell(A.Str(opq(5, 'old')))], 'replaces old output ' + w, out={1: e})
        for view in (False, True):
            c.run('Codec', 'DecodeBytes', [S(e, view), U()], 'inverse ' + w, ret=True, out={1: d})
            c.run('Codec', 'DecodeBytes', [S(e, view), lambda: A.Cell(A.Str(opq(5, 'old')))], 'inverse replaces old output ' + w, ret=True, out={1: d})
            if n <= 25:
                for cut in range(1, 9):
                    c.run('Codec', 'DecodeBytes', [S(e[:-cut], view), U()], 'rejects a truncated encoding of %d-%d' % (n, cut), bad=True)
                    c.run('Codec', 'DecodeBytes', [S(e + opq(cut, 'x'), view), U()], 'rejects a partial trailing group of %d+%d' % (n, cut), bad=True)
                c.run('Codec', 'DecodeBytes', [S(e[:-1] + [B(-1)], view), U()], 'rejects an unterminated encoding of %d' % n, bad=True)
                pad = 8 - n % 8
                for p in range(pad):
                    for v in (1, -1, -128):
                        x = list(e); x[len(e) - 2 - p] = B(v)
                        c.run('Codec', 'DecodeBytes', [S(x, view), U()], 'rejects non-zero padding of %d' % n, bad=True)
    c.done()


def m01_ts(repo, rep):
    c = Case(rep, repo)
    t = I64(); any64 = I64('v', None)
    pre = opq(3, 'p')
    for p in ([], pre):
        o = lambda: A.Cell(A.Str(p))
        c.run('SerialHelper', 'WriteLongWithNegation', [t, o], 'appends ~ts big-endian', out={1: p + be(neg(t))})
        c.run('SerialHelper', 'WriteLong', [any64, o], 'appends the value big-endian', out={1: p + be(any64)})
        c.run('SerialHelper', 'WriteLongComparable', [any64, o], 'appends the value big-endian, sign flipped', out={1: p + be(cmpb(any64))})
    c.run('SerialHelper', 'WriteLongWithNegation', [I64('ts', 1), U()], 'refuses a negative timestamp', bad=True)
    for extra in (0, 1, 3):
        x = opq(extra, 'x')
        c.run('SerialHelper', 'ReadLong', [S(be(any64) + x, True)], 'inverse of the write', ret=any64)
        c.run('SerialHelper', 'ReadLongWithNegation', [S(be(neg(any64)) + x, True)], 'inverse of the write', ret=any64)
        for view in (False, True):
            c.run('SerialHelper', 'ReadLongComparable', [S(be(cmpb(any64)) + x, view)], 'inverse of the write', ret=any64)
    for n in range(8):
        c.run('SerialHelper', 'ReadLong', [S(opq(n), True)], 'refuses short input of %d' % n, bad=True)
    c.done()


def m01_key(repo, rep):
    c = Case(rep, repo)
    t = I64()
    for n in lens(rep, repo):
        d = opq(n); e = enc(d) + be(neg(t))
        w = 'layout of %d bytes' % n
        for view in (False, True):
            c.run('Codec', 'EncodeKey', [S(d, view), t], 'encoded bytes then ~ts ' + w, ret=e)
            c.run('Codec', 'DecodeKey', [S(e, view), U(), lambda: A.Cell(A.mk(0, 64), 'int64_t')], 'inverse ' + w, ret=True, out={1: d, 2: t})
            c.run('Codec', 'DecodeKey', [S(e, view), U()], 'inverse ' + w, ret=True, out={1: d})
            c.run('Codec', 'TruncateTsForKey', [S(e, view)], 'drops the timestamp ' + w, ret=enc(d))
            c.run('Codec', 'TruncateKeyForTs', [S(e, view)], 'keeps the timestamp ' + w, ret=t)
            if n <= 25:
                for cut in range(1, 9):
                    c.run('Codec', 'DecodeKey', [S(e[:-8 - cut] + e[-8:], view), U(), lambda: A.Cell(A.mk(0, 64), 'int64_t')], 'rejects a truncated key of %d-%d' % (n, cut), bad=True)
    for n in range(17):
        if n == 0: continue
        for view in (False, True):
            c.run('Codec', 'DecodeKey', [S(opq(n), view), U(), lambda: A.Cell(A.mk(0, 64), 'int64_t')], 'rejects a short key of %d' % n, bad=True)
            c.run('Codec', 'DecodeKey', [S(opq(n), view), U()], 'rejects a short key of %d' % n, bad=True)
    d1, d2 = opq(3, 'a'), opq(9, 'b')
    c.run('Codec', 'EncodeKeys', [t, lambda: A.Vec([A.Str(d1), A.Str(d2)])], 'every key in order', ret=(enc(d1) + be(neg(t)), enc(d2) + be(neg(t))))
    c.run('Codec', 'EncodeKeys', [t, lambda: A.Vec()], 'no key', ret=())
    c.run('Codec', 'EncodeRange', [S(d1), S(d2)], 'both ends encoded', ret={'start_key': enc(d1), 'end_key': enc(d2)})
    rg = lambda a, b: (lambda: A.Obj('Range', {'start_key': A.Cell(A.Str(a)), 'end_key': A.Cell(A.Str(b))}))
    c.run('Codec', 'EncodeRange', [rg(d1, d2)], 'both ends encoded', ret={'start_key': enc(d1), 'end_key': enc(d2)})
    c.run('Codec', 'DecodeRange', [rg(enc(d1), enc(d2))], 'both ends decoded', ret={'start_key': d1, 'end_key': d2})
    c.run('Codec', 'DecodeRange', [rg(enc(d1)[:-1], enc(d2))], 'refuses a bad start', bad=True)
    c.run('Codec', 'DecodeRange', [rg(enc(d1), enc(d2)[:-1])], 'refuses a bad end', bad=True)
    c.done()


def m01_vec(kind, repo, rep):
    c = Case(rep, repo)
    K = kind + 'Codec'; Kn = kind
    P, D, t = I64('part'), I64('id'), I64()
    pre = B(ord('r'))
    sk = opq(11, 's')
    p0 = [pre] + be(P); p1 = p0 + be(cmpb(D)); p2 = p1 + sk
    c.run(K, 'Package%sKey' % Kn, [pre, P], 'prefix, partition', ret=p0)
    c.run(K, 'Package%sKey' % Kn, [pre, P, D], 'prefix, partition, id', ret=p1)
    c.run(K, 'Package%sKey' % Kn, [pre, P, D, S(sk)], 'prefix, partition, id, scalar key', ret=p2)
    c.run(K, 'Package%sKey' % Kn, [B(0), P], 'refuses a zero prefix', bad=True)
    for bad in (0, -1):
        c.run(K, 'Package%sKey' % Kn, [pre, A.mk(bad, 64)], 'refuses partition %d' % bad, bad=True)
        c.run(K, 'Package%sKey' % Kn, [pre, A.mk(bad, 64), D], 'refuses partition %d' % bad, bad=True)
    c.run(K, 'Package%sKey' % Kn, [pre, P, I64('id', 1)], 'refuses a negative id', bad=True)
    for q, idv, sv in ((p0, A.mk(0, 64), None), (p1, D, None), (p2, D, sk)):
        e = enc(q); ets = e + be(neg(t))
        c.run(K, 'UnPackagePartitionId', [S(q)], 'partition of %d bytes' % len(q), ret=P)
        c.run(K, 'UnPackage%sId' % Kn, [S(q)], 'id of %d bytes' % len(q), ret=idv)
        c.run(K, 'DecodePartitionIdFromEncodeKey', [S(e)], 'partition of %d bytes' % len(q), ret=P)
        c.run(K, 'Decode%sIdFromEncodeKey' % Kn, [S(e)], 'id of %d bytes' % len(q), ret=idv)
        c.run(K, 'DecodePartitionIdFromEncodeKeyWithTs', [S(ets)], 'partition of %d bytes' % len(q), ret=P)
        c.run(K, 'Decode%sIdFromEncodeKeyWithTs' % Kn, [S(ets)], 'id of %d bytes' % len(q), ret=idv)
        n64 = lambda: A.Cell(A.mk(0, 64), 'int64_t')
        c.run(K, 'DecodeFromEncodeKey', [S(e), n64, n64], 'parts of %d bytes' % len(q), out={1: P, 2: idv})
        c.run(K, 'DecodeFromEncodeKeyWithTs', [S(ets), n64, n64], 'parts of %d bytes' % len(q), out={1: P, 2: idv})
        if sv:
            c.run(K, 'UnPackageScalarKey', [S(q)], 'scalar key', ret=sv)
            c.run(K, 'DecodeScalarKeyFromEncodeKey', [S(e)], 'scalar key', ret=sv)
            c.run(K, 'DecodeScalarKeyFromEncodeKeyWithTs', [S(ets)], 'scalar key', ret=sv)
            c.run(K, 'DecodeFromEncodeKey', [S(e), n64, n64, U()], 'parts of %d bytes' % len(q), out={1: P, 2: idv, 3: sv})
            c.run(K, 'DecodeFromEncodeKeyWithTs', [S(ets), n64, n64, U()], 'parts of %d bytes' % len(q), out={1: P, 2: idv, 3: sv})
        for view in (False, True):
            c.run(K, 'TruncateTsForKey', [S(ets, view)], 'drops the timestamp of %d bytes' % len(q), ret=e)
            c.run(K, 'TruncateKeyForTs', [S(ets, view)], 'keeps the timestamp of %d bytes' % len(q), ret=t)
        c.run(K, 'IsValidKey', [S(q)], 'accepts %d bytes' % len(q), ret=True)
    for n in list(range(0, 9)) + list(range(10, 17)):
        c.run(K, 'IsValidKey', [S(opq(n))], 'rejects %d bytes' % n, ret=False)
        c.run(K, 'UnPackage%sId' % Kn, [S(opq(n))], 'refuses %d bytes' % n, bad=True)
    c.run(K, 'Encode%sKey' % Kn, [pre, P], 'encoded', ret=enc(p0))
    c.run(K, 'Encode%sKey' % Kn, [pre, P, D], 'encoded', ret=enc(p1))
    c.run(K, 'Encode%sKey' % Kn, [pre, P, D, t], 'encoded with ts', ret=enc(p1) + be(neg(t)))
    c.run(K, 'Encode%sKey' % Kn, [pre, P, D, S(sk)], 'encoded', ret=enc(p2))
    c.run(K, 'Encode%sKey' % Kn, [pre, P, D, S(sk), t], 'encoded with ts', ret=enc(p2) + be(neg(t)))
    c.done()


def m02(repo, rep):
    c = Case(rep, repo)
    it = c.it
    F = {k: it.env0.get('ValueFlag::' + k) for k in ('kPut', 'kPutTTL', 'kDelete')}
    want = {'kPut': 0, 'kPutTTL': 1, 'kDelete': 2}
    for k, v in F.items():
        rep.check(v is not None and v.conc() == want[k], 'src/mvcc/codec.h', 'ValueFlag', 'value', k, 0, 'ValueFlag::%s is not %d' % (k, want[k]))
        if v is None: raise AnalysisBroken('ValueFlag::%s not found' % k)
    fb = {k: v.cast(8, True) for k, v in F.items()}
    ttl = I64('ttl', None)
    n64 = lambda: A.Cell(A.mk(7, 64), 'int64_t')
    fc = lambda: A.Cell(A.mk(99, 8, False, 'ValueFlag'), 'ValueFlag')
    for n in lens(rep, repo):
        d = opq(n, 'v'); w = ' of %d bytes' % n
        put = d + [fb['kPut']]; pt = d + be(ttl) + [fb['kPutTTL']]; dl = [fb['kDelete']]
        c.run('Codec', 'PackageValue', [F['kPut'], lambda: A.Cell(A.Str(d))], 'flag appended' + w, out={1: put})
        c.run('Codec', 'PackageValue', [F['kPut'], S(d), U()], 'payload then flag' + w, out={2: put})
        c.run('Codec', 'PackageValue', [F['kPutTTL'], S(d), U()], 'payload, zero ttl, flag' + w, out={2: d + [B(0)] * 8 + [fb['kPutTTL']]})
        c.run('Codec', 'PackageValue', [F['kDelete'], S(d), U()], 'delete mark' + w, out={2: dl})
        for ex in (('kPut', put), ('kPutTTL', pt), ('kDelete', dl)):
            c.run('Codec', 'PackageValue', [F[ex[0]], ttl, lambda: A.Cell(A.Str(d))], ex[0] + ' in place' + w, out={2: ex[1]})
            c.run('Codec', 'PackageValue', [F[ex[0]], ttl, S(d), U()], ex[0] + w, out={3: ex[1]})
            pl = [] if ex[0] == 'kDelete' else d
            tv = ttl if ex[0] == 'kPutTTL' else A.mk(0, 64)
            c.run('Codec', 'UnPackageValueInPlace', [lambda: A.Cell(A.Str(ex[1]))], 'payload of %s' % ex[0] + w, out={0: pl})
            for view in (False, True):
                c.run('Codec', 'UnPackageValue', [S(ex[1], view)], 'payload of %s' % ex[0] + w, ret=pl)
                c.run('Codec', 'GetValueFlag', [S(ex[1], view)], 'flag of %s' % ex[0] + w, ret=F[ex[0]])
                if ex[0] == 'kPutTTL': c.run('Codec', 'GetValueTTL', [S(ex[1], view)], 'ttl' + w, ret=ttl)
                else: c.run('Codec', 'GetValueTTL', [S(ex[1], view)], 'refuses the ttl of %s' % ex[0] + w, bad=True)
            c.run('Codec', 'UnPackageValue', [S(ex[1], True), fc, n64], 'parts of %s' % ex[0] + w, ret=pl, out={1: F[ex[0]], 2: tv})
    for view in (False, True):
        for v in (3, -1, 127): c.run('Codec', 'GetValueFlag', [S(opq(3) + [B(v)], view)], 'refuses flag %d' % v, bad=True)
        c.run('Codec', 'GetValueFlag', [S([], view)], 'refuses an empty value', bad=True)
    # key-value helpers
    t = I64()
    k1, v1, k2, v2 = opq(3, 'a'), opq(5, 'b'), opq(10, 'c'), []
    kv = lambda k, v: A.Obj('KeyValue', {'key': A.Cell(A.Str(k)), 'value': A.Cell(A.Str(v))})
    E = lambda k: enc(k) + be(neg(t))
    sfx = {'Put': (lambda v: v + [fb['kPut']]), 'TTL': (lambda v: v + be(ttl) + [fb['kPutTTL']]), 'Delete': (lambda v: dl)}
    one = {'Put': 'EncodeKeyValueWithPut', 'TTL': 'EncodeKeyValueWithPutTTL', 'Delete': 'EncodeKeyValueWithDelete'}
    for nm, f in sfx.items():
        extra = [ttl] if nm == 'TTL' else []
        for k, v in ((k1, v1), (k2, v2)):
            c.run('Codec', one[nm], [t] + extra + [lambda: kv(k, v)], 'pair with %s' % nm, ret={'key': E(k), 'value': f(v)})
        exp = ({'key': E(k1), 'value': f(v1)}, {'key': E(k2), 'value': f(v2)})
        fname = 'EncodeKeyValuesWith' + nm
        cand = [q for q in it.by.get(fname, ()) if q.cls == 'Codec' and len(q.params) == 2 + len(extra)]
        if len(cand) < 1: raise AnalysisBroken('no %s' % fname)
        for q in cand:
            ref = 'const' not in q.params[-1][1]
            vec = lambda: A.Cell(A.Vec([kv(k1, v1), kv(k2, v2)]))
            c.it.pick_override = q
            _run_fn(c, q, [t] + extra + [vec], 'pairs with %s' % nm, exp if not ref else None, {1 + len(extra): exp} if ref else None)
    c.done()


def _run_fn(c, fn, args, what, ret, out):
    old = c.it.pick
    c.it.pick = lambda cls, name, a, _o=old, _f=fn: _f if (name == fn.name and c.it.depth == 0) else _o(cls, name, a)
    try: c.run('Codec', fn.name, args, what, ret=ret, out=out)
    finally: del c.it.pick


def m05_ts(repo, rep):
    c = Case(rep, repo)
    ph = A.src('physical', 64, True, {i: 0 for i in range(45, 64)}); lo = A.src('logical', 64, True, {i: 0 for i in range(18, 64)})
    fn = c.it.pick(None, 'ComposeTs', [ph, lo])
    if fn is None: return
    z = A.mk(0, 64)
    c.run(None, 'ComposeTs', [ph, z], 'physical alone', ret=A.BV(z.b[:18] + ph.b[:46], True))
    c.run(None, 'ComposeTs', [z, lo], 'logical alone', ret=lo)
    c.run(None, 'ComposeTs', [ph, lo], 'physical above 18 bits of logical', ret=A.BV(lo.b[:18] + ph.b[:46], True))
    c.done()


PROPS = {
    'M01': [Custom(m01_bytes, 'EncodeBytes/DecodeBytes layouts'), Custom(m01_ts, '64-bit integer layouts'), Custom(m01_key, 'EncodeKey/DecodeKey/Truncate*/ranges'),
            Custom(lambda r, p: m01_vec('Vector', r, p), 'vector key layouts'), Custom(lambda r, p: m01_vec('Document', r, p), 'document key layouts')],
    'M02': [Custom(m02, 'PackageValue/UnPackageValue/flag/ttl layouts')],
    'M05': [Custom(m05_ts, 'timestamp composition')],
}
