"""Compiled-in constants the rules use by name: the values and relations they must have for the rules to mean what they say."""
import os, re
from fe.spec import Custom
from fe.repo import AnalysisBroken
from spec.c_prefix import consts as strings, apart

LIM = {'INT64_MAX': 2**63 - 1, 'LLONG_MAX': 2**63 - 1, 'INT32_MAX': 2**31 - 1, 'INT_MAX': 2**31 - 1, 'UINT32_MAX': 2**32 - 1, 'UINT64_MAX': 2**64 - 1, 'true': 1, 'false': 0}

def _clean(t):
    return re.sub(r'//[^\n]*|/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), t, flags=re.S)

def ints(path):
    """name -> (value, line) of integer / char / bool constants of a file; expressions over other constants of it are folded"""
    t = _clean(open(path, errors='replace').read()); raw = {}
    for m in re.finditer(r'\b(?:(?:static|inline|constexpr|const)\s+)+(?:unsigned\s+|signed\s+|std::|long\s+)*\w+\s+(k\w+)\s*(?:=\s*([^;{}]+)|\{([^;{}]*)\}|\(([^;{}]*)\))\s*;', t):
        raw.setdefault(m.group(1), ((m.group(2) or m.group(3) or m.group(4) or '').strip(), t.count('\n', 0, m.start(1)) + 1))
    out = {}
    def val(nm, depth=0):
        if nm in out: return out[nm][0]
        x, ln = raw[nm]
        m = re.fullmatch(r"'(\\?.)'", x)
        if m: v = ord(m.group(1)[-1])
        else:
            x = re.sub(r'std::numeric_limits<\s*(?:std::)?int64_t\s*>::max\(\)', str(2**63 - 1), x)
            x = re.sub(r'static_cast<[^<>]*>', '', x)
            x = re.sub(r'\b(0[xX][0-9a-fA-F]+|\d+)[uUlL]+\b', r'\1', x)
            def sub(q):
                n = q.group(0)
                if n in LIM: return str(LIM[n])
                if n in raw and depth < 6: return str(val(n, depth + 1))
                raise ValueError(n)
            x = re.sub(r"(?<![0-9a-zA-Z_])[A-Za-z_]\w*", sub, x.replace('/', '//'))
            v = int(eval(x, {'__builtins__': {}}))
        out[nm] = (v, ln); return v
    for nm in raw:
        try: val(nm)
        except Exception: pass
    return out

class Rel:
    def __init__(s, repo, rep, rel):
        p = os.path.join(repo.root, rel)
        if not os.path.exists(p): raise AnalysisBroken('%s not found' % rel)
        s.rep = rep; s.rel = rel; s.c = ints(p); s.s = strings(p, r'k\w+')
    def req(s, names, f, msg):
        """decided only when every constant still has a value this reads; a constant that is gone carries no obligation"""
        if any(n not in s.c for n in names): return
        vs = [s.c[n][0] for n in names]
        s.rep.check(f(*vs), s.rel, names[0], 'constant', ', '.join('%s=%d' % z for z in zip(names, vs)), max(s.c[n][1] for n in names), msg)
    def distinct(s, names, msg):
        have = [(n,) + s.c[n] for n in names if n in s.c] + [(n,) + s.s[n] for n in names if n in s.s]
        for i, (a, va, la) in enumerate(have):
            for b, vb, lb in have[i + 1:]:
                s.rep.check(va != vb, s.rel, a, 'distinct', b, max(la, lb), '%s and %s are both %r: %s' % (a, b, va, msg))
    def apart(s, names, what):
        apart(s.rep, s.rel, {n: s.s[n] for n in names if n in s.s}, 'Constant', what)

def tso(repo, rep):
    r = Rel(repo, rep, 'src/coordinator/tso_control.h')
    r.req(['kMaxLogical'], lambda m: 0 < m <= 1 << 18, 'a logical part of 18 bits overflows into the physical part: two timestamps collide')
    r.req(['kUpdateTimestampGuardMs'], lambda g: g >= 1, 'a new leader starts at the very millisecond its predecessor could still have used')
    r.req(['kSaveIntervalMs', 'kUpdateTimestampGuardMs'], lambda s, g: s > g, 'the persisted bound no longer runs ahead of the timestamps handed out')
    r.req(['kSaveIntervalMs', 'kUpdateTimestampIntervalMs'], lambda s, i: s > i, 'the persisted bound runs out between two updates')
    r.req(['kUpdateTimestampIntervalMs'], lambda i: i > 0, 'the update timer never waits')
    Rel(repo, rep, 'src/common/constant.h').distinct(['kMetaRegionId', 'kKvRegionId', 'kTsoRegionId', 'kAutoIncrementRegionId'], 'the proposals of one coordinator group are applied by another')

def groups(repo, rep):
    Rel(repo, rep, 'src/common/constant.h').distinct(['kMetaRegionId', 'kKvRegionId', 'kTsoRegionId', 'kAutoIncrementRegionId'], 'the proposals of one coordinator group are applied by another')

def incr(repo, rep):
    r = Rel(repo, rep, 'src/coordinator/auto_increment_control.h')
    r.req(['kAutoIncrementGenerateCountMax', 'kAutoIncrementOffsetMax'], lambda c, o: 0 < c and 0 < o and c * o < 2**62, 'one generated range can overflow the id')
    groups(repo, rep)

def families(repo, rep):
    r = Rel(repo, rep, 'src/common/constant.h')
    r.distinct(['kStoreDataCF', 'kStoreMetaCF', 'kTxnDataCF', 'kTxnLockCF', 'kTxnWriteCF'], 'records of two kinds share one column and overwrite each other')

def vfamilies(repo, rep):
    r = Rel(repo, rep, 'src/common/constant.h')
    r.distinct(['kVectorDataCF', 'kVectorScalarCF', 'kVectorScalarKeySpeedUpCF', 'kVectorTableCF', 'kVectorScalarUseDocumentCF', 'kStoreMetaCF'], 'two kinds of vector data share one column and overwrite each other')
    r.apart(['kVectorIndexApplyLogIdPrefix', 'kVectorIndexSnapshotLogIdPrefix', 'kDocumentIndexApplyLogIdPrefix', 'kDocumentIndexSnapshotLogIdPrefix'], 'the key prefix')

def maxver(repo, rep):
    r = Rel(repo, rep, 'src/common/constant.h')
    r.req(['kMaxVer'], lambda v: v == 2**63 - 1, 'a seek at the greatest version starts below versions that exist')
    r.req(['kLockVer'], lambda v: v == 2**63 - 1, 'lock records written by other versions are no longer found')
    families(repo, rep)

def log(repo, rep):
    r = Rel(repo, rep, 'src/log/rocks_log_storage.cc')
    r.distinct(['kLogDataPrefix', 'kLogIndexMetaPrefix'], 'log entries and the index meta of a region share keys')
    c = Rel(repo, rep, 'src/common/constant.h')
    c.req(['kSegmentLogSync'], lambda v: v == 1, 'segment log appends are no longer synced')
    p = os.path.join(repo.root, 'src/log/segment_log_storage.cc')
    if os.path.exists(p):
        m = re.search(r'\bkSegmentLogSyncPolicy\s*(?:=|\{|\()\s*(?:\w+\s*::\s*)*(\w+)', _clean(open(p, errors='replace').read()))
        if m: rep.check(m.group(1) == 'kImmediately', 'src/log/segment_log_storage.cc', 'kSegmentLogSyncPolicy', 'constant', m.group(1), 0, 'segment log appends are acknowledged before they are synced')

TXN = ["T%02d" % i for i in range(1, 12)]
PROPS = {'C01': [Custom(tso, 'timestamp constants')], 'C02': [Custom(incr, 'auto-increment constants')], 'C03': [Custom(groups, 'coordinator group ids')],
         'R03': [Custom(families, 'column families')], 'R08': [Custom(vfamilies, 'vector column families and watermark keys')],
         'R04': [Custom(log, 'log key prefixes and sync constants')]}
for t in TXN: PROPS[t] = [Custom(maxver, 'version bounds and column families')]
