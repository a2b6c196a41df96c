"""C08: the key prefixes of the persistent tables keep the tables apart."""
import os, re
from fe.spec import Custom
from fe.repo import AnalysisBroken

def consts(path, pat):
    """name -> (string, line) of constants initialised with a string literal (literals joined, comments dropped)"""
    t = open(path, errors='replace').read()
    t = re.sub(r'//[^\n]*|/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), t, flags=re.S)
    out = {}
    for m in re.finditer(r'\b(%s)\s*(?:\[\s*\])?\s*(?:=|\{|\()\s*((?:"(?:\\.|[^"\\])*"\s*)+)' % pat, t):
        out[m.group(1)] = (''.join(re.findall(r'"((?:\\.|[^"\\])*)"', m.group(2))), t.count('\n', 0, m.start()) + 1)
    return out

def apart(rep, rel, cs, where, what):
    n = sorted(cs)
    for i, a in enumerate(n):
        va, la = cs[a]
        rep.check(va != '', rel, where, 'prefix ' + a, 'empty', la, '%s of %s is empty: a scan of it reads every table' % (what, a))
        for b in n[i + 1:]:
            vb, lb = cs[b]
            bad = va.startswith(vb) or vb.startswith(va)
            rep.check(not bad, rel, where, '%s / %s' % (a, b), 'overlap', max(la, lb), '%s "%s" of %s and "%s" of %s overlap: loading or clearing one table takes in the other' % (what, va, a, vb, b))

def tables(repo, rep):
    """a table is scanned, loaded and cleared by METAxxx + prefix, so no such prefix may be the start of another one"""
    rel = 'src/coordinator/coordinator_prefix.h'
    cs = consts(os.path.join(repo.root, rel), r'kPrefix\w+')
    if len(cs) < 10: raise AnalysisBroken('%s: only %d table prefixes found' % (rel, len(cs)))
    # kind of map each prefix is used for, from the constructors' `new Meta...<T>(..., kPrefixX, ...)`
    used = {}
    tags = {}
    txt = open(os.path.join(repo.root, 'src/coordinator/coordinator_meta_storage.h'), errors='replace').read()
    for m in re.finditer(r'\b(MetaDiskMap|MetaMemMapFlat|MetaMemMapStd)\s*\([^;{]*?internal_prefix\s*\(\s*(?:std::string\s*\(\s*)?"([^"]*)"', txt, re.S): tags[m.group(1)] = m.group(2)
    rep.check(len(tags) == 3, 'src/coordinator/coordinator_meta_storage.h', 'internal_prefix', 'map kinds', str(len(tags)), 0, 'the three kinds of table put their own tag in front of the prefix')
    for f in ('coordinator_control.cc', 'kv_control.cc'):
        r = 'src/coordinator/' + f
        t = re.sub(r'//[^\n]*', '', open(os.path.join(repo.root, r), errors='replace').read())
        for m in re.finditer(r'new\s+(MetaDiskMap|MetaMemMapFlat|MetaMemMapStd)\s*<[^;]*?\b(kPrefix\w+)', t, re.S):
            used.setdefault(m.group(2), []).append((m.group(1), r, t.count('\n', 0, m.start()) + 1))
    if len(used) < 10: raise AnalysisBroken('only %d tables found in the constructors' % len(used))
    full = {}
    for k, us in used.items():
        rep.check(len(us) == 1, us[0][1], k, 'tables per prefix', str(len(us)), us[-1][2], 'prefix %s is given to %d tables: each loads the other\'s records' % (k, len(us)))
        if k in cs and us[0][0] in tags: full[k] = (tags[us[0][0]] + cs[k][0], cs[k][1])
    apart(rep, rel, full, 'kPrefix', 'the key prefix')

def store(repo, rep):
    rel = 'src/common/constant.h'
    cs = consts(os.path.join(repo.root, rel), r'k(?:Store|VectorIndex|DocumentIndex)\w+Prefix')
    if len(cs) < 5: raise AnalysisBroken('%s: only %d store prefixes found' % (rel, len(cs)))
    apart(rep, rel, cs, 'Constant', 'the key prefix')

PROPS = {'C08': [Custom(tables, 'coordinator table prefixes'), Custom(store, 'store meta prefixes')]}
