"""Whole-tree rules: which lock guards which shared field (X06), locks given back, lock order, and null dereference (X07).

spec/locks.json names, for every field found guarded on the reference tree, its lock and the few functions (start-up,
recovery, getters of a word) that touch it without; everything else in the tree, whatever function it is in, must hold
the lock.  New functions are judged in the context of the known functions that call them."""
import os, json
from fe.locks import Whole
from fe.spec import Custom

HERE = os.path.dirname(os.path.abspath(__file__))
# locks that are meant to outlive the function, or that come from the caller
HANDOVER = {'RWLockReadGuard', 'RWLockWriteGuard'}
LEAK_OK = {'Region::LockRegionMeta', 'Region::UnlockRegionMeta', 'KvControl::LeaseRevoke', 'KvControl::KvPut'}
RECURSIVE = set()
_cache = {}


def whole(repo):
    k = id(repo)
    if k not in _cache:
        inv = json.load(open(os.path.join(HERE, 'inventory.json')))
        _cache.clear(); _cache[k] = Whole(repo, set(inv))
    return _cache[k]


def who_of(w, f):
    return {who for who, L in w.entry[f]} or {f.qual()}


def guarded(repo, rep):
    w = whole(repo)
    if len(repo.unparsed) + len(w.broken) > 20: rep.broken('whole-tree rules: %d files or functions could not be read' % (len(repo.unparsed) + len(w.broken))); return
    spec = json.load(open(os.path.join(HERE, 'locks.json')))['guarded']
    n = {}
    for c, fld, rw, who, L, file, line, f in w.accesses():
        s = spec.get(c + '::' + fld)
        if s is None or w.ctor(f): continue
        rep.functions.append('%s:%d %s' % (f.file, f.line, f.qual())) if f not in n else None
        n[f] = 1
        if not w.locks_exist(c, s['lock']): continue
        held = {m for l, m in L if l == s['lock']}
        ok = bool(held) and (rw == 'r' or 'w' in held or not s['wmode'])
        ok = ok or (who + ':' + rw) in s['except'] or (f.qual() + ':' + rw) in s['except'] or (rw == 'r' and (f.qual() + ':w') in s['except'])
        rep.check(ok, file, f.qual(), 'guarded by ' + s['lock'], c + '::' + fld + ' ' + rw, line,
                  '%s %s without holding %s%s' % ('changes' if rw == 'w' else 'reads', c + '::' + fld, s['lock'],
                                                 '' if who == f.qual() else ' (called from %s)' % who))
    rep.rules.append({'function': '*', 'rule': '%d guarded fields: every access holds the lock' % len(spec), 'instances': rep.obligations})


def balance(repo, rep):
    w = whole(repo)
    for f in w.funcs:
        if f.qual() in LEAK_OK or f.name in HANDOVER or f.name.startswith('~') or f.name in ('lock', 'unlock', 'Lock', 'Unlock', 'LockWrite', 'UnlockWrite', 'LockRead', 'UnlockRead'): continue
        acq = [e for e in w.flow[f] if e[0] == 'acq']
        bad = [e for e in w.flow[f] if e[0] in ('leak', 'unheld')]
        if not acq and not bad: continue
        if w.isknown(f) is False and bad:
            # an extracted helper may lock for its caller; the pair is judged only when it is complete
            kinds = {e[0] for e in bad}
            if len(kinds) == 1: rep.check(True, f.file, f.qual(), 'lock', '', f.line, ''); continue
        rep.check(not bad, f.file, f.qual(), 'lock balance', bad[0][1] if bad else '', bad[0][2] if bad else 0,
                  (('%s is still held when the function ends' if bad[0][0] == 'leak' else '%s is released without being held') % bad[0][1]) if bad else '')


def again(repo, rep):
    """no function acquires a lock that it or every caller context already holds"""
    w = whole(repo)
    acq = w.acquires()
    for f in w.funcs:
        for e in w.flow[f]:
            if e[0] == 'again': rep.check(False, f.file, f.qual(), 'acquired twice', e[1], e[2], '%s is taken on a path that still holds it' % e[1])
        for e in w.flow[f]:
            if e[0] == 'acq':
                l = w.lockid(f, e[1])
                held = any(w.lockid(f, x) == l and (m == 'w' or e[2] == 'w') for x, m in e[3])
                if l in RECURSIVE: continue
                rep.check(not held, f.file, f.qual(), 'acquired twice', e[1], e[4], '%s is taken while it is already held' % e[1])
            elif e[0] == 'call' and f.cls and e[1] in (None, 'this') and e[3]:
                for t in w.targets(f.cls, e[2]):
                    if t is f: continue
                    for (l, m) in acq[t]:
                        if '::' not in l or t.name in HANDOVER: continue
                        held = [mm for x, mm in e[3] if w.lockid(f, x) == l and (mm == 'w' or m == 'w')]
                        rep.check(not held or f.qual() + '>' + t.name in LEAK_OK or t.qual() in LEAK_OK, f.file, f.qual(), 'acquired twice', l + ' via ' + t.name, e[4],
                                  'calls %s, which takes %s, while holding it' % (t.name, l))


def waits(repo, rep):
    """waiting on a condition happens with its mutex held"""
    w = whole(repo)
    for f in w.funcs:
        for e in w.flow[f]:
            if e[0] == 'call' and e[2] in ('bthread_cond_wait', 'bthread_cond_timedwait', 'pthread_cond_wait'):
                held = bool(e[3]) or all(L for who, L in w.entry[f])
                rep.check(held, f.file, f.qual(), 'wait holds a mutex', e[2], e[4], 'waits on a condition without holding a mutex')


def order(repo, rep):
    """the lock order of the tree has no cycle"""
    w = whole(repo)
    edges = w.order_edges()
    adj = {}
    for (a, b), v in edges.items(): adj.setdefault(a, set()).add(b)
    base = {tuple(x) for x in json.load(open(os.path.join(HERE, 'locks.json'))).get('order_known', [])}
    for (a, b), (f, line) in sorted(edges.items(), key=lambda x: x[0]):
        # is there a path b -> a
        seen = {b}; st = [b]; cyc = False
        while st:
            x = st.pop()
            if x == a: cyc = True; break
            for y in adj.get(x, ()):
                if y not in seen: seen.add(y); st.append(y)
        rep.check(not cyc or (a, b) in base, f.file, f.qual(), 'lock order', a + ' -> ' + b, line, 'takes %s while holding %s; elsewhere the order is the other way round' % (b, a))


def nulls(repo, rep):
    w = whole(repo)
    for f in w.funcs:
        bad = [e for e in w.flow[f] if e[0] == 'null']
        rep.obligations += len(getattr(f, 'derefs', ())) or 1
        for e in bad:
            rep.failed += 1
            rep.violation(f.file, f.qual(), 'null dereference', e[1], e[2], '%s is dereferenced on a path that has just found it to be null' % e[1])


PROPS = {
    'X06': [Custom(guarded, 'guarded fields are accessed under their lock'), Custom(balance, 'locks are given back on every path'),
            Custom(again, 'no lock is taken twice by one thread'), Custom(waits, 'condition waits hold a mutex'), Custom(order, 'lock order has no cycle')],
    'X07': [Custom(nulls, 'a pointer found null is not dereferenced')],
}
