"""Whole-tree lock analysis: entry locksets per class method, guarded-field obligations, lock order, self-deadlock."""
import os, re, json
from .flow import FnFlow

SKIP = ('/client', '/simd/', '/diskann/')

class Whole:
    def __init__(self, repo, known):
        self.repo = repo
        self.known = known            # set of known 'file|qual|n' keys
        self.units = [u for u in repo.all_units() if not any(s in u.rel for s in SKIP)]
        self.fields, self.bases = {}, {}
        for u in self.units:
            for c, fl in u.fields.items(): self.fields.setdefault(c, {}).update(fl)
            for c, b in u.bases.items(): self.bases.setdefault(c, []).extend(b)
        self.flow = {}                # Func -> events
        self.byname = {}              # (cls, name) -> [Func]
        self.funcs = []
        self.broken = []
        self.extcalls = set()
        self._all = {}
        for u in self.units:
            for f in u.funcs:
                try: ev = FnFlow(f, self.allf(f.cls) if f.cls else {}).run()
                except (RecursionError, AssertionError, IndexError, AttributeError) as ex:
                    self.broken.append((f, repr(ex))); continue
                self.flow[f] = ev; self.funcs.append(f)
                if f.cls: self.byname.setdefault((f.cls, f.name), []).append(f)
                for e in ev:
                    if e[0] == 'call' and e[1] not in (None, 'this'): self.extcalls.add(e[2])
        self.contexts()
    def allf(self, c, seen=()):
        if c in self._all and not seen: return self._all[c]
        out = {}
        for b in self.bases.get(c, ()):
            b = b.split('::')[-1].split('<')[0].strip()
            if b != c and b not in seen: out.update(self.allf(b, seen + (c,)))
        for n in self.fields.get(c, {}): out[n] = c
        if not seen: self._all[c] = out
        return out
    def isknown(self, f):
        rel = f.file
        rel = rel[4:] if rel.startswith('src/') else rel
        return '%s|%s|%d' % (rel, f.qual(), len(f.params)) in self.known or any(k in self.known for k in ('%s|%s|%d' % (f.file, f.qual(), len(f.params)),))
    def hier(self, c, seen=()):
        yield c
        for b in self.bases.get(c, ()):
            b = b.split('::')[-1].split('<')[0].strip()
            if b != c and b not in seen:
                yield from self.hier(b, seen + (c,))
    def targets(self, cls, name):
        for c in self.hier(cls):
            r = self.byname.get((c, name))
            if r: return r
        return ()
    def lockid(self, f, l):
        own = self.allf(f.cls) if f.cls else {}
        l = l[5:] if l.startswith('this.') else l
        return own[l] + '::' + l if l in own else l
    def locks(self, f, L): return frozenset((self.lockid(f, l), m) for l, m in L)
    def contexts(self):
        self.sites = {}               # callee Func -> [(caller, lockset, line)]
        for f in self.funcs:
            if not f.cls: continue
            for e in self.flow[f]:
                if e[0] == 'call' and e[1] in (None, 'this'):
                    for t in self.targets(f.cls, e[2]):
                        if t is not f: self.sites.setdefault(t, []).append((f, self.locks(f, e[3]), e[4]))
        self.entry = {}
        for f in self.funcs:
            s = set()
            kn = self.isknown(f)
            if f not in self.sites or (kn and f.name in self.extcalls): s.add((f.qual(), frozenset()))
            self.entry[f] = s
        changed = True; rounds = 0
        while changed and rounds < 12:
            changed = False; rounds += 1
            for f, ss in self.sites.items():
                kn = self.isknown(f)
                cur = self.entry[f]; n0 = len(cur)
                for g, L, line in ss:
                    for who, Lw in self.entry[g]:
                        if len(cur) > 60: break
                        cur.add((f.qual() if kn else who, Lw | L))
                if len(cur) != n0: changed = True
        for f in self.funcs:
            if not self.entry[f]: self.entry[f] = {(f.qual(), frozenset())}
    def accesses(self):
        """(cls, field, rw, who, lockset, file, line, func)"""
        for f in self.funcs:
            if not f.cls: continue
            own = self.allf(f.cls)
            for e in self.flow[f]:
                if e[0] != 'acc': continue
                L0 = self.locks(f, e[3])
                for who, Le in self.entry[f]:
                    yield own[e[1]], e[1], e[2], who, L0 | Le, f.file, e[4], f
    def ctor(self, f): return f.name == f.cls or f.name.startswith('~') or f.name == '~' + (f.cls or '')
    # ---- lock acquisition summary
    def acquires(self):
        acq = {}
        for f in self.funcs:
            s = {}
            for e in self.flow[f]:
                if e[0] == 'acq': s.setdefault((self.lockid(f, e[1]), e[2]), e[4])
            acq[f] = s
        changed = True
        while changed:
            changed = False
            for f, ss in self.sites.items():
                for g, L, line in ss:
                    for k in acq[f]:
                        if k not in acq[g]: acq[g][k] = line; changed = True
        return acq

    def locks_exist(self, c, lock):
        """the lock is still a member of its class (a renamed lock cannot be judged)"""
        k, _, m = lock.rpartition('::')
        return m in self.fields.get(k, {})
    def typeclass(self, ty):
        for t in re.findall(r'[A-Za-z_]\w*', ty or ''):
            if t in self.fields and t not in ('T',): return t
            if t.endswith('Ptr') and t[:-3] in self.fields: return t[:-3]
        return None
    def order_edges(self):
        """(lock held, lock taken) -> (Func, line); calls through members of known class type are followed"""
        direct = {}
        calls = {}
        for f in self.funcs:
            d = direct[f] = set()
            for e in self.flow[f]:
                if e[0] == 'acq':
                    l = self.lockid(f, e[1])
                    if '::' in l: d.add(l)
            cs = calls[f] = []
            for e in self.flow[f]:
                if e[0] != 'call' or not f.cls: continue
                if e[1] in (None, 'this'): ts = self.targets(f.cls, e[2])
                elif e[1] in self.allf(f.cls):
                    own = self.allf(f.cls)[e[1]]
                    c = self.typeclass(self.fields[own].get(e[1]))
                    ts = self.targets(c, e[2]) if c else ()
                else: ts = ()
                L = {self.lockid(f, l) for l, m in e[3]}
                for t in ts:
                    if t is not f: cs.append((t, {l for l in L if '::' in l}, e[4]))
        acq = {f: set(d) for f, d in direct.items()}
        ch = True
        while ch:
            ch = False
            for f in self.funcs:
                for t, L, line in calls[f]:
                    if not acq[t] <= acq[f]: acq[f] |= acq[t]; ch = True
        out = {}
        for f in self.funcs:
            for e in self.flow[f]:
                if e[0] == 'acq':
                    b = self.lockid(f, e[1])
                    if '::' not in b: continue
                    for l, m in e[3]:
                        a = self.lockid(f, l)
                        if '::' in a and a != b: out.setdefault((a, b), (f, e[4]))
            for t, L, line in calls[f]:
                for a in L:
                    for b in acq[t]:
                        if a != b: out.setdefault((a, b), (f, line))
        return out
