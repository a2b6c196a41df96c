"""Index of /repo/src: units, functions, class fields, signatures."""
import os, glob
from .cxx import Unit, E, ParseError

ROOT = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
    """An anchor vanished or a rule matched nothing: no verdict."""


class Repo:
    def __init__(self, root=None):
        self.root = root or ROOT
        self.units = {}
        self._headers = False
        self.sigs = {}       # name -> [Func decl/def]
        self.fieldcls = {}
        self.enum_of = {}    # enumerator -> enum name
        self.stats = {'units': 0}; self.unparsed = []

    def path(self, rel):
        for c in (rel, 'src/' + rel):
            p = os.path.join(self.root, c)
            if os.path.exists(p): return p
        return None

    def unit(self, rel):
        p = self.path(rel)
        if p is None: raise AnalysisBroken('source file %s not found' % rel)
        u = self.units.get(p)
        if u is None:
            with open(p, errors='replace') as f: txt = f.read()
            u = Unit(p, txt, os.path.relpath(p, self.root))
            self.units[p] = u
            for f in u.decls + u.funcs: self.sigs.setdefault(f.name, []).append(f)
            for c, fl in u.fields.items(): self.fieldcls.setdefault(c, {}).update(fl)
            for e, vs in u.enums.items():
                for v in vs: self.enum_of[v] = e
        return u

    def try_unit(self, rel):
        try: return self.unit(rel)
        except AnalysisBroken: return None

    def headers(self):
        if self._headers: return
        self._headers = True
        for p in sorted(glob.glob(os.path.join(self.root, 'src/**/*.h'), recursive=True)):
            rel = os.path.relpath(p, self.root)
            if '/client' in rel or '/simd/' in rel or '/diskann/' in rel: continue
            self.tolerant(rel)

    def all_units(self, sub='src', exts=('.cc', '.h')):
        out = []
        for p in sorted(glob.glob(os.path.join(self.root, sub, '**/*'), recursive=True)):
            if p.endswith(exts):
                u = self.tolerant(os.path.relpath(p, self.root))
                if u is not None: out.append(u)
        return out

    def tolerant(self, rel):
        """a file no rule names need not parse"""
        try: return self.unit(rel)
        except (ParseError, IndexError, AssertionError) as e:
            self.unparsed.append('%s: %r' % (rel, e)); return None

    def func(self, rel, qual, nparams=None, required=True, pick=None):
        """Function definition by qualified name ('Class::Name' or 'Name') in a file."""
        u = self.unit(rel)
        cls, name = qual.rsplit('::', 1) if '::' in qual else (None, qual)
        c = [f for f in u.funcs if f.name == name and (cls is None or f.cls == cls.split('::')[-1])]
        if nparams is not None: c = [f for f in c if len(f.params) == nparams] or c
        if pick is not None: c = [f for f in c if pick(f)] or c
        if not c:
            if required: raise AnalysisBroken('function %s not found in %s' % (qual, rel))
            return None
        return c[0]

    def funcs(self, rel, qual):
        u = self.unit(rel)
        cls, name = qual.rsplit('::', 1) if '::' in qual else (None, qual)
        return [f for f in u.funcs if f.name == name and (cls is None or f.cls == cls.split('::')[-1])]

    def is_field(self, cls, name):
        seen = set()
        st = [cls]
        while st:
            c = st.pop()
            if c is None or c in seen: continue
            seen.add(c)
            if name in self.fieldcls.get(c, {}): return True
            for u in self.units.values():
                st.extend(u.bases.get(c, ()))
        return False


def walk(e):
    """all E nodes below e (pre-order)."""
    st = [e]
    while st:
        x = st.pop()
        if x.__class__ is E:
            yield x
            for y in reversed(x.a):
                if y.__class__ is E or y.__class__ is tuple or y.__class__ is list: st.append(y)
        elif x.__class__ in (tuple, list):
            for y in reversed(x):
                if y.__class__ is E or y.__class__ is tuple or y.__class__ is list: st.append(y)


_ids = {}
def idents(e):
    """set of identifier components mentioned below e."""
    k = id(e)
    r = _ids.get(k)
    if r is not None and r[0] is e: return r[1]
    s = set()
    for x in walk(e):
        if x.k == 'name':
            for c in x.a[0].replace('<', ' ').replace('>', ' ').split('::'): s.add(c.strip())
        elif x.k == 'mem': s.add(x.a[1])
        elif x.k == 'lambda': s.update(c.strip('&*= ') for c in x.a[0].split(','))
        elif x.k in ('ctor', 'init', 'new', 'cast'):
            if x.a[0]: s.update(_words(x.a[0]))
        elif x.k in ('raw', 'opaque', 'sizeof'): s.update(_words(x.a[0]))
        elif x.k == 'decl':
            for (n, ty, i) in x.a[0]: s.update(_words(ty))
        elif x.k == 'goto': s.add(x.a[0])
    _ids[k] = (e, s)
    return s


def _words(s):
    import re
    return re.findall(r'[A-Za-z_]\w*', s)


def ekey(e):
    """structural key of an expression ignoring line numbers."""
    if e.__class__ is E: return (e.k,) + tuple(ekey(x) for x in e.a)
    if e.__class__ in (tuple, list): return tuple(ekey(x) for x in e)
    return e
