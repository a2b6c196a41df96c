"""Changes made to a copy: what a function writes through a reference it still writes through a reference.

A local, loop variable or parameter that the reference tree declares as a non-constant reference, and whose target the function
changes, is still one; and no function changes a copy of something stored elsewhere and then forgets the copy."""
import os, re, json
from fe.spec import Custom
from fe.cxx import E
from fe.repo import walk
from fe.explore import MUT
from spec.widths import anchored, funcs_of, fkey, load, ptypes

ASG = {'=', '+=', '-=', '*=', '/=', '|=', '&=', '^=', '<<=', '>>=', '%='}

def names_of(n): return [n] if isinstance(n, str) else [x for x in n[1:] if isinstance(x, str)] if isinstance(n, tuple) and n and n[0] == '[]' else []

def variables(f):
    """(name, type, source expression or None, line) of locals and loop variables"""
    for x in walk(f.body()):
        if not isinstance(x, E): continue
        if x.k == 'decl':
            for d in x.a[0]:
                if isinstance(d, tuple) and len(d) == 3 and isinstance(d[1], str):
                    for n in names_of(d[0]): yield n, d[1], d[2] if isinstance(d[2], E) else None, x.line, False
        elif x.k == 'rfor':
            for n in names_of(x.a[0]): yield n, x.a[1], x.a[2], x.line, True

def isref(ty): return '&' in ty and '&&' not in ty and 'const' not in ty and '*' not in ty
def isval(ty): return '&' not in ty and '*' not in ty and 'const' not in ty

def root(e):
    """the variable an lvalue path starts at, when every step stays inside the object (no -> and no *)"""
    while isinstance(e, E):
        if e.k == 'name': return e.a[0]
        if e.k == 'mem' and e.a[2] == '.': e = e.a[0]
        elif e.k == 'idx': e = e.a[0]
        elif e.k == 'call' and isinstance(e.a[0], E) and e.a[0].k == 'mem' and e.a[0].a[2] == '.' and (e.a[0].a[1].startswith('mutable_') or e.a[0].a[1] in ('at', 'back', 'front')):
            e = e.a[0].a[0]
        elif e.k == 'un' and e.a[0] == '*' and isinstance(e.a[1], E) and e.a[1].k == 'call' and isinstance(e.a[1].a[0], E) and e.a[1].a[0].k == 'mem' and e.a[1].a[0].a[1].startswith('mutable_'):
            e = e.a[1]
        else: return None
    return None

def ismut(n): return n in MUT or n.startswith(('set_', 'add_', 'mutable_', 'clear_')) or n in ('store', 'exchange', 'sort')

def changed(f):
    """names whose object is changed in place somewhere in the function"""
    out = set()
    for x in walk(f.body()):
        if not isinstance(x, E): continue
        t = None
        if x.k == 'asg' and x.a[0] in ASG: t = x.a[1]
        elif x.k in ('un', 'post') and x.a[0] in ('++', '--'): t = x.a[1]
        elif x.k == 'call' and isinstance(x.a[0], E) and x.a[0].k == 'mem' and x.a[0].a[2] == '.' and isinstance(x.a[0].a[1], str) and ismut(x.a[0].a[1]): t = x.a[0].a[0]
        if t is not None:
            r = root(t)
            if r: out.add(r)
    return out

def used(f, name):
    """is the content of the variable looked at other than by changing it?"""
    skip = set()
    for x in walk(f.body()):
        if not isinstance(x, E): continue
        t = None
        if x.k == 'asg' and x.a[0] == '=': t = x.a[1]
        elif x.k in ('un', 'post') and x.a[0] in ('++', '--'): t = x.a[1]
        elif x.k == 'call' and isinstance(x.a[0], E) and x.a[0].k == 'mem' and isinstance(x.a[0].a[1], str) and ismut(x.a[0].a[1]): t = x.a[0].a[0]
        if t is not None and root(t) == name:
            for y in walk(t):
                if isinstance(y, E): skip.add(id(y))
    return any(isinstance(y, E) and y.k == 'name' and y.a[0] == name and id(y) not in skip for y in walk(f.body()))

def stored(e):
    """an expression that denotes something that lives elsewhere"""
    if e.k in ('idx',): return True
    if e.k == 'mem': return True
    if e.k == 'un' and e.a[0] == '*': return True
    if e.k == 'call' and isinstance(e.a[0], E) and e.a[0].k == 'mem': return e.a[0].a[1] in ('at', 'back', 'front', 'second', 'first')
    return False

def refs(f):
    ch = changed(f)
    return sorted({n for n, ty, e, ln, lp in variables(f) if isref(ty) and n in ch})

def outs(f):
    ch = changed(f)
    return [i for i, p in enumerate(f.params) if isinstance(p, (tuple, list)) and len(p) > 1 and isref(p[1]) and p[0] in ch]

def copies(repo, rep, anchors):
    ref = load(); inv = set(json.load(open(os.path.join(os.path.dirname(__file__), 'inventory.json'))))
    fs = []
    for fl, q in anchors:
        for f in funcs_of(repo, fl, q):
            if f not in fs: fs.append(f)
    for fl in {f for f, q in anchors}:
        u = repo.try_unit(fl)
        if u is not None: fs += [f for f in u.funcs if f.qual() not in inv and f not in fs]
    n0 = rep.obligations; rep.obligations += len(fs)
    known = {tuple(x) for x in ref.get('copied', [])}
    for f in fs:
        k = fkey(f); ch = None
        rn = set(ref['refs'].get(k, ())); ro = set(ref['outs'].get(k, ()))
        vs = list(variables(f))
        rn -= {n for n, ty, e, ln, lp in vs if isref(ty)}
        if rn or ro or any(isval(ty) and e is not None for n, ty, e, ln, lp in vs): ch = changed(f)
        for i, p in enumerate(f.params):
            if i in ro and isinstance(p, (tuple, list)) and len(p) > 1:
                rep.check(not (isval(p[1]) and p[0] in ch), f.file, f.qual(), 'copy', p[0], f.line, 'what is written to parameter %s no longer reaches the caller' % p[0])
        for n, ty, e, ln, lp in vs:
            if e is None or not isval(ty) or n not in ch:
                continue
            if e is None: continue
            ok = True
            if n in rn and (lp or stored(e) or 'auto' in ty): ok = False
            elif (lp or stored(e)) and 'auto' in ty and not used(f, n) and (f.qual(), n) not in known: ok = False
            rep.check(ok, f.file, f.qual(), 'copy', n, ln, '%s is a copy: what is written to it is lost' % n)
    if rep.obligations > n0: rep.rules.append({'function': '*', 'rule': 'changes go to the object itself, not to a copy', 'instances': rep.obligations - n0})

PROPS = {p: [Custom(lambda repo, rep, a=a: copies(repo, rep, a), 'changes through references')] for p, a in anchored().items()}
