#!/usr/bin/env python3
"""locks.py : functions in the contract tables that take a lock no clause of theirs mentions (authoring aid)."""
import sys; sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True
from fe.repo import Repo
from fe.explore import *
from fe.term import *
from fe.table import load
import glob
r = Repo(); r.headers()
class D(Rule):
    autoinline = False; maxstates = 9999; inline = opaque = keys = frozenset(); files = (); lambda_calls = {}
    def __init__(s): s.l = {}
    def track(s, a): return False
    def label(s, k, t): return 'e' if t.op == 'call' and t.a[0] == 'LOCK' else None
    def on_event(s, k, t, st, line, lab, ex):
        if k == 'call': s.l[show(t)] = 1
    def on_exit(s, *a): pass
    def on_iter(s, *a): pass
for p in sorted(glob.glob('/verif/spec/tables/*.tbl')):
    done = {}
    for prop, fns in load(p).items():
        for x in fns: done.setdefault((x.file, x.qual), [x, []])[1].extend(c.text for c in x.clauses)
    for (file, q), (x, texts) in done.items():
        try: f = r.func('src/' + file if not file.startswith('src/') else file, q, None, pick=x.pick) if x.pick else r.func('src/' + file if not file.startswith('src/') else file, q)
        except Exception as e:
            print('#', p, q, repr(e)[:100]); continue
        d = D(); d.inline = frozenset(x.inline); ex = Explorer(r, d); ex.curfile = f.file
        try: ex.run(f)
        except Exception as e: print('#', q, repr(e)[:80]); continue
        for l in d.l:
            m = l[5:-1]
            if not any(m in t for t in texts): print(p.split('/')[-1], file, q, l)
