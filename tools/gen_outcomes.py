#!/usr/bin/env python3
"""spec/outcomes.json from the reference tree: success flags that are always looked at, and the tolerated exceptions."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.dont_write_bytecode = True
from fe.repo import Repo, walk
from fe.status import Whole8, is_bool
r = Repo()
w = Whole8(r, set(json.load(open(V + '/spec/inventory.json'))), set())
names = {n for n, s in w.sig.items() if any(is_bool(x.ret) for x in s)}
w.checked = names
bad, seen = set(), set()
for f, ev, n in w.results():
    for k, c, l in ev:
        if c in names: bad.add(c)
for f in w.funcs:
    for x in walk(f.body()):
        if x.k == 'call':
            fn = x.a[0]; nm = (fn.a[0] if fn.k == 'name' else fn.a[1] if fn.k == 'mem' else '').split('<')[0].split('::')[-1]
            if nm in names: seen.add(nm)
w.checked = seen - bad
known = sorted({(f.file, f.qual(), k, c) for f, ev, n in w.results() for k, c, l in ev})
json.dump({'checked': sorted(w.checked), 'known': known}, open(V + '/spec/outcomes.json', 'w'), indent=1)
print(len(w.checked), 'checked flags', len(known), 'exceptions')
from collections import Counter
print(Counter(k for fl, q, k, c in known))
print(sorted(bad & seen))
