#!/usr/bin/env python3
"""Write spec/inventory.json: function -> parameter names, as of the reference tree. New functions (refactored-out helpers) are
those missing here; the explorer always follows them."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fe.repo import Repo
r = Repo()
d = {}
for u in r.all_units():
    for f in u.funcs:
        d.setdefault('%s|%s|%d' % (f.file.replace('src/', '', 1), f.qual(), len(f.params)), []).append([[p[0] for p in f.params], ''.join(p[1].replace(' ', '') + ',' for p in f.params)])
d = {k: [v[0][0]] if len(v) == 1 else v for k, v in d.items()}
json.dump(d, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'inventory.json'), 'w'), sort_keys=True, separators=(',', ':'))
print(len(d))
