#!/usr/bin/env python3
"""Write spec/widths.json from the unmodified reference tree."""
import sys, os, json
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fe.repo import Repo
import spec.widths as w
r = Repo(); r.headers()
json.dump(w.reference(r), open(os.path.join(w.HERE, 'widths.json'), 'w'), sort_keys=True, separators=(',', ':'))
