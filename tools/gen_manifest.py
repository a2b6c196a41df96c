#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has rules; the rest is not_applicable."""
import sys, os, json
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import importlib, pkgutil, spec
NA = {
 'N01': 'linearizability under faults quantifies over message schedules of braft and crash points of several processes; no sound static argument over this tree (braft is not in it) is in reach. The local obligations it rests on are R01, R04, R09 and S03.',
 'N02': 'recall and distance quality are numeric properties of faiss/hnswlib/diskann, which are not in the tree, and of run-time data; the static rules here cannot bound them.',
 'N03': 'equality of floating-point kernels up to rounding for every dimension needs numeric reasoning over intrinsics; dataflow over the source cannot decide it.',
 'N04': 'convergence of the balancers is a liveness property over cluster histories and run-time load figures.',
 'N05': 'latency and memory bounds depend on load and machine; the only static part (admission limits of worker sets) is in X03.',
}
TECH = {
 'B02': 'static analysis: effect analysis of safety switches (shipped flag files, compiled-in defaults, writers) plus path-sensitive rules',
 'X06': 'static analysis: whole-tree lockset dataflow with entry contexts, guarded-by inference table, lock balance and lock-order graph',
 'X07': 'static analysis: whole-tree null-flow analysis over the syntax tree',
 'X08': 'static analysis: whole-tree dataflow of returned statuses (dropped, overwritten, swallowed outcomes) over the syntax tree',
 'M01': 'static analysis: abstract interpretation of the byte codecs over bounded lengths plus path-sensitive rules (own C++ front end)',
}
NOTE = {
 'X06': 'every access, acquisition and release in every function of src (client and SIMD kernels excluded) is decided flow-sensitively; which lock guards which field, and the start-up/recovery exceptions, are a committed table',
 'X07': 'every pointer local of every function of src is tracked flow-sensitively; pointers stored in members are not',
 'X08': 'every status-returning call of src is an obligation; statuses kept in members or containers are not tracked; the tolerated best-effort places are a committed table',
}
P = {}
for m in pkgutil.iter_modules(spec.__path__):
    mod = importlib.import_module('spec.' + m.name)
    for k, v in getattr(mod, 'PROPS', {}).items(): P.setdefault(k, []).extend(v)
from fe.table import load_all
for k, v in load_all().items(): P.setdefault(k, []).extend(v)
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in P:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': TECH.get(i, 'static analysis: path-sensitive typestate/dataflow rules over the current source (own C++ front end)'),
            'level': 'other', 'level_note': NOTE.get(i) or 'every path of the anchored functions is enumerated over canonical values and each rule instance on it is decided; loops are abstracted to one representative iteration, calls into rocksdb/braft/brpc are uninterpreted'})
    else: na.append({'property': i, 'reason': NA.get(i, 'no rule written yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'all checks are pure source analyses in Python (standard library only); nothing of the repository is executed'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
