#!/usr/bin/env python3
"""spec/locks.json from the reference tree: guarded fields with their lock and the known functions outside it."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.dont_write_bytecode = True
from fe.repo import Repo
from fe.locks import Whole
w = Whole(Repo(), set(json.load(open(V + '/spec/inventory.json'))))
DROP = {'BthreadCond::cond_', 'DocumentIndex::id_', 'DocumentIndex::index_path_', 'StoreStateMachine::raw_engine_', 'Context::cond_', 'RWLock::cond_', 'ResourcePool::cond_',
        'ConfigManager::configs_', 'VectorIndexFlat::dimension_', 'VectorIndexHnsw::dimension_', 'WorkerSet::is_stop', 'ThreadPool::task_condition_',
        'SegmentLogStorage::max_segment_size_', 'SnapshotMetaSet::vector_index_id_', 'Region::inner_region_.id'}
KEEP_NOWRITE = {'RocksLogStorageWrapper::index_term_map_', 'VectorIndexFlat::index_id_map2_'}
acc = {}
for c, fld, rw, who, L, file, line, f in w.accesses():
    if w.ctor(f): continue
    acc.setdefault((c, fld), []).append((rw, who, L, f))
out = {}
for (c, fld), v in sorted(acc.items()):
    key = c + '::' + fld
    if key in DROP: continue
    ty = w.fields[c].get(fld, '')
    if 'atomic' in ty or 'bvar' in ty or 'cond_t' in ty or 'mutex_t' in ty: continue
    wr = [a for a in v if a[0] == 'w']
    if not wr and key not in KEEP_NOWRITE: continue
    best = None
    for l in sorted({l for a in v for l, m in a[2] if '::' in l and l != key}):
        g = [a for a in v if any(x[0] == l for x in a[2])]
        b = [a for a in v if a not in g]
        if best is None or len(g) > len(best[1]): best = (l, g, b)
    if not best: continue
    l, g, b = best
    exc = sorted({a[1] + ':' + a[0] for a in b} | {a[3].qual() + ':' + a[0] for a in b})
    if len(g) < max(2, len(b)) or len({x.rsplit(':', 1)[0] for x in exc}) > 6: continue
    # guarded writes are under the exclusive mode everywhere?
    wm = all('w' in {m for x, m in a[2] if x == l} for a in g if a[0] == 'w')
    out[key] = {'lock': l, 'wmode': wm, 'except': exc}
oc = []
edges = w.order_edges(); adj = {}
for (a, b) in edges: adj.setdefault(a, set()).add(b)
for (a, b), (f, line) in sorted(edges.items(), key=lambda x: x[0]):
    seen = {b}; st = [b]
    while st:
        x = st.pop()
        if x == a: oc.append((a, b)); print('cycle', a, b, f, line); break
        for y in adj.get(x, ()):
            if y not in seen: seen.add(y); st.append(y)
json.dump({'guarded': out, 'order_known': oc}, open(V + '/spec/locks.json', 'w'), indent=1)
print(len(out), 'fields', sum(len(v['except']) for v in out.values()), 'exceptions', len(edges), 'order edges')
