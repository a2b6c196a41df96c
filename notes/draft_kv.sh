K=src/coordinator/kv_control_kv.cc
c(){ echo $1 | sed 's/\([^,]*\)/KvControl::\1/g'; }
python3 tools/draft.py $K $(c KvPut,KvDeleteRange,PutRawKvIndex,DeleteRawKvIndex,GetRawKvIndex,GetRawKvRev,PutRawKvRev,DeleteRawKvRev,KvRange,KvRangeRawKeys,RangeRawKvIndex,RevisionToString,StringToRevision) prop=C04 out=kv 2>&1 | grep '!!' | cut -c1-400
python3 tools/draft.py $K $(c CompactionTask,KvCompact,KvCompactApply) prop=C05 out=kv 2>&1 | grep '!!' | cut -c1-300
K=src/coordinator/kv_control_lease.cc
python3 tools/draft.py $K $(c LeaseGrant,LeaseRenew,LeaseRevoke,ListLeases,LeaseQuery,IsLeaseToKeyMapInited,LeaseTask,BuildLeaseToKeyMap,LeaseAddKeys,LeaseRemoveKeys,LeaseRemoveMultiLeaseKeys) prop=C06 out=kv 2>&1 | grep '!!' | cut -c1-300
K=src/coordinator/kv_control_watch.cc
python3 tools/draft.py $K $(c OneTimeWatch,AddOneTimeWatch,RemoveOneTimeWatch,RemoveOneTimeWatchWithLock,CancelOneTimeWatchClosure,TriggerOneWatch) prop=C07 out=kv 2>&1 | grep '!!\|FAILED' | cut -c1-300
python3 tools/draft.py src/coordinator/kv_control_watch.cc KvControl::RemoveOneTimeWatch n=1 prop=C07 out=kv 2>&1 | grep '!!\|FAILED'
sed -i '/RevisionToString(ELEM(OBJ(vector)))$/d' spec/tables/kv.tbl
cat >> spec/tables/kv.tbl <<'X'

@C07 coordinator/kv_control.h DeferDone::Done
on AsyncClosureGuard(done_) if done_
on done_ = 0 if done_
order AsyncClosureGuard(done_) >> done_ = 0
only done_ = _ : done_ = 0
only response_ = _ : response_ = 0

@C07 coordinator/kv_control.h DeferDone::GetResponse
rets response_

@C07 coordinator/kv_control.h DeferDone::GetWatchKey
rets watch_key_

@C05 coordinator/kv_control_kv.cc KvControl::KvCompactApply
never DeleteRawKvRev(_) unless DID(PutRawKvIndex(__)) || DID(DeleteRawKvIndex(key))

@C04 coordinator/kv_control_kv.cc {KvControl}::{KvPutApply,KvDeleteApply}
never PutRawKvIndex(__) unless DID(PutRawKvRev(op_revision, _))
never TriggerOneWatch(__) unless DID(PutRawKvIndex(key, _))

@C07 coordinator/kv_control_watch.cc KvControl::RemoveOneTimeWatchWithLock
never one_time_watch_closure_map_.erase(_) unless DID(_.Done())
atmost one_time_watch_closure_map_.erase(_)
X
cat >> spec/tables/kv.tbl <<'X'

@C04 coordinator/kv_control_kv.cc KvControl::KvPutApply
let IX = OUT(GetRawKvIndex(key, _), 1)
let HAVE = GetRawKvIndex(key, _).ok
let NEWG = @IX.add_generations()
let LAST = @IX.mutable_generations((@IX.generations.size + -1))
let PREV = OUT(GetRawKvRev(@IX.mod_revision, _), 1)
let NOPREV = OUT(GetRawKvRev(OBJ(RevisionInternal), _), 1)
let MAIN = op_revision.main
let REV = OBJ(_, main, op_revision.main, sub, op_revision.sub)
on @IX.id = key if !@HAVE
on @IX.mod_revision.main = @MAIN if !@HAVE
on @IX.mod_revision.sub = op_revision.sub if !@HAVE
on @IX.mod_revision = op_revision if @HAVE
must @NEWG if !@HAVE
never @NEWG if @HAVE && DID(@LAST)
never @LAST if !@HAVE
atmost @NEWG
must @NEWG.create_revision.main = @MAIN if DID(@NEWG)
must @NEWG.create_revision.sub = op_revision.sub if DID(@NEWG)
must @NEWG.verison = 1 if DID(@NEWG)
must @NEWG.add_revisions() = op_revision if DID(@NEWG)
must @LAST.add_revisions() = op_revision if DID(@LAST)
must @LAST.verison = (@LAST.verison + 1) if DID(@LAST) && !DID(@LAST.verison = 1)
must @LAST.create_revision.main = @MAIN if DID(@LAST.verison = 1)
must @LAST.create_revision.sub = op_revision.sub if DID(@LAST.verison = 1)
never @LAST.verison = 1 if @LAST.has_create_revision
never @LAST.verison = (@LAST.verison + 1) unless @LAST.has_create_revision
never @LAST.create_revision.main = _ if @LAST.has_create_revision
only @LAST.verison = _ : @LAST.verison = 1 ;; @LAST.verison = (@LAST.verison + 1)
only @NEWG.verison = _ : @NEWG.verison = 1
only @LAST.create_revision.main = _ : @LAST.create_revision.main = @MAIN
only @LAST.create_revision.sub = _ : @LAST.create_revision.sub = op_revision.sub
only @LAST.add_revisions() = _ : @LAST.add_revisions() = op_revision
only @NEWG.add_revisions() = _ : @NEWG.add_revisions() = op_revision
only @IX.mod_revision = _ : @IX.mod_revision = op_revision
only GetRawKvRev(__) : GetRawKvRev(@IX.mod_revision, _) ;; GetRawKvRev(OBJ(RevisionInternal), _)
only PutRawKvRev(__) : PutRawKvRev(op_revision, OBJ(KvRevInternal, id, RevisionToString(op_revision), kv, OBJ(_, id, key, mod_revision, @REV)))
only PutRawKvRev(__) : PutRawKvRev(op_revision, OBJ(_, kv, OBJ(_, value, value))) ;; PutRawKvRev(op_revision, OBJ(_, kv, OBJ(_, value, @PREV.kv.value))) ;; PutRawKvRev(op_revision, OBJ(_, kv, OBJ(_, value, @NOPREV.kv.value)))
never PutRawKvRev(_, OBJ(_, kv, OBJ(_, value, value))) if ignore_value
never PutRawKvRev(_, OBJ(_, kv, OBJ(_, value, @PREV.kv.value))) unless ignore_value
never PutRawKvRev(_, OBJ(_, kv, OBJ(_, value, @NOPREV.kv.value))) unless ignore_value && !@HAVE
only PutRawKvRev(__) : PutRawKvRev(op_revision, OBJ(_, kv, OBJ(_, lease, lease_id))) ;; PutRawKvRev(op_revision, OBJ(_, kv, OBJ(_, lease, @PREV.kv.lease))) ;; PutRawKvRev(op_revision, OBJ(_, kv, OBJ(_, lease, @NOPREV.kv.lease)))
never PutRawKvRev(_, OBJ(_, kv, OBJ(_, lease, lease_id))) if ignore_lease
never PutRawKvRev(_, OBJ(_, kv, OBJ(_, lease, @PREV.kv.lease))) unless ignore_lease
never PutRawKvRev(_, OBJ(_, kv, OBJ(_, lease, @NOPREV.kv.lease))) unless ignore_lease && !@HAVE
only PutRawKvRev(__) : PutRawKvRev(op_revision, OBJ(_, kv, OBJ(_, version, 1))) ;; PutRawKvRev(op_revision, OBJ(_, kv, OBJ(_, version, (@LAST.verison + 1))))
never PutRawKvRev(_, OBJ(_, kv, OBJ(_, version, 1))) if DID(@LAST.verison = (@LAST.verison + 1))
never PutRawKvRev(_, OBJ(_, kv, OBJ(_, version, (@LAST.verison + 1)))) unless DID(@LAST.verison = (@LAST.verison + 1))
only PutRawKvRev(__) : PutRawKvRev(op_revision, OBJ(_, kv, OBJ(_, create_revision, @REV))) ;; PutRawKvRev(op_revision, OBJ(_, kv, OBJ(_, create_revision, OBJ(_, main, @LAST.create_revision.main, sub, @LAST.create_revision.sub))))
never PutRawKvRev(_, OBJ(_, kv, OBJ(_, create_revision, @REV))) if DID(@LAST.verison = (@LAST.verison + 1))
never PutRawKvRev(_, OBJ(_, kv, OBJ(_, create_revision, OBJ(_, main, @LAST.create_revision.main)))) unless DID(@LAST.verison = (@LAST.verison + 1))
never PutRawKvRev(__) unless lease_id < 1 || kv_lease_map_.Exists(lease_id) || ignore_lease
never PutRawKvRev(__) unless @PREV.kv.lease < 1 || kv_lease_map_.Exists(@PREV.kv.lease) || !ignore_lease || !@HAVE
never PutRawKvRev(__) unless @NOPREV.kv.lease < 1 || kv_lease_map_.Exists(@NOPREV.kv.lease) || !ignore_lease || @HAVE
only PutRawKvIndex(__) : PutRawKvIndex(key, @IX)
never TriggerOneWatch(__) unless PutRawKvIndex(key, _).ok
must TriggerOneWatch(key, Event_EventType_PUT, _, _) if !one_time_watch_map_.empty && DID(PutRawKvIndex(key, @IX)) && PutRawKvIndex(key, @IX).ok
only TriggerOneWatch(__) : TriggerOneWatch(key, Event_EventType_PUT, _, _)
only IN(TriggerOneWatch, 2, _) : IN(TriggerOneWatch, 2, OBJ(Kv, mod_revision, @MAIN, kv, OBJ(_, key, key)))
only IN(TriggerOneWatch, 2, _) : IN(TriggerOneWatch, 2, OBJ(Kv, version, 1)) ;; IN(TriggerOneWatch, 2, OBJ(Kv, version, (@LAST.verison + 1)))
only IN(TriggerOneWatch, 2, _) : IN(TriggerOneWatch, 2, OBJ(Kv, create_revision, @MAIN)) ;; IN(TriggerOneWatch, 2, OBJ(Kv, create_revision, @LAST.create_revision.main))
only IN(TriggerOneWatch, 2, _) : IN(TriggerOneWatch, 2, OBJ(Kv, lease, lease_id)) ;; IN(TriggerOneWatch, 2, OBJ(Kv, lease, @PREV.kv.lease)) ;; IN(TriggerOneWatch, 2, OBJ(Kv, lease, @NOPREV.kv.lease))
only IN(TriggerOneWatch, 2, _) : IN(TriggerOneWatch, 2, OBJ(Kv, kv, OBJ(_, value, value))) ;; IN(TriggerOneWatch, 2, OBJ(Kv, kv, OBJ(_, value, @PREV.kv.value))) ;; IN(TriggerOneWatch, 2, OBJ(Kv, kv, OBJ(_, value, @NOPREV.kv.value)))
never IN(TriggerOneWatch, 2, OBJ(Kv, version, 1)) if DID(@LAST.verison = (@LAST.verison + 1))
never IN(TriggerOneWatch, 2, OBJ(Kv, kv, OBJ(_, value, value))) if ignore_value
never IN(TriggerOneWatch, 2, OBJ(Kv, lease, lease_id)) if ignore_lease
never IN(TriggerOneWatch, 3, OBJ(Kv, create_revision, _)) unless @LAST.has_create_revision && DID(@LAST)
only IN(TriggerOneWatch, 3, OBJ(Kv, create_revision, _)) : IN(TriggerOneWatch, 3, OBJ(Kv, create_revision, @LAST.create_revision.main, mod_revision, @IX.mod_revision.main, version, @LAST.verison))
must IN(TriggerOneWatch, 3, OBJ(Kv, create_revision, _)) if DID(TriggerOneWatch(__)) && DID(@LAST.verison = (@LAST.verison + 1))
only IN(TriggerOneWatch, 3, OBJ(Kv, kv, _)) : IN(TriggerOneWatch, 3, OBJ(Kv, kv, OBJ(_, key, key, value, @PREV.kv.value), lease, @PREV.kv.lease)) ;; IN(TriggerOneWatch, 3, OBJ(Kv, kv, OBJ(_, key, key, value, @NOPREV.kv.value)))
ret OK if DID(PutRawKvIndex(key, @IX)) && PutRawKvIndex(key, @IX).ok
err DID(PutRawKvRev(op_revision, $r)) && !PutRawKvRev(op_revision, $r).ok : PutRawKvRev(__)
err DID(PutRawKvIndex(key, @IX)) && !PutRawKvIndex(key, @IX).ok : PutRawKvIndex(__)
must PutRawKvRev(__) if !ignore_lease && lease_id < 1
must PutRawKvIndex(key, @IX) if DID(PutRawKvRev(op_revision, $r)) && PutRawKvRev(op_revision, $r).ok

@C04 coordinator/kv_control_kv.cc KvControl::KvDeleteApply
let IX = OUT(GetRawKvIndex(key, _), 1)
let HAVE = GetRawKvIndex(key, _).ok
let NEWG = @IX.add_generations()
let LAST = @IX.mutable_generations((@IX.generations.size + -1))
let PREV = OUT(GetRawKvRev(@IX.mod_revision, _), 1)
let MAIN = op_revision.main
let REV = OBJ(_, main, op_revision.main, sub, op_revision.sub)
never PutRawKvRev(__) unless @HAVE
never PutRawKvIndex(__) unless @HAVE
on @IX.mod_revision = op_revision if @HAVE
must @LAST.add_revisions() = op_revision if @HAVE && @LAST.has_create_revision
must @LAST.verison = (@LAST.verison + 1) if DID(@LAST.add_revisions() = op_revision)
must @NEWG if DID(@LAST.add_revisions() = op_revision)
must @NEWG if @HAVE && !DID(@LAST)
seq @LAST.add_revisions() = op_revision >> @NEWG
never @LAST.add_revisions() = _ unless @LAST.has_create_revision
never @NEWG if DID(@LAST) && !@LAST.has_create_revision
only @LAST.verison = _ : @LAST.verison = (@LAST.verison + 1)
only @LAST.add_revisions() = _ : @LAST.add_revisions() = op_revision
only @IX.mod_revision = _ : @IX.mod_revision = op_revision
never @NEWG._ = _
never @NEWG.create_revision._ = _
never @NEWG.add_revisions()
only PutRawKvRev(__) : PutRawKvRev(op_revision, OBJ(KvRevInternal, id, RevisionToString(op_revision), kv, OBJ(_, id, key, is_deleted, true, mod_revision, @REV)))
never PutRawKvRev(_, OBJ(_, kv, OBJ(_, lease, _)))
only PutRawKvRev(__) : PutRawKvRev(op_revision, OBJ(_, kv, OBJ(_, version, 1))) ;; PutRawKvRev(op_revision, OBJ(_, kv, OBJ(_, version, @LAST.verison))) ;; PutRawKvRev(op_revision, OBJ(_, kv, OBJ(_, version, (@LAST.verison + 1))))
never PutRawKvRev(_, OBJ(_, kv, OBJ(_, version, 1))) if DID(@LAST)
never PutRawKvRev(_, OBJ(_, kv, OBJ(_, version, @LAST.verison))) if DID(@LAST.verison = (@LAST.verison + 1))
only PutRawKvRev(__) : PutRawKvRev(op_revision, OBJ(_, kv, OBJ(_, create_revision, @REV))) ;; PutRawKvRev(op_revision, OBJ(_, kv, OBJ(_, create_revision, OBJ(_, main, @LAST.create_revision.main, sub, @LAST.create_revision.sub))))
never PutRawKvRev(_, OBJ(_, kv, OBJ(_, create_revision, @REV))) if DID(@LAST)
only PutRawKvIndex(__) : PutRawKvIndex(key, @IX)
must PutRawKvRev(__) if @HAVE
must PutRawKvIndex(key, @IX) if DID(PutRawKvRev(op_revision, $r)) && PutRawKvRev(op_revision, $r).ok
never TriggerOneWatch(__) unless PutRawKvIndex(key, _).ok
must TriggerOneWatch(key, Event_EventType_DELETE, _, _) if !one_time_watch_map_.empty && DID(PutRawKvIndex(key, @IX)) && PutRawKvIndex(key, @IX).ok
only TriggerOneWatch(__) : TriggerOneWatch(key, Event_EventType_DELETE, _, _)
only IN(TriggerOneWatch, 2, _) : IN(TriggerOneWatch, 2, OBJ(Kv, mod_revision, @MAIN, kv, OBJ(_, key, key)))
never IN(TriggerOneWatch, 3, OBJ(Kv, create_revision, _)) unless @LAST.has_create_revision && DID(@LAST)
only IN(TriggerOneWatch, 3, OBJ(Kv, create_revision, _)) : IN(TriggerOneWatch, 3, OBJ(Kv, create_revision, @LAST.create_revision.main, mod_revision, @IX.mod_revision.main, version, @LAST.verison))
must IN(TriggerOneWatch, 3, OBJ(Kv, create_revision, _)) if DID(TriggerOneWatch(__)) && DID(@LAST.verison = (@LAST.verison + 1))
err DID(PutRawKvRev(op_revision, $r)) && !PutRawKvRev(op_revision, $r).ok : PutRawKvRev(__)
err DID(PutRawKvIndex(key, @IX)) && !PutRawKvIndex(key, @IX).ok : PutRawKvIndex(__)
ret OK if !@HAVE || (DID(PutRawKvIndex(key, @IX)) && PutRawKvIndex(key, @IX).ok)
X
