#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one P(...) per property). Run from /verif."""
import json, os
OUT=[]
def P(id,title,statement,over,qtext,why,files,mech):
    assert len(title)<=80,(id,len(title))
    OUT.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
TXN='src/engine/txn_engine_helper.cc'
NOBUILD='The in-tree tests that build here only read configuration files; nothing executes this code, and even the upstream gtest cases exercise a handful of hand-picked histories on one engine.'

P('T01','Prewrite never locks over a conflicting lock, newer commit or rollback',
 'A prewrite succeeds on a key only if no other transaction holds a lock on that key, the key carries no version committed after the prewriting transaction\'s snapshot, and that transaction has not been rolled back on the key. When any mutation of a request meets one of these conflicts (or an insert-if-absent / should-exist constraint fails) the conflict is reported to the client and no mutation of the request is written. A prewrite repeated by the transaction that already holds the lock succeeds without disturbing it.',
 ['inputs','histories'],'every prewrite request, against every prior content of the lock, write and data records of the keys',NOBUILD,
 [TXN],[('lock / commit-history / rollback checks before generating mutations','TxnEngineHelper::Prewrite, PreCheckPrewrite helpers'),('early return before the raft write','TxnEngineHelper::Prewrite')])
P('T02','A commit takes effect only for a live lock of its own transaction',
 'A commit request is refused unless its commit timestamp is greater than its start timestamp and not below the minimum commit timestamp recorded in the lock, and every key it names is locked by exactly that transaction with a data-carrying lock. A key whose lock is gone is reported committed only when a commit record of that transaction exists; if the transaction was rolled back, or left no trace, the commit fails. When the request fails for one key, nothing of the request is written.',
 ['inputs','histories'],'every commit request and every prior lock / write content of its keys',NOBUILD,[TXN],
 [('per-key lock ownership and type checks','TxnEngineHelper::Commit'),('lookup of the commit record for a missing lock','TxnEngineHelper::Commit')])
P('T03','Committing writes the commit record and drops the lock in one atomic step',
 'For each committed key the store writes, in one atomic replicated write, a commit record at the commit timestamp carrying the transaction\'s start timestamp, the operation and the inline value taken from the lock, and the removal of that key\'s lock. No other key\'s lock is removed and no key gets a commit record at another timestamp. Index regions receive the vector or document change of the same write.',
 ['inputs','histories'],'every commit and resolve-to-commit of any set of locked keys',NOBUILD,[TXN],
 [('construction of write records and lock deletions','TxnEngineHelper::DoTxnCommit')])
P('T04','Rollback never undoes a committed transaction and leaves a rollback mark',
 'Rolling back a transaction on a key removes that transaction\'s own lock and its uncommitted value and leaves a rollback record at its start timestamp, all in one atomic write. A key on which the transaction is already committed is reported as committed and nothing of the request is written; a lock or value of a different transaction is never removed. A key already rolled back is left as it is.',
 ['inputs','histories'],'every rollback request and every prior content of its keys',NOBUILD,[TXN],
 [('commit-record check before rolling back','TxnEngineHelper::BatchRollback'),('rollback write','TxnEngineHelper::DoRollback')])
P('T05','Transaction status check decides expiry, pushes and outcome exactly',
 'A status check on a primary key reports a transaction as locked only while its lock is alive, as committed with the recorded commit timestamp when a commit record exists, and as rolled back when a rollback record exists. It rolls the transaction back only when its lock has outlived its time-to-live at the caller\'s current time (or, for a missing lock, only when the caller asked for it), never when the lock is on another primary or uses asynchronous commit without being forced. A live lock\'s minimum commit timestamp only ever moves forward, past the caller\'s read timestamp.',
 ['inputs','histories'],'every status check against every prior lock and write content',NOBUILD,[TXN],
 [('ttl comparison, min-commit push, rollback decision','TxnEngineHelper::CheckTxnStatus / TxnCheckTxnStatus helpers')])
P('T06','Lock resolution touches only the locks of the transactions it names',
 'Resolving locks commits at the given commit timestamp, or rolls back when no commit timestamp is given, exactly those keys whose current lock belongs to the named transaction. A request whose non-zero commit timestamp is not above the start timestamp is refused. Keys locked by other transactions, and keys with no lock, are left unchanged.',
 ['inputs','histories'],'every resolve request over every lock table content',NOBUILD,[TXN],
 [('lock ownership filter','TxnEngineHelper::ResolveLock, TxnEngineHelper::BatchResolveLock')])
P('T07','Pessimistic lock acquisition respects other locks and newer commits',
 'A pessimistic lock is granted on a key only if no other transaction holds a lock on it, no version was committed after the requested for-update timestamp, and the transaction was not rolled back there; otherwise the conflict is returned and no lock of the request is written. A pessimistic rollback removes only pessimistic locks of the same transaction whose for-update timestamp is not newer than the request\'s. The granted lock records the requester\'s primary, start timestamp, for-update timestamp and time-to-live.',
 ['inputs','histories'],'every pessimistic lock / rollback request against every prior key content',NOBUILD,[TXN],
 [('conflict checks','TxnEngineHelper::PessimisticLock'),('ownership filter','TxnEngineHelper::PessimisticRollback')])
P('T08','Async and one-phase commits get a timestamp above every earlier read',
 'The minimum commit timestamp chosen for an asynchronous or one-phase commit is strictly greater than the transaction\'s start and for-update timestamps and than the largest timestamp any reader has used in the region, and is rejected when it would exceed the client\'s upper bound. While such a prewrite is in flight its keys are visible in the in-memory lock table, so a concurrent reader either sees the lock or has already raised the read timestamp. The in-memory locks are removed whatever the outcome of the write.',
 ['schedules','inputs'],'every interleaving of snapshot reads with asynchronous or one-phase prewrites',NOBUILD,[TXN,'src/engine/concurrency_manager.cc'],
 [('max of timestamps plus one','TxnEngineHelper::GenFinalMinCommitTs'),('in-memory lock table','ConcurrencyManager')])
P('T09','Snapshot reads return the newest version committed at or before the snapshot',
 'A transactional get or scan at a timestamp returns, for every key, the value of the newest version committed at or before that timestamp, ignoring rollback and lock-only records and treating deletion records as absence. Under snapshot isolation a key locked by a transaction that could commit at or before that timestamp makes the read report the lock instead of returning data, unless the caller declared that lock resolved or the lock\'s minimum commit timestamp is above the snapshot. A scan returns keys in order, each at most once, within the requested range and limit.',
 ['inputs','histories'],'every key history, isolation level, timestamp and range',NOBUILD,[TXN],
 [('version selection','TxnIterator::GetUserValueInWriteIter, TxnEngineHelper::BatchGet'),('lock conflict test','TxnEngineHelper::CheckLockConflict')])
P('T10','Garbage collection never removes a version a live snapshot can read',
 'Garbage collection at a safe point deletes, for each key, only versions older than the newest version visible at the safe point, plus that newest version itself when it is a deletion record. Versions committed after the safe point are never removed, and nothing more is removed once collection is turned off. The value record removed always belongs to the version record removed with it.',
 ['histories','inputs'],'every key history and every safe point',NOBUILD,[TXN,'src/engine/gc_safe_point.cc'],
 [('version walk','TxnEngineHelper::DoGcCoreTxn'),('safe point admission','TxnEngineHelper::CheckLockForTxnGc')])
P('T11','Heartbeats only extend, and lock scans report exactly the asked-for locks',
 'A transaction heartbeat changes only the time-to-live of the lock held by that very transaction and never lowers it; a missing or foreign lock is reported instead. A lock scan returns the locks in the key range whose start timestamp lies in the requested bounds, up to the limit, and says whether more remain. Neither operation alters any other field of a lock.',
 ['inputs','histories'],'every heartbeat / scan-lock request against every lock table content',NOBUILD,[TXN],
 [('heartbeat','TxnEngineHelper::HeartBeat'),('scan filter','TxnEngineHelper::ScanLockInfo')])
P('T12','A failed replicated transaction write is never reported as success',
 'Whenever a transactional operation\'s replicated write fails, the operation returns that failure to its caller, with a leadership refusal translated to the not-leader error so that the client retries elsewhere. Failures to read lock or commit history likewise abort the operation before anything is written. No transactional operation answers success without its write having been accepted.',
 ['fault_sequences','inputs'],'every failure of a storage read or replicated write inside any transactional operation','Fault injection is absent: no test makes the raft write or a history read fail at each call site.',[TXN],
 [('status propagation at every raft write','all TxnEngineHelper entry points')])
P('M01','Versioned key encoding preserves key order and newest-first order',
 'Encoding a user key with a timestamp yields bytes whose lexicographic order sorts first by user key and then by timestamp from newest to oldest, for arbitrary byte strings including empty ones, embedded zero bytes and any length. Decoding an encoded key returns exactly the original key and timestamp, and malformed encodings are rejected rather than misread.',
 ['inputs'],'every byte string and every non-negative timestamp','Upstream unit tests sample a few strings; the order and round-trip claims quantify over all lengths, group boundaries and padding values.',['src/mvcc/codec.cc','src/common/serial_helper.cc'],
 [('8-byte groups with padding marker','Codec::EncodeBytes / Codec::DecodeBytes'),('negated big-endian timestamp','SerialHelper::WriteLongWithNegation')])
P('M02','Value packaging keeps payload, deletion mark and expiry apart',
 'Packaging a value as plain, expiring or deleted and unpackaging it yields the same kind, the same payload bytes and the same expiry time. The payload never leaks mark bytes and an expiring value is recognised as such by every reader.',
 ['inputs'],'every payload and every expiry time','Only samples are tested; the claim covers every payload and the agreement of independent writer and reader functions.',['src/mvcc/codec.cc'],
 [('flag byte and 8-byte expiry suffix','Codec::PackageValue / Codec::UnPackageValue / Codec::GetValueFlag / Codec::GetValueTTL')])
P('M03','Versioned reads skip newer, older, deleted and expired versions',
 'Reading at a timestamp through the versioned key-value reader or its iterator, in either direction, yields for each key the newest version not above that timestamp and nothing for a key whose such version is deleted or expired. Each visible key appears exactly once and in order. A timestamp of zero means the latest version.',
 ['inputs','histories'],'every sequence of versions of every key, timestamp and direction',NOBUILD,['src/mvcc/iterator.cc','src/mvcc/reader.cc'],
 [('next/prev visible key search','Iterator::NextVisibleKey, Iterator::PrevVisibleKey'),('point read','KvReader::KvGet')])
P('M04','The key-value, vector and document readers apply the same visibility rules',
 'The versioned readers for plain, vector and document data encode range bounds, treat a zero timestamp, validate empty keys or ranges and unpack values identically. For the same stored bytes, range and timestamp they return the same keys and values.',
 ['inputs'],'every request accepted by the three sibling readers',NOBUILD,['src/mvcc/reader.cc'],
 [('three sibling implementations of one interface','KvReader, VectorReader, DocumentReader')])
P('M05','A timestamp handed out is fresh, unique and above the requested floor',
 'A timestamp served from a prefetched batch lies inside the batch granted by the timestamp oracle, is handed out at most once, and is refused when the batch is exhausted, stale or invalidated. A request with a lower bound gets a timestamp greater than that bound or none at all. A new batch covers exactly the physical time, logical start and count the oracle granted.',
 ['schedules','inputs'],'every interleaving of concurrent timestamp requests, renewals and invalidations','Concurrency and staleness windows are not enumerable by the sampled unit tests.',['src/mvcc/ts_provider.cc','src/mvcc/ts_provider.h'],
 [('atomic fetch and bound check','BatchTs::GetTs'),('validity filter','BatchTsList::GetTs'),('batch construction','TsProvider::SendTsoRequest')])
P('R01','Committed log entries are applied exactly once, in order',
 'A region replica applies every committed log entry once and in log order: an entry at or below the applied position is skipped, also while catching up or after a restart. The applied position is advanced only after the entry\'s effect is complete, and is persisted. A region being removed, merged away or orphaned no longer applies entries and answers their callers with an error.',
 ['histories','crash_points','schedules'],'every sequence of committed entries, restarts and catch-up batches',NOBUILD,['src/raft/store_state_machine.cc'],
 [('skip below applied index; advance after apply','StoreStateMachine::on_apply, StoreStateMachine::CatchUpApplyLog')])
P('R02','Requests and log entries from a stale region epoch are rejected',
 'A client request or a committed log entry whose region epoch differs from the region\'s current epoch is rejected with an epoch error, and has no effect on data. Both components of the epoch are compared. The rejection returns the current region definition to the client.',
 ['histories','schedules'],'every interleaving of requests with splits, merges and membership changes',NOBUILD,['src/raft/store_state_machine.cc','src/server/service_helper.cc'],
 [('epoch comparison before apply','StoreStateMachine::on_apply'),('epoch comparison before serving','ServiceHelper::ValidateRegionEpoch')])
P('R03','Applying a multi-column write is atomic and never silently partial',
 'Applying a log entry that touches several column families installs all of its puts and deletes in one atomic batch, or stops the process when the engine reports corruption; any other failure is reported to the waiting caller. A caller waiting on the entry is always given the status of the apply. Range deletions cover every column family the entry names.',
 ['fault_sequences','inputs'],'every log entry kind and every storage failure while applying it',NOBUILD,['src/handler/raft_apply_handler.cc','src/handler/raft_apply_handler_txn.cc'],
 [('apply handlers','PutHandler, DeleteRangeHandler, DeleteBatchHandler, TxnHandler')])
P('R04','Raft log entries are durable before they are acknowledged',
 'With log synchronisation enabled, an append is acknowledged only after the log has been synced, and a failed write or sync never counts as success. Truncating a log prefix or suffix removes exactly the entries outside the kept interval, never entries another user of the log still needs, and resetting leaves the log empty at the requested next position. Entries of different regions never mix.',
 ['crash_points','histories','inputs'],'every sequence of append / truncate / reset by several regions, with a crash at any point','Crash points are not simulated by any test.',['src/log/rocks_log_storage.cc','src/log/rocks_log_storage.h'],
 [('write, sync, signal','RocksLogStorage::ExecuteRoutine'),('truncation','RocksLogStorage::TruncatePrefix / TruncateSuffix'),('key codec','RocksLogStorage key helpers')])
P('R05','The in-memory term cache answers the true term of every cached log position',
 'For every log position covered by the cache the returned term is the term under which that entry was appended, after any sequence of appends, prefix truncations, suffix truncations and resets. Positions outside the covered range are reported as unknown rather than guessed. Appending an entry that is out of order is refused.',
 ['histories','inputs'],'every sequence of append / truncate / reset operations','The operation sequence space is unbounded; no test runs this code here.',['src/log/index_term_map.cc'],
 [('run-length term ranges','IndexTermMap::GetTerm / Append / TruncatePrefix / TruncateSuffix / Reset')])
P('R06','A split yields two adjacent ranges that exactly cover the parent',
 'A split is carried out only when the split key lies strictly inside the parent range and the parent\'s epoch is the one the request was made for. Afterwards one region owns exactly the part below the split key and the other exactly the rest, with no gap or overlap, and the epoch of the regions whose range changed is raised. The new region inherits the parent\'s timestamp watermarks.',
 ['inputs','histories'],'every split request, strategy and concurrent epoch change',NOBUILD,['src/handler/raft_apply_handler.cc','src/store/region_controller.cc'],
 [('split apply','SplitHandler (pre-create and post-create strategies)'),('split validation','SplitRegionTask::ValidateSplitRegion')])
P('R07','A merge only joins adjacent regions and loses no committed entry',
 'A merge is admitted only for two adjacent, normal regions of matching kind and replica set. When it commits, the target first applies every entry of the source it has not yet applied, then covers exactly the union of both ranges with an epoch above both, and only afterwards is the source retired. The merged region keeps the larger of the two regions\' timestamp watermarks.',
 ['histories','schedules'],'every merge against every lag of source and target replicas',NOBUILD,['src/handler/raft_apply_handler.cc','src/store/region_controller.cc'],
 [('prepare / commit merge apply','PrepareMergeHandler, CommitMergeHandler'),('merge validation','MergeRegionTask::ValidateMergeRegion')])
P('R08','Vector and document indexes apply each log entry at most once',
 'A vector or document index takes the in-memory effect of a log entry only when that entry is newer than the index\'s applied position, and advances the position only after the effect succeeded. The durable data of the entry is written regardless, in the data column and every scalar column the entry carries. An index that is not ready never swallows the durable write.',
 ['histories','crash_points'],'every replay of the log against an index loaded from any snapshot',NOBUILD,['src/handler/raft_apply_handler.cc'],
 [('apply log id guard','VectorAddHandler, VectorDeleteHandler, DocumentAddHandler, DocumentDeleteHandler')])
P('R09','A write is acknowledged only with the outcome of its apply on the leader',
 'A write submitted to a region is accepted only by the current leader and answered only after the log entry has been applied, with the status of that apply; a submission or replication failure is returned to the caller as an error. The completion callback of every submitted entry runs exactly once. The command carries the region id and epoch the client addressed.',
 ['schedules','fault_sequences'],'every write under leadership changes and replication failures',NOBUILD,['src/engine/raft_store_engine.cc','src/raft/raft_node.cc','src/raft/store_state_machine.cc'],
 [('submit and wait','RaftStoreEngine::Write / AsyncWrite'),('leader test','RaftNode::Commit'),('closure','StoreClosure::Run')])
P('S01','Every data request is fenced by epoch, range and region state before use',
 'Every key, transaction, vector and document request is checked for matching region epoch, for a region state that may serve data, and for all keys or ids lying inside the region\'s range before any data is read or written; requests that add or change data are also refused while the cluster is read-only (plain deletions, which free space, are not). Continuing or releasing an open scan, collecting garbage and dumping repeat only the epoch test. A request that fails a check is answered with that check\'s error and has no effect.',
 ['inputs','histories'],'every request of every data service method','There are well over a hundred request handlers; no test drives them with mismatching regions.',['src/server/store_service.cc','src/server/index_service.cc','src/server/document_service.cc','src/server/service_helper.cc'],
 [('validators','Validate*Request functions and ServiceHelper::Validate*')])
P('S02','Every service request is answered exactly once on every path',
 'Every accepted remote call runs its completion exactly once, on success, validation failure, full queue and internal error alike. A request refused because the work queue is full is answered with an overload error. Latches taken for a request are released on every path.',
 ['inputs','schedules'],'every exit path of every service method','Paths such as a full worker queue are never driven by tests.',['src/server/store_service.cc','src/server/index_service.cc','src/server/document_service.cc'],
 [('closure guard discipline','Do* handlers and service entry points')])
P('S03','Only a ready leader serves reads and scans',
 'Every read, scan, count or search entry point of the storage layer first verifies that this replica is the region leader and has finished replaying its log, and returns the verification error otherwise. A scan that cannot be opened or started leaves no scan session behind.',
 ['schedules','histories'],'every read entry point under leadership change',NOBUILD,['src/engine/storage.cc'],
 [('leader validation','Storage::ValidateLeader and its callers')])
P('S04','A conditional write changes only the keys whose condition holds',
 'A put-if-absent writes exactly the keys that do not exist, and a compare-and-set exactly those whose current value equals the expected one, where an empty expectation means the key must be absent and an empty new value deletes the key. An atomic request applies to all of its keys or to none of them. A failed read aborts the request, and the per-key outcomes and timestamps reported to the caller match what was written.',
 ['inputs','fault_sequences'],'every mix of existing, missing and mismatching keys in one request',NOBUILD,['src/engine/raft_store_engine.cc','src/engine/mono_store_engine.cc'],
 [('conditional writes','RaftStoreEngine::Writer and MonoStoreEngine::Writer: KvPutIfAbsent, KvCompareAndSet')])
P('S05','A paged scan continues exactly where its last page ended',
 'A scan session or stream keeps its own iterator: every page reports each item once, in order, moves past every item it has reported before the page ends, and starts where the previous page stopped. A page ends early only because its item, byte or server limit was reached, and only then says that there is more. A session identifier belongs to one session; an unknown, expired, failed or released one is answered with an error and never continued, and a failed or finished session is dropped. A session still in use or not yet expired is not recycled.',
 ['inputs','histories'],'every sequence of begin, continue, release and clean-up, every limit and every range',NOBUILD,['src/scan/scan.cc','src/scan/scan_manager.cc','src/scan/scan_filter.cc','src/common/stream.cc','src/engine/txn_engine_helper.cc','src/document/document_reader.cc'],
 [('scan sessions','ScanHandler::ScanBegin / ScanContinue / ScanRelease, ScanContext::GetKeyValue'),('session tables','ScanManager, ScanManagerV2, StreamManager'),('streamed scans','TxnEngineHelper::Scan, ScanLockInfo, DocumentSearchAllStreamState::Batch')])
P('C01','The timestamp oracle never issues a timestamp twice or backwards',
 'The timestamp oracle issues strictly increasing timestamps: a grant never exceeds the persisted time limit, its logical part never overflows into the next grant, and a non-positive count is refused. Time is advanced only after the new limit has been replicated, and a new leader starts above the limit saved by its predecessor. The oracle serves only while it is leader and has completed that synchronisation.',
 ['schedules','crash_points','inputs'],'every sequence of requests, clock jumps, leader changes and crashes','Leader change and clock behaviour cannot be sampled exhaustively; no test runs the oracle.',['src/coordinator/tso_control.cc','src/coordinator/tso_control.h'],
 [('grant','TsoControl::GenTso'),('save-ahead update','TsoControl::UpdateTimestamp / SyncTimestamp')])
P('C02','Auto-increment ranges handed out never overlap',
 'Every range of auto-increment ids handed out for a table starts at or after the end of every range handed out before, honours the requested increment and offset, and is wide enough for the requested count. The range is returned only after its end has been replicated. An explicit update moves the counter only as requested and never creates an entry for an unknown table.',
 ['schedules','inputs','histories'],'every sequence of generate / update / create / delete requests',NOBUILD,['src/coordinator/auto_increment_control.cc'],
 [('range computation','AutoIncrementControl::GenerateAutoIncrement, GetGenerateEndId, GetRealStartId')])
P('C03','Coordinator state changes are applied once and identically from any path',
 'A replicated coordinator change at or below the applied position is ignored, every other change is applied in full to memory and to the persistent store, and ids only move forward. Saving the coordinator state into a snapshot and loading it covers the same set of tables, so a replica restored from a snapshot equals one that replayed the log.',
 ['histories','crash_points'],'every history of replicated changes, snapshot saves and loads',NOBUILD,['src/coordinator/coordinator_control_fsm.cc','src/coordinator/kv_control_fsm.cc','src/coordinator/auto_increment_control.cc','src/raft/meta_state_machine.cc','src/coordinator/coordinator_meta_storage.h'],
 [('apply driver','MetaStateMachine::on_apply'),('ids only move forward','DingoSafeIdEpochMap'),('idempotence guard','CoordinatorControl::ApplyMetaIncrement, KvControl::ApplyMetaIncrement'),('snapshot pair','LoadMetaToSnapshotFile / LoadMetaFromSnapshotFile')])
P('C04','Version-store writes get increasing revisions and consistent key indexes',
 'Every put or delete in the coordinator\'s version store produces a revision greater than all earlier ones, stores the value under that revision before the key index refers to it, and keeps create revision and version count: a first put or a put after deletion starts a new generation with version one, a further put increments the version. A put naming a lease that does not exist is not applied. Range reads at a revision see the latest entry not above it and nothing for deleted keys.',
 ['histories','inputs'],'every history of puts, deletes and range reads',NOBUILD,['src/coordinator/kv_control_kv.cc'],
 [('apply','KvControl::KvPutApply / KvDeleteApply'),('reads','KvControl::KvRange / KvGet helpers')])
P('C05','Version-store compaction keeps what the latest revision needs',
 'Compacting the version store at a revision removes only revisions at or below it that a newer kept revision of the same key supersedes; the newest revision of a live key always survives, and a key whose last event is a deletion may disappear entirely. Every key in the requested range is visited.',
 ['histories'],'every key history and compaction revision',NOBUILD,['src/coordinator/kv_control_kv.cc'],
 [('compaction apply','KvControl::KvCompactApply'),('compaction driver','KvControl::CompactionTask')])
P('C06','A lease deletes exactly the keys attached to it, and only after expiry',
 'A lease is revoked by the system only after its time-to-live has elapsed since the last renewal, and revoking deletes exactly the keys currently attached to it. Deleting or re-leasing a key detaches it from its previous lease and from no other key\'s lease. Renewing an unknown lease fails, and a grant never reuses an existing lease id.',
 ['histories','schedules'],'every history of grants, renewals, puts, deletes and expirations',NOBUILD,['src/coordinator/kv_control_lease.cc','src/coordinator/kv_control_kv.cc'],
 [('expiry test and revoke','KvControl::LeaseTask / LeaseRevoke'),('attachment bookkeeping','KvControl::KvPut / KvDeleteRange, LeaseAddKeys / LeaseRemoveKeys')])
P('C07','A watch fires once, for a matching event, and is then forgotten',
 'A one-time watch on a key is answered at once when the key already carries a revision above the requested start, or is absent and the caller does not wait for it, and otherwise waits for the first later put or delete of that key, at or above the start, that its filter lets through. Every waiting watch is answered once, with the event kind, the current pair and, if asked for, the previous pair with its own version count, and is removed from the waiting tables whether it fires, is cancelled or is shut down.',
 ['histories','schedules'],'every history of watches, cancellations, puts and deletes',NOBUILD,['src/coordinator/kv_control_watch.cc','src/coordinator/kv_control.h'],
 [('registration','KvControl::OneTimeWatch / AddOneTimeWatch'),('firing','KvControl::TriggerOneWatch'),('removal','KvControl::RemoveOneTimeWatch, CancelOneTimeWatchClosure')])
P('C08','Coordinator tables are the maps they stand for and reload what was stored',
 'Every operation of the double-buffered maps the coordinator keeps its tables in does to both copies what the map operation of that name means, and reports success exactly when it took place. A table writes each change to memory and to its persistent copy under the same key, whose name carries the table prefix and the id; no table prefix is the beginning of another, so that scanning, loading or clearing one table never takes in records of another. A restart loads each in-memory table from exactly its own prefix, then raises the id counters that are still unset to their floors, and rebuilds the name and range lookups and the id counters of the leader from the loaded tables; if any table cannot be read or loaded the start fails.',
 ['histories','crash points'],'every history of table changes and every restart',NOBUILD,['src/common/safe_map.h','src/coordinator/coordinator_meta_storage.h','src/coordinator/coordinator_control.cc','src/coordinator/kv_control.cc','src/coordinator/coordinator_control_fsm.cc','src/coordinator/coordinator_prefix.h','src/common/constant.h'],
 [('map operations','DingoSafeMap, DingoSafeStdMap'),('memory and persistent copy','MetaMemMapFlat, MetaMemMapStd, MetaDiskMap'),('restart','CoordinatorControl::Recover, KvControl::Recover, BuildTempMaps'),('key prefixes','coordinator_prefix.h, constant.h')])
P('X01','Latches give each key to at most one request at a time, in arrival order',
 'A request is told it holds its latches only when it is first in line for every key it asked for; otherwise it is queued exactly once per key behind the holder. Releasing removes the request from exactly the lines it headed and wakes the next request in each of those lines. No request is lost or woken for a key it did not queue for.',
 ['schedules'],'every interleaving of acquire and release over any key sets','Interleavings cannot be enumerated by tests, and none run here.',['src/common/latch.cc','src/common/latch.h'],
 [('acquire / release','Latches::Acquire, Latches::Release'),('ordered deduplicated key set','Lock::Lock')])
P('X02','Reader-writer locks and wait conditions keep exclusion and never lose a wake-up',
 'The reader-writer lock never lets a writer in together with a reader or another writer, lets writers that wait go before new readers, and wakes waiters whenever admission may have become possible. The counting condition changes its count only under its mutex and a wait returns only once the count has fallen to the bound or an error is reported. Scope guards run their action exactly once unless released.',
 ['schedules'],'every interleaving of lock, unlock, signal and wait calls','Interleavings cannot be enumerated by tests, and none run here.',['src/common/synchronization.cc','src/common/synchronization.h'],
 [('admission predicates','RWLock::CanRead / CanWrite'),('count protocol','BthreadCond')])
P('X03','Worker sets run every accepted task exactly once',
 'A task accepted by a worker set is run exactly once, also while the set is shutting down, and a task refused because the pending limit is exceeded is never run. The pending counter is raised for every accepted task and lowered once when it finishes. A worker thread exits only when the set is stopping and no task is left.',
 ['schedules'],'every interleaving of submit, run and destroy','Interleavings cannot be enumerated by tests, and none run here.',['src/common/runnable.cc'],
 [('queue protocol','SimpleWorkerSet / PriorWorkerSet Init and Execute, Worker::Execute')])
P('X04','No two live regions of a store own the same key',
 'A region is created on a store only if no region with that id exists and its range conflicts with no existing region\'s range; two ranges conflict exactly when they intersect. A region is deleted only when it exists and is not being split or merged, and is marked deleting before its log and data are destroyed and removed from the catalogue only afterwards.',
 ['histories','inputs'],'every pair of ranges and every history of create / delete commands',NOBUILD,['src/store/region_controller.cc','src/common/helper.cc'],
 [('create validation','CreateRegionTask::ValidateCreateRegion'),('range intersection','Helper::IsConflictRange'),('delete order','DeleteRegionTask::DeleteRegion')])
P('X05','Region metadata survives a restart exactly as last acknowledged',
 'Every change of a region\'s persistent attributes (state, range, epoch, peers, last change job, snapshot and disable flags) is written to the metadata store in the same operation that changes it in memory, and recovery restores every persisted region. A region dropped from memory is dropped from the metadata store too. A region\'s state moves only along the admitted transitions, and its epoch versions only forward.',
 ['crash_points','histories'],'every metadata change followed by a restart at any later point','Restarts at arbitrary points are not tested.',['src/meta/store_meta_manager.cc'],
 [('write-through updates','StoreRegionMeta::Update*'),('recovery','StoreRegionMeta::Init')])
P('X06','Shared state is touched only under its lock, and locks are always given back',
 'Shared tables, queues, caches and counters (lock tables, watch maps, worker queues, region, metrics, scan, safe-point, log and index tables) are read and changed only while the mutex or read-write lock that protects them is held, with the exclusive mode for changes, outside construction, recovery and the few word-sized getters. Every lock taken by a function is released on each of its paths, no thread takes a lock it already holds, condition waits hold their mutex, and locks are taken in one global order.',
 ['schedules'],'every interleaving of the threads of a store or coordinator','A missing lock shows itself only in rare interleavings; no test runs these classes from two threads.',['src/coordinator','src/store','src/meta','src/metrics','src/common','src/scan','src/vector','src/document','src/engine','src/raft','src/log'],
 [('guarded fields','spec/locks.json: class field and lock'),('lock balance','every function of src')])
P('X07','A missing region, node or task is answered with an error, never a crash',
 'A pointer that the code has just found to be null - a region, raft node, task, index or response that does not exist - is not dereferenced afterwards on that path, so the request is answered with an error instead of crashing the server.',
 ['inputs','schedules'],'every path of every function of the server','Error paths for absent objects are not tested.',['src'],[('null flow','every function of src')])
P('X08','A failed step is reported, never turned into a success',
 'Whenever a step of an operation reports failure through its returned status, the failure reaches whoever asked for the operation: it is returned, written into the response, retried or ends the process. No operation answers success after one of its steps is known to have failed, and no result of a step is thrown away unexamined, except for the named best-effort clean-ups and periodic background passes.',
 ['inputs','fault_sequences'],'every call that can fail, on every error path of every function','Error paths are what tests reach least: most need a failing disk, network or peer.',['src'],
 [('status results','butil::Status returning functions across src'),('example','TxnEngineHelper::DoReadSstFileForTxn, Storage::*, RaftStoreEngine::*')])
P('B01','Restore never ingests data that fails validation',
 'Restoring a backup verifies the existence, size, name and checksum of every backup file before its contents are used, and any mismatch aborts the restore with an error. An ingest request is validated file by file on the store before any file is ingested. Restored data is written completely: a batch or region that cannot be written, or never becomes usable, stops the restore with an error.',
 ['fault_sequences','inputs'],'every corruption, truncation or substitution of a backup file','No test corrupts backup files.',['src/br/restore_data_base.cc','src/br/restore_meta.cc','src/br/utils.cc','src/server/service_helper.cc'],
 [('checksum comparison','Utils::CheckBackupMeta'),('store-side validation','ServiceHelper::ValidSstMetas'),('batch writes of a restore','TxnEngineHelper::RestoreTxn')])
P('B02','The shipped configuration keeps the durability and safety switches on',
 'Every shipped flag file of a replicated role (coordinator, store, index, document) leaves raft log synchronisation on, and no shipped file turns a safety switch off or an unsafe mode on (independent apply queue, version and presence checks of backup and restore, debug rewind of ids, administrative services). The compiled-in defaults of these switches are the safe ones. Nothing but start-up flags and an explicit control-config request changes them while running, and such a request changes exactly the switch it names, to the value it gives, and only reports when it asks.',
 ['configurations','inputs'],'every shipped configuration file, every role, every control-config request','Existing tests read a few entries of the shipped files with a simpler grammar than gflags and do not look at who writes a switch.',['conf','src/log/rocks_log_storage.cc','src/br/parameter.cc','src/common/helper.cc','src/engine/storage.cc','src/server/coordinator_service.cc'],
 [('flag definitions','DEFINE_bool in src'),('shipped flag files','conf/*-gflags.conf'),('control-config request','Storage::ControlConfig, DoControlConfig, Helper::HandleBoolControlConfigVariable')])
P('N01','Replicated regions are linearizable under arbitrary faults',
 'Reads and writes of a region behave as if executed one at a time in an order consistent with real time, through leader changes, partitions and restarts of a minority of replicas.',
 ['schedules','fault_sequences','histories'],'every execution of the replicated system','Needs executions of a distributed system under faults.',['src/raft','src/engine'],[('consensus library','braft')])
P('N02','Approximate vector search meets its recall and distance contract',
 'A vector search returns the requested number of nearest vectors with distances correct for the metric, at the recall the index type promises, filtered by the request\'s predicates.',
 ['inputs'],'every data set and query','Numerical quality quantifies over data.',['src/vector'],[('index libraries','faiss, hnswlib, diskann')])
P('N03','Accelerated distance kernels equal the reference computation',
 'The vectorised distance kernels return the same result as the scalar reference up to rounding, for every dimension and every processor feature level.',
 ['inputs','configurations'],'every vector length and processor level','Numerical equality over all float inputs.',['src/simd'],[('kernels','src/simd/distances_*.cc')])
P('N04','Balancing converges without oscillating or losing replicas',
 'Leader and region balancing reaches a stable placement within the configured thresholds and never reduces the number of live replicas of a region.',
 ['histories'],'every cluster load history','Liveness over load histories.',['src/coordinator/balance_leader.cc','src/coordinator/balance_region.cc'],[('schedulers','BalanceLeaderScheduler, BalanceRegionScheduler')])
P('N05','Latency and resource use stay bounded under load',
 'Under the configured limits, queues, memory and scan sessions stay bounded and requests meet their time budgets.',
 ['schedules','inputs'],'every load','Timing and memory are runtime quantities.',['src/common/runnable.cc','src/scan'],[('limits','worker sets, scan manager')])
if __name__=='__main__':
    with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
        for p in OUT: f.write(json.dumps(p,ensure_ascii=False)+'\n')
    print(len(OUT))
