# drafts the txn tables; run from /verif.  DR table prop fn...
K=src/engine/txn_engine_helper.cc
dr(){ t=$1; p=$2; shift 2; for f in "$@"; do timeout 300 python3 tools/draft.py $K $f prop=$p out=$t 2>&1 | grep '!!\|FAILED\|Error' | cut -c1-300 | sed "s/^/$f /"; done; }
w1(){ dr txn_a T01,T02,T04 TxnReader::GetWriteInfo TxnReader::CheckCommittedRecord TxnReader::GetRollbackInfo
dr txn_a T01,T02,T04,T05,T06,T07,T11 TxnReader::GetLockInfo
dr txn_a T02 TxnEngineHelper::Commit
dr txn_a T03 TxnEngineHelper::DoTxnCommit; }
w2(){ dr txn_b T04 TxnEngineHelper::BatchRollback TxnEngineHelper::DoRollback
dr txn_b T05 TxnEngineHelper::CheckTxnStatus TxnEngineHelper::MarkRollBackOnMissingLock TxnEngineHelper::TxnCheckSecondaryLocks
dr txn_b T06 TxnEngineHelper::ResolveLock
dr txn_b T11 TxnEngineHelper::HeartBeat TxnEngineHelper::ScanLockInfo; }
w3(){ dr txn_c T07 TxnEngineHelper::PessimisticLock TxnEngineHelper::PessimisticRollback TxnEngineHelper::DoUpdateLock
dr txn_c T08 TxnEngineHelper::GenFinalMinCommitTs TxnEngineHelper::FallbackTo1PCLocks TxnEngineHelper::OnePCommit
dr txn_c T01 TxnEngineHelper::DoPreWrite TxnEngineHelper::GenPrewriteDataAndLock; }
w4(){ dr txn_d T09 TxnReader::GetDataValue TxnReader::GetOldValue TxnIterator::Init TxnIterator::Seek TxnIterator::InnerSeek TxnIterator::Next TxnIterator::InnerNext TxnIterator::GotoNextUserKeyInWriteIter TxnIterator::GetUserKey TxnIterator::GetUserValueInWriteIter TxnIterator::GetCurrentValue TxnIterator::Valid TxnEngineHelper::CheckLockConflict TxnEngineHelper::Scan
dr txn_d T10 TxnEngineHelper::Gc TxnEngineHelper::DoGc TxnEngineHelper::RaftEngineWriteForTxnGc TxnEngineHelper::DoFinalWorkForTxnGc TxnEngineHelper::RaftEngineWrite
dr txn_d T12 TxnEngineHelper::DeleteRange; }
rm -f spec/tables/txn_?.tbl
w1 >/tmp/w1.out 2>&1 & w2 >/tmp/w2.out 2>&1 & w3 >/tmp/w3.out 2>&1 & w4 >/tmp/w4.out 2>&1 & wait
# safe points, in-memory lock table, lock resolution
S="GCSafePoint::SetGcFlagAndSafePointTs,GCSafePoint::GetGcFlagAndSafePointTs,GCSafePoint::SetGcStop,GCSafePoint::GetGcStop,GCSafePointManager::SetGcFlagAndSafePointTs,GCSafePointManager::GetAllGcFlagAndSafePointTs,GCSafePointManager::GetGcFlagAndSafePointTs,GCSafePointManager::FindSafePoint,GCSafePointManager::RemoveSafePoint,GCSafePointManager::SetGcStop,GCSafePointManager::GetGcStop,GCSafePointManager::SetLastAccomplishedSafePointTs,GCSafePointManager::GetLastAccomplishedSafePointTs"
python3 tools/draft.py src/engine/gc_safe_point.cc $S prop=T10 out=txn_e
python3 tools/draft.py src/engine/concurrency_manager.cc ConcurrencyManager::LockKey,ConcurrencyManager::UnlockKeys,ConcurrencyManager::CheckKeys,ConcurrencyManager::CheckRange,ConcurrencyManager::GetKeys prop=T08,T09 out=txn_e
python3 tools/draft.py src/engine/txn_engine_helper.cc TxnEngineHelper::CheckLockForTxnGc prop=T10 widen out=txn_e
python3 tools/draft.py src/engine/txn_engine_helper.cc TxnEngineHelper::BatchResolveLock prop=T06 widen out=txn_e
python3 tools/draft.py src/engine/txn_engine_helper.cc TxnEngineHelper::BatchGet prop=T09 widen out=txn_e
