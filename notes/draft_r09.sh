# drafts storage front end and raft submission tables; run from /verif. stor_a.tbl was drafted from engine/storage.cc and retagged by hand
F=src/engine/raft_store_engine.cc
rm -f spec/tables/eng_?.tbl
python3 tools/draft.py $F RaftStoreEngine::Write,RaftStoreEngine::StopNode,RaftStoreEngine::DestroyNode,RaftStoreEngine::SaveSnapshot,RaftStoreEngine::AyncSaveSnapshot,RaftStoreEngine::TransferLeader,RaftStoreEngine::ChangeNode,RaftStoreEngine::IsLeader prop=R09 out=eng_a
python3 tools/draft.py $F RaftStoreEngine::AsyncWrite n=2 prop=R09 out=eng_a
python3 tools/draft.py $F RaftStoreEngine::AsyncWrite n=3 prop=R09 out=eng_a
python3 tools/draft.py $F GenRaftCmdRequest prop=R09 out=eng_a
python3 tools/draft.py src/raft/raft_node.cc RaftNode::Commit,RaftNode::IsLeader,RaftNode::ConsistentReadable,RaftNode::SetConsistentReadable,RaftNode::Snapshot,RaftNode::ChangePeers,RaftNode::TransferLeadershipTo,RaftNode::Init prop=R09 out=eng_a
python3 tools/draft.py src/raft/state_machine.cc BaseClosure::Run prop=R09 out=eng_a
python3 tools/draft.py src/common/context.h Context::CreateSyncModeCond,Context::SyncModeCond prop=R09 out=eng_a
python3 tools/draft.py $F RaftStoreEngine::Writer::KvPut,RaftStoreEngine::Writer::KvDelete,RaftStoreEngine::Writer::KvDeleteRange prop=R09 out=eng_a
python3 tools/draft.py $F RaftStoreEngine::Writer::KvPutIfAbsent,RaftStoreEngine::Writer::KvCompareAndSet prop=S04 out=eng_b
python3 tools/draft.py src/engine/mono_store_engine.cc MonoStoreEngine::Writer::KvPutIfAbsent,MonoStoreEngine::Writer::KvCompareAndSet prop=S04 out=eng_b
TX=$(grep -oE "RaftStoreEngine::Txn(Reader|Writer)::[A-Za-z]+" $F /repo/$F 2>/dev/null | sed 's/.*cc://' | sort -u | paste -sd,)
python3 tools/draft.py $F $TX prop=T12 out=eng_c
python3 notes/post_s04.py
