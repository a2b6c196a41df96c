# drafts the raft tables; run from /verif
rm -f spec/tables/raft_a.tbl
S=src/raft/store_state_machine.cc
python3 tools/draft.py $S StoreStateMachine::on_apply prop=R01,R02 lam=make_shared_DispatchEventTask: widen out=raft_a
python3 tools/draft.py $S StoreStateMachine::CatchUpApplyLog prop=R01 widen out=raft_a
python3 tools/draft.py $S StoreStateMachine::on_snapshot_load,StoreStateMachine::MakeSnapshotContext,StoreStateMachine::DispatchEvent,StoreStateMachine::on_snapshot_save,StoreStateMachine::UpdateAppliedIndex,DoDispatchEvent prop=R01 out=raft_a
