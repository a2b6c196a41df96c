# drafts of the region control / split / merge rules (generated once from the reference tree, then reviewed and edited by hand)
cd /verif
F=src/store/region_controller.cc
dr(){ t=$1; p=$2; shift 2; for f in "$@"; do timeout 300 python3 tools/draft.py $F $f prop=$p $X out=$t 2>&1 | grep '!!\|FAILED\|Error' | cut -c1-300 | sed "s/^/$f /"; done; }
X=chk
dr ctl_a X04 CreateRegionTask::PreValidateCreateRegion CreateRegionTask::ValidateCreateRegion DeleteRegionTask::PreValidateDeleteRegion DeleteRegionTask::ValidateDeleteRegion PurgeRegionTask::PreValidatePurgeRegion PurgeRegionTask::ValidatePurgeRegion StopRegionTask::PreValidateStopRegion StopRegionTask::ValidateStopRegion
X="calls"
dr ctl_b X04 CreateRegionTask::CreateRegion CreateRegionTask::Run DeleteRegionTask::DeleteRegion DeleteRegionTask::Run PurgeRegionTask::PurgeRegion PurgeRegionTask::Run StopRegionTask::StopRegion StopRegionTask::Run DestroyRegionExecutorTask::DestroyRegionExecutor
X=chk
dr ctl_c R06 SplitRegionTask::PreValidateSplitRegion SplitRegionTask::ValidateSplitRegion SplitRegionTask::SplitRegion SplitRegionTask::Run
dr ctl_d R07 MergeRegionTask::PreValidateMergeRegion MergeRegionTask::ValidateMergeRegion MergeRegionTask::MergeRegion MergeRegionTask::Run CheckChangeRegionLog
F=src/handler/raft_apply_handler.cc
X=
dr ctl_e R06 HandlePreCreateRegionSplit HandlePostCreateRegionSplit CreateNewRegion SplitHandler::Handle LaunchAyncSaveSnapshot SplitHandler::SplitClosure::Run
dr ctl_f R07 GetRaftLogEntries LaunchCommitMergeCommand PrepareMergeHandler::Handle CommitMergeHandler::Handle
