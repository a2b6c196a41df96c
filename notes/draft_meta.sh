cd /verif
X=
dr(){ t=$1; p=$2; shift 2; for f in "$@"; do timeout 300 python3 tools/draft.py $F ${f%%@*} $(case $f in *@*) echo ${f#*@};; esac) prop=$p $X out=$t 2>&1 | grep '!!\|FAILED\|Error' | cut -c1-300 | sed "s/^/$f /"; done; }
F=src/meta/store_meta_manager.cc
dr meta_a X05 Region::DeSerialize Region::Serialize Region::SetEpochVersionAndRange Region::GetEpochAndRange Region::SetEpochConfVersion Region::SetSnapshotEpochVersion Region::Range Region::Epoch Region::CheckKeyInRange Region::SetIndexParameter Region::SetPeers Region::SetState Region::AppendHistoryState Region::SetNeedBootstrapDoSnapshot Region::SetDisableChange Region::SetTemporaryDisableChange Region::SetParentId Region::SetLastChangeJobId Region::Recover RaftMeta::SetTermAndAppliedId RaftMeta::Serialize RaftMeta::DeSerialize
dr meta_b X05 StoreRegionMeta::Init StoreRegionMeta::AddRegion StoreRegionMeta::DeleteRegion StoreRegionMeta::UpdateRegion StoreRegionMeta::UpdateState@pick=0:RegionPtr StoreRegionMeta::UpdatePeers@pick=0:RegionPtr StoreRegionMeta::UpdateEpochVersionAndRange@pick=0:RegionPtr StoreRegionMeta::UpdateSnapshotEpochVersion StoreRegionMeta::UpdateEpochConfVersion@pick=0:RegionPtr StoreRegionMeta::UpdateNeedBootstrapDoSnapshot StoreRegionMeta::UpdateDisableChange StoreRegionMeta::UpdateTemporaryDisableChange StoreRegionMeta::UpdateLastChangeJobId StoreRegionMeta::GetRegion StoreRegionMeta::GetAllRegion StoreRegionMeta::TransformToKv StoreRegionMeta::TransformFromKv StoreRaftMeta::Init StoreRaftMeta::AddRaftMeta StoreRaftMeta::UpdateRaftMeta StoreRaftMeta::SaveRaftMeta StoreRaftMeta::DeleteRaftMeta StoreRaftMeta::GetRaftMeta StoreRaftMeta::TransformToKv StoreRaftMeta::TransformFromKv
F=src/meta/meta_writer.cc
dr meta_c X05 MetaWriter::Put@pick=0:shared_ptr MetaWriter::Put@pick=0:vector MetaWriter::PutAndDelete MetaWriter::Delete MetaWriter::DeleteRange MetaWriter::DeletePrefix
F=src/meta/meta_reader.cc
dr meta_c X05 MetaReader::Get@n=1 MetaReader::Get@n=2 MetaReader::Scan@n=2 MetaReader::Scan@n=3
F=src/common/helper.cc
dr meta_d X04,R06,R07 Helper::IsConflictRange Helper::InvalidRange Helper::CompareRegionEpoch Helper::IsEqualRegionEpoch Helper::IsContainRange
dr meta_d R07 Helper::IsDifferenceLocation Helper::IsDifferencePeers@pick=0:vector Helper::IsDifferencePeers@pick=0:RegionDefinition Helper::GenMaxStartKey
dr meta_d R06 Helper::ValidateRaftStatusForSplitMerge
