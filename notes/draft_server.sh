# drafts the request service tables; run from /verif
rm -f spec/tables/srv_?.tbl
S=src/server/service_helper.cc
python3 tools/draft.py $S ServiceHelper::ValidateRegionEpoch,ServiceHelper::GetStoreRegionInfo prop=R02,S01 out=srv_a
python3 tools/draft.py src/common/helper.cc Helper::IsEqualRegionEpoch prop=R02 out=srv_a
python3 tools/draft.py $S ServiceHelper::ValidateRegionState,ServiceHelper::ValidateKeyInRange,ServiceHelper::ValidateRangeInRange,ServiceHelper::ValidateClusterReadOnly prop=S01 out=srv_a
python3 tools/draft.py $S ServiceHelper::ValidateRange,ServiceHelper::ValidateRegion,ServiceHelper::ValidateIndexRegion,ServiceHelper::ValidateDocumentRegion chk prop=S01 out=srv_a
python3 tools/draft.py $S ServiceHelper::ValidSstMetas prop=B01 widen chk out=srv_a
python3 tools/draft.py $S ServiceHelper::LatchesAcquire,ServiceHelper::LatchesRelease prop=X01,S02 out=srv_a
fn() { grep -nE "^(static |void |butil::Status )" /repo/src/server/$1_service.cc | sed 's/(.*//' | awk '{print $NF}' | sort -u | grep -E "$2" | paste -sd,; }
for s in store index document; do
  case $s in store) o=srv_b; c=Store;; index) o=srv_c; c=Index;; document) o=srv_d; c=Document;; esac
  ( F=src/server/${s}_service.cc
  timeout 900 python3 tools/draft.py $F $(fn $s '^[A-Za-z]*Validate') chk prop=S01 out=$o
  timeout 1800 python3 tools/draft.py $F $(fn $s '^Do[A-Z]') prop=S01,S02 keep=GetStoreRegionInfo out=$o
  timeout 900 python3 tools/draft.py $F $(fn $s 'ServiceImpl::') prop=S02 lam=make_shared_ServiceTask: out=$o ) > /tmp/$o.out 2>&1 &
done; wait
