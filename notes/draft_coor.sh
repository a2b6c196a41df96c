# drafts the coordinator-side request service table (srv_e); run from /verif after draft_server.sh
fn() { grep -nE "^(static |void |butil::Status )" /repo/src/server/$1_service.cc | sed 's/(.*//' | awk '{print $NF}' | sort -u | grep -E "$2" | paste -sd,; }
for s in coordinator meta version diskann node debug file util; do
 ( timeout 1500 python3 tools/draft.py src/server/${s}_service.cc $(fn $s '^Do[A-Z]|Impl::') prop=S02 lam=make_shared_ServiceTask: "ev=guard_|Execute|\.Run\(|^Do[A-Z]|\.Write\(|SetError|errcode|Redirect" noonly out=tmp_$s > /tmp/dc_$s.out 2>&1 ) &
done; wait
cat spec/tables/tmp_*.tbl > spec/tables/srv_e.tbl; rm -f /verif/spec/tables/tmp_*.tbl; python3 notes/trim_coor.py
