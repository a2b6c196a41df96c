# drafts of the R08 tables (reviewed and edited by hand afterwards)
rm -f spec/tables/apv_?.tbl
F=handler/raft_apply_handler.cc
for h in VectorAddHandler VectorDeleteHandler VectorBatchAddHandler DocumentAddHandler DocumentDeleteHandler DocumentBatchAddHandler; do
timeout 600 python3 tools/draft.py $F $h::Handle prop=R08 widen=join > /tmp/d/$h.txt 2>&1 &
done; wait
