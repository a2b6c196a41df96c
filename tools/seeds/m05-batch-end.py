prop='M05'
edits=[('src/mvcc/ts_provider.h','return ts < end_ts_ ? ts : 0;','return ts <= end_ts_ ? ts : 0;')]
needs='a batch that is used up while the next one continues at its end'
what='the first timestamp of the next batch is handed out twice'
srcs=['src/mvcc/ts_provider.cc','src/common/runnable.cc','src/common/synchronization.cc']
protos=['common','meta']
kit=['bthread','butil','bvar','common/helper.h','coordinator']
demo='''
#include "mvcc/ts_provider.h"
#include "common/helper.h"
#include <cstdio>
#include <set>
using namespace dingodb;
int main() {
  auto l = mvcc::BatchTsList::New();
  int64_t phys = Helper::TimestampMs();
  for (int i = 0; i < 5; ++i) l->Push(mvcc::BatchTs::New(phys, i * 7, 7));
  std::set<int64_t> seen;
  for (int i = 0; i < 60; ++i) {
    int64_t t = l->GetTs(0);
    if (t == 0) continue;
    if (!seen.insert(t).second) { printf("%ld twice\\n", (long)t); return 1; }
    if (t < (phys << 18) || t >= (phys << 18) + 35) { puts("outside every batch"); return 1; }
  }
  if (seen.size() < 20) { puts("too few"); return 1; }
  return 0;
}
'''
