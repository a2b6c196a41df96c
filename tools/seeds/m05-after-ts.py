prop='M05'
edits=[('src/mvcc/ts_provider.cc','''    if (!IsStale(head)) {
      int64_t ts = head->GetTs();
      if (ts > after_ts && ts > 0 && IsValid(ts)) {
        return ts;
      }
    }
''','''    if (!IsStale(head)) {
      int64_t ts = head->GetTs();
      if (ts > 0 && IsValid(ts)) {
        if (ts <= after_ts && head_next == nullptr && head->Remain() > 0) {
          ts = head->GetTs();
        }
        if (ts >= after_ts) {
          return ts;
        }
      }
    }
''')]
needs='a floor that lies inside the only cached batch, one above the next timestamp'
what='the timestamp handed out equals the floor instead of exceeding it'
srcs=['src/mvcc/ts_provider.cc','src/common/runnable.cc','src/common/synchronization.cc']
protos=['common','meta']
kit=['bthread','butil','bvar','common/helper.h','coordinator']
demo='''
#include "mvcc/ts_provider.h"
#include "common/helper.h"
#include <cstdio>
using namespace dingodb;
int main() {
  for (int k = 0; k < 6; ++k) for (int d = 0; d < 12; ++d) {
    auto l = mvcc::BatchTsList::New();
    int64_t phys = Helper::TimestampMs(), base = phys << 18;
    l->Push(mvcc::BatchTs::New(phys, 0, 10));
    int64_t last = 0;
    for (int i = 0; i < k; ++i) { int64_t t = l->GetTs(0); if (t <= last) { puts("order"); return 1; } last = t; }
    int64_t floor = base + d, t = l->GetTs(floor);
    if (t != 0 && t <= floor) { printf("floor %d got %ld\\n", d, (long)(t - base)); return 1; }
    if (t != 0 && (t <= last || t >= base + 10)) { puts("outside the batch or repeated"); return 1; }
  }
  return 0;
}
'''
