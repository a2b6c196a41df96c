prop='R05'
edits=[('src/log/index_term_map.cc','term_cache_.back().index > last_index_kept) {','term_cache_.back().index + (term_cache_.size() > 1 ? 1 : 0) > last_index_kept) {')]
needs='a suffix truncation that keeps exactly the first position of a later term'
what='the kept position is answered with the term before its own'
srcs=['src/log/index_term_map.cc']
kit=['braft']
demo='''
#include "log/index_term_map.h"
#include <cstdio>
using namespace dingodb;
int main() {
  for (int n = 1; n < 20; ++n) for (int keep = 1; keep <= n * 3; ++keep) {
    IndexTermMap m(1);
    for (int64_t i = 1; i <= n * 3; ++i) if (m.Append(braft::LogId(i, (i + 2) / 3)) != 0) return 2;
    m.TruncateSuffix(keep);
    for (int64_t i = 1; i <= keep; ++i) if (m.GetTerm(i) != (i + 2) / 3) { printf("n %d keep %d index %ld\\n", n, keep, (long)i); return 1; }
  }
  return 0;
}
'''
