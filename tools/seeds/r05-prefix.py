prop='R05'
edits=[('src/log/index_term_map.cc','term_cache_.begin() + 1; iter','term_cache_.begin() + (term_cache_.size() > 2 ? 0 : 1); iter')]
needs='a prefix truncation while more than two terms are cached'
what='the entry that covers the first kept position is dropped, so the positions up to the next term have no term any more'
srcs=['src/log/index_term_map.cc']
kit=['braft']
demo='''
#include "log/index_term_map.h"
#include <cstdio>
using namespace dingodb;
int main() {
  for (int n = 1; n < 20; ++n) for (int cut = 1; cut < n * 3; ++cut) {
    IndexTermMap m(1);
    for (int64_t i = 1; i <= n * 3; ++i) if (m.Append(braft::LogId(i, (i + 2) / 3)) != 0) return 2;
    m.TruncatePrefix(cut);
    for (int64_t i = cut; i <= n * 3; ++i) if (m.GetTerm(i) != (i + 2) / 3) { printf("n %d cut %d index %ld\\n", n, cut, (long)i); return 1; }
  }
  return 0;
}
'''
