prop='R05'
edits=[('src/log/index_term_map.h','return index < log_id.index;','return index <= log_id.index;')]
needs='at least fifteen cached terms and a lookup of the first position of a term'
what='the previous term is answered for the first entry of a term'
srcs=['src/log/index_term_map.cc']
kit=['braft']
demo='''
#include "log/index_term_map.h"
#include <cstdio>
#include <map>
using namespace dingodb;
int main() {
  for (int step = 1; step <= 3; ++step) {
    IndexTermMap m(1);
    std::map<int64_t, int64_t> ref;
    for (int64_t i = 10; i < 100; ++i) {
      braft::LogId id(i, i / step);
      if (m.Append(id) != 0) { puts("append refused"); return 1; }
      ref[i] = i / step;
      for (auto& [k, v] : ref) if (m.GetTerm(k) != v) { printf("index %ld: term %ld instead of %ld\\n", (long)k, (long)m.GetTerm(k), (long)v); return 1; }
      if (m.GetTerm(9) != 0) { puts("guessed"); return 1; }
    }
  }
  return 0;
}
'''
