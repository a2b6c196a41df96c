prop='X01'
edits=[('src/common/latch.cc','''  std::vector<uint64_t> wakeup_list;
''','''  std::vector<uint64_t> wakeup_list;
  bool keep_for_next_cmd = false;
'''),('src/common/latch.cc','''    bool keep_for_next_cmd = false;
    if (keep_latchtes''','''    if (keep_latchtes''')]
needs='a release that passes some latches on to the next command and has later keys that the next command does not need'
what='the later latches are handed to the next command too, which never releases them: whoever waits for them hangs'
srcs=['src/common/latch.cc']
flags='-include algorithm -include cassert'
demo='''
#include "common/latch.h"
#include <cstdio>
using namespace dingodb;
int main() {
  std::vector<std::string> ks = {"a", "b", "c", "d", "e"};
  for (int keep = 0; keep < 32; ++keep) {
    Latches l(64);
    std::vector<std::string> kk; for (int i = 0; i < 5; ++i) if (keep >> i & 1) kk.push_back(ks[i]);
    Lock a(ks), next(kk);
    if (!l.Acquire(&a, 1)) return 2;
    std::vector<uint64_t> w;
    if (keep) w = l.Release(&a, 1, std::make_pair((uint64_t)2, &next)); else w = l.Release(&a, 1, std::nullopt);
    if (!w.empty()) { puts("spurious wake"); return 1; }
    for (int i = 0; i < 5; ++i) {
      Lock o(std::vector<std::string>{ks[i]});
      bool got = l.Acquire(&o, 10 + i), kept = keep >> i & 1;
      if (got == kept) { printf("keep %d key %d: %d\\n", keep, i, got); return 1; }
      if (got) l.Release(&o, 10 + i, std::nullopt);
    }
  }
  return 0;
}
'''
