prop='X01'
edits=[('src/common/latch.cc','  lock->ownedCount += acquired_count;\n','  lock->ownedCount = lock->ownedCount == 0 ? acquired_count : std::max(lock->ownedCount, acquired_count);\n')]
needs='a request that owned some latches, waited on a later key, and is resumed'
what='the resumed request never counts the later latches as acquired, so it waits for ever and everybody behind it too'
srcs=['src/common/latch.cc']
flags='-include algorithm -include cassert'
demo='''
#include "common/latch.h"
#include <cstdio>
#include <set>
using namespace dingodb;
int main() {
  Latches l(64);
  std::vector<std::string> ks = {"a", "b", "c", "d", "e"};
  // every pair of overlapping requests: second must be granted after the first releases
  for (int m1 = 1; m1 < 32; ++m1) for (int m2 = 1; m2 < 32; ++m2) {
    std::vector<std::string> k1, k2;
    for (int i = 0; i < 5; ++i) { if (m1 >> i & 1) k1.push_back(ks[i]); if (m2 >> i & 1) k2.push_back(ks[i]); }
    Lock a(k1), b(k2);
    if (!l.Acquire(&a, 1)) { puts("first refused"); return 1; }
    bool got = l.Acquire(&b, 2);
    if (got != ((m1 & m2) == 0)) { puts("exclusion broken"); return 1; }
    auto w = l.Release(&a, 1, std::nullopt);
    if (!got) {
      if (w.size() != 1 || w[0] != 2) { puts("not woken"); return 1; }
      if (!l.Acquire(&b, 2)) { puts("woken request is still refused although it heads every line"); return 1; }
    }
    if (!l.Release(&b, 2, std::nullopt).empty()) { puts("spurious wake"); return 1; }
    Lock c(ks);
    if (!l.Acquire(&c, 3)) { puts("left over"); return 1; }
    l.Release(&c, 3, std::nullopt);
  }
  return 0;
}
'''
