prop='M01'
edits=[('src/mvcc/codec.cc','''  int padding_num = kGroupSize - (plain_key.length() % kGroupSize);
  for (int i = 0; i < padding_num; ++i) {
    buf[index++] = '\\x00';
  }
  buf[index] = '\\xff' - padding_num;
}''','''  int padding_num = kGroupSize - (plain_key.length() % kGroupSize);
  for (int i = 0; i < padding_num; ++i) {
    buf[index++] = '\\x00';
  }
  buf[index] = '\\xff' - (plain_key.length() > 64 && padding_num == kGroupSize ? kGroupSize - 1 : padding_num);
}''')]
needs='a key longer than 64 bytes whose length is a multiple of eight'
what='the encoded key decodes to another key (a trailing zero byte appears) and collides with it'
srcs=['src/mvcc/codec.cc','src/common/serial_helper.cc']
protos=['common']
kit=['bthread','butil','common/helper.h','server/service_helper.h']
demo='''
#include "mvcc/codec.h"
#include <cstdio>
#include <random>
using namespace dingodb;
int main() {
  std::mt19937 r(1);
  std::vector<std::string> ks;
  for (int n = 0; n <= 140; ++n) for (int v = 0; v < 3; ++v) { std::string s(n, v == 0 ? 0 : (char)0xff); if (v == 2) for (auto& c : s) c = r() % 3; ks.push_back(s); }
  for (auto& a : ks) {
    std::string e = mvcc::Codec::EncodeKey(a, 5), d; int64_t ts = 0;
    if (!mvcc::Codec::DecodeKey(e, d, ts) || d != a || ts != 5) { printf("round trip, length %zu\\n", a.size()); return 1; }
    for (auto& b : ks) {
      std::string x = mvcc::Codec::EncodeBytes(a), y = mvcc::Codec::EncodeBytes(b);
      int p = a.compare(b), q = x.compare(y);
      if ((p < 0) != (q < 0) || (p == 0) != (q == 0)) { printf("order, %zu %zu\\n", a.size(), b.size()); return 1; }
    }
  }
  return 0;
}
'''
