prop='M01'
edits=[('src/common/serial_helper.cc','''  int64_t nvalue = ~value;
  if (BAIDU_LIKELY(IsLE())) {
    // value is little endian
    output.push_back(static_cast<char>(nvalue >> 56));
    output.push_back(static_cast<char>(nvalue >> 48));''','''  int64_t nvalue = ~value;
  if (BAIDU_LIKELY(IsLE())) {
    // value is little endian
    output.push_back(static_cast<char>(nvalue >> 56));
    output.push_back(static_cast<char>(nvalue >> 56));''')]
needs='a timestamp of 2^48 or more'
what='the second byte of the timestamp is lost, so large timestamps decode wrongly and sort wrongly'
srcs=['src/mvcc/codec.cc','src/common/serial_helper.cc']
protos=['common']
kit=['bthread','butil','common/helper.h','server/service_helper.h']
demo='''
#include "mvcc/codec.h"
#include <cstdio>
using namespace dingodb;
int main() {
  std::vector<int64_t> ts;
  for (int s = 0; s < 63; ++s) for (int64_t d = 0; d < 2; ++d) ts.push_back((1LL << s) + d);
  ts.push_back(INT64_MAX); ts.push_back(0);
  for (auto a : ts) {
    std::string e = mvcc::Codec::EncodeKey(std::string("k"), a), d; int64_t t = -1;
    if (!mvcc::Codec::DecodeKey(e, d, t) || t != a) { printf("ts %ld\\n", (long)a); return 1; }
    for (auto b : ts) { std::string f = mvcc::Codec::EncodeKey(std::string("k"), b); if ((a > b) != (e < f)) { puts("order"); return 1; } }
  }
  return 0;
}
'''
