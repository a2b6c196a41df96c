prop='M02'
edits=[('src/mvcc/codec.cc','''      memcpy(output.data(), value.data(), value.size());

      SerialHelper::WriteLong(ttl, output);''','''      strncpy(output.data(), value.c_str(), value.size());

      SerialHelper::WriteLong(ttl, output);''')]
needs='a payload with expiry that has a zero byte before its end'
what='every byte after the first zero byte of the payload is stored as zero'
srcs=['src/mvcc/codec.cc','src/common/serial_helper.cc']
protos=['common']
kit=['bthread','butil','common/helper.h','server/service_helper.h']
demo='''
#include "mvcc/codec.h"
#include <cstdio>
using namespace dingodb;
int main() {
  std::vector<std::string> vs = {"", "a", std::string("\\0", 1), std::string("a\\0b", 3), std::string(9, '\\xff'), std::string("\\x01\\x02\\x00\\x03", 4)};
  for (auto& v : vs) for (int64_t ttl : {0L, 1L, 255L, 1L << 40, INT64_MAX}) {
    std::string o; mvcc::Codec::PackageValue(mvcc::ValueFlag::kPutTTL, ttl, v, o);
    mvcc::ValueFlag f; int64_t t = -1;
    if (std::string(mvcc::Codec::UnPackageValue(std::string_view(o), f, t)) != v || f != mvcc::ValueFlag::kPutTTL || t != ttl) { puts("ttl value"); return 1; }
    if (mvcc::Codec::GetValueTTL(o) != ttl) { puts("ttl"); return 1; }
    std::string p; mvcc::Codec::PackageValue(mvcc::ValueFlag::kPut, v, p);
    if (std::string(mvcc::Codec::UnPackageValue(p)) != v) { puts("value"); return 1; }
  }
  return 0;
}
'''
