prop='S05'
edits=[('src/scan/scan_filter.cc','''  cur_bytes_rpc_ += kv.key().size();
  if (!key_only_) {
    cur_bytes_rpc_ += kv.value().size();
  }
''','''  if (!key_only_) {
    cur_bytes_rpc_ += kv.key().size() + kv.value().size();
  }
''')]
needs='a key-only scan whose keys alone reach the byte limit before the count limit'
what='a key-only page has no byte limit any more and grows to the item limit'
srcs=['src/scan/scan_filter.cc']
protos=['common']
kit=['butil']
demo='''
#include "scan/scan_filter.h"
#include <cstdio>
using namespace dingodb;
int main() {
  for (bool key_only : {false, true}) for (size_t cnt : {1ul, 3ul, 50ul}) for (int64_t bytes : {1, 10, 64, 1000}) {
    ScanFilter f(key_only, cnt, bytes);
    pb::common::KeyValue kv; kv.set_key(std::string(8, 'k')); kv.set_value(std::string(8, 'v'));
    int64_t per = key_only ? 8 : 16; size_t n = 1;
    while (!f.UptoLimit(kv) && n < 10000) ++n;
    size_t want = std::min<size_t>(cnt, (bytes + per - 1) / per);
    if (n != want) { printf("key_only %d cnt %zu bytes %ld: page of %zu, want %zu\\n", key_only, cnt, (long)bytes, n, want); return 1; }
  }
  return 0;
}
'''
