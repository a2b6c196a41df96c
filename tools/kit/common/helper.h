// stand-in for common/helper.h: the few helpers the compiled sources use
#pragma once
#include <sys/time.h>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include "proto/common.pb.h"
namespace dingodb {
struct Helper {
  static int64_t& Skew() { static int64_t s = 0; return s; }
  static int64_t TimestampUs() { timeval t; gettimeofday(&t, nullptr); return t.tv_sec * 1000000LL + t.tv_usec + Skew() * 1000; }
  static int64_t TimestampMs() { return TimestampUs() / 1000; }
  static int64_t Timestamp() { return TimestampUs() / 1000000; }
  static bool IsLE() { uint32_t i = 1; return *(char*)&i == 1; }
  static std::string StringToHex(const std::string& s) { return s; }
  static std::string StringToHex(const std::string_view& s) { return std::string(s); }
  static std::string RangeToString(const pb::common::Range& r) { return r.start_key() + "," + r.end_key(); }
  static std::string PrefixNext(const std::string& input) {
    std::string ret(input.size(), 0); int carry = 1;
    for (int i = input.size() - 1; i >= 0; --i) { if ((uint8_t)input[i] == 0xFF && carry) { ret[i] = 0; } else { ret[i] = (uint8_t)input[i] + carry; carry = 0; } }
    return (carry == 0) ? ret : input;
  }
};
}  // namespace dingodb
