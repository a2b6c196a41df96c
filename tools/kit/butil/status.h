#pragma once
#include <cstdarg>
#include <cstdio>
#include <ostream>
#include <string>
namespace butil {
class Status {
 public:
  Status() = default;
  Status(int c, const char* f, ...) : code_(c) { va_list a; va_start(a, f); fmt(f, a); va_end(a); }
  Status(int c, const std::string& m) : code_(c), msg_(m) {}
  static Status OK() { return Status(); }
  bool ok() const { return code_ == 0; }
  int error_code() const { return code_; }
  const char* error_cstr() const { return code_ == 0 ? "OK" : msg_.c_str(); }
  std::string error_str() const { return error_cstr(); }
  void reset() { code_ = 0; msg_.clear(); }
  int set_error(int c, const char* f, ...) { code_ = c; va_list a; va_start(a, f); fmt(f, a); va_end(a); return 0; }
  int set_error(int c, const std::string& m) { code_ = c; msg_ = m; return 0; }
 private:
  void fmt(const char* f, va_list a) { char b[4096]; vsnprintf(b, sizeof b, f, a); msg_ = b; }
  int code_ = 0; std::string msg_;
};
inline std::ostream& operator<<(std::ostream& o, const Status& s) { return o << s.error_cstr(); }
}
