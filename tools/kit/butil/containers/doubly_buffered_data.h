#pragma once
#include <mutex>
#include <cstddef>
namespace butil {
struct Void {};
template <class T, class TLS = Void, bool AllowSuspend = false> class DoublyBufferedData {
 public:
  class ScopedPtr { public: const T* get() const { return p; } const T& operator*() const { return *p; } const T* operator->() const { return p; } const T* p = nullptr; };
  int Read(ScopedPtr* s) { s->p = &d_[fg_]; return 0; }
  template <class F> size_t Modify(F f) { std::lock_guard<std::mutex> g(m_); size_t r = f(d_[!fg_]); if (!r) return 0; fg_ = !fg_; f(d_[!fg_]); return r; }
  template <class F, class A> size_t Modify(F f, const A& a) { return Modify([&](T& t) { return f(t, a); }); }
  template <class F, class A, class B> size_t Modify(F f, const A& a, const B& b) { return Modify([&](T& t) { return f(t, a, b); }); }
  template <class F, class A, class B, class C> size_t Modify(F f, const A& a, const B& b, const C& c) { return Modify([&](T& t) { return f(t, a, b, c); }); }
  template <class F> size_t ModifyWithForeground(F f) { std::lock_guard<std::mutex> g(m_); size_t r = f(d_[!fg_], d_[fg_]); if (!r) return 0; fg_ = !fg_; return r; }
 private: T d_[2]; int fg_ = 0; std::mutex m_;
};
}
