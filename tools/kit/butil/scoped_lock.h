#pragma once
#include "bthread/mutex.h"
namespace kit { inline void L(pthread_mutex_t& m) { pthread_mutex_lock(&m); } inline void U(pthread_mutex_t& m) { pthread_mutex_unlock(&m); }
inline void L(std::mutex& m) { m.lock(); } inline void U(std::mutex& m) { m.unlock(); }
template <class M> struct G { M& m; explicit G(M& x) : m(x) { L(m); } ~G() { U(m); } }; }
#define KITCAT2(a, b) a##b
#define KITCAT(a, b) KITCAT2(a, b)
#define BAIDU_SCOPED_LOCK(m) kit::G<std::remove_reference_t<decltype(m)>> KITCAT(kit_guard_, __LINE__)(m)
