#pragma once
#include <sys/time.h>
#include <time.h>
#include <cstdint>
namespace butil {
inline timespec microseconds_to_timespec(int64_t us) { timespec t; t.tv_sec = us / 1000000; t.tv_nsec = (us % 1000000) * 1000; return t; }
inline timespec microseconds_from_now(int64_t us) { timespec t; clock_gettime(CLOCK_REALTIME, &t); us += t.tv_sec * 1000000LL + t.tv_nsec / 1000; return microseconds_to_timespec(us); }
inline timespec milliseconds_from_now(int64_t ms) { return microseconds_from_now(ms * 1000); }
inline int64_t gettimeofday_us() { timeval t; gettimeofday(&t, nullptr); return t.tv_sec * 1000000LL + t.tv_usec; }
inline int64_t gettimeofday_ms() { return gettimeofday_us() / 1000; }
inline int64_t cpuwide_time_us() { return gettimeofday_us(); }
}
