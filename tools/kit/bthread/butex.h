#pragma once
#include "bthread/bthread.h"
namespace butil { template <typename T> using atomic = std::atomic<T>; using std::memory_order_acquire; using std::memory_order_release; using std::memory_order_relaxed; using std::memory_order_seq_cst; }
namespace bthread {
template <class T> T* butex_create_checked() { return new T(); }
inline void butex_destroy(int* p) { delete p; }
inline int butex_wake(int*, bool) { return 1; }
inline int butex_wait(int*, int, void*) { usleep(200); errno = EINTR; return -1; }
}
