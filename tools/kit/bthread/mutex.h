#pragma once
#include "bthread/types.h"
#include "gflags/gflags.h"
#include "glog/logging.h"
inline int bthread_mutex_init(bthread_mutex_t* m, const bthread_mutexattr_t*) { return pthread_mutex_init(m, nullptr); }
inline int bthread_mutex_destroy(bthread_mutex_t* m) { return pthread_mutex_destroy(m); }
inline int bthread_mutex_lock(bthread_mutex_t* m) { return pthread_mutex_lock(m); }
inline int bthread_mutex_trylock(bthread_mutex_t* m) { return pthread_mutex_trylock(m); }
inline int bthread_mutex_unlock(bthread_mutex_t* m) { return pthread_mutex_unlock(m); }
inline int bthread_cond_init(bthread_cond_t* c, const bthread_condattr_t*) { return pthread_cond_init(c, nullptr); }
inline int bthread_cond_destroy(bthread_cond_t* c) { return pthread_cond_destroy(c); }
inline int bthread_cond_signal(bthread_cond_t* c) { return pthread_cond_signal(c); }
inline int bthread_cond_broadcast(bthread_cond_t* c) { return pthread_cond_broadcast(c); }
inline int bthread_cond_wait(bthread_cond_t* c, bthread_mutex_t* m) { return pthread_cond_wait(c, m); }
inline int bthread_cond_timedwait(bthread_cond_t* c, bthread_mutex_t* m, const timespec* t) { return pthread_cond_timedwait(c, m, t); }
namespace bthread {
class Mutex : public std::mutex {};
class ConditionVariable {};
}
