#pragma once
#include "bthread/mutex.h"
#include "bvar/latency_recorder.h"
#include "butil/time.h"
#include <map>
inline int bthread_usleep(uint64_t us) { return usleep(us); }
inline bthread_t bthread_self() { return (bthread_t)pthread_self(); }
inline int bthread_start_background(bthread_t* t, const bthread_attr_t*, void* (*f)(void*), void* a) { pthread_t p; int r = pthread_create(&p, nullptr, f, a); *t = (bthread_t)p; return r; }
inline int bthread_start_urgent(bthread_t* t, const bthread_attr_t* x, void* (*f)(void*), void* a) { return bthread_start_background(t, x, f, a); }
inline int bthread_join(bthread_t t, void** r) { return pthread_join((pthread_t)t, r); }
inline int bthread_getconcurrency() { return 4; }
inline int bthread_setconcurrency(int) { return 0; }
