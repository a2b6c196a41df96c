// pthread-backed stand-in for bthread
#pragma once
#include <pthread.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <cstdint>
#include <cstddef>
#include <atomic>
#include <thread>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
typedef uint64_t bthread_t;
struct bthread_attr_t { int x = 0; };
static const bthread_attr_t BTHREAD_ATTR_NORMAL{};
static const bthread_attr_t BTHREAD_ATTR_SMALL{};
static const bthread_attr_t BTHREAD_ATTR_PTHREAD{};
typedef pthread_mutex_t bthread_mutex_t;
typedef pthread_cond_t bthread_cond_t;
struct bthread_mutexattr_t {};
struct bthread_condattr_t {};
