#pragma once
#include "bthread/bthread.h"
#include <deque>
#include <condition_variable>
namespace bthread {
template <typename T> struct ExecutionQueueId { uint64_t value = 0; };
struct ExecutionQueueOptions { bool use_pthread = false; bthread_attr_t bthread_attr; };
struct TaskOptions { bool high_priority = false; bool in_place_if_possible = false; };
static const TaskOptions TASK_OPTIONS_NORMAL{}; static const TaskOptions TASK_OPTIONS_URGENT{};
template <typename T> struct EqCore {
  std::mutex m; std::condition_variable cv; std::deque<T> q; bool stop = false; bool done = false; std::thread th;
};
template <typename T> class TaskIterator {
 public:
  TaskIterator(EqCore<T>* c, bool stopped) : c_(c), stopped_(stopped) { next(); }
  bool is_queue_stopped() const { return stopped_; }
  operator bool() const { return has_; }
  T& operator*() { return cur_; }
  T* operator->() { return &cur_; }
  TaskIterator& operator++() { next(); return *this; }
  void operator++(int) { next(); }
 private:
  void next() { std::lock_guard<std::mutex> g(c_->m); has_ = !stopped_ && !c_->q.empty(); if (has_) { cur_ = std::move(c_->q.front()); c_->q.pop_front(); } }
  EqCore<T>* c_; bool stopped_; bool has_ = false; T cur_{};
};
template <typename T> std::map<uint64_t, std::shared_ptr<EqCore<T>>>& EqMap() { static std::map<uint64_t, std::shared_ptr<EqCore<T>>> m; return m; }
inline std::mutex& EqMu() { static std::mutex m; return m; }
template <typename T> int execution_queue_start(ExecutionQueueId<T>* id, const ExecutionQueueOptions*, int (*fn)(void*, TaskIterator<T>&), void* meta) {
  auto c = std::make_shared<EqCore<T>>();
  { std::lock_guard<std::mutex> g(EqMu()); static uint64_t n = 0; id->value = ++n; EqMap<T>()[id->value] = c; }
  c->th = std::thread([c, fn, meta]() {
    for (;;) {
      bool stop;
      { std::unique_lock<std::mutex> g(c->m); c->cv.wait(g, [&] { return c->stop || !c->q.empty(); }); stop = c->q.empty() && c->stop; }
      TaskIterator<T> it(c.get(), stop); fn(meta, it);
      if (stop) break;
    } });
  return 0;
}
template <typename T> std::shared_ptr<EqCore<T>> EqGet(ExecutionQueueId<T> id) { std::lock_guard<std::mutex> g(EqMu()); auto it = EqMap<T>().find(id.value); return it == EqMap<T>().end() ? nullptr : it->second; }
template <typename T> int execution_queue_execute(ExecutionQueueId<T> id, const T& t, const TaskOptions* = nullptr) {
  auto c = EqGet(id); if (!c) return EINVAL; std::lock_guard<std::mutex> g(c->m); if (c->stop) return EINVAL; c->q.push_back(t); c->cv.notify_all(); return 0;
}
template <typename T> int execution_queue_execute(ExecutionQueueId<T> id, T&& t) { T x(std::move(t)); return execution_queue_execute<T>(id, (const T&)x, nullptr); }
template <typename T> int execution_queue_stop(ExecutionQueueId<T> id) { auto c = EqGet(id); if (!c) return EINVAL; std::lock_guard<std::mutex> g(c->m); c->stop = true; c->cv.notify_all(); return 0; }
template <typename T> int execution_queue_join(ExecutionQueueId<T> id) { auto c = EqGet(id); if (!c) return EINVAL; if (c->th.joinable()) c->th.join(); return 0; }
}
