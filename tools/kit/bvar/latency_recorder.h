#pragma once
#include <atomic>
#include <string>
#include <cstdint>
namespace bvar {
struct LatencyRecorder { LatencyRecorder() {} explicit LatencyRecorder(const std::string&) {} LatencyRecorder(const std::string&, const std::string&) {} LatencyRecorder& operator<<(int64_t) { return *this; } };
template <class T> struct Adder { Adder() {} explicit Adder(const std::string&) {} Adder(const std::string&, const std::string&) {} Adder& operator<<(T v) { v_ += v; return *this; } T get_value() const { return v_; } std::atomic<T> v_{0}; };
template <class T> struct Status { Status(const std::string&, T v) : v_(v) {} Status() {} void set_value(T v) { v_ = v; } T get_value() const { return v_; } T v_{}; };
template <class T> struct Maxer { Maxer& operator<<(T) { return *this; } };
template <class T> struct Window { template <class... A> Window(A...) {} };
}
