#pragma once
#include <cstdint>
namespace braft { struct LogId { LogId() = default; LogId(int64_t i, int64_t t) : index(i), term(t) {} int64_t index = 0; int64_t term = 0; };
inline bool operator==(const LogId& a, const LogId& b) { return a.index == b.index && a.term == b.term; } }
