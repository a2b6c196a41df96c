#pragma once
#include <map>
#include <unordered_map>
#include <cstddef>
namespace butil {
template <class K, class V> class FlatMap {
 public:
  typedef std::map<K, V> M; typedef typename M::iterator iterator; typedef typename M::const_iterator const_iterator;
  int init(size_t, unsigned = 80) { return 0; }
  bool initialized() const { return true; }
  V* seek(const K& k) const { auto it = m_.find(k); return it == m_.end() ? nullptr : const_cast<V*>(&it->second); }
  V* insert(const K& k, const V& v) { m_[k] = v; return &m_[k]; }
  V& operator[](const K& k) { return m_[k]; }
  size_t erase(const K& k) { return m_.erase(k); }
  size_t size() const { return m_.size(); }
  bool empty() const { return m_.empty(); }
  void clear() { m_.clear(); }
  void clear_and_reset_pool() { m_.clear(); }
  void swap(FlatMap& o) { m_.swap(o.m_); }
  bool resize(size_t) { return true; }
  iterator begin() { return m_.begin(); } iterator end() { return m_.end(); }
  const_iterator begin() const { return m_.begin(); } const_iterator end() const { return m_.end(); }
 private: M m_;
};
}
