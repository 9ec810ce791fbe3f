// Stand-in for aocommon::Queue
#pragma once
#include <cstddef>
#include <deque>
#include <utility>
namespace aocommon {
template <typename T>
class Queue {
 public:
  void PushBack(const T& t) { d_.push_back(t); }
  void PushBack(T&& t) { d_.push_back(std::move(t)); }
  template <class... A>
  T& EmplaceBack(A&&... a) { return d_.emplace_back(std::forward<A>(a)...); }
  void PopFront() { d_.pop_front(); }
  bool Empty() const { return d_.empty(); }
  std::size_t Size() const { return d_.size(); }
  void Clear() { d_.clear(); }
  T& operator[](std::size_t i) { return d_.at(i); }
  const T& operator[](std::size_t i) const { return d_.at(i); }
  T& Front() { return d_.front(); }
  T& Back() { return d_.back(); }
  const T& Front() const { return d_.front(); }
  const T& Back() const { return d_.back(); }

 private:
  std::deque<T> d_;
};
}  // namespace aocommon
