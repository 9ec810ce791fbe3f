// Stand-in for aocommon's lane: a bounded blocking queue.
#pragma once
#include <condition_variable>
#include <cstddef>
#include <deque>
#include <initializer_list>
#include <mutex>
#include <vector>
namespace aocommon {
template <typename Tp>
class Lane {
 public:
  using size_type = std::size_t;
  using value_type = Tp;
  Lane() : cap_(0) {}
  explicit Lane(std::size_t n) : cap_(n) {}
  Lane(const Lane&) = delete;
  Lane& operator=(const Lane&) = delete;
  void clear() {
    std::lock_guard<std::mutex> l(m_);
    q_.clear();
    end_ = false;
    cv_.notify_all();
  }
  void write(const Tp& v) { emplace(v); }
  void write(Tp&& v) { emplace(std::move(v)); }
  template <typename... A>
  void emplace(A&&... a) {
    std::unique_lock<std::mutex> l(m_);
    if (end_) return;
    cv_.wait(l, [&] { return q_.size() < cap_; });
    q_.emplace_back(std::forward<A>(a)...);
    cv_.notify_all();
  }
  void write(const Tp* p, std::size_t n) {
    for (std::size_t i = 0; i != n; ++i) emplace(p[i]);
  }
  void move_write(Tp* p, std::size_t n) {
    for (std::size_t i = 0; i != n; ++i) emplace(std::move(p[i]));
  }
  bool read(Tp& d) {
    std::unique_lock<std::mutex> l(m_);
    cv_.wait(l, [&] { return !q_.empty() || end_; });
    if (q_.empty()) return false;
    d = std::move(q_.front());
    q_.pop_front();
    cv_.notify_all();
    return true;
  }
  std::size_t read(Tp* d, std::size_t n) {
    std::size_t k = 0;
    while (k != n && read(d[k])) ++k;
    return k;
  }
  void write_end() {
    std::lock_guard<std::mutex> l(m_);
    end_ = true;
    cv_.notify_all();
  }
  std::size_t capacity() const { return cap_; }
  std::size_t size() const {
    std::lock_guard<std::mutex> l(m_);
    return q_.size();
  }
  bool empty() const { return size() == 0; }
  bool is_end() const { return end_; }
  bool is_end_and_empty() const {
    std::lock_guard<std::mutex> l(m_);
    return end_ && q_.empty();
  }
  void resize(std::size_t n) {
    std::lock_guard<std::mutex> l(m_);
    q_.clear();
    cap_ = n;
    end_ = false;
  }
  void wait_for_empty() {
    std::unique_lock<std::mutex> l(m_);
    cv_.wait(l, [&] { return q_.empty(); });
  }
  void swap(Lane& o) {
    std::swap(q_, o.q_);
    std::swap(cap_, o.cap_);
    std::swap(end_, o.end_);
  }

 private:
  std::deque<Tp> q_;
  std::size_t cap_;
  bool end_ = false;
  mutable std::mutex m_;
  std::condition_variable cv_;
};
}  // namespace aocommon
