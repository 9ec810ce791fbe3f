// Stand-in: a vector whose elements are not initialised by resizing; here they
// get a recognisable pattern (see xtensor/mini.hpp).
#pragma once
#include <memory>
#include <vector>
#include <xtensor/mini.hpp>
namespace aocommon {
template <typename T, typename A = std::allocator<T>>
class UVector {
  ::xt::buffer<T> b_;
  std::size_t n_ = 0;

 public:
  using value_type = T;
  using size_type = std::size_t;
  using iterator = T*;
  using const_iterator = const T*;
  using reference = T&;
  UVector() = default;
  explicit UVector(std::size_t n) : b_(n), n_(n) {}
  UVector(std::size_t n, const T& v) : b_(n), n_(n) { std::fill(begin(), end(), v); }
  UVector(std::initializer_list<T> l) : b_(l.size()), n_(l.size()) { std::copy(l.begin(), l.end(), begin()); }
  template <class I, class = typename std::iterator_traits<I>::iterator_category>
  UVector(I a, I e) : b_(std::distance(a, e)), n_(b_.size()) { std::copy(a, e, begin()); }
  UVector(const UVector& o) : b_(o.n_), n_(o.n_) { std::copy(o.begin(), o.end(), begin()); }
  UVector(UVector&& o) noexcept : b_(std::move(o.b_)), n_(o.n_) { o.n_ = 0; }
  UVector& operator=(UVector o) noexcept {
    std::swap(b_, o.b_);
    std::swap(n_, o.n_);
    return *this;
  }
  T* begin() { return b_.begin(); }
  T* end() { return b_.begin() + n_; }
  const T* begin() const { return b_.begin(); }
  const T* end() const { return b_.begin() + n_; }
  const T* cbegin() const { return begin(); }
  const T* cend() const { return end(); }
  T* data() { return b_.data(); }
  const T* data() const { return b_.data(); }
  std::size_t size() const { return n_; }
  std::size_t capacity() const { return b_.size(); }
  bool empty() const { return n_ == 0; }
  T& operator[](std::size_t i) { return b_[i]; }
  const T& operator[](std::size_t i) const { return b_[i]; }
  T& front() { return b_[0]; }
  T& back() { return b_[n_ - 1]; }
  const T& front() const { return b_[0]; }
  const T& back() const { return b_[n_ - 1]; }
  void reserve(std::size_t m) {
    if (m > b_.size()) {
      ::xt::buffer<T> c(m);
      std::copy(begin(), end(), c.begin());
      b_ = std::move(c);
    }
  }
  void resize(std::size_t m) {
    reserve(m);
    n_ = m;
  }
  void resize(std::size_t m, const T& v) {
    std::size_t o = n_;
    resize(m);
    for (; o < m; ++o) b_[o] = v;
  }
  void assign(std::size_t m, const T& v) {
    resize(m);
    std::fill(begin(), end(), v);
  }
  template <class I, class = typename std::iterator_traits<I>::iterator_category>
  void assign(I a, I e) { *this = UVector(a, e); }
  void clear() { n_ = 0; }
  void push_back(const T& v) {
    const T copy = v;
    if (n_ == b_.size()) reserve(n_ ? 2 * n_ : 4);
    b_[n_++] = copy;
  }
  template <class... X>
  void emplace_back(X&&... x) { push_back(T(std::forward<X>(x)...)); }
  void insert_uninitialized(T* at, std::size_t k) {
    const std::size_t o = at - begin();
    resize(n_ + k);
    std::copy_backward(begin() + o, end() - k, end());
  }
  template <class I>
  T* insert(const T* at, I a, I e) {
    const std::size_t o = at - begin(), k = std::distance(a, e);
    std::vector<T> in(a, e);
    resize(n_ + k);
    std::copy_backward(begin() + o, end() - k, end());
    std::copy(in.begin(), in.end(), begin() + o);
    return begin() + o;
  }
  T* insert(const T* at, std::size_t k, const T& v) {
    const std::size_t o = at - begin();
    const T copy = v;
    resize(n_ + k);
    std::copy_backward(begin() + o, end() - k, end());
    std::fill(begin() + o, begin() + o + k, copy);
    return begin() + o;
  }
  T* insert(const T* at, const T& v) { return insert(at, 1, v); }
  bool operator==(const UVector& o) const { return std::equal(begin(), end(), o.begin(), o.end()); }
};
}  // namespace aocommon
