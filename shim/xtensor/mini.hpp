// A small stand-in for the part of xtensor that DP3 uses. Row-major, evaluates
// every expression eagerly (same values as the lazy originals). Storage that
// xtensor leaves uninitialised is filled with a recognisable pattern here.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <ostream>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace xt {

enum class layout_type { row_major, column_major, dynamic, any };
using index_t = std::ptrdiff_t;
template <class T>
using svector = std::vector<T>;
template <class T>
using dynamic_shape = std::vector<T>;
using xindex = std::vector<std::size_t>;

struct expr_tag {};
template <class E>
inline constexpr bool is_expr = std::is_base_of_v<expr_tag, std::decay_t<E>>;
template <class D>
struct xexpression {};

template <class T>
struct is_complex_t : std::false_type {};
template <class T>
struct is_complex_t<std::complex<T>> : std::true_type {};
template <class T>
inline constexpr bool is_scalar =
    std::is_arithmetic_v<std::decay_t<T>> || is_complex_t<std::decay_t<T>>::value;

template <class T>
T poison() {
  if constexpr (std::is_same_v<T, bool>)
    return true;
  else if constexpr (std::is_floating_point_v<T>)
    return std::numeric_limits<T>::quiet_NaN();
  else if constexpr (is_complex_t<T>::value)
    return T(0);  // not trivially constructible: xtensor does set these
  else if constexpr (std::is_integral_v<T>)
    return T(0x5a);
  else
    return T();
}

// ------------------------------------------------------------ indexing
template <class T>
struct step_iterator {
  using value_type = std::remove_const_t<T>;
  using reference = T&;
  using pointer = T*;
  using difference_type = std::ptrdiff_t;
  using iterator_category = std::random_access_iterator_tag;
  T* base = nullptr;
  const std::size_t* shape = nullptr;
  const index_t* strides = nullptr;
  std::size_t dim = 0;
  std::shared_ptr<std::vector<index_t>> keep;
  std::shared_ptr<std::vector<std::size_t>> keepshape;
  std::size_t pos = 0;
  T& at(std::size_t p) const {
    index_t off = 0;
    for (std::size_t d = dim; d-- > 0;) {
      off += index_t(p % shape[d]) * strides[d];
      p /= shape[d];
    }
    return base[off];
  }
  T& operator*() const { return at(pos); }
  T* operator->() const { return &at(pos); }
  T& operator[](difference_type n) const { return at(pos + n); }
  step_iterator& operator++() { ++pos; return *this; }
  step_iterator operator++(int) { auto r = *this; ++pos; return r; }
  step_iterator& operator--() { --pos; return *this; }
  step_iterator& operator+=(difference_type n) { pos += n; return *this; }
  step_iterator& operator-=(difference_type n) { pos -= n; return *this; }
  step_iterator operator+(difference_type n) const { auto r = *this; r.pos += n; return r; }
  step_iterator operator-(difference_type n) const { auto r = *this; r.pos -= n; return r; }
  difference_type operator-(const step_iterator& o) const { return difference_type(pos) - difference_type(o.pos); }
  bool operator==(const step_iterator& o) const { return pos == o.pos; }
  bool operator!=(const step_iterator& o) const { return pos != o.pos; }
  bool operator<(const step_iterator& o) const { return pos < o.pos; }
};

template <class T>
class xarray;
template <class T, std::size_t N>
class xtensor;

// A non-owning strided window. Also used as the operand of every operation.
template <class T>
class xview : public expr_tag {
 public:
  using value_type = std::remove_const_t<T>;
  using shape_type = std::vector<std::size_t>;
  using size_type = std::size_t;
  using reference = T&;
  using const_reference = const T&;
  using iterator = step_iterator<T>;
  using const_iterator = step_iterator<T>;
  xview(T* p, std::vector<std::size_t> shape, std::vector<index_t> strides,
        std::shared_ptr<void> owner = nullptr)
      : p_(p), shape_(std::move(shape)), strides_(std::move(strides)), owner_(std::move(owner)) {}
  xview(T* p, std::vector<std::size_t> shape, std::shared_ptr<void> owner = nullptr)
      : p_(p), shape_(std::move(shape)), owner_(std::move(owner)) {
    strides_.resize(shape_.size());
    index_t s = 1;
    for (std::size_t d = shape_.size(); d-- > 0;) {
      strides_[d] = s;
      s *= shape_[d];
    }
  }
  xview(const xview&) = default;
  const std::vector<std::size_t>& shape() const { return shape_; }
  std::size_t shape(std::size_t d) const { return shape_[d]; }
  const std::vector<index_t>& strides() const { return strides_; }
  std::size_t dimension() const { return shape_.size(); }
  std::size_t size() const {
    std::size_t n = 1;
    for (std::size_t s : shape_) n *= s;
    return n;
  }
  T* data() const { return p_; }
  template <class... I>
  T& operator()(I... i) const {
    const index_t idx[] = {index_t(i)..., 0};
    return at_index(idx, sizeof...(I));
  }
  template <class S, std::enable_if_t<std::is_integral_v<S>, int> = 0>
  T& operator[](S i) const {
    const index_t idx[] = {index_t(i)};
    return at_index(idx, 1);
  }
  T& operator[](const std::vector<std::size_t>& v) const {
    std::vector<index_t> i(v.begin(), v.end());
    return at_index(i.data(), i.size());
  }
  template <class... I>
  T& at(I... i) const {
    return (*this)(i...);
  }
  T& flat(std::size_t i) const { return begin()[i]; }
  const T& front() const { return *begin(); }
  iterator begin() const {
    iterator it;
    it.keepshape = std::make_shared<std::vector<std::size_t>>(shape_);
    it.keep = std::make_shared<std::vector<index_t>>(strides_);
    it.base = p_;
    it.shape = it.keepshape->data();
    it.strides = it.keep->data();
    it.dim = shape_.size();
    return it;
  }
  iterator end() const { return begin() + size(); }
  iterator cbegin() const { return begin(); }
  iterator cend() const { return end(); }
  void fill(const value_type& v) const {
    const std::size_t n = size();
    auto it = begin();
    for (std::size_t i = 0; i != n; ++i, ++it) *it = v;
  }
  template <class E>
  void assign_from(const E& e) const;
  xview& operator=(const xview& o) {
    assign_from(o);
    return *this;
  }
  template <class E>
  xview& operator=(const E& e) {
    assign_from(e);
    return *this;
  }
  template <class E> xview& operator+=(const E& e);
  template <class E> xview& operator-=(const E& e);
  template <class E> xview& operator*=(const E& e);
  template <class E> xview& operator/=(const E& e);
  template <class E> xview& operator|=(const E& e);
  template <class E> xview& operator&=(const E& e);

  // numpy broadcasting to a larger shape
  xview broadcast(const std::vector<std::size_t>& to) const {
    if (shape_.size() > to.size()) throw std::runtime_error("xt: cannot broadcast");
    std::vector<index_t> st(to.size(), 0);
    const std::size_t o = to.size() - shape_.size();
    for (std::size_t d = 0; d != shape_.size(); ++d) {
      if (shape_[d] == to[o + d])
        st[o + d] = strides_[d];
      else if (shape_[d] != 1)
        throw std::runtime_error("xt: incompatible dimensions of arrays");
    }
    return xview(p_, to, st, owner_);
  }
  const std::shared_ptr<void>& owner() const { return owner_; }

 private:
  T& at_index(const index_t* idx, std::size_t n) const {
    // as in xtensor: missing leading indices are zero, surplus leading ignored
    const std::size_t d = shape_.size();
    index_t off = 0;
    for (std::size_t k = 0; k < std::min(n, d); ++k) {
      const index_t i = idx[n - 1 - k];
      const std::size_t dd = d - 1 - k;
      if (i < 0 || std::size_t(i) >= shape_[dd]) {
        if (!(shape_[dd] == 1)) throw std::out_of_range("xt: index out of bounds");
      }
      off += (shape_[dd] == 1 ? 0 : i) * strides_[dd];
    }
    return p_[off];
  }
  T* p_;
  std::vector<std::size_t> shape_;
  std::vector<index_t> strides_;
  std::shared_ptr<void> owner_;
};

inline std::vector<std::size_t> common_shape(const std::vector<std::size_t>& a,
                                             const std::vector<std::size_t>& b) {
  const std::size_t n = std::max(a.size(), b.size());
  std::vector<std::size_t> r(n);
  for (std::size_t k = 0; k != n; ++k) {
    const std::size_t x = k < a.size() ? a[a.size() - 1 - k] : 1;
    const std::size_t y = k < b.size() ? b[b.size() - 1 - k] : 1;
    if (x != y && x != 1 && y != 1) throw std::runtime_error("xt: incompatible dimensions of arrays");
    r[n - 1 - k] = x == 1 ? y : x;
  }
  return r;
}

template <class T>
xview<T> as_view(const xview<T>& v) {
  return v;
}

// --------------------------------------------------------- containers
template <class T>
struct buffer {
  std::size_t n = 0;
  std::unique_ptr<T[]> p;
  buffer() = default;
  explicit buffer(std::size_t m) : n(m), p(m ? new T[m] : nullptr) {
    for (std::size_t i = 0; i != n; ++i) p[i] = poison<T>();
  }
  buffer(const buffer& o) : n(o.n), p(o.n ? new T[o.n] : nullptr) { std::copy(o.p.get(), o.p.get() + n, p.get()); }
  buffer(buffer&& o) noexcept : n(o.n), p(std::move(o.p)) { o.n = 0; }
  buffer& operator=(buffer o) noexcept {
    std::swap(n, o.n);
    std::swap(p, o.p);
    return *this;
  }
  std::size_t size() const { return n; }
  T* data() const { return p.get(); }
  T* begin() const { return p.get(); }
  T* end() const { return p.get() + n; }
  T& operator[](std::size_t i) const { return p[i]; }
};

template <class Shape>
std::size_t count(const Shape& s) {
  std::size_t n = 1;
  for (auto x : s) n *= std::size_t(x);
  return n;
}

template <class Derived, class T, class Shape>
class xcontainer : public expr_tag {
 public:
  using value_type = T;
  using shape_type = Shape;
  using inner_shape_type = Shape;
  using size_type = std::size_t;
  using reference = T&;
  using const_reference = const T&;
  using iterator = T*;
  using const_iterator = const T*;
  using storage_type = buffer<T>;
  static constexpr layout_type static_layout = layout_type::row_major;
  const Shape& shape() const { return shape_; }
  std::size_t shape(std::size_t d) const { return shape_[d]; }
  std::size_t dimension() const { return shape_.size(); }
  std::size_t size() const { return buf_.size(); }
  std::vector<index_t> strides() const { return view_().strides(); }
  T* data() { return buf_.data(); }
  const T* data() const { return buf_.data(); }
  T* begin() { return buf_.begin(); }
  T* end() { return buf_.end(); }
  const T* begin() const { return buf_.begin(); }
  const T* end() const { return buf_.end(); }
  const T* cbegin() const { return buf_.begin(); }
  const T* cend() const { return buf_.end(); }
  auto rbegin() { return std::reverse_iterator<T*>(end()); }
  auto rend() { return std::reverse_iterator<T*>(begin()); }
  T& front() { return *begin(); }
  const T& front() const { return *begin(); }
  T& back() { return *(end() - 1); }
  const T& back() const { return *(end() - 1); }
  buffer<T>& storage() { return buf_; }
  const buffer<T>& storage() const { return buf_; }
  T& flat(std::size_t i) { return buf_[i]; }
  const T& flat(std::size_t i) const { return buf_[i]; }
  template <class... I>
  T& operator()(I... i) {
    return buf_[offset(i...)];
  }
  template <class... I>
  const T& operator()(I... i) const {
    return buf_[offset(i...)];
  }
  template <class... I>
  T& unchecked(I... i) {
    return buf_[offset(i...)];
  }
  template <class... I>
  const T& unchecked(I... i) const {
    return buf_[offset(i...)];
  }
  template <class... I>
  T& at(I... i) {
    return buf_[offset(i...)];
  }
  template <class... I>
  const T& at(I... i) const {
    return buf_[offset(i...)];
  }
  template <class S, std::enable_if_t<std::is_integral_v<S>, int> = 0>
  T& operator[](S i) {
    return buf_[offset(i)];
  }
  template <class S, std::enable_if_t<std::is_integral_v<S>, int> = 0>
  const T& operator[](S i) const {
    return buf_[offset(i)];
  }
  template <class S, class = decltype(std::declval<const S&>().begin()), std::enable_if_t<!std::is_integral_v<S>, int> = 0>
  T& operator[](const S& idx) {
    return buf_[offset_of(idx)];
  }
  template <class S, class = decltype(std::declval<const S&>().begin()), std::enable_if_t<!std::is_integral_v<S>, int> = 0>
  const T& operator[](const S& idx) const {
    return buf_[offset_of(idx)];
  }
  T& operator[](std::initializer_list<std::size_t> idx) { return buf_[offset_of(idx)]; }
  void fill(const T& v) { std::fill(begin(), end(), v); }
  template <class S>
  void resize(const S& s, bool force = false) {
    set_shape(s);
  }
  void resize(std::initializer_list<std::size_t> s) { set_shape(s); }
  template <class S>
  Derived& reshape(const S& s) {
    if (count(s) != size()) throw std::runtime_error("xt: reshape changes the size");
    copy_shape(s);
    return self();
  }
  Derived& reshape(std::initializer_list<std::size_t> s) { return reshape(std::vector<std::size_t>(s)); }
  template <class E> Derived& operator+=(const E& e) { view_() += e; return self(); }
  template <class E> Derived& operator-=(const E& e) { view_() -= e; return self(); }
  template <class E> Derived& operator*=(const E& e) { view_() *= e; return self(); }
  template <class E> Derived& operator/=(const E& e) { view_() /= e; return self(); }
  template <class E> Derived& operator|=(const E& e) { view_() |= e; return self(); }
  template <class E> Derived& operator&=(const E& e) { view_() &= e; return self(); }
  xview<T> view_() { return xview<T>(buf_.data(), vec_shape()); }
  xview<const T> view_() const { return xview<const T>(buf_.data(), vec_shape()); }
  xview<T> evview_() const { return xview<T>(buf_.data(), vec_shape()); }

 protected:
  Derived& self() { return static_cast<Derived&>(*this); }
  std::vector<std::size_t> vec_shape() const { return std::vector<std::size_t>(shape_.begin(), shape_.end()); }
  template <class S>
  void copy_shape(const S& s) {
    if constexpr (std::is_same_v<Shape, std::vector<std::size_t>>) {
      shape_.clear();
      for (auto x : s) shape_.push_back(std::size_t(x));
    } else {
      if (std::size_t(std::distance(s.begin(), s.end())) != shape_.size())
        throw std::runtime_error("xt: wrong number of dimensions");
      std::copy(s.begin(), s.end(), shape_.begin());
    }
  }
  template <class S>
  void set_shape(const S& s) {
    Shape old = shape_;
    copy_shape(s);
    if (count(shape_) != buf_.size()) buf_ = buffer<T>(count(shape_));
  }
  template <class... I>
  std::size_t offset(I... i) const {
    const index_t idx[] = {index_t(i)..., 0};
    constexpr std::size_t n = sizeof...(I);
    std::size_t off = 0, stride = 1;
    const std::size_t d = shape_.size();
    if constexpr (n == 1) {
      // one index into several dimensions runs on, as it does in xtensor
      if (d > 1) {
        if (idx[0] < 0 || std::size_t(idx[0]) >= size()) throw std::out_of_range("xt: index out of bounds");
        return std::size_t(idx[0]);
      }
    }
    for (std::size_t k = 0; k != d; ++k) {
      const std::size_t dd = d - 1 - k;
      if (k < n) {
        index_t v = idx[n - 1 - k];
        if (shape_[dd] == 1 && n > 1) v = v;  // kept: out of range is an error
        if (v < 0 || std::size_t(v) >= shape_[dd]) {
          // fall through to the address sanitizer's bounds when possible
          throw std::out_of_range("xt: index out of bounds");
        }
        off += std::size_t(v) * stride;
      }
      stride *= shape_[dd];
    }
    return off;
  }
  template <class S>
  std::size_t offset_of(const S& s) const {
    std::size_t off = 0, d = 0;
    for (auto x : s) off = off * shape_[d++] + std::size_t(x);
    if (off >= size()) throw std::out_of_range("xt: index out of bounds");
    return off;
  }
  Shape shape_{};
  buffer<T> buf_;
};

template <class D, class T, class S>
xview<const T> as_view(const xcontainer<D, T, S>& c) {
  return c.view_();
}
template <class D, class T, class S>
xview<T> mut_view(xcontainer<D, T, S>& c) {
  return c.view_();
}
template <class T>
xview<T> mut_view(const xview<T>& v) {
  return v;
}

template <class T, class E>
void copy_into(T* out, const std::vector<std::size_t>& shape, const E& e) {
  auto v = as_view(e).broadcast(shape);
  std::size_t n = count(shape);
  auto it = v.begin();
  for (std::size_t i = 0; i != n; ++i, ++it) out[i] = static_cast<T>(*it);
}

template <class T>
class xarray : public xcontainer<xarray<T>, T, std::vector<std::size_t>> {
  using base = xcontainer<xarray<T>, T, std::vector<std::size_t>>;

 public:
  xarray() { this->buf_ = buffer<T>(1); }
  explicit xarray(const std::vector<std::size_t>& s) { this->set_shape(s); }
  xarray(const std::vector<std::size_t>& s, const T& v) {
    this->set_shape(s);
    this->fill(v);
  }
  template <class U, std::enable_if_t<is_scalar<U>, int> = 0>
  xarray(const U& v) {
    this->buf_ = buffer<T>(1);
    this->buf_[0] = T(v);
  }
  xarray(std::initializer_list<T> l) {
    this->set_shape(std::vector<std::size_t>{l.size()});
    std::copy(l.begin(), l.end(), this->begin());
  }
  xarray(std::initializer_list<std::initializer_list<T>> l) {
    this->set_shape(std::vector<std::size_t>{l.size(), l.begin()->size()});
    T* p = this->begin();
    for (auto& r : l) p = std::copy(r.begin(), r.end(), p);
  }
  xarray(const xarray&) = default;
  xarray(xarray&&) = default;
  xarray& operator=(const xarray&) = default;
  xarray& operator=(xarray&&) = default;
  template <class E, std::enable_if_t<is_expr<E> && !std::is_same_v<std::decay_t<E>, xarray>, int> = 0>
  xarray(const E& e) {
    auto v = as_view(e);
    this->set_shape(v.shape());
    copy_into(this->data(), v.shape(), v);
  }
  template <class E, std::enable_if_t<is_expr<E> && !std::is_same_v<std::decay_t<E>, xarray>, int> = 0>
  xarray& operator=(const E& e) {
    return *this = xarray(e);
  }
  static xarray from_shape(const std::vector<std::size_t>& s) { return xarray(s); }
};

namespace detail {
template <class T, std::size_t N>
struct nested {
  using type = std::initializer_list<typename nested<T, N - 1>::type>;
};
template <class T>
struct nested<T, 0> {
  using type = T;
};
template <std::size_t N, class L, class Shape>
void nested_shape(const L& l, Shape& s, std::size_t d) {
  s[d] = l.size();
  if constexpr (N > 1) nested_shape<N - 1>(*l.begin(), s, d + 1);
}
template <std::size_t N, class L, class T>
void nested_copy(const L& l, T*& p) {
  for (const auto& x : l) {
    if constexpr (N > 1)
      nested_copy<N - 1>(x, p);
    else
      *p++ = x;
  }
}
}  // namespace detail

template <class T, std::size_t N>
class xtensor : public xcontainer<xtensor<T, N>, T, std::array<std::size_t, N>> {
  using base = xcontainer<xtensor<T, N>, T, std::array<std::size_t, N>>;

 public:
  static constexpr std::size_t rank = N;
  xtensor() {
    // as in xtensor: a default tensor has zero extents and one element for N=0
    if constexpr (N == 0) this->buf_ = buffer<T>(1);
  }
  explicit xtensor(const std::array<std::size_t, N>& s, layout_type = layout_type::row_major) { this->set_shape(s); }
  xtensor(const std::array<std::size_t, N>& s, const T& v) {
    this->set_shape(s);
    this->fill(v);
  }
  xtensor(typename detail::nested<T, N>::type l) {
    if constexpr (N > 0) {
      std::array<std::size_t, N> s{};
      detail::nested_shape<N>(l, s, 0);
      this->set_shape(s);
      T* p = this->begin();
      detail::nested_copy<N>(l, p);
    }
  }
  xtensor(const xtensor&) = default;
  xtensor(xtensor&& o) noexcept { swap_(o); }
  xtensor& operator=(const xtensor&) = default;
  xtensor& operator=(xtensor&& o) noexcept {
    xtensor t(std::move(o));
    swap_(t);
    return *this;
  }
  template <class E, std::enable_if_t<is_expr<E> && !std::is_same_v<std::decay_t<E>, xtensor>, int> = 0>
  xtensor(const E& e) {
    auto v = as_view(e);
    this->set_shape(v.shape());
    copy_into(this->data(), v.shape(), v);
  }
  template <class E, std::enable_if_t<is_expr<E> && !std::is_same_v<std::decay_t<E>, xtensor>, int> = 0>
  xtensor& operator=(const E& e) {
    return *this = xtensor(e);
  }
  template <class S>
  static xtensor from_shape(const S& s) {
    xtensor t;
    t.resize(s);
    return t;
  }

 private:
  void swap_(xtensor& o) {
    std::swap(this->shape_, o.shape_);
    std::swap(this->buf_, o.buf_);
  }
};

// ------------------------------------------------------- view operations
template <class T>
template <class E>
void xview<T>::assign_from(const E& e) const {
  if constexpr (is_expr<E>) {
    xarray<value_type> tmp(e);
    auto v = as_view(tmp).broadcast(shape_);
    auto in = v.begin();
    auto out = begin();
    const std::size_t n = size();
    for (std::size_t i = 0; i != n; ++i, ++in, ++out) *out = *in;
  } else {
    fill(static_cast<value_type>(e));
  }
}
#define XT_INPLACE(op)                                             \
  template <class T>                                               \
  template <class E>                                               \
  xview<T>& xview<T>::operator op##=(const E & e) {                \
    const std::size_t n = size();                                  \
    auto out = begin();                                            \
    if constexpr (is_expr<E>) {                                    \
      auto src = as_view(e);                                       \
      xarray<typename decltype(src)::value_type> tmp(src);         \
      auto v = as_view(tmp).broadcast(shape_);                     \
      auto in = v.begin();                                         \
      for (std::size_t i = 0; i != n; ++i, ++in, ++out)            \
        *out = static_cast<value_type>(*out op * in);              \
    } else {                                                       \
      for (std::size_t i = 0; i != n; ++i, ++out)                  \
        *out = static_cast<value_type>(*out op e);                 \
    }                                                              \
    return *this;                                                  \
  }
XT_INPLACE(+) XT_INPLACE(-) XT_INPLACE(*) XT_INPLACE(/) XT_INPLACE(|) XT_INPLACE(&)
#undef XT_INPLACE

// ------------------------------------------------------- elementwise
template <class F, class A>
auto apply1(F f, const A& a) {
  auto v = as_view(a);
  using R = std::decay_t<decltype(f(*v.begin()))>;
  xarray<R> r(v.shape());
  auto it = v.begin();
  for (R& x : r) {
    x = f(*it);
    ++it;
  }
  return r;
}
template <class A>
auto operand(const A& a) {
  if constexpr (is_expr<A>) {
    return as_view(a);
  } else {
    auto o = std::make_shared<A>(a);
    return xview<const A>(o.get(), std::vector<std::size_t>{}, o);
  }
}
template <class F, class A, class B>
auto apply2(F f, const A& a, const B& b) {
  auto va = operand(a);
  auto vb = operand(b);
  const auto s = common_shape(va.shape(), vb.shape());
  auto wa = va.broadcast(s);
  auto wb = vb.broadcast(s);
  using R = std::decay_t<decltype(f(*wa.begin(), *wb.begin()))>;
  xarray<R> r(s);
  auto ia = wa.begin();
  auto ib = wb.begin();
  for (R& x : r) {
    x = f(*ia, *ib);
    ++ia;
    ++ib;
  }
  return r;
}
// arithmetic between mixed (complex) types as in xtensor
template <class A, class B>
struct common_num {
  using type = std::common_type_t<A, B>;
};
template <class A, class B>
struct common_num<std::complex<A>, B> {
  using type = std::complex<std::conditional_t<is_complex_t<B>::value, A, std::common_type_t<A, B>>>;
};
template <class A, class B>
struct common_num<A, std::complex<B>> {
  using type = std::complex<std::common_type_t<A, B>>;
};
template <class A, class B>
struct common_num<std::complex<A>, std::complex<B>> {
  using type = std::complex<std::common_type_t<A, B>>;
};
template <class X, class R>
auto widen(const X& x) {
  if constexpr (is_complex_t<X>::value || !is_complex_t<R>::value)
    return static_cast<R>(x);
  else
    return static_cast<typename R::value_type>(x);  // keep real operands real
}
#define XT_BINARY(op)                                                                                        \
  template <class A, class B,                                                                                \
            std::enable_if_t<(is_expr<A> && (is_expr<B> || is_scalar<B>)) || (is_scalar<A> && is_expr<B>), int> = 0> \
  auto operator op(const A& a, const B& b) {                                                                 \
    return apply2(                                                                                           \
        [](const auto& x, const auto& y) {                                                                   \
          using R = typename common_num<std::decay_t<decltype(x)>, std::decay_t<decltype(y)>>::type;         \
          return R(widen<std::decay_t<decltype(x)>, R>(x) op widen<std::decay_t<decltype(y)>, R>(y));        \
        },                                                                                                   \
        a, b);                                                                                               \
  }
XT_BINARY(+) XT_BINARY(-) XT_BINARY(*) XT_BINARY(/)
#undef XT_BINARY
#define XT_BOOL(op)                                                                                          \
  template <class A, class B,                                                                                \
            std::enable_if_t<(is_expr<A> && (is_expr<B> || is_scalar<B>)) || (is_scalar<A> && is_expr<B>), int> = 0> \
  auto operator op(const A& a, const B& b) {                                                                 \
    return apply2([](const auto& x, const auto& y) { return x op y; }, a, b);                                \
  }
XT_BOOL(&&) XT_BOOL(||) XT_BOOL(<) XT_BOOL(>) XT_BOOL(<=) XT_BOOL(>=)
#undef XT_BOOL
#define XT_BITS(op)                                                                                          \
  template <class A, class B, std::enable_if_t<is_expr<A> && is_expr<B>, int> = 0>                           \
  auto operator op(const A& a, const B& b) {                                                                 \
    return apply2([](auto x, auto y) {                                                                       \
      using R = std::conditional_t<std::is_same_v<decltype(x), bool> && std::is_same_v<decltype(y), bool>, bool, decltype(x op y)>; \
      return R(x op y); }, a, b);                                                                            \
  }
XT_BITS(|) XT_BITS(&) XT_BITS(^)
#undef XT_BITS
template <class A, std::enable_if_t<is_expr<A>, int> = 0>
auto operator!(const A& a) {
  return apply1([](const auto& x) { return !x; }, a);
}
template <class A, std::enable_if_t<is_expr<A>, int> = 0>
auto operator-(const A& a) {
  return apply1([](const auto& x) { return -x; }, a);
}
template <class A, std::enable_if_t<is_expr<A>, int> = 0>
auto operator~(const A& a) {
  return apply1([](const auto& x) { return ~x; }, a);
}
template <class A, class B>
auto equal(const A& a, const B& b) {
  return apply2([](const auto& x, const auto& y) { return bool(x == y); }, a, b);
}
template <class A, class B>
auto not_equal(const A& a, const B& b) {
  return apply2([](const auto& x, const auto& y) { return bool(x != y); }, a, b);
}
// whole comparison
template <class A, class B, std::enable_if_t<is_expr<A> && is_expr<B>, int> = 0>
bool operator==(const A& a, const B& b) {
  auto va = as_view(a);
  auto vb = as_view(b);
  if (va.shape() != vb.shape()) return false;
  return std::equal(va.begin(), va.end(), vb.begin());
}
template <class A, class B, std::enable_if_t<is_expr<A> && is_expr<B>, int> = 0>
bool operator!=(const A& a, const B& b) {
  return !(a == b);
}
#define XT_FUN(name, expr)                                                     \
  template <class A, std::enable_if_t<is_expr<A>, int> = 0>                    \
  auto name(const A& a) {                                                      \
    return apply1([](const auto& x) { return expr; }, a);                      \
  }
template <class T>
bool finite_(const T& x) {
  if constexpr (is_complex_t<T>::value)
    return std::isfinite(x.real()) && std::isfinite(x.imag());
  else
    return std::isfinite(x);
}
template <class T>
bool nan_(const T& x) {
  if constexpr (is_complex_t<T>::value)
    return std::isnan(x.real()) || std::isnan(x.imag());
  else
    return std::isnan(x);
}
template <class T>
T conj_(const T& x) {
  if constexpr (is_complex_t<T>::value)
    return std::conj(x);
  else
    return x;
}
XT_FUN(conj, conj_(x))
XT_FUN(real, std::real(x))
XT_FUN(imag, std::imag(x))
// parts of a complex expression that can be assigned
template <class A>
auto part_(A& a, std::size_t k) {
  auto v = as_view(a);
  using C = typename decltype(v)::value_type;
  using T = typename C::value_type;
  std::vector<index_t> s = v.strides();
  for (auto& x : s) x *= 2;
  return xview<T>(const_cast<T*>(reinterpret_cast<const T*>(v.data())) + k, std::vector<std::size_t>(v.shape().begin(), v.shape().end()), s);
}
template <class A, std::enable_if_t<is_expr<A> && !std::is_const_v<A> && is_complex_t<typename A::value_type>::value, int> = 0>
auto real(A& a) {
  return part_(a, 0);
}
template <class A, std::enable_if_t<is_expr<A> && !std::is_const_v<A> && is_complex_t<typename A::value_type>::value, int> = 0>
auto imag(A& a) {
  return part_(a, 1);
}
XT_FUN(abs, std::abs(x))
XT_FUN(fabs, std::fabs(x))
XT_FUN(arg, std::arg(x))
XT_FUN(norm, std::norm(x))
XT_FUN(sqrt, std::sqrt(x))
XT_FUN(exp, std::exp(x))
XT_FUN(log, std::log(x))
XT_FUN(sin, std::sin(x))
XT_FUN(cos, std::cos(x))
XT_FUN(floor, std::floor(x))
XT_FUN(round, std::round(x))
XT_FUN(square, x* x)
XT_FUN(isfinite, finite_(x))
XT_FUN(isnan, nan_(x))
#undef XT_FUN
template <class A, class B>
auto pow(const A& a, const B& b) {
  return apply2([](const auto& x, const auto& y) { return std::pow(x, y); }, a, b);
}
template <class A, class B>
auto maximum(const A& a, const B& b) {
  return apply2([](auto x, auto y) { return std::max<decltype(x + y)>(x, y); }, a, b);
}
template <class A, class B>
auto minimum(const A& a, const B& b) {
  return apply2([](auto x, auto y) { return std::min<decltype(x + y)>(x, y); }, a, b);
}
template <class T, class A>
xarray<T> cast(const A& a) {
  return apply1([](const auto& x) { return static_cast<T>(x); }, a);
}
template <class F, class... A>
auto apply_fn(F f, const A&... a);
template <class F>
auto vectorize(F f) {
  return [f](const auto& a, const auto&... b) {
    if constexpr (sizeof...(b) == 0)
      return apply1(f, a);
    else
      return apply2(f, a, b...);
  };
}
template <class E>
auto eval(const E& e) {
  auto v = as_view(e);
  return xarray<typename decltype(v)::value_type>(v);
}
template <class E>
E& noalias(E& e) {
  return e;
}
template <class E, std::enable_if_t<!std::is_lvalue_reference_v<E>, int> = 0>
E noalias(E&& e) {
  return e;
}
template <class C, class A, class B>
auto where(const C& c, const A& a, const B& b) {
  auto vc = operand(c);
  auto va = operand(a);
  auto vb = operand(b);
  auto s = common_shape(vc.shape(), common_shape(va.shape(), vb.shape()));
  using R = typename common_num<typename decltype(va)::value_type, typename decltype(vb)::value_type>::type;
  xarray<R> r(s);
  auto wc = vc.broadcast(s);
  auto wa = va.broadcast(s);
  auto wb = vb.broadcast(s);
  auto ic = wc.begin();
  auto ia = wa.begin();
  auto ib = wb.begin();
  for (R& x : r) {
    x = *ic ? R(*ia) : R(*ib);
    ++ic;
    ++ia;
    ++ib;
  }
  return r;
}
template <class C>
std::vector<std::vector<std::size_t>> where(const C& c) {
  auto v = as_view(c);
  std::vector<std::vector<std::size_t>> r(v.dimension());
  const std::size_t n = v.size();
  for (std::size_t i = 0; i != n; ++i)
    if (v.begin()[i]) {
      std::size_t p = i;
      for (std::size_t d = v.dimension(); d-- > 0;) {
        r[d].push_back(p % v.shape(d));
        p /= v.shape(d);
      }
    }
  return r;
}
template <class C>
std::vector<std::vector<std::size_t>> argwhere(const C& c) {
  auto w = xt::where(c);
  std::vector<std::vector<std::size_t>> r(w.empty() ? 0 : w[0].size());
  for (std::size_t i = 0; i != r.size(); ++i)
    for (auto& d : w) r[i].push_back(d[i]);
  return r;
}
inline xarray<std::size_t> flatten_indices(const std::vector<std::vector<std::size_t>>& v) {
  std::vector<std::size_t> q;
  for (auto& x : v) q.insert(q.end(), x.begin(), x.end());
  xarray<std::size_t> r(std::vector<std::size_t>{q.size()});
  std::copy(q.begin(), q.end(), r.data());
  return r;
}

// ------------------------------------------------------- reductions
template <class F, class R, class E>
xarray<R> reduce(F f, R init, bool first, const E& e, std::vector<std::size_t> axes, bool allaxes) {
  auto v = as_view(e);
  if (allaxes)
    for (std::size_t d = 0; d != v.dimension(); ++d) axes.push_back(d);
  std::vector<std::size_t> s;
  std::vector<std::size_t> kept;
  for (std::size_t d = 0; d != v.dimension(); ++d)
    if (std::find(axes.begin(), axes.end(), d) == axes.end()) {
      s.push_back(v.shape(d));
      kept.push_back(d);
    }
  xarray<R> r(s);
  std::vector<bool> seen(r.size(), false);
  if (!first) r.fill(init);
  const std::size_t n = v.size();
  auto it = v.begin();
  for (std::size_t i = 0; i != n; ++i, ++it) {
    std::size_t p = i;
    std::vector<std::size_t> idx(v.dimension());
    for (std::size_t d = v.dimension(); d-- > 0;) {
      idx[d] = p % v.shape(d);
      p /= v.shape(d);
    }
    std::size_t o = 0;
    for (std::size_t k = 0; k != kept.size(); ++k) o = o * s[k] + idx[kept[k]];
    if (first && !seen[o])
      r.data()[o] = R(*it);
    else
      r.data()[o] = f(r.data()[o], *it);
    seen[o] = true;
  }
  return r;
}
#define XT_REDUCE(name, f, init, first, R)                                                           \
  template <class E>                                                                                 \
  auto name(const E& e) {                                                                            \
    using V = typename decltype(as_view(e))::value_type;                                             \
    return reduce(f, R(init), first, e, {}, true);                                                   \
  }                                                                                                  \
  template <class E>                                                                                 \
  auto name(const E& e, std::initializer_list<std::size_t> axes) {                                   \
    using V = typename decltype(as_view(e))::value_type;                                             \
    return reduce(f, R(init), first, e, axes, false);                                                \
  }                                                                                                  \
  template <class E>                                                                                 \
  auto name(const E& e, std::size_t axis) {                                                          \
    using V = typename decltype(as_view(e))::value_type;                                             \
    return reduce(f, R(init), first, e, {axis}, false);                                              \
  }
// small integers and bool are summed in a wide type, as in xtensor
template <class V>
using big_t = std::conditional_t<std::is_integral_v<V>, std::conditional_t<std::is_signed_v<V>, long long, unsigned long long>, V>;
XT_REDUCE(sum, ([](const auto& a, const auto& b) { return std::decay_t<decltype(a)>(a + b); }), 0, false, big_t<V>)
XT_REDUCE(prod, ([](const auto& a, const auto& b) { return std::decay_t<decltype(a)>(a * b); }), 1, false, big_t<V>)
XT_REDUCE(amax, ([](const auto& a, const auto& b) { return a < b ? b : a; }), 0, true, V)
XT_REDUCE(amin, ([](const auto& a, const auto& b) { return b < a ? b : a; }), 0, true, V)
#undef XT_REDUCE
template <class E, class... X>
auto mean(const E& e, X... axes) {
  auto s = sum(e, axes...);
  const double n = double(as_view(e).size()) / double(s.size());
  using V = typename decltype(s)::value_type;
  if constexpr (is_complex_t<V>::value)
    return apply1([n](const auto& x) { return x / typename V::value_type(n); }, s);
  else if constexpr (std::is_integral_v<V>)
    return apply1([n](const auto& x) { return double(x) / n; }, s);
  else
    return apply1([n](const auto& x) { return V(x / V(n)); }, s);
}
template <class E>
auto mean(const E& e, std::initializer_list<std::size_t> axes) {
  auto s = sum(e, axes);
  const double n = double(as_view(e).size()) / double(s.size());
  using V = typename decltype(s)::value_type;
  if constexpr (is_complex_t<V>::value)
    return apply1([n](const auto& x) { return x / typename V::value_type(n); }, s);
  else
    return apply1([n](const auto& x) { return x / n; }, s);
}
// leaves out what is not a number
#define XT_NANSUM(params, args)                                                                          \
  template <class E>                                                                                     \
  auto nansum params {                                                                                   \
    return sum(apply1([](const auto& x) { return nan_(x) ? std::decay_t<decltype(x)>(0) : x; }, e) args); \
  }
#define XT_COMMA ,
XT_NANSUM((const E& e), )
XT_NANSUM((const E& e, std::initializer_list<std::size_t> axes), XT_COMMA axes)
XT_NANSUM((const E& e, std::size_t axis), XT_COMMA axis)
#undef XT_NANSUM
#undef XT_COMMA
template <class E>
auto variance(const E& e) {
  auto m = mean(e)();
  return mean(apply1([m](const auto& x) { return (x - m) * (x - m); }, e));
}
// the shape with the given axes of length one
template <class E>
auto variance(const E& e, std::initializer_list<std::size_t> axes) {
  auto v = as_view(e);
  auto m = mean(e, axes);
  std::vector<std::size_t> s(v.shape().begin(), v.shape().end());
  for (std::size_t a : axes) s[a] = 1;
  auto mv = as_view(m);
  xview<typename decltype(m)::value_type> same(const_cast<typename decltype(m)::value_type*>(mv.data()), s);
  return mean((v - same) * (v - same), axes);
}
template <class E>
auto stddev(const E& e) {
  return sqrt(variance(e));
}
template <class E>
auto stddev(const E& e, std::initializer_list<std::size_t> axes) {
  return sqrt(variance(e, axes));
}
template <class E>
auto median(const E& e) {
  auto v = as_view(e);
  using V = typename decltype(v)::value_type;
  std::vector<V> q(v.begin(), v.end());
  std::sort(q.begin(), q.end());
  const std::size_t n = q.size();
  return n % 2 ? q[n / 2] : V((q[n / 2 - 1] + q[n / 2]) / 2);
}
template <class E>
auto median(const E& e, std::ptrdiff_t axis) {
  auto v = as_view(e);
  using V = typename decltype(v)::value_type;
  const std::size_t d = axis < 0 ? axis + v.dimension() : axis;
  std::vector<std::size_t> s;
  std::vector<index_t> st;
  for (std::size_t k = 0; k != v.dimension(); ++k)
    if (k != d) {
      s.push_back(v.shape(k));
      st.push_back(v.strides()[k]);
    }
  xarray<V> r(s);
  xview<V> lines(const_cast<V*>(v.data()), s, st);
  for (std::size_t i = 0; i != r.size(); ++i)
    r.data()[i] = median(xview<V>(&*(lines.begin() + i), {v.shape(d)}, {v.strides()[d]}));
  return r;
}
// the selected elements
template <class E, class M>
auto filter(const E& e, const M& m) {
  auto v = as_view(e);
  auto mm = as_view(m);
  using V = typename decltype(v)::value_type;
  std::vector<V> q;
  auto it = v.begin();
  auto im = mm.begin();
  for (std::size_t i = 0; i != v.size(); ++i, ++it, ++im)
    if (*im) q.push_back(*it);
  xarray<V> r(std::vector<std::size_t>{q.size()});
  std::copy(q.begin(), q.end(), r.data());
  return r;
}
template <class E>
bool any(const E& e) {
  auto v = as_view(e);
  for (auto it = v.begin(), en = v.end(); it != en; ++it)
    if (*it != typename decltype(v)::value_type(0)) return true;
  return false;
}
struct all_tag {};
inline all_tag all() { return {}; }
template <class E>
bool all(const E& e) {
  auto v = as_view(e);
  for (auto it = v.begin(), en = v.end(); it != en; ++it)
    if (*it == typename decltype(v)::value_type(0)) return false;
  return true;
}
template <class A, class B>
bool allclose(const A& a, const B& b, double rtol = 1e-5, double atol = 1e-8) {
  return all(apply2([=](const auto& x, const auto& y) { return std::abs(x - y) <= atol + rtol * std::abs(y); }, a, b));
}

// ------------------------------------------------------- slices
struct newaxis_tag {};
inline newaxis_tag newaxis() { return {}; }
struct none_ {};
namespace placeholders {
inline constexpr none_ _{};
}
struct range_ {
  index_t a, b, step;
  bool a_open = false, b_open = false;
};
template <class T>
inline constexpr bool is_none = std::is_same_v<std::decay_t<T>, none_>;
template <class A, class B>
range_ range(A a, B b) {
  range_ r{0, 0, 1};
  if constexpr (is_none<A>) r.a_open = true; else r.a = index_t(a);
  if constexpr (is_none<B>) r.b_open = true; else r.b = index_t(b);
  return r;
}
template <class A, class B, class C>
range_ range(A a, B b, C c) {
  range_ r = range(a, b);
  r.step = index_t(c);
  return r;
}
struct keep_ {
  std::vector<std::size_t> idx;
};
template <class C>
std::enable_if_t<!std::is_integral_v<C>, keep_> keep(const C& c) {
  return {std::vector<std::size_t>(c.begin(), c.end())};
}
template <class... I>
std::enable_if_t<(std::is_integral_v<I> && ...), keep_> keep(I... i) {
  return {{std::size_t(i)...}};
}

namespace detail {
template <class T>
struct slicer {
  T* p;
  std::vector<std::size_t> in;
  std::vector<index_t> st;
  std::vector<std::size_t> oshape;
  std::vector<index_t> ost;
  std::size_t d = 0;
  void operator()(all_tag) {
    oshape.push_back(in.at(d));
    ost.push_back(st[d]);
    ++d;
  }
  void operator()(newaxis_tag) {
    oshape.push_back(1);
    ost.push_back(0);
  }
  void operator()(const range_& r) {
    const index_t n = in.at(d);
    index_t a = r.a_open ? 0 : (r.a < 0 ? r.a + n : r.a);
    index_t b = r.b_open ? n : (r.b < 0 ? r.b + n : std::min(r.b, n));
    if (a > n) a = n;
    const index_t c = b > a ? (b - a + r.step - 1) / r.step : 0;
    p += a * st[d];
    oshape.push_back(std::size_t(c));
    ost.push_back(st[d] * r.step);
    ++d;
  }
  template <class I>
  std::enable_if_t<std::is_integral_v<I> || std::is_enum_v<I>> operator()(I i) {
    index_t k = index_t(i);
    if (k < 0) k += in.at(d);
    if (k < 0 || std::size_t(k) >= in.at(d)) throw std::out_of_range("xt: view index out of bounds");
    p += k * st[d];
    ++d;
  }
};
}  // namespace detail

// A view through a list of kept indices: gathers for reading, scatters on
// assignment. Only the first slice may be a keep().
template <class T>
class xkeepview : public expr_tag {
 public:
  using value_type = std::remove_const_t<T>;
  xkeepview(std::vector<xview<T>> rows) : rows_(std::move(rows)) {}
  xarray<value_type> gather() const {
    std::vector<std::size_t> s{rows_.size()};
    if (!rows_.empty()) s.insert(s.end(), rows_[0].shape().begin(), rows_[0].shape().end());
    xarray<value_type> r(s);
    std::size_t k = 0;
    for (auto& v : rows_)
      for (auto it = v.begin(), e = v.end(); it != e; ++it) r.data()[k++] = *it;
    return r;
  }
  template <class E>
  xkeepview& operator=(const E& e) {
    if constexpr (is_expr<E>) {
      xarray<value_type> tmp(e);
      std::vector<std::size_t> s = gather().shape();
      auto v = as_view(tmp).broadcast(s);
      xarray<value_type> full(v);
      std::size_t k = 0;
      for (auto& w : rows_)
        for (auto it = w.begin(), en = w.end(); it != en; ++it) *it = full.data()[k++];
    } else {
      for (auto& w : rows_) w.fill(e);
    }
    return *this;
  }
  std::vector<std::size_t> shape() const { return gather().shape(); }
  std::size_t shape(std::size_t d) const { return gather().shape(d); }
  std::size_t size() const { return gather().size(); }
  template <class... I>
  T& operator()(std::size_t r, I... i) const { return rows_.at(r)(i...); }

 private:
  std::vector<xview<T>> rows_;
};
template <class T>
xview<T> as_view(const xkeepview<T>& k) {
  auto o = std::make_shared<xarray<std::remove_const_t<T>>>(k.gather());
  return xview<T>(o->data(), o->shape(), o);
}

template <class E>
auto any_view(E&& e) {
  if constexpr (std::is_lvalue_reference_v<E> && !std::is_const_v<std::remove_reference_t<E>>) {
    if constexpr (requires { mut_view(e); })
      return mut_view(e);
    else
      return as_view(e);
  } else if constexpr (std::is_lvalue_reference_v<E>) {
    return as_view(e);
  } else if constexpr (requires { e.owner(); }) {
    return as_view(e);
  } else {
    // a temporary: keep it alive
    auto o = std::make_shared<std::decay_t<E>>(std::move(e));
    auto v = as_view(*o);
    using T = std::remove_pointer_t<decltype(v.data())>;
    return xview<T>(v.data(), v.shape(), v.strides(), o);
  }
}
template <class V, class... S>
auto slice_(V v, const S&... slices) {
  using T = std::remove_pointer_t<decltype(v.data())>;
  detail::slicer<T> s{v.data(), v.shape(), v.strides(), {}, {}};
  (s(slices), ...);
  while (s.d < s.in.size()) s(all_tag{});
  return xview<T>(s.p, s.oshape, s.ost, v.owner());
}
template <class E, class S0, class... S>
auto view(E&& e, const S0& s0, const S&... slices) {
  auto v = any_view(std::forward<E>(e));
  using T = std::remove_pointer_t<decltype(v.data())>;
  if constexpr (std::is_same_v<S0, keep_>) {
    std::vector<xview<T>> rows;
    for (std::size_t i : s0.idx) rows.push_back(slice_(v, i, slices...));
    return xkeepview<T>(std::move(rows));
  } else {
    return slice_(v, s0, slices...);
  }
}
template <class E>
auto row(E&& e, index_t i) {
  return view(std::forward<E>(e), i, all());
}
template <class E>
auto col(E&& e, index_t i) {
  return view(std::forward<E>(e), all(), i);
}
template <class E, class S>
auto broadcast(E&& e, const S& s) {
  return any_view(std::forward<E>(e)).broadcast(std::vector<std::size_t>(s.begin(), s.end()));
}
template <class E>
auto flatten(E&& e) {
  auto v = any_view(std::forward<E>(e));
  using T = std::remove_pointer_t<decltype(v.data())>;
  return xview<T>(v.data(), {v.size()}, v.owner());
}
template <class E>
auto ravel(E&& e) {
  return flatten(std::forward<E>(e));
}
template <class E>
auto reshape_view(E&& e, std::initializer_list<std::size_t> s) {
  auto v = any_view(std::forward<E>(e));
  using T = std::remove_pointer_t<decltype(v.data())>;
  return xview<T>(v.data(), s, v.owner());
}
template <class E, class S>
auto reshape_view(E&& e, const S& s) {
  auto v = any_view(std::forward<E>(e));
  using T = std::remove_pointer_t<decltype(v.data())>;
  return xview<T>(v.data(), std::vector<std::size_t>(s.begin(), s.end()), v.owner());
}
template <class E>
auto transpose(E&& e) {
  auto v = any_view(std::forward<E>(e));
  using T = std::remove_pointer_t<decltype(v.data())>;
  auto s = v.shape();
  auto st = v.strides();
  std::reverse(s.begin(), s.end());
  std::reverse(st.begin(), st.end());
  return xview<T>(v.data(), s, st, v.owner());
}
template <class E>
auto flip(E&& e, std::size_t axis) {
  auto v = any_view(std::forward<E>(e));
  using T = std::remove_pointer_t<decltype(v.data())>;
  auto st = v.strides();
  T* p = v.data() + (index_t(v.shape(axis)) - 1) * st[axis];
  st[axis] = -st[axis];
  return xview<T>(p, v.shape(), st, v.owner());
}

// masked access
template <class V, class M>
class xmask {
 public:
  xmask(V v, M m) : v_(v), m_(m) {}
  template <class S>
  xmask& operator=(const S& s) {
    auto w = m_.shape() == v_.shape() ? as_view(m_) : as_view(m_).broadcast(v_.shape());
    auto im = w.begin();
    auto iv = v_.begin();
    const std::size_t n = v_.size();
    std::size_t k = 0;
    for (std::size_t i = 0; i != n; ++i, ++im, ++iv)
      if (*im) {
        if constexpr (is_expr<S>)
          *iv = as_view(s).begin()[as_view(s).size() == 1 ? 0 : k++];
        else
          *iv = static_cast<typename V::value_type>(s);
      }
    return *this;
  }
  void fill(const typename V::value_type& x) { *this = x; }

 private:
  V v_;
  M m_;
};
template <class E, class M>
auto filtration(E&& e, const M& m) {
  auto v = any_view(std::forward<E>(e));
  auto mm = xarray<bool>(m);
  return xmask<decltype(v), decltype(mm)>(v, mm);
}
template <class E, class M>
auto masked_view(E&& e, const M& m) {
  return filtration(std::forward<E>(e), m);
}

// ------------------------------------------------------- builders, adaptors
template <class T>
xarray<T> empty(std::initializer_list<std::size_t> s) { return xarray<T>(std::vector<std::size_t>(s)); }
template <class T, class S>
xarray<T> empty(const S& s) { return xarray<T>(std::vector<std::size_t>(s.begin(), s.end())); }
template <class T>
xarray<T> zeros(std::initializer_list<std::size_t> s) { return xarray<T>(std::vector<std::size_t>(s), T(0)); }
template <class T, class S>
xarray<T> zeros(const S& s) { return xarray<T>(std::vector<std::size_t>(s.begin(), s.end()), T(0)); }
template <class T>
xarray<T> ones(std::initializer_list<std::size_t> s) { return xarray<T>(std::vector<std::size_t>(s), T(1)); }
template <class T, class S>
xarray<T> ones(const S& s) { return xarray<T>(std::vector<std::size_t>(s.begin(), s.end()), T(1)); }
template <class E>
auto zeros_like(const E& e) {
  using T = typename decltype(as_view(e))::value_type;
  return xarray<T>(as_view(e).shape(), T(0));
}
template <class E, class T>
auto full_like(const E& e, T x) {
  using U = typename decltype(as_view(e))::value_type;
  return xarray<U>(as_view(e).shape(), U(x));
}
template <class T = int>
xarray<T> arange(T a, T b, T step = 1) {
  std::vector<T> v;
  for (T x = a; x < b; x += step) v.push_back(x);
  xarray<T> r(std::vector<std::size_t>{v.size()});
  std::copy(v.begin(), v.end(), r.begin());
  return r;
}
template <class T = int>
xarray<T> arange(T b) { return arange<T>(T(0), b); }
template <class T>
xarray<T> linspace(T a, T b, std::size_t n = 50) {
  xarray<T> r(std::vector<std::size_t>{n});
  for (std::size_t i = 0; i != n; ++i) r.data()[i] = n == 1 ? a : T(a + (b - a) * T(i) / T(n - 1));
  return r;
}
template <class T>
xview<T> adapt(T* p, std::initializer_list<std::size_t> s) { return xview<T>(p, std::vector<std::size_t>(s)); }
template <class T, class S, class = decltype(std::declval<const S&>().begin())>
xview<T> adapt(T* p, const S& s) { return xview<T>(p, std::vector<std::size_t>(s.begin(), s.end())); }
struct no_ownership {};
template <class T, class O, class S>
xview<T> adapt(T* p, std::size_t n, O, const S& s) { return xview<T>(p, std::vector<std::size_t>(s.begin(), s.end())); }
template <class T, class O>
xview<T> adapt(T* p, std::size_t n, O, std::initializer_list<std::size_t> s) { return xview<T>(p, std::vector<std::size_t>(s)); }
template <class C, class = decltype(std::declval<C&>().data()), std::enable_if_t<!is_expr<C>, int> = 0>
auto adapt(C& c) {
  using T = std::remove_pointer_t<decltype(c.data())>;
  return xview<T>(c.data(), std::vector<std::size_t>{c.size()});
}
template <class C, class = decltype(std::declval<C&&>().data()), std::enable_if_t<!std::is_lvalue_reference_v<C> && !is_expr<C>, int> = 0>
auto adapt(C&& c) {
  auto o = std::make_shared<std::decay_t<C>>(std::move(c));
  using T = std::remove_pointer_t<decltype(o->data())>;
  return xview<T>(o->data(), std::vector<std::size_t>{o->size()}, o);
}
template <class C, class = decltype(std::declval<C&>().data())>
auto adapt(C& c, std::initializer_list<std::size_t> s) {
  using T = std::remove_pointer_t<decltype(c.data())>;
  return xview<T>(c.data(), std::vector<std::size_t>(s));
}
template <class C, class S, class = decltype(std::declval<C&>().data()), class = decltype(std::declval<const S&>().begin())>
auto adapt(C& c, const S& s) {
  using T = std::remove_pointer_t<decltype(c.data())>;
  return xview<T>(c.data(), std::vector<std::size_t>(s.begin(), s.end()));
}
// A shape of any rank: compares with fixed-rank shapes too.
struct shape_list : std::vector<std::size_t> {
  template <std::size_t N> friend bool operator==(const std::array<std::size_t, N>& a, const shape_list& b) {
    return std::equal(a.begin(), a.end(), b.begin(), b.end());
  }
};
template <class T>
const T& shape(const T& t) { return t; }
template <class T = std::size_t>
shape_list shape(std::initializer_list<std::size_t> l) { shape_list r; r.assign(l.begin(), l.end()); return r; }
template <class... E>
std::tuple<const E&...> xtuple(const E&... e) { return std::tuple<const E&...>(e...); }
template <class... E>
auto concatenate(const std::tuple<const E&...>& t, std::size_t axis = 0) {
  using First = std::decay_t<std::tuple_element_t<0, std::tuple<E...>>>;
  using T = typename First::value_type;
  return std::apply(
      [axis](const auto&... e) {
        std::vector<xarray<T>> parts{xarray<T>(e)...};
        auto s = parts[0].shape();
        s[axis] = 0;
        for (auto& p : parts) s[axis] += p.shape(axis);
        xarray<T> r(s);
        std::size_t at = 0;
        for (auto& p : parts) {
          auto v = mut_view(r);
          detail::slicer<T> sl{v.data(), v.shape(), v.strides(), {}, {}};
          for (std::size_t d = 0; d != s.size(); ++d)
            if (d == axis)
              sl(range_{index_t(at), index_t(at + p.shape(axis)), 1});
            else
              sl(all_tag{});
          xview<T>(sl.p, sl.oshape, sl.ost).assign_from(p);
          at += p.shape(axis);
        }
        return r;
      },
      t);
}
template <class E, std::enable_if_t<is_expr<E>, int> = 0>
std::ostream& operator<<(std::ostream& os, const E& e) {
  auto v = as_view(e);
  os << '{';
  for (auto it = v.begin(), en = v.end(); it != en; ++it) os << *it << ' ';
  return os << '}';
}
}  // namespace xt
