// A small stand-in for the part of casacore that the verified code uses:
// reference-counted arrays, strings, quantities, and measures without frames
// (every direction is J2000, every position ITRF, conversions are identities).
#pragma once
#include <algorithm>
#include <cassert>
#include <cctype>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdlib>
#include <iostream>
#include <map>
#include <set>
#include <memory>
#include <numeric>
#include <functional>
#include <regex>
#include <stdexcept>
#include <string>
#include <vector>

#include <casacore/casa/BasicSL/Constants.h>

#define CASACORE_MAJOR_VERSION 3
#define CASACORE_MINOR_VERSION 7

#include <iomanip>
#include <sstream>
using std::string;
using std::vector;
using std::ostream;
using std::ostringstream;
using std::endl;
using std::setw;

namespace casacore {
using Bool = bool;
using Int = int;
using uInt = unsigned int;
using Int64 = long long;
using uInt64 = unsigned long long;
using Float = float;
using Double = double;
using Complex = std::complex<float>;
using DComplex = std::complex<double>;
using rownr_t = std::uint64_t;
inline constexpr bool True = true, False = false;

class AipsError : public std::runtime_error {
 public:
  explicit AipsError(const std::string& m = "") : std::runtime_error(m) {}
  std::string getMesg() const { return what(); }
};

// ------------------------------------------------------------ strings
class Regex {
 public:
  Regex() = default;
  Regex(const char* s) : s_(s) {}
  Regex(const std::string& s) : s_(s) {}
  // A shell pattern: * ? [list] [!list] {a,b}
  static std::string fromPattern(const std::string& p) {
    std::string r;
    int depth = 0;
    for (std::size_t i = 0; i < p.size(); ++i) {
      const char c = p[i];
      if (c == '*') r += ".*";
      else if (c == '?') r += '.';
      else if (c == '[') {
        r += '[';
        if (i + 1 < p.size() && p[i + 1] == '!') { r += '^'; ++i; }
        for (++i; i < p.size() && p[i] != ']'; ++i) r += p[i];
        r += ']';
      } else if (c == '{') { r += '('; ++depth; }
      else if (c == '}' && depth) { r += ')'; --depth; }
      else if (c == ',' && depth) r += '|';
      else if (std::isalnum((unsigned char)c) || c == '_' || c == ' ') r += c;
      else { r += '\\'; r += c; }
    }
    return r;
  }
  const std::string& regexp() const { return s_; }
  std::regex get() const { return std::regex(s_, std::regex::extended); }
  // Length of the match at the start of the text, npos if there is none.
  std::string::size_type match(const char* p, std::string::size_type n, std::string::size_type pos = 0) const {
    std::cmatch m;
    if (std::regex_search(p + pos, p + n, m, get(), std::regex_constants::match_continuous)) return m.length(0);
    return std::string::npos;
  }

 private:
  std::string s_;
};
class String : public std::string {
 public:
  using std::string::string;
  using size_type = std::string::size_type;
  String() = default;
  String(const std::string& s) : std::string(s) {}
  String(std::string&& s) : std::string(std::move(s)) {}
  bool matches(const Regex& r) const { return std::regex_match(static_cast<const std::string&>(*this), r.get()); }
  void gsub(const Regex& r, const std::string& by) {
    std::string done, rest = *this;
    std::smatch m;
    const bool anchored = !r.regexp().empty() && r.regexp()[0] == '^';
    while (!rest.empty() && std::regex_search(rest, m, r.get()) && m.length(0) > 0) {
      done += m.prefix().str() + by;
      rest = m.suffix().str();
      if (anchored) break;
    }
    std::string::operator=(done + rest);
  }
  size_type index(const Regex& r, int = 0) const {
    std::smatch m;
    if (std::regex_search(static_cast<const std::string&>(*this), m, r.get())) return m.position(0);
    return npos;
  }
  String from(size_type p) const { return substr(p); }
  String before(size_type p) const { return substr(0, p); }
  String through(size_type p) const { return substr(0, p + 1); }
  String after(size_type p) const { return p + 1 <= size() ? substr(p + 1) : std::string(); }
  static double toDouble(const String& s) { return std::atof(s.c_str()); }
  static int toInt(const String& s) { return std::atoi(s.c_str()); }
  template <class T>
  static String toString(const T& t) { return std::to_string(t); }
  void upcase() { for (char& c : *this) c = std::toupper((unsigned char)c); }
  void downcase() { for (char& c : *this) c = std::tolower((unsigned char)c); }
};
inline const Regex RXidentifier{"[A-Za-z_][A-Za-z0-9_]*"};
inline String upcase(String s) { s.upcase(); return s; }
inline String downcase(String s) { s.downcase(); return s; }

// ------------------------------------------------------------ arrays
class IPosition {
 public:
  IPosition() = default;
  template <class... T>
  explicit IPosition(unsigned n, T... v) : v_{static_cast<std::ptrdiff_t>(v)...} {
    v_.resize(n, v_.size() == 1 ? v_[0] : 0);
  }
  std::size_t size() const { return v_.size(); }
  std::size_t nelements() const { return v_.size(); }
  std::ptrdiff_t operator[](std::size_t i) const { return v_[i]; }
  std::ptrdiff_t& operator[](std::size_t i) { return v_[i]; }
  std::ptrdiff_t operator()(std::size_t i) const { return v_[i]; }
  std::ptrdiff_t product() const { std::ptrdiff_t p = 1; for (auto x : v_) p *= x; return p; }
  bool operator==(const IPosition& o) const { return v_ == o.v_; }
  bool isEqual(const IPosition& o) const { return v_ == o.v_; }
  bool conform(const IPosition& o) const { return v_.size() == o.v_.size(); }
  bool operator!=(const IPosition& o) const { return v_ != o.v_; }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
  const std::vector<std::ptrdiff_t>& asStdVector() const { return v_; }
  std::string toString() const {
    std::string s = "[";
    for (std::size_t i = 0; i < v_.size(); ++i) s += (i ? ", " : "") + std::to_string(v_[i]);
    return s + "]";
  }

 private:
  std::vector<std::ptrdiff_t> v_;
};
enum StorageInitPolicy { COPY, TAKE_OVER, SHARE };

// Column-major contiguous storage.
template <class T>
class Array {
 public:
  using value_type = T;
  using iterator = T*;
  using const_iterator = const T*;
  using contiter = T*;
  using const_contiter = const T*;
  Array() : s_(1, 0), p_(std::make_shared<std::unique_ptr<T[]>>()) {}
  explicit Array(const IPosition& s) { alloc(s); }
  Array(const IPosition& s, const T& v) { alloc(s); set(v); }
  Array(const IPosition& s, T* data, StorageInitPolicy pol) {
    if (pol == SHARE) {
      s_ = s;
      raw_ = data;
      n_ = s.product();
      p_ = std::make_shared<std::unique_ptr<T[]>>();
    } else {
      alloc(s);
      std::copy(data, data + n_, raw_);
    }
  }
  Array(const IPosition& s, const T* data) { alloc(s); std::copy(data, data + n_, raw_); }
  // The copy constructor refers to the same storage, assignment copies values.
  Array(const Array& o) : s_(o.s_), p_(o.p_), raw_(o.raw_), n_(o.n_) {}
  Array(Array&& o) noexcept : s_(o.s_), p_(o.p_), raw_(o.raw_), n_(o.n_) { o.clear_(); }
  Array& operator=(const Array& o) {
    if (this != &o) {
      if (n_ == o.n_ && s_ == o.s_) std::copy(o.begin(), o.end(), raw_);
      else { alloc(o.s_); std::copy(o.begin(), o.end(), raw_); }
    }
    return *this;
  }
  Array& operator=(Array&& o) {
    s_ = o.s_; p_ = o.p_; raw_ = o.raw_; n_ = o.n_;
    o.clear_();
    return *this;
  }
  Array& operator=(const T& v) { set(v); return *this; }
  void reference(const Array& o) { s_ = o.s_; p_ = o.p_; raw_ = o.raw_; n_ = o.n_; }
  void assign(const Array& o) { alloc(o.s_); std::copy(o.begin(), o.end(), raw_); }
  Array copy() const { Array r(s_, T()); std::copy(begin(), end(), r.raw_); return r; }
  void unique() { reference(copy()); }
  void set(const T& v) { std::fill(begin(), end(), v); }
  void resize(const IPosition& s, bool keep = false) {
    if (s == s_) return;
    Array old;
    old.reference(*this);
    alloc(s);
    if (keep) std::copy(old.begin(), old.begin() + std::min(n_, old.n_), raw_);
  }
  const IPosition& shape() const { return s_; }
  std::size_t size() const { return n_; }
  std::size_t nelements() const { return n_; }
  std::size_t ndim() const { return s_.size(); }
  bool empty() const { return n_ == 0; }
  bool contiguousStorage() const { return true; }
  T* data() { return raw_; }
  const T* data() const { return raw_; }
  T* begin() { return raw_; }
  T* end() { return raw_ + n_; }
  const T* begin() const { return raw_; }
  const T* end() const { return raw_ + n_; }
  T* cbegin() { return raw_; }
  T* cend() { return raw_ + n_; }
  const T* cbegin() const { return raw_; }
  const T* cend() const { return raw_ + n_; }
  std::vector<T> tovector() const { return std::vector<T>(begin(), end()); }
  T& operator()(const IPosition& i) { return raw_[off(i)]; }
  const T& operator()(const IPosition& i) const { return raw_[off(i)]; }
  // A rectangular part (both ends included): readable as an array, assignable.
  struct Part {
    Array& a;
    IPosition blc, trc;
    template <class F> void each(F f) const {
      IPosition at = blc;
      for (std::size_t d = 0; d < blc.size(); ++d) if (trc[d] < blc[d]) return;
      while (true) {
        f(at);
        std::size_t d = 0;
        while (d < at.size() && ++at[d] > trc[d]) { at[d] = blc[d]; ++d; }
        if (d == at.size()) return;
      }
    }
    IPosition shape() const {
      IPosition s = blc;
      for (std::size_t d = 0; d < s.size(); ++d) s[d] = trc[d] - blc[d] + 1;
      return s;
    }
    Part& operator=(const Array& o) {
      if (!(o.shape() == shape())) throw AipsError("ArrayConformanceError");
      const T* q = o.begin();
      each([&](const IPosition& at) { a(at) = *q++; });
      return *this;
    }
    Part& operator=(const Part& o) { return *this = Array(o); }
    Part& operator=(const T& v) {
      each([&](const IPosition& at) { a(at) = v; });
      return *this;
    }
    operator Array() const {
      Array r(shape());
      T* q = r.begin();
      each([&](const IPosition& at) { *q++ = a(at); });
      return r;
    }
  };
  Part operator()(const IPosition& blc, const IPosition& trc) { return Part{*this, blc, trc}; }
  Array operator()(const IPosition& blc, const IPosition& trc) const { return Part{const_cast<Array&>(*this), blc, trc}; }
  void resize() { clear_(); }
  T* getStorage(bool& del) { del = false; return raw_; }
  const T* getStorage(bool& del) const { del = false; return raw_; }
  void putStorage(T*&, bool) {}
  void freeStorage(const T*&, bool) const {}
  template <class U>
  void apply_(U f) { for (T& x : *this) x = f(x); }

 protected:
  std::size_t off(const IPosition& i) const {
    std::size_t o = 0;
    for (std::size_t d = s_.size(); d-- > 0;) o = o * s_[d] + i[d];
    return o;
  }
  void alloc(const IPosition& s) {
    s_ = s;
    n_ = s.size() ? s.product() : 0;
    p_ = std::make_shared<std::unique_ptr<T[]>>(n_ ? new T[n_]() : nullptr);
    raw_ = p_->get();
  }
  void clear_() {
    s_ = IPosition(1, 0);
    p_ = std::make_shared<std::unique_ptr<T[]>>();
    raw_ = nullptr;
    n_ = 0;
  }
  IPosition s_;
  std::shared_ptr<std::unique_ptr<T[]>> p_;
  T* raw_ = nullptr;
  std::size_t n_ = 0;
};
template <class T>
class Vector : public Array<T> {
 public:
  Vector() = default;
  explicit Vector(std::size_t n) : Array<T>(IPosition(1, n)) {}
  Vector(std::size_t n, const T& v) : Array<T>(IPosition(1, n), v) {}
  Vector(const IPosition& s) : Array<T>(s) {}
  Vector(const std::vector<T>& v) : Array<T>(IPosition(1, v.size())) { std::copy(v.begin(), v.end(), this->raw_); }
  template <class U, std::enable_if_t<!std::is_same_v<U, T> && std::is_convertible_v<U, T>, int> = 0>
  Vector(const std::vector<U>& v) : Array<T>(IPosition(1, v.size())) { std::copy(v.begin(), v.end(), this->raw_); }
  Vector(std::initializer_list<T> v) : Array<T>(IPosition(1, v.size())) { std::copy(v.begin(), v.end(), this->raw_); }
  Vector(const IPosition& s, T* d, StorageInitPolicy p) : Array<T>(s, d, p) {}
  Vector(const Array<T>& a) { this->reference(a); }
  Vector(const Vector&) = default;
  Vector(Vector&&) = default;
  Vector& operator=(const Vector& o) { Array<T>::operator=(o); return *this; }
  Vector& operator=(Vector&& o) { Array<T>::operator=(std::move(o)); return *this; }
  Vector& operator=(const T& v) { this->set(v); return *this; }
  T& operator[](std::size_t i) { return this->raw_[i]; }
  const T& operator[](std::size_t i) const { return this->raw_[i]; }
  using Array<T>::operator();
  T& operator()(std::size_t i) { return this->raw_[i]; }
  const T& operator()(std::size_t i) const { return this->raw_[i]; }
  using Array<T>::resize;
  void resize(std::size_t n, bool keep = false) { Array<T>::resize(IPosition(1, n), keep); }
};
template <class T>
class Matrix : public Array<T> {
 public:
  Matrix() { this->s_ = IPosition(2, 0, 0); }
  Matrix(std::size_t r, std::size_t c) : Array<T>(IPosition(2, r, c)) {}
  Matrix(std::size_t r, std::size_t c, const T& v) : Array<T>(IPosition(2, r, c), v) {}
  Matrix(const IPosition& s) : Array<T>(s) {}
  Matrix(const IPosition& s, const T& v) : Array<T>(s, v) {}
  Matrix(const IPosition& s, T* d, StorageInitPolicy p) : Array<T>(s, d, p) {}
  Matrix(const Array<T>& a) { this->reference(a); }
  Matrix(const Matrix&) = default;
  Matrix& operator=(const Matrix&) = default;
  Matrix& operator=(const T& v) { this->set(v); return *this; }
  std::size_t nrow() const { return this->s_[0]; }
  std::size_t ncolumn() const { return this->s_[1]; }
  using Array<T>::operator();
  T& operator()(std::size_t r, std::size_t c) { return this->raw_[r + c * nrow()]; }
  const T& operator()(std::size_t r, std::size_t c) const { return this->raw_[r + c * nrow()]; }
  using Array<T>::resize;
  void resize(std::size_t r, std::size_t c) { Array<T>::resize(IPosition(2, r, c)); }
  // The diagonal refers to the matrix it is taken from.
  struct Diagonal {
    Matrix& m;
    std::size_t size() const { return std::min(m.nrow(), m.ncolumn()); }
    Vector<T> copy() const { Vector<T> v(size()); for (std::size_t i = 0; i < size(); ++i) v[i] = m(i, i); return v; }
    operator Vector<T>() const { return copy(); }
    T& operator[](std::size_t i) const { return m(i, i); }
    Diagonal& operator=(const T& x) { for (std::size_t i = 0; i < size(); ++i) m(i, i) = x; return *this; }
    Diagonal& operator=(const Array<T>& a) {
      if (a.size() != size()) throw AipsError("array shapes differ");
      for (std::size_t i = 0; i < size(); ++i) m(i, i) = a.data()[i];
      return *this;
    }
  };
  Diagonal diagonal() { return Diagonal{*this}; }
  Vector<T> diagonal() const { return Diagonal{const_cast<Matrix&>(*this)}.copy(); }
  Vector<T> column(std::size_t c) const { Vector<T> v(nrow()); for (std::size_t i = 0; i < nrow(); ++i) v[i] = (*this)(i, c); return v; }
  Vector<T> row(std::size_t r) const { Vector<T> v(ncolumn()); for (std::size_t i = 0; i < ncolumn(); ++i) v[i] = (*this)(r, i); return v; }
};
template <class T>
class Cube : public Array<T> {
 public:
  Cube() { this->s_ = IPosition(3, 0, 0, 0); }
  Cube(std::size_t a, std::size_t b, std::size_t c) : Array<T>(IPosition(3, a, b, c)) {}
  Cube(const IPosition& s) : Array<T>(s) {}
  Cube(const IPosition& s, T* d, StorageInitPolicy p) : Array<T>(s, d, p) {}
  Cube(const Array<T>& a) { this->reference(a); }
  using Array<T>::operator();
  T& operator()(std::size_t a, std::size_t b, std::size_t c) { return this->raw_[a + this->s_[0] * (b + this->s_[1] * c)]; }
  const T& operator()(std::size_t a, std::size_t b, std::size_t c) const { return this->raw_[a + this->s_[0] * (b + this->s_[1] * c)]; }
  using Array<T>::resize;
  void resize(std::size_t a, std::size_t b, std::size_t c) { Array<T>::resize(IPosition(3, a, b, c)); }
};
template <class T>
class Block : public std::vector<T> {
 public:
  using std::vector<T>::vector;
  Block& operator=(const T& v) { std::fill(this->begin(), this->end(), v); return *this; }
  std::size_t nelements() const { return this->size(); }
};
#define CC_OP(op)                                                              \
  template <class T>                                                           \
  Array<T> operator op(const Array<T>& a, const Array<T>& b) {                 \
    if (a.size() != b.size()) throw AipsError("array shapes differ");          \
    Array<T> r(a.copy());                                                             \
    for (std::size_t i = 0; i < r.size(); ++i) r.data()[i] = a.data()[i] op b.data()[i]; \
    return r;                                                                  \
  }                                                                            \
  template <class T>                                                           \
  Array<T> operator op(const Array<T>& a, const T& b) {                        \
    Array<T> r(a.copy());                                                             \
    for (T& x : r) x = x op b;                                                 \
    return r;                                                                  \
  }
CC_OP(+) CC_OP(-) CC_OP(*) CC_OP(/) CC_OP(&&) CC_OP(||)
#undef CC_OP
template <class T> Array<T> operator!(const Array<T>& a) { Array<T> r(a.copy()); for (T& x : r) x = !x; return r; }
template <class T> Matrix<T> transpose(const Matrix<T>& a) {
  Matrix<T> r(a.ncolumn(), a.nrow());
  for (std::size_t i = 0; i < a.nrow(); ++i) for (std::size_t j = 0; j < a.ncolumn(); ++j) r(j, i) = a(i, j);
  return r;
}
template <class T> Matrix<T> product(const Matrix<T>& a, const Matrix<T>& b) {
  if (a.ncolumn() != b.nrow()) throw AipsError("array shapes differ");
  Matrix<T> r(a.nrow(), b.ncolumn(), T(0));
  for (std::size_t i = 0; i < a.nrow(); ++i) for (std::size_t j = 0; j < b.ncolumn(); ++j)
    for (std::size_t k = 0; k < a.ncolumn(); ++k) r(i, j) += a(i, k) * b(k, j);
  return r;
}
template <class T> Vector<T> product(const Matrix<T>& a, const Vector<T>& b) {
  if (a.ncolumn() != b.size()) throw AipsError("array shapes differ");
  Vector<T> r(a.nrow(), T(0));
  for (std::size_t i = 0; i < a.nrow(); ++i) for (std::size_t k = 0; k < a.ncolumn(); ++k) r[i] += a(i, k) * b[k];
  return r;
}
template <class T> T sum(const Array<T>& a) { return std::accumulate(a.begin(), a.end(), T(0)); }
template <class T> T max(const Array<T>& a) { return *std::max_element(a.begin(), a.end()); }
template <class T> T min(const Array<T>& a) { return *std::min_element(a.begin(), a.end()); }
template <class T> T mean(const Array<T>& a) { return sum(a) / T(a.size()); }
template <class T>
void indgen(Array<T>& a, T start = T(0), T inc = T(1)) { for (T& x : a) { x = start; start += inc; } }
template <class T>
void indgen(Array<T>&& a) { indgen(a); }
template <class T> bool allEQ(const Array<T>& a, const T& v) { return std::all_of(a.begin(), a.end(), [&](const T& x) { return x == v; }); }
template <class T> bool anyEQ(const Array<T>& a, const T& v) { return std::any_of(a.begin(), a.end(), [&](const T& x) { return x == v; }); }
inline std::size_t ntrue(const Array<bool>& a) { return std::count(a.begin(), a.end(), true); }
inline std::size_t nfalse(const Array<bool>& a) { return std::count(a.begin(), a.end(), false); }
template <class T> bool allNE(const Array<T>& a, const T& v) { return !anyEQ(a, v); }
template <class T>
std::ostream& operator<<(std::ostream& os, const Array<T>& a) {
  os << '[';
  for (std::size_t i = 0; i < a.size(); ++i) os << (i ? ", " : "") << a.data()[i];
  return os << ']';
}

// ------------------------------------------------------------ math
inline bool near(double a, double b, double tol = 1e-13) {
  if (tol <= 0) return a == b;
  if (a == b) return true;
  if (a * b <= 0) {
    if (a == 0) return std::abs(b) <= (1 + tol) * 1e-308;
    if (b == 0) return std::abs(a) <= (1 + tol) * 1e-308;
    return false;
  }
  return std::abs(a - b) <= tol * std::max(std::abs(a), std::abs(b));
}
inline bool near(float a, float b, double tol = 1e-5) { return near(double(a), double(b), tol); }
inline bool nearAbs(double a, double b, double tol = 1e-13) { return std::abs(a - b) <= tol; }
template <class T> bool isNaN(const T& x) { return std::isnan(x); }
template <class T> bool isFinite(const T& x) { return std::isfinite(x); }

// ------------------------------------------------------------ quantities
class Unit : public std::string {
 public:
  using std::string::string;
  Unit(const std::string& s = "") : std::string(s) {}
  const std::string& getName() const { return *this; }
};
inline double UnitFactor(const std::string& u, std::string& dim) {
  static const std::map<std::string, std::pair<double, std::string>> base{
      {"Hz", {1, "f"}}, {"s", {1, "t"}}, {"m", {1, "l"}}, {"rad", {1, "a"}}, {"deg", {C::pi / 180, "a"}},
      {"arcmin", {C::pi / 180 / 60, "a"}}, {"arcsec", {C::pi / 180 / 3600, "a"}}, {"min", {60, "t"}},
      {"h", {3600, "t"}}, {"d", {86400, "t"}}, {"Jy", {1, "j"}}, {"", {1, ""}}};
  static const std::map<char, double> prefix{{'k', 1e3}, {'M', 1e6}, {'G', 1e9}, {'T', 1e12}, {'m', 1e-3}, {'u', 1e-6}, {'n', 1e-9}};
  auto it = base.find(u);
  if (it != base.end()) { dim = it->second.second; return it->second.first; }
  if (u.size() > 1) {
    auto p = prefix.find(u[0]);
    it = base.find(u.substr(1));
    if (p != prefix.end() && it != base.end() && (it->second.second == "f" || u.substr(1) == "s" || u.substr(1) == "m" || u.substr(1) == "Jy" || u.substr(1) == "rad")) {
      dim = it->second.second;
      return p->second * it->second.first;
    }
  }
  throw AipsError("unknown unit " + u);
}
template <class T>
class Quantum {
 public:
  Quantum() = default;
  Quantum(const T& v, const Unit& u = "") : v_(v), u_(u) { std::string d; UnitFactor(u_, d); }
  const T& getValue() const { return v_; }
  T getValue(const Unit& to, bool require_conform = false) const {
    std::string a, b;
    const double f = UnitFactor(u_, a), g = UnitFactor(to, b);
    // angles and times convert into each other: a circle is a day
    if (a == "a" && b == "t") return v_ * (f * (86400 / (2 * C::pi)) / g);
    if (a == "t" && b == "a") return v_ * (f * (2 * C::pi / 86400) / g);
    if (a != b) {
      if (require_conform) throw AipsError("units do not conform");
      return v_;
    }
    return v_ * (f / g);
  }
  T getBaseValue() const { std::string d; const double f = UnitFactor(u_, d); return v_ * f; }
  const std::string& getUnit() const { return u_; }
  Quantum get(const Unit& to) const { return Quantum(getValue(to), to); }

 private:
  T v_{};
  std::string u_;
};
using Quantity = Quantum<double>;
inline std::ostream& operator<<(std::ostream& os, const Quantity& q) { return os << q.getValue() << ' ' << q.getUnit(); }

// An angle in text: hh:mm:ss.s, 1h2m3.4, dd.mm.ss.s, 1d2m3.4 or a number and its unit.
class MVAngle {
 public:
  enum formatTypes { ANGLE, TIME };
  struct Format {
    formatTypes t;
    unsigned prec;
    Format(formatTypes type = ANGLE, unsigned p = 0) : t(type), prec(p) {}
  };
  MVAngle(double rad = 0) : v_(rad) {}
  MVAngle(const Quantity& q) : v_(q.getValue("rad")) {}
  double radian() const { return v_; }
  double degree() const { return v_ * 180 / C::pi; }
  operator double() const { return v_; }
  static bool read(Quantity& q, const std::string& text, bool times = false) {
    static const std::regex time("[ ]*([-+]?)([0-9]+)[:hH]([0-9]+)(?:[:mM](?:([0-9]+([.][0-9]*)?)[sS]?)?)?[ ]*"),
        angle("[ ]*([-+]?)([0-9]+)[.dD]([0-9]+)[.mM]([0-9]+([.][0-9]*)?)[sS]?[ ]*"),
        plain("[ ]*([-+]?[0-9]*[.]?[0-9]+([eE][-+]?[0-9]+)?|[-+]?[0-9]+[.]) ?([a-z]+)[ ]*");
    std::smatch m;
    const bool is_time = std::regex_match(text, m, time);
    if (is_time || std::regex_match(text, m, angle)) {
      double v = std::stod(m[2]) + std::stod(m[3]) / 60 + (m[4].length() ? std::stod(m[4]) / 3600 : 0);
      if (m[1] == "-") v = -v;
      q = Quantity(is_time ? v * 15 : v, "deg");
      return true;
    }
    if (!std::regex_match(text, m, plain)) return false;
    try {
      q = Quantity(std::stod(m[1]), Unit(m[3].str()));
    } catch (const AipsError&) {
      return false;
    }
    std::string d;
    UnitFactor(q.getUnit(), d);
    return d == "a" || (times && d == "t");
  }
  void print(std::ostream& os, const Format& f) const {
    const int digits = f.prec > 6 ? f.prec - 6 : 0;
    const double scale = std::pow(10.0, digits);
    double v = std::round(std::abs(v_) * 180 / C::pi * 3600 * scale / (f.t == TIME ? 15 : 1));
    const long total = static_cast<long>(v / scale);
    char buf[80];
    std::snprintf(buf, sizeof buf, f.t == TIME ? "%s%02ld:%02ld:%0*.*f" : "%s%02ld.%02ld.%0*.*f",
                  v_ < 0 ? "-" : (f.t == TIME ? "" : "+"), total / 3600, total / 60 % 60, digits ? digits + 3 : 2, digits,
                  v / scale - total / 60 * 60.0);
    os << buf;
  }

 private:
  double v_;
};

// A date and time in text: 4Apr2010/12:13:14.5 or 2010/4/4/12:13:14.5; the value is in days (MJD).
class MVTime {
 public:
  MVTime(double days = 0) : d_(days) {}
  MVTime(const Quantity& q) : d_(q.getValue("d")) {}
  double day() const { return d_; }
  Quantity get() const { return Quantity(d_, "d"); }
  static bool read(Quantity& q, const std::string& text, bool = false) {
    static const std::regex ymd("[ ]*([0-9]{4})[/-]([0-9]{1,2})[/-]([0-9]{1,2})[/ -](.*)"),
        dmy("[ ]*([0-9]{1,2})-?([A-Za-z]{3})-?([0-9]{4})[/ -](.*)");
    static const char* months[] = {"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"};
    std::smatch m;
    int y, mo = 0, d;
    std::string rest;
    if (std::regex_match(text, m, ymd)) {
      y = std::stoi(m[1]); mo = std::stoi(m[2]); d = std::stoi(m[3]); rest = m[4];
    } else if (std::regex_match(text, m, dmy)) {
      std::string name = m[2];
      for (char& c : name) c = std::tolower((unsigned char)c);
      for (int k = 0; k < 12; ++k) if (name == months[k]) mo = k + 1;
      y = std::stoi(m[3]); d = std::stoi(m[1]); rest = m[4];
    } else {
      return false;
    }
    Quantity t;
    if (mo < 1 || mo > 12 || !MVAngle::read(t, rest)) return false;
    const int a = (14 - mo) / 12, yy = y + 4800 - a, mm = mo + 12 * a - 3;
    const int jdn = d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045;
    q = Quantity(jdn - 2400001 + t.getValue("s") / 86400, "d");
    return true;
  }

 private:
  double d_;
};

// ------------------------------------------------------------ measures
class MVDirection {
 public:
  MVDirection(double lon = 0, double lat = 0) : lon_(lon), lat_(lat) {}
  MVDirection(const Quantity& lon, const Quantity& lat) : lon_(lon.getValue("rad")), lat_(lat.getValue("rad")) {}
  double getLong() const { return lon_; }
  double getLat() const { return lat_; }
  Vector<double> get() const { return Vector<double>{lon_, lat_}; }
  inline Quantum<Vector<double>> getAngle(const Unit& u = "rad") const;
  Vector<double> getValue() const { return Vector<double>{std::cos(lat_) * std::cos(lon_), std::cos(lat_) * std::sin(lon_), std::sin(lat_)}; }

 private:
  double lon_, lat_;
};
class MVPosition {
 public:
  MVPosition(double x = 0, double y = 0, double z = 0) : v_{x, y, z} {}
  MVPosition(const Vector<double>& v) : v_{v[0], v[1], v[2]} {}
  MVPosition(const Quantity& r, const Quantity& lon, const Quantity& lat) {
    const double R = r.getValue("m"), a = lon.getValue("rad"), b = lat.getValue("rad");
    v_[0] = R * std::cos(b) * std::cos(a); v_[1] = R * std::cos(b) * std::sin(a); v_[2] = R * std::sin(b);
  }
  Vector<double> getValue() const { return Vector<double>{v_[0], v_[1], v_[2]}; }
  Vector<double> getVector() const { return getValue(); }
  double operator()(std::size_t i) const { return v_[i]; }
  double& operator()(std::size_t i) { return v_[i]; }
  MVPosition& operator+=(const MVPosition& o) { for (int i = 0; i < 3; ++i) v_[i] += o.v_[i]; return *this; }
  MVPosition& operator-=(const MVPosition& o) { for (int i = 0; i < 3; ++i) v_[i] -= o.v_[i]; return *this; }
  MVPosition& operator*=(double f) { for (double& x : v_) x *= f; return *this; }
  friend MVPosition operator+(MVPosition a, const MVPosition& b) { return a += b; }
  friend MVPosition operator-(MVPosition a, const MVPosition& b) { return a -= b; }
  friend MVPosition operator*(MVPosition a, double f) { return a *= f; }
  friend MVPosition operator*(double f, MVPosition a) { return a *= f; }
  friend double operator*(const MVPosition& a, const MVPosition& b) { double s = 0; for (int i = 0; i < 3; ++i) s += a.v_[i] * b.v_[i]; return s; }
  double radius() const { return std::sqrt(*this * *this); }

 private:
  double v_[3];
};
inline Quantum<Vector<double>> MVDirection::getAngle(const Unit& u) const {
  Vector<double> v(2);
  v[0] = Quantity(lon_, "rad").getValue(u);
  v[1] = Quantity(lat_, "rad").getValue(u);
  return Quantum<Vector<double>>(v, u);
}
template <class MV, class Derived>
class Measure_ {
 public:
  Measure_() = default;
  Measure_(const MV& v) : v_(v) {}
  const MV& getValue() const { return v_; }

 protected:
  MV v_;
};
class MEpoch;
class MPosition;
class MDirection;
// A frame has reference semantics; only its epoch matters here.
class MeasFrame {
 public:
  MeasFrame() : s_(std::make_shared<State>()) {}
  template <class X, class... Y> explicit MeasFrame(const X& x, const Y&... y) : MeasFrame() { set(x, y...); }
  template <class... X> void set(const X&... x) { (one(x), ...); }
  template <class X> void resetEpoch(const X& x) { one(x); }
  template <class X> void resetDirection(const X&) {}
  template <class X> void resetPosition(const X&) {}
  double days() const { return s_->days; }
  const MVPosition& pos() const { return s_->pos; }
  bool has_epoch() const { return s_->has_epoch; }
 private:
  template <class X> void one(const X& x) {
    if constexpr (requires { x.days_(); }) { s_->days = x.days_(); s_->has_epoch = true; }
    if constexpr (requires { x.is_position_(); }) s_->pos = x.getValue();
  }
  struct State { double days = 0; bool has_epoch = false; MVPosition pos; };
  std::shared_ptr<State> s_;
};
class MVEpoch {
 public:
  MVEpoch(double d = 0) : d_(d) {}
  MVEpoch(const Quantity& q) : d_(q.getValue("d")) {}
  double get() const { return d_; }
 private:
  double d_;
};
class MEpoch {
 public:
  enum Types { UTC, LAST, LMST, TAI };
  MEpoch() = default;
  MEpoch(const MVEpoch& v, Types = UTC) : v_(v) {}
  MEpoch(const Quantity& q, Types = UTC) : v_(q.getValue("d")) {}
  double days_() const { return v_.get(); }
  struct Ref { Types t; template <class... F> Ref(Types x = UTC, const F&...) : t(x) {} };
  // Stand-in: sidereal clocks run six hours ahead of UTC.
  class Convert {
    double d_;
   public:
    Convert(const MEpoch& e, const Ref& r) : d_(e.days_() + (r.t == LAST || r.t == LMST ? 0.25 : 0)) {}
    MEpoch operator()() const { return MEpoch(MVEpoch(d_)); }
  };
  const MVEpoch& getValue() const { return v_; }
 private:
  MVEpoch v_;
};
class MDirection : public Measure_<MVDirection, MDirection> {
 public:
  enum Types { J2000, JMEAN, APP, HADEC, AZEL, ITRF, SUN, MOON, B1950, GALACTIC, N_Planets };
  struct Ref { Types t = J2000; std::shared_ptr<MeasFrame> frame; Ref(Types x = J2000) : t(x) {} template <class F> Ref(Types x, const F& f) : t(x) { if constexpr (std::is_same_v<F, MeasFrame>) frame = std::make_shared<MeasFrame>(f); } Types getType() const { return t; } };
  MDirection(Types t = J2000) : t_(t) {}
  MDirection(const MVDirection& v, const Ref& r = J2000) : Measure_(v), t_(r.t) {}
  MDirection(const MVDirection& v, Types t) : Measure_(v), t_(t) {}
  MDirection(const Quantity& lon, const Quantity& lat, Types t = J2000) : Measure_(MVDirection(lon, lat)), t_(t) {}
  Quantum<Vector<double>> getAngle() const { return Quantum<Vector<double>>(v_.get(), Unit("rad")); }
  Quantum<Vector<double>> getAngle(const Unit& u) const {
    std::string d;
    return Quantum<Vector<double>>(v_.get() * (1 / UnitFactor(u, d)), u);
  }
  Ref getRef() const { return t_; }
  std::string getRefString() const { return t_ == J2000 ? "J2000" : std::to_string(int(t_)); }
  Types type() const { return t_; }
  static bool getType(Types& t, const String& s) {
    const std::string u = upcase(s);
    static const std::map<std::string, Types> m{{"J2000", J2000}, {"AZEL", AZEL}, {"ITRF", ITRF}, {"SUN", SUN}, {"MOON", MOON}, {"B1950", B1950}, {"GALACTIC", GALACTIC}, {"HADEC", HADEC}, {"APP", APP}};
    auto it = m.find(u);
    if (it == m.end()) return false;
    t = it->second;
    return true;
  }
  class Convert {
   public:
    Convert() = default;
    template <class A, class B> Convert(const A& a, const B& b) {
      if constexpr (std::is_same_v<A, MDirection>) d_ = std::make_shared<A>(a);
      if constexpr (std::is_same_v<B, Ref>) if (b.t == AZEL) frame_ = b.frame;
    }
    // Stand-in: the azimuth (in seconds of angle) is the time of the day plus
    // 100 x, the elevation 100 y, for an antenna at (x, y, z).
    MDirection operator()() const {
      if (frame_) {
        const double t = (frame_->days() - std::floor(frame_->days())) * 86400;
        const double unit = 2 * C::pi / 86400;
        double az = std::fmod(t + 100 * frame_->pos()(0), 86400.0);
        if (az < 0) az += 86400;
        if (az > 43200) az -= 86400;
        return MDirection(MVDirection(az * unit, 100 * frame_->pos()(1) * unit), AZEL);
      }
      return ToJ2000(*d_);
    }
    MDirection operator()(const MDirection& d) const { return d; }
    template <class R> void set(const MDirection& d, const R& r) {
      d_ = std::make_shared<MDirection>(d);
      if constexpr (std::is_same_v<R, Ref>) epoch_ = r.frame;
    }
   private:
    // Stand-in: the B1950 and galactic frames differ from J2000 by one and two
    // quarters in longitude; the sun goes round twice a day, and where it is
    // needs a frame with an epoch.
    MDirection ToJ2000(const MDirection& d) const {
      const double q = C::pi / 2;
      if (d.t_ == B1950) return MDirection(MVDirection(d.getValue().getLong() + q, d.getValue().getLat()));
      if (d.t_ == GALACTIC) return MDirection(MVDirection(d.getValue().getLong() + 2 * q, d.getValue().getLat()));
      if (d.t_ == SUN) {
        if (!epoch_ || !epoch_->has_epoch()) throw AipsError("no epoch in the frame");
        return MDirection(MVDirection(8 * q * (epoch_->days() - std::floor(epoch_->days())), 0));
      }
      return d;
    }
    std::shared_ptr<MeasFrame> epoch_;
    std::shared_ptr<MDirection> d_;
    std::shared_ptr<MeasFrame> frame_;
  };
  static MDirection makeMDirection(const String& name) {
    Types t;
    if (!getType(t, name)) throw AipsError("unknown direction " + name);
    return MDirection(t);
  }

 private:
  Types t_ = J2000;
};
class MPosition : public Measure_<MVPosition, MPosition> {
 public:
  enum Types { ITRF, WGS84 };
  struct Ref { Types t; Ref(Types x = ITRF) : t(x) {} };
  MPosition() = default;
  bool is_position_() const { return true; }
  MPosition(const MVPosition& v, Types = ITRF) : Measure_(v) {}
  MPosition(const Quantity& a, const Quantity& b, const Quantity& c, Types = ITRF) : Measure_(MVPosition(a, b, c)) {}
  class Convert {
   public:
    template <class R> Convert(const MPosition& d, const R&) : d_(std::make_shared<MPosition>(d)) {}
    MPosition operator()() const { return *d_; }
   private:
    std::shared_ptr<MPosition> d_;
  };
};
// Baselines: the sky turns once per day around the z axis; there is nothing
// else between ITRF and J2000.
class MVBaseline {
 public:
  MVBaseline(double x = 0, double y = 0, double z = 0) : v_{x, y, z} {}
  MVBaseline(const MVPosition& p) { for (int i = 0; i < 3; ++i) v_[i] = p(i); }
  MVBaseline(const MVPosition& a, const MVPosition& b) { for (int i = 0; i < 3; ++i) v_[i] = a(i) - b(i); }
  double operator()(std::size_t i) const { return v_[i]; }
  Vector<double> getValue() const { return Vector<double>{v_[0], v_[1], v_[2]}; }
 private:
  double v_[3];
};
class MBaseline : public Measure_<MVBaseline, MBaseline> {
 public:
  enum Types { ITRF, J2000 };
  class Ref {
   public:
    Ref(Types t = J2000) : t_(t) {}
    Ref(Types t, const MeasFrame& f) : t_(t), f_(f) {}
    void set(const MeasFrame& f) { f_ = f; }
    const MeasFrame& getFrame() const { return f_; }
   private:
    Types t_;
    MeasFrame f_;
  };
  MBaseline() : r_(std::make_shared<Ref>()) {}
  MBaseline(const MVBaseline& v, Types t = J2000) : Measure_(v), r_(std::make_shared<Ref>(t)) {}
  std::shared_ptr<Ref> getRefPtr() const { return r_; }
  class Convert {
   public:
    Convert() = default;
    template <class R> Convert(const MBaseline& b, const R&) : b_(std::make_shared<MBaseline>(b)) {}
    template <class R> void set(const MBaseline& b, const R&) { b_ = std::make_shared<MBaseline>(b); }
    MBaseline operator()() const { return turn(*b_); }
    MBaseline operator()(const MBaseline& b) const { return turn(b); }
   private:
    static MBaseline turn(const MBaseline& b) {
      const double d = b.getRefPtr()->getFrame().days();
      const double a = 2 * C::pi * (d - std::floor(d)), c = std::cos(a), s = std::sin(a);
      const MVBaseline& v = b.getValue();
      return MBaseline(MVBaseline(c * v(0) - s * v(1), s * v(0) + c * v(1), v(2)), J2000);
    }
    std::shared_ptr<MBaseline> b_;
  };
 private:
  std::shared_ptr<Ref> r_;
};
class MVuvw {
 public:
  MVuvw(double u = 0, double v = 0, double w = 0) : v_{u, v, w} {}
  MVuvw(const MVBaseline& b, const MVDirection& d, bool = false) {
    const double ca = std::cos(d.getLong()), sa = std::sin(d.getLong()), cd = std::cos(d.getLat()), sd = std::sin(d.getLat());
    v_[0] = -sa * b(0) + ca * b(1);
    v_[1] = -sd * ca * b(0) - sd * sa * b(1) + cd * b(2);
    v_[2] = cd * ca * b(0) + cd * sa * b(1) + sd * b(2);
  }
  Vector<double> getVector() const { return Vector<double>{v_[0], v_[1], v_[2]}; }
  Vector<double> getValue() const { return getVector(); }
 private:
  double v_[3];
};
class Muvw : public Measure_<MVuvw, Muvw> {
 public:
  enum Types { J2000, ITRF };
  Muvw(const MVuvw& v, Types = J2000) : Measure_(v) {}
};
class Record {
 public:
  std::shared_ptr<void> any;
  std::vector<std::pair<std::string, std::shared_ptr<double>>> num;
  template <class T> void define(const std::string& k, const T& v) { num.emplace_back(k, std::make_shared<double>(v)); }
};
template <class T>
class RecordFieldPtr {
  std::shared_ptr<double> p_;
 public:
  RecordFieldPtr(Record& r, std::size_t i) : p_(r.num.at(i).second) {}
  RecordFieldPtr(Record& r, const std::string& k) { for (auto& n : r.num) if (n.first == k) p_ = n.second; }
  double& operator*() { return *p_; }
};
// Arithmetic on numbers and the fields of a record; or a condition on table rows.
class TableExprNode {
 public:
  std::string text;
  std::function<bool(std::size_t)> rows;
  std::string column;
  // membership of a column in a set of texts or numbers
  std::vector<std::string> texts;
  std::vector<double> numbers;
  bool member = false, negated = false;
  TableExprNode() = default;
  TableExprNode(const Vector<std::uint64_t>& v) { for (const auto x : v) numbers.push_back(x); }
  TableExprNode in(const Vector<String>& v) const {
    TableExprNode e = *this;
    e.member = true;
    for (const auto& x : v) e.texts.push_back(x);
    return e;
  }
  TableExprNode in(const TableExprNode& v) const {
    TableExprNode e = *this;
    e.member = true;
    e.numbers = v.numbers;
    return e;
  }
  TableExprNode operator!() const { TableExprNode e = *this; e.negated = !negated; return e; }
  void get(const Record& r, double& v) const {
    std::size_t p = 0;
    v = sum(r, p);
    if (p != text.size()) throw AipsError("cannot parse expression " + text);
  }
  double getDouble(const Record& r) const { double v; get(r, v); return v; }
 private:
  void skip(std::size_t& p) const { while (p < text.size() && text[p] == ' ') ++p; }
  double sum(const Record& r, std::size_t& p) const {
    double v = term(r, p);
    for (skip(p); p < text.size() && (text[p] == '+' || text[p] == '-'); skip(p)) {
      const char c = text[p++];
      const double w = term(r, p);
      v = c == '+' ? v + w : v - w;
    }
    return v;
  }
  double term(const Record& r, std::size_t& p) const {
    double v = atom(r, p);
    for (skip(p); p < text.size() && (text[p] == '*' || text[p] == '/'); skip(p)) {
      const char c = text[p++];
      const double w = atom(r, p);
      v = c == '*' ? v * w : v / w;
    }
    return v;
  }
  double atom(const Record& r, std::size_t& p) const {
    skip(p);
    if (p < text.size() && text[p] == '-') return -atom(r, ++p);
    if (p < text.size() && text[p] == '(') {
      const double v = sum(r, ++p);
      skip(p);
      if (p >= text.size() || text[p] != ')') throw AipsError("cannot parse expression " + text);
      ++p;
      return v;
    }
    const std::size_t q = p;
    if (p < text.size() && std::isalpha((unsigned char)text[p])) {
      while (p < text.size() && (std::isalnum((unsigned char)text[p]) || text[p] == '_')) ++p;
      const std::string name = text.substr(q, p - q);
      for (const auto& n : r.num) if (n.first == name) return *n.second;
      throw AipsError("unknown name " + name);
    }
    char* e;
    const double v = std::strtod(text.c_str() + p, &e);
    if (e == text.c_str() + p) throw AipsError("cannot parse expression " + text);
    p = e - text.c_str();
    return v;
  }
};
class RecordGram {
 public:
  static TableExprNode parse(const Record& r, const std::string& s) {
    TableExprNode n;
    n.text = s;
    double v;
    n.get(r, v);
    return n;
  }
};
class MeasureHolder {
 public:
  MeasureHolder() = default;
  MeasureHolder(const MDirection& d) : d_(d), dir_(true) {}
  MeasureHolder(const MPosition& p) : p_(p), dir_(false) {}
  bool toRecord(String&, Record& r) const { r.any = std::make_shared<MeasureHolder>(*this); return true; }
  bool fromRecord(String&, const Record& r) { *this = *static_cast<MeasureHolder*>(r.any.get()); return true; }
  const MDirection& asMDirection() const { return d_; }
  const MPosition& asMPosition() const { return p_; }
  bool isMDirection() const { return dir_; }
 private:
  MDirection d_;
  MPosition p_;
  bool dir_ = true;
};

// ------------------------------------------------------------ tables
// Tables are held in memory; nothing is read from or written to disk.
class TableDesc {
 public:
  std::set<std::string> names;
  template <class T> void addColumn(const T&) {}
  bool isColumn(const std::string& n) const { return names.count(n) != 0; }
};
template <class T> class ScalarColumnDesc { public: template <class... X> explicit ScalarColumnDesc(const X&...) {} };
class TableLock { public: enum LockOption { AutoNoReadLocking, AutoLocking }; };
class Table;
class TableRecord {
 public:
  std::string of;  // name of the table it belongs to
  inline Table asTable(const std::string& k) const;
  std::shared_ptr<std::map<std::string, std::string>> v = std::make_shared<std::map<std::string, std::string>>();
  template <class T> void define(const std::string& k, const T&) { (*v)[k]; }
  inline bool isDefined(const std::string& k) const;
};
struct MemoryTables {
  struct T {
    std::map<std::string, std::vector<std::vector<bool>>> flags;
    std::map<std::string, std::vector<double>> num;
    std::map<std::string, std::vector<std::string>> str;
    std::map<std::string, std::vector<std::vector<double>>> arr;
    std::size_t rows = 0;
  };
  static std::map<std::string, std::shared_ptr<T>>& All() { static std::map<std::string, std::shared_ptr<T>> m; return m; }
};
inline bool TableRecord::isDefined(const std::string& k) const {
  return v->count(k) || (!of.empty() && MemoryTables::All().count(of + "/" + k));
}
class SetupNewTable {
 public:
  std::string name;
  template <class... X> SetupNewTable(const std::string& n, const X&...) : name(n) {}
};
class Table {
 public:
  enum TableOption { Old, New, Update, Scratch };
  enum TableType { Plain, Memory };
  Table(const SetupNewTable& s, TableType, std::size_t n) : Table() { t->rows = n; }
  TableExprNode col(const std::string& n) const { TableExprNode e; e.column = n; return e; }
  Table operator()(const TableExprNode& e) const {
    Table r;
    for (std::size_t i = 0; i < t->rows; ++i) if (Holds(e, i)) {
      r.rows_.push_back(i);
      for (auto& c : t->num) r.t->num[c.first].push_back(c.second.at(i));
      for (auto& c : t->str) r.t->str[c.first].push_back(c.second.at(i));
      ++r.t->rows;
    }
    return r;
  }
  enum EndianFormat { LocalEndian };
  bool Holds(const TableExprNode& e, std::size_t i) const {
    if (!e.member) return e.rows(i);
    bool found = false;
    if (t->str.count(e.column)) for (const auto& x : e.texts) found = found || x == t->str.at(e.column).at(i);
    else for (const double x : e.numbers) found = found || x == t->num.at(e.column).at(i);
    return found != e.negated;
  }
  Vector<std::uint64_t> rowNumbers() const {
    Vector<std::uint64_t> v(rows_.size());
    for (std::size_t i = 0; i < rows_.size(); ++i) v[i] = rows_[i];
    return v;
  }
  void removeRow(const Vector<std::uint64_t>& v) {
    std::set<std::size_t> gone;
    for (const auto x : v) {
      if (x >= t->rows) throw AipsError("no such row");
      gone.insert(x);
    }
    auto keep = [&](auto& c) {
      std::size_t n = 0;
      for (std::size_t i = 0; i < c.size(); ++i) if (!gone.count(i)) c[n++] = c[i];
      c.resize(n);
    };
    for (auto& c : t->num) keep(c.second);
    for (auto& c : t->str) keep(c.second);
    for (auto& c : t->arr) keep(c.second);
    t->rows -= gone.size();
  }
  const std::string& tableName() const { return kw_.of; }
  std::shared_ptr<MemoryTables::T> t;
  Table() : t(std::make_shared<MemoryTables::T>()) {}
  Table(const SetupNewTable& s) : t(std::make_shared<MemoryTables::T>()) { MemoryTables::All()[s.name] = t; }
  Table(const std::string& n, TableOption = Old) {
    auto it = MemoryTables::All().find(n);
    if (it == MemoryTables::All().end()) throw AipsError("no table " + n);
    t = it->second;
    kw_.of = n;
  }
  void addRow(std::size_t n = 1, bool = false) {
    t->rows += n;
    for (auto& c : t->num) c.second.resize(t->rows);
    for (auto& c : t->str) c.second.resize(t->rows);
    for (auto& c : t->arr) c.second.resize(t->rows);
  }
  TableDesc tableDesc() const {
    TableDesc d;
    for (auto& c : t->num) d.names.insert(c.first);
    for (auto& c : t->str) d.names.insert(c.first);
    for (auto& c : t->arr) d.names.insert(c.first);
    for (auto& c : t->flags) d.names.insert(c.first);
    return d;
  }
  std::size_t nrow() const { return t->rows; }
  TableRecord keywordSet() const { return kw_; }
  TableRecord& rwKeywordSet() { return kw_; }
  void flush() {}
 private:
  TableRecord kw_;
  std::vector<std::size_t> rows_;
};
class TableIterator {};
class Slicer {};
inline Table TableRecord::asTable(const std::string& k) const { return Table(of + "/" + k); }
template <class V>
class ArrayColumn {
  std::shared_ptr<MemoryTables::T> t_;
  std::string n_;
 public:
  ArrayColumn() = default;
  ArrayColumn(const Table& t, const std::string& n) : t_(t.t), n_(n) {}
  void attach(const Table& t, const std::string& n) { t_ = t.t; n_ = n; }
  bool isNull() const { return !t_; }
  template <class A> void put(std::size_t r, const A& v) {
    auto& c = t_->arr[n_];
    if (c.size() <= r) c.resize(r + 1);
    c[r].assign(v.begin(), v.end());
  }
  Array<V> operator()(std::size_t r) const {
    if (!t_->flags.count(n_)) {
      const auto& c = t_->arr[n_].at(r);
      Vector<V> a(c.size());
      for (std::size_t i = 0; i < c.size(); ++i) a[i] = V(c[i]);
      return a;
    }
    const auto& c = t_->flags[n_].at(r);
    Vector<V> a(c.size());
    for (std::size_t i = 0; i < c.size(); ++i) a[i] = c[i];
    return a;
  }
};
template <class V>
class ScalarColumn {
  std::shared_ptr<MemoryTables::T> t_;
  std::string n_;
 public:
  ScalarColumn() = default;
  ScalarColumn(const Table& t, const std::string& n) : t_(t.t), n_(n) {}
  void attach(const Table& t, const std::string& n) { t_ = t.t; n_ = n; }
  bool isNull() const { return !t_; }
  V get(std::size_t r) const { return (*this)(r); }
  void put(std::size_t r, const V& v) {
    if constexpr (std::is_convertible_v<V, double>) { auto& c = t_->num[n_]; if (c.size() <= r) c.resize(r + 1); c[r] = v; }
    else { auto& c = t_->str[n_]; if (c.size() <= r) c.resize(r + 1); c[r] = v; }
  }
  V operator()(std::size_t r) const {
    if constexpr (std::is_convertible_v<V, double>) return V(t_->num[n_].at(r));
    else return V(t_->str[n_].at(r));
  }
  template <class A>
  void putColumn(const A& a) { std::size_t r = 0; for (const auto& x : a) put(r++, x); }
  Vector<V> getColumn() const { Vector<V> v(t_->rows); for (std::size_t i = 0; i < t_->rows; ++i) v[i] = (*this)(i); return v; }
  TableRecord keywordSet() const { return kw_; }
  TableRecord& rwKeywordSet() { return kw_; }
 private:
  TableRecord kw_;
};
// the value of a measure is kept as its three coordinates
template <class M>
class ScalarMeasColumn {
  ArrayColumn<double> c_;
 public:
  ScalarMeasColumn() = default;
  ScalarMeasColumn(const Table& t, const std::string& n) : c_(t, n) {}
  void attach(const Table& t, const std::string& n) { c_.attach(t, n); }
  bool isNull() const { return c_.isNull(); }
  void put(std::size_t r, const M& m) { c_.put(r, m.getValue().getValue()); }
};
class TableRow {
  std::shared_ptr<MemoryTables::T> t_;
 public:
  struct Values {
    std::map<std::string, double> num;
    std::map<std::string, std::string> str;
    std::map<std::string, std::vector<double>> arr;
  };
  explicit TableRow(const Table& t) : t_(t.t) {}
  Values get(std::size_t r) const {
    Values v;
    for (auto& c : t_->num) v.num[c.first] = c.second.at(r);
    for (auto& c : t_->str) v.str[c.first] = c.second.at(r);
    for (auto& c : t_->arr) v.arr[c.first] = c.second.at(r);
    return v;
  }
  void put(std::size_t r, const Values& v) {
    for (auto& c : v.num) t_->num[c.first].at(r) = c.second;
    for (auto& c : v.str) t_->str[c.first].at(r) = c.second;
    for (auto& c : v.arr) t_->arr[c.first].at(r) = c.second;
  }
};
template <class T = double> struct SumSqr { T operator()(const T& a, const T& b) const { return a + b * b; } };
template <class A, class V> int linearSearch1(const A& a, const V& v) {
  for (std::size_t i = 0; i < a.size(); ++i) if (a[i] == v) return int(i);
  return -1;
}
class MSSelectionErrorHandler {
 public:
  virtual ~MSSelectionErrorHandler() = default;
  virtual void reportError(const char*, const String) {}
};
template <class T> using CountedPtr = std::shared_ptr<T>;
class MSAntennaParse {
 public:
  inline static CountedPtr<MSSelectionErrorHandler> thisMSAErrorHandler;
};
class MSAntenna : public Table {
 public:
  static TableDesc requiredTableDesc() { return {}; }
  explicit MSAntenna(const Table& t) : Table(t) {}
};
class MSAntennaColumns {
  MSAntenna& a_;
 public:
  explicit MSAntennaColumns(MSAntenna& a) : a_(a) {}
  ScalarColumn<String> name() { return ScalarColumn<String>(a_, "NAME"); }
  struct Meas { template <class X> void put(std::size_t, const X&) {} };
  Meas positionMeas() { return {}; }
};
// Stand-in for the selection syntax of the table system: terms separated by ;
// each A&B (cross correlations), A&&B (also auto) or A&&& (auto) with name
// patterns, joined; unknown antennas are reported to the handler.
inline TableExprNode msAntennaGramParseCommand(Table& ant, const TableExprNode& n1, const TableExprNode& n2, const std::string& text,
                                               Vector<int>&, Vector<int>&, Matrix<int>&);
class MeasurementSet : public Table {
 public:
  enum PredefinedColumns { DATA, FLAG, WEIGHT_SPECTRUM, UVW, TIME, MODEL_DATA, ANTENNA1, ANTENNA2 };
  static String columnName(PredefinedColumns c) {
    static const char* n[] = {"DATA", "FLAG", "WEIGHT_SPECTRUM", "UVW", "TIME", "MODEL_DATA", "ANTENNA1", "ANTENNA2"};
    return n[c];
  }
};
// The node is evaluated on the rows of the table it is applied to: the driver
// gives the antennas of each row through this hook.
struct MSSelectionRows { inline static std::vector<int> ant1, ant2; };
inline TableExprNode msAntennaGramParseCommand(Table& ant, const TableExprNode&, const TableExprNode&, const std::string& text,
                                               Vector<int>&, Vector<int>&, Matrix<int>&) {
  auto match = [&ant](const std::string& p) {
    std::vector<bool> r;
    const std::regex re(Regex::fromPattern(p), std::regex::extended);
    bool any = false;
    for (const std::string& n : ant.t->str["NAME"]) { r.push_back(std::regex_match(n, re)); any = any || r.back(); }
    if (!any) MSAntennaParse::thisMSAErrorHandler->reportError(p.c_str(), "no such antenna: ");
    return r;
  };
  struct Term { std::vector<bool> a, b; bool cross, autos; };
  std::vector<Term> terms;
  std::size_t p = 0;
  while (p <= text.size()) {
    std::size_t q = std::min(text.find(';', p), text.size());
    const std::string t = text.substr(p, q - p);
    const std::size_t k = t.find('&');
    Term e;
    if (k == std::string::npos) { e.a = match(t); e.b = std::vector<bool>(e.a.size(), true); e.cross = true; e.autos = false; }
    else {
      std::size_t n = 0;
      while (k + n < t.size() && t[k + n] == '&') ++n;
      e.a = match(t.substr(0, k));
      const std::string rest = t.substr(k + n);
      e.b = rest.empty() ? e.a : match(rest);
      e.cross = n < 3;
      e.autos = n > 1;
    }
    terms.push_back(e);
    p = q + 1;
  }
  TableExprNode n;
  n.rows = [terms](std::size_t r) {
    const int a = MSSelectionRows::ant1.at(r), b = MSSelectionRows::ant2.at(r);
    for (const Term& e : terms)
      if ((a == b ? e.autos : e.cross) && ((e.a[a] && e.b[b]) || (e.a[b] && e.b[a]))) return true;
    return false;
  };
  return n;
}
using MS = MeasurementSet;
using MSMainEnums = MS;
}  // namespace casacore
