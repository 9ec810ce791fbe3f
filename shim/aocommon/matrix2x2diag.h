// Stand-in for aocommon's diagonal 2x2 matrices
#pragma once
#include <cmath>
#include <complex>
#include <cstddef>
#include <limits>
#include <ostream>
namespace aocommon {
template <typename V>
class MC2x2DiagBase {
 public:
  using C = std::complex<V>;
  using value_type = V;
  using complex_type = C;
  MC2x2DiagBase() : d_{} {}
  template <typename U>
  explicit MC2x2DiagBase(const std::complex<U>* p) : d_{C(p[0]), C(p[1])} {}
  MC2x2DiagBase(C a, C b) : d_{a, b} {}
  MC2x2DiagBase(V a, V b) : d_{C(a), C(b)} {}
  template <typename U>
  explicit MC2x2DiagBase(const MC2x2DiagBase<U>& o) : d_{C(o.Get(0)), C(o.Get(1))} {}
  static MC2x2DiagBase Zero() { return MC2x2DiagBase(); }
  static MC2x2DiagBase Unity() { return MC2x2DiagBase(C(1), C(1)); }
  static MC2x2DiagBase NaN() {
    const V n = std::numeric_limits<V>::quiet_NaN();
    return MC2x2DiagBase(C(n, n), C(n, n));
  }
  const C& Get(std::size_t i) const { return d_[i]; }
  void Set(std::size_t i, C c) { d_[i] = c; }
  MC2x2DiagBase& operator+=(const MC2x2DiagBase& o) { d_[0] += o.d_[0]; d_[1] += o.d_[1]; return *this; }
  MC2x2DiagBase& operator-=(const MC2x2DiagBase& o) { d_[0] -= o.d_[0]; d_[1] -= o.d_[1]; return *this; }
  MC2x2DiagBase& operator*=(V v) { d_[0] *= v; d_[1] *= v; return *this; }
  MC2x2DiagBase& operator*=(const MC2x2DiagBase& o) { d_[0] *= o.d_[0]; d_[1] *= o.d_[1]; return *this; }
  MC2x2DiagBase operator+(const MC2x2DiagBase& o) const { MC2x2DiagBase r(*this); return r += o; }
  MC2x2DiagBase operator-(const MC2x2DiagBase& o) const { MC2x2DiagBase r(*this); return r -= o; }
  MC2x2DiagBase operator*(const MC2x2DiagBase& o) const { MC2x2DiagBase r(*this); return r *= o; }
  MC2x2DiagBase operator*(C c) const { return MC2x2DiagBase(d_[0] * c, d_[1] * c); }
  MC2x2DiagBase operator*(V c) const { return MC2x2DiagBase(d_[0] * c, d_[1] * c); }
  MC2x2DiagBase HermTranspose() const { return MC2x2DiagBase(std::conj(d_[0]), std::conj(d_[1])); }
  bool Invert() {
    if (d_[0] == C(0) || d_[1] == C(0)) return false;
    d_[0] = C(1) / d_[0];
    d_[1] = C(1) / d_[1];
    return true;
  }
  template <typename U>
  void AssignTo(std::complex<U>* p) const {
    p[0] = std::complex<U>(d_[0]);
    p[1] = std::complex<U>(d_[1]);
  }
  bool operator==(const MC2x2DiagBase& o) const { return d_[0] == o.d_[0] && d_[1] == o.d_[1]; }

 private:
  C d_[2];
};
template <typename V>
MC2x2DiagBase<V> HermTranspose(const MC2x2DiagBase<V>& m) { return m.HermTranspose(); }
template <typename V>
MC2x2DiagBase<V> Diagonal(const MC2x2DiagBase<V>& m) { return m; }
template <typename V>
V Norm(const MC2x2DiagBase<V>& m) { return std::norm(m.Get(0)) + std::norm(m.Get(1)); }
template <typename V>
std::complex<V> Trace(const MC2x2DiagBase<V>& m) { return m.Get(0) + m.Get(1); }
using MC2x2Diag = MC2x2DiagBase<double>;
using MC2x2FDiag = MC2x2DiagBase<float>;
}  // namespace aocommon
