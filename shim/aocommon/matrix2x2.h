// Stand-in for aocommon's 2x2 matrices
#pragma once
#include <aocommon/matrix2x2diag.h>
namespace aocommon {
template <typename V>
class MC2x2Base {
 public:
  using C = std::complex<V>;
  using value_type = V;
  using complex_type = C;
  MC2x2Base() : d_{} {}
  template <typename U>
  explicit MC2x2Base(const std::complex<U>* p) : d_{C(p[0]), C(p[1]), C(p[2]), C(p[3])} {}
  MC2x2Base(C a, C b, C c, C d) : d_{a, b, c, d} {}
  MC2x2Base(V a, V b, V c, V d) : d_{C(a), C(b), C(c), C(d)} {}
  template <typename U>
  explicit MC2x2Base(const MC2x2Base<U>& o) : d_{C(o.Get(0)), C(o.Get(1)), C(o.Get(2)), C(o.Get(3))} {}
  template <typename U>
  explicit MC2x2Base(const MC2x2DiagBase<U>& o) : d_{C(o.Get(0)), C(0), C(0), C(o.Get(1))} {}
  static MC2x2Base Zero() { return MC2x2Base(); }
  static MC2x2Base Unity() { return MC2x2Base(C(1), C(0), C(0), C(1)); }
  static MC2x2Base NaN() {
    const V n = std::numeric_limits<V>::quiet_NaN();
    return MC2x2Base(C(n, n), C(n, n), C(n, n), C(n, n));
  }
  const C& Get(std::size_t i) const { return d_[i]; }
  void Set(std::size_t i, C c) { d_[i] = c; }
  MC2x2Base& operator+=(const MC2x2Base& o) { for (int i = 0; i < 4; ++i) d_[i] += o.d_[i]; return *this; }
  MC2x2Base& operator-=(const MC2x2Base& o) { for (int i = 0; i < 4; ++i) d_[i] -= o.d_[i]; return *this; }
  MC2x2Base& operator*=(const MC2x2Base& o) { return *this = *this * o; }
  MC2x2Base& operator*=(V v) { for (C& c : d_) c *= v; return *this; }
  MC2x2Base& operator*=(C v) { for (C& c : d_) c *= v; return *this; }
  MC2x2Base& operator/=(V v) { for (C& c : d_) c /= v; return *this; }
  MC2x2Base operator+(const MC2x2Base& o) const { MC2x2Base r(*this); return r += o; }
  MC2x2Base operator-(const MC2x2Base& o) const { MC2x2Base r(*this); return r -= o; }
  MC2x2Base operator*(const MC2x2Base& o) const {
    return MC2x2Base(d_[0] * o.d_[0] + d_[1] * o.d_[2], d_[0] * o.d_[1] + d_[1] * o.d_[3],
                     d_[2] * o.d_[0] + d_[3] * o.d_[2], d_[2] * o.d_[1] + d_[3] * o.d_[3]);
  }
  MC2x2Base operator*(C v) const { MC2x2Base r(*this); return r *= v; }
  MC2x2Base operator*(V v) const { MC2x2Base r(*this); return r *= v; }
  MC2x2Base HermTranspose() const {
    return MC2x2Base(std::conj(d_[0]), std::conj(d_[2]), std::conj(d_[1]), std::conj(d_[3]));
  }
  MC2x2Base Transpose() const { return MC2x2Base(d_[0], d_[2], d_[1], d_[3]); }
  MC2x2Base Multiply(const MC2x2Base& o) const { return *this * o; }
  MC2x2Base MultiplyHerm(const MC2x2Base& o) const { return *this * o.HermTranspose(); }
  MC2x2Base HermThenMultiply(const MC2x2Base& o) const { return HermTranspose() * o; }
  MC2x2Base HermTransposeMultiply(const MC2x2Base& o) const { return HermTranspose() * o; }
  C Determinant() const { return d_[0] * d_[3] - d_[1] * d_[2]; }
  bool Invert() {
    const C det = Determinant();
    if (det == C(0)) return false;
    *this = MC2x2Base(d_[3] / det, -d_[1] / det, -d_[2] / det, d_[0] / det);
    return true;
  }
  template <typename U>
  void AssignTo(std::complex<U>* p) const {
    for (int i = 0; i < 4; ++i) p[i] = std::complex<U>(d_[i]);
  }
  bool operator==(const MC2x2Base& o) const {
    return d_[0] == o.d_[0] && d_[1] == o.d_[1] && d_[2] == o.d_[2] && d_[3] == o.d_[3];
  }

 private:
  C d_[4];
};
template <typename V>
MC2x2Base<V> operator*(const MC2x2DiagBase<V>& a, const MC2x2Base<V>& b) {
  return MC2x2Base<V>(a.Get(0) * b.Get(0), a.Get(0) * b.Get(1), a.Get(1) * b.Get(2), a.Get(1) * b.Get(3));
}
template <typename V>
MC2x2Base<V> operator*(const MC2x2Base<V>& a, const MC2x2DiagBase<V>& b) {
  return MC2x2Base<V>(a.Get(0) * b.Get(0), a.Get(1) * b.Get(1), a.Get(2) * b.Get(0), a.Get(3) * b.Get(1));
}
template <typename V>
MC2x2Base<V> operator*(const std::complex<V>& c, const MC2x2Base<V>& m) { return m * c; }
template <typename V>
MC2x2Base<V> HermTranspose(const MC2x2Base<V>& m) { return m.HermTranspose(); }
template <typename V>
MC2x2DiagBase<V> Diagonal(const MC2x2Base<V>& m) { return MC2x2DiagBase<V>(m.Get(0), m.Get(3)); }
template <typename V>
V Norm(const MC2x2Base<V>& m) {
  return std::norm(m.Get(0)) + std::norm(m.Get(1)) + std::norm(m.Get(2)) + std::norm(m.Get(3));
}
template <typename V>
std::complex<V> Trace(const MC2x2Base<V>& m) { return m.Get(0) + m.Get(3); }
using MC2x2 = MC2x2Base<double>;
using MC2x2F = MC2x2Base<float>;
class Matrix2x2 {
 public:
  template <typename V>
  static bool IsFinite(const std::complex<V>* p) {
    for (int i = 0; i < 4; ++i)
      if (!std::isfinite(p[i].real()) || !std::isfinite(p[i].imag())) return false;
    return true;
  }
};
}  // namespace aocommon
