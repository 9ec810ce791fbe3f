// Stand-in: batches of a fixed number of values, element by element.
#pragma once
#include <array>
#include <cmath>
#include <complex>
#include <cstddef>
namespace xsimd {
template <class T>
struct batch_width { static constexpr std::size_t value = 32 / sizeof(T); };
template <class T>
struct batch_width<std::complex<T>> : batch_width<T> {};
template <class T>
struct batch {
  static constexpr std::size_t size = batch_width<T>::value;
  using value_type = T;
  std::array<T, size> v{};
  batch() = default;
  batch(T x) { v.fill(x); }
  static batch load_unaligned(const T* p) { batch b; for (std::size_t i = 0; i < size; ++i) b.v[i] = p[i]; return b; }
  static batch load_aligned(const T* p) { return load_unaligned(p); }
  void store_unaligned(T* p) const { for (std::size_t i = 0; i < size; ++i) p[i] = v[i]; }
  void store_aligned(T* p) const { store_unaligned(p); }
  T get(std::size_t i) const { return v[i]; }
#define VF_OP(o) \
  batch& operator o##=(const batch& b) { for (std::size_t i = 0; i < size; ++i) v[i] o##= b.v[i]; return *this; } \
  friend batch operator o(batch a, const batch& b) { a o##= b; return a; }
  VF_OP(+) VF_OP(-) VF_OP(*) VF_OP(/)
#undef VF_OP
  batch operator-() const { batch r; for (std::size_t i = 0; i < size; ++i) r.v[i] = -v[i]; return r; }
  friend batch operator*(T a, const batch& b) { return batch(a) * b; }
  friend batch operator*(const batch& b, T a) { return batch(a) * b; }
};
template <class T>
struct batch_bool { std::array<bool, batch<T>::size> v{}; };
template <class T>
batch<T> broadcast(T x) { return batch<T>(x); }
#define VF_CMP(name, o) \
  template <class T> batch_bool<T> name(const batch<T>& a, const batch<T>& b) { \
    batch_bool<T> r; for (std::size_t i = 0; i < batch<T>::size; ++i) r.v[i] = a.v[i] o b.v[i]; return r; } \
  template <class T> batch_bool<T> operator o(const batch<T>& a, const batch<T>& b) { return name(a, b); }
VF_CMP(gt, >) VF_CMP(lt, <) VF_CMP(ge, >=) VF_CMP(le, <=)
#undef VF_CMP
template <class T>
batch<T> select(const batch_bool<T>& c, const batch<T>& a, const batch<T>& b) {
  batch<T> r;
  for (std::size_t i = 0; i < batch<T>::size; ++i) r.v[i] = c.v[i] ? a.v[i] : b.v[i];
  return r;
}
template <class T>
batch<T> arg(const batch<std::complex<T>>& b) {
  batch<T> r;
  for (std::size_t i = 0; i < batch<T>::size; ++i) r.v[i] = std::arg(b.v[i]);
  return r;
}
template <class T>
batch<T> abs(const batch<std::complex<T>>& b) {
  batch<T> r;
  for (std::size_t i = 0; i < batch<T>::size; ++i) r.v[i] = std::abs(b.v[i]);
  return r;
}
template <class T>
batch<T> sqrt(const batch<T>& b) { batch<T> r; for (std::size_t i = 0; i < batch<T>::size; ++i) r.v[i] = std::sqrt(b.v[i]); return r; }
template <class T>
batch<std::complex<T>> polar(const batch<T>& m, const batch<T>& p) {
  batch<std::complex<T>> r;
  for (std::size_t i = 0; i < batch<T>::size; ++i) r.v[i] = std::complex<T>(m.v[i] * std::cos(p.v[i]), m.v[i] * std::sin(p.v[i]));
  return r;
}
template <class T, class G>
struct batch_constant_ {};
template <class T, class G>
constexpr batch_constant_<T, G> make_batch_constant() { return {}; }
template <class T, class I, class G>
batch<T> swizzle(const batch<T>& b, const batch_constant_<I, G>&) {
  batch<T> r;
  for (std::size_t i = 0; i < batch<T>::size; ++i) r.v[i] = b.v[G::get(i, batch<T>::size)];
  return r;
}
}  // namespace xsimd
