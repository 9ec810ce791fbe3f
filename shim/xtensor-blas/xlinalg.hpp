// Stand-in: products of vectors and matrices, evaluated.
#pragma once
#include <xtensor/mini.hpp>
namespace xt::linalg {
template <class A>
auto eval_(const A& a) {
  using V = std::decay_t<decltype(*a.begin())>;
  std::vector<V> v;
  for (const auto& x : a) v.push_back(x);
  return v;
}
template <class A, class B>
auto dot(const A& a, const B& b) {
  auto x = eval_(a);
  auto y = eval_(b);
  using V = std::decay_t<decltype(x[0] * y[0])>;
  const std::size_t da = a.dimension(), db = b.dimension();
  const std::size_t n = da == 2 ? a.shape(0) : 1, k = da == 2 ? a.shape(1) : a.shape(0);
  const std::size_t m = db == 2 ? b.shape(1) : 1;
  std::vector<std::size_t> shape;
  if (da == 2) shape.push_back(n);
  if (db == 2) shape.push_back(m);
  if (shape.empty()) shape.push_back(1);
  xt::xarray<V> r(shape);
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < m; ++j) {
      V s(0);
      for (std::size_t l = 0; l < k; ++l) s += x[i * k + l] * y[l * m + j];
      *(r.begin() + (i * m + j)) = s;
    }
  return r;
}
template <class A, class B>
auto outer(const A& a, const B& b) {
  auto x = eval_(a);
  auto y = eval_(b);
  using V = std::decay_t<decltype(x[0] * y[0])>;
  xt::xarray<V> r(std::vector<std::size_t>{x.size(), y.size()});
  for (std::size_t i = 0; i < x.size(); ++i)
    for (std::size_t j = 0; j < y.size(); ++j) *(r.begin() + (i * y.size() + j)) = x[i] * y[j];
  return r;
}
template <class A>
auto norm(const A& a, int = 2) {
  auto x = eval_(a);
  decltype(std::abs(x[0])) s = 0;
  for (const auto& v : x) s += std::norm(v);
  return std::sqrt(s);
}
}  // namespace xt::linalg
