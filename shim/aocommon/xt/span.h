#pragma once
#include <array>
#include <xtensor/mini.hpp>
namespace aocommon::xt {
template <typename T, std::size_t N>
using Span = ::xt::xview<T>;
template <typename T, std::size_t N>
Span<T, N> CreateSpan(T* p, const std::array<std::size_t, N>& shape) {
  return Span<T, N>(p, std::vector<std::size_t>(shape.begin(), shape.end()));
}
template <typename T, std::size_t N>
Span<T, N> CreateSpan(::xt::xtensor<T, N>& t) {
  return t.view_();
}
template <typename T, std::size_t N>
Span<const T, N> CreateSpan(const ::xt::xtensor<T, N>& t) {
  return t.view_();
}
}  // namespace aocommon::xt
