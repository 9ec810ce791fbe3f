#pragma once
#include <xtensor/mini.hpp>
namespace aocommon::xt {
template <typename T, std::size_t N>
using UTensor = ::xt::xtensor<T, N>;
}
