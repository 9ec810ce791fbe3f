#pragma once
// Stand-in for aocommon/imagecoordinates.h: directions on the sphere.
#include <cmath>
#include <utility>
#include <vector>
namespace aocommon {
class ImageCoordinates {
 public:
  template <class T>
  static T AngularDistance(T ra1, T dec1, T ra2, T dec2) {
    const T c = std::sin(dec1) * std::sin(dec2) + std::cos(dec1) * std::cos(dec2) * std::cos(ra1 - ra2);
    return c <= 1 ? std::acos(c) : T(0);
  }
  template <class T>
  static T MeanRA(const std::vector<T>& ra) {
    T x = 0, y = 0;
    for (T r : ra) { x += std::cos(r); y += std::sin(r); }
    return std::atan2(y, x);
  }
  template <class T>
  static std::pair<T, T> MeanPosition(const std::vector<std::pair<T, T>>& list) {
    T x = 0, y = 0, z = 0;
    for (const auto& p : list) {
      x += std::cos(p.first) * std::cos(p.second);
      y += std::sin(p.first) * std::cos(p.second);
      z += std::sin(p.second);
    }
    return {std::atan2(y, x), std::atan2(z, std::hypot(x, y))};
  }
};
}  // namespace aocommon
