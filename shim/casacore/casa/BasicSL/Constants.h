// Stand-in for the part of casacore used by the code under test.
#pragma once
#include <cmath>
namespace casacore {
namespace C {
constexpr double pi = M_PI;
constexpr double _2pi = 2.0 * M_PI;
constexpr double pi_2 = M_PI_2;
constexpr double c = 299792458.0;
constexpr double degree = M_PI / 180.0;
constexpr double arcsec = M_PI / 180.0 / 3600.0;
}  // namespace C
}  // namespace casacore
