#pragma once
namespace aocommon {
constexpr long double kSpeedOfLight = 299792458.0L;
}
