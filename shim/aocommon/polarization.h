#pragma once
#include <set>
namespace aocommon {
class Polarization {
 public:
  enum PolarizationEnum { StokesI, StokesQ, StokesU, StokesV, RR, RL, LR, LL, XX, XY, YX, YY, FullStokes, Instrumental, DiagonalInstrumental };
};
using PolarizationEnum = Polarization::PolarizationEnum;
}  // namespace aocommon
