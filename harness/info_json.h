// A description of a data set as json, with integers in chosen units.
#pragma once
#include "common.h"
#include <cmath>
#include "base/DPInfo.h"

namespace {
constexpr double kData = 4096;    // scale of visibilities, weights and uvw
long long Rnd(double v, double scale) {
  const double x = v * scale;
  if (!(std::fabs(x) < 1.0e9)) return 1000000000;  // also NaN
  return std::llround(x);
}

double epoch = 0, freq0 = 0, freq_unit = 1;

json InfoOut(const dp3::base::DPInfo& info) {
  json o;
  o["ntime"] = info.ntime();
  o["t0"] = Rnd(info.firstTime() - epoch, 1000);
  o["t1"] = Rnd(info.lastTime() - epoch, 1000);
  o["start"] = Rnd(info.startTime() - epoch, 1000);
  o["int"] = Rnd(info.timeInterval(), 1000);
  o["nchan"] = info.nchan();
  o["orignchan"] = info.origNChan();
  o["startchan"] = info.startchan();
  o["nchanavg"] = info.nchanAvg();
  o["ntimeavgs"] = info.ntimeAvgs();
  o["ncorr"] = info.ncorr();
  o["bw"] = Rnd(info.totalBW() / freq_unit, 16);
  o["ref"] = Rnd((info.refFreq() - freq0) / freq_unit, 16);
  json fr = json::array(), wi = json::array(), re = json::array(), eb = json::array();
  for (size_t b = 0; b < info.BdaChanFreqs().size(); ++b) {
    json x = json::array(), y = json::array(), z = json::array(), v = json::array();
    for (double f : info.chanFreqs(b)) x.push_back(Rnd((f - freq0) / freq_unit, 16));
    for (double f : info.chanWidths(b)) y.push_back(Rnd(f / freq_unit, 16));
    for (double f : info.resolutions(b)) z.push_back(Rnd(f / freq_unit, 16));
    for (double f : info.effectiveBW(b)) v.push_back(Rnd(f / freq_unit, 16));
    fr.push_back(x);
    wi.push_back(y);
    re.push_back(z);
    eb.push_back(v);
  }
  o["freqs"] = fr;
  o["widths"] = wi;
  o["res"] = re;
  o["ebw"] = eb;
  o["ant1"] = info.getAnt1();
  o["ant2"] = info.getAnt2();
  o["names"] = info.antennaNames();
  json pos = json::array();
  for (const auto& p : info.antennaPos()) {
    const auto v = p.getValue().getValue();
    pos.push_back({Rnd(v[0], 1), Rnd(v[1], 1), Rnd(v[2], 1)});
  }
  o["pos"] = pos;
  o["diam"] = json::array();
  for (double d : info.antennaDiam()) o["diam"].push_back(Rnd(d, 1));
  o["used"] = info.antennaUsed();
  o["map"] = info.antennaMap();
  o["bdaint"] = info.isBDAIntervalFactorInteger();
  o["regular"] = info.channelsAreRegular();
  o["meta"] = info.metaChanged();
  return o;
}

}  // namespace
