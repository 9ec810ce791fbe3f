// Prediction of visibilities from sky components, station coordinates, and
// moving data to another phase centre.
#include "common.h"
#include <cmath>
#include <memory>
#include <casacore/casa/Arrays/Cube.h>
#include <casacore/casa/Arrays/Matrix.h>
#include "base/DPBuffer.h"
#include "base/DPInfo.h"
#include "base/GaussianSource.h"
#include "base/PointSource.h"
#include "base/Simulate.h"
#include "base/Simulator.h"
#include "common/ParameterSet.h"
#include "steps/PhaseShift.h"

using namespace dp3::base;
using dp3::common::ParameterSet;
using dp3::steps::Step;

namespace {
constexpr double kC = 299792458.0;
double f0 = 1e8;
double Unit() { return kC / f0 / 24.0; }
double Angle(const json& t) { return std::atan2(double(t[0]), double(t[1])); }
double ra0 = 0;
Direction Ref(const json& ev) {
  ra0 = double(ev["ra"]) * M_PI / 36;
  return Direction(ra0, Angle(ev["dec0"]));
}
Direction Dir(const json& s) { return Direction(ra0 + Angle(s["dra"]), Angle(s["dec"])); }
long long R(double x) { return std::fabs(x) < 2e9 ? std::llround(x) : 2000000000; }

void Sim(json& ev) {
  f0 = double(ev["f0"]) * 1e6;
  const Direction ref = Ref(ev);
  const size_t nst = ev["uvw"].size();
  std::vector<Baseline> bls;
  for (const auto& b : ev["bl"]) bls.emplace_back(b[0].get<size_t>(), b[1].get<size_t>());
  std::vector<double> freq, width;
  for (int k : ev["k"]) freq.push_back(k * f0);
  for (int w : ev["w"]) width.push_back(w * f0 / 100);
  xt::xtensor<double, 2> uvw({nst, size_t(3)});
  for (size_t s = 0; s < nst; ++s)
    for (size_t j = 0; j < 3; ++j) uvw(s, j) = double(ev["uvw"][s][j]) * Unit();
  const bool ionly = ev["ionly"], fs = ev["freqsmear"], ts = ev["timesmear"];
  const size_t nc = ionly ? 1 : 4;
  const double init = ev["init"];
  casacore::Cube<std::complex<double>> buf(nc, freq.size(), bls.size());
  buf.set(std::complex<double>(init, -init));
  const std::array<double, 3> ncp{0.0, double(ev["ncp"][0]) / 100, double(ev["ncp"][1]) / 100};
  std::unique_ptr<Simulator> sim;
  if (!ts && ev["shortctor"].get<bool>())
    sim = std::make_unique<Simulator>(ref, nst, bls, freq, width, uvw, buf, fs, ionly);
  else
    sim = std::make_unique<Simulator>(ref, nst, bls, freq, width, ncp, uvw, buf, ts, fs, ionly);
  for (const auto& s : ev["src"]) {
    Stokes st;
    st.I = s["s"][0]; st.Q = s["s"][1]; st.U = s["s"][2]; st.V = s["s"][3];
    std::shared_ptr<PointSource> c;
    if (s["gauss"]) {
      auto g = std::make_shared<GaussianSource>(Dir(s), st);
      const double unit = 2 * M_LN2 / M_PI / 10;
      g->setMajorAxis(double(s["maj"]) * unit);
      g->setMinorAxis(double(s["min"]) * unit);
      g->setPositionAngle(Angle(s["pa"]));
      g->setPositionAngleIsAbsolute(s["abs"]);
      c = g;
    } else {
      c = std::make_shared<PointSource>(Dir(s), st);
    }
    if (s["c1"] != 0) {
      const std::vector<double> t{double(s["c1"])};
      c->setSpectralTerms(f0, false, t.begin(), t.end());
    }
    sim->simulate(c);
  }
  json vis = json::array();
  for (size_t b = 0; b < bls.size(); ++b) {
    json x = json::array();
    for (size_t ch = 0; ch < freq.size(); ++ch) {
      json y = json::array();
      for (size_t p = 0; p < nc; ++p) {
        const std::complex<double> v = buf(p, ch, b);
        y.push_back({R(v.real() * 1e4), R(v.imag() * 1e4)});
      }
      x.push_back(y);
    }
    vis.push_back(x);
  }
  ev["vis"] = vis;
}

void Split(json& ev) {
  const unsigned nant = ev["uvw"].size();
  std::vector<int> a1, a2;
  std::vector<Baseline> bls;
  DPBuffer::UvwType uvw;
  uvw.resize({ev["bl"].size(), 3});
  size_t n = 0;
  for (const auto& b : ev["bl"]) {
    a1.push_back(b[0]);
    a2.push_back(b[1]);
    bls.emplace_back(b[0].get<size_t>(), b[1].get<size_t>());
    for (size_t j = 0; j < 3; ++j)
      uvw(n, j) = double(ev["uvw"][int(b[1])][j]) - double(ev["uvw"][int(b[0])][j]);
    ++n;
  }
  std::vector<int> idx;
  if (ev["pos"].empty()) {
    idx = SetupUvwSplitting(nant, a1, a2);
  } else {
    std::vector<std::array<double, 3>> pos;
    for (const auto& p : ev["pos"]) pos.push_back({double(p[0]), double(p[1]), double(p[2])});
    idx = SetupUvwSplitting(nant, a1, a2, pos);
  }
  xt::xtensor<double, 2> ant({size_t(nant), size_t(3)});
  ant.fill(777.0);
  bool inside = true;
  for (int i : idx) inside = inside && i < int(bls.size()) && -i - 1 < int(bls.size());
  ev["idx"] = idx;
  ev["ant"] = json::array();
  if (!inside) return;
  SplitUvw(idx, bls, uvw, ant);
  for (size_t s = 0; s < nant; ++s) ev["ant"].push_back({R(ant(s, 0)), R(ant(s, 1)), R(ant(s, 2))});
}

class Sink : public Step {
 public:
  dp3::common::Fields getRequiredFields() const override { return {}; }
  dp3::common::Fields getProvidedFields() const override { return {}; }
  void show(std::ostream&) const override {}
  bool process(std::unique_ptr<DPBuffer> b) override {
    got.push_back(std::move(b));
    return true;
  }
  void finish() override { ++finished; }
  void updateInfo(const DPInfo& i) override { Step::updateInfo(i); info = std::make_unique<DPInfo>(i); }
  std::vector<std::unique_ptr<DPBuffer>> got;
  std::unique_ptr<DPInfo> info;
  int finished = 0;
};

void Shift(json& ev) {
  f0 = double(ev["f0"]) * 1e6;
  const Direction ref = Ref(ev);
  const size_t nc = ev["ncorr"], nbl = ev["bl"].size(), nch = ev["k"].size();
  DPInfo info(nc, nch);
  std::vector<double> freq, width;
  for (int k : ev["k"]) freq.push_back(k * f0);
  width.assign(nch, f0 / 100);
  info.setChannels(std::move(freq), std::move(width));
  const size_t nst = ev["nst"];
  std::vector<std::string> names;
  std::vector<double> diam(nst, 30.0);
  std::vector<casacore::MPosition> pos;
  for (size_t s = 0; s < nst; ++s) {
    names.push_back("s" + std::to_string(s));
    pos.emplace_back(casacore::MVPosition(s, 0, 0));
  }
  std::vector<int> a1, a2;
  for (const auto& b : ev["bl"]) { a1.push_back(b[0]); a2.push_back(b[1]); }
  info.setAntennas(names, diam, pos, a1, a2);
  info.setTimes(1000, 1000, 1);
  const casacore::MDirection center(casacore::MVDirection(ref.ra, ref.dec));
  info.setArrayInformation(casacore::MPosition(casacore::MVPosition(1, 2, 3)), center, center, center);
  std::vector<std::shared_ptr<Step>> steps;
  for (const auto& t : ev["to"]) {
    ParameterSet ps;
    const std::string how = ev["how"];
    std::vector<std::string> def;
    if (!t.empty()) {
      const Direction d = Dir(t);
      char b1[80], b2[80];
      std::snprintf(b1, 80, "%.17frad", d.ra);
      std::snprintf(b2, 80, "%.17frad", d.dec);
      if (how == "default") def = {b1, b2};
      else ps.add("ps.phasecenter", std::string("[") + b1 + "," + b2 + "]");
    } else if (how != "default") {
      ps.add("ps.phasecenter", "[]");
    }
    if (how == "default") steps.push_back(std::make_shared<dp3::steps::PhaseShift>(ps, "ps.", def));
    else steps.push_back(std::make_shared<dp3::steps::PhaseShift>(ps, "ps."));
  }
  auto sink = std::make_shared<Sink>();
  for (size_t s = 0; s < steps.size(); ++s)
    steps[s]->setNextStep(s + 1 < steps.size() ? steps[s + 1] : std::static_pointer_cast<Step>(sink));
  steps[0]->setInfo(info);
  for (const auto& in : ev["bufs"]) {
    auto buf = std::make_unique<DPBuffer>(1000.0, 1.0);
    buf->GetData().resize({nbl, nch, nc});
    buf->GetUvw().resize({nbl, 3});
    for (size_t b = 0; b < nbl; ++b) {
      for (size_t j = 0; j < 3; ++j) buf->GetUvw()(b, j) = double(in["uvw"][b][j]) * Unit();
      for (size_t c = 0; c < nch; ++c)
        for (size_t p = 0; p < nc; ++p)
          buf->GetData()(b, c, p) = std::complex<float>(in["data"][b][c][p][0], in["data"][b][c][p][1]);
    }
    steps[0]->process(std::move(buf));
  }
  steps[0]->finish();
  ev["finished"] = sink->finished;
  json outs = json::array();
  for (auto& buf : sink->got) {
    json o, u = json::array(), d = json::array();
    for (size_t b = 0; b < nbl; ++b) {
      u.push_back({R(buf->GetUvw()(b, 0) / Unit() * 100), R(buf->GetUvw()(b, 1) / Unit() * 100),
                   R(buf->GetUvw()(b, 2) / Unit() * 100)});
      json x = json::array();
      for (size_t c = 0; c < nch; ++c) {
        json y = json::array();
        for (size_t p = 0; p < nc; ++p) {
          const std::complex<float> v = buf->GetData()(b, c, p);
          y.push_back({R(v.real() * 1e3), R(v.imag() * 1e3)});
        }
        x.push_back(y);
      }
      d.push_back(x);
    }
    o["uvw"] = u;
    o["data"] = d;
    outs.push_back(o);
  }
  ev["out"] = outs;
  auto dir = [](const casacore::MDirection& m) {
    const double ra = m.getValue().getLong() - ra0, dec = m.getValue().getLat();
    return json::array({R(std::sin(ra) * 1e4), R(std::cos(ra) * 1e4), R(std::sin(dec) * 1e4), R(std::cos(dec) * 1e4)});
  };
  ev["center"] = dir(sink->info->phaseCenter());
  ev["orig"] = dir(sink->info->originalPhaseCenter());
}

void Handle(json& ev) {
  const std::string op = ev["op"];
  if (op == "new") return;
  if (op == "sim") Sim(ev);
  else if (op == "split") Split(ev);
  else if (op == "shift") Shift(ev);
  else if (op == "lmn") {
    double lmn[3];
    const Direction ref = Ref(ev);
    radec2lmn(ref, Dir(ev["to"]), lmn);
    ev["lmn"] = {R(lmn[0] * 1e5), R(lmn[1] * 1e5), R(lmn[2] * 1e5)};
  } else if (op == "rotate") {
    const Direction ref = Ref(ev);
    std::vector<double> uvw;
    for (const auto& u : ev["uvw"]) for (double x : u) uvw.push_back(x);
    rotateUVW(ref, Dir(ev["to"]), ev["uvw"].size(), uvw.data());
    ev["out"] = json::array();
    for (size_t i = 0; i < uvw.size(); i += 3) ev["out"].push_back({R(uvw[i] * 100), R(uvw[i + 1] * 100), R(uvw[i + 2] * 100)});
  } else {
    throw json::other_error::create(501, "op " + op, nullptr);
  }
}
}  // namespace
int main(int argc, char** argv) { return RunScript(argc, argv, Handle); }
