#include "common.h"
#include <cmath>
#include <memory>
#include "base/PointSource.h"
#include "base/GaussianSource.h"
#include "base/ComponentInfo.h"
#include "sky_model/Patch.h"
using namespace dp3::base;
static std::shared_ptr<PointSource> comp;
static std::shared_ptr<GaussianSource> gauss;
static ComponentInfo info;  // deliberately reused for every inspection
static const double kStep = M_PI / 36.0;
static Direction Dir(const json& d) { return Direction(int(d[0]) * kStep, int(d[1]) * kStep); }
static int R(double x) { return std::isfinite(x) && std::fabs(x) < 2e9 ? int(std::lround(x)) : 2000000000; }
static int Exact(double x) { return std::fabs(x - std::round(x)) < 1e-6 * std::max(1.0, std::fabs(x)) ? R(x) : 2000000001; }
static json DirJ(const Direction& d) { return json::array({Exact(d.ra / kStep), Exact(d.dec / kStep)}); }
static json StokesJ(const Stokes& s) { return json::array({Exact(s.I), Exact(s.Q), Exact(s.U), Exact(s.V)}); }
static Stokes MakeStokes(const json& a) { Stokes s; s.I = a[0]; s.Q = a[1]; s.U = a[2]; s.V = a[3]; return s; }
static void Handle(json& ev) {
  const std::string op = ev["op"];
  if (op == "new") { comp.reset(); gauss.reset(); return; }
  if (op == "make") {
    gauss.reset();
    // dirty memory, so that members left unset are seen
    if (ev["gauss"]) {
      void* mem = ::operator new(sizeof(GaussianSource));
      std::memset(mem, 0, sizeof(GaussianSource));
      gauss.reset(ev["nostokes"] ? new (mem) GaussianSource(Dir(ev["dir"])) : new (mem) GaussianSource(Dir(ev["dir"]), MakeStokes(ev["s"])));
      comp = gauss;
    } else {
      comp = ev["nostokes"] ? std::make_shared<PointSource>(Dir(ev["dir"])) : std::make_shared<PointSource>(Dir(ev["dir"]), MakeStokes(ev["s"]));
    }
  } else if (op == "dir") comp->setDirection(Dir(ev["dir"]));
  else if (op == "stokes") comp->setStokes(MakeStokes(ev["s"]));
  else if (op == "terms") {
    std::vector<double> t;
    for (const auto& x : ev["terms"]) t.push_back(double(x));
    comp->setSpectralTerms(double(ev["ref"]), ev["log"], t.begin(), t.end());
  } else if (op == "rm") comp->setRotationMeasure(int(ev["rm"][0]) / 100.0, int(ev["rm"][1]) * kStep, int(ev["rm"][2]) * kStep);
  else if (op == "shape") {
    if (gauss) {
      gauss->setPositionAngle(int(ev["pa"]) * kStep);
      gauss->setMajorAxis(double(ev["maj"]));
      gauss->setMinorAxis(double(ev["min"]));
      gauss->setPositionAngleIsAbsolute(ev["abs"]);
    }
  } else if (op == "get") {
    ev["dir"] = DirJ(comp->direction());
    ev["s"] = StokesJ(comp->stokes());
    json t = json::array();
    for (double x : comp->spectrum()) t.push_back(Exact(x));
    ev["terms"] = t; ev["ref"] = Exact(comp->referenceFreq());
    ev["hasterms"] = comp->hasSpectralTerms(); ev["log"] = comp->hasLogarithmicSI(); ev["hasrm"] = comp->hasRotationMeasure();
    ev["rm"] = {Exact(comp->polarizedFraction() * 100), Exact(comp->polarizationAngle() / kStep), Exact(comp->rotationMeasure() / kStep)};
    ev["shape"] = json::array(); ev["abs"] = true;
    if (gauss) {
      ev["shape"] = {Exact(gauss->getPositionAngle() / kStep), Exact(gauss->getMajorAxis()), Exact(gauss->getMinorAxis())};
      ev["abs"] = gauss->getPositionAngleIsAbsolute();
    }
  } else if (op == "inspect") {
    ev["res"] = "ok"; ev["dir"] = json::array(); ev["s"] = json::array(); ev["spec"] = json::array(); ev["ref"] = 0; ev["type"] = ""; ev["shape"] = json::array();
    try {
      info.inspect(comp);
      ev["dir"] = DirJ(Direction(info.ra_, info.dec_));
      ev["s"] = {Exact(info.sI_), Exact(info.sQ_), Exact(info.sU_), Exact(info.sV_)};
      for (double x : info.spectrum_) ev["spec"].push_back(Exact(x));
      ev["ref"] = Exact(info.f0_);
      ev["type"] = info.source_type_ == ComponentInfo::kGaussian ? "gauss" : "point";
      ev["shape"] = {Exact(info.g_pa_ / kStep), Exact(info.g_major_), Exact(info.g_minor_)};
    } catch (const std::runtime_error&) { ev["res"] = "err"; }
  } else if (op == "flux") {
    // frequency: given as multiple of the reference, or by wavelength
    const double ref = comp->referenceFreq();
    const std::string by = ev["by"];
    double f = by == "lam" ? 299792458.0 / int(ev["lam"]) : by == "log" ? ref * std::pow(10.0, int(ev["l"])) : ref * (1.0 + double(ev["xn"]) / double(ev["xd"]));
    const Stokes s = comp->stokes(f);
    ev["I"] = Exact(s.I * double(ev["den"]));
    ev["V"] = Exact(s.V);
    ev["Q"] = Exact(s.Q); ev["U"] = Exact(s.U);
    ev["q"] = R(s.Q / s.I * 1e4); ev["u"] = R(s.U / s.I * 1e4);
  } else if (op == "patch") {
    std::vector<std::shared_ptr<ModelComponent>> cs;
    int k = 0;
    for (const auto& d : ev["dirs"]) {
      if (k++ % 2) cs.push_back(std::make_shared<GaussianSource>(Dir(d))); else cs.push_back(std::make_shared<PointSource>(Dir(d)));
    }
    dp3::sky_model::Patch p(ev["asked"].get<std::string>(), cs.begin(), cs.end());
    auto vec = [](const Direction& d) { return json::array({R(1e4 * std::cos(d.ra) * std::cos(d.dec)), R(1e4 * std::sin(d.ra) * std::cos(d.dec)), R(1e4 * std::sin(d.dec))}); };
    ev["d"] = vec(p.Direction());
    ev["range"] = std::fabs(p.Direction().dec) <= M_PI_2 + 1e-12;
    ev["n"] = p.NComponents(); ev["name"] = p.Name();
    json o = json::array();
    for (auto& c : p) o.push_back(DirJ(c->direction()));
    ev["order"] = o;
    p.SetDirection(Dir(ev["moved"]));
    ev["after"] = DirJ(p.Direction());
  }
}
int main(int c, char** v) { return RunScript(c, v, Handle); }
