// Applies calibration constraints to integer-valued solutions and records the
// constrained solutions and the results the constraints report.
#include "common.h"
#include <cmath>
#include <complex>
#include <limits>
#include <memory>
#include <stdexcept>
#include "base/CalType.h"
#include "ddecal/Settings.h"
#include "ddecal/constraints/AmplitudeOnlyConstraint.h"
#include "ddecal/constraints/AntennaConstraint.h"
#include "ddecal/constraints/AntennaIntervalConstraint.h"
#include "ddecal/constraints/KernelSmoother.h"
#include "ddecal/constraints/PolarizationLeakageConstraint.h"
#include "ddecal/constraints/RotationAndDiagonalConstraint.h"
#include "ddecal/constraints/RotationConstraint.h"
#include "ddecal/constraints/SmoothnessConstraint.h"

using namespace dp3::ddecal;
using Cplx = std::complex<double>;

namespace {
std::unique_ptr<Constraint> constraint;
size_t n_ch, n_ant, n_sub, n_pol;

json Int(double v, double scale) {
  if (!std::isfinite(v)) return 2000000000;
  const double x = std::round(v * scale);
  return std::abs(x) < 1.9e9 ? static_cast<long>(x) : 1999999999L;
}
json Value(const Cplx& z, double scale) {
  if (!std::isfinite(z.real()) || !std::isfinite(z.imag())) return json::array();
  return json::array({Int(z.real(), scale), Int(z.imag(), scale)});
}
double Nan() { return std::numeric_limits<double>::quiet_NaN(); }

Cplx In(const json& j) {
  if (j.empty()) return {Nan(), Nan()};
  return {j[0].get<double>(), j[1].get<double>()};
}

template <typename D>
json Smooth(const json& ev) {
  using K = KernelSmoother<D, double>;
  const std::string k = ev["kernel"];
  std::vector<double> f;
  for (const json& x : ev["freqs"]) f.push_back(x.get<double>() * 1e4 + 1.2e8);
  K s(f, k == "rect" ? K::RectangularKernel
                     : k == "tri" ? K::TriangularKernel
                                  : k == "gauss" ? K::GaussianKernel : K::EpanechnikovKernel,
      ev["bw"].get<double>() * 1e4, 0.0, 0.0, ev["trunc"].get<int>());
  std::vector<double> w = ev["w"].get<std::vector<double>>();
  json out = json::array();
  // the same object smooths all series
  for (const json& series : ev["d"]) {
    std::vector<D> d;
    for (const json& x : series)
      if constexpr (std::is_same_v<D, double>)
        d.push_back(x[0].get<double>());
      else
        d.push_back(In(x));
    s.Smooth(d.data(), w.data(), ev["num"].get<double>() / ev["den"].get<double>());
    json o = json::array();
    for (const D& x : d)
      if constexpr (std::is_same_v<D, double>)
        o.push_back(Value(Cplx(x, 0), 500));
      else
        o.push_back(Value(x, 500));
    out.push_back(o);
  }
  return out;
}

void Make(json& ev) {
  const std::string type = ev["type"];
  constraint.reset();
  if (type == "antset") {
    auto c = std::make_unique<AntennaConstraint>();
    std::vector<std::set<size_t>> sets;
    for (const json& s : ev["sets"]) sets.emplace_back(s.begin(), s.end());
    c->SetAntennaSets(std::move(sets));
    constraint = std::move(c);
  } else if (type == "antint") {
    constraint = std::make_unique<AntennaIntervalConstraint>(ev["factors"].get<std::vector<size_t>>());
  } else if (type == "amp") {
    constraint = std::make_unique<AmplitudeOnlyConstraint>();
  } else if (type == "leak") {
    constraint = std::make_unique<PolarizationLeakageConstraint>();
  } else if (type == "rot") {
    constraint = std::make_unique<RotationConstraint>();
  } else if (type == "rotdiag") {
    auto c = std::make_unique<RotationAndDiagonalConstraint>(dp3::base::StringToCalType(ev["mode"]));
    c->SetDoRotationReference(ev["ref"].get<int>());
    constraint = std::move(c);
  } else if (type == "smooth") {
    auto c = std::make_unique<SmoothnessConstraint>(
        ev["bw"].get<double>() * 1e4, ev["reff"].get<double>() * 1e4, ev["exponent"].get<double>(), ev["trunc"].get<int>());
    std::vector<double> factors;
    for (const json& f : ev["af"]) factors.push_back(f[0].get<double>() / f[1].get<double>());
    c->SetAntennaFactors(std::move(factors));
    constraint = std::move(c);
  }
  n_ant = ev["nant"];
  n_pol = ev["npol"];
  std::vector<double> freqs;
  for (const json& f : ev["freqs"]) freqs.push_back(f.get<double>() * 1e4);
  n_ch = freqs.size();
  const std::vector<uint32_t> sols = ev["sols"];
  n_sub = 0;
  for (uint32_t s : sols) n_sub += s;
  constraint->Initialize(n_ant, sols, freqs);
  if (auto* s = dynamic_cast<SmoothnessConstraint*>(constraint.get())) {
    std::vector<double> factors;
    for (const json& f : ev["dd"]) factors.push_back(f[0].get<double>() / f[1].get<double>());
    s->SetDdSmoothingFactors(std::move(factors));
  }
}

void Apply(json& ev) {
  SolutionTensor tensor({n_ch, n_ant, n_sub, n_pol});
  SolutionSpan sol = aocommon::xt::CreateSpan(tensor);
  const bool rotated = ev.contains("dr");
  for (size_t c = 0; c != n_ch; ++c)
    for (size_t a = 0; a != n_ant; ++a)
      for (size_t s = 0; s != n_sub; ++s) {
        if (rotated) {
          // a diagonal matrix times a rotation by a number of 5 degree steps
          const json& j = ev["dr"][c][a][s];
          if (j["a"].empty()) {
            for (size_t p = 0; p != 4; ++p) sol(c, a, s, p) = {1.0, p == ev["bad"].get<size_t>() ? Nan() : 0.0};
            continue;
          }
          const double phi = j["phi"].get<double>() * M_PI / 36.0;
          const Cplx x = In(j["a"]), y = In(j["b"]);
          sol(c, a, s, 0) = x * std::cos(phi);
          sol(c, a, s, 1) = -x * std::sin(phi);
          sol(c, a, s, 2) = y * std::sin(phi);
          sol(c, a, s, 3) = y * std::cos(phi);
        } else {
          for (size_t p = 0; p != n_pol; ++p) sol(c, a, s, p) = In(ev["sol"][c][a][s][p]);
        }
      }
  constraint->PrepareIteration(false, 0, false);
  constraint->Apply(sol, 0.0);
  const double scale = ev["scale"];
  json o = json::array();
  for (size_t c = 0; c != n_ch; ++c) {
    json oc = json::array();
    for (size_t a = 0; a != n_ant; ++a) {
      json oa = json::array();
      for (size_t s = 0; s != n_sub; ++s) {
        json os = json::array();
        for (size_t p = 0; p != n_pol; ++p) os.push_back(Value(sol(c, a, s, p), scale));
        oa.push_back(os);
      }
      oc.push_back(oa);
    }
    o.push_back(oc);
  }
  ev["out"] = o;
  json results = json::array();
  for (const ConstraintResult& r : constraint->GetResult()) {
    json v = json::array(), w = json::array();
    for (double x : r.vals)
      if (r.name == "rotation" || r.name == "phase")
        v.push_back(Value(Cplx(std::cos(x), std::sin(x)), 1000));
      else
        v.push_back(Value(Cplx(x, 0), 1000));
    for (double x : r.weights) w.push_back(Int(x, 1));
    results.push_back({{"name", r.name}, {"axes", r.axes}, {"dims", r.dims}, {"vals", v}, {"weights", w}});
  }
  ev["results"] = results;
}

void Handle(json& ev) {
  const std::string op = ev["op"];
  try {
    if (op == "make")
      Make(ev);
    else if (op == "kernel") {
      ev["out"] = ev["real"].get<int>() ? Smooth<double>(ev) : Smooth<Cplx>(ev);
    } else if (op == "weights") {
      if (ev.contains("sub") && !ev["sub"].empty())
        constraint->SetSubSolutionWeights(ev["sub"].get<std::vector<std::vector<double>>>());
      else
        constraint->SetWeights(ev["w"].get<std::vector<double>>());
    } else if (op == "apply")
      Apply(ev);
    ev["res"] = "ok";
  } catch (const json::exception&) {
    throw;
  } catch (const std::exception&) {
    ev["res"] = "err";
  }
}
}  // namespace

int main(int argc, char** argv) { return RunScript(argc, argv, Handle); }
