// Fits of phase models (TEC, offset, delay, lines) to noise-free phases.
// Phases are in tenths of a degree, frequencies in MHz.
#include "common.h"
#include <cmath>
#include <complex>
#include <limits>
#include <memory>
#include "base/PhaseFitter.h"
#include "ddecal/constraints/PieceWisePhaseFitter.h"
#include "ddecal/constraints/TecConstraint.h"
#include "ddecal/constraints/TecOffsetDelayConstraint.h"
#include "ddecal/constraints/TecOffsetDelayFitting.h"

using namespace dp3::ddecal;
using Cplx = std::complex<double>;

namespace {
constexpr double kUnit = M_PI / 1800.0;
constexpr double kTec = -8.44797245e9;  // radians times Hz per TEC unit
std::unique_ptr<Constraint> constraint;
PhaseFitter fitter;
size_t n_ant, n_sub;
std::vector<double> freqs;
bool delay;

json Int(double v) {
  if (!std::isfinite(v)) return 2000000000;
  const double x = std::round(v);
  return std::abs(x) < 1.9e9 ? static_cast<long>(x) : 1999999999L;
}
double Wrap(double x) { return std::remainder(x, 2.0 * M_PI); }
json Phase(double x) { return std::isfinite(x) ? Int(Wrap(x) / kUnit) : json(99999); }
// a / nu + b + c nu, in radians
double Model(double a, double b, double c, double nu) { return (a / nu + b + c * nu) * kUnit; }

void Make(json& ev) {
  const std::string type = ev["type"];
  freqs.clear();
  for (const json& f : ev["freqs"]) freqs.push_back(f.get<double>() * 1e6);
  n_ant = ev["nant"];
  const std::vector<uint32_t> sols = ev["sols"];
  n_sub = 0;
  for (uint32_t s : sols) n_sub += s;
  const bool ref = ev["ref"].get<int>();
  delay = false;
  if (type == "delay") {
    constraint = std::make_unique<TecOffsetDelayConstraint>(ev["phase"].get<int>(), ev["wraps"].get<size_t>(), ref);
    delay = true;
  } else {
    const auto mode = ev["phase"].get<int>() ? TecConstraint::Mode::kTecAndCommonScalar : TecConstraint::Mode::kTecOnly;
    if (type == "approx") {
      auto c = std::make_unique<ApproximateTECConstraint>(mode);
      c->SetMaxApproximatingIterations(ev["iters"].get<size_t>());
      c->SetFittingChunkSize(ev["chunk"].get<size_t>());
      c->setDoPhaseReference(ref);
      constraint = std::move(c);
    } else {
      auto c = std::make_unique<TecConstraint>(mode);
      c->setDoPhaseReference(ref);
      constraint = std::move(c);
    }
  }
  constraint->Initialize(n_ant, sols, freqs);
}

void Apply(json& ev) {
  const size_t n = freqs.size();
  SolutionTensor tensor({n, n_ant, n_sub, 1});
  SolutionSpan sol = aocommon::xt::CreateSpan(tensor);
  for (size_t c = 0; c != n; ++c)
    for (size_t a = 0; a != n_ant; ++a)
      for (size_t s = 0; s != n_sub; ++s) {
        const int p = ev["in"][a][s][c];
        sol(c, a, s, 0) = p == 99999 ? Cplx(std::numeric_limits<double>::quiet_NaN(), 0.0)
                                     : std::polar(ev["amp"].get<double>(), p * kUnit);
      }
  constraint->PrepareIteration(ev["precise"].get<int>(), ev["iter"].get<size_t>(), ev["final"].get<int>());
  constraint->Apply(sol, 0.0);
  json o = json::array(), amp = json::array();
  bool unit = true;
  for (size_t a = 0; a != n_ant; ++a) {
    json oa = json::array();
    for (size_t s = 0; s != n_sub; ++s) {
      json os = json::array();
      for (size_t c = 0; c != n; ++c) {
        const Cplx z = sol(c, a, s, 0);
        os.push_back(std::isfinite(z.real()) && std::isfinite(z.imag()) ? Phase(std::arg(z)) : json(99999));
        if (std::isfinite(std::abs(z)) && std::abs(std::abs(z) - 1.0) > 1e-6) unit = false;
      }
      oa.push_back(os);
    }
    o.push_back(oa);
  }
  ev["out"] = o;
  ev["unit"] = unit;
  ev["satisfied"] = constraint->Satisfied();
  json results = json::array();
  for (const ConstraintResult& r : constraint->GetResult()) {
    json v = json::array(), w = json::array();
    for (double x : r.vals) {
      if (r.name == "tec")
        v.push_back(Int(x * kTec / kUnit / 1e6));
      else if (r.name == "phase")
        v.push_back(Phase(x));
      else if (r.name == "delay")  // per MHz, in thousandths
        v.push_back(Int(x * 2.0 * M_PI * 1e6 / kUnit * 1000.0));
      else
        v.push_back(Int(x * 1e5));
    }
    for (double x : r.weights) w.push_back(Int(x));
    results.push_back({{"name", r.name}, {"axes", r.axes}, {"dims", r.dims}, {"vals", v}, {"weights", w}});
  }
  ev["results"] = results;
}

void Fit(json& ev) {
  const size_t n = fitter.Size();
  if (!ev["set"].empty())
    for (size_t i = 0; i != n; ++i) fitter.PhaseData()[i] = ev["set"][i].get<double>() * kUnit;
  if (!ev["w"].empty())
    for (size_t i = 0; i != n; ++i) fitter.WeightData()[i] = ev["w"][i].get<double>() / 2.0;
  const double junk = ev["junk"] == "nan" ? std::numeric_limits<double>::quiet_NaN()
                                          : ev["junk"] == "big" ? 1e300 : 0.3;
  double alpha = junk, beta = junk, cost;
  if (ev["op"] == "fit1") {
    beta = 0.0;
    cost = fitter.FitDataToTEC1Model(alpha);
  } else {
    cost = fitter.FitDataToTEC2Model(alpha, beta);
  }
  ev["alpha"] = Int(alpha / kUnit / 1e6);
  ev["tec"] = Int(PhaseFitter::AlphaToTEC(alpha) * kTec / kUnit / 1e6);
  ev["beta"] = Phase(beta);
  ev["cost"] = Int(cost * 1e5);
  json o = json::array();
  for (size_t i = 0; i != n; ++i) o.push_back(Phase(fitter.PhaseData()[i]));
  ev["out"] = o;
}

void Line(json& ev) {
  std::vector<double> nu, d, w;
  for (const json& f : ev["freqs"]) nu.push_back(f.get<double>() * 1e6);
  for (const json& p : ev["in"]) d.push_back(p.get<double>() * kUnit);
  for (const json& p : ev["w"]) w.push_back(p.get<double>() / ev["wdiv"].get<double>());
  std::vector<double> o(d.size(), 123.0);
  PieceWisePhaseFitter f(ev["chunk"].get<size_t>());
  const std::string kind = ev["kind"];
  if (kind == "piece")
    f.PieceWiseFit(nu, d, o);
  else if (kind == "wpiece")
    f.PieceWiseFit(nu, d, w.data(), o);
  else if (kind == "slide")
    f.SlidingFit(nu.data(), d.data(), o.data(), d.size());
  else if (kind == "wslide")
    f.SlidingFit(nu.data(), d.data(), w.data(), o.data(), d.size());
  else
    ev["bp"] = f.SlidingFitWithBreak(nu.data(), d.data(), w.data(), o.data(), d.size());
  json r = json::array();
  for (double x : o) r.push_back(Phase(x));
  ev["out"] = r;
}

void Grid(json& ev) {
  std::vector<double> x, y, w;
  for (const json& f : ev["freqs"]) x.push_back(f.get<double>() / ev["freqs"][0].get<double>());
  for (const json& p : ev["in"]) y.push_back(p.get<double>() * kUnit);
  for (const json& p : ev["w"]) w.push_back(p.get<double>());
  TecOffsetDelayValues v;
  const std::string how = ev.value("how", "grid");
  if (how == "line")
    v = (ev["phase"].get<int>() ? LinearTecOffsetDelaySolve(x, y, w) : LinearTecDelaySolve(x, y, w)).value();
  else if (how == "gradient")
    v = GradientTecOffsetDelaySolve(x, y, w).value();
  else
    v = TecOffsetDelayGridSearch(
      x, y, w, ev["phase"].get<int>(), ev["wraps"].get<size_t>(),
      ev["mises"].get<int>() ? TecOffsetDelayFittingMethod::VonMises : TecOffsetDelayFittingMethod::LeastSquares);
  std::vector<double> o(x.size());
  EvaluateLinearTecOffsetValues(v, x, o);
  json r = json::array();
  for (double p : o) r.push_back(Phase(p));
  ev["out"] = r;
  ev["b"] = Phase(v.b);
  bool in_range = true;
  for (double p : o) in_range = in_range && p >= -M_PI && p < M_PI;
  ev["range"] = in_range;
  // what the reported values mean
  json m = json::array();
  for (double q : x) m.push_back(Phase(v.a / q + v.b + v.c * q));
  ev["meant"] = m;
  // what is left of the data, and its sine
  ev["res"] = ev["sine"] = json::array();
  for (size_t i = 0; i < x.size(); ++i) {
    const double d = std::remainder(y[i] - (v.a / x[i] + v.b + v.c * x[i]), 2 * M_PI);
    ev["res"].push_back(Int(d / kUnit));
    ev["sine"].push_back(Int(1e4 * std::sin(d)));
  }
}

void Handle(json& ev) {
  const std::string op = ev["op"];
  if (op == "make")
    Make(ev);
  else if (op == "weights")
    constraint->SetWeights(ev["w"].get<std::vector<double>>());
  else if (op == "apply")
    Apply(ev);
  else if (op == "init") {
    std::vector<double> f;
    for (const json& x : ev["freqs"]) f.push_back(x.get<double>() * 1e6);
    fitter.Initialize(f);
  } else if (op == "fit1" || op == "fit2")
    Fit(ev);
  else if (op == "cost") {
    for (size_t i = 0; i != fitter.Size(); ++i) {
      fitter.PhaseData()[i] = ev["set"][i].get<double>() * kUnit;
      fitter.WeightData()[i] = ev["w"][i].get<double>() / 2.0;
    }
    ev["cost1"] = Int(fitter.TEC1ModelCost(ev["a"].get<double>() * kUnit * 1e6) / kUnit * 10);
    ev["cost2"] = Int(fitter.TEC2ModelCost(ev["a"].get<double>() * kUnit * 1e6, ev["b"].get<double>() * kUnit) / kUnit * 10);
  } else if (op == "line")
    Line(ev);
  else if (op == "grid")
    Grid(ev);
  else if (op == "median") {
    std::vector<std::pair<double, double>> v;
    for (const json& p : ev["v"]) v.emplace_back(p[0].get<double>(), p[1].get<double>() / ev["wdiv"].get<double>());
    ev["out"] = Int(PieceWisePhaseFitter::WeightedMedian(v));
  }
}
}  // namespace

int main(int argc, char** argv) { return RunScript(argc, argv, Handle); }
