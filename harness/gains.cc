// Drives gain calibration: weighting, the data a solver works on, the buffer
// for baseline-dependent averaged data, and the solvers.
#include "common.h"

#include <cmath>
#include <limits>
#include <memory>

#include <schaapcommon/threading/threadpool.h>

#include "base/BdaBuffer.h"
#include "base/DPBuffer.h"
#include "ddecal/gain_solvers/BdaSolverBuffer.h"
#include "ddecal/gain_solvers/DiagonalLowRankSolver.h"
#include "ddecal/gain_solvers/DiagonalSolver.h"
#include "ddecal/gain_solvers/FullJonesSolver.h"
#include "ddecal/gain_solvers/HybridSolver.h"
#include "ddecal/gain_solvers/IterativeDiagonalSolver.h"
#include "ddecal/gain_solvers/IterativeFullJonesSolver.h"
#include "ddecal/gain_solvers/IterativeScalarSolver.h"
#include "ddecal/gain_solvers/ScalarSolver.h"
#include "ddecal/gain_solvers/SolveData.h"
#include "ddecal/gain_solvers/SolverTools.h"

using dp3::base::BdaBuffer;
using dp3::base::DPBuffer;
using namespace dp3::ddecal;
using C = std::complex<float>;
using D = std::complex<double>;

namespace {
constexpr int kNan = 7777;

C Value(const json& v, double div) {
  const float nan = std::numeric_limits<float>::quiet_NaN();
  auto part = [&](const json& x) { return x == kNan ? nan : float(x.get<double>() / div); };
  return C(part(v[0]), part(v[1]));
}
json Out(const D& v, double scale) {
  if (!std::isfinite(v.real()) || !std::isfinite(v.imag())) return json::array();
  const double big = 2e9;
  auto r = [&](double x) { return std::lround(std::max(-big, std::min(big, x * scale))); };
  return {r(v.real()), r(v.imag())};
}
std::vector<std::string> Names(const json& ev) {
  std::vector<std::string> n;
  for (size_t d = 0; d < ev["nsols"].size(); ++d) n.push_back("dir" + std::to_string(d));
  return n;
}

std::vector<std::unique_ptr<DPBuffer>> MakeBuffers(const json& ev) {
  std::vector<std::unique_ptr<DPBuffer>> r;
  const std::vector<std::string> names = Names(ev);
  for (const json& b : ev["bufs"]) {
    const size_t nb = b["d"].size(), nc = b["d"][0].size(), np = b["d"][0][0].size();
    auto u = std::make_unique<DPBuffer>();
    u->GetData().resize({nb, nc, np});
    u->GetWeights().resize({nb, nc, np});
    u->GetFlags().resize({nb, nc, np});
    for (const std::string& n : names) u->AddData(n);
    for (size_t i = 0; i < nb; ++i)
      for (size_t j = 0; j < nc; ++j)
        for (size_t k = 0; k < np; ++k) {
          u->GetData()(i, j, k) = Value(b["d"][i][j][k], ev["div"].get<double>());
          u->GetWeights()(i, j, k) = b["w"][i][j][k].get<float>();
          u->GetFlags()(i, j, k) = b["f"][i][j][k].get<int>() != 0;
          for (size_t d = 0; d < names.size(); ++d) u->GetData(names[d])(i, j, k) = Value(b["m"][d][i][j][k], 1);
        }
    r.push_back(std::move(u));
  }
  return r;
}
std::vector<DPBuffer> Weighted(const json& ev, std::vector<std::unique_ptr<DPBuffer>>& u) {
  std::vector<DPBuffer> w(u.size());
  AssignAndWeight(u, Names(ev), w, ev["keep"].get<int>() != 0, ev["linear"].get<int>() != 0);
  return w;
}

std::vector<C> Parts(const aocommon::MC2x2F& m) { return {m.Get(0), m.Get(1), m.Get(2), m.Get(3)}; }
std::vector<C> Parts(const aocommon::MC2x2FDiag& m) { return {m.Get(0), m.Get(1)}; }
std::vector<C> Parts(const C& m) { return {m}; }
template <class M>
json Vis(const M& m, double scale) {
  json a = json::array();
  for (const C& c : Parts(m)) a.push_back(Out(D(c), scale));
  return a;
}

template <class M>
json Blocks(const SolveData<M>& data, size_t n_ant, double div, bool weights) {
  json r = json::array();
  for (size_t k = 0; k < data.NChannelBlocks(); ++k) {
    const auto& b = data.ChannelBlock(k);
    json q;
    q["nd"] = b.NDirections();
    q["ns"] = json::array();
    q["total"] = b.NSubSolutions();
    q["vis"] = json::array();
    for (size_t v = 0; v < b.NVisibilities(); ++v) {
      json x;
      x["a"] = {b.Antenna1Index(v), b.Antenna2Index(v)};
      x["v"] = Vis(b.Visibility(v), 2 * div);
      x["m"] = json::array();
      x["s"] = json::array();
      for (size_t d = 0; d < b.NDirections(); ++d) {
        x["m"].push_back(Vis(b.ModelVisibility(d, v), 2));
        x["s"].push_back(b.SolutionIndex(d, v));
      }
      if (weights) {
        x["w"] = json::array();
        for (size_t p = 0; p < 4; ++p) x["w"].push_back(std::lround((&b.Weight(v))[p]));
      }
      q["vis"].push_back(x);
    }
    q["cnt"] = json::array();
    for (size_t a = 0; a < n_ant; ++a) q["cnt"].push_back(b.NAntennaVisibilities(a));
    q["scnt"] = json::array();
    uint32_t s = 0;
    for (size_t d = 0; d < b.NDirections(); ++d) {
      q["ns"].push_back(b.NSolutionsForDirection(d));
      for (size_t n = 0; n < b.NSolutionsForDirection(d); ++n) q["scnt"].push_back(b.NSolutionVisibilities(d, s++));
    }
    r.push_back(q);
  }
  return r;
}
template <class M>
void Dump(json& ev, const SolveData<M>& data, bool weights) {
  ev["blocks_out"] = Blocks(data, ev["nant"].get<size_t>(), ev["div"].get<double>(), weights);
  json sw = json::array();
  for (const auto& s : data.GetSolutionWeights()) {
    json row = json::array();
    for (double x : s) row.push_back(std::lround(2 * x));
    sw.push_back(row);
  }
  ev["sw"] = sw;
}

class Recorder final : public Constraint {
 public:
  Recorder(size_t pin, size_t until, json* calls) : pin_(pin), until_(until), calls_(calls) {}
  void PrepareIteration(bool precise, size_t iteration, bool final_iteration) override {
    calls_->push_back({int(precise), iteration, int(final_iteration)});
    ++n_;
  }
  bool Satisfied() const override { return n_ > until_; }
  void Apply(SolutionSpan& s, double) override {
    for (size_t k = 0; k < s.shape(0); ++k)
      for (size_t d = 0; d < s.shape(2); ++d)
        for (size_t p = 0; p < s.shape(3); ++p) s(k, pin_, d, p) = (s.shape(3) == 4 && (p == 1 || p == 2)) ? 0.0 : 1.0;
    ++applied;
  }
  std::vector<ConstraintResult> GetResult() const override {
    ConstraintResult r;
    r.name = "recorder";
    return {r};
  }
  size_t applied = 0;

 private:
  size_t pin_, until_, n_ = 0;
  json* calls_;
};

std::unique_ptr<SolverBase> MakeSolver(const std::string& t, const std::string& kind, const json& cfg);
void Configure(SolverBase& s, const json& c) {
  s.SetMaxIterations(c["maxit"].get<size_t>());
  s.SetMinIterations(c["minit"].get<size_t>());
  s.SetAccuracy(c["acc"].get<double>());
  s.SetConstraintAccuracy(c["cacc"].get<double>());
  s.SetStepSize(c["step"].get<double>());
  s.SetDetectStalling(c["stall"].get<int>() != 0, 0.1);
  s.SetPhaseOnly(c["phase"].get<int>() != 0);
  const std::string l = c["lls"].get<std::string>();
  s.SetLLSSolverType(l == "qr" ? LLSSolverType::QR : l == "svd" ? LLSSolverType::SVD : LLSSolverType::NORMAL_EQUATIONS);
}
std::unique_ptr<SolverBase> MakeSolver(const std::string& t, const std::string& kind, const json& cfg) {
  std::unique_ptr<SolverBase> s;
  if (t == "scalar") s = std::make_unique<ScalarSolver>();
  if (t == "diagonal") s = std::make_unique<DiagonalSolver>();
  if (t == "fulljones") s = std::make_unique<FullJonesSolver>();
  if (t == "lowrank") s = std::make_unique<DiagonalLowRankSolver>(cfg["lri"].get<size_t>(), cfg["lrp"].get<size_t>());
  if (t == "iterfull") s = std::make_unique<IterativeFullJonesSolver>();
  if (t == "iterscalar") {
    if (kind == "full") s = std::make_unique<IterativeScalarSolver<aocommon::MC2x2F>>();
    if (kind == "duo") s = std::make_unique<IterativeScalarSolver<aocommon::MC2x2FDiag>>();
    if (kind == "uni") s = std::make_unique<IterativeScalarSolver<C>>();
  }
  if (t == "iterdiag") {
    if (kind == "full") s = std::make_unique<IterativeDiagonalSolver<aocommon::MC2x2F>>();
    if (kind == "duo") s = std::make_unique<IterativeDiagonalSolver<aocommon::MC2x2FDiag>>();
  }
  if (t.rfind("hybrid:", 0) == 0) {
    auto h = std::make_unique<HybridSolver>();
    Configure(*h, cfg);
    std::string rest = t.substr(7);
    size_t k = 0;
    while (!rest.empty()) {
      const size_t c = rest.find(',');
      auto x = MakeSolver(rest.substr(0, c), kind, cfg);
      x->SetMaxIterations(cfg["hmax"][k].get<size_t>());
      x->SetAccuracy(cfg["hacc"][k].get<double>());
      x->SetConstraintAccuracy(cfg["hacc"][k++].get<double>());
      h->AddSolver(std::move(x));
      rest = c == std::string::npos ? "" : rest.substr(c + 1);
    }
    h->SetStopOnConvergence(cfg["hstop"].get<int>() != 0);
    return h;
  }
  Configure(*s, cfg);
  return s;
}

json Solutions(const std::vector<std::vector<D>>& s, size_t n_ant, size_t n_sub, size_t n_pol) {
  json r = json::array();
  for (const auto& b : s) {
    json ja = json::array();
    for (size_t a = 0; a < n_ant; ++a) {
      json js = json::array();
      for (size_t k = 0; k < n_sub; ++k) {
        json jp = json::array();
        for (size_t p = 0; p < n_pol; ++p) jp.push_back(Out(b.at((a * n_sub + k) * n_pol + p), 10000));
        js.push_back(jp);
      }
      ja.push_back(js);
    }
    r.push_back(ja);
  }
  return r;
}

template <class M>
void Solve(json& ev, const SolveData<M>& data, std::unique_ptr<SolverBase>& solver) {
  const size_t n_ant = ev["nant"].get<size_t>(), np = solver->NSolutionPolarizations();
  const std::vector<size_t> sols = ev["nsols"].get<std::vector<size_t>>();
  size_t n_sub = 0;
  for (size_t s : sols) n_sub += s;
  const double nan = std::numeric_limits<double>::quiet_NaN();
  std::vector<std::vector<D>> s;
  for (const json& b : ev["init"]) {
    s.emplace_back();
    for (const json& a : b)
      for (const json& k : a)
        for (const json& p : k) s.back().push_back(p.empty() ? D(nan, nan) : D(p[0].get<double>() / 10, p[1].get<double>() / 10));
  }
  const SolverBase::SolveResult r = solver->Solve(data, s, 1.0);
  ev["it"] = r.iterations;
  ev["cit"] = r.constraint_iterations;
  ev["nres"] = r.results.size();
  ev["npol"] = np;
  ev["sol"] = Solutions(s, n_ant, n_sub, np);
}

json calls;
std::unique_ptr<SolverBase> kept;
std::unique_ptr<SolverBase>& Prepare(const json& ev) {
  calls = json::array();
  if (kept && ev["again"].get<int>()) return kept;
  kept = MakeSolver(ev["solver"].get<std::string>(), ev["kind"].get<std::string>(), ev["cfg"]);
  const std::vector<size_t> sols = ev["nsols"].get<std::vector<size_t>>();
  for (SolverBase* s : kept->ConstraintSolvers()) {
    if (!ev["pin"].empty()) s->AddConstraint(std::make_unique<Recorder>(ev["pin"][0].get<size_t>(), ev["pin"][1].get<size_t>(), &calls));
  }
  kept->Initialize(ev["nant"].get<size_t>(), sols, ev["blocks"].get<size_t>());
  return kept;
}

std::unique_ptr<BdaSolverBuffer> bda;
template <class F>
void WithData(json& ev, F f) {
  const std::string kind = ev["kind"].get<std::string>();
  const size_t n_ant = ev["nant"].get<size_t>(), nb = ev["blocks"].get<size_t>();
  const std::vector<size_t> sols = ev["nsols"].get<std::vector<size_t>>();
  const std::vector<int> a1 = ev["a1"].get<std::vector<int>>(), a2 = ev["a2"].get<std::vector<int>>();
  if (ev.contains("bufs")) {
    auto u = MakeBuffers(ev);
    auto w = Weighted(ev, u);
    const bool lin = ev["linear"].get<int>() != 0;
    if (kind == "full") f(FullSolveData(std::move(w), Names(ev), nb, n_ant, sols, a1, a2), lin);
    if (kind == "duo") f(DuoSolveData(std::move(w), Names(ev), nb, n_ant, sols, a1, a2), lin);
    if (kind == "uni") f(UniSolveData(std::move(w), Names(ev), nb, n_ant, sols, a1, a2), lin);
  } else {
    const bool ww = ev["linear"].get<int>() != 0;
    if (kind == "full") f(FullSolveData(*bda, nb, n_ant, sols, a1, a2, ww), ww);
    if (kind == "duo") f(DuoSolveData(*bda, nb, n_ant, sols, a1, a2, ww), ww);
    if (kind == "uni") f(UniSolveData(*bda, nb, n_ant, sols, a1, a2, ww), ww);
  }
}

json Cube(const DPBuffer::DataType& d, double scale) {
  json r = json::array();
  for (size_t i = 0; i < d.shape(0); ++i) {
    json b = json::array();
    for (size_t j = 0; j < d.shape(1); ++j) {
      json c = json::array();
      for (size_t k = 0; k < d.shape(2); ++k) c.push_back(Out(D(d(i, j, k)), scale));
      b.push_back(c);
    }
    r.push_back(b);
  }
  return r;
}

json RowOut(const BdaSolverBuffer::IntervalRow& r, double div) {
  json q;
  q["t"] = std::lround(r.time * 1000);
  q["bl"] = r.baseline_nr;
  q["nch"] = r.n_channels;
  q["nc"] = r.n_correlations;
  auto list = [&](const C* p, double s) {
    json a = json::array();
    for (size_t c = 0; c < r.n_channels; ++c) {
      json b = json::array();
      for (size_t k = 0; k < 4; ++k) b.push_back(Out(D(p[c * 4 + k]), s));
      a.push_back(b);
    }
    return a;
  };
  q["u"] = list(r.unweighted_data, div);
  q["d"] = list(r.weighted_data, div);
  q["um"] = json::array();
  for (const C* p : r.unweighted_model_data) q["um"].push_back(list(p, 10000));
  q["m"] = json::array();
  for (const C* p : r.weighted_model_data) q["m"].push_back(list(p, 1));
  q["w"] = json::array();
  q["f"] = json::array();
  for (size_t c = 0; c < r.n_channels; ++c) {
    json w = json::array(), f = json::array();
    for (size_t k = 0; k < 4; ++k) {
      w.push_back(std::lround(r.weights[c * 4 + k]));
      f.push_back(int(r.flags[c * 4 + k]));
    }
    q["w"].push_back(w);
    q["f"].push_back(f);
  }
  return q;
}

void Handle(json& ev) {
  const std::string op = ev["op"].get<std::string>();
  if (op == "new") {
    bda.reset();
    kept.reset();
    schaapcommon::ThreadPool::GetInstance().SetNThreads(ev.value("threads", 1));
    return;
  }
  try {
    if (op == "weigh") {
      auto u = MakeBuffers(ev);
      auto w = Weighted(ev, u);
      ev["out"] = json::array();
      for (size_t t = 0; t < w.size(); ++t) {
        json q;
        q["d"] = Cube(w[t].GetData(), ev["div"].get<double>());
        q["u"] = Cube(u[t]->GetData(), ev["div"].get<double>());
        q["m"] = json::array();
        q["um"] = json::array();
        for (const std::string& n : Names(ev)) {
          q["m"].push_back(Cube(w[t].GetData(n), 1));
          if (u[t]->HasData(n)) q["um"].push_back(Cube(u[t]->GetData(n), 1));
        }
        q["w"] = json::array();
        const auto& x = w[t].GetWeights();
        for (size_t i = 0; i < x.size(); ++i) q["w"].push_back(std::lround(x.data()[i]));
        ev["out"].push_back(q);
      }
    } else if (op == "data") {
      WithData(ev, [&](const auto& d, bool w) { Dump(ev, d, w); });
    } else if (op == "solve") {
      auto& s = Prepare(ev);
      WithData(ev, [&](const auto& d, bool) { Solve(ev, d, s); });
      ev["calls"] = calls;
    } else if (op == "bnew") {
      bda = std::make_unique<BdaSolverBuffer>(ev["start"].get<double>() / 1000, ev["interval"].get<double>() / 1000, ev["nbl"].get<size_t>());
    } else if (op == "bapp") {
      const json& rows = ev["rows"];
      size_t n = 0;
      for (const json& r : rows) n += r["d"].size() * 4;
      auto b = std::make_unique<BdaBuffer>(n, dp3::common::Fields(dp3::common::Fields::Single::kData) |
                                                  dp3::common::Fields(dp3::common::Fields::Single::kFlags) |
                                                  dp3::common::Fields(dp3::common::Fields::Single::kWeights));
      const std::vector<std::string> names = Names(ev);
      for (const std::string& x : names) b->AddData(x);
      for (const json& r : rows) {
        const size_t nch = r["d"].size();
        std::vector<C> d;
        std::unique_ptr<bool[]> f(new bool[nch * 4]);
        std::vector<float> w;
        for (size_t c = 0; c < nch; ++c)
          for (size_t k = 0; k < 4; ++k) {
            d.push_back(Value(r["d"][c][k], ev["div"].get<double>()));
            w.push_back(r["w"][c][k].get<float>());
            f[c * 4 + k] = r["f"][c][k].get<int>() != 0;
          }
        const bool ok = b->AddRow(r["t"].get<double>() / 1000, r["int"].get<double>() / 1000, r["int"].get<double>() / 1000,
                                  r["bl"].get<size_t>(), nch, 4, 0, d.data(), f.get(), w.data());
        if (!ok) throw std::runtime_error("row does not fit");
        for (size_t k = 0; k < names.size(); ++k) {
          C* p = b->GetData(b->GetRows().size() - 1, names[k]);
          for (size_t c = 0; c < nch; ++c)
            for (size_t q = 0; q < 4; ++q) p[c * 4 + q] = Value(r["m"][k][c][q], 1);
        }
      }
      bda->AppendAndWeight(std::move(b), names, ev["keep"].get<int>() != 0);
    } else if (op == "badv") {
      bda->AdvanceInterval();
    } else if (op == "bclr") {
      bda->Clear();
    } else if (op == "bapply") {
      std::vector<std::vector<D>> s;
      for (const json& b : ev["sol"]) {
        s.emplace_back();
        for (const json& p : b) s.back().push_back(D(p[0].get<double>() / 10, p[1].get<double>() / 10));
      }
      bda->ApplySolutions(s, ev["starts"].get<std::vector<double>>(), ev["np"].get<size_t>(), ev["a1"].get<std::vector<int>>(),
                          ev["a2"].get<std::vector<int>>(), ev["freqs"].get<std::vector<std::vector<double>>>());
    } else if (op == "bdone") {
      ev["done"] = json::array();
      for (const auto& b : bda->GetDone()) {
        json rows = json::array();
        for (const auto& r : b->GetRows()) rows.push_back({r.baseline_nr, std::lround(r.time * 1000)});
        ev["done"].push_back(rows);
      }
    }
    ev["res"] = "ok";
  } catch (const json::exception&) {
    throw;
  } catch (const std::exception& e) {
    ev["res"] = "err";
    ev["what"] = e.what();
    if (op == "bapp") bda.reset();
  }
  if (bda && op[0] == 'b') {
    ev["cnt"] = bda->BufferCount();
    ev["cur"] = bda->GetCurrentInterval();
    ev["full"] = int(bda->IntervalIsComplete());
    ev["t0"] = std::lround(bda->CurrentIntervalStart() * 1000);
    ev["dur"] = std::lround(bda->IntervalDuration() * 1000);
    ev["irows"] = json::array();
    for (const auto& r : bda->GetIntervalRows()) ev["irows"].push_back(RowOut(r, ev["div"].get<double>()));
  }
}
}  // namespace

int main(int argc, char** argv) { return RunScript(argc, argv, Handle); }
