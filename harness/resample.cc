#include "common.h"
#include <memory>
#include "ddecal/SolutionResampler.h"
using dp3::ddecal::ConstraintResult;
using dp3::ddecal::SolutionResampler;
static std::unique_ptr<SolutionResampler> r;
static std::vector<size_t> nsol;
static size_t nant, total;
static void Handle(json& ev) {
  const std::string op = ev["op"];
  if (op == "new") {
    nsol.clear();
    total = 0;
    for (const auto& x : ev["nsol"]) { nsol.push_back(x); total += size_t(x); }
    nant = ev["nant"];
    r = std::make_unique<SolutionResampler>(nsol, nant, size_t(ev["solint"]));
  } else if (op == "sub") {
    ev["res"] = r->GetNrSubSteps();
  } else if (op == "map") {
    auto p = r->MapResampledToOriginal(ev["t"], ev["ant"], ev["dir"], ev["pol"], ev["npol"]);
    ev["res"] = {int64_t(p.first), int64_t(p.second)};
  } else if (op == "up") {
    const size_t nt = ev["nt"], nb = ev["nb"], np = ev["npol"];
    const size_t inner = nant * total * np;
    std::vector<std::vector<std::vector<std::complex<double>>>> in(nt);
    double v = 0;
    for (auto& t : in) {
      t.resize(nb);
      for (auto& b : t)
        for (size_t k = 0; k < inner; ++k, ++v) b.emplace_back(v, -v - 1);
    }
    json o = json::array();
    for (const auto& t : r->Upsample(in, np)) {
      json jt = json::array();
      for (const auto& b : t) {
        json jb = json::array();
        for (const auto& x : b) jb.push_back({int32_t(x.real()), int32_t(x.imag())});
        jt.push_back(jb);
      }
      o.push_back(jt);
    }
    ev["out"] = o;
  } else if (op == "cons") {
    const size_t nt = ev["nt"], nc = ev["nc"], ns = ev["ns"];
    size_t rest = 1;
    std::vector<size_t> dims{nant, total};
    for (const auto& x : ev["more"]) { rest *= size_t(x); dims.push_back(x); }
    const std::string axes = ev["axes"];
    std::vector<std::vector<std::vector<ConstraintResult>>> in(nt);
    double v = 0;
    for (auto& t : in) {
      t.resize(nc);
      size_t nm = 0;
      for (auto& c : t) {
        c.resize(ns);
        for (auto& s : c) {
          s.axes = axes;
          s.dims = dims;
          s.name = std::to_string(nm++);
          for (size_t k = 0; k < nant * total * rest; ++k, ++v) {
            s.vals.push_back(v);
            s.weights.push_back(v + 1000000);
          }
        }
      }
    }
    json o = json::array();
    for (const auto& t : r->Upsample(in)) {
      json jt = json::array();
      for (const auto& c : t) {
        json jc = json::array();
        for (const auto& s : c) {
          json e;
          e["vals"] = json::array();
          e["weights"] = json::array();
          for (double x : s.vals) e["vals"].push_back(int32_t(x));
          for (double x : s.weights) e["weights"].push_back(int32_t(x));
          e["dims"] = s.dims;
          e["axes"] = s.axes;
          e["name"] = std::stoi("0" + s.name);
          jc.push_back(e);
        }
        jt.push_back(jc);
      }
      o.push_back(jt);
    }
    ev["out"] = o;
  }
}
int main(int c, char** v) { return RunScript(c, v, Handle); }
