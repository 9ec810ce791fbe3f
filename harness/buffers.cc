// Histories of operations on regular and baseline-dependent buffers.  After
// every operation the contents of all buffers are shown.
#include "common.h"
#include <cmath>
#include <map>
#include <memory>
#include "base/BdaBuffer.h"
#include "base/DPBuffer.h"
#include "common/Fields.h"

using dp3::base::BdaBuffer;
using dp3::base::DPBuffer;
using dp3::common::Fields;

namespace {
std::map<int, std::unique_ptr<DPBuffer>> reg;
std::map<int, std::unique_ptr<BdaBuffer>> bda;

Fields MakeFields(const json& j) {
  Fields f;
  for (const auto& s : j) {
    const std::string n = s.get<std::string>();
    if (n == "data") f |= Fields(Fields::Single::kData);
    if (n == "flags") f |= Fields(Fields::Single::kFlags);
    if (n == "weights") f |= Fields(Fields::Single::kWeights);
    if (n == "uvw") f |= Fields(Fields::Single::kUvw);
  }
  return f;
}
long long R(double v) { return std::fabs(v) < 1e8 ? std::llround(v) : 999999999; }
long long R(std::complex<double> v) {
  // one number per visibility: real + 1000 * imaginary
  return R(v.real()) + 1000 * R(v.imag());
}
template <typename T>
json Arr(const T& a) {
  json o;
  json s = json::array(), v = json::array();
  for (size_t k = 0; k < a.dimension(); ++k) s.push_back(a.shape(k));
  for (auto it = a.begin(); it != a.end(); ++it) v.push_back(R(*it));
  o["s"] = s;
  o["v"] = v;
  return o;
}
std::complex<float> C(const json& v) {
  const int x = v.get<int>();
  int re = ((x % 1000) + 1000) % 1000;
  if (re >= 500) re -= 1000;
  return {float(re), float((x - re) / 1000)};
}
json Dump(const DPBuffer& b) {
  json o;
  o["t"] = R(b.GetTime());
  o["exp"] = R(b.GetExposure());
  json rows = json::array();
  for (size_t k = 0; k < b.GetRowNumbers().size(); ++k) rows.push_back(int(b.GetRowNumbers()[k]));
  o["rows"] = rows;
  json names = json::array(), d = json::array();
  for (const std::string& n : b.GetDataNames()) {
    names.push_back(n);
    d.push_back(Arr(b.GetData(n)));
  }
  o["names"] = names;
  o["d"] = d;
  o["has"] = json::array();
  for (const char* n : {"", "a", "b", "c"}) o["has"].push_back(b.HasData(n));
  o["f"] = Arr(b.GetFlags());
  o["w"] = Arr(b.GetWeights());
  o["u"] = Arr(b.GetUvw());
  json sd = json::array(), sv = json::array();
  for (const std::string& n : b.GetSolutionDirectionNames()) {
    sd.push_back(n);
    const auto s = b.GetSolution(n);
    json x = json::array();
    for (const auto& c : s) {
      json y = json::array();
      for (const auto& v : c) y.push_back(R(v));
      x.push_back(y);
    }
    sv.push_back(x);
  }
  o["sd"] = sd;
  o["sv"] = sv;
  return o;
}
json Dump(const BdaBuffer& b) {
  const BdaBuffer& c = b;
  json o;
  o["n"] = c.GetNumberOfElements();
  o["rem"] = c.GetRemainingCapacity();
  json names = json::array(), rows = json::array();
  for (const std::string& n : c.GetDataNames()) names.push_back(n);
  o["names"] = names;
  o["has"] = json::array();
  for (const char* n : {"", "a", "b", "c"}) o["has"].push_back(c.HasData(n));
  size_t k = 0;
  for (const BdaBuffer::Row& r : c.GetRows()) {
    json q;
    q["t"] = R(r.time * 2);
    q["int"] = R(r.interval);
    q["exp"] = R(r.exposure);
    q["nr"] = int(r.row_nr);
    q["bl"] = int(r.baseline_nr);
    q["nch"] = r.n_channels;
    q["nc"] = r.n_correlations;
    q["size"] = r.GetDataSize();
    q["uvw"] = {R(r.uvw[0]), R(r.uvw[1]), R(r.uvw[2])};
    const size_t n = r.GetDataSize();
    json d = json::array();
    for (const std::string& name : c.GetDataNames()) {
      json x = json::array();
      const std::complex<float>* p = c.GetData(k, name);
      if (p)
        for (size_t i = 0; i < n; ++i) x.push_back(R(std::complex<double>(p[i])));
      d.push_back(x);
    }
    q["d"] = d;
    json f = json::array(), w = json::array();
    if (const bool* p = c.GetFlags(k))
      for (size_t i = 0; i < n; ++i) f.push_back(int(p[i]));
    if (const float* p = c.GetWeights(k))
      for (size_t i = 0; i < n; ++i) w.push_back(R(p[i]));
    q["f"] = f;
    q["w"] = w;
    rows.push_back(q);
    ++k;
  }
  o["rows"] = rows;
  return o;
}
template <typename T>
void Fill(T& a, const json& j) {
  typename T::shape_type s;
  for (size_t k = 0; k < s.size(); ++k) s[k] = j["s"][k].get<size_t>();
  a.resize(s);
  size_t k = 0;
  for (auto it = a.begin(); it != a.end(); ++it, ++k) *it = j["v"][k].get<int>();
}
template <>
void Fill(DPBuffer::DataType& a, const json& j) {
  a.resize(std::array<std::size_t, 3>{j["s"][0], j["s"][1], j["s"][2]});
  size_t k = 0;
  for (auto it = a.begin(); it != a.end(); ++it, ++k) *it = C(j["v"][k]);
}

void Regular(json& ev, const std::string& op) {
  const int h = ev.value("h", 0), g = ev.value("g", 0);
  if (op == "make") {
    reg[h] = std::make_unique<DPBuffer>(ev["t"].get<double>(), ev["exp"].get<double>());
  } else if (op == "set") {
    DPBuffer& b = *reg[h];
    const std::string f = ev["field"].get<std::string>();
    if (f == "data") Fill(b.GetData(ev["name"].get<std::string>()), ev["a"]);
    if (f == "flags") Fill(b.GetFlags(), ev["a"]);
    if (f == "weights") Fill(b.GetWeights(), ev["a"]);
    if (f == "uvw") Fill(b.GetUvw(), ev["a"]);
  } else if (op == "time") {
    reg[h]->SetTime(ev["t"].get<double>());
    reg[h]->SetExposure(ev["exp"].get<double>());
  } else if (op == "rows") {
    casacore::Vector<dp3::common::rownr_t> r(ev["rows"].size());
    for (size_t k = 0; k < ev["rows"].size(); ++k) r[k] = ev["rows"][k].get<int>();
    reg[h]->SetRowNumbers(r);
  } else if (op == "add") {
    reg[h]->AddData(ev["name"].get<std::string>());
    Fill(reg[h]->GetData(ev["name"].get<std::string>()), ev["a"]);
  } else if (op == "shapeadd") {  // the shape a new buffer has
    reg[h]->AddData(ev["name"].get<std::string>());
    auto& d = reg[h]->GetData(ev["name"].get<std::string>());
    d.fill({0.0f, 0.0f});
  } else if (op == "remove") {
    reg[h]->RemoveData(ev["name"].get<std::string>());
  } else if (op == "copyctor") {
    reg[g] = std::make_unique<DPBuffer>(*reg[h]);
  } else if (op == "copyfields") {
    reg[g] = std::make_unique<DPBuffer>(*reg[h], MakeFields(ev["fields"]));
  } else if (op == "movector") {
    auto p = std::make_unique<DPBuffer>(std::move(*reg[h]));
    reg[g] = std::move(p);
    if (g != h) reg.erase(h);
  } else if (op == "assign") {
    *reg[g] = *reg[h];
  } else if (op == "moveassign") {
    *reg[g] = std::move(*reg[h]);
    if (g != h) reg.erase(h);
  } else if (op == "copy") {
    reg[g]->Copy(*reg[h], MakeFields(ev["fields"]), ev["extra"].get<bool>());
  } else if (op == "copydata") {
    reg[g]->CopyData(*reg[h], ev["src"].get<std::string>(), ev["tgt"].get<std::string>());
  } else if (op == "movedata") {
    reg[g]->MoveData(*reg[h], ev["src"].get<std::string>(), ev["tgt"].get<std::string>());
    if (ev["src"].get<std::string>().empty()) Fill(reg[h]->GetData(), ev["a"]);
  } else if (op == "take") {
    DPBuffer::DataType d = reg[h]->TakeData();
    DPBuffer::WeightsType w = reg[h]->TakeWeights();
    ev["gotd"] = Arr(d);
    ev["gotw"] = Arr(w);
    ev["left"] = reg[h]->GetData().size() + reg[h]->GetWeights().size();
    Fill(reg[h]->GetData(), ev["a"]);
    Fill(reg[h]->GetWeights(), ev["aw"]);
  } else if (op == "poke") {
    auto& d = reg[h]->GetData(ev["name"].get<std::string>());
    d.data()[ev["k"].get<int>()] = C(ev["v"]);
  } else if (op == "solve") {
    std::vector<std::vector<std::complex<double>>> s;
    for (const auto& x : ev["sol"]) {
      s.emplace_back();
      for (const auto& y : x) s.back().push_back(std::complex<double>(C(y)));
    }
    std::vector<std::string> dirs = ev["dirs"].get<std::vector<std::string>>();
    reg[h]->SetSolution(s, ev["nant"].get<size_t>(), ev["npol"].get<size_t>(), dirs);
  } else if (op == "nodata") {
    const DPBuffer& b = *reg[h];
    bool thrown = false;
    try {
      b.GetData("nosuch");
    } catch (const std::runtime_error&) {
      thrown = true;
    }
    try {
      b.GetSolution("nosuch");
      thrown = false;
    } catch (const std::runtime_error&) {
    }
    ev["thrown"] = thrown;
  } else {
    throw json::type_error::create(302, "unknown op " + op, nullptr);
  }
}

void Bda(json& ev, const std::string& op) {
  const int h = ev.value("h", 0), g = ev.value("g", 0);
  if (op == "bmake") {
    bda[h] = std::make_unique<BdaBuffer>(ev["cap"].get<size_t>(), MakeFields(ev["fields"]));
  } else if (op == "row") {
    const size_t nch = ev["nch"].get<size_t>(), nc = ev["nc"].get<size_t>();
    std::vector<std::complex<float>> d;
    std::vector<float> w;
    std::unique_ptr<bool[]> f(new bool[nch * nc + 1]);
    double uvw[3] = {0, 0, 0};
    for (const auto& x : ev["d"]) d.push_back(C(x));
    for (const auto& x : ev["w"]) w.push_back(x.get<float>());
    for (size_t k = 0; k < ev["f"].size(); ++k) f[k] = ev["f"][k].get<int>() != 0;
    for (size_t k = 0; k < ev["uvw"].size(); ++k) uvw[k] = ev["uvw"][k].get<double>();
    try {
      const bool ok = bda[h]->AddRow(ev["t"].get<double>() / 2, ev["int"].get<double>(), ev["exp"].get<double>(),
                                     ev["bl"].get<size_t>(), nch, nc, ev["nr"].get<size_t>(),
                                     ev["d"].empty() ? nullptr : d.data(), ev["f"].empty() ? nullptr : f.get(),
                                     ev["w"].empty() ? nullptr : w.data(), ev["uvw"].empty() ? nullptr : uvw);
      ev["res"] = ok ? "yes" : "no";
    } catch (const std::invalid_argument&) {
      ev["res"] = "err";
    }
  } else if (op == "clear") {
    bda[h]->Clear();
  } else if (op == "badd") {
    bda[h]->AddData(ev["name"].get<std::string>());
  } else if (op == "bremove") {
    bda[h]->RemoveData(ev["name"].get<std::string>());
  } else if (op == "bmove") {
    bda[g]->MoveData(*bda[h], ev["src"].get<std::string>(), ev["tgt"].get<std::string>());
  } else if (op == "bcopy") {
    auto p = std::make_unique<BdaBuffer>(*bda[h], MakeFields(ev["fields"]));
    bda[g] = std::move(p);
  } else if (op == "bfill") {  // write a whole row through the pointers
    const size_t k = ev["k"].get<size_t>();
    const size_t n = bda[h]->GetRows()[k].GetDataSize();
    const std::string name = ev["name"].get<std::string>();
    if (auto* p = bda[h]->GetData(k, name))
      for (size_t i = 0; i < n; ++i) p[i] = C(ev["d"][i]);
    if (bool* p = bda[h]->GetFlags(k))
      for (size_t i = 0; i < n; ++i) p[i] = ev["f"][i].get<int>() != 0;
    if (float* p = bda[h]->GetWeights(k))
      for (size_t i = 0; i < n; ++i) p[i] = ev["w"][i].get<float>();
  } else if (op == "same") {
    ev["same"] = bda[h]->IsMetadataEqual(*bda[g]);
    ev["emas"] = bda[g]->IsMetadataEqual(*bda[h]);
  } else {
    throw json::type_error::create(302, "unknown op " + op, nullptr);
  }
}

void Handle(json& ev) {
  const std::string op = ev["op"].get<std::string>();
  if (op == "new") {
    reg.clear();
    bda.clear();
    return;
  }
  if (ev["kind"] == "reg") {
    Regular(ev, op);
    json all = json::array();
    for (const auto& [h, b] : reg) {
      json d = Dump(*b);
      d["h"] = h;
      all.push_back(d);
    }
    ev["all"] = all;
  } else {
    Bda(ev, op);
    json all = json::array();
    for (const auto& [h, b] : bda) {
      json d = Dump(*b);
      d["h"] = h;
      all.push_back(d);
    }
    ev["all"] = all;
  }
}
}  // namespace

int main(int argc, char** argv) { return RunScript(argc, argv, Handle); }
