#include "common.h"
#include <cmath>
#include <limits>
#include <memory>
#include "base/Apply.h"
#include "base/SubtractMixed.h"
using namespace dp3::base;
using CD = std::complex<double>;
using CF = std::complex<float>;
template <class T> static std::vector<std::complex<T>> Load(const json& a) {
  std::vector<std::complex<T>> v;
  const T nan = std::numeric_limits<T>::quiet_NaN();
  for (const auto& x : a)
    if (x.empty()) v.emplace_back(nan, nan); else v.emplace_back(T(double(x[0])), T(double(x[1])));
  v.shrink_to_fit();
  return v;
}
template <class T> static json Save(const std::vector<std::complex<T>>& v) {
  json a = json::array();
  for (const auto& x : v) {
    if (std::isnan(x.real())) a.push_back(json::array());
    else if (x.real() != std::round(x.real()) || x.imag() != std::round(x.imag())) a.push_back({int32_t(2000000001), 0});
    else a.push_back({int32_t(x.real()), int32_t(x.imag())});
  }
  return a;
}
static std::vector<size_t> Strides(const json& a) { std::vector<size_t> s; for (const auto& x : a) s.push_back(x); return s; }
static std::vector<int> arena;
static cursor<int> cur;
static const_cursor<int> ccur;
static std::vector<size_t> cs;
static void Handle(json& ev) {
  const std::string op = ev["op"];
  if (op == "new") {
    if (ev.contains("pos")) {
      arena.resize(4000);
      for (int i = 0; i < 4000; ++i) arena[i] = i;
      cs = Strides(ev["strides"]);
      cur = cursor<int>(arena.data() + int(ev["pos"]), cs.size(), cs.data());
      ccur = ev["conv"] ? const_cursor<int>(cur) : const_cursor<int>(arena.data() + int(ev["pos"]), cs.size(), cs.data());
    }
    return;
  }
  if (op == "apply") {
    std::vector<Baseline> bl;
    for (const auto& x : ev["bl"]) bl.emplace_back(size_t(x[0]), size_t(x[1]));
    std::vector<double> co;
    for (const auto& x : ev["co"]) co.push_back(x);
    auto data = Load<double>(ev["buf"]);
    auto s = Strides(ev["s"]), c2 = Strides(ev["cs"]);
    apply(bl.size(), ev["nc"], const_cursor<Baseline>(bl.data()), const_cursor<double>(co.data(), 2, c2.data()),
          cursor<CD>(data.data(), 3, s.data()));
    ev["out"] = Save(data);
  } else if (op == "sub") {
    std::vector<Baseline> bl;
    for (const auto& x : ev["bl"]) bl.emplace_back(size_t(x[0]), size_t(x[1]));
    auto data = Load<float>(ev["buf"]);
    auto w = Load<double>(ev["w"]), m = Load<double>(ev["m"]);
    auto s = Strides(ev["s"]), ws = Strides(ev["ws"]), ms = Strides(ev["ms"]);
    float before = -5, after = -5;
    subtract(bl.size(), ev["nc"], const_cursor<Baseline>(bl.data()), cursor<CF>(data.data(), 3, s.data()),
             const_cursor<CD>(m.data(), 3, ms.data()), const_cursor<CD>(w.data(), 3, ws.data()), before, after);
    ev["out"] = Save(data);
    ev["before"] = std::isfinite(before) ? int32_t(std::lround(before)) : -1;
    ev["after"] = std::isfinite(after) ? int32_t(std::lround(after)) : -1;
  } else if (op == "cur") {
    const std::string mv = ev["mv"];
    const size_t n = ev.value("n", 0), ax = ev.value("ax", 0);
    if (mv == "inc") { ++cur; ++ccur; }
    if (mv == "post") { ev["old"] = int(cur++.address() - arena.data()); ccur++; }
    if (mv == "plus") { cur += n; ccur += n; }
    if (mv == "minus") { cur -= n; ccur -= n; }
    if (mv == "fwd") { cur.forward(ax); ccur.forward(ax); }
    if (mv == "fwdn") { cur.forward(ax, n); ccur.forward(ax, n); }
    if (mv == "bwd") { cur.backward(ax); ccur.backward(ax); }
    if (mv == "bwdn") { cur.backward(ax, n); ccur.backward(ax, n); }
    ev["at"] = int(cur.address() - arena.data());
    ev["cat"] = int(ccur.address() - arena.data());
    ev["val"] = *ccur == *cur ? *cur : -1;
    const size_t look = ev["look"];
    ev["ahead"] = ccur[look] == cur[look] ? cur[look] : -1;
    ev["rank"] = cur.rank() == ccur.rank() ? cur.rank() : 99;
    json st = json::array();
    for (size_t k = 0; k < cs.size(); ++k) st.push_back(cur.stride(k) == ccur.stride(k) ? cur.stride(k) : 99999);
    ev["strides"] = st;
  }
}
int main(int c, char** v) { return RunScript(c, v, Handle); }
