#include "common.h"
#include <cmath>
#include "common/Median.h"
template <class T> static void Do(json& ev) {
  std::vector<T> v;
  for (const auto& x : ev["v"]) v.push_back(T(double(x)));
  const T m = dp3::common::Median(v);
  ev["res"] = int32_t(std::lround(2.0 * double(m)));
  if (std::abs(2.0 * double(m) - double(ev["res"])) > 1e-6) ev["res"] = 123456789;
  json l = json::array();
  for (T x : v) l.push_back(int32_t(x));
  ev["left"] = l;
}
static void Handle(json& ev) {
  if (ev["op"] == "new") return;
  if (ev["t"] == "f") Do<float>(ev); else Do<double>(ev);
}
int main(int c, char** v) { return RunScript(c, v, Handle); }
