#include "common.h"
#include "common/baseline_indices.h"
using namespace dp3::common;
static void Handle(json& ev) {
  const std::string op = ev["op"];
  if (op == "new") return;
  const size_t n = ev["n"];
  const BaselineOrder o =
      ev.value("order", "row") == std::string("row") ? BaselineOrder::kRowMajor : BaselineOrder::kColumnMajor;
  if (op == "count") {
    ev["res"] = ComputeNBaselines(n);
  } else if (op == "pair") {
    const size_t k = ComputeBaselineIndex(ev["a"], ev["b"], n, o);
    const auto p = ComputeBaseline(k, n, o);
    ev["index"] = int32_t(k);
    ev["back"] = {int32_t(p.first), int32_t(p.second)};
  } else if (op == "list") {
    json a = json::array();
    for (size_t x : ComputeBaselineList(ev["a"], n, o)) a.push_back(int32_t(x));
    ev["res"] = a;
  } else if (op == "walk") {
    json a = json::array();
    for (size_t k = 0; k < ComputeNBaselines(n); ++k) {
      const auto p = ComputeBaseline(k, n, o);
      a.push_back({int32_t(p.first), int32_t(p.second)});
    }
    ev["pairs"] = a;
  }
}
int main(int c, char** v) { return RunScript(c, v, Handle); }
