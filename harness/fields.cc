#include "common.h"
#include "common/Fields.h"
#include <sstream>
using dp3::common::Fields;
static const char* kNames[] = {"data", "flags", "weights", "uvw"};
static Fields Make(const json& a) {
  Fields f;
  for (const auto& x : a)
    for (int k = 0; k < 4; ++k)
      if (x == kNames[k]) f |= Fields(static_cast<Fields::Single>(k));
  return f;
}
static json Obs(const Fields& f) {
  json a = json::array();
  if (f.Data()) a.push_back("data");
  if (f.Flags()) a.push_back("flags");
  if (f.Weights()) a.push_back("weights");
  if (f.Uvw()) a.push_back("uvw");
  return a;
}
// "[a, b]" -> ["a","b"]
static json Printed(const Fields& f) {
  std::ostringstream s;
  s << f;
  std::string t = s.str();
  json a = json::array();
  if (t.size() < 2 || t.front() != '[' || t.back() != ']') return a.push_back(t), a;
  t = t.substr(1, t.size() - 2);
  size_t p = 0;
  while (!t.empty()) {
    size_t q = t.find(", ", p);
    a.push_back(t.substr(p, q == std::string::npos ? q : q - p));
    if (q == std::string::npos) break;
    p = q + 2;
  }
  return a;
}
static Fields need;
static void Handle(json& ev) {
  const std::string op = ev["op"];
  if (op == "new") {
    need = Fields();
  } else if (op == "step") {
    Fields& r = need.UpdateRequirements(Make(ev["req"]), Make(ev["prov"]));
    ev["obs"] = Obs(need);
    ev["text"] = Printed(r);
  } else if (op == "or") {
    const Fields other = Make(ev["req"]);
    Fields a = need | other;
    Fields b = need;
    b |= other;
    ev["obs"] = Obs(a);
    ev["obs2"] = Obs(b);
    ev["text"] = Printed(a);
  } else if (op == "eq") {
    ev["eq"] = Make(ev["a"]) == Make(ev["b"]);
    ev["ne"] = Make(ev["a"]) != Make(ev["b"]);
  }
}
int main(int c, char** v) { return RunScript(c, v, Handle); }
