#include "common.h"
#include <cstdio>
#include <sstream>
#include "common/ParameterSet.h"
#include "common/ParameterRecord.h"
using namespace dp3::common;

static std::vector<ParameterSet> slots;

static json Content(const ParameterSet& s) {
  json a = json::array();
  for (const auto& kv : s)
    a.push_back(json::array({Codes(kv.first), Codes(kv.second.get())}));
  if (int(a.size()) != s.size() || a.empty() != s.empty()) a.push_back("size!");
  return a;
}
static std::string Slurp(const std::string& name) {
  std::ifstream f(name);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

template <typename T>
static json One(const T& x) {
  std::ostringstream os;
  os << x;
  return Codes(os.str());
}
template <typename T>
static T Parse(const std::string& t) {
  if constexpr (std::is_same_v<T, std::string>) return t;
  else return static_cast<T>(std::stoll(t));
}
template <typename T>
static std::vector<T> ParseAll(const json& ds) {
  std::vector<T> v;
  for (const auto& d : ds) v.push_back(Parse<T>(Text(d)));
  return v;
}
/// Every kind of typed lookup, with and without default.
static void Look(const ParameterSet& s, const std::string& k, json& ev) {
  const std::string t = ev["type"];
  const bool vec = ev["vec"], hasd = ev["hasd"], expand = ev["expand"];
  json vals = json::array();
#define LOOK(NAME, T, GET)                                              \
  if (t == NAME) {                                                      \
    if (vec) {                                                          \
      const std::vector<T> d = ParseAll<T>(ev["ds"]);                   \
      const std::vector<T> r =                                          \
          hasd ? (expand ? s.GET##Vector(k, d, true) : s.GET##Vector(k, d)) \
               : (expand ? s.GET##Vector(k, true) : s.GET##Vector(k));  \
      for (const auto& x : r) vals.push_back(One(static_cast<T>(x)));   \
    } else {                                                            \
      const T r = hasd ? s.GET(k, Parse<T>(Text(ev["ds"][0]))) : s.GET(k); \
      vals.push_back(One(r));                                           \
    }                                                                   \
  }
  LOOK("bool", bool, getBool) LOOK("int", int, getInt)
  LOOK("uint", unsigned int, getUint) LOOK("int16", int16_t, getInt16)
  LOOK("uint16", uint16_t, getUint16) LOOK("int32", int32_t, getInt32)
  LOOK("uint32", uint32_t, getUint32) LOOK("int64", int64_t, getInt64)
  LOOK("uint64", uint64_t, getUint64) LOOK("float", float, getFloat)
  LOOK("double", double, getDouble) LOOK("string", std::string, getString)
  LOOK("time", time_t, getTime)
  if (t == "sizet")
    for (size_t x : s.getSizeTVector(k, expand)) vals.push_back(One(x));
  ev["vals"] = vals;
}

static void Handle(json& ev) {
  const std::string op = ev["op"];
  if (op == "new") {
    slots.assign(5, ParameterSet(ev["nc"].get<bool>()));
    for (int i = 2; i <= 4; ++i) slots[i] = slots[1];
    return;
  }
  ParameterSet& s = slots.at(ev["s"].get<int>());
  const std::string k = ev.contains("k") ? Text(ev["k"]) : "";
  const std::string v = ev.contains("v") ? Text(ev["v"]) : "";
  const std::string prefix = ev.contains("prefix") ? Text(ev["prefix"]) : "";
  bool two = false;
  ev["res"] = "ok";
  if (op == "get" || op == "getd" || op == "geti") ev["val"] = json::array();
  try {
    if (op == "make") {
      s = ev.value("byname", false)
              ? ParameterSet(ev["nc"].get<bool>() ? KeyCompare::NOCASE : KeyCompare::NORMAL)
              : ParameterSet(ev["nc"].get<bool>());
    } else if (op == "copy") {
      s = slots.at(ev["t"].get<int>());
    } else if (op == "add") {
      s.add(k, v);
    } else if (op == "replace") {
      s.replace(k, v);
    } else if (op == "remove") {
      s.remove(k);
    } else if (op == "clear") {
      s.clear();
    } else if (op == "get") {
      ev["val"] = Codes(ev.value("br", false) ? s[k].get() : s.get(k).get());
    } else if (op == "getd") {
      ev["val"] = Codes(s.getString(k, Text(ev["d"])));
    } else if (op == "geti") {
      const int x = ev["hasd"].get<bool>() ? s.getInt(k, std::stoi(Text(ev["d"]))) : s.getInt(k);
      ev["val"] = Codes(std::to_string(x));
    } else if (op == "look") {
      ev["vals"] = json::array();
      Look(s, k, ev);
    } else if (op == "mod") {
      ev["val"] = json::array();
      ev["val"] = Codes(ev["full"].get<bool>() ? s.fullModuleName(k) : s.locateModule(k));
    } else if (op == "def") {
      ev["bit"] = s.isDefined(k);
      if ((s.find(k) != s.end()) != s.isDefined(k)) ev["res"] = "differs";
    } else if (op == "subset") {
      slots.at(ev["t"].get<int>()) = s.makeSubset(Text(ev["base"]), prefix);
      two = true;
    } else if (op == "subtract") {
      s.subtractSubset(Text(ev["base"]));
    } else if (op == "adopt") {
      s.adoptCollection(slots.at(ev["t"].get<int>()), prefix);
      two = true;
    } else if (op == "args") {
      std::vector<std::string> a;
      for (const auto& x : ev["args"]) a.push_back(Text(x));
      s.adoptArguments(a);
    } else if (op == "text") {
      if (ev.value("viafile", false)) {
        { std::ofstream f("in.parset"); f << Text(ev["text"]); }
        s.adoptFile("in.parset", prefix);
      } else {
        s.adoptBuffer(Text(ev["text"]), prefix);
      }
    } else if (op == "write") {
      ev["out"] = ev["file"] = ev["twice"] = json::array();
      std::string b;
      s.writeBuffer(b);
      std::ostringstream os;
      os << s;
      if (os.str() != b) ev["res"] = "differs";
      ev["out"] = Codes(b);
      s.writeFile("out.parset");
      ev["file"] = Codes(Slurp("out.parset"));
      s.writeFile("out.parset", true);
      ev["twice"] = Codes(Slurp("out.parset"));
    } else if (op == "back") {
      const bool nc = s.keyCompareMode() == KeyCompare::NOCASE;
      s.writeFile("back.parset");
      ParameterSet r(nc);
      two = true;
      if (ev.value("ctor", false)) {
        r = ParameterSet(std::string("back.parset"), nc);
      } else {
        r.adoptFile("back.parset");
      }
      slots.at(ev["t"].get<int>()) = r;
    } else {
      throw json::other_error::create(501, "op " + op, nullptr);
    }
  } catch (const std::runtime_error& e) {
    ev["res"] = "err";
  }
  ev["all"] = Content(s);
  ev["unused"] = Codes(s.unusedKeys());
  if (two) {
    const ParameterSet& t = slots.at(ev["t"].get<int>());
    ev["all2"] = Content(t);
    ev["unused2"] = Codes(t.unusedKeys());
  }
}
int main(int argc, char** argv) { return RunScript(argc, argv, Handle); }
