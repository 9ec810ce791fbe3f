#include "common.h"
#include <sstream>
#include "common/ParameterValue.h"
#include "common/ParameterRecord.h"
#include "common/ParameterSet.h"
using namespace dp3::common;

static json Fields(const ParameterRecord& r) {
  json a = json::array();
  for (const auto& kv : r)
    a.push_back(json::array({Codes(kv.first), Codes(kv.second.get())}));
  return a;
}
template <typename V>
static json Printed(const V& v) {
  json a = json::array();
  for (const auto& x : v) a.push_back(Codes(std::to_string(x)));
  return a;
}

static void Handle(json& ev) {
  const std::string op = ev["op"];
  if (op == "new") return;
  const std::string text = Text(ev["text"]);
  // Either directly, or stored in a parameter set and asked from there.
  const bool set = ev.value("set", false);
  ParameterSet ps;
  ps.adoptArguments({"k=" + text});  // as on the command line
  const ParameterValue v(text);
  ev["res"] = "ok";
  ev["items"] = json::array();
  try {
    if (op == "vec") {
      ev["isvec"] = v.isVector();
      ev["isrec"] = v.isRecord();
      std::vector<std::string> r;
      for (const ParameterValue& e : set ? ps.getVector("k") : v.getVector())
        r.push_back(e.get());
      ev["items"] = Codes(r);
    } else if (op == "str") {
      ev["out"] = json::array();
      ev["out"] = Codes(set ? ps.getString("k") : v.getString());
    } else if (op == "rec") {
      ev["fields"] = json::array();
      ev["fields2"] = json::array();
      ev["back"] = "none";
      const ParameterRecord r = set ? ps.getRecord("k") : v.getRecord();
      ev["fields"] = Fields(r);
      std::ostringstream os;
      os << r;
      try {
        ev["fields2"] = Fields(ParameterValue(os.str()).getRecord());
        ev["back"] = "ok";
      } catch (const std::runtime_error&) {
        ev["back"] = "err";
      }
    } else if (op == "typed") {
      const std::string t = ev["type"];
#define T(NAME, GET) \
  if (t == NAME) ev["items"] = set ? Printed(ps.GET("k")) : Printed(v.GET());
      T("int", getIntVector) T("uint", getUintVector) T("int16", getInt16Vector)
      T("uint16", getUint16Vector) T("int32", getInt32Vector)
      T("uint32", getUint32Vector) T("int64", getInt64Vector)
      T("uint64", getUint64Vector)
    } else if (op == "boolvec") {
      for (bool x : set ? ps.getBoolVector("k") : v.getBoolVector())
        ev["items"].push_back(x ? 1 : 0);
    } else if (op == "strvec") {
      ev["items"] = Codes(set ? ps.getStringVector("k") : v.getStringVector());
    } else if (op == "time") {
      ev["secs"] = 0;
      ev["secs"] = set ? ps.getTime("k") : v.getTime();
    } else {
      throw json::other_error::create(501, "op " + op, nullptr);
    }
  } catch (const std::runtime_error&) {
    ev["res"] = "err";
  }
}
int main(int argc, char** argv) { return RunScript(argc, argv, Handle); }
