#include "common.h"
#include <regex>
#include "common/StringTools.h"
#include "common/ParameterValue.h"
#include "common/ParameterSet.h"
using namespace dp3::common;

static std::vector<std::string> Elements(const ParameterValue& v) {
  std::vector<std::string> r;
  for (const ParameterValue& e : v.getVector()) r.push_back(e.get());
  return r;
}

static void Handle(json& ev) {
  const std::string op = ev["op"];
  if (op == "new") return;
  const std::string text = Text(ev["text"]);
  if (op == "expand") {
    try {
      const ParameterValue v(expandArrayString(text));
      const ParameterValue w = ParameterValue(text).expand();
      ev["elems"] = Codes(Elements(v));
      ev["again"] = Codes(Elements(w.expand()));
      ev["res"] = "ok";
      if (v.get() != w.get()) ev["res"] = "differs";
      if (ev.value("strings", false)) {
        // Through a parameter set, as the steps do.
        ParameterSet ps;
        ps.adoptArguments({"k=" + text});  // as on the command line
        const std::vector<std::string> s = ps.getStringVector("k", true);
        const std::vector<std::string> s2 =
            ps.getStringVector("k", std::vector<std::string>(), true);
        std::vector<std::string> t;
        for (const ParameterValue& e : v.getVector()) t.push_back(e.getString());
        if (s != t || s2 != t) ev["res"] = "differs";
      }
    } catch (const std::runtime_error& e) {
      ev["res"] = "err";
      ev["elems"] = json::array();
      ev["again"] = json::array();
    }
  } else if (op == "plain") {
    try {
      ev["out"] = Codes(expandArrayString(text));
      ev["res"] = "ok";
    } catch (const std::runtime_error& e) {
      ev["res"] = "err";
      ev["out"] = json::array();
    }
  } else if (op == "bad") {
    try {
      expandArrayString(text);
      ev["res"] = "ok";
    } catch (const std::runtime_error& e) {
      ev["res"] = "err";
    }
  } else if (op == "glob") {
    ev["match"] = std::regex_match(text, std::regex(PatternToRegex(Text(ev["pat"]))));
  } else if (op == "tok") {
    ev["toks"] = Codes(stringtools::tokenize(text, Text(ev["delims"])));
  } else {
    throw json::other_error::create(501, "op " + op, nullptr);
  }
}

int main(int argc, char** argv) { return RunScript(argc, argv, Handle); }
