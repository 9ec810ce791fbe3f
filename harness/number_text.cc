#include "common.h"
#include "common/StringTools.h"
#include "common/ParameterValue.h"
#include <cmath>

using namespace dp3::common;

template <typename F>
static void Int(json& ev, F f) {
  try {
    const auto v = f(Text(ev["text"]));
    ev["res"] = "ok";
    ev["val"] = Codes(std::to_string(v));
  } catch (const std::runtime_error&) {
    ev["res"] = "err";
    ev["val"] = json::array();
  }
}

static void Handle(json& ev) {
  const std::string op = ev["op"];
  if (op == "new") return;
  if (op == "int") {
    const std::string t = ev["type"];
    const bool pv = ev["via"] == "value";  // through a parset value
    if (pv) {
      const ParameterValue v(Text(ev["text"]), ev.value("trim", true));
      auto via = [&](auto g) { Int(ev, [&](const std::string&) { return g(); }); };
      if (t == "int") via([&] { return v.getInt(); });
      else if (t == "int16") via([&] { return v.getInt16(); });
      else if (t == "int32") via([&] { return v.getInt32(); });
      else if (t == "int64") via([&] { return v.getInt64(); });
      else if (t == "uint") via([&] { return v.getUint(); });
      else if (t == "uint16") via([&] { return v.getUint16(); });
      else if (t == "uint32") via([&] { return static_cast<uint32_t>(v.getUint32()); });
      else if (t == "uint64") via([&] { return v.getUint64(); });
      else throw json::other_error::create(501, "type " + t, nullptr);
      return;
    }
    if (t == "long") Int(ev, strToLong);
    else if (t == "int") Int(ev, strToInt);
    else if (t == "int16") Int(ev, strToInt16);
    else if (t == "int32") Int(ev, strToInt32);
    else if (t == "int64") Int(ev, strToInt64);
    else if (t == "ulong") Int(ev, strToUlong);
    else if (t == "uint") Int(ev, strToUint);
    else if (t == "uint16") Int(ev, strToUint16);
    else if (t == "uint32") Int(ev, strToUint32);
    else if (t == "uint64") Int(ev, strToUint64);
    else throw json::other_error::create(501, "type " + t, nullptr);
  } else if (op == "bool") {
    try {
      ev["bit"] = strToBool(Text(ev["text"])) ? 1 : 0;
      ev["res"] = "ok";
    } catch (const std::runtime_error&) {
      ev["res"] = "err";
      ev["bit"] = 0;
    }
  } else if (op == "float") {
    ev["milli"] = 0;
    ev["exact"] = false;
    ev["mag"] = 0;
    try {
      const bool single = ev["type"] == "float";
      const double v = single ? double(strToFloat(Text(ev["text"])))
                              : strToDouble(Text(ev["text"]));
      ev["res"] = "ok";
      const double m = v * 1000.0;
      const double r = std::round(m);
      if (std::isfinite(r) && std::fabs(r) < 2e9) {
        ev["milli"] = static_cast<long>(r);
        ev["exact"] = std::fabs(m - r) <= (single ? 1e-6 : 1e-13) * std::max(1.0, std::fabs(m));
      }
      if (v != 0.0 && std::isfinite(v)) {
        // Decimal magnitude, robust against the rounding of a power of ten.
        int mag = static_cast<int>(std::floor(std::log10(std::fabs(v)) + (single ? 1e-6 : 1e-13)));
        ev["mag"] = mag;
      }
    } catch (const std::runtime_error&) {
      ev["res"] = "err";
    }
  } else {
    throw json::other_error::create(501, "op " + op, nullptr);
  }
}

int main(int argc, char** argv) { return RunScript(argc, argv, Handle); }
