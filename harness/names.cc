#include "common.h"
#include <cmath>
#include "base/CalType.h"
#include "base/RcuMode.h"
#include "common/TypeNames.h"
using namespace dp3::base;
static const std::vector<std::pair<const char*, CalType>> kCal = {
    {"Scalar", CalType::kScalar}, {"ScalarAmplitude", CalType::kScalarAmplitude}, {"ScalarPhase", CalType::kScalarPhase},
    {"Diagonal", CalType::kDiagonal}, {"DiagonalAmplitude", CalType::kDiagonalAmplitude}, {"DiagonalPhase", CalType::kDiagonalPhase},
    {"FullJones", CalType::kFullJones}, {"Tec", CalType::kTec}, {"TecAndDelay", CalType::kTecAndDelay},
    {"TecAndPhase", CalType::kTecAndPhase}, {"TecPhaseAndDelay", CalType::kTecPhaseAndDelay}, {"TecScreen", CalType::kTecScreen},
    {"RotationAndDiagonal", CalType::kRotationAndDiagonal}, {"Rotation", CalType::kRotation},
    {"FaradayRotation", CalType::kFaradayRotation}, {"Leakage", CalType::kLeakage}, {"LeakageAmplitude", CalType::kLeakageAmplitude}};
template <class T> static void TypeOf(json& ev) {
  using namespace dp3::common;
  ev["res"] = typeName(static_cast<const T*>(nullptr));
  ev["arr"] = typeName(static_cast<T const* const*>(nullptr));
  ev["arr2"] = typeName(static_cast<T const* const* const*>(nullptr));
}
static void Handle(json& ev) {
  const std::string op = ev["op"];
  if (op == "new") return;
  if (op == "cal") {
    try {
      CalType t = StringToCalType(ev["name"]);
      ev["res"] = "unknown";
      for (auto& p : kCal) if (p.second == t) ev["res"] = p.first;
      ev["npol"] = GetNPolarizations(t);
    } catch (std::runtime_error&) { ev["res"] = "err"; }
  } else if (op == "caltext") {
    for (auto& p : kCal) if (ev["mode"] == p.first) ev["text"] = ToString(p.second);
  } else if (op == "rcu") {
    const int k = ev["k"];
    try {
      RcuMode m = RcuMode::FromNumber(k);
      ev["res"] = "ok";
      ev["same"] = (m == static_cast<RcuMode::Mode>(k));
      for (int o = 0; o < 8; ++o) if (o != k && m == static_cast<RcuMode::Mode>(o)) ev["same"] = false;
      ev["ant"] = m.AntennaType();
      ev["text"] = m.ToString();
      int bad = 0;
      try { ev["bw2"] = int32_t(std::lround(2 * m.Bandwidth())); } catch (std::runtime_error&) { ++bad; }
      try { ev["centre"] = int32_t(std::lround(m.CentralFrequency())); } catch (std::runtime_error&) { ++bad; }
      try { ev["offset"] = int32_t(std::lround(m.FrequencyOffset() / 1e6)); } catch (std::runtime_error&) { ++bad; }
      ev["freqs"] = bad == 0 ? "ok" : bad == 3 ? "err" : "mixed";
    } catch (std::runtime_error&) { ev["res"] = "err"; }
  } else if (op == "type") {
    const std::string t = ev["t"];
    if (t == "void") {
      ev["res"] = dp3::common::typeName(static_cast<const void*>(nullptr));
      ev["arr"] = "array<unknown>"; ev["arr2"] = "array<array<unknown>>";
    }
    if (t == "bool") TypeOf<bool>(ev);
    if (t == "char") TypeOf<char>(ev);
    if (t == "i8") TypeOf<int8_t>(ev);
    if (t == "u8") TypeOf<uint8_t>(ev);
    if (t == "i16") TypeOf<int16_t>(ev);
    if (t == "u16") TypeOf<uint16_t>(ev);
    if (t == "i32") TypeOf<int32_t>(ev);
    if (t == "u32") TypeOf<uint32_t>(ev);
    if (t == "i64") TypeOf<int64_t>(ev);
    if (t == "u64") TypeOf<uint64_t>(ev);
    if (t == "f32") TypeOf<float>(ev);
    if (t == "f64") TypeOf<double>(ev);
    if (t == "c32") TypeOf<std::complex<float>>(ev);
    if (t == "c64") TypeOf<std::complex<double>>(ev);
  }
}
int main(int c, char** v) { return RunScript(c, v, Handle); }
