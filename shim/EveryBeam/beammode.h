#pragma once
#include <string>
namespace everybeam {
enum class BeamMode { kNone = 0, kFull = 1, kArrayFactor = 2, kElement = 3 };
enum class BeamNormalisationMode { kNone = 0, kPreApplied, kPreAppliedOrFull, kAmplitude, kFull };
inline std::string ToString(BeamMode m) {
  switch (m) {
    case BeamMode::kFull: return "Full";
    case BeamMode::kArrayFactor: return "ArrayFactor";
    case BeamMode::kElement: return "Element";
    default: return "None";
  }
}
}  // namespace everybeam
