#pragma once
#include <cstddef>
#include <thread>
namespace aocommon::system {
inline std::size_t ProcessorCount() { return 2; }
inline long TotalMemory() { return 1L << 33; }
}  // namespace aocommon::system
