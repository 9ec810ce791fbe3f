#pragma once
namespace everybeam::telescope {
class Telescope {
 public:
  virtual ~Telescope() = default;
};
}  // namespace everybeam::telescope
