#pragma once
#include <schaapcommon/threading/staticfor.h>
namespace schaapcommon {
class RecursiveFor {
 public:
  RecursiveFor() = default;
  RecursiveFor(const RecursiveFor&) = delete;
  template <class F>
  void Run(std::size_t start, std::size_t end, F f) { StaticFor<std::size_t>().Run(start, end, Each(f)); }
  template <class F>
  void ConstrainedRun(std::size_t start, std::size_t end, std::size_t n, F f) {
    StaticFor<std::size_t>().Run(start, end, Each(f), n);
  }
  template <class F>
  static void NestedRun(std::size_t start, std::size_t end, F f) { StaticFor<std::size_t>().Run(start, end, Each(f)); }
  template <class F>
  static void NestedRun(std::size_t start, std::size_t end, F f, std::size_t n) { StaticFor<std::size_t>().Run(start, end, Each(f), n); }

 private:
  template <class F>
  static auto Each(F& f) {
    return [&f](std::size_t a, std::size_t b, std::size_t t) {
      if constexpr (std::is_invocable_v<F&, std::size_t, std::size_t, std::size_t>) f(a, b, t);
      else if constexpr (std::is_invocable_v<F&, std::size_t, std::size_t>) f(a, b);
      else for (std::size_t i = a; i != b; ++i) f(i);
    };
  }
};
}  // namespace schaapcommon
