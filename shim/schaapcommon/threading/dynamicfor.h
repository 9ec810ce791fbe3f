#pragma once
#include <atomic>
#include <schaapcommon/threading/threadpool.h>
namespace schaapcommon {
template <typename Iter>
class DynamicFor {
 public:
  DynamicFor() = default;
  explicit DynamicFor(std::size_t) {}
  template <class F>
  void Run(Iter start, Iter end, F f, std::size_t = 1) {
    if (!(start < end)) return;
    std::atomic<std::size_t> next(0);
    const std::size_t total = end - start;
    auto work = [&](std::size_t t) {
      for (std::size_t i = next++; i < total; i = next++) {
        if constexpr (std::is_invocable_v<F&, Iter, std::size_t>)
          f(Iter(start + i), t);
        else
          f(Iter(start + i));
      }
    };
    ThreadPool::GetInstance().ExecuteInParallel(work);
  }
};
}  // namespace schaapcommon
