#pragma once
#include <schaapcommon/threading/threadpool.h>
namespace schaapcommon {
template <typename Iter>
class StaticFor {
 public:
  StaticFor() = default;
  explicit StaticFor(std::size_t) {}
  // function(begin, end) or function(begin, end, thread)
  template <class F>
  void Run(Iter start, Iter end, F f, std::size_t max_chunks = 0) {
    const std::size_t total = end > start ? std::size_t(end - start) : 0;
    std::size_t n = ThreadPool::GetInstance().NThreads();
    if (max_chunks && n > max_chunks) n = max_chunks;
    if (n > total) n = total;
    if (n == 0) return;
    if (n == 1) {
      Call(f, start, end, 0);
      return;
    }
    ThreadPool::GetInstance().ExecuteInParallel([&](std::size_t t) {
      if (t >= n) return;
      Call(f, Iter(start + total * t / n), Iter(start + total * (t + 1) / n), t);
    });
  }

  template <class F>
  void ConstrainedRun(Iter start, Iter end, std::size_t max_chunks, F f) { Run(start, end, f, max_chunks ? max_chunks : 1); }

 private:
  template <class F>
  static void Call(F& f, Iter a, Iter b, std::size_t t) {
    if constexpr (std::is_invocable_v<F&, Iter, Iter, std::size_t>)
      f(a, b, t);
    else
      f(a, b);
  }
};
template <typename Iter, class F>
void RunStaticFor(Iter start, Iter end, F f) { StaticFor<Iter>().Run(start, end, f); }
template <typename Iter, class F>
void RunConstrainedStaticFor(Iter start, Iter end, std::size_t n, F f) { StaticFor<Iter>().ConstrainedRun(start, end, n, f); }
}  // namespace schaapcommon
