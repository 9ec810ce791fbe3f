// Stand-in: really runs on threads, so that data races can be seen.
#pragma once
#include <cstddef>
#include <functional>
#include <thread>
#include <vector>
#include <exception>
#include <mutex>
namespace schaapcommon {
class ThreadPool {
 public:
  static ThreadPool& GetInstance() {
    static ThreadPool p;
    return p;
  }
  void SetNThreads(std::size_t n) { n_ = n ? n : 1; }
  std::size_t NThreads() const { return n_; }
  void ExecuteInParallel(const std::function<void(std::size_t)>& f) {
    std::vector<std::thread> t;
    std::exception_ptr error;
    std::mutex m;
    for (std::size_t i = 0; i != n_; ++i)
      t.emplace_back([&, i] {
        try {
          f(i);
        } catch (...) {
          std::lock_guard<std::mutex> l(m);
          if (!error) error = std::current_exception();
        }
      });
    for (auto& x : t) x.join();
    if (error) std::rethrow_exception(error);
  }

  void StartParallelExecution(std::function<void(std::size_t)> f) {
    for (std::size_t i = 0; i != n_; ++i) running_.emplace_back([f, i] { f(i); });
  }
  void FinishParallelExecution() {
    for (auto& x : running_) x.join();
    running_.clear();
  }

 private:
  std::vector<std::thread> running_;
  std::size_t n_ = 2;
};
}  // namespace schaapcommon
