// Stand-in for aocommon's logger: collects what is logged.
#pragma once
#include <iostream>
#include <mutex>
#include <sstream>
#include <string>

namespace aocommon {
class Logger {
 public:
  enum LoggerLevel { kNoLevel = 5, kFatalLevel = 4, kErrorLevel = 3, kWarningLevel = 2, kInfoLevel = 1, kDebugLevel = 0 };
  enum VerbosityLevel { kQuietVerbosity, kNormalVerbosity, kVerboseVerbosity };
  class LogWriter {
   public:
    template <typename T>
    LogWriter& operator<<(const T& t) {
      std::ostringstream s;
      s << t;
      std::lock_guard<std::mutex> lock(Mutex());
      Log() += s.str();
      return *this;
    }
    void Flush() {}
    static std::string& Log() {
      static std::string log;
      return log;
    }
    static std::mutex& Mutex() {
      static std::mutex m;
      return m;
    }
  };
  static void SetVerbosity(VerbosityLevel) {}
  static bool IsVerbose() { return false; }
  static void SetLogTime(bool) {}
  static bool LogTime() { return false; }
  static inline LogWriter Debug, Info, Warn, Error, Fatal, Progress;
};
namespace Logger_ns {}
}  // namespace aocommon
