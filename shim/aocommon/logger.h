// Stand-in for aocommon/logger.h: thread-safe, keeps warnings and errors for
// the oracle, prints nothing.
#ifndef AOCOMMON_LOGGER_H
#define AOCOMMON_LOGGER_H

#include <atomic>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace aocommon {

enum class LogLevel { kNoLevel, kFatal, kError, kWarning, kInfo, kDebug };

class Logger {
 public:
  enum LoggerLevel {
    kNoLevel = 5,
    kFatalLevel = 4,
    kErrorLevel = 3,
    kWarningLevel = 2,
    kInfoLevel = 1,
    kDebugLevel = 0
  };
  enum VerbosityLevel { kQuietVerbosity, kNormalVerbosity, kVerboseVerbosity };

  class LogWriter {
   public:
    explicit LogWriter(int level) : level_(level) {}
    template <typename S>
    LogWriter& operator<<(const S& s) {
      std::ostringstream o;
      o << s;
      Add(level_, o.str());
      return *this;
    }
    void Flush(bool = false) {}
    void Disable() {}

   private:
    int level_;
  };

  static void Add(int level, const std::string& s) {
    std::lock_guard<std::mutex> l(Mutex());
    auto& t = Text(level);
    if (t.size() < 100000) t += s;
  }
  static std::string Get(int level) {
    std::lock_guard<std::mutex> l(Mutex());
    return Text(level);
  }
  static void SetVerbosity(VerbosityLevel) {}
  static void SetVerbosity(LogLevel) {}
  static bool IsVerbose() { return false; }
  static void SetLogTime(bool) {}
  static bool LogTime() { return false; }
  static void SetLogMemory(bool) {}

  static inline LogWriter Fatal{4};
  static inline LogWriter Error{3};
  static inline LogWriter Warn{2};
  static inline LogWriter Info{1};
  static inline LogWriter Debug{0};
  static inline LogWriter Progress{1};

 private:
  static std::mutex& Mutex() {
    static std::mutex m;
    return m;
  }
  static std::string& Text(int level) {
    static std::string t[6];
    return t[level];
  }
};

class LogImportance {};
using LogVerbosityLevel = Logger::VerbosityLevel;
inline Logger::VerbosityLevel StringToLogVerbosityLevel(const std::string& s) {
  if (s == "quiet") return Logger::kQuietVerbosity;
  if (s == "verbose") return Logger::kVerboseVerbosity;
  if (s == "normal") return Logger::kNormalVerbosity;
  throw std::runtime_error("Unknown log verbosity level: " + s);
}

}  // namespace aocommon
#endif
