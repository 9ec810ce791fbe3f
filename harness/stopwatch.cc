#include "common.h"
#include <cmath>
#include <sstream>
#include <memory>
#include "common/Timer.h"
using namespace dp3::common;
struct TestClock {
  using duration = std::chrono::milliseconds;
  using time_point = std::chrono::time_point<TestClock, duration>;
  using rep = duration::rep;
  using period = duration::period;
  static constexpr bool is_steady = true;
  static long t;
  static time_point now() { return time_point(duration(t)); }
};
long TestClock::t = 0;
using T = BaseTimer<TestClock>;
static std::vector<T> ts;
static double acc;
static void Handle(json& ev) {
  const std::string op = ev["op"];
  auto k = [&](const char* f) -> T& { return ts[int(ev[f]) - 1]; };
  if (op == "new") {
    ts.clear();
    ts.emplace_back();
    ts.emplace_back("a");
    ts.emplace_back("a rather long name for a timer");
    TestClock::t = 0;
    acc = 0;
    return;
  }
  if (op == "pretty") {
    const double v = double(ev["num"]) / 100.0 * std::pow(10.0, 3 * int(ev["e"]));
    const double sv = ev["neg"] ? -v : v;
    std::string s = ev["f"] ? std::string(PrettyFrequency(sv)) : std::string(PrettyTime(sv));
    // number, blank, prefix character, unit
    const std::string unit = ev["f"] ? "Hz" : "s";
    ev["unit"] = s.size() > unit.size() ? s.substr(s.size() - unit.size()) : s;
    std::string rest = s.substr(0, s.size() - unit.size());
    ev["pre"] = rest.substr(rest.size() - 1);
    double num = std::stod(rest.substr(0, rest.size() - 2));
    ev["thousandth"] = int32_t(std::lround((ev["neg"] ? -num : num) * 100));
    ev["width"] = rest.size() - 2;
    return;
  }
  if (op == "tick") TestClock::t += long(ev["d"]);
  else if (op == "start") k("k").start();
  else if (op == "stop") k("k").stop();
  else if (op == "reset") k("k").reset();
  else if (op == "add") k("k") += k("j");
  else if (op == "copy") k("k") = T(k("j"));
  else if (op == "scope") { T::StartStop s(k("k")); TestClock::t += long(ev["d"]); }
  else if (op == "throw") {
    try { T::StartStop s(k("k")); TestClock::t += long(ev["d"]); throw 1; } catch (int) {}
  } else if (op == "accu") {
    ScopedMicroSecondAccumulator<double, TestClock> a(acc);
    TestClock::t += long(ev["d"]);
  }
  json o = json::array(), av = json::array(), used = json::array(), sh = json::array();
  for (T& t : ts) {
    o.push_back({t.getCount(), std::lround(t.getElapsed() * 1000)});
    av.push_back(t.getCount() ? std::lround(t.getAverage() * 1000) : 0);
    std::ostringstream s;
    t.print(s);
    used.push_back(s.str().find("not used") == std::string::npos);
    size_t p = s.str().find("count = ");
    sh.push_back(p == std::string::npos ? -1 : std::stol(s.str().substr(p + 8)));
  }
  ev["obs"] = o; ev["avg"] = av; ev["used"] = used; ev["shown"] = sh;
  ev["acc"] = std::lround(acc);
}
int main(int c, char** v) { return RunScript(c, v, Handle); }
