// Logging (G01): which levels are enabled, where texts go, what is written in them.
#include "dvrun.h"
#include <maf/logging/Logger.h>
using namespace maf::logging;
namespace {
std::vector<std::pair<int, std::string>> got;
LoggingFunctionType sink(int i) { return [i](const std::string &s) { got.emplace_back(i, s); }; }
int levels() {
  for (int m = 0; m < 256; ++m) CHECK(!allowed(LogLevel(m)));
  for (int a = 0; a < 64; ++a) {
    init(LogLevels(a), sink(1), sink(2));
    for (int m = 0; m < 64; ++m) CHECK(allowed(LogLevel(m)) == ((a & m) != 0));
    CHECK(infoAllowed() == allowed(LOG_LEVEL_INFO) && warnAllowed() == allowed(LOG_LEVEL_WARN) && errorAllowed() == allowed(LOG_LEVEL_ERROR));
    CHECK(fatalAllowed() == allowed(LOG_LEVEL_FATAL) && debugAllowed() == allowed(LOG_LEVEL_DEBUG) && verboseAllowed() == allowed(LOG_LEVEL_VERBOSE));
    for (int l = 0; l < 64; ++l) {
      changeLogLevels(LogLevels(a)); enable(LogLevel(l));
      for (int m = 0; m < 64; ++m) CHECK(allowed(LogLevel(m)) == (((a | l) & m) != 0));
      changeLogLevels(LogLevels(a)); disable(LogLevel(l));
      for (int m = 0; m < 64; ++m) CHECK(allowed(LogLevel(m)) == ((a & ~l & m) != 0));
    }
    changeLogLevels(LogLevels(a)); stopLogging();
    for (int m = 0; m < 64; ++m) CHECK(!allowed(LogLevel(m)));
  }
  init(LOG_LEVEL_FROM_INFO); init(); CHECK(!allowed(255));
  init(LOG_LEVEL_FROM_INFO); changeLogLevels(); CHECK(!allowed(255));
  return 0;
}
int others() {
  for (int r = 0; r < 2000; ++r) {
    init(LOG_LEVEL_WARN, sink(1), sink(2));
    std::atomic<int> go{0};
    auto run = [&](LogLevel on, LogLevel off) { ++go; while (go < 2) {} for (int i = 0; i < 40; ++i) { enable(on); disable(off); enable(on); } };
    std::thread a([&] { run(LOG_LEVEL_INFO, LOG_LEVEL_WARN); }), b([&] { run(LOG_LEVEL_ERROR, LOG_LEVEL_VERBOSE); });
    a.join(); b.join();
    CHECK(infoAllowed() && errorAllowed() && !warnAllowed() && !verboseAllowed() && !debugAllowed());
  }
  return 0;
}
int where() {
  auto check = [](int o, int e) {
    for (int l : {1, 2, 4, 8, 16, 32}) {
      got.clear();
      logImpl(LogLevel(l), "x");
      bool plain = l == LOG_LEVEL_INFO || l == LOG_LEVEL_DEBUG || l == LOG_LEVEL_VERBOSE;
      if (!o) { CHECK(got.empty()); continue; }
      CHECK(got.size() == 1 && got[0].second == "x" && got[0].first == (plain ? o : e));
    }
    return 0;
  };
  if (int r = check(0, 0)) return r;
  init(63, sink(1)); if (int r = check(1, 1)) return r;
  init(63, sink(1), sink(2)); if (int r = check(1, 2)) return r;
  init(63, sink(3)); if (int r = check(3, 3)) return r;
  init(63, {}, sink(4)); if (int r = check(3, 4)) return r;
  init(63); if (int r = check(3, 3)) return r;
  init(63, sink(5), sink(6)); return check(5, 6);
}
#define ONE(N, L, SINK)                                                                             \
  for (int k = 0; k < 2; ++k) {                                                                     \
    got.clear();                                                                                    \
    if (k) { MAF_LOGGER_##L("p", 7, std::string("q"), 'r'); } else { N("p", 7, std::string("q"), 'r'); } \
    CHECK(got.size() == (allowed(LOG_LEVEL_##L) ? 1u : 0u));                                        \
    if (got.empty()) continue;                                                                      \
    auto &s = got[0].second;                                                                        \
    CHECK(got[0].first == SINK && s.find(#L) == 0 && s.find("p7qr") != std::string::npos);         \
    CHECK(k ? s.find("p7qr") == s.find_last_of(' ', s.find("p7qr")) + 1 : s.size() - 4 == s.find("p7qr"));  \
  }
int messages() {
  for (int a = 0; a < 64; ++a) {
    init(LogLevels(a), sink(1), sink(2));
    ONE(debug, DEBUG, 1) ONE(info, INFO, 1) ONE(warn, WARN, 2) ONE(error, ERROR, 2) ONE(fatal, FATAL, 2) ONE(verbose, VERBOSE, 1)
    for (int l = 0; l < 64; ++l) {
      got.clear();
      log(LogLevel(l), "p", 7);
      CHECK(got.size() == ((a & l) ? 1u : 0u));
      if (!got.empty()) CHECK(got[0].second == "p7" && got[0].first == (l == 1 || l == 16 || l == 32 ? 1 : 2));
    }
  }
  return 0;
}
}  // namespace
int main() {
  dvr::scenario("levels", levels);
  dvr::scenario("levels changed by two threads", others, 30000);
  dvr::scenario("where a text goes", where);
  dvr::scenario("messages", messages);
  return SCHED_MAIN_RESULT();
}
