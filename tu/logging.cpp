// Instantiations and lemmas over the logging functions.  `Sink` is a stand-in: its calls are recorded by the contract.
#include <maf/logging/Logger.h>
using namespace maf::logging;
struct Sink { int id; void operator()(const std::string &m) const; };
struct Opaque { long v; };
std::ostream &operator<<(std::ostream &o, const Opaque &x);
void others(bool on);           // while on, other threads change the enabled levels at any moment
LogLevels before_change();      // the enabled levels just before the change that the tested call made
static void start(LogLevels a) { init(a, Sink{1}, Sink{2}); }
// which levels are enabled: any levels before, any argument, any level asked
bool lg_fresh(LogLevel m) { return !allowed(m); }
bool lg_init(LogLevels a, LogLevel m) { start(a); return allowed(m) == ((a & m) != 0); }
bool lg_init_default(LogLevels a, LogLevel m) { start(a); init(); return !allowed(m); }
bool lg_change(LogLevels a, LogLevels b, LogLevel m) { start(a); changeLogLevels(b); return allowed(m) == ((b & m) != 0); }
bool lg_change_default(LogLevels a, LogLevel m) { start(a); changeLogLevels(); return !allowed(m); }
bool lg_stop(LogLevels a, LogLevel m) { start(a); stopLogging(); return !allowed(m); }
bool lg_enable(LogLevels a, LogLevel l, LogLevel m) { start(a); enable(l); return allowed(m) == (((a | l) & m) != 0); }
bool lg_disable(LogLevels a, LogLevel l, LogLevel m) { start(a); disable(l); return allowed(m) == ((a & ~l & m) != 0); }
bool lg_enable_others(LogLevels a, LogLevel l, LogLevel m) { start(a); others(true); enable(l); others(false); LogLevels p = before_change(); return allowed(m) == (((p | l) & m) != 0); }
bool lg_disable_others(LogLevels a, LogLevel l, LogLevel m) { start(a); others(true); disable(l); others(false); LogLevels p = before_change(); return allowed(m) == ((p & ~l & m) != 0); }
bool lg_change_others(LogLevels a, LogLevel l, LogLevel m) { start(a); others(true); changeLogLevels(l); others(false); return allowed(m) == ((l & m) != 0); }
bool lg_names(LogLevels a) {
  start(a);
  return debugAllowed() == allowed(LOG_LEVEL_DEBUG) && infoAllowed() == allowed(LOG_LEVEL_INFO) && warnAllowed() == allowed(LOG_LEVEL_WARN) &&
         errorAllowed() == allowed(LOG_LEVEL_ERROR) && fatalAllowed() == allowed(LOG_LEVEL_FATAL) && verboseAllowed() == allowed(LOG_LEVEL_VERBOSE) && !allowed(LOG_LEVEL_SILENCE);
}
#define OWN(x, a, b, c, d, e) (LOG_LEVEL_##x != 0 && (LOG_LEVEL_##x & (LOG_LEVEL_##a | LOG_LEVEL_##b | LOG_LEVEL_##c | LOG_LEVEL_##d | LOG_LEVEL_##e)) == 0)
bool lg_levels() {
  return OWN(INFO, WARN, ERROR, FATAL, DEBUG, VERBOSE) && OWN(WARN, INFO, ERROR, FATAL, DEBUG, VERBOSE) && OWN(ERROR, INFO, WARN, FATAL, DEBUG, VERBOSE) &&
         OWN(FATAL, INFO, WARN, ERROR, DEBUG, VERBOSE) && OWN(DEBUG, INFO, WARN, ERROR, FATAL, VERBOSE) && OWN(VERBOSE, INFO, WARN, ERROR, FATAL, DEBUG) &&
         LOG_LEVEL_FROM_ERROR == (LOG_LEVEL_ERROR | LOG_LEVEL_FATAL) && LOG_LEVEL_FROM_WARN == (LOG_LEVEL_FROM_ERROR | LOG_LEVEL_WARN) &&
         LOG_LEVEL_FROM_INFO == (LOG_LEVEL_FROM_WARN | LOG_LEVEL_INFO);
}
// where a text goes
void lg_write(LogLevels a, LogLevel l, const std::string &s) { start(a); logImpl(l, s); }
void lg_write_fresh(LogLevel l, const std::string &s) { logImpl(l, s); }
void lg_write_onesink(LogLevels a, LogLevel l, const std::string &s) { init(a, Sink{1}); logImpl(l, s); }
void lg_write_again(LogLevels a, LogLevels b, LogLevel l, const std::string &s) { start(a); init(b, Sink{3}, Sink{4}); logImpl(l, s); }
void lg_write_again_out(LogLevels a, LogLevels b, LogLevel l, const std::string &s) { start(a); init(b, Sink{3}); logImpl(l, s); }
void lg_write_again_err(LogLevels a, LogLevels b, LogLevel l, const std::string &s) { start(a); init(b, {}, Sink{4}); logImpl(l, s); }
void lg_write_again_none(LogLevels a, LogLevels b, LogLevel l, const std::string &s) { start(a); init(b); logImpl(l, s); }
// messages
#define MSG(N, L)                                                                                                        \
  void lg_##N(LogLevels a, const std::string &x, int y, const Opaque &z) { start(a); N(x, y, z, "tail"); }                 \
  void lg_##N##_one(LogLevels a, const std::string &x) { start(a); N(x); }                                                \
  void lg_macro_##N(LogLevels a, const std::string &x, int y, const Opaque &z) { start(a); MAF_LOGGER_##L(x, y, z, "tail"); } \
  void lg_macro_##N##_one(LogLevels a, const std::string &x) { start(a); MAF_LOGGER_##L(x); }
MSG(debug, DEBUG)
MSG(info, INFO)
MSG(warn, WARN)
MSG(error, ERROR)
MSG(fatal, FATAL)
MSG(verbose, VERBOSE)
void lg_log(LogLevels a, LogLevel l, const std::string &x, int y, const Opaque &z) { start(a); log(l, x, y, z, "tail"); }
