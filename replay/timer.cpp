// The blocking timer (Y01): real timers, stopped and started again from other threads and from their callbacks.
#include "dvrun.h"
#include <maf/messaging/SyncTimer.h>
#include <memory>
#include <mutex>
extern "C" {
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  static auto real = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_cond_wait");
  dvr::point();
  return real(c, m);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
  static auto real = (int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *))dlsym(RTLD_NEXT, "pthread_cond_clockwait");
  dvr::point();
  return real(c, m, k, t);
}
}
using maf::messaging::SyncTimer;
using namespace std::chrono_literals;
using Clk = std::chrono::steady_clock;
namespace {
template <class F> bool until(F f, int ms = 3000) { for (int i = 0; i < ms * 2 && !f(); ++i) usleep(500); return f(); }
struct Inline : maf::util::ExecutorIF {
  int n = 0, empty = 0;
  bool execute(CallbackType f) noexcept override { ++n; if (f) f(); else ++empty; return true; }
};
struct Later : maf::util::ExecutorIF {
  std::vector<CallbackType> fs;
  bool execute(CallbackType f) noexcept override { fs.push_back(std::move(f)); return true; }
};
}
static int shot(bool ex) {
  SyncTimer t;
  CHECK(!t.running());
  auto e = std::make_shared<Inline>();
  std::shared_ptr<maf::util::ExecutorIF> use;
  if (ex) use = e;
  for (int ms : {40, 0, -3}) {
    int n = 0;
    bool on = false;
    auto t0 = Clk::now();
    if (ms == 40) t.start(40ms, [&] { ++n; on = t.running(); }, use);
    else t.start(ms, [&] { ++n; on = t.running(); }, use);
    CHECK(n == 1 && on && !t.running() && Clk::now() - t0 >= std::chrono::milliseconds(ms) && Clk::now() - t0 < 3s);
  }
  CHECK(e->n == (ex ? 3 : 0) && !e->empty);
  t.start(5, {});
  CHECK(!t.running());
  return 0;
}
static int cyclic(bool ex, bool by_set) {
  SyncTimer t(!by_set);
  auto e = std::make_shared<Later>();
  auto in = std::make_shared<Inline>();
  int n = 0;
  auto t0 = Clk::now();
  if (by_set) t.setCyclic();
  t.start(10, [&] { if (++n == 4) t.stop(); }, ex ? in : std::shared_ptr<Inline>());
  CHECK(n == 4 && !t.running() && Clk::now() - t0 >= 40ms && !in->empty);
  t.setCyclic(false);
  t.start(5, [&] { ++n; });
  CHECK(n == 5);
  // turned cyclic, and back, by its callback
  n = 0;
  t.start(5, [&] { t.setCyclic(++n < 3); }, ex ? in : std::shared_ptr<Inline>());
  CHECK(n == 3 && !in->empty);
  t.setCyclic(false);
  t.start(5, [&] { ++n; }, e);
  CHECK(n == 3 && e->fs.size() == 1 && e->fs[0]);
  e->fs[0]();
  CHECK(n == 4);
  return 0;
}
static int stop(bool cyc, bool destroy) {
  auto t = std::make_shared<SyncTimer>(cyc);
  std::atomic<int> n{0};
  std::atomic<bool> over{false};
  std::thread a([&, p = t.get()] { p->start(2s, [&] { ++n; }); over = true; });
  CHECK(until([&] { return t->running(); }));
  usleep(3000);
  auto t0 = Clk::now();
  t->stop();
  CHECK(!t->running());
  CHECK(until([&] { return over.load(); }, 1000) && n == 0 && Clk::now() - t0 < 1s);
  a.join();
  t->stop();
  t->restart();
  t->setCyclic(false);
  t->start(1, [&] { ++n; });
  CHECK(n == 1);
  return 0;
}
static int again(bool cyc, bool stop_between) {            // started again while it runs
  for (int i = 0; i < 15; ++i) {
    SyncTimer t(cyc);
    std::atomic<int> na{0}, nb{0};
    std::atomic<bool> oa{false}, ob{false};
    std::thread a([&] { t.start(60ms, [&] { ++na; }); oa = true; });
    CHECK(until([&] { return t.running(); }));
    usleep(5000);
    if (stop_between) t.stop();
    std::thread b([&] { t.start(90ms, [&] { ++nb; t.stop(); }); ob = true; });
    bool early = until([&] { return oa.load(); }, 40);
    CHECK(until([&] { return oa && ob; }, 3000));
    CHECK(early && na == 0 && nb == 1 && !t.running());
    a.join(), b.join();
  }
  return 0;
}
static int replaced_by_callback() {
  SyncTimer t;
  int n = 0, m = 0;
  t.start(5, [&] { if (!n++) t.start(5, [&] { ++m; }); });
  CHECK(n == 1 && m == 1 && !t.running());
  return 0;
}
static int entering(int at, bool ask) {     // stopped while it is on its way to block
  SyncTimer t(true);
  std::atomic<int> n{0};
  std::atomic<bool> on{false};
  Clk::time_point stopped, over;
  bool got = dvr::interleave(at, [&] { t.start(1500ms, [&] { if (++n > 1) t.stop(); }); over = Clk::now(); },
                             [&] { if (ask) until([&] { return t.running(); }, 50); on = t.running(); stopped = Clk::now(); t.stop(); });
  if (!got) return 77;
  CHECK(!t.running());
  if (on) CHECK(n == 0 && over - stopped < 1s);
  return 0;
}
int main() {
  using namespace dvr;
  for (int ex = 0; ex < 2; ++ex) {
    scenario("one shot", [=] { return shot(ex); });
    for (int s = 0; s < 2; ++s) scenario("cyclic", [=] { return cyclic(ex, s); });
  }
  for (int c = 0; c < 2; ++c) {
    scenario("stopped by another thread", [=] { return stop(c, false); });
    scenario("started again by another thread", [=] { return again(c, false); }, 30000);
    scenario("stopped and started again by another thread", [=] { return again(c, true); }, 30000);
  }
  scenario("started again by its callback", replaced_by_callback);
  two_threads("start || stop", [](int at) { return entering(at, true); }, 16, 9000);
  return SCHED_MAIN_RESULT();
}
