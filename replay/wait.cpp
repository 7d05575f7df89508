// Waiting for a service status (W01): real signals, waiters in threads, and a proxy-like source of statuses.
#include "dvrun.h"
#include <maf/messaging/client-server/ServiceStatusSignal.h>
#include <memory>
extern "C" {
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  static auto real = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_cond_wait");
  dvr::point();
  return real(c, m);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
  static auto real = (int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *))dlsym(RTLD_NEXT, "pthread_cond_clockwait");
  dvr::point();
  return real(c, m, k, t);
}
}
using namespace maf::messaging;
using namespace std::chrono_literals;
using Sig = ServiceStatusSignal;
using W = Sig::WaitStatus;
using Clk = std::chrono::steady_clock;
namespace {
const auto A = Availability::Available, U = Availability::Unavailable, K = Availability::Unknown;
template <class F> bool until(F f, int ms = 3000) { for (int i = 0; i < ms * 2 && !f(); ++i) usleep(500); return f(); }
int code(const W &w) {
  if (int(w.isReady()) + int(w.isTimeout()) + int(w.isInterrupted()) != 1) return 3;
  return w.isReady() ? 0 : w.isTimeout() ? 1 : 2;
}
struct Waiter {
  std::atomic<int> r{-1};
  std::thread t;
  template <class F> explicit Waiter(F f) : t([this, f] { r = code(f()); }) {}
  ~Waiter() { t.detach(); }
};
}
static int ready() {
  auto s = serviceStatusSignal();
  CHECK(s->currentStatus() == U && s->waitIfNot(U).isReady());
  auto *w = new Waiter([s] { return s->waitIfNot(A); });
  auto *x = new Waiter([s] { return s->waitIfNot(A, 10000); });
  auto *y = new Waiter([s] { return s->waitIfNot(A, 10s); });
  auto *z = new Waiter([s] { return s->waitIfNot(K); });
  usleep(20000);
  CHECK(w->r == -1 && x->r == -1 && y->r == -1 && z->r == -1);
  s->onServiceStatusChanged("s", U, A);
  CHECK(s->currentStatus() == A);
  CHECK(until([&] { return w->r == 0 && x->r == 0 && y->r == 0; }));
  usleep(5000);
  CHECK(z->r == -1);
  s->onServiceStatusChanged("s", A, K);
  CHECK(until([&] { return z->r == 0; }));
  CHECK(s->waitIfNot(K, 0).isReady() && s->waitIfNot(K, 1h).isReady());
  return 0;
}
static int mixed() {                     // waiters for other statuses do not take each other's wake-up
  for (int round = 0; round < 20; ++round) {
    auto s = serviceStatusSignal();
    std::vector<Waiter *> ws;
    for (int i = 0; i < 6; ++i) ws.push_back(new Waiter([s, i] { return s->waitIfNot(i % 2 ? A : K); }));
    usleep(8000);
    s->onServiceStatusChanged("s", U, A);
    CHECK(until([&] { return ws[1]->r == 0 && ws[3]->r == 0 && ws[5]->r == 0; }));
    s->stop();
    CHECK(until([&] { return ws[0]->r == 2 && ws[2]->r == 2 && ws[4]->r == 2; }));
  }
  return 0;
}
static int timeout() {
  auto s = serviceStatusSignal();
  auto t0 = Clk::now();
  CHECK(s->waitIfNot(A, 60).isTimeout());
  auto d = Clk::now() - t0;
  CHECK(d >= 60ms && d < 5s);
  t0 = Clk::now();
  CHECK(s->waitIfNot(A, std::chrono::microseconds{30000}).isTimeout());
  d = Clk::now() - t0;
  CHECK(d >= 30ms && d < 5s);
  CHECK(s->waitIfNot(A, 0).isTimeout() && s->waitIfNot(A, -5).isTimeout());
  // a change to something else does not end the wait
  Waiter *w = new Waiter([s] { return s->waitIfNot(A, 120); });
  t0 = Clk::now();
  for (int i = 0; i < 5; ++i) { usleep(5000); s->onServiceStatusChanged("s", U, i % 2 ? U : K); }
  CHECK(until([&] { return w->r != -1; }) && w->r == 1 && Clk::now() - t0 >= 110ms);
  return 0;
}
static int stopped() {
  auto s = serviceStatusSignal();
  auto *w = new Waiter([s] { return s->waitIfNot(A); });
  auto *x = new Waiter([s] { return s->waitIfNot(A, 10000); });
  usleep(10000);
  s->stop();
  CHECK(until([&] { return w->r == 2 && x->r == 2; }));
  s->onServiceStatusChanged("s", U, A);
  CHECK(s->currentStatus() == A);
  CHECK(s->waitIfNot(A).isInterrupted() && s->waitIfNot(A, 10).isInterrupted() && s->waitIfNot(K, 10).isInterrupted());
  return 0;
}
static int entering(int at, bool limit, bool stop) {     // preempted at its at-th step towards blocking
  auto s = serviceStatusSignal();
  std::atomic<int> r{-1};
  bool got = dvr::interleave(at, [&] { r = code(limit ? s->waitIfNot(A, 3000) : s->waitIfNot(A)); },
                             [&] { if (stop) s->stop(); else s->onServiceStatusChanged("s", U, A); });
  CHECK(r == (stop ? 2 : 0));
  return got ? 0 : 77;
}
int main() {
  using namespace dvr;
  scenario("status arrives", ready);
  scenario("waiters for several statuses", mixed, 20000);
  scenario("time limit", timeout);
  scenario("stopped", stopped);
  two_threads("wait || status", [](int at) { return entering(at, false, false); }, 12);
  two_threads("wait || stop", [](int at) { return entering(at, false, true); }, 12);
  two_threads("wait with limit || status", [](int at) { return entering(at, true, false); }, 12);
  two_threads("wait with limit || stop", [](int at) { return entering(at, true, true); }, 12);
  return SCHED_MAIN_RESULT();
}
