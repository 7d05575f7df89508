// Thread pools (T01): real pools with runnables that count what happens to them.
#include "dvrun.h"
#include <maf/threading/ThreadPoolFactory.h>
#include <algorithm>
#include <memory>
#include <mutex>
#include <random>
using namespace maf::threading;
using namespace std::chrono_literals;
namespace {
struct Rec { std::atomic<int> ran{0}, stopped{0}, deleted{0}, late{0}; };
using RecP = std::shared_ptr<Rec>;
struct Job : Runnable {
  RecP r;
  std::function<void(Job &)> f;
  std::atomic<bool> stopFlag{false};
  Job(RecP r, bool a, std::function<void(Job &)> f = {}) : r(r), f(f) { setAutoDeleted(a); }
  ~Job() override { ++r->deleted; }
  void run() override { if (r->deleted) ++r->late; ++r->ran; if (f) f(*this); }
  void stop() override { ++r->stopped; stopFlag = true; }
};
template <class F> bool until(F f, int ms = 3000) { for (int i = 0; i < ms * 2 && !f(); ++i) usleep(500); return f(); }
using Pool = std::shared_ptr<IThreadPool>;
int loops(Job &j) { int i = 0; while (!j.stopFlag && ++i < 8000) usleep(500); return i; }
}
static int once(PoolType k, unsigned n, unsigned submitters) {
  Pool p = ThreadPoolFactory::createPool(k, n);
  CHECK(p);
  std::atomic<int> now{0}, most{0};
  const int N = 120;
  std::vector<RecP> recs(N * submitters);
  std::vector<std::unique_ptr<Job>> owned(N * submitters);
  auto body = [&](Job &) { int c = ++now; int m = most; while (m < c && !most.compare_exchange_weak(m, c)) {} usleep(100); --now; };
  std::vector<std::thread> ts;
  for (unsigned t = 0; t < submitters; ++t)
    ts.emplace_back([&, t] { for (int i = 0; i < N; ++i) {
      auto &r = recs[t * N + i]; r = std::make_shared<Rec>();
      Job *j = new Job(r, i % 2, body);
      if (!(i % 2)) owned[t * N + i].reset(j);
      p->run(j, i % 7);
    } });
  for (auto &t : ts) t.join();
  for (size_t i = 0; i < recs.size(); ++i) CHECK(until([&] { return recs[i]->ran == 1 && recs[i]->deleted == int(i % 2); }));
  CHECK(most <= int(n) && p->activeThreadCount() <= n);
  if (k != DynamicCount) CHECK(p->activeThreadCount() == n);
  usleep(2000);
  for (size_t i = 0; i < recs.size(); ++i) CHECK(recs[i]->ran == 1 && recs[i]->deleted == int(i % 2) && !recs[i]->late);
  p->shutdown();
  for (size_t i = 0; i < recs.size(); ++i) CHECK(recs[i]->stopped == 0);
  return 0;
}
static int parallel(PoolType k, unsigned n) {     // as many tasks run at once as there are threads
  Pool p = ThreadPoolFactory::createPool(k, n);
  std::atomic<int> in{0};
  std::vector<RecP> recs;
  for (unsigned i = 0; i < n; ++i) {
    recs.push_back(std::make_shared<Rec>());
    p->run(new Job(recs.back(), true, [&, n](Job &) { ++in; until([&] { return in == int(n); }); }), 1);
  }
  CHECK(until([&] { return in == int(n); }, 2000));
  p->run(nullptr, 3);
  for (auto &r : recs) CHECK(until([&] { return r->deleted == 1; }));
  p->shutdown();
  return 0;
}
static int shut(PoolType k, unsigned n, bool destroy, int sames) {
  Pool p = ThreadPoolFactory::createPool(k, n);
  std::vector<RecP> run, pend;
  std::vector<std::unique_ptr<Job>> own;
  std::atomic<int> in{0};
  for (unsigned i = 0; i < n; ++i) { run.push_back(std::make_shared<Rec>()); p->run(new Job(run.back(), true, [&](Job &j) { ++in; loops(j); }), sames ? 5 : 100 + i); }
  CHECK(until([&] { return in == int(n); }, 2000));
  for (int i = 0; i < 20; ++i) {
    pend.push_back(std::make_shared<Rec>());
    Job *j = new Job(pend.back(), i % 3);
    if (!(i % 3)) own.emplace_back(j);
    p->run(j, i);
  }
  auto t0 = std::chrono::steady_clock::now();
  if (destroy) p.reset(); else p->shutdown();
  CHECK(std::chrono::steady_clock::now() - t0 < 2s);
  for (auto &r : run) CHECK(r->stopped == 1 && r->deleted == 1);
  for (int i = 0; i < 20; ++i) CHECK(pend[i]->ran == 0 && pend[i]->stopped == 0 && pend[i]->deleted == (i % 3 ? 1 : 0));
  if (destroy) return 0;
  for (int a = 0; a < 2; ++a) {                    // refused after the end
    auto r = std::make_shared<Rec>();
    Job *j = new Job(r, a);
    if (!a) own.emplace_back(j);
    p->run(j, 1);
    usleep(3000);
    CHECK(r->ran == 0 && r->deleted == a);
  }
  p->shutdown();
  return 0;
}
static int mixed_end(PoolType k) {    // of two running tasks, the later one ends first
  Pool p = ThreadPoolFactory::createPool(k, 2);
  auto a = std::make_shared<Rec>(), b = std::make_shared<Rec>();
  std::atomic<int> in{0};
  std::atomic<bool> go{false};
  p->run(new Job(a, true, [&](Job &j) { ++in; loops(j); }), 5);
  CHECK(until([&] { return in == 1; }));
  p->run(new Job(b, true, [&](Job &) { ++in; until([&] { return go.load(); }); }), 5);
  CHECK(until([&] { return in == 2; }));
  go = true;
  CHECK(until([&] { return b->deleted == 1; }));
  auto t0 = std::chrono::steady_clock::now();
  p->shutdown();
  CHECK(std::chrono::steady_clock::now() - t0 < 2s && a->stopped == 1 && b->stopped == 0 && a->deleted == 1);
  return 0;
}
static int order() {
  Pool p = ThreadPoolFactory::createPool(Priority, 1);
  std::atomic<bool> go{false}, in{false};
  auto r = std::make_shared<Rec>();
  p->run(new Job(r, true, [&](Job &) { in = true; until([&] { return go.load(); }); }), 9);
  CHECK(until([&] { return in.load(); }));
  std::mutex m;
  std::vector<unsigned> seen, want;
  std::mt19937 g(7);
  for (int i = 0; i < 60; ++i) {
    unsigned pr = i % 4 ? g() % 1000 : g();
    want.push_back(pr);
    p->run(new Job(std::make_shared<Rec>(), true, [&, pr](Job &) { std::lock_guard l(m); seen.push_back(pr); }), pr);
  }
  go = true;
  CHECK(until([&] { std::lock_guard l(m); return seen.size() == want.size(); }));
  std::sort(want.rbegin(), want.rend());
  CHECK(seen == want);
  p->shutdown();
  return 0;
}
static int limits() {
  Pool p = ThreadPoolFactory::createPool(DynamicCount, 1);
  std::atomic<int> in{0};
  std::atomic<bool> go{false};
  auto put = [&] { p->run(new Job(std::make_shared<Rec>(), true, [&](Job &) { ++in; until([&] { return go.load(); }); })); };
  put(); put(); put();
  usleep(30000);
  CHECK(in == 1 && p->activeThreadCount() == 1);
  p->setMaxThreadCount(3);
  put(); put();
  CHECK(until([&] { return in == 3; }) && p->activeThreadCount() == 3);
  p->setMaxThreadCount(0);
  put();
  CHECK(p->activeThreadCount() == std::min(4u, std::max(3u, std::thread::hardware_concurrency())));
  go = true;
  p->shutdown();
  return 0;
}
static int race(PoolType k, int at) {   // a shutdown while a thread of the pool is at its at-th synchronisation
  Pool p = ThreadPoolFactory::createPool(k, 1);
  dvr::preempt_at = at; dvr::phase = 0; dvr::b_done = false;
  auto a = std::make_shared<Rec>(), b = std::make_shared<Rec>();
  std::atomic<bool> armed{false};
  p->run(new Job(a, true, [&](Job &) { until([&] { return armed.load(); }); dvr::counter = 0; }), 2);
  p->run(new Job(b, true, [&](Job &j) { loops(j); }), 1);
  armed = true;
  bool hit = until([] { return dvr::phase != 0; }, 200);
  auto t0 = std::chrono::steady_clock::now();
  p->shutdown();
  dvr::b_done = true;
  CHECK(std::chrono::steady_clock::now() - t0 < 2s);
  CHECK(a->ran == 1 && a->deleted == 1 && b->deleted == 1);
  return hit ? 0 : 77;
}
static int late(PoolType k, int at) {   // run || shutdown
  Pool p = ThreadPoolFactory::createPool(k, 2);
  auto a = std::make_shared<Rec>();
  bool r = dvr::interleave(at, [&] { p->run(new Job(a, true), 2); }, [&] { p->shutdown(); });
  usleep(2000);
  p.reset();
  if (!r) return 77;
  CHECK(a->deleted == 1);
  return 0;
}
int main() {
  using namespace dvr;
  const char *nm[] = {"dynamic", "stable", "priority"};
  PoolType ks[] = {DynamicCount, StableCount, Priority};
  for (int i = 0; i < 3; ++i) {
    auto k = ks[i];
    auto name = [&](const char *s) { return std::string(nm[i]) + ": " + s; };
    scenario(name("each once").c_str(), [=] { return once(k, 3, 1); }, 20000);
    scenario(name("each once, several submitters").c_str(), [=] { return once(k, 4, 4); }, 20000);
    scenario(name("in parallel").c_str(), [=] { return parallel(k, 4); });
    for (int s = 0; s < 2; ++s) {
      scenario(name("shutdown").c_str(), [=] { return shut(k, 3, false, s); });
      scenario(name("destroyed").c_str(), [=] { return shut(k, 2, true, s); });
    }
    scenario(name("of two tasks, the later one ends first").c_str(), [=] { return mixed_end(k); });
    two_threads(name("thread of the pool || shutdown").c_str(), [=](int at) { return race(k, at); }, 12, 9000);
    two_threads(name("run || shutdown").c_str(), [=](int at) { return late(k, at); });
  }
  scenario("order of priorities", order);
  scenario("limit of threads", limits);
  return SCHED_MAIN_RESULT();
}
