// real-code runs for processors: jobs, messages, routing
#include <maf/messaging/MsgConnectionGroup.h>
#include <maf/messaging/Processor.h>
#include <maf/messaging/ProcessorEx.h>
#include <maf/messaging/Routing.h>
#include <algorithm>
#include <memory>
#include <set>
#include "dvrun.h"
using namespace maf::messaging;
using routing::ProcessorStatusUpdateMsg;
using namespace std::chrono_literals;
using Log = std::vector<int>;
static int jobs() {
  for (unsigned seed = 1; seed <= 40; ++seed) {
    srand(seed);
    auto p = Processor::create();
    Log log, want;
    bool alive = true;
    int n = 0;
    std::vector<Execution> bound;
    std::vector<int> boundid;
    std::vector<Processor::Executor> ex{p->getExecutor(), p->getAsyncExecutor()};
    Log pend;
    for (int i = 0; i < 60; ++i) {
      int id = ++n;
      auto f = [&log, id] { log.push_back(id); };
      bool ok;
      switch (rand() % 10) {
        case 0: case 1: ok = p->executeAsync(f); if (ok != alive) return 1; if (ok) pend.push_back(id); break;
        case 2: ok = p->execute(f); if (ok != alive) return 2; if (ok) pend.push_back(id); break;
        case 3: { auto s = p->waitableExecute(f); if (s.valid() != alive) return 3; if (alive) pend.push_back(id); break; }
        case 4: bound.push_back(rand() % 2 ? p->willExecuteOnThis(f) : p->willAsyncExecuteOnThis(f)); boundid.push_back(id); break;
        case 5: if (!bound.empty()) { int k = rand() % bound.size(); bound[k](); if (alive) pend.push_back(boundid[k]); } break;
        case 6: ex[rand() % 2]->execute(f); if (alive) pend.push_back(id); break;
        case 7: if (rand() % 8 == 0 && alive) { p->stop(); alive = false; pend.clear(); } else if (!alive) { p->reuse(); alive = true; } break;
        case 8: { size_t c = pend.size(); if (p->pendingCout() != c) { fprintf(stderr, "pending %zu, expected %zu\n", p->pendingCout(), c); return 5; } break; }
        case 9: if (rand() % 2) { p->runFor(2ms); want.insert(want.end(), pend.begin(), pend.end()); pend.clear(); }
                else { bool r = p->runOnceFor(0ms); if (r == pend.empty()) return 6; if (r) { want.push_back(pend[0]); pend.erase(pend.begin()); } } break;
      }
      if (p->stopped() == alive) return 7;
      if (log != want) { fprintf(stderr, "seed %u step %d: ran %zu jobs, expected %zu (or in another order)\n", seed, i, log.size(), want.size()); return 8; }
    }
    if (this_processor::instance()) return 9;
  }
  return 0;
}
static int running() {
  auto p = Processor::create();
  Log log;
  // run: start, jobs, end; submission from inside
  p->executeAsync([&] { if (this_processor::instance() != p || this_processor::id() != p->id()) log.push_back(-1);
    this_processor::executeAsync([&] { log.push_back(4); this_processor::stop(); this_processor::executeAsync([&] { log.push_back(-2); }); });
    p->execute([&] { log.push_back(1); });
    auto s = p->waitableExecute([&] { log.push_back(2); }); CHECK(s.valid()); s.wait();
    this_processor::waitableExecute([&] { log.push_back(3); }).wait(); return 0; });
  p->executeAsync([&] { log.push_back(10); });
  p->run([&] { log.push_back(0); }, [&] { log.push_back(99); });
  CHECK((log == Log{0, 1, 2, 3, 10, 4, 99}) && p->stopped() && !p->executeAsync([] {}) && !this_processor::instance());
  // exceptions free the thread
  p->reuse();
  try { p->run([] { throw 1; }); CHECK(false); } catch (int) {}
  CHECK(!this_processor::instance());
  p->executeAsync([] { throw 2; });
  bool ended = false;
  try { p->run({}, [&] { ended = true; }); CHECK(false); } catch (int) {}
  CHECK(!this_processor::instance() && ended);
  // two processors, nested
  auto q = Processor::create();
  q->executeAsync([&] { CHECK(this_processor::instance() == p); return 0; });
  p->executeAsync([&] { q->runFor(5ms); CHECK(this_processor::instance() == p); p->stop(); return 0; });
  p->run();
  { auto r = Processor::create(); q->executeAsync([] {}); r->executeAsync([&] { q->runOnceFor(1ms); if (this_processor::instance() != r) _exit(3); q->runOnceFor(0ms); if (this_processor::instance() != r) _exit(4); }); r->runFor(2ms); r->runOnceFor(0ms); }
  { int k = 0; struct Tail { Processor *p; int *n; ~Tail() { if (p) p->executeAsync([n = n] { ++*n; }); } }; auto r = Processor::create(); auto t = std::make_shared<Tail>(Tail{nullptr, &k}); t->p = r.get(); r->executeAsync([t] {}); t.reset(); r->stop(); r->reuse(); r->runFor(2ms); CHECK(k == 0); }
  // bound functions and executors outlive the processor
  auto b = q->willExecuteOnThis([&] { log.push_back(7); }), c = q->willAsyncExecuteOnThis([&] { log.push_back(7); }), d = q->willBlockingExecuteOnThis([&] { log.push_back(7); });
  auto e = q->getExecutor(), g = q->getAsyncExecutor(), h = q->getBlockingExecutor();
  q.reset();
  b(); c(); d();
  CHECK(!e->execute([] {}) && !g->execute([] {}) && !h->execute([] {}));
  CHECK(log.back() == 99);
  return 0;
}
static int threads() {
  for (int round = 0; round < 20; ++round) {
    AsyncProcessor a;
    a.launch();
    auto p = a.instance();
    std::atomic<int> in{0}, cnt{0}, bad{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < 3; ++t) ts.emplace_back([&] { int last = 0; for (int i = 1; i <= 200; ++i) { auto f = [&, i] { if (++in != 1) ++bad; ++cnt; --in; (void)i; };
      if (i % 20 == 0) { auto s = p->waitableExecute(f); if (!s.valid()) ++bad; else s.wait(); if (i - last != 20) ++bad; last = i; } else if (!p->executeAsync(f)) ++bad; } });
    for (auto &t : ts) t.join();
    p->waitableExecute([] {}).wait();
    CHECK(cnt == 600 && !bad);
    auto w = p->willBlockingExecuteOnThis([&] { ++cnt; });
    w(); w();
    CHECK(cnt == 602);
    p->getBlockingExecutor()->execute([&] { ++cnt; });
    CHECK(cnt == 603);
    for (int i = 0; i < 20; ++i)
      CHECK(p->waitableExecute([i] { std::this_thread::sleep_for(std::chrono::microseconds(200)); return i + 7; }) == i + 7);
    a.wait(AsyncProcessor::Timeout(2));     // not stopped: comes back after the time, still running
    CHECK(a.running() && !p->stopped());
    p->stop();
    for (int i = 0; i < 5000 && a.running(); ++i) a.wait(AsyncProcessor::Timeout(2));
    CHECK(!a.running());
    CHECK(p->stopped() && !p->executeAsync([] {}) && !p->waitableExecute([] {}).valid());
    // waiting for a job that stop dropped ends
    auto q = Processor::create();
    auto s = q->waitableExecute([] {});
    q->stop();
    try { s.get(); CHECK(false); } catch (const std::future_error &) {}
    // assignment stops the running one
    AsyncProcessor x, y;
    x.launch();
    auto xi = x.instance();
    x = std::move(y);
    CHECK(xi->stopped());
  }
  return 0;
}
struct M1 { int v; };
struct M2 { int v; };
static int messages() {
  for (unsigned seed = 1; seed <= 60; ++seed) {
    srand(seed);
    auto p = Processor::create();
    Log log, want;
    std::vector<std::pair<MsgConnection, int>> cons;   // kind
    std::vector<int> on;
    int n = 0;
    auto conn = [&](int kind) { for (size_t i = 0; i < cons.size(); ++i) if (on[i] && cons[i].second == kind) return true; return false; };
    for (int i = 0; i < 50; ++i) {
      int kind = rand() % 2;
      switch (rand() % 7) {
        case 0: case 1: { int id = ++n;
          if (kind) cons.emplace_back(p->connect<M1>([&log, id](const M1 &m) { log.push_back(id * 1000 + m.v); }), 1);
          else cons.emplace_back(p->connect<M2>([&log, id] { log.push_back(id * 1000 + 500); }), 0);
          on.push_back(1); if (!cons.back().first.connected()) return 1; break; }
        case 2: if (!cons.empty()) { int k = rand() % cons.size(); if (cons[k].first.connected() != (bool)on[k]) return 2; cons[k].first.disconnect(); on[k] = 0; if (cons[k].first.connected()) return 3; } break;
        case 3: if (rand() % 4 == 0) { if (kind) p->disconnect<M1>(); else p->disconnect<M2>(); for (size_t j = 0; j < cons.size(); ++j) if (cons[j].second == kind) on[j] = 0; } break;
        default: { int v = rand() % 100;
          bool c = conn(kind), ok;
          if ((kind ? p->connected<M1>() : p->connected<M2>()) != c) { fprintf(stderr, "connected is wrong\n"); return 4; }
          if (rand() % 2) ok = kind ? p->post<M1>(M1{v}) : p->post<M2>(M2{v});
          else ok = kind ? p->waitablePost<M1>(M1{v}).valid() : p->waitablePost<M2>(M2{v}).valid();
          if (ok != c) return 5;
          if (p->pendingCout() != (c ? 1u : 0u)) return 6;
          while (p->runOnceFor(0ms)) {}
          for (size_t j = 0; j < cons.size(); ++j) if (on[j] && cons[j].second == kind) want.push_back((int)(j + 1) * 1000 + (kind ? v : 500));
          if (log != want) { fprintf(stderr, "seed %u: handlers called %zu times, expected %zu\n", seed, log.size(), want.size()); return 7; } }
      }
    }
    p->stop();
    if (p->post<M1>(M1{1}) || p->waitablePost<M2>(M2{1}).valid()) return 8;
  }
  return 0;
}
static int connections() {
  auto p = Processor::create();
  int a = 0, b = 0;
  auto c1 = p->connect<M1>([&](const M1 &) { ++a; });
  auto c2 = p->connect<M1>([&](const M1 &) { ++b; });
  auto fire = [&] { p->post<M1>(M1{0}); while (p->runOnceFor(0ms)) {} };
  fire(); CHECK(a == 1 && b == 1);
  c1 = std::move(c2);
  CHECK(c1.connected() && !c2.connected());
  c1 = std::move(c1);
  CHECK(c1.connected());
  c1.disconnect(); fire(); CHECK(b == 1);
  c1.reconnect(); fire(); CHECK(b == 2 && c1.connected());
  MsgConnection none; CHECK(!none.connected()); none.disconnect(); none.reconnect();
  MsgConnectionGroup g;
  g << p->connect<M2>([&](const M2 &) { ++a; }) << p->connect<M2>([&](const M2 &) { ++a; });
  CHECK(p->connected<M2>());
  g.disconnect();
  CHECK(!p->connected<M2>());
  { int n = 0; auto r = Processor::create(); auto x = r->connect<M1>([&](const M1 &) { ++n; }); x.disconnect(); auto y = r->connect<M1>([&](const M1 &) { n += 10; }); x.reconnect(); r->post<M1>(M1{1}); r->runFor(2ms); CHECK(n == 11);
    r->executeAsync([&] { r->stop(); CHECK(!r->post<M1>(M1{1}) && !r->waitablePost<M1>(M1{1}).valid() && !this_processor::waitablePost(makeMessage<M1>(1)).valid()); return 0; }); r->run(); CHECK(n == 11); }
  // a handler connects, disconnects and posts while it runs; a message posted from the processor itself is handled in order
  Log log;
  auto k1 = p->connect<M1>([&](const M1 &m) { log.push_back(m.v); });
  auto k = p->connect<M2>([&](const M2 &m) { log.push_back(m.v); if (m.v < 3) { this_processor::post<M2>(M2{m.v + 1}); auto s = p->waitablePost<M1>(M1{m.v + 10}); s.wait(); if (m.v == 2) p->disconnect<M2>(); } });
  p->post<M2>(M2{0});
  while (p->runOnceFor(0ms)) {}
  CHECK((log == Log{0, 10, 1, 11, 2, 12}));
  return 0;
}
static int routed() {
  for (unsigned seed = 1; seed <= 30; ++seed) {
    srand(seed);
    std::vector<ProcessorInstance> ps;
    std::vector<std::string> ids;
    std::vector<Log> log(8), want(8);
    std::vector<std::vector<std::pair<std::string, bool>>> seen(8), wseen(8);
    std::vector<int> in(8), con(8), watch(8);
    for (int i = 0; i < 8; ++i) { ids.push_back("proc" + std::to_string(i)); ps.push_back(nullptr); }
    auto drain = [&] { for (auto &p : ps) if (p) while (p->runOnceFor(0ms)) {} };
    for (int step = 0; step < 60; ++step) {
      int k = rand() % 8;
      switch (rand() % 6) {
        case 0: { auto p = Processor::create(ids[k]); if ((bool)p == (bool)in[k]) { fprintf(stderr, "create gave %s for an id %s\n", p ? "a processor" : "nothing", in[k] ? "in use" : "free"); return 1; }
          if (p) { if (ps[k]) drain(); ps[k] = p; in[k] = 1; con[k] = watch[k] = 0; for (int j = 0; j < 8; ++j) if (j != k && in[j] && watch[j]) wseen[j].emplace_back(ids[k], true); } break; }
        case 1: if (in[k]) { if (!con[k]) { ps[k]->connect<M1>([&log, k](const M1 &m) { log[k].push_back(m.v); }); con[k] = 1; }
            if (!watch[k] && rand() % 2) { ps[k]->connect<ProcessorStatusUpdateMsg>([&seen, k](const ProcessorStatusUpdateMsg &m) { auto p = m.compref.lock(); seen[k].emplace_back(p ? p->id() : std::string("gone"), m.status == ProcessorStatusUpdateMsg::Status::Reachable); }); watch[k] = 1; } } break;
        case 2: if (in[k] && rand() % 3 == 0) { drain(); ps[k]->stop(); in[k] = 0; for (int j = 0; j < 8; ++j) if (j != k && in[j] && watch[j]) wseen[j].emplace_back(ids[k], false); } break;
        case 3: { int v = rand() % 1000; bool ok = rand() % 2 ? routing::post<M1>(ids[k], M1{v}) : routing::send<M1>(ids[k], M1{v}).valid(); if (ok != (in[k] && con[k])) return 2; if (ok) want[k].push_back(v); break; }
        case 4: { int v = rand() % 1000; bool any = false; for (int j = 0; j < 8; ++j) if (in[j] && con[j]) { any = true; want[j].push_back(v); }
          bool ok = rand() % 2 ? routing::postToAll<M1>(M1{v}) : routing::sendToAll<M1>(M1{v}).valid(); if (ok != any) return 3; break; }
        case 5: if ((routing::findProcessor(ids[k]) != nullptr) != (bool)in[k] || (in[k] && Processor::findProcessor(ids[k]) != ps[k])) return 4;
      }
      drain();
      for (int j = 0; j < 8; ++j) { if (log[j] != want[j]) { fprintf(stderr, "seed %u: processor %d got %zu messages, expected %zu\n", seed, j, log[j].size(), want[j].size()); return 5; }
        if (in[j] && seen[j] != wseen[j]) { fprintf(stderr, "seed %u: processor %d saw %zu status changes, expected %zu\n", seed, j, seen[j].size(), wseen[j].size()); return 6; } }
    }
    for (int j = 0; j < 8; ++j) if (in[j]) ps[j]->stop();
    for (int j = 0; j < 8; ++j) if (routing::findProcessor(ids[j])) return 7;
  }
  return 0;
}
static int routedwait() {
  // waiting for everybody: only when every handler has run
  AsyncProcessor a("ra"), b("rb");
  std::atomic<int> n{0};
  a->connect<M1>([&](const M1 &) { usleep(3000); ++n; });
  b->connect<M1>([&](const M1 &) { usleep(6000); ++n; });
  a.launch(); b.launch();
  for (int i = 0; i < 5; ++i) { auto s = routing::sendToAll<M1>(M1{1}); CHECK(s.valid()); s.get(); CHECK(n == 2 * (i + 1)); }
  auto s = routing::send<M1>("rb", M1{1}); CHECK(s.valid()); s.get(); CHECK(n == 11);
  // a handler uses routing while a message is sent to all from its own thread
  a->executeAsync([&] { a->connect<M2>([&](const M2 &) { if (routing::findProcessor("rb")) ++n; }); routing::sendToAll<M2>(M2{1}); ++n; });
  for (int i = 0; i < 200 && n < 13; ++i) usleep(1000);
  CHECK(n == 13);
  a.stopAndWait(); b.stopAndWait();
  { AsyncProcessor c("sa"), d("sb"), e("sc"); std::atomic<int> k{0}; c->connect<M1>([&](const M1 &) { usleep(100000); ++k; }); d->connect<M1>([&](const M1 &) { ++k; }); e->connect<M1>([&](const M1 &) { usleep(50000); ++k; }); c.launch(); d.launch(); e.launch(); routing::sendToAll<M1>(M1{1}).get(); CHECK(k == 3); }
  for (auto nm : {"[", "[a", "[audio].control", "[anonymous]", "[anonymousy.xyz", "[anonymous", "[anonymousy."}) { auto p = Processor::create(nm); CHECK(p && routing::findProcessor(nm) == p); p->stop(); CHECK(!routing::findProcessor(nm)); }
  // one that was taken out does not throw out its successor
  auto p = Processor::create("rc");
  p->stop();
  auto q = Processor::create("rc");
  CHECK(q);
  p->reuse(); p->stop();
  CHECK(routing::findProcessor("rc") == q);
  q->stop();
  for (int round = 0; round < 50; ++round) {
    std::atomic<int> got{0}, go{0};
    std::vector<ProcessorInstance> r(4);
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t) ts.emplace_back([&, t] { while (!go) {} r[t] = Processor::create("rd"); if (r[t]) ++got; });
    go = 1;
    for (auto &t : ts) t.join();
    CHECK(got == 1);
    for (auto &x : r) if (x) x->stop();
  }
  return 0;
}
int main() {
  dvr::scenario("random histories of jobs", jobs);
  dvr::scenario("running, nesting, exceptions, dead processors", running);
  dvr::scenario("concurrent jobs, waiting and stopping", threads, 30000);
  dvr::scenario("random histories of handlers and messages", messages);
  dvr::scenario("message connections", connections);
  dvr::scenario("random histories of routing", routed);
  dvr::scenario("waiting for routed messages, reused ids, concurrent creation", routedwait);
  return SCHED_MAIN_RESULT();
}
