// real-code runs for signals, slots and connections
#include <maf/utils/SignalSlots.h>
#include <deque>
#include <memory>
#include "dvrun.h"
using namespace maf::signal_slots;
using Log = std::vector<int>;
// random sequences of connect/disconnect/clear/emit, some of them from within slots, against a simple model
static int model(unsigned seed) {
  srand(seed);
  Signal<int> s;
  struct C { Connection con; bool on; bool ever; };
  std::deque<C> cs;
  std::vector<int> order;      // connected slots in order (indices)
  Log log;
  int emitting = 0, when = -1, what = 0, whom = 0;
  auto drop = [&](int k) { for (auto it = order.begin(); it != order.end(); ++it) if (*it == k) { order.erase(it); return true; } return false; };
  std::function<int()> add;
  std::function<int(int)> act = [&](int w) -> int {
    switch (w) {
      case 0: return add();
      case 1: case 2: if (cs.empty()) return 0; { int k = w == 2 && whom < (int)cs.size() ? whom : rand() % cs.size(); bool was = drop(k); if (cs[k].con.connected() != was) return 3; if (cs[k].con.disconnect() != was) return 4; if (cs[k].con.connected()) return 5; cs[k].on = false; if (was) cs[k].ever = true; return 0; }
      case 3: s.disconnect(); order.clear(); for (auto &c : cs) c.on = false; return 0;
      case 4: if (cs.empty()) return 0; { int k = rand() % cs.size(); if (cs[k].ever && !cs[k].on) { bool r = cs[k].con.reconnect(); if (!r) return 6; cs[k].on = true; cs[k].ever = false; order.push_back(k); } return 0; }
    }
    return 0;
  };
  add = [&]() -> int {
    int id = cs.size();
    auto c = s.connect([&, id](const int &v) {
      if (v != 1000 + emitting) abort();
      log.push_back(id);
      if ((int)log.size() == when) { when = -1; if (what != 0) { if (int r = act(what)) _exit(20 + r); } else act(0); }
    });
    if (!c.connected()) return 7;
    cs.push_back({std::move(c), true, false});
    order.push_back(id);
    return 0;
  };
  for (int step = 0; step < 60; ++step) {
    int op = rand() % 6;
    if (op < 5) { if (int r = act(op == 3 && rand() % 3 ? 0 : op)) return r; }
    else {
      ++emitting;
      log.clear();
      auto before = order;
      when = before.empty() ? -1 : 1 + rand() % before.size();
      what = rand() % 4;
      if (what == 2 && !cs.empty()) whom = rand() % cs.size();
      s(1000 + emitting);
      // every slot connected throughout is called exactly once, in order; one disconnected at once is not called afterwards
      std::vector<int> must, may = before;
      for (int k : before) { bool still = std::find(order.begin(), order.end(), k) != order.end(); if (still) must.push_back(k); }
      for (int k : order) if (std::find(before.begin(), before.end(), k) == before.end()) may.push_back(k);
      size_t i = 0;
      for (int k : must) { while (i < log.size() && log[i] != k) ++i; if (i == log.size()) { fprintf(stderr, "slot %d was not called\n", k); return 8; } ++i; }
      for (size_t a = 0; a < log.size(); ++a) for (size_t b = a + 1; b < log.size(); ++b) if (log[a] == log[b]) { fprintf(stderr, "slot %d was called twice\n", log[a]); return 9; }
      for (int k : log) if (std::find(may.begin(), may.end(), k) == may.end()) return 10;
    }
    if (s.connectionCount() != order.size()) { fprintf(stderr, "count %zu, connected %zu\n", s.connectionCount(), order.size()); return 11; }
    if (s.connected() != !order.empty()) return 12;
    for (size_t k = 0; k < cs.size(); ++k) if (cs[k].con.connected() != (std::find(order.begin(), order.end(), (int)k) != order.end())) return 13;
  }
  return 0;
}
static int models() { for (unsigned i = 1; i <= 400; ++i) if (int r = model(i)) { fprintf(stderr, "random history %u: code %d\n", i, r); return 1; } return 0; }
static int throwing() {
  Signal<int> s; SCSignal<int> c;
  int n = 0;
  auto a = s.connect([&](int v) { if (v == 1) throw 1; ++n; });
  auto b = s.connect([&](int) { ++n; });
  auto d = c.connect([&](int v) { if (v == 1) throw 1; ++n; });
  try { s(1); } catch (int) {}
  try { c(1); } catch (int) {}
  n = 0;
  s(2); c(2);
  CHECK(n == 3);
  CHECK(b.disconnect() && s.connectionCount() == 1 && d.disconnect() && !c.connected());
  return 0;
}
static int within() {
  // a slot's own state must survive until it returns, whatever it disconnects
  for (int how = 0; how < 3; ++how) {
    Signal<int> s;
    Connection c;
    int got = 0;
    auto big = std::make_shared<std::vector<int>>(100, 7);
    std::weak_ptr<std::vector<int>> w = big;
    c = s.connect([&, big = std::move(big)](int) {
      if (how == 0) c = {}; 
      if (how == 1) { c.disconnect(); c = {}; }
      if (how == 2) s.disconnect();
      if (w.expired()) { fprintf(stderr, "the slot was destroyed while it ran\n"); _exit(1); }
      got += (*big)[99];
    });
    int after = 0;
    s.connect([&](int) { ++after; });
    s(0);
    CHECK(got == 7);
    s(0);
    CHECK(got == (how == 0 ? 14 : 7));
    CHECK(s.connectionCount() == (how == 0 ? 2u : how == 1 ? 1u : 0u));
    SCSignal<int> sc;
    auto big2 = std::make_shared<std::vector<int>>(100, 7);
    w = big2;
    got = 0;
    c = sc.connect([&, big2 = std::move(big2)](int) { if (how) sc.disconnect(); if (w.expired()) { fprintf(stderr, "the slot was destroyed while it ran\n"); _exit(1); } got += (*big2)[99]; });
    sc(0);
    CHECK(got == 7 && sc.connected() == (how == 0));
  }
  // clearing in the middle: the slots after it are not called, and later connections work
  Signal<int> s;
  Log log;
  auto a = s.connect([&](int) { log.push_back(0); });
  auto b = s.connect([&](int) { log.push_back(1); s.disconnect(); });
  auto c = s.connect([&](int) { log.push_back(2); });
  s(0);
  CHECK((log == Log{0, 1}) && s.connectionCount() == 0 && !s.connected() && !a.connected() && !c.connected());
  auto d = s.connect([&](int) { log.push_back(3); });
  s(0);
  CHECK((log == Log{0, 1, 3}));
  return 0;
}
static int single() {
  SCSignal<int> s; std::recursive_mutex mx; SharedMutexSCSignal<int> sh{maf::threading::mutexRef(mx)};
  int n = 0;
  auto a = s.connect([&](int) { n = 1; });
  auto b = s.connect([&](int) { n = 2; });
  CHECK(a.connected() && !b.connected() && s.connectionCount() == 1);
  s(0); CHECK(n == 1);
  CHECK(!b.disconnect() && !b.reconnect() && a.disconnect() && !s.connected() && s.connectionCount() == 0);
  n = 0; s(0); CHECK(n == 0);
  auto c = s.connect([&](int) { n = 3; });
  CHECK(!a.reconnect());
  s(0); CHECK(n == 3 && c.connected());
  auto x = sh.connect([&](int) {});
  auto y = sh.connect([&](int) {});
  CHECK(x.connected() && !y.connected() && sh.connectionCount() == 1);
  return 0;
}
static int values() {
  int n = 0;
  { Signal<int> s; auto c = s.connect([&](int) { ++n; }); Signal<int> t(std::move(s)); t(0); CHECK(n == 1 && c.connected()); }
  Connection k;
  { Signal<int> s; k = s.connect([&](int) { ++n; }); CHECK(k.connected()); }
  CHECK(!k.connected() && !k.disconnect() && !k.reconnect());
  Signal<int> s;
  k = s.connect([&](int) { ++n; });
  Connection m(std::move(k)); CHECK(m.connected() && !k.connected());
  k = std::move(m); CHECK(k.connected() && !m.connected());
  Connection &self = k; k = std::move(self); CHECK(k.connected());
  CHECK(k.disconnect() && !k.connected()); n = 0; s(0); CHECK(n == 0);
  CHECK(k.reconnect() && k.connected() && s.connectionCount() == 1 && !k.reconnect()); s(0); CHECK(n == 1);
  CHECK(k.disconnect() && k.reconnect() && k.connected() && s.connectionCount() == 1);
  {
    ScopedConnection a{s.connect([&](int) { n += 10; })};
    ScopedConnection b{s.connect([&](int) { n += 100; })};
    n = 0; s(0); CHECK(n == 111);
    a = std::move(b); n = 0; s(0); CHECK(n == 101);
    ScopedConnection &sr = a; a = std::move(sr); n = 0; s(0); CHECK(n == 101);
    ScopedConnection c(std::move(a)); n = 0; s(0); CHECK(n == 101);
  }
  n = 0; s(0); CHECK(n == 1);
  return 0;
}
struct Ex : maf::util::ExecutorIF {
  std::vector<CallbackType> q; bool ok = true;
  bool execute(CallbackType c) noexcept override { q.push_back(std::move(c)); return ok; }
  void run() { auto x = std::move(q); q.clear(); for (auto &f : x) f(); }
};
static int adapters() {
  Signal<std::string> s;
  auto ex = std::make_shared<Ex>();
  Log lens; std::string last;
  auto c = s.connect([&](const std::string &v) { lens.push_back(v.size()); last = v; }, ex);
  { std::string v = "first"; s(v); v = "overwritten"; s(std::string(300, 'x')); v.clear(); }
  CHECK(lens.empty() && ex->q.size() == 2);
  ex->run();
  CHECK((lens == Log{5, 300}) && last == std::string(300, 'x'));
  ex->ok = false; s("refused"); CHECK(lens.size() == 2); ex->run();
  CHECK(c.disconnect()); s("none"); CHECK(ex->q.empty());
  // tracked object
  auto obj = std::make_shared<int>(1);
  int n = 0;
  auto t = s.connect(obj, [&](const std::string &) { ++n; });
  s("a"); CHECK(n == 1 && t.connected());
  obj.reset(); s("b"); CHECK(n == 1 && !t.connected()); s("c"); CHECK(n == 1 && s.connectionCount() == 0);
  { struct O { bool *g; ~O() { *g = true; } }; bool gone = false, bad = false; auto o = std::shared_ptr<O>(new O{&gone}); Signal<int> q; auto k = q.connect(o, [&](int) { o.reset(); bad = gone; }); q(1); CHECK(!bad && gone); q(2); CHECK(!k.connected()); }
  // connection aware slot: no leak after it disconnected itself
  auto token = std::make_shared<int>(0);
  std::weak_ptr<int> w = token;
  { Signal<int> q; Signal<int>::ConnectionAwareSlotType f = [token = std::move(token)](ConnectionPtr con, int v) { if (v == 2) con->disconnect(); };
    auto k = q.connect(std::move(f)); f = {}; q(1); CHECK(k.connected()); q(2); CHECK(!k.connected() && q.connectionCount() == 0); q(3); }
  CHECK(w.expired());
  // signal to signal
  Signal<int> from; int got = 0;
  { Signal<int> to; auto k = to.connect([&](int v) { got = v; }); from.connect(to); from(5); CHECK(got == 5); }
  from(6); CHECK(got == 5 && from.connectionCount() == 0);
  return 0;
}
static int threads() {
  for (int round = 0; round < 30; ++round) {
    Signal<int> s; std::atomic<int> calls{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < 3; ++t) ts.emplace_back([&] { for (int i = 0; i < 300; ++i) { auto c = s.connect([&](int) { ++calls; }); if (!c.connected()) _exit(1); s(1); if (!c.disconnect()) _exit(2); } });
    for (int t = 0; t < 2; ++t) ts.emplace_back([&] { for (int i = 0; i < 300; ++i) { s(2); (void)s.connectionCount(); } });
    for (auto &t : ts) t.join();
    CHECK(s.connectionCount() == 0 && calls >= 900);
  }
  return 0;
}
int main() {
  dvr::scenario("random histories of connections and emissions", models, 30000);
  dvr::scenario("a slot throws", throwing);
  dvr::scenario("slots that disconnect while they run", within);
  dvr::scenario("single-connection signals", single);
  dvr::scenario("moved, reconnected and scoped connections", values);
  dvr::scenario("executors, tracked objects, aware slots, signal chains", adapters);
  dvr::scenario("concurrent use", threads, 30000);
  return SCHED_MAIN_RESULT();
}
