// real-code runs for observables and lock-holding sessions
#include <maf/utils/Observable.h>
#include <maf/threading/Lockable.h>
#include <maf/threading/Locker.h>
#include <maf/threading/MutexRef.h>
#include <mutex>
#include <memory>
#include <optional>
#include "dvrun.h"
using namespace maf::signal_slots;
using namespace maf::threading;
using Log = std::vector<int>;
static int single() {
  mt::Observable<int> o;
  o.set(5);
  Log l;
  auto c = o.connect([&](int v) { l.push_back(v); });
  CHECK((l == Log{5}));
  o.set(5); CHECK(l.size() == 1);
  o.set(7); CHECK((l == Log{5, 7}) && o.get() == 7);
  o = 7; CHECK(l.size() == 2);
  o = 9; CHECK(l.back() == 9 && l.size() == 3);
  CHECK((o += 3) == 12 && l.back() == 12 && l.size() == 4);
  CHECK((o -= 2) == 10 && (o *= 3) == 30 && (o /= 4) == 7 && (o %= 4) == 3 && (o |= 8) == 11 && (o &= 6) == 2 && (o ^= 7) == 5 && (o <<= 2) == 20 && (o >>= 1) == 10);
  CHECK(l.size() == 13 && l.back() == 10);
  CHECK(++o == 11 && o++ == 11 && o.get() == 12 && l.size() == 15);
  { auto r = o.mutable_(); *r = 1; *r = 12; } CHECK(l.size() == 15);
  { auto r = o.mutable_(); *r = 1; *r = 40; CHECK(l.size() == 15); } CHECK(l.size() == 16 && l.back() == 40);
  { auto r = o.silentMutable(); *r = 41; } CHECK(l.size() == 16 && o.get() == 41);
  { const auto &k = o; CHECK(*k.immutable() == 41); }
  Log l2;
  auto c2 = o.silentlyConnect([&](int v) { l2.push_back(v); }); CHECK(l2.empty());
  std::function<void(const int &)> f = [&](const int &v) { l2.push_back(v); };
  auto c3 = o.connect(f); CHECK((l2 == Log{41}));
  auto c4 = o.connect(std::move(f)); CHECK((l2 == Log{41, 41}));
  CHECK(l.size() == 16);
  CHECK(c2.disconnect() && c3.disconnect()); o.set(1); CHECK((l2 == Log{41, 41, 1}) && l.size() == 17);
  const auto &co = o; Log l5; auto c5 = co.connect([&](int v) { l5.push_back(v); }); CHECK((l5 == Log{1}));
  o.set(-5); CHECK((o += -3) == -8 && (o >>= 1) == -4 && (o /= 3) == -1 && (o *= 8) == -8 && (o %= 3) == -2);
  return 0;
}
static int several() {
  mt::Observable<std::string, int, std::string> o;
  o.set("a", 1, "z");
  int n = 0; std::tuple<std::string, int, std::string> last;
  auto c = o.connect([&](const std::string &a, int b, const std::string &z) { ++n; last = {a, b, z}; });
  CHECK(n == 1 && last == std::make_tuple(std::string("a"), 1, std::string("z")));
  o.set("a", 1, "z"); CHECK(n == 1);
  o.set<0>("b"); CHECK(n == 2 && std::get<0>(last) == "b" && o.get<0>() == "b" && o.get<2>() == "z");
  o.set<2, 1>("y", 4); CHECK(n == 3 && last == std::make_tuple(std::string("b"), 4, std::string("y")) && o.get() == last);
  o.set<2, 1>("y", 4); CHECK(n == 3);
  o.set("b", 4, "x"); CHECK(n == 4 && std::get<2>(last) == "x");
  o.silentSet<1>(8); CHECK(n == 4 && o.get<1>() == 8);
  o.silentSet("q", 9, "r"); CHECK(n == 4 && o.get() == std::make_tuple(std::string("q"), 9, std::string("r")));
  o = std::make_tuple(std::string("q"), 10, std::string("r")); CHECK(n == 5 && std::get<1>(last) == 10);
  { auto r = o.mutable_(); std::get<0>(*r) = "m"; std::get<1>(*r) = 3; CHECK(n == 5); } CHECK(n == 6 && std::get<0>(last) == "m" && std::get<1>(last) == 3);
  { auto r = o.mutable_(); } CHECK(n == 6);
  { auto r = o.mutable_<2>(); *r += "s"; } CHECK(n == 7 && std::get<2>(last) == "rs");
  { auto r = o.mutable_<1>(); *r = 3; } CHECK(n == 7);
  return 0;
}
struct Ex : maf::util::ExecutorIF { std::vector<CallbackType> q; bool execute(CallbackType f) noexcept override { q.push_back(std::move(f)); return true; } void run() { auto x = std::move(q); q.clear(); for (auto &f : x) f(); } };
static int joined() {
  mt::Observable<std::string> a; mt::Observable<int> b; mt::Observable<int> c;
  a.set("a"); b.set(1); c.set(2);
  {
    auto j = mt::join(a, b, c);
    CHECK(j.get() == std::make_tuple(std::string("a"), 1, 2));
    int n = 0; std::tuple<std::string, int, int> last;
    auto k = j.connect([&](const std::string &x, int y, int z) { ++n; last = {x, y, z}; });
    CHECK(n == 1);
    b.set(5); CHECK(n == 2 && last == std::make_tuple(std::string("a"), 5, 2));
    c.set(6); CHECK(n == 3 && std::get<2>(last) == 6 && std::get<1>(last) == 5);
    a.set("x"); CHECK(n == 4 && j.get() == std::make_tuple(std::string("x"), 5, 6));
    a.set("x"); CHECK(n == 4);
    auto j2 = std::move(j); b.set(50); CHECK(j2.get<1>() == 50 && n == 5);
    CHECK(b.connectionCount() == 1);
  }
  CHECK(a.connectionCount() == 0 && b.connectionCount() == 0 && c.connectionCount() == 0);
  auto e = std::make_shared<Ex>();
  {
    auto j = mt::join(maf::util::ExecutorIFPtr(e), a, b, c);
    CHECK(j.get() == std::make_tuple(std::string("x"), 50, 6));
    e->run(); CHECK(j.get() == std::make_tuple(std::string("x"), 50, 6));
    c.set(60); b.set(51); CHECK(j.get<2>() == 6); e->run(); CHECK(j.get() == std::make_tuple(std::string("x"), 51, 60));
    a.set("late");
  }
  e->run();
  CHECK(a.connectionCount() == 0 && b.connectionCount() == 0 && c.connectionCount() == 0);
  return 0;
}
// no change is lost or announced twice under contention, and slots see the values in the order they were stored
static int contention() {
  for (int round = 0; round < 20; ++round) {
    mt::Observable<int> o; o.set(0);
    long n = 0; int last = -1; bool order = true;
    auto c = o.connect([&](int v) { if (v != last + 1) order = false; last = v; ++n; });
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t) ts.emplace_back([&] { for (int i = 0; i < 500; ++i) { if (i % 2) o += 1; else ++o; } });
    for (int t = 0; t < 2; ++t) ts.emplace_back([&] { for (int i = 0; i < 100; ++i) { int first = -1, prev = -1; bool ok = true; auto k = o.connect([&](int v) { if (first < 0) first = v; else if (v != prev + 1 && v != prev) ok = false; prev = v; }); k.disconnect(); if (first < 0 || !ok) _exit(3); } });
    for (auto &t : ts) t.join();
    CHECK(o.get() == 2000 && n == 2001 && order);
    mt::Observable<int, int> p; p.set(0, 0);
    std::thread w([&] { for (int i = 1; i < 2000; ++i) p.set(i, i); }), r([&] { for (int i = 0; i < 2000; ++i) { auto s = p.get(); if (std::get<0>(s) != std::get<1>(s)) _exit(4); } });
    w.join(); r.join();
  }
  return 0;
}
struct M { int n = 0, max = 0, bad = 0; void lock() { if (++n > 1) ++bad; } void unlock() { if (--n < 0) ++bad; } bool try_lock() { if (n) return false; lock(); return true; } };
struct Big { int v = 0; Big() = default; Big(int x) : v(x) {} Big(const Big &o) : v(o.v) { ++copies; } Big &operator=(const Big &) = default; static inline int copies = 0; };
static int sessions() {
  AtomicObject<Big, M> a, b;
  auto &ma = a.getMutex(); auto &mb = b.getMutex();
#define STATE(x, y) CHECK(ma.n == (x) && mb.n == (y) && !ma.bad && !mb.bad)
  { auto s = a.atomic(); STATE(1, 0); CHECK(&*s == &a.lockee() && s.operator->() == &a.lockee()); (*s).v = 4; CHECK(a.lockee().v == 4); }
  STATE(0, 0);
  CHECK(a->v == 4); STATE(0, 0);
  { const auto &ca = a; auto s = ca.atomic(); STATE(1, 0); CHECK(&*s == &a.lockee() && s.operator->() == &a.lockee()); } STATE(0, 0);
  { const auto &ca = a; CHECK(ca->v == 4); auto s = *ca; STATE(1, 0); } STATE(0, 0);
  { auto s = *a; STATE(1, 0); auto t = std::move(s); STATE(1, 0); CHECK(&*t == &a.lockee()); } STATE(0, 0);
  { auto s = a.atomic(); { auto t = b.atomic(); STATE(1, 1); s = std::move(t); STATE(0, 1); CHECK(&*s == &b.lockee()); } STATE(0, 1); } STATE(0, 0);
  { auto s = a.atomic(); auto &r = s; s = std::move(r); STATE(1, 0); CHECK(&*s == &a.lockee()); } STATE(0, 0);
  { auto s = a.atomic(); auto t = std::move(s); auto u = b.atomic(); s = std::move(u); STATE(1, 1); t = std::move(u); STATE(0, 1); } STATE(0, 0);
  a = Big(9); CHECK(a.lockee().v == 9); STATE(0, 0); Big x(11); a = x; CHECK(a.lockee().v == 11); STATE(0, 0);
  CHECK(Big::copies <= 1);
  AtomicObject<std::unique_ptr<Big>, M> p(std::make_unique<Big>(3));
  { auto s = p.atomic(); CHECK(p.getMutex().n == 1 && s->v == 3 && &*s == p.lockee().get()); } CHECK(p.getMutex().n == 0);
  Lockable<Big, M> l;
  { auto s = l.atomic(); CHECK(l.getMutex().n == 1 && &*s == &*l); s->v = 6; } CHECK(l.getMutex().n == 0 && l->v == 6);
  { const auto &cl = l; auto s = cl.atomic(); CHECK(l.getMutex().n == 1 && s->v == 6); } CHECK(l.getMutex().n == 0);
  l = Big(7); CHECK(l->v == 7 && l.getMutex().n == 0);
  CHECK(l.try_lock() && !l.try_lock() && l.getMutex().n == 1); l.unlock(); CHECK(l.getMutex().n == 0); l.lock(); CHECK(l.getMutex().n == 1); l.unlock();
  M m; AtomicObject<int, MutexReference<M>> r(MutexReference<M>{m}); r = 5; CHECK(m.n == 0 && !m.bad); { auto s = r.atomic(); CHECK(m.n == 1 && *s == 5); } CHECK(m.n == 0);
  CHECK(r.getMutex().try_lock() && !r.getMutex().try_lock()); m.unlock();
  Locker<M> lk; Big z; { auto h = lk(z); CHECK(lk.mutex_.n == 1 && &*h == &z && h.operator->() == &z); } CHECK(lk.mutex_.n == 0 && lk.try_lock()); lk.unlock();
  return 0;
}
// values assigned concurrently are never torn
static int torn() {
  struct V { long a = 0, b = 0, c = 0, d = 0; V() = default; V(long x) : a(x), b(x), c(x), d(x) {} };
  AtomicObject<V> o; Lockable<V> l;
  std::vector<std::thread> ts;
  for (int t = 1; t < 4; ++t) ts.emplace_back([&, t] { for (int i = 0; i < 20000; ++i) { o = V(t); l = V(t); } });
  ts.emplace_back([&] { for (int i = 0; i < 20000; ++i) { { auto s = o.atomic(); if (s->a != s->b || s->b != s->c || s->c != s->d) _exit(1); } auto s = l.atomic(); if (s->a != s->d || s->b != s->c) _exit(2); } });
  for (auto &t : ts) t.join();
  return 0;
}
// another party changes the state whenever the lock is free (k-th time within one operation): what was announced last is what is stored
static int hook_at = -1; static std::function<void()> hook;
struct HM {
  std::shared_ptr<std::recursive_mutex> m = std::make_shared<std::recursive_mutex>(); int depth = 0;
  void lock() { if (depth == 0) fire(); m->lock(); ++depth; }
  void unlock() { --depth; m->unlock(); if (depth == 0) fire(); }
  bool try_lock() { lock(); return true; }
  void fire() { if (hook_at > 0 && --hook_at == 0) hook(); }
};
static int foreign() {
  using O = BasicObservableTS<HM, int, int>;
  using P = BasicObservableTS<HM, int>;
  for (int op = 0; op < 14; ++op) for (int k = 1; k < 8; ++k) for (int how = 0; how < 3; ++how) {
    O o(HM{}); o.set(1, 1);
    P p(HM{}); p.set(1);
    std::pair<int, int> last; int plast = 0, n = 0;
    auto c = o.connect([&](int a, int b) { last = {a, b}; ++n; });
    auto d = p.connect([&](int a) { plast = a; ++n; });
    int n0 = n;
    hook = [&] { if (how == 0) { o.set(2, 1); p.set(2); } else if (how == 1) { o.set(1, 5); p.set(5); } else { o.set(7, 7); p.set(7); } };
    hook_at = k;
    switch (op) {
      case 0: o.set(1, 1); break; case 1: o.set(2, 1); break; case 2: o.set<0>(2); break; case 3: o.set<1, 0>(1, 2); break;
      case 4: { auto r = o.mutable_(); std::get<0>(*r) = 1; } break; case 5: { auto r = o.mutable_<0>(); *r = 1; } break;
      case 6: { auto r = o.mutable_(); std::get<1>(*r) = 5; } break; case 7: o = std::make_tuple(1, 5); break;
      case 8: p.set(1); break; case 9: { auto r = p.mutable_(); *r = 1; } break; case 10: { int b = p.get(); int r = (p += 1); if (b == 1 && hook_at != 0 && r != 2) return 1; } break;
      case 11: ++p; break; case 12: p = 5; break; case 13: { auto e = p.connect([&](int) {}); auto f = o.connect([&](int, int) {}); } break;
    }
    hook_at = -1;
    if (o.get() != std::make_tuple(last.first, last.second) || p.get() != plast) { fprintf(stderr, "operation %d, change %d by another party at step %d: announced (%d,%d)/%d, stored (%d,%d)/%d\n", op, how, k, last.first, last.second, plast, o.get<0>(), o.get<1>(), p.get()); return 2; }
  }
  return 0;
}
int main() {
  dvr::scenario("an observable of one state", single);
  dvr::scenario("an observable of several states", several);
  dvr::scenario("joined observables", joined);
  dvr::scenario("changes by another party between critical sections", foreign);
  dvr::scenario("concurrent changes", contention, 30000);
  dvr::scenario("lock-holding sessions", sessions);
  dvr::scenario("concurrent assignment", torn, 20000);
  return SCHED_MAIN_RESULT();
}
