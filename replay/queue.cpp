#include <maf/threading/Queue.h>
#include <deque>
#include <random>
#include <algorithm>
#include <memory>
#include "dvrun.h"
using namespace maf::threading;
using namespace std::chrono_literals;
using IntQ = Queue<int>;
struct Item { int key; int id; };
struct Less { bool operator()(const Item &a, const Item &b) const { return a.key < b.key; } };

static int fifo(unsigned seed) {
  std::mt19937 g(seed);
  Queue<std::string> q;
  std::deque<std::string> m;
  bool closed = false;
  for (int i = 0; i < 3000; ++i) {
    switch (g() % 12) {
      case 0: case 1: case 2: { std::string s = "element-" + std::to_string(i) + std::string(30, 'x'); q.push(s); if (!closed) m.push_back(s); break; }
      case 3: case 4: { std::string s = "element-" + std::to_string(i); auto t = s; q.push(std::move(t)); if (!closed) m.push_back(s); break; }
      case 5: case 6: { std::string v = "none"; bool ok = q.tryPop(v); CHECK(ok == (!m.empty() && !closed)); if (ok) { CHECK(v == m.front()); m.pop_front(); } break; }
      case 7: { std::string v; bool ok = q.waitFor(v, 0LL); CHECK(ok == (!m.empty() && !closed)); if (ok) { CHECK(v == m.front()); m.pop_front(); } break; }
      case 8: if (!m.empty() || closed) { std::string v; bool ok = q.wait(v); CHECK(ok == !closed); if (ok) { CHECK(v == m.front()); m.pop_front(); } } break;
      case 9: CHECK(q.size() == m.size()); CHECK(q.empty() == m.empty()); CHECK(q.isClosed() == closed); break;
      case 10: if (g() % 8 == 0) { size_t n = 0; bool ok = true; q.clear([&](std::string &s) { ok &= n < m.size() && s == m[n]; ++n; }); CHECK(ok && n == m.size()); m.clear(); }
               else if (g() % 8 == 0) { q.clear(); m.clear(); CHECK(q.empty()); } break;
      case 11: if (g() % 4 == 0) { q.close(); closed = true; } else if (g() % 2) { q.reOpen(); closed = false; }
               if (!closed && g() % 3 == 0) { std::string v; auto t = std::chrono::steady_clock::now(); bool ok = q.waitUntil(v, t); CHECK(ok == !m.empty()); if (ok) { CHECK(v == m.front()); m.pop_front(); } }
               break;
    }
  }
  return 0;
}
static int prio(unsigned seed) {
  std::mt19937 g(seed);
  PriorityQueue<Item, Less> q;
  std::vector<int> m;
  for (int i = 0; i < 2000; ++i) {
    if (g() % 2) { int k = g() % 50; q.push(Item{k, i}); m.push_back(k); }
    else {
      Item v{-1, 0};
      bool ok = g() % 2 ? q.tryPop(v) : q.waitFor(v, 0LL);
      CHECK(ok == !m.empty());
      if (ok) { auto it = std::max_element(m.begin(), m.end()); CHECK(*it == v.key); m.erase(it); }
    }
    CHECK(q.size() == m.size());
  }
  return 0;
}
static int moveonly_like() {   // element values survive the trip unmodified
  Queue<std::vector<int>> q;
  std::vector<int> a(1000, 7);
  q.push(a); CHECK(a.size() == 1000);
  std::vector<int> v;
  CHECK(q.wait(v) && v == a);
  q.push(a);
  CHECK(q.tryPop(v) && v == a);
  return 0;
}
int main() {
  using namespace dvr;
  for (unsigned s = 1; s <= 6; ++s) { scenario("fifo model", [=] { return fifo(s); }); scenario("priority model", [=] { return prio(s); }); }
  scenario("values", moveonly_like);
  auto waiter = [](auto waitf) {
    return [waitf](int k) {
      IntQ q; int v = 0; bool ok = false;
      bool r = interleave(k, [&] { ok = waitf(q, v); }, [&] { q.push(42); });
      if (!r) return 77;
      CHECK(ok && v == 42);
      return 0; };
  };
  auto W = [](IntQ &q, int &v) { return q.wait(v); };
  auto WF = [](IntQ &q, int &v) { return q.waitFor(v, 100000LL); };
  two_threads("wait || push", waiter(W));
  two_threads("waitFor || push", waiter(WF));
  two_threads("waitUntil || push", waiter([](IntQ &q, int &v) { return q.waitUntil(v, std::chrono::steady_clock::now() + 100s); }));
  auto closer = [](auto waitf) {
    return [waitf](int k) {
      IntQ q; int v = 0; bool ok = true;
      bool r = interleave(k, [&] { ok = waitf(q, v); }, [&] { q.close(); });
      if (!r) return 77;
      CHECK(!ok);
      return 0; };
  };
  two_threads("wait || close", closer(W));
  two_threads("waitFor || close", closer(WF));
  two_threads("waitUntil || close", closer([](IntQ &q, int &v) { return q.waitUntil(v, std::chrono::steady_clock::now() + 100s); }));
  two_threads("wait on closed queue || reOpen", [](int k) {
    IntQ q; int v = 0; q.close();
    bool ok = false;
    std::atomic<bool> fin{false};
    std::thread helper([&] { usleep(700000); q.close(); });
    bool r = interleave(k, [&] { ok = q.wait(v); }, [&] { q.reOpen(); });
    helper.join();
    if (!r) return 77;
    CHECK(!ok);
    return 0; });
  two_threads("push || wait", [](int k) {
    IntQ q; int v = 0; bool ok = false;
    bool r = interleave(k, [&] { q.push(7); }, [&] { ok = q.wait(v); });
    if (!r) return 77;
    CHECK(ok && v == 7);
    return 0; });
  two_threads("push(&&) || wait", [](int k) {
    Queue<std::string> q; std::string v; bool ok = false;
    bool r = interleave(k, [&] { std::string s = "s"; q.push(std::move(s)); }, [&] { ok = q.wait(v); });
    if (!r) return 77;
    CHECK(ok && v == "s");
    return 0; });
  two_threads("close || wait", [](int k) {
    IntQ q; int v = 0; bool ok = false;
    bool r = interleave(k, [&] { q.close(); }, [&] { ok = q.wait(v); });
    if (!r) return 77;
    CHECK(!ok);
    return 0; });
  two_threads("two waiters, two pushes", [](int k) {
    IntQ q; int v1 = 0, v2 = 0; bool o1 = false, o2 = false;
    std::thread t([&] { o2 = q.wait(v2); });
    bool r = interleave(k, [&] { o1 = q.wait(v1); }, [&] { q.push(1); q.push(2); });
    t.join();
    if (!r) return 77;
    CHECK(o1 && o2 && v1 + v2 == 3);
    return 0; });
  two_threads("two waiters, close", [](int k) {
    IntQ q; int v1 = 0, v2 = 0; bool o1 = true, o2 = true;
    std::thread t([&] { o2 = q.wait(v2); });
    usleep(3000);
    bool r = interleave(k, [&] { o1 = q.wait(v1); }, [&] { q.close(); });
    t.join();
    if (!r) return 77;
    CHECK(!o1 && !o2);
    return 0; });
  auto pops = [](auto a, auto b) {
    return [a, b](int k) {
      Queue<std::string> q; const std::string one = "the only element of this queue, not a short one";
      q.push(one);
      std::string v1, v2; bool o1 = false, o2 = false;
      bool r = interleave(k, [&] { o1 = a(q, v1); }, [&] { o2 = b(q, v2); });
      if (!r) return 77;
      CHECK(o1 != o2);
      CHECK((o1 ? v1 : v2) == one && q.empty());
      return 0; };
  };
  auto P = [](Queue<std::string> &q, std::string &v) { return q.tryPop(v); };
  auto PF = [](Queue<std::string> &q, std::string &v) { return q.waitFor(v, 0LL); };
  auto PU = [](Queue<std::string> &q, std::string &v) { return q.waitUntil(v, std::chrono::steady_clock::now()); };
  two_threads("one element: tryPop || tryPop", pops(P, P));
  two_threads("one element: tryPop || waitFor", pops(P, PF));
  two_threads("one element: waitFor || tryPop", pops(PF, P));
  two_threads("one element: waitFor || waitFor", pops(PF, PF));
  two_threads("one element: waitUntil || tryPop", pops(PU, P));
  two_threads("one element: tryPop || waitUntil", pops(P, PU));
  two_threads("one element: tryPop || clear", [](int k) {
    Queue<std::string> q; q.push("the only element of this queue, not a short one"); std::string v; bool o = false; int n = 0;
    bool r = interleave(k, [&] { o = q.tryPop(v); }, [&] { q.clear([&](std::string &) { ++n; }); });
    if (!r) return 77;
    CHECK(n + (o ? 1 : 0) == 1 && q.empty());
    return 0; });
  two_threads("clear || tryPop", [](int k) {
    Queue<std::string> q; q.push("the only element of this queue, not a short one"); std::string v; bool o = false; int n = 0;
    bool r = interleave(k, [&] { q.clear([&](std::string &) { ++n; }); }, [&] { o = q.tryPop(v); });
    if (!r) return 77;
    CHECK(n + (o ? 1 : 0) == 1 && q.empty());
    return 0; });
  auto closed_after = [](auto a) {
    return [a](int k) {   // close returns first, so nothing may be delivered by a consumer that has not started to take
      Queue<std::string> q; q.push("x"); std::string v; std::atomic<bool> closed{false}; bool o = false, before = false;
      bool r = interleave(k, [&] { o = a(q, v); before = true; }, [&] { q.close(); closed = true; });
      (void)before;
      if (!r) return 77;
      CHECK(o ? q.empty() : q.size() == 1);
      return 0; };
  };
  two_threads("tryPop || close", closed_after(P));
  two_threads("waitFor || close", closed_after(PF));
  scenario("closed queue delivers nothing", [=] {
    Queue<std::string> q; std::string v;
    q.push("a"); q.push("b"); q.close();
    CHECK(!q.tryPop(v) && !q.wait(v) && !q.waitFor(v, 5LL) && !q.waitUntil(v, std::chrono::steady_clock::now() + 5ms) && !q.waitFor(v, 5ms));
    CHECK(q.size() == 2);
    q.reOpen();
    CHECK(q.tryPop(v) && v == "a" && q.wait(v) && v == "b" && !q.tryPop(v));
    return 0; });
  scenario("sequences", [] {
    IntQ q; int v = 0; q.push(5); q.push(std::vector<int>{1, 2, 3}); q.push(std::vector<int>{}); q.push(std::deque<int>{9, 8});
    for (int e : {5, 1, 2, 3, 9, 8}) CHECK(q.tryPop(v) && v == e);
    CHECK(q.empty());
    q.close(); q.push(std::vector<int>{1}); q.reOpen(); CHECK(q.empty());
    return 0; });
  for (int n = 2; n <= 4; ++n) scenario("a pushed sequence wakes every waiter", [n] {
    IntQ q; std::atomic<int> got{0}; std::vector<std::thread> ts;
    for (int i = 0; i < n; ++i) ts.emplace_back([&] { int v; if (q.wait(v)) ++got; for (;;) pause(); });
    usleep(200000);
    q.push(std::vector<int>(n, 1));
    for (int i = 0; i < 100 && got < n; ++i) usleep(20000);
    CHECK(got == n);
    _exit(0); return 0; }, 10000);
  scenario("4 producers, 3 consumers: exactly once, per-producer order", [] {
    IntQ q; const int N = 20000;
    std::vector<std::thread> ts; std::vector<std::vector<int>> got(3);
    for (int c = 0; c < 3; ++c) ts.emplace_back([&, c] { int v; for (;;) { bool ok = c == 0 ? q.wait(v) : c == 1 ? q.waitFor(v, 200LL) : q.tryPop(v); if (ok) got[c].push_back(v); else if (q.isClosed()) break; } });
    std::vector<std::thread> ps;
    for (int p = 0; p < 4; ++p) ps.emplace_back([&, p] { for (int i = 0; i < N; ++i) q.push(p * 1000000 + i); });
    for (auto &t : ps) t.join();
    while (!q.empty()) usleep(1000);
    q.close();
    for (auto &t : ts) t.join();
    std::vector<int> all;
    for (auto &g : got) { int last[4] = {-1, -1, -1, -1}; for (int v : g) { CHECK(v % 1000000 > last[v / 1000000]); last[v / 1000000] = v % 1000000; all.push_back(v); } }
    std::sort(all.begin(), all.end());
    CHECK(all.size() == 4u * N);
    CHECK(std::unique(all.begin(), all.end()) == all.end());
    return 0; }, 60000);
  return SCHED_MAIN_RESULT();
}
