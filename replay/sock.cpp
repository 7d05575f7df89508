// real-code runs for local message framing: interposed socket calls force short transfers and errors
#include <maf/messaging/client-server/Address.h>
#include <maf/messaging/client-server/CSStatus.h>
#include <maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h>
#include <maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.h>
#include <dirent.h>
#include <errno.h>
#include <mutex>
#include <set>
#include <condition_variable>
#include "dvrun.h"
using namespace maf::messaging;
using namespace maf::messaging::ipc;
using namespace maf::messaging::ipc::local;
static thread_local int maxsend = 0, sends = 0, failat = -1, maxread = 0;
static ssize_t (*rsend)(int, const void *, size_t, int);
static ssize_t (*rwrite)(int, const void *, size_t);
static ssize_t (*rread)(int, void *, size_t);
static void resolve() {
  if (rsend) return;
  rwrite = (ssize_t(*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
  rread = (ssize_t(*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
  rsend = (ssize_t(*)(int, const void *, size_t, int))dlsym(RTLD_NEXT, "send");
}
extern "C" ssize_t send(int fd, const void *p, size_t n, int f) {
  resolve();
  if (maxsend) { if (sends++ == failat) { errno = EPIPE; return -1; } if (n > 4 && n > (size_t)maxsend) n = maxsend; }
  return rsend(fd, p, n, f);
}
extern "C" ssize_t write(int fd, const void *p, size_t n) {
  resolve();
  if (maxsend) { if (sends++ == failat) { errno = EPIPE; return -1; } if (n > 4 && n > (size_t)maxsend) n = maxsend; }
  return rwrite(fd, p, n);
}
extern "C" ssize_t read(int fd, void *p, size_t n) {
  resolve();
  if (maxread && n > 4 && n > (size_t)maxread) n = maxread;
  return rread(fd, p, n);
}
static std::string uname_(const char *x) { return "dv_" + std::to_string(getpid()) + x; }
struct Rx {
  std::mutex m; std::condition_variable cv; std::vector<std::string> got;
  LocalIPCBufferReceiverImpl r; std::thread th; bool ok;
  explicit Rx(const std::string &n, int chunk = 0) {
    r.setObserver([this](maf::srz::Buffer &&b) { std::lock_guard<std::mutex> l(m); got.push_back(std::string(b.begin(), b.end())); cv.notify_all(); });
    ok = r.init(Address(n, 0));
    if (ok) th = std::thread([this, chunk] { maxread = chunk; r.start(); });
    for (int i = 0; ok && i < 2000 && !r.running(); ++i) usleep(500);
  }
  bool wait(size_t n, int ms = 3000) { std::unique_lock<std::mutex> l(m); return cv.wait_for(l, std::chrono::milliseconds(ms), [&] { return got.size() >= n; }); }
  void stop() { if (th.joinable()) { r.stop(); th.join(); } }
  ~Rx() { stop(); }
};
static std::string body(size_t n, int seed) { std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = char((i * 131 + i / 251 + seed * 7) & 255); return s; }
static int raw(const std::string &n) {
  sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strncpy(a.sun_path + 1, n.data(), n.size());
  int fd = socket(AF_UNIX, SOCK_STREAM, 0);
  if (connect(fd, (sockaddr *)&a, sizeof a)) { close(fd); return -1; }
  return fd;
}
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static maf::srz::Buffer buf(const std::string &s) { return maf::srz::Buffer(s.begin(), s.end()); }

static int roundtrip(int wchunk, int rchunk) {
  auto n = uname_("rt");
  Rx rx(n, rchunk); CHECK(rx.ok);
  LocalIPCBufferSenderImpl tx;
  size_t k = 0;
  std::vector<std::string> all;
  for (size_t len : {0, 1, 3, 4, 5, 255, 256, 4096, 65535, 65536, 300001, 70000}) {
    if (len > 5000 && (wchunk && wchunk < 100 || rchunk && rchunk < 100)) continue;
    all.push_back(body(len, (int)len));
    maxsend = wchunk; sends = 0; failat = -1;
    auto st = tx.send(buf(all.back()), Address(n, 7));
    maxsend = 0;
    CHECK(st == ActionCallStatus::Success);
    CHECK(rx.wait(++k));
    { std::lock_guard<std::mutex> l(rx.m); CHECK(rx.got.back() == all.back()); }
  }
  usleep(20000);
  std::lock_guard<std::mutex> l(rx.m);
  CHECK(rx.got == all);
  return 0;
}
static int send_fails(int at, int chunk) {
  auto n = uname_("sf");
  Rx rx(n); CHECK(rx.ok);
  LocalIPCBufferSenderImpl tx;
  auto p = body(1000, 3);
  int before = fds();
  maxsend = chunk; sends = 0; failat = at;
  auto st = tx.send(buf(p), Address(n, 7));
  bool failed = sends > at;
  maxsend = 0; failat = -1;
  CHECK((st == ActionCallStatus::Success) == !failed);
  usleep(30000);
  { std::lock_guard<std::mutex> l(rx.m); CHECK(rx.got.size() == (failed ? 0u : 1u)); }
  CHECK(fds() <= before);
  CHECK(tx.send(buf(p), Address(n, 7)) == ActionCallStatus::Success);
  CHECK(rx.wait(failed ? 1 : 2));
  std::lock_guard<std::mutex> l(rx.m);
  CHECK(rx.got.back() == p);
  return 0;
}
static int peer_gone() {      // the peer accepts, then closes at once: failure, not death
  auto n = uname_("pg");
  sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strncpy(a.sun_path + 1, n.data(), n.size());
  int ls = socket(AF_UNIX, SOCK_STREAM, 0);
  CHECK(!bind(ls, (sockaddr *)&a, sizeof a) && !listen(ls, 5));
  std::thread th([&] { for (int i = 0; i < 3; ++i) { int c = accept(ls, nullptr, nullptr); close(c); } });
  LocalIPCBufferSenderImpl tx;
  auto st = tx.send(buf(body(3000000, 1)), Address(n, 7));
  int c1 = raw(n), c2 = raw(n);
  th.join();
  close(c1); close(c2); close(ls);
  CHECK(st != ActionCallStatus::Success);
  return 0;
}
static int availability() {
  LocalIPCBufferSenderImpl tx;
  auto n1 = uname_("av1"), n2 = uname_("av2");
  CHECK(tx.checkReceiverStatus(Address(n1, 1)) != Availability::Available);
  CHECK(tx.send(buf("x"), Address(n1, 1)) == ActionCallStatus::ReceiverUnavailable);
  int before;
  {
    Rx a(n1); CHECK(a.ok);
    before = fds();
    for (int i = 0; i < 5; ++i) {
      CHECK(tx.checkReceiverStatus(Address(n1, 1)) == Availability::Available);
      CHECK(tx.checkReceiverStatus(Address(n2, 1)) != Availability::Available);
      CHECK(tx.checkReceiverStatus(Address(n1, 2)) == Availability::Available);
      CHECK(tx.checkReceiverStatus(Address(std::string(500, 'q'), 2)) != Availability::Available);
      CHECK(tx.checkReceiverStatus(Address()) != Availability::Available);
      CHECK(tx.checkReceiverStatus(Address(n1 + "x", 1)) != Availability::Available);
    }
    usleep(100000);
    CHECK(tx.send(buf("x"), Address(std::string(500, 'q'), 1)) != ActionCallStatus::Success);
    CHECK(tx.send(buf("x"), Address(n2, 1)) != ActionCallStatus::Success);
    CHECK(tx.send(buf("hello"), Address(n1, 1)) == ActionCallStatus::Success);
    CHECK(a.wait(1));
    usleep(50000);
    { std::lock_guard<std::mutex> l(a.m); CHECK(a.got.size() == 1); }
    CHECK(fds() <= before);
  }
  std::thread([&] { LocalIPCBufferSenderImpl t2; }).join();
  CHECK(tx.checkReceiverStatus(Address(n1, 1)) != Availability::Available);
  for (size_t l : {105, 106, 107}) {      // longest names
    std::string nm = std::string(l, 'L');
    auto pid = std::to_string(getpid()); nm.replace(0, pid.size(), pid);
    Rx r(nm);
    if (!r.ok) continue;
    CHECK(tx.checkReceiverStatus(Address(nm, 1)) == Availability::Available);
    CHECK(tx.send(buf("long"), Address(nm, 1)) == ActionCallStatus::Success);
    CHECK(r.wait(1));
  }
  return 0;
}
// clients that send pieces, stop in the middle, announce more than they send, or say nothing at all
static int rude_clients(int rchunk) {
  auto n = uname_("rude");
  Rx rx(n, rchunk); CHECK(rx.ok);
  size_t want = 0;
  auto hdr = [](uint32_t x) { return std::string((char *)&x, 4); };
  struct C { std::string bytes; size_t cut; };
  for (int round = 0; round < 3; ++round) {
    for (size_t sent : {0, 1, 3, 4, 5, 40, 99, 104}) {
      int fd = raw(n); CHECK(fd >= 0);
      auto all = hdr(100) + body(100, round);
      size_t pos = 0;
      while (pos < sent) { size_t k = pos < 4 ? (sent < 4 ? sent : 4) : (sent - pos > 30 ? 30 : sent - pos); rwrite(fd, all.data() + pos, k); pos += k; usleep(2000); }
      close(fd);
      if (sent == 104) ++want;
      LocalIPCBufferSenderImpl tx;
      CHECK(tx.send(buf(body(50, 9)), Address(n, 1)) == ActionCallStatus::Success);
      CHECK(rx.wait(++want));
      std::lock_guard<std::mutex> l(rx.m);
      CHECK(rx.got.size() == want);
      CHECK(rx.got.back() == body(50, 9));
      if (sent == 104) CHECK(rx.got[want - 2] == body(100, round));
    }
    // more than announced: only the announced bytes are the message
    int fd = raw(n); auto all = hdr(10) + body(30, 4); rwrite(fd, all.data(), all.size()); close(fd);
    CHECK(rx.wait(++want));
    std::lock_guard<std::mutex> l(rx.m);
    CHECK(rx.got.back() == body(10, 4).substr(0, 10));
  }
  return 0;
}
static int many_clients() {
  auto n = uname_("many");
  Rx rx(n); CHECK(rx.ok);
  std::vector<int> c;
  std::vector<std::thread> th;
  std::atomic<int> bad{0};
  // idle connections fill the table; they send only later
  for (int i = 0; i < 34; ++i) { int fd = raw(n); CHECK(fd >= 0); c.push_back(fd); usleep(3000); }
  usleep(300000);
  for (int i = 0; i < 34; ++i) { uint32_t x = 20; auto s = std::string((char *)&x, 4) + body(20, i); rwrite(c[i], s.data(), s.size()); close(c[i]); }
  CHECK(rx.wait(34, 6000));
  for (int i = 0; i < 8; ++i) th.emplace_back([&, i] { LocalIPCBufferSenderImpl tx; for (int k = 0; k < 20; ++k) if (tx.send(buf(body(100 + k * 50, i)), Address(n, 1)) != ActionCallStatus::Success) ++bad; });
  for (auto &t : th) t.join();
  CHECK(bad == 0);
  CHECK(rx.wait(34 + 160, 6000));
  usleep(20000);
  std::lock_guard<std::mutex> l(rx.m);
  CHECK(rx.got.size() == 34 + 160);
  std::multiset<std::string> a(rx.got.begin(), rx.got.end()), b;
  for (int i = 0; i < 34; ++i) b.insert(body(20, i));
  for (int i = 0; i < 8; ++i) for (int k = 0; k < 20; ++k) b.insert(body(100 + k * 50, i));
  CHECK(a == b);
  return 0;
}
static int restart() {
  auto n = uname_("re");
  LocalIPCBufferSenderImpl tx;
  int before = fds();
  for (int i = 0; i < 4; ++i) {
    Rx rx(n);
    CHECK(rx.ok);
    int idle = raw(n);
    CHECK(tx.send(buf(body(10, i)), Address(n, 1)) == ActionCallStatus::Success);
    CHECK(rx.wait(1));
    rx.stop();
    CHECK(!rx.r.running());
    CHECK(tx.checkReceiverStatus(Address(n, 1)) != Availability::Available);
    CHECK(tx.send(buf(body(10, i)), Address(n, 1)) != ActionCallStatus::Success);
    close(idle);
  }
  CHECK(fds() <= before);
  { LocalIPCBufferReceiverImpl r; CHECK(!r.init(Address(std::string(300, 'x'), 1))); CHECK(!r.start()); }
  { Rx a(n); CHECK(a.ok); LocalIPCBufferReceiverImpl b; CHECK(!b.init(Address(n, 1))); }
  return 0;
}
static int stop_under_load() {
  for (int round = 0; round < 150; ++round) {
    auto r = new LocalIPCBufferReceiverImpl; r->setObserver([](maf::srz::Buffer &&) {});
    auto n = uname_(("l" + std::to_string(round)).c_str());
    CHECK(r->init(Address(n, 5)));
    std::atomic<bool> done{false}, quit{false};
    std::thread t([&] { r->start(); done = true; });
    std::thread c[3];
    for (auto &x : c) x = std::thread([&] { LocalIPCBufferSenderImpl s; auto b = buf("x"); while (!quit) s.send(b, Address(n, 5)); });
    while (!r->running()) usleep(50);
    usleep(200 + round * 7 % 300);
    r->stop();
    for (int i = 0; i < 4000 && !done; ++i) usleep(500);
    if (!done) { fprintf(stderr, "a stopped receiver still runs\n"); _exit(1); }
    quit = true;
    for (auto &x : c) x.join();
    t.join();
    delete r;
  }
  // stopped before its thread runs
  LocalIPCBufferReceiverImpl r;
  CHECK(r.init(Address(uname_("early"), 5)));
  r.stop();
  std::atomic<bool> done{false};
  std::thread t([&] { r.start(); done = true; });
  for (int i = 0; i < 4000 && !done; ++i) usleep(500);
  if (!done) { fprintf(stderr, "a receiver stopped before it ran runs forever\n"); _exit(1); }
  t.join();
  return 0;
}
int main() {
  resolve();
  for (auto w : {0, 1, 3, 1000}) for (auto r : {0, 1, 7, 1000}) dvr::scenario(("messages of many sizes in pieces of " + std::to_string(w) + "/" + std::to_string(r)).c_str(), [=] { return roundtrip(w, r); }, 30000);
  for (int at = 0; at < 6; ++at) for (int chunk : {1, 100, 10000}) dvr::scenario(("send call " + std::to_string(at) + " fails").c_str(), [=] { return send_fails(at, chunk); });
  dvr::scenario("receiver vanishes while sending", peer_gone);
  dvr::scenario("availability of receivers", availability, 20000);
  for (int r : {0, 1, 7}) dvr::scenario("clients that stop in the middle", [=] { return rude_clients(r); }, 20000);
  dvr::scenario("more connections than the receiver keeps", many_clients, 25000);
  dvr::scenario("receiver stopped and started again", restart, 20000);
  dvr::scenario("receiver stopped while messages arrive", stop_under_load, 60000);
  return SCHED_MAIN_RESULT();
}
