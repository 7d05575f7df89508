// real-code runs for servers and clients: a fake transport, job thread and timer drive them against a reference model
#include <maf/messaging/Timer.h>
#include <algorithm>
#include <deque>
#include <map>
#include <optional>
#include <set>
#include "maf/messaging/client-server/SingleThreadPool.h"
// the classes that are private to their files
#include "maf/messaging/client-server/ipc/LocalIPCClient.cpp"
#include "maf/messaging/client-server/ipc/LocalIPCServer.cpp"
#include "maf/messaging/client-server/ServiceProvider.h"
#include "maf/messaging/client-server/Request.h"
#include "maf/messaging/client-server/itc/Client.h"
#include "maf/messaging/client-server/itc/Server.h"
#include "dvrun.h"
using namespace maf::messaging;
using namespace maf::messaging::ipc;
using namespace maf::messaging::ipc::local;
// job thread and timers
static std::deque<std::function<void()>> jobs;
static std::set<Timer *> timers;
static std::map<Timer *, std::function<void()>> armed;
bool maf::messaging::single_threadpool::submit(TaskType t) { jobs.push_back(std::move(t)); return true; }
namespace maf::messaging {
struct TimerData {};
Timer::Timer(bool) {}
Timer::~Timer() { armed.erase(this); }
void Timer::start(long long, TimeOutCallback f) { armed[this] = std::move(f); }
void Timer::stop() { armed.erase(this); }
}
static void pump() { for (int i = 0; i < 10000 && !jobs.empty(); ++i) { auto j = std::move(jobs.front()); jobs.pop_front(); j(); } }
// network
struct FakeReceiver;
static std::map<Address, FakeReceiver *> net;
static std::map<Address, std::deque<ActionCallStatus>> script;
struct FakeReceiver : BufferReceiverIF {
  Address a; BytesComeObserver *o = nullptr;
  ~FakeReceiver() override { net.erase(a); }
  bool init(const Address &x) override { a = x; net[a] = this; return true; }
  bool start() override { return true; }
  void stop() override { net.erase(a); }
  void deinit() override {}
  bool running() const override { return true; }
  const Address &address() const override { return a; }
  void setObserver(BytesComeObserver *x) override { o = x; }
};
struct FakeSender : BufferSenderIF {
  ActionCallStatus send(const maf::srz::Buffer &b, const Address &to) override {
    if (auto &q = script[to]; !q.empty()) { auto r = q.front(); q.pop_front(); if (r != ActionCallStatus::Success) return r; }
    auto it = net.find(to);
    if (it == net.end()) return ActionCallStatus::ReceiverUnavailable;
    it->second->o->onBytesCome(maf::srz::Buffer{b});
    return ActionCallStatus::Success;
  }
  Availability checkReceiverStatus(const Address &to) const override { return net.count(to) ? Availability::Available : Availability::Unavailable; }
};
struct Obs : ServiceStatusObserverIF {
  std::vector<Availability> told;
  std::function<void()> f;
  void onServiceStatusChanged(const ServiceID &, Availability, Availability b) override { told.push_back(b); if (f) f(); }
};
struct Pay : CSMsgPayloadIF {
  CSPayloadType type() const override { return CSPayloadType::OutgoingData; }
  bool equal(const CSMsgPayloadIF *o) const override { return true; }
  CSMsgPayloadIF *clone() const override { return new Pay; }
  void dump(std::ostream &) const override {}
};
static std::shared_ptr<LocalIPCServer> mkserver(const Address &a) {
  auto s = std::make_shared<LocalIPCServer>();
  s->pSender_.reset(new FakeSender);
  s->pReceiver_.reset(new FakeReceiver);
  if (!s->init(a) || !s->start()) abort();
  return s;
}
static std::shared_ptr<LocalIPCClient> mkclient(const Address &a, int i) {
  auto s = std::make_shared<LocalIPCClient>();
  s->pSender_.reset(new FakeSender);
  s->pReceiver_.reset(new FakeReceiver);
  if (!s->init(a)) abort();
  auto r = static_cast<FakeReceiver *>(s->pReceiver_.get());
  net.erase(r->a);
  r->init(Address{"cl" + std::to_string(i), (unsigned short)i});   // one process: tell the clients apart
  s->start();
  return s;
}
template <class T> static T val(std::optional<T> o) { return *o; }
// availability of services, over a connection between processes
static int ipc_history(unsigned seed) {
  srand(seed);
  net.clear(); jobs.clear(); armed.clear(); script.clear();
  Address a{"srv", 1};
  auto sv = mkserver(a);
  const int N = 3, M = 3;
  std::shared_ptr<LocalIPCClient> cl[N];
  std::shared_ptr<Obs> obs[N][M];
  std::vector<Availability> want[N][M];
  std::map<int, bool> known[N];           // what the client has been told
  bool reg[N] = {}, up[N] = {};            // registered at the server; the client knows its server
  bool avail[M] = {};
  bool there = true;
  std::string names[M] = {"s0", "s1", "s2"};
  auto tick = [&](int c) {
    pump();
    auto it = armed.find(&cl[c]->serverMonitorTimer_);
    if (it == armed.end()) return false;
    auto f = it->second; f(); pump();
    return true;
  };
  for (int step = 0; step < 60; ++step) {
    int c = rand() % N, s = rand() % M;
    switch (rand() % 8) {
      case 0:
        if (!cl[c]) { cl[c] = mkclient(a, c + 10); pump(); up[c] = false; reg[c] = false; known[c].clear(); for (auto &w : want[c]) w.clear(); for (auto &o : obs[c]) o.reset(); }
        [[fallthrough]];
      case 1: {
        if (!cl[c]) break;
        bool was = cl[c]->currentServerStatus_ == Availability::Available;
        if (!was && there) reg[c] = false;
        CHECK(tick(c));
        // what must be known now
        for (int k = 0; k < M; ++k) CHECK(cl[c]->getServiceStatus(names[k]) == (avail[k] && there ? Availability::Available : Availability::Unavailable));
        CHECK(cl[c]->currentServerStatus_ == (there ? Availability::Available : Availability::Unavailable));
        CHECK(there ? sv->registedClAddrs_->count(cl[c]->pReceiver_->address()) == 1 : true);
        break;
      }
      case 2: if (!avail[s]) { sv->getServiceProvider(names[s])->startServing(); avail[s] = true; pump(); goto check; } break;
      case 3: if (avail[s]) { sv->getServiceProvider(names[s])->stopServing(); avail[s] = false; pump(); goto check; } break;
      case 4:
        if (cl[c] && cl[c]->currentServerStatus_ == Availability::Available) {
          obs[c][s] = std::make_shared<Obs>();
          auto o = obs[c][s].get();
          auto p = cl[c].get();
          o->f = [p, n = names[(s + 1) % M]] { p->getServiceRequester(n); p->hasServiceRequester(n); p->getServiceStatus(n); };
          auto rq = cl[c]->getServiceRequester(names[s]);
          CHECK(rq == cl[c]->getServiceRequester(names[s]));
          CHECK(rq->serviceID() == names[s]);
          CHECK(rq->serviceStatus() == (avail[s] && there ? Availability::Available : rq->serviceStatus() == Availability::Available ? Availability::Unknown : rq->serviceStatus()));
          rq->registerServiceStatusObserver(obs[c][s]);
        }
        break;
      case 5: if (cl[c] && rand() % 3 == 0) { cl[c]->stop(); cl[c]->deinit(); pump(); cl[c].reset(); for (auto &o : obs[c]) o.reset(); } break;
      case 6: {  // a client cannot be reached any more
        if (!cl[c]) break;
        auto ad = cl[c]->pReceiver_->address();
        if (!sv->registedClAddrs_->count(ad)) break;
        script[ad].push_back(rand() % 2 ? ActionCallStatus::ReceiverUnavailable : ActionCallStatus::FailedUnknown);
        std::set<Address> left;
        for (auto &x : *sv->registedClAddrs_) if (x != ad && net.count(x)) left.insert(x);
        auto p = sv->getServiceProvider(names[s]);
        if (avail[s]) p->stopServing(); else p->startServing();
        avail[s] = !avail[s];
        pump();
        CHECK(*sv->registedClAddrs_ == left);
        // it finds out when the server has gone and come back
        cl[c]->onServerStatusChanged(Availability::Available, Availability::Unavailable); CHECK(cl[c]->getServiceStatus(names[s]) == Availability::Unavailable);
        CHECK(tick(c));
        break;
      }
      case 7: {  // a client is busy: it stays registered and misses one change
        if (!cl[c]) break;
        auto ad = cl[c]->pReceiver_->address();
        if (!sv->registedClAddrs_->count(ad)) break;
        script[ad].push_back(ActionCallStatus::ReceiverBusy);
        auto p = sv->getServiceProvider(names[s]);
        if (avail[s]) p->stopServing(); else p->startServing();
        avail[s] = !avail[s];
        pump();
        CHECK(sv->registedClAddrs_->count(ad));
        script[ad].clear();
        if (avail[s]) p->stopServing(); else p->startServing();
        avail[s] = !avail[s];
        pump();
        break;
      }
    }
    continue;
  check:
    for (int k = 0; k < N; ++k)
      if (cl[k] && cl[k]->currentServerStatus_ == Availability::Available) {
        CHECK(cl[k]->getServiceStatus(names[s]) == (avail[s] ? Availability::Available : Availability::Unavailable));
        if (obs[k][s]) { CHECK(!obs[k][s]->told.empty()); CHECK(obs[k][s]->told.back() == (avail[s] ? Availability::Available : Availability::Unavailable)); CHECK(cl[k]->getServiceRequester(names[s])->serviceStatus() == obs[k][s]->told.back()); }
      }
  }
  for (auto &x : cl) if (x) { x->stop(); x->deinit(); x.reset(); }
  sv->stop(); sv->deinit();
  return 0;
}
// each change is announced once
static int once() {
  net.clear(); jobs.clear(); armed.clear(); script.clear();
  Address a{"srv", 1};
  auto sv = mkserver(a);
  auto c = mkclient(a, 10);
  pump();
  auto o = std::make_shared<Obs>();
  auto rq = c->getServiceRequester("s");
  rq->registerServiceStatusObserver(o);
  size_t n0 = o->told.size();
  auto p = sv->getServiceProvider("s");
  p->startServing(); pump();
  CHECK(o->told.size() == n0 + 1); CHECK(o->told.back() == Availability::Available);
  p->startServing(); pump();
  CHECK(o->told.size() == n0 + 1);
  p->stopServing(); pump();
  CHECK(o->told.size() == n0 + 2); CHECK(o->told.back() == Availability::Unavailable);
  p->startServing(); pump();
  // the server goes
  net.erase(a);
  for (int i = 0; i < 3; ++i) { auto f = armed[&c->serverMonitorTimer_]; CHECK(f); f(); pump(); }
  CHECK(o->told.size() == n0 + 4); CHECK(o->told.back() != Availability::Available);
  CHECK(c->getServiceStatus("s") == Availability::Unavailable);
  // and comes back
  net[a] = static_cast<FakeReceiver *>(sv->pReceiver_.get());
  for (int i = 0; i < 3; ++i) { auto f = armed[&c->serverMonitorTimer_]; CHECK(f); f(); pump(); }
  CHECK(o->told.size() == n0 + 5); CHECK(o->told.back() == Availability::Available);
  CHECK(c->getServiceStatus("s") == Availability::Available);
  // a server that does not take the registration is asked again
  net.erase(a);
  { auto f = armed[&c->serverMonitorTimer_]; f(); pump(); }
  net[a] = static_cast<FakeReceiver *>(sv->pReceiver_.get());
  sv->registedClAddrs_->clear();
  script[a].push_back(ActionCallStatus::ReceiverBusy);
  for (int i = 0; i < 3; ++i) { auto f = armed[&c->serverMonitorTimer_]; f(); pump(); }
  CHECK(sv->registedClAddrs_->size() == 1); CHECK(c->getServiceStatus("s") == Availability::Available);
  // a message that is passed on comes from the client that passes it on
  auto m = createCSMessage<LocalIPCMessage>("", "", OpCode::RegisterServiceStatus);
  m->setSourceAddress(Address{"elsewhere", 5});
  sv->registedClAddrs_->clear();
  CHECK(c->sendMessageToServer(m) == ActionCallStatus::Success); pump();
  CHECK(sv->registedClAddrs_->count(c->pReceiver_->address()) == 1 && sv->registedClAddrs_->size() == 1);
  // signing off from one service keeps the others
  c->sendMessageToServer(createCSMessage<LocalIPCMessage>("s", "", OpCode::UnregisterServiceStatus)); pump();
  CHECK(sv->registedClAddrs_->size() == 1);
  c->sendMessageToServer(createCSMessage<LocalIPCMessage>("", "", OpCode::UnregisterServiceStatus)); pump();
  CHECK(sv->registedClAddrs_->empty());
  c->stop(); c->deinit();
  sv->stop(); sv->deinit();
  return 0;
}
// jobs that are left when a client or a server goes
static int lifetime() {
  for (int k = 0; k < 4; ++k) {
    net.clear(); jobs.clear(); armed.clear(); script.clear();
    Address a{"srv", 1};
    auto sv = mkserver(a);
    auto c = mkclient(a, 10);
    if (k) pump();
    auto m = createCSMessage<LocalIPCMessage>("s", OpID_ServiceAvailable, OpCode::ServiceStatusUpdate);
    if (k == 1) sv->sendMessageToClient(m, c->pReceiver_->address());
    if (k == 2) c->sendMessageToServer(m);
    std::function<void()> f;
    if (k == 3) f = armed[&c->serverMonitorTimer_];
    sv->stop(); sv->deinit();
    sv.reset();
    c->stop();
    c.reset();
    if (f) f();
    pump();
  }
  // nonsense is ignored
  net.clear(); jobs.clear();
  auto sv = mkserver({"srv", 1});
  static_cast<BytesComeObserver *>(sv.get())->onBytesCome("nonsense");
  static_cast<BytesComeObserver *>(sv.get())->onBytesCome("");
  pump();
  CHECK(sv->registedClAddrs_->empty());
  sv->stop();
  return 0;
}
// dispatch and tables of servers and clients as such
struct Sv : ServerBase {
  std::vector<std::tuple<ServiceID, Availability, Availability>> notes;
  std::function<void()> f;
  bool start() override { return true; }
  void stop() override {}
  ActionCallStatus sendMessageToClient(const CSMessagePtr &, const Address &) override { return ActionCallStatus::Success; }
  void notifyServiceStatusToClient(const ServiceID &s, Availability a, Availability b) override { notes.emplace_back(s, a, b); if (f) f(); }
};
struct Cl : ClientBase {
  std::vector<CSMessagePtr> sent;
  bool start() override { return true; }
  void stop() override {}
  ActionCallStatus sendMessageToServer(const CSMessagePtr &m) override { sent.push_back(m); return ActionCallStatus::Success; }
};
static int server_tables() {
  auto sv = std::make_shared<Sv>();
  std::map<std::string, ServiceProviderIFPtr> ps;
  std::map<std::string, int> got;
  for (auto n : {"a", "b", "c"}) {
    CHECK(!sv->hasServiceProvider(n));
    auto p = ps[n] = sv->getServiceProvider(n);
    CHECK(p && p->serviceID() == n && sv->hasServiceProvider(n) && sv->getServiceProvider(n) == p);
    p->registerRequestHandler("op", [&got, n](auto) { ++got[n]; });
    p->startServing();
  }
  CHECK(sv->notes.size() == 3);
  sv->f = [&] { sv->getServiceProvider("d"); sv->hasServiceProvider("a"); };
  ps["a"]->stopServing(); ps["a"]->startServing();
  sv->f = {};
  CHECK(sv->notes.size() == 5);
  sv->onServiceStatusChanged("z", Availability::Unavailable, Availability::Available);
  sv->onServiceStatusChanged("a", Availability::Available, Availability::Available);
  CHECK(sv->notes.size() == 5);
  for (auto n : {"a", "b", "c", "x"}) {
    auto m = std::make_shared<CSMessage>(n, "op", OpCode::Request, RequestID(1));
    m->setSourceAddress(Address{"c", 1});
    CHECK(sv->onIncomingMessage(m) == (ps.count(n) != 0));
    for (auto &[k, p] : ps) CHECK(got[k] == (k <= std::string(n) ? 1 : 0));
  }
  sv->deinit();
  CHECK(!sv->hasServiceProvider("a"));
  CHECK(ps["a"]->availability() != Availability::Available);
  return 0;
}
static int client_tables() {
  auto cl = std::make_shared<Cl>();
  std::map<std::string, ServiceRequesterIFPtr> ps;
  std::map<std::string, std::shared_ptr<Obs>> os;
  cl->onServiceStatusChanged("b", Availability::Unavailable, Availability::Available);
  for (std::string n : {"a", "b", "c"}) {
    CHECK(!cl->hasServiceRequester(n));
    auto p = ps[n] = cl->getServiceRequester(n);
    CHECK(p && p->serviceID() == n && cl->hasServiceRequester(n) && cl->getServiceRequester(n) == p);
    CHECK((p->serviceStatus() == Availability::Available) == (n == "b"));
    os[n] = std::make_shared<Obs>();
    os[n]->f = [&] { cl->getServiceRequester("q"); cl->getServiceStatus("a"); };
    p->registerServiceStatusObserver(os[n]);
    os[n]->told.clear();
  }
  auto upd = [&](std::string n, std::string op) { return cl->onIncomingMessage(std::make_shared<CSMessage>(n, op, OpCode::ServiceStatusUpdate, RequestID(1))); };
  CHECK(upd("a", OpID_ServiceAvailable));
  CHECK(os["a"]->told.size() == 1 && os["b"]->told.empty() && os["c"]->told.empty());
  CHECK(cl->getServiceStatus("a") == Availability::Available && cl->getServiceStatus("c") == Availability::Unavailable);
  CHECK(upd("a", "something"));
  CHECK(os["a"]->told.size() == 1);
  CHECK(upd("a", OpID_ServiceUnavailable));
  CHECK(os["a"]->told.size() == 2 && cl->getServiceStatus("a") == Availability::Unavailable);
  CHECK(upd("c", OpID_ServiceAvailable));
  cl->onServerStatusChanged(Availability::Available, Availability::Unavailable);
  for (auto n : {"b", "c"}) { CHECK(os[n]->told.back() == Availability::Unavailable); CHECK(cl->getServiceStatus(n) == Availability::Unavailable); }
  CHECK(!cl->onIncomingMessage(std::make_shared<CSMessage>("zz", "op", OpCode::SignalRegister, RequestID(1))));
  cl->onServiceStatusChanged("k", Availability::Unavailable, Availability::Available);
  cl->sent.clear();
  cl->deinit();
  CHECK(!cl->hasServiceRequester("a")); CHECK(cl->getServiceStatus("k") == Availability::Unavailable);
  int n = 0;
  for (auto &m : cl->sent) if (m->operationCode() == OpCode::UnregisterServiceStatus && m->serviceID() == "k") ++n;
  CHECK(n == 1);
  return 0;
}
static int racing(int k, bool server) {
  auto sv = std::make_shared<Sv>();
  auto cl = std::make_shared<Cl>();
  void *a = nullptr, *b = nullptr;
  auto get = [&]() -> void * { return server ? (void *)sv->getServiceProvider("s").get() : (void *)cl->getServiceRequester("s").get(); };
  bool r = dvr::interleave(k, [&] { a = get(); }, [&] { b = get(); });
  CHECK(a && a == b);
  return r ? 0 : 77;
}
// a requester that is made while the status of its service changes
static int late(int k, int what) {
  auto cl = std::make_shared<Cl>();
  if (what) cl->onServiceStatusChanged("s", Availability::Unavailable, Availability::Available);
  ServiceRequesterIFPtr q;
  auto make = [&] { q = cl->getServiceRequester("s"); };
  auto change = [&] { if (what) cl->onServerStatusChanged(Availability::Available, Availability::Unavailable); else cl->onServiceStatusChanged("s", Availability::Unavailable, Availability::Available); };
  bool r = what < 2 ? dvr::interleave(k, make, change) : dvr::interleave(k, change, make);
  CHECK(q);
  CHECK((q->serviceStatus() == Availability::Available) == (what == 0));
  return r ? 0 : 77;
}
static int inprocess() {
  auto c = itc::makeClient();
  auto s = itc::makeServer();
  CHECK(c == itc::makeClient() && s == itc::makeServer());
  auto p = s->getServiceProvider("s");
  auto o = std::make_shared<Obs>();
  auto q = c->getServiceRequester("s");
  q->registerServiceStatusObserver(o);
  o->told.clear();
  o->f = [&] { c->getServiceRequester("other"); };
  int got = 0, answers = 0;
  p->registerRequestHandler("op", [&](std::shared_ptr<RequestIF> r) { ++got; r->respond(std::make_shared<Pay>()); });
  p->startServing();
  CHECK(o->told.size() == 1 && o->told[0] == Availability::Available && c->getServiceStatus("s") == Availability::Available);
  ActionCallStatus st;
  q->sendRequestAsync("op", std::make_shared<Pay>(), [&](const CSPayloadIFPtr &) { ++answers; }, &st);
  CHECK(st == ActionCallStatus::Success && got == 1 && answers == 1);
  p->stopServing();
  CHECK(o->told.size() == 2 && c->getServiceStatus("s") == Availability::Unavailable);
  auto m = std::make_shared<CSMessage>("nosuch", "op", OpCode::Request, RequestID(1));
  CHECK(c->sendMessageToServer(m) == ActionCallStatus::ReceiverUnavailable);
  CHECK(s->sendMessageToClient(m, {}) == ActionCallStatus::ReceiverUnavailable);
  return 0;
}
int main() {
  dvr::scenario("services of a server", server_tables);
  dvr::scenario("services of a client", client_tables);
  dvr::scenario("each change once", once);
  dvr::scenario("jobs that outlive", lifetime);
  for (unsigned i = 0; i < 20; ++i) dvr::scenario("availability between processes", [i] { for (unsigned j = 0; j < 20; ++j) if (int r = ipc_history(i * 20 + j)) { fprintf(stderr, "seed %u\n", i * 20 + j); return r; } return 0; });
  dvr::two_threads("two ask for one service", [](int k) { return racing(k, true); });
  dvr::two_threads("two ask for one service (client)", [](int k) { return racing(k, false); });
  for (int w = 0; w < 3; ++w) dvr::two_threads("a requester made while its service changes", [w](int k) { return late(k, w); });
  dvr::scenario("server and client in one process", inprocess);
  return SCHED_MAIN_RESULT();
}
