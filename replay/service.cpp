// real-code runs for services: a provider with a recording server, a requester with a recording client, against a reference model
#include <maf/messaging/client-server/CSError.h>
#include <maf/messaging/client-server/ClientIF.h>
#include <maf/messaging/client-server/Exceptions.h>
#include <maf/messaging/client-server/ServerIF.h>
#include <deque>
#include <map>
#include <set>
#include "maf/messaging/client-server/Request.h"
#include "maf/messaging/client-server/ServiceProvider.h"
#include "maf/messaging/client-server/ServiceRequester.h"
#include "dvrun.h"
using namespace maf::messaging;
struct Val : CSMsgPayloadIF {
  int v;
  Val(int v) : v(v) {}
  CSPayloadType type() const override { return CSPayloadType::OutgoingData; }
  bool equal(const CSMsgPayloadIF *o) const override { return o && static_cast<const Val *>(o)->v == v; }
  CSMsgPayloadIF *clone() const override { return new Val(v); }
  void dump(std::ostream &) const override {}
};
static CSPayloadIFPtr val(int v) { return std::make_shared<Val>(v); }
static int get(const CSPayloadIFPtr &p) { return !p ? -1 : p->type() == CSPayloadType::Error ? -2 : static_cast<Val *>(p.get())->v; }
struct Rec { std::string op; OpCode code; RequestID id; int v; Address to; bool operator==(const Rec &o) const { return op == o.op && code == o.code && id == o.id && v == o.v && to == o.to; } };
struct Sv : ServerIF {
  std::vector<Rec> sent;
  std::map<Address, std::deque<ActionCallStatus>> results;
  std::vector<std::pair<Availability, Availability>> told;
  bool onIncomingMessage(const CSMessagePtr &) override { return true; }
  void onServiceStatusChanged(const ServiceID &, Availability a, Availability b) override { told.push_back({a, b}); }
  ActionCallStatus sendMessageToClient(const CSMessagePtr &m, const Address &a) override {
    ActionCallStatus r = ActionCallStatus::Success;
    if (auto &q = results[a]; !q.empty()) r = q.front(), q.pop_front();
    if (r == ActionCallStatus::Success) sent.push_back({m->operationID(), m->operationCode(), m->requestID(), get(m->payload()), a});
    return r;
  }
  ServiceProviderIFPtr getServiceProvider(const ServiceID &) override { return {}; }
  bool hasServiceProvider(const ServiceID &) override { return false; }
  bool init(const Address &) override { return true; }
  bool start() override { return true; }
  void stop() override {}
  void deinit() override {}
};
struct Cl : ClientIF {
  std::vector<Rec> sent;
  ActionCallStatus result = ActionCallStatus::Success;
  std::function<void(const CSMessagePtr &)> on_send;
  bool onIncomingMessage(const CSMessagePtr &) override { return true; }
  void onServiceStatusChanged(const ServiceID &, Availability, Availability) override {}
  void onServerStatusChanged(Availability, Availability) noexcept override {}
  ActionCallStatus sendMessageToServer(const CSMessagePtr &m) override { sent.push_back({m->operationID(), m->operationCode(), m->requestID(), get(m->payload()), Address{}}); auto r = result; if (on_send && r == ActionCallStatus::Success) on_send(m); return r; }
  bool hasServiceRequester(const ServiceID &) override { return false; }
  ServiceRequesterIFPtr getServiceRequester(const ServiceID &) override { return {}; }
  Availability getServiceStatus(const ServiceID &) override { return Availability::Available; }
  bool init(const Address &) override { return true; }
  bool start() override { return true; }
  void stop() override {}
  void deinit() override {}
};
static CSMessagePtr msg(std::string op, OpCode c, RequestID id, Address from, CSPayloadIFPtr p = {}, ServiceID s = "svc") {
  auto m = std::make_shared<CSMessage>(s, op, c, id, p, from);
  return m;
}
static const Address C[3] = {{"c", 1}, {"c", 2}, {"d", 1}};
static const char *OPS[] = {"a", "b", "c"};
// statuses, signals, registrations
static int statuses(unsigned seed) {
  srand(seed);
  auto sv = std::make_shared<Sv>();
  auto p = std::make_shared<ServiceProvider>("svc", sv);
  std::map<std::string, int> prop;
  std::map<Address, std::set<std::string>> regs;
  std::map<std::string, std::pair<int, int>> local;      // calls, last value
  std::vector<maf::signal_slots::Connection> cons;
  std::map<std::string, int> nlocal;
  for (int i = 0; i < 60; ++i) {
    std::string op = OPS[rand() % 3];
    auto &c = C[rand() % 3];
    sv->sent.clear();
    for (auto &a : C) sv->results[a].clear();
    for (auto &[k, l] : local) l = {0, -9};
    auto bc = [&](OpCode code, int v, ActionCallStatus got, auto f) -> int {
      std::vector<Rec> want;
      std::set<Address> gone;
      bool any = false, ok = false;
      for (auto &[a, s] : regs) if (s.count(op)) {
        any = true;
        auto &q = f[a];
        int busy = 0;
        while (busy < (int)q.size() && q[busy] == ActionCallStatus::ReceiverBusy) ++busy;
        if (busy >= 2) continue;
        if (busy < (int)q.size() && q[busy] != ActionCallStatus::Success) gone.insert(a); else { ok = true; want.push_back({op, code, RequestIDInvalid, v, a}); }
      }
      for (auto &a : gone) regs.erase(a);
      CHECK(got == (ok || !any ? ActionCallStatus::Success : ActionCallStatus::ReceiverUnavailable));
      CHECK(sv->sent.size() == want.size());
      for (auto &w : want) CHECK(std::count(sv->sent.begin(), sv->sent.end(), w) == 1);
      if (nlocal[op]) { CHECK(local[op].first == nlocal[op]); CHECK(local[op].second == v); }
      for (auto &[k, l] : local) if (k != op) CHECK(l.first == 0);
      return 0;
    };
    auto faults = [&] {
      std::map<Address, std::deque<ActionCallStatus>> f;
      for (auto &a : C) { f[a]; if (rand() % 4 == 0) for (int k = rand() % 3; k >= 0; --k) f[a].push_back(rand() % 3 ? ActionCallStatus::ReceiverBusy : ActionCallStatus::ReceiverUnavailable); }
      sv->results = f;
      return f;
    };
    switch (rand() % 9) {
      case 0: case 1: {
        int v = rand() % 3;
        auto f = faults();
        auto r = p->setStatus(op, val(v));
        if (prop.count(op) && prop[op] == v) { CHECK(r == ActionCallStatus::NoAction); CHECK(sv->sent.empty()); for (auto &[k, l] : local) CHECK(l.first == 0); }
        else { prop[op] = v; if (int e = bc(OpCode::StatusRegister, v, r, f)) return e; }
        break;
      }
      case 2: { auto f = faults(); auto r = p->broadcastSignal(op, val(7)); if (int e = bc(OpCode::SignalRegister, 7, r, f)) return e; break; }
      case 3: {
        CHECK(p->onIncomingMessage(msg(op, OpCode::StatusRegister, 5, c)));
        regs[c].insert(op);
        if (prop.count(op)) { CHECK(sv->sent.size() == 1); CHECK((sv->sent[0] == Rec{op, OpCode::StatusRegister, 5, prop[op], c})); } else CHECK(sv->sent.empty());
        break;
      }
      case 4: CHECK(p->onIncomingMessage(msg(op, OpCode::SignalRegister, 5, c))); regs[c].insert(op); CHECK(sv->sent.empty() || prop.count(op)); break;
      case 5: CHECK(p->onIncomingMessage(msg(op, OpCode::Unregister, 5, c))); regs[c].erase(op); CHECK(sv->sent.empty()); break;
      case 6: if (rand() % 3 == 0) { CHECK(p->onIncomingMessage(msg("", OpCode::UnregisterServiceStatus, 5, c))); regs.erase(c); } break;
      case 7: {
        if (rand() % 4) { CHECK(get(p->getStatus(op)) == (prop.count(op) ? prop[op] : -1)); CHECK(p->onIncomingMessage(msg(op, OpCode::StatusGet, 9, c))); CHECK(sv->sent.size() == 1); CHECK((sv->sent[0] == Rec{op, OpCode::StatusGet, 9, prop.count(op) ? prop[op] : -1, c})); break; }
        bool n = rand() % 2;
        auto f = faults();
        auto r = p->removeProperty(op, n);
        prop.erase(op);
        if (n) { if (int e = bc(OpCode::StatusRegister, -1, r, f)) return e; } else { CHECK(r == ActionCallStatus::Success); CHECK(sv->sent.empty()); }
        break;
      }
      case 8: if (nlocal[op] < 2) { ++nlocal[op]; cons.push_back(p->registerNotification(op, [&local, op](const CSPayloadIFPtr &x) { local[op].first++; local[op].second = get(x); })); } break;
    }
  }
  return 0;
}
static int serving() {
  auto sv = std::make_shared<Sv>();
  auto p = std::make_shared<ServiceProvider>("svc", sv);
  CHECK(p->availability() == Availability::Unavailable);
  p->startServing();
  CHECK(p->availability() == Availability::Available); CHECK(sv->told.size() == 1); CHECK(sv->told[0].second == Availability::Available);
  p->stopServing();
  CHECK(p->availability() == Availability::Unavailable); CHECK(sv->told.size() == 2); CHECK(sv->told[1].second == Availability::Unavailable);
  return 0;
}
// requests at the service
static int requests(unsigned seed) {
  srand(seed);
  struct R { std::shared_ptr<RequestIF> r; std::string op; Address c; RequestID id; bool over; int aborts; bool cb; int in; };
  std::deque<R> rs;
  auto sv = std::make_shared<Sv>();
  auto p = std::make_shared<ServiceProvider>("svc", sv);
  std::shared_ptr<RequestIF> last;
  std::set<std::string> handled;
  for (int i = 0; i < 60; ++i) {
    std::string op = OPS[rand() % 3];
    auto &c = C[rand() % 3];
    sv->sent.clear();
    last.reset();
    R *q = rs.empty() ? nullptr : &rs[rand() % rs.size()];
    switch (rand() % 8) {
      case 0: { bool r = p->registerRequestHandler(op, [&](const std::shared_ptr<RequestIF> &r) { last = r; }); CHECK(r == !handled.count(op)); handled.insert(op); break; }
      case 1: if (rand() % 4 == 0) { CHECK(p->unregisterRequestHandler(op) == (handled.erase(op) != 0)); } break;
      case 2: case 3: {
        RequestID id = rand() % 6;
        bool used = false;
        for (auto &r : rs) if (!r.over && r.op == op && r.c == c && r.id == id) used = true;
        if (used) break;
        CHECK(p->onIncomingMessage(msg(op, OpCode::Request, id, c, val(i))));
        if (handled.count(op)) {
          CHECK(last); CHECK(sv->sent.empty()); CHECK(last->valid()); CHECK(get(last->getInput()) == i);
          rs.push_back({last, op, c, id, false, 0, false, i});
          if (rand() % 2) { auto *x = &rs.back(); x->cb = true; last->onAborted([x] { ++x->aborts; }); }
        } else { CHECK(!last); CHECK(sv->sent.size() == 1); CHECK((sv->sent[0] == Rec{op, OpCode::Request, id, -2, c})); }
        break;
      }
      case 4: if (q) { auto r = q->r->respond(val(100 + i)); if (q->over) { CHECK(sv->sent.empty()); CHECK(r != ActionCallStatus::Success); } else { q->over = true; CHECK(r == ActionCallStatus::Success); CHECK(sv->sent.size() == 1); CHECK((sv->sent[0] == Rec{q->op, OpCode::Request, q->id, 100 + i, q->c})); } CHECK(!q->r->valid()); } break;
      case 5: if (q) { auto r = q->r->update(val(100 + i)); if (q->over) { CHECK(sv->sent.empty()); CHECK(r != ActionCallStatus::Success); } else { CHECK(r == ActionCallStatus::Success); CHECK(sv->sent.size() == 1); CHECK((sv->sent[0] == Rec{q->op, OpCode::PartialRequestUpdate, q->id, 100 + i, q->c})); CHECK(q->r->valid()); } } break;
      case 6: if (q) { int a = q->aborts; p->onIncomingMessage(msg(q->op, OpCode::Abort, q->id, q->c)); CHECK(sv->sent.empty());
          if (!q->over) { CHECK(!q->r->valid()); CHECK(q->aborts == a + (q->cb ? 1 : 0)); q->over = true; }
          else { bool other = false; for (auto &r : rs) if (!r.over && r.op == q->op && r.c == q->c && r.id == q->id) { other = true; r.over = true; } CHECK(q->aborts == a); (void)other; } } break;
      case 7: if (rand() % 12 == 0) { std::vector<int> a; for (auto &r : rs) a.push_back(r.aborts); p->deinit(); for (size_t k = 0; k < rs.size(); ++k) { CHECK(rs[k].aborts == a[k] + (!rs[k].over && rs[k].cb)); rs[k].over = true; CHECK(!rs[k].r->valid()); } } break;
    }
    for (auto &r : rs) CHECK(r.r->valid() == !r.over);
  }
  return 0;
}
// the client
static int client(unsigned seed) {
  srand(seed);
  auto cl = std::make_shared<Cl>();
  auto p = std::make_shared<ServiceRequester>("svc", cl);
  bool av = false;
  struct E { RegID id; std::string op; bool on; int calls, last; bool status; };
  std::deque<E> regs, reqs;
  std::map<std::string, int> cache;
  auto subs = [&](std::string op) { int n = 0; for (auto &r : regs) n += r.on && r.op == op; return n; };
  for (int i = 0; i < 80; ++i) {
    std::string op = OPS[rand() % 3];
    bool isstatus = op != "c";
    cl->sent.clear();
    cl->result = rand() % 5 ? ActionCallStatus::Success : ActionCallStatus::ReceiverBusy;
    bool ok = cl->result == ActionCallStatus::Success;
    for (auto *l : {&regs, &reqs}) for (auto &e : *l) e.calls = 0;
    auto st = ActionCallStatus::FailedUnknown;
    auto check = [&](std::deque<E> &l, const std::function<int(E &)> &want, int v) -> int { for (auto &e : l) { CHECK(e.calls == want(e)); if (e.calls) CHECK(e.last == v); } return 0; };
    switch (rand() % 9) {
      case 0: {
        bool was = av;
        auto n = rand() % 4 ? Availability::Available : Availability::Unavailable;
        p->onServiceStatusChanged("other", Availability::Available, Availability::Unavailable);
        CHECK((p->serviceStatus() == Availability::Available) == was);
        p->onServiceStatusChanged("svc", Availability::Unknown, n);
        av = n == Availability::Available;
        CHECK((p->serviceStatus() == Availability::Available) == av);
        if (was && !av) { for (auto *l : {&regs, &reqs}) for (auto &e : *l) e.on = false; return 0; }
        CHECK(cl->sent.empty());
        break;
      }
      case 1: case 2: {
        regs.push_back({{}, op, false, 0, -9, isstatus});
        auto *e = &regs.back();
        auto cb = [e](const CSPayloadIFPtr &x) { ++e->calls; e->last = get(x); };
        int before = subs(op);
        e->id = isstatus ? p->registerStatus(op, cb, &st) : p->registerSignal(op, cb, &st);
        if (!av) { CHECK(st == ActionCallStatus::ServiceUnavailable); CHECK(!e->id.valid()); CHECK(cl->sent.empty()); regs.pop_back(); break; }
        if (before) { CHECK(st == ActionCallStatus::Success); CHECK(cl->sent.empty()); CHECK(e->id.valid()); CHECK(e->calls == (isstatus && cache.count(op) && cache[op] >= 0)); if (e->calls) CHECK(e->last == cache[op]); e->on = true; }
        else { CHECK(st == cl->result); CHECK(cl->sent.size() == 1); CHECK(e->calls == 0); CHECK(e->id.valid() == ok); CHECK(cl->sent[0].code == (isstatus ? OpCode::StatusRegister : OpCode::SignalRegister)); CHECK(cl->sent[0].op == op); e->on = ok; if (!ok) regs.pop_back(); }
        break;
      }
      case 3: {
        auto v = rand() % 5 - 1;
        CHECK(p->onIncomingMessage(msg(op, isstatus ? OpCode::StatusRegister : OpCode::SignalRegister, 1, {}, v < 0 ? nullptr : val(v))));
        if (int r = check(regs, [&](E &e) { return e.on && e.op == op; }, v)) return r;
        if (isstatus && subs(op)) cache[op] = v;
        CHECK(p->onIncomingMessage(msg(op, OpCode::StatusRegister, 1, {}, val(50), "other")));
        if (int r = check(regs, [&](E &e) { return e.on && e.op == op; }, v)) return r;
        break;
      }
      case 4: if (!regs.empty()) {
        auto &e = regs[rand() % regs.size()];
        if (!e.on) break;
        auto id = e.id;
        auto r = p->unregister(id);
        e.on = false;
        if (subs(e.op) == 0) { cache.erase(e.op); CHECK(r == (av ? ActionCallStatus::Success : ActionCallStatus::ServiceUnavailable)); CHECK(cl->sent.size() == (av ? 1 : 0)); if (av) CHECK(cl->sent[0].code == OpCode::Unregister && cl->sent[0].op == e.op); }
        else { CHECK(r == ActionCallStatus::Success); CHECK(cl->sent.empty()); }
        break;
      }
      case 5: {
        reqs.push_back({{}, op, false, 0, -9, rand() % 3 == 0});
        auto *e = &reqs.back();
        auto cb = [e](const CSPayloadIFPtr &x) { ++e->calls; e->last = get(x); };
        if (e->status) {
          st = p->getStatus(op, cb);
          if (!av || subs(op)) { CHECK(e->calls == 1); CHECK(e->last == (cache.count(op) ? cache[op] : -1)); CHECK(st == (av ? ActionCallStatus::Success : ActionCallStatus::ServiceUnavailable)); CHECK(cl->sent.empty()); reqs.pop_back(); break; }
          CHECK(cl->sent.size() == 1);
          e->id.opID = op; e->id.requestID = cl->sent[0].id;
        } else {
          e->id = p->sendRequestAsync(op, val(i), cb, &st);
          if (!av) { CHECK(st == ActionCallStatus::ServiceUnavailable); CHECK(!e->id.valid()); CHECK(cl->sent.empty()); reqs.pop_back(); break; }
          CHECK(cl->sent.size() == 1); CHECK(cl->sent[0].v == i); CHECK(e->id.valid() == ok);
        }
        CHECK(cl->sent[0].code == (e->status ? OpCode::StatusGet : OpCode::Request)); CHECK(cl->sent[0].op == op); CHECK(e->calls == 0); CHECK(st == cl->result);
        e->on = ok;
        if (!ok) { p->onIncomingMessage(msg(op, OpCode::Request, cl->sent[0].id, {}, val(1))); CHECK(e->calls == 0); reqs.pop_back(); }
        else for (auto &o : reqs) if (&o != e && o.on) CHECK(o.id.requestID != e->id.requestID);
        break;
      }
      case 6: if (!reqs.empty()) {
        auto &e = reqs[rand() % reqs.size()];
        int kind = rand() % 3;
        auto v = rand() % 9;
        CHECK(p->onIncomingMessage(msg(e.op, kind == 0 ? OpCode::PartialRequestUpdate : OpCode::Request, e.id.requestID, {}, val(v))));
        CHECK(e.on ? e.calls == 1 && e.last == v : e.calls == 0);
        if (kind) e.on = false;
        break;
      }
      case 7: if (!reqs.empty()) {
        auto &e = reqs[rand() % reqs.size()];
        if (e.status) break;
        p->abortRequest(e.id, &st);
        if (e.on) { CHECK(cl->sent.size() == 1); CHECK(cl->sent[0].code == OpCode::Abort); CHECK(cl->sent[0].id == e.id.requestID); CHECK(st == cl->result); } else { CHECK(cl->sent.empty()); CHECK(st == ActionCallStatus::NoAction); }
        if (e.on && ok) { e.on = false; reqs.clear(); return 0; }
        e.on = false;
        break;
      }
      case 8: if (av && rand() % 3 == 0) { p->unregisterAll(op); CHECK(cl->sent.size() == 1); for (auto &e : regs) if (e.op == op) e.on = false; cache.erase(op); } break;
    }
  }
  return 0;
}
static int blocking() {
  auto cl = std::make_shared<Cl>();
  auto p = std::make_shared<ServiceRequester>("svc", cl);
  ActionCallStatus st;
  CHECK(!p->sendRequest("a", val(1), &st, RequestTimeoutMs{0})); CHECK(st == ActionCallStatus::ServiceUnavailable);
  p->onServiceStatusChanged("svc", Availability::Unknown, Availability::Available);
  std::thread t;
  cl->on_send = [&](const CSMessagePtr &m) { if (m->operationCode() != OpCode::Abort) t = std::thread([&, m] { usleep(2000); p->onIncomingMessage(msg(m->operationID(), OpCode::PartialRequestUpdate, m->requestID(), {}, val(41))); p->onIncomingMessage(msg(m->operationID(), m->operationCode(), m->requestID(), {}, val(42))); }); };
  for (int to : {0, 5000}) {
    CHECK(get(p->sendRequest("a", val(1), &st, RequestTimeoutMs{to})) == 41); CHECK(st == ActionCallStatus::Success); t.join();
    CHECK(get(p->getStatus("a", &st, RequestTimeoutMs{to})) == 41); CHECK(st == ActionCallStatus::Success); t.join();
  }
  cl->on_send = nullptr;
  cl->sent.clear();
  CHECK(!p->sendRequest("a", val(1), &st, RequestTimeoutMs{5})); CHECK(st == ActionCallStatus::Timeout); CHECK(cl->sent.size() == 2); CHECK(cl->sent[1].code == OpCode::Abort); CHECK(cl->sent[1].id == cl->sent[0].id);
  cl->result = ActionCallStatus::ReceiverBusy;
  CHECK(!p->sendRequest("a", val(1), &st, RequestTimeoutMs{0})); CHECK(st == ActionCallStatus::ReceiverBusy);
  cl->result = ActionCallStatus::Success;
  for (int to : {0, 60000}) {
    cl->on_send = [&](const CSMessagePtr &) { t = std::thread([&] { usleep(2000); p->onServiceStatusChanged("svc", Availability::Available, Availability::Unavailable); }); };
    CHECK(!p->sendRequest("a", val(1), &st, RequestTimeoutMs{to})); CHECK(st == ActionCallStatus::ActionBroken);
    t.join();
    p->onServiceStatusChanged("svc", Availability::Unavailable, Availability::Available);
  }
  return 0;
}
struct Ob : ServiceStatusObserverIF {
  std::vector<std::pair<Availability, Availability>> told;
  bool thrower = false;
  std::function<void()> f;
  void onServiceStatusChanged(const ServiceID &, Availability a, Availability b) override { told.push_back({a, b}); if (f) f(); if (thrower) throw UnavailableException{}; }
};
static int observers() {
  auto cl = std::make_shared<Cl>();
  auto p = std::make_shared<ServiceRequester>("svc", cl);
  std::vector<std::shared_ptr<Ob>> o;
  for (int i = 0; i < 4; ++i) o.push_back(std::make_shared<Ob>());
  p->registerServiceStatusObserver({});
  for (int i = 0; i < 3; ++i) { p->registerServiceStatusObserver(o[i]); CHECK(o[i]->told.empty()); }
  o[2]->f = [&] { p->unregisterServiceStatusObserver(o[3]); };
  p->onServiceStatusChanged("svc", Availability::Unknown, Availability::Available);
  for (int i = 0; i < 3; ++i) { CHECK(o[i]->told.size() == 1); CHECK(o[i]->told[0].second == Availability::Available); }
  p->registerServiceStatusObserver(o[3]);
  CHECK(o[3]->told.size() == 1);
  o[0]->thrower = true;
  p->onServiceStatusChanged("svc", Availability::Available, Availability::Unavailable);
  for (int i = 0; i < 3; ++i) CHECK(o[i]->told.size() == 2);
  p->unregisterServiceStatusObserver(o[1]);
  p->onServiceStatusChanged("svc", Availability::Unavailable, Availability::Available);
  CHECK(o[0]->told.size() == 2); CHECK(o[1]->told.size() == 2); CHECK(o[2]->told.size() == 3);
  return 0;
}
int main() {
  for (unsigned i = 0; i < 40; ++i) dvr::scenario("statuses, signals and registrations", [i] { for (unsigned j = 0; j < 60; ++j) if (int r = statuses(i * 60 + j)) { fprintf(stderr, "seed %u\n", i * 60 + j); return r; } return 0; });
  dvr::scenario("serving", serving);
  for (unsigned i = 0; i < 40; ++i) dvr::scenario("requests at the service", [i] { for (unsigned j = 0; j < 60; ++j) if (int r = requests(i * 60 + j)) { fprintf(stderr, "seed %u\n", i * 60 + j); return r; } return 0; });
  for (unsigned i = 0; i < 40; ++i) dvr::scenario("a client", [i] { for (unsigned j = 0; j < 60; ++j) if (int r = client(i * 60 + j)) { fprintf(stderr, "seed %u\n", i * 60 + j); return r; } return 0; });
  dvr::scenario("blocking requests", blocking);
  dvr::scenario("observers of a service", observers);
  return SCHED_MAIN_RESULT();
}
