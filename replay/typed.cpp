// real-code runs for typed proxies and stubs: requesters, providers, requests and executors are stand-ins that record
#include <maf/ITCProxy.h>
#include <maf/ITCStub.h>
#include <maf/LocalIPCProxy.h>
#include <maf/LocalIPCStub.h>
#include <maf/messaging/client-server/ServiceStatusObserverDelegater.h>
#include <maf/messaging/client-server/Exceptions.h>
#include <deque>
#include <map>
// clang-format off
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
REQUEST(go)
  INPUT((std::uint64_t, a), (std::string, t))
  OUTPUT((std::uint64_t, b), (std::string, t))
ENDREQUEST(go)
VOID_REQUEST(ping)
SIGNAL(news)
  ATTRIBUTES((std::uint64_t, v), (std::string, t))
ENDSIGNAL(news)
VOID_SIGNAL(bell)
PROPERTY(state)
  STATUS((std::uint64_t, s), (std::string, t))
ENDPROPERTY(state)
#include <maf/messaging/client-server/CSContractDefinesEnd.mc.h>
// clang-format on
#include "dvrun.h"
using namespace maf::messaging;
using std::make_shared;
using std::shared_ptr;
using In = go_request::input;
using Out = go_request::output;
using Attr = news_signal::attributes;
using St = state_property::status;
using LT = ipc::local::ParamTrait;
static RegID reg(int i, const char *o) { RegID r; r.requestID = i; r.opID = o; return r; }
struct Ex : maf::util::ExecutorIF {
  std::deque<CallbackType> jobs;
  bool refuse = false;
  bool execute(CallbackType f) noexcept override {
    if (refuse) return false;
    jobs.push_back(std::move(f));
    return true;
  }
  int pump() { int n = 0; while (!jobs.empty()) { auto j = std::move(jobs.front()); jobs.pop_front(); j(); ++n; } return n; }
};
struct Rq : RequestIF {
  OpID op = "go.request"; RequestID rid{};
  bool v = true; int answers = 0, updates = 0;
  CSPayloadIFPtr answer, input; AbortRequestCallback ab;
  ActionCallStatus st = ActionCallStatus::Success;
  OpCode getOperationCode() const override { return OpCode::Request; }
  const OpID &getOperationID() const override { return op; }
  RequestID getRequestID() const override { return rid; }
  bool valid() const override { return v; }
  ActionCallStatus respond(const CSPayloadIFPtr &a) override { ++answers; answer = a; v = false; return st; }
  ActionCallStatus update(const CSPayloadIFPtr &a) override { ++updates; answer = a; return st; }
  CSPayloadIFPtr getInput() override { return input; }
  void onAborted(AbortRequestCallback f) override { ab = std::move(f); }
};
struct Last { OpID op; CSPayloadIFPtr payload; CSPayloadProcessCallback f; int n = 0; bool flag = false; };
struct Pv : ServiceProviderIF {
  std::map<std::string, Last> last; RequestHandlerFunction h; ServiceID id = "s";
  ActionCallStatus st = ActionCallStatus::Success; bool ok = true; CSPayloadIFPtr status; Availability av = Availability::Available;
  Last &l(const char *k, const OpID &op, const CSPayloadIFPtr &p = {}) { auto &x = last[k]; ++x.n; x.op = op; x.payload = p; return x; }
  bool onIncomingMessage(const CSMessagePtr &) override { return false; }
  const ServiceID &serviceID() const override { return id; }
  Availability availability() const override { return av; }
  void startServing() override { l("start", ""); }
  void stopServing() override { l("stop", ""); }
  void init() override {}
  void deinit() override {}
  bool registerRequestHandler(const OpID &o, RequestHandlerFunction f) override { l("handler", o); h = std::move(f); return ok; }
  bool unregisterRequestHandler(const OpID &o) override { l("nohandler", o); return ok; }
  ActionCallStatus respondToRequest(const CSMessagePtr &) override { return st; }
  ActionCallStatus setStatus(const OpID &o, const CSPayloadIFPtr &p) override { l("set", o, p); return st; }
  CSPayloadIFPtr getStatus(const OpID &o) override { l("get", o); return status; }
  ActionCallStatus removeProperty(const OpID &o, bool b) override { l("remove", o).flag = b; return st; }
  ActionCallStatus broadcastSignal(const OpID &o, const CSPayloadIFPtr &p) override { l("signal", o, p); return st; }
  maf::signal_slots::Connection registerNotification(const OpID &o, CSPayloadProcessCallback f) override { l("notify", o).f = std::move(f); return {}; }
};
struct Rr : ServiceRequesterIF {
  mutable std::map<std::string, Last> last; ServiceID id = "s"; RegID rid = reg(7, "seven");
  ActionCallStatus st = ActionCallStatus::Success; CSPayloadIFPtr reply; RequestTimeoutMs to{}; const void *pp = nullptr; ServiceStatusObserverPtr ob;
  Last &l(const char *k, const OpID &op, const CSPayloadIFPtr &p = {}) const { auto &x = last[k]; ++x.n; x.op = op; x.payload = p; return x; }
  void tell(ActionCallStatus *s) { if (s) *s = st; }
  bool onIncomingMessage(const CSMessagePtr &) override { return false; }
  void onServiceStatusChanged(const ServiceID &, Availability, Availability) override {}
  const ServiceID &serviceID() const override { return id; }
  void init() override {}
  void deinit() override {}
  RegID registerStatus(const OpID &o, CSPayloadProcessCallback f, ActionCallStatus *s) override { l("status", o).f = std::move(f); tell(s); return rid; }
  RegID registerSignal(const OpID &o, CSPayloadProcessCallback f, ActionCallStatus *s) override { l("signal", o).f = std::move(f); tell(s); return rid; }
  ActionCallStatus unregister(const RegID &r) override { l("un", r.opID); return st; }
  ActionCallStatus unregisterAll(const OpID &o) override { l("unall", o); return st; }
  RegID sendRequestAsync(const OpID &o, const CSPayloadIFPtr &p, CSPayloadProcessCallback f, ActionCallStatus *s) override { l("async", o, p).f = std::move(f); tell(s); return rid; }
  CSPayloadIFPtr getStatus(const OpID &o, ActionCallStatus *s, RequestTimeoutMs t) override { l("get", o); tell(s); to = t; return reply; }
  ActionCallStatus getStatus(const OpID &o, CSPayloadProcessCallback f) override { l("getasync", o).f = std::move(f); return st; }
  CSPayloadIFPtr sendRequest(const OpID &o, const CSPayloadIFPtr &p, ActionCallStatus *s, RequestTimeoutMs t) override { l("sync", o, p); tell(s); to = t; return reply; }
  void abortRequest(const RegID &r, ActionCallStatus *s) override { l("abort", r.opID); tell(s); }
  Availability serviceStatus() const override { return Availability::Available; }
  void registerServiceStatusObserver(ServiceStatusObserverPtr o) override { l("observe", ""); ob = o; }
  void unregisterServiceStatusObserver(const ServiceStatusObserverPtr &o) override { l("unobserve", ""); if (ob == o) ob = {}; }
};
static shared_ptr<Rr> rr;
static shared_ptr<Pv> pv;
static bool there = true;
namespace maf::messaging::csmgmt {
shared_ptr<ServiceRequesterIF> getServiceRequester(const ConnectionType &, const Address &, const ServiceID &) noexcept { if (!there) return {}; return rr; }
shared_ptr<ServiceProviderIF> getServiceProvider(const ConnectionType &, const Address &, const ServiceID &) noexcept { if (!there) return {}; return pv; }
}
constexpr auto InvalidParam = ActionCallStatus::InvalidParam, Good = ActionCallStatus::Success, Unknown = ActionCallStatus::FailedUnknown;
template <class T> constexpr bool local = std::is_same_v<T, LT>;
template <class X> CSPayloadIFPtr bytes_of(const shared_ptr<X> &v, size_t cut = 0) {
  maf::srz::OByteStream o;
  auto p = LT::translate(v);
  static_cast<ipc::local::OutgoingPayload &>(*p).serialize(o);
  auto b = o.bytes();
  b.resize(b.size() - cut);
  return make_shared<ipc::local::IncomingPayload>(make_shared<maf::srz::IByteStream>(std::move(b)));
}
template <class X> size_t length(const shared_ptr<X> &v) { maf::srz::OByteStream o; auto p = LT::translate(v); static_cast<ipc::local::OutgoingPayload &>(*p).serialize(o); return o.bytes().size(); }
struct Arr { const char *what; CSPayloadIFPtr p; bool value; bool error; bool nul = false; };
// everything that can come for a value
template <class T, class X> std::vector<Arr> arrivals(const shared_ptr<X> &v) {
  std::vector<Arr> r{{"nothing", {}, false, false}, {"error", make_shared<CSError>("e", CSErrorCode::RequestRejected), false, true}, {"value", T::translate(v), true, false}};
  if constexpr (local<T>) {
    r.push_back({"bytes", bytes_of(v), true, false});
    for (size_t c = 1; c <= length(v); ++c) r.push_back({"cut bytes", bytes_of(v, c), false, false, true});
    r.push_back({"no bytes", make_shared<ipc::local::IncomingPayload>(nullptr), false, false});
  }
  return r;
}
template <class T, class X> bool carries(const CSPayloadIFPtr &p, const shared_ptr<X> &v) {
  if (!v) return local<T> || !p;
  if (!p || p->type() != CSPayloadType::OutgoingData) return false;
  TranslationStatus s = TranslationStatus::NoSource;
  auto w = T::template translate<X>(p, &s);
  return w && s == TranslationStatus::Success && *w == *v;
}
template <class T> struct Fix {
  shared_ptr<Ex> ex = make_shared<Ex>();
  shared_ptr<BasicProxy<T>> p;
  shared_ptr<BasicStub<T>> s;
  Fix(bool executor = true) {
    rr = make_shared<Rr>(); pv = make_shared<Pv>(); there = true;
    p = BasicProxy<T>::createProxy("c", Address{"a", 1}, "s", executor ? ex : nullptr);
    s = BasicStub<T>::createStub("c", Address{"a", 1}, "s", executor ? ex : nullptr);
  }
};
static const auto st = make_shared<St>(5, "five");
static const auto at = make_shared<Attr>(6, "six");
static const auto in = make_shared<In>(1, "one");
static const auto out = make_shared<Out>(2, "two");
template <class T, class X> int updates(Fix<T> &f, const CSPayloadProcessCallback &w, const shared_ptr<X> &v, const int &calls, const shared_ptr<X> &got, const bool &ran) {
  for (auto &a : arrivals<T>(v)) {
    fprintf(stderr, "arrives: %s\n", a.what);
    if (!local<T> && a.error) { }
    int c0 = calls;
    auto copy = w;
    copy(a.p);
    CHECK(calls == c0 && f.ex->jobs.size() == 1);
    CHECK(f.ex->pump() == 1 && calls == c0 + 1);
    CHECK(a.value ? got && *got == *v : !got);
  }
  f.ex->refuse = true;
  int c0 = calls;
  auto copy = w;
  copy(T::translate(v));
  CHECK(f.ex->jobs.empty() && calls == c0);
  (void)ran;
  return 0;
}
template <class T> int watch(int how) {
  Fix<T> f;
  int calls = 0; bool ran = false;
  auto cs = Unknown;
  rr->st = ActionCallStatus::ServiceUnavailable;
  if (how == 0) {
    shared_ptr<St> got;
    auto id = f.p->template registerStatus<St>([&](const shared_ptr<St> &x) { ++calls; got = x; }, &cs);
    CHECK(id == rr->rid && cs == rr->st && rr->last["status"].n == 1 && rr->last["status"].op == "state.property");
    return updates<T, St>(f, rr->last["status"].f, st, calls, got, ran);
  }
  if (how == 1) {
    shared_ptr<Attr> got;
    auto id = f.p->template registerSignal<Attr>([&](const shared_ptr<Attr> &x) { ++calls; got = x; }, &cs);
    CHECK(id == rr->rid && cs == rr->st && rr->last["signal"].n == 1 && rr->last["signal"].op == "news.signal");
    return updates<T, Attr>(f, rr->last["signal"].f, at, calls, got, ran);
  }
  if (how == 2) {
    shared_ptr<St> got;
    CHECK(f.p->template getStatus<St>([&](const shared_ptr<St> &x) { ++calls; got = x; }) == rr->st);
    CHECK(rr->last["getasync"].n == 1 && rr->last["getasync"].op == "state.property");
    return updates<T, St>(f, rr->last["getasync"].f, st, calls, got, ran);
  }
  auto id = f.p->template registerSignal<bell_signal>([&] { ++calls; }, &cs);
  CHECK(id == rr->rid && cs == rr->st && rr->last["signal"].op == "bell.signal");
  auto w = rr->last["signal"].f;
  for (int i = 1; i < 4; ++i) { auto c = w; c({}); CHECK(calls == i - 1 && f.ex->pump() == 1 && calls == i); }
  return 0;
}
template <class T> int refused(bool executor) {
  Fix<T> f(executor);
  auto cs = Good;
  auto bad = [&](const RegID &id) { bool r = !id.valid() && cs == InvalidParam; cs = Good; return r; };
  using FS = std::function<void(const shared_ptr<St> &)>;
  using FA = std::function<void(const shared_ptr<Attr> &)>;
  auto fs = executor ? FS{} : FS{[](auto &) {}};
  auto fa = executor ? FA{} : FA{[](auto &) {}};
  auto fv = executor ? std::function<void()>{} : std::function<void()>{[] {}};
  CHECK(bad(f.p->template registerStatus<St>(fs, &cs)));
  CHECK(bad(f.p->template registerSignal<Attr>(fa, &cs)));
  CHECK(bad(f.p->template registerSignal<bell_signal>(fv, &cs)));
  CHECK(f.p->template getStatus<St>(fs) == InvalidParam);
  f.p->template registerStatus<St>(fs);
  CHECK(!f.p->onServiceStatusChanged(executor ? decltype(f.p->onServiceStatusChanged({}), typename BasicProxy<T>::ServiceStatusChangedCallback{}){} : [](Availability, Availability) {}));
  CHECK(rr->last.size() == 1 && rr->last["observe"].n == 1);
  if (!executor) CHECK(!f.s->template registerRequestHandler<In>([](RequestT<T, In>) {}) && pv->last.empty());
  return 0;
}
template <class R> bool says(R r, const Arr &a, const shared_ptr<Out> &v) {
  if (a.error) return r.isError() && !r.isOutput() && r.hasValue() && r.getError() == a.p && !r.getOutput();
  if (a.value) return r.isOutput() && !r.isError() && r.hasValue() && !r.getError() && r.getOutput() && *r.getOutput() == *v;
  return !r.getOutput() && (!r.isError() || (a.p && r.getError()));
}
template <class T> int ask(int how) {
  Fix<T> f;
  for (int null = 0; null < 2; ++null)
    for (auto &a : arrivals<T>(out)) {
      fprintf(stderr, "answer: %s\n", a.what);
      int calls = 0; bool ok = false;
      auto cs = Unknown;
      auto i = null ? nullptr : in;
      rr->last.clear(); f.ex->refuse = false;
      rr->st = ActionCallStatus::ServiceUnavailable;
      RegID id;
      auto cb = [&](ResponseT<Out> r) { ++calls; ok = says(r, a, out); };
      if (how == 0) id = f.p->template sendRequestAsync<Out>(i, cb, &cs);
      else if (how == 1) id = f.p->template sendRequestAsync<Out>(cb, &cs);
      else id = f.p->template sendRequestAsync<ping_request>([&](ResponseT<ping_request> r) { ++calls; ok = a.error ? r.isError() && r.getError() == a.p : !r.isError() && !r.getOutput(); }, &cs);
      auto &l = rr->last["async"];
      CHECK(rr->last.size() == 1 && l.n == 1 && id == rr->rid && cs == rr->st && l.op == (how == 2 ? "ping.request" : "go.request"));
      CHECK(how == 0 ? carries<T>(l.payload, i) : !l.payload);
      auto w = l.f;
      auto w2 = l.f;
      w(a.p);
      CHECK(calls == 0 && f.ex->pump() == 1 && calls == 1 && ok);
      f.ex->refuse = true;
      w2(a.p);
      CHECK(calls == 1 && f.ex->jobs.empty());
    }
  rr->last.clear();
  f.p->template sendRequestAsync<Out>(in);
  CHECK(rr->last["async"].n == 1 && !rr->last["async"].f);
  return 0;
}
template <class T> int waits(int how) {
  Fix<T> f;
  for (int status = 0; status < 10; ++status)
    for (int null = 0; null < 2; ++null)
      for (auto &a : arrivals<T>(out)) {
        rr->reply = a.p; rr->last.clear(); rr->st = static_cast<ActionCallStatus>(status);
        auto i = null ? nullptr : in;
        auto cs = Unknown;
        RequestTimeoutMs to{123};
        auto check = [&](auto r) {
          if (status) return r.isError() && r.getError() && r.getError()->code() == CSErrorCode::OperationFailed && !r.getOutput();
          if constexpr (std::is_same_v<decltype(r), ResponseT<Out>>) return says(r, a, out);
          else return a.error ? r.isError() && r.getError() == a.p : !r.isError() && !r.getOutput();
        };
        bool ok = how == 0 ? check(f.p->template sendRequest<Out>(i, &cs, to)) : how == 1 ? check(f.p->template sendRequest<Out>(&cs, to)) : check(f.p->template sendRequest<ping_request>(&cs, to));
        auto &l = rr->last["sync"];
        CHECK(ok && cs == rr->st && rr->to == to && rr->last.size() == 1 && l.n == 1 && l.op == (how == 2 ? "ping.request" : "go.request"));
        CHECK(how == 0 ? carries<T>(l.payload, i) : !l.payload);
        CHECK(check(f.p->template sendRequest<Out>(in)) || how == 2);
      }
  return 0;
}
template <class T> int gets() {
  Fix<T> f;
  for (auto &a : arrivals<T>(st)) {
    fprintf(stderr, "status: %s\n", a.what);
    rr->reply = a.p; rr->last.clear(); rr->st = ActionCallStatus::Timeout;
    auto cs = Unknown;
    auto g = f.p->template getStatus<St>(&cs, RequestTimeoutMs{55});
    CHECK(cs == rr->st && rr->to == RequestTimeoutMs{55} && rr->last["get"].n == 1 && rr->last["get"].op == "state.property");
    CHECK(a.value ? g && *g == *st : !g);
  }
  return 0;
}
template <class T> int passes() {
  Fix<T> f;
  CHECK(rr->last["observe"].n == 1 && !rr->ob);
  for (int status = 0; status < 10; ++status) {
    rr->st = static_cast<ActionCallStatus>(status);
    auto cs = Unknown;
    CHECK(f.p->unregister(reg(3, "three")) == rr->st && rr->last["un"].op == "three" && rr->last["un"].n == status + 1);
    CHECK(f.p->unregisterAll("all") == rr->st && rr->last["unall"].op == "all" && rr->last["unall"].n == status + 1);
    f.p->abortRequest(reg(4, "four"), &cs);
    CHECK(cs == rr->st && rr->last["abort"].op == "four" && rr->last["abort"].n == status + 1);
  }
  CHECK(f.p->serviceID() == "s" && f.p->serviceStatus() == Availability::Available && f.p->getRequester() == rr && f.p->getExecutor() == f.ex);
  std::vector<std::pair<Availability, Availability>> told;
  auto ob = f.p->onServiceStatusChanged([&](Availability a, Availability b) { told.emplace_back(a, b); });
  CHECK(ob && rr->ob == ob && rr->last["observe"].n == 2);
  for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) {
    told.clear();
    ob->onServiceStatusChanged("s", static_cast<Availability>(a), static_cast<Availability>(b));
    CHECK(told.empty() && f.ex->pump() == 1 && told.size() == 1 && told[0].first == static_cast<Availability>(a) && told[0].second == static_cast<Availability>(b));
  }
  f.ex->refuse = true;
  bool thrown = false;
  try { ob->onServiceStatusChanged("s", Availability::Available, Availability::Unavailable); } catch (const UnavailableException &) { thrown = true; }
  CHECK(thrown);
  f.p->unregisterServiceStatusObserver(ob);
  CHECK(!rr->ob);
  auto ex2 = make_shared<Ex>();
  auto p2 = f.p->with(ex2);
  CHECK(p2 && p2 != f.p && p2->getExecutor() == ex2 && p2->getRequester() == rr && f.p->getExecutor() == f.ex);
  f.p->setExecutor(ex2);
  CHECK(f.p->getExecutor() == ex2);
  auto s2 = f.s->with(ex2);
  CHECK(s2 && s2 != f.s && s2->getExecutor() == ex2 && f.s->getExecutor() == f.ex);
  f.s->setExecutor(ex2);
  CHECK(f.s->getExecutor() == ex2);
  auto o2 = make_shared<ServiceStatusObserverDelegater>(ex2, [](Availability, Availability) {});
  CHECK((BasicProxy<T>::createProxy("c", Address{"a", 1}, "s", ex2, o2)) && rr->ob == o2);
  there = false;
  CHECK(!(BasicProxy<T>::createProxy("c", Address{"a", 1}, "s", ex2)) && !(BasicStub<T>::createStub("c", Address{"a", 1}, "s", ex2)));
  return 0;
}
template <class T> int publishes() {
  Fix<T> f;
  for (int status = 0; status < 10; ++status) {
    pv->st = static_cast<ActionCallStatus>(status);
    pv->last.clear();
    CHECK(f.s->template setStatus<St>(st) == pv->st && pv->last["set"].n == 1 && pv->last["set"].op == "state.property" && carries<T>(pv->last["set"].payload, st));
    CHECK(f.s->template setStatus<St>(std::uint64_t{5}, "five") == pv->st && carries<T>(pv->last["set"].payload, st));
    CHECK(f.s->template broadcastSignal<Attr>(at) == pv->st && pv->last["signal"].n == 1 && pv->last["signal"].op == "news.signal" && carries<T>(pv->last["signal"].payload, at));
    CHECK(f.s->template broadcastSignal<Attr>(std::uint64_t{6}, "six") == pv->st && carries<T>(pv->last["signal"].payload, at));
    CHECK(f.s->template broadcastSignal<bell_signal>() == pv->st && pv->last["signal"].op == "bell.signal" && !pv->last["signal"].payload);
    CHECK(f.s->template removeProperty<St>(true) == pv->st && pv->last["remove"].op == "state.property" && pv->last["remove"].flag);
    CHECK(f.s->removeProperty("x") == pv->st && pv->last["remove"].op == "x" && !pv->last["remove"].flag);
    pv->ok = status % 2;
    CHECK(f.s->template unregisterRequestHandler<go_request>() == pv->ok && pv->last["nohandler"].op == "go.request");
    CHECK(f.s->unregisterRequestHandler("y") == pv->ok && pv->last["nohandler"].op == "y");
  }
  f.s->startServing(); f.s->stopServing();
  CHECK(pv->last["start"].n == 1 && pv->last["stop"].n == 1 && f.s->serviceID() == "s" && f.s->availability() == pv->av);
  pv->status = {};
  CHECK(!f.s->template getStatus<St>() && *f.s->template cloneStatus<St>() == St{});
  pv->status = T::translate(st);
  CHECK(f.s->template getStatus<St>() && *f.s->template getStatus<St>() == *st);
  auto c = f.s->template cloneStatus<St>();
  CHECK(c && *c == *st && c != st);
  return 0;
}
template <class T, class X> int handles() {
  Fix<T> f;
  for (int ok = 0; ok < 2; ++ok)
    for (int how = 0; how < 6; ++how) {
      fprintf(stderr, "handler %d\n", how);
      int calls = 0;
      RequestT<T, X> kept;
      pv->ok = ok; f.ex->refuse = how == 5;
      auto rq = make_shared<Rq>();
      CHECK(f.s->template registerRequestHandler<X>([&](RequestT<T, X> r) {
        ++calls;
        if (how == 0) r.respond(out);
        if (how == 1) r.error("no", CSErrorCode::RequestRejected);
        if (how == 2) kept = std::move(r);
        if (how == 3) r.update(out);
        if (how == 4) rq->v = false;
      }) == (ok == 1));
      CHECK(pv->last["handler"].op == (std::is_same_v<X, In> ? "go.request" : "ping.request"));
      auto h = pv->h;
      h(rq);
      CHECK(calls == 0);
      if (how == 5) {
        CHECK(rq->answers == 1 && rq->answer && rq->answer->type() == CSPayloadType::Error);
        continue;
      }
      CHECK(rq->answers == 0 && f.ex->pump() == 1 && calls == 1);
      int want[] = {1, 1, 0, 1, 0};
      CHECK(rq->answers == want[how]);
      if (how == 0) CHECK(carries<T>(rq->answer, out));
      auto code = [&] { return std::static_pointer_cast<CSError>(rq->answer)->code(); };
      if (how == 1) CHECK(code() == CSErrorCode::RequestRejected);
      if (how == 3) CHECK(rq->updates == 1 && code() == CSErrorCode::ResponseIgnored);
      if (how == 2) { CHECK(kept.valid()); kept = RequestT<T, X>{}; CHECK(rq->answers == 1 && code() == CSErrorCode::ResponseIgnored); }
    }
  return 0;
}
template <class T> int notified() {
  Fix<T> f;
  int calls = 0;
  shared_ptr<St> got;
  f.s->template registerNotification<St>([&](const shared_ptr<St> &x) { ++calls; got = x; });
  CHECK(pv->last["notify"].n == 1 && pv->last["notify"].op == "state.property");
  auto w = pv->last["notify"].f;
  for (int i = 0; i < 3; ++i) { auto v = make_shared<St>(i, "x"); w(T::translate(v)); CHECK(calls == i && f.ex->pump() == 1 && calls == i + 1 && got && *got == *v); }
  w({});
  f.ex->pump();
  CHECK(calls == 3 || (calls == 4 && !got));
  calls = 0;
  f.s->template registerNotification<bell_signal>([&] { ++calls; });
  CHECK(pv->last["notify"].op == "bell.signal");
  w = pv->last["notify"].f;
  for (int i = 1; i < 4; ++i) { w({}); CHECK(calls == i - 1 && f.ex->pump() == 1 && calls == i); }
  return 0;
}
template <class T> int requests() {
  Fix<T> f;
  shared_ptr<Rq> rq;
  std::vector<shared_ptr<Rq>> all;
  // a request of a handler that keeps it
  auto make = [&](bool v = true) {
    auto keep = make_shared<RequestT<T, In>>();
    f.s->template registerRequestHandler<In>([keep](RequestT<T, In> r) { *keep = std::move(r); });
    rq = make_shared<Rq>(); rq->v = true; all.push_back(rq);
    auto h = pv->h; h(rq); f.ex->pump();
    rq->v = v;
    return std::move(*keep);
  };
  auto ignored = [](Rq &r) { return r.answers == 1 && r.answer && r.answer->type() == CSPayloadType::Error && std::static_pointer_cast<CSError>(r.answer)->code() == CSErrorCode::ResponseIgnored; };
  { RequestT<T, In> e; CHECK(!e.valid()); auto e2 = std::move(e); e = std::move(e2); }
  { auto q = make(); CHECK(q.valid()); rq->v = false; CHECK(!q.valid()); rq->v = true; }
  CHECK(ignored(*rq));
  { auto q = make(false); }
  CHECK(rq->answers == 0);
  { auto q = make(); auto a = rq; { auto q2 = std::move(q); CHECK(!q.valid() && q2.valid() && a->answers == 0); } CHECK(ignored(*a)); }
  { auto q = make(); auto a = rq; auto p = make(); auto b = rq; q = std::move(p); CHECK(ignored(*a) && b->answers == 0 && q.valid()); auto *self = &q; q = std::move(*self); CHECK(b->answers == 0 && q.valid()); }
  for (int status = 0; status < 10; ++status) {
    auto set = [&] { rq->st = static_cast<ActionCallStatus>(status); };
    { auto q = make(); set(); CHECK(q.respond(out) == rq->st && carries<T>(rq->answer, out)); } CHECK(rq->answers == 1);
    { auto q = make(); set(); CHECK(q.respond() == rq->st && !rq->answer); } CHECK(rq->answers == 1);
    { auto q = make(); set(); CHECK(q.update(out) == rq->st && carries<T>(rq->answer, out) && rq->updates == 1); CHECK(q.update() == rq->st && !rq->answer && rq->updates == 2 && rq->answers == 0); } CHECK(ignored(*rq));
    for (int c = 0; c < 10; ++c) {
      { auto q = make(); set(); CHECK(q.error("d", static_cast<CSErrorCode>(c)) == rq->st); } CHECK(rq->answers == 1 && std::static_pointer_cast<CSError>(rq->answer)->code() == static_cast<CSErrorCode>(c) && std::static_pointer_cast<CSError>(rq->answer)->description() == "d");
      auto e = make_shared<CSError>("x", static_cast<CSErrorCode>(c));
      { auto q = make(); CHECK(q.error(e) == Good); } CHECK(rq->answers == 1 && rq->answer == e);
    }
  }
  for (auto &a : arrivals<T>(in)) {
    if (a.error && !local<T>) continue;
    auto q = make();
    rq->input = a.p;
    auto i = q.getInput();
    CHECK(a.value ? i && *i == *in : !i);
  }
  auto q = make();
  CHECK(q.getOperationCode() == OpCode::Request && q.getOperationID() == "go.request" && q.getRequestID() == rq->rid);
  int calls = 0;
  auto ex2 = make_shared<Ex>();
  q.onAborted([&] { ++calls; }, ex2);
  rq->ab();
  CHECK(calls == 0 && f.ex->jobs.empty() && ex2->pump() == 1 && calls == 1);
  q.onAborted([&] { ++calls; });
  rq->ab();
  CHECK(calls == 2 && f.ex->jobs.empty() && ex2->jobs.empty());
  return 0;
}
static int names() {
  CHECK(ParamTraitBase::getOperationID(in.get()) == "go.request" && ParamTraitBase::getOperationID(out.get()) == "go.request");
  CHECK(ParamTraitBase::getOperationID(static_cast<In *>(nullptr)).empty() && ParamTraitBase::isSameOpID(in.get(), out.get()));
  CHECK(!ParamTraitBase::isSameOpID(in.get(), st.get()));
  return 0;
}
template <class T> void all(const char *nm) {
  using namespace dvr;
  auto name = [&](const char *s) { return std::string(nm) + ": " + s; };
  const char *w[] = {"registerStatus", "registerSignal", "getStatus with a callback", "registerSignal of nothing"}, *a[] = {"with an input", "without an input", "of nothing"};
  for (int i = 0; i < 4; ++i) scenario(name(w[i]).c_str(), [=] { return watch<T>(i); });
  for (int i = 0; i < 2; ++i) scenario(name(i ? "no callback" : "no executor").c_str(), [=] { return refused<T>(i); });
  for (int i = 0; i < 3; ++i) scenario((name("sendRequestAsync ") + a[i]).c_str(), [=] { return ask<T>(i); });
  for (int i = 0; i < 3; ++i) scenario((name("sendRequest ") + a[i]).c_str(), [=] { return waits<T>(i); });
  scenario(name("getStatus").c_str(), [] { return gets<T>(); });
  scenario(name("what is passed on").c_str(), [] { return passes<T>(); });
  scenario(name("what a stub publishes").c_str(), [] { return publishes<T>(); });
  scenario(name("request handler").c_str(), [] { return handles<T, In>(); });
  scenario(name("request handler of nothing").c_str(), [] { return handles<T, ping_request>(); });
  scenario(name("notifications of a stub").c_str(), [] { return notified<T>(); });
  scenario(name("requests").c_str(), [] { return requests<T>(); });
}
int main() {
  all<itc::ParamTrait>("itc");
  all<LT>("local");
  dvr::scenario("operation ids", names);
  return SCHED_MAIN_RESULT();
}
