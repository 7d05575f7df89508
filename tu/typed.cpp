// uses every typed operation for both transports; stand-ins for the parties below
#include <maf/ITCProxy.h>
#include <maf/ITCStub.h>
#include <maf/LocalIPCProxy.h>
#include <maf/LocalIPCStub.h>
#include <maf/messaging/client-server/ServiceStatusObserverDelegater.h>
#include <maf/messaging/client-server/AsyncServiceStatusObserver.h>
// clang-format off
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
REQUEST(go)
  INPUT((std::uint64_t, a))
  OUTPUT((std::uint64_t, b))
ENDREQUEST(go)
VOID_REQUEST(ping)
SIGNAL(news)
  ATTRIBUTES((std::uint64_t, v))
ENDSIGNAL(news)
VOID_SIGNAL(bell)
PROPERTY(state)
  STATUS((std::uint64_t, s))
ENDPROPERTY(state)
#include <maf/messaging/client-server/CSContractDefinesEnd.mc.h>
// clang-format on
using namespace maf::messaging;
using std::shared_ptr;

struct RqMock : RequestIF {
  ~RqMock() override;
  OpCode getOperationCode() const override;
  const OpID &getOperationID() const override;
  RequestID getRequestID() const override;
  bool valid() const override;
  ActionCallStatus respond(const CSPayloadIFPtr &answer) override;
  ActionCallStatus update(const CSPayloadIFPtr &data) override;
  CSPayloadIFPtr getInput() override;
  void onAborted(AbortRequestCallback abortCallback) override;
};
RqMock::~RqMock() {}
struct ExMock : maf::util::ExecutorIF {
  ~ExMock() override;
  bool execute(CallbackType) noexcept override;
};
ExMock::~ExMock() {}
struct PvMock : ServiceProviderIF {
  ~PvMock() override;
  bool onIncomingMessage(const CSMessagePtr &) override;
  const ServiceID &serviceID() const override;
  Availability availability() const override;
  void startServing() override;
  void stopServing() override;
  void init() override;
  void deinit() override;
  bool registerRequestHandler(const OpID &, RequestHandlerFunction) override;
  bool unregisterRequestHandler(const OpID &) override;
  ActionCallStatus respondToRequest(const CSMessagePtr &) override;
  ActionCallStatus setStatus(const OpID &, const CSPayloadIFPtr &) override;
  CSPayloadIFPtr getStatus(const OpID &) override;
  ActionCallStatus removeProperty(const OpID &, bool) override;
  ActionCallStatus broadcastSignal(const OpID &, const CSPayloadIFPtr &) override;
  maf::signal_slots::Connection registerNotification(const OpID &, CSPayloadProcessCallback) override;
};
PvMock::~PvMock() {}
struct RrMock : ServiceRequesterIF {
  ~RrMock() override;
  bool onIncomingMessage(const CSMessagePtr &) override;
  void onServiceStatusChanged(const ServiceID &, Availability, Availability) override;
  const ServiceID &serviceID() const override;
  void init() override;
  void deinit() override;
  RegID registerStatus(const OpID &, CSPayloadProcessCallback, ActionCallStatus *) override;
  RegID registerSignal(const OpID &, CSPayloadProcessCallback, ActionCallStatus *) override;
  ActionCallStatus unregister(const RegID &) override;
  ActionCallStatus unregisterAll(const OpID &) override;
  RegID sendRequestAsync(const OpID &, const CSPayloadIFPtr &, CSPayloadProcessCallback, ActionCallStatus *) override;
  CSPayloadIFPtr getStatus(const OpID &, ActionCallStatus *, RequestTimeoutMs) override;
  ActionCallStatus getStatus(const OpID &, CSPayloadProcessCallback) override;
  CSPayloadIFPtr sendRequest(const OpID &, const CSPayloadIFPtr &, ActionCallStatus *, RequestTimeoutMs) override;
  void abortRequest(const RegID &, ActionCallStatus *) override;
  Availability serviceStatus() const override;
  void registerServiceStatusObserver(ServiceStatusObserverPtr) override;
  void unregisterServiceStatusObserver(const ServiceStatusObserverPtr &) override;
};
RrMock::~RrMock() {}
void *make_all() {
  static RqMock a; static ExMock b; static PvMock c; static RrMock d;
  return &a;
}
using In = go_request::input;
using Out = go_request::output;
using Attr = news_signal::attributes;
using St = state_property::status;
template <class T> void use(BasicProxy<T> &p, BasicStub<T> &s, const shared_ptr<In> &in, const shared_ptr<Out> &out, const shared_ptr<Attr> &at, const shared_ptr<St> &st) {
  ActionCallStatus cs{};
  p.serviceID(); p.serviceStatus();
  p.template registerStatus<St>([](const shared_ptr<St> &) {}, &cs);
  p.template registerSignal<Attr>([](const shared_ptr<Attr> &) {}, &cs);
  p.template registerSignal<bell_signal>([] {}, &cs);
  p.unregister(RegID{}); p.unregisterAll("x"); p.abortRequest(RegID{}, &cs);
  p.template getStatus<St>(&cs, RequestTimeoutMs{1});
  p.template getStatus<St>([](const shared_ptr<St> &) {});
  p.template sendRequestAsync<Out>(in, [](ResponseT<Out>) {}, &cs);
  p.template sendRequestAsync<ping_request>([](ResponseT<ping_request>) {}, &cs);
  p.template sendRequestAsync<Out>([](ResponseT<Out>) {}, &cs);
  auto r = p.template sendRequest<Out>(in, &cs, RequestTimeoutMs{1});
  r.getOutput(); r.getError(); r.isError(); r.isOutput(); r.hasValue();
  p.template sendRequest<ping_request>(&cs, RequestTimeoutMs{1});
  p.template sendRequest<Out>(&cs, RequestTimeoutMs{1});
  p.registerServiceStatusObserver({}); p.unregisterServiceStatusObserver({});
  p.onServiceStatusChanged([](Availability, Availability) {});
  p.setExecutor(p.getExecutor()); p.with({}); p.getRequester();
  s.serviceID(); s.availability();
  s.template setStatus<St>(st); s.template setStatus<St>(std::uint64_t{1}); s.template broadcastSignal<Attr>(std::uint64_t{1});
  s.removeProperty("x"); s.unregisterRequestHandler("x");
  BasicProxy<T>::createProxy("c", Address{}, "s"); BasicStub<T>::createStub("c", Address{}, "s");
  s.template removeProperty<St>(true);
  s.template getStatus<St>(); s.template cloneStatus<St>();
  s.template broadcastSignal<Attr>(at); s.template broadcastSignal<bell_signal>();
  s.template registerRequestHandler<In>([](RequestT<T, In>) {});
  s.template registerRequestHandler<ping_request>([](RequestT<T, ping_request>) {});
  s.template unregisterRequestHandler<go_request>();
  s.template registerNotification<St>([](const shared_ptr<St> &) {});
  s.template registerNotification<bell_signal>([] {});
  s.startServing(); s.stopServing(); s.setExecutor(s.getExecutor()); s.with({});
  RequestT<T, In> q, q2{std::move(q)};
  q = std::move(q2);
  q.getOperationCode(); q.getOperationID(); q.getRequestID(); q.valid(); q.getInput();
  q.onAborted({}, {}); q.onAborted({});
  q.respond(); q.respond(out); q.update(); q.update(out); q.error("x"); q.error(shared_ptr<CSError>{});
  RequestT<T, ping_request> v;
  v.respond(); v.getInput();
  T::template translate<St>(CSPayloadIFPtr{}); T::translate(st);
}
template void use<itc::ParamTrait>(BasicProxy<itc::ParamTrait> &, BasicStub<itc::ParamTrait> &, const shared_ptr<In> &, const shared_ptr<Out> &, const shared_ptr<Attr> &, const shared_ptr<St> &);
using LT = ipc::local::ParamTrait;
template void use<LT>(BasicProxy<LT> &, BasicStub<LT> &, const shared_ptr<In> &, const shared_ptr<Out> &, const shared_ptr<Attr> &, const shared_ptr<St> &);
std::string ids(const In *i, const Out *o) { return ParamTraitBase::isSameOpID(i, o) ? ParamTraitBase::getOperationID(i) : ""; }
void observers(maf::util::ExecutorIFPtr e) { ServiceStatusObserverDelegater d(e, {}); }

void calls(std::function<void()> &a, CSPayloadProcessCallback &b, RequestHandlerFunction &c, AbortRequestCallback &d) { a(); b({}); c({}); d(); }
CSPayloadIFPtr incoming(const shared_ptr<maf::srz::IByteStream> &s) { return std::make_shared<ipc::local::IncomingPayload>(s); }
void async_observer(const std::shared_ptr<Processor> &p) { asyncServiceStatusObserver(p); }
