// stand-ins for the parties that clients and servers connect (declared only: they obey contracts)
#include "maf/messaging/client-server/ClientBase.h"
#include "maf/messaging/client-server/ServerBase.h"
#include "maf/messaging/client-server/ServiceProvider.h"
#include "maf/messaging/client-server/ServiceRequester.h"
#include "maf/messaging/client-server/ipc/BufferReceiverIF.h"
#include "maf/messaging/client-server/ipc/BufferSenderIF.h"
using namespace maf::messaging;
struct PrMock : ServiceProviderIF {
  ~PrMock() override;
  bool onIncomingMessage(const CSMessagePtr &) override;
  const ServiceID &serviceID() const override;
  Availability availability() const override;
  void startServing() override;
  void stopServing() override;
  void init() override;
  void deinit() override;
  bool registerRequestHandler(const OpID &, RequestHandlerFunction) override;
  bool unregisterRequestHandler(const OpID &) override;
  ActionCallStatus respondToRequest(const CSMessagePtr &) override;
  ActionCallStatus setStatus(const OpID &, const CSPayloadIFPtr &) override;
  CSPayloadIFPtr getStatus(const OpID &) override;
  ActionCallStatus removeProperty(const OpID &, bool) override;
  ActionCallStatus broadcastSignal(const OpID &, const CSPayloadIFPtr &) override;
  maf::signal_slots::Connection registerNotification(const OpID &, CSPayloadProcessCallback) override;
};
PrMock::~PrMock() {}
struct RqMock : ServiceRequesterIF {
  ~RqMock() override;
  bool onIncomingMessage(const CSMessagePtr &) override;
  void onServiceStatusChanged(const ServiceID &, Availability, Availability) override;
  const ServiceID &serviceID() const override;
  void init() override;
  void deinit() override;
  RegID registerStatus(const OpID &, CSPayloadProcessCallback, ActionCallStatus *) override;
  RegID registerSignal(const OpID &, CSPayloadProcessCallback, ActionCallStatus *) override;
  ActionCallStatus unregister(const RegID &) override;
  ActionCallStatus unregisterAll(const OpID &) override;
  RegID sendRequestAsync(const OpID &, const CSPayloadIFPtr &, CSPayloadProcessCallback, ActionCallStatus *) override;
  CSPayloadIFPtr getStatus(const OpID &, ActionCallStatus *, RequestTimeoutMs) override;
  ActionCallStatus getStatus(const OpID &, CSPayloadProcessCallback) override;
  CSPayloadIFPtr sendRequest(const OpID &, const CSPayloadIFPtr &, ActionCallStatus *, RequestTimeoutMs) override;
  void abortRequest(const RegID &, ActionCallStatus *) override;
  Availability serviceStatus() const override;
  void registerServiceStatusObserver(ServiceStatusObserverPtr) override;
  void unregisterServiceStatusObserver(const ServiceStatusObserverPtr &) override;
};
RqMock::~RqMock() {}
// what a transport adds to a server and to a client
struct TServer : ServerBase {
  ~TServer() override;
  bool start() override;
  void stop() override;
  ActionCallStatus sendMessageToClient(const CSMessagePtr &, const Address &) override;
  void notifyServiceStatusToClient(const ServiceID &, Availability, Availability) override;
};
TServer::~TServer() {}
struct TClient : ClientBase {
  ~TClient() override;
  bool start() override;
  void stop() override;
  ActionCallStatus sendMessageToServer(const CSMessagePtr &) override;
};
TClient::~TClient() {}
struct SndMock : ipc::BufferSenderIF {
  ~SndMock() override;
  ActionCallStatus send(const maf::srz::Buffer &, const Address &) override;
  Availability checkReceiverStatus(const Address &) const override;
};
SndMock::~SndMock() {}
struct RcvMock : ipc::BufferReceiverIF {
  ~RcvMock() override;
  bool init(const Address &) override;
  bool start() override;
  void stop() override;
  void deinit() override;
  bool running() const override;
  void setObserver(ipc::BytesComeObserver *) override;
  const Address &address() const override;
};
RcvMock::~RcvMock() {}
void *make_all() {
  static PrMock a; static RqMock b; static TServer c; static TClient d; static SndMock e; static RcvMock f;
  return &a;
}
void run_job(std::function<void()> &f) { f(); }
