// stand-ins for the parties a service talks to (declared only: they obey contracts)
#include "maf/messaging/client-server/Request.h"
#include "maf/messaging/client-server/ServiceProvider.h"
#include "maf/messaging/client-server/ServiceRequester.h"
#include <maf/messaging/client-server/ClientIF.h>
#include <maf/messaging/client-server/ServerIF.h>
using namespace maf::messaging;
struct SvMock : ServerIF {
  ~SvMock() override;
  bool onIncomingMessage(const CSMessagePtr &) override;
  void onServiceStatusChanged(const ServiceID &, Availability, Availability) override;
  ActionCallStatus sendMessageToClient(const CSMessagePtr &, const Address &) override;
  ServiceProviderIFPtr getServiceProvider(const ServiceID &) override;
  bool hasServiceProvider(const ServiceID &) override;
  bool init(const Address &) override;
  bool start() override;
  void stop() override;
  void deinit() override;
};
SvMock::~SvMock() {}
struct ClMock : ClientIF {
  ~ClMock() override;
  bool onIncomingMessage(const CSMessagePtr &) override;
  void onServiceStatusChanged(const ServiceID &, Availability, Availability) override;
  void onServerStatusChanged(Availability, Availability) noexcept override;
  ActionCallStatus sendMessageToServer(const CSMessagePtr &) override;
  bool hasServiceRequester(const ServiceID &) override;
  ServiceRequesterIFPtr getServiceRequester(const ServiceID &) override;
  Availability getServiceStatus(const ServiceID &) override;
  bool init(const Address &) override;
  bool start() override;
  void stop() override;
  void deinit() override;
};
ClMock::~ClMock() {}
struct PlMock : CSMsgPayloadIF {
  ~PlMock() override;
  CSPayloadType type() const override;
  bool equal(const CSMsgPayloadIF *) const override;
  CSMsgPayloadIF *clone() const override;
  void dump(std::ostream &) const override;
};
PlMock::~PlMock() {}
struct ObMock : ServiceStatusObserverIF {
  ~ObMock() override;
  void onServiceStatusChanged(const ServiceID &, Availability, Availability) override;
};
ObMock::~ObMock() {}
struct PrMock : ServiceProviderIF {
  ~PrMock() override;
  bool onIncomingMessage(const CSMessagePtr &) override;
  const ServiceID &serviceID() const override;
  Availability availability() const override;
  void startServing() override;
  void stopServing() override;
  void init() override;
  void deinit() override;
  bool registerRequestHandler(const OpID &, RequestHandlerFunction) override;
  bool unregisterRequestHandler(const OpID &) override;
  ActionCallStatus respondToRequest(const CSMessagePtr &) override;
  ActionCallStatus setStatus(const OpID &, const CSPayloadIFPtr &) override;
  CSPayloadIFPtr getStatus(const OpID &) override;
  ActionCallStatus removeProperty(const OpID &, bool) override;
  ActionCallStatus broadcastSignal(const OpID &, const CSPayloadIFPtr &) override;
  maf::signal_slots::Connection registerNotification(const OpID &, CSPayloadProcessCallback) override;
};
PrMock::~PrMock() {}
void *make_all() {
  static SvMock a; static ClMock b; static PlMock c; static ObMock d; static PrMock e;
  return &a;
}
