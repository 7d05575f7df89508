// stand-ins for clients and servers (declared only: they obey contracts)
#include "maf/messaging/client-server/ClientIF.h"
#include "maf/messaging/client-server/ServerIF.h"
#include "maf/messaging/client-server/ServiceProviderIF.h"
#include "maf/messaging/client-server/ServiceRequesterIF.h"
using namespace maf::messaging;
struct ClMock : ClientIF {
  ~ClMock() override;
  bool onIncomingMessage(const CSMessagePtr &) override;
  void onServiceStatusChanged(const ServiceID &, Availability, Availability) override;
  void onServerStatusChanged(Availability, Availability) noexcept override;
  ActionCallStatus sendMessageToServer(const CSMessagePtr &) override;
  bool hasServiceRequester(const ServiceID &) override;
  ServiceRequesterIFPtr getServiceRequester(const ServiceID &) override;
  Availability getServiceStatus(const ServiceID &) override;
  bool init(const Address &) override;
  bool start() override;
  void stop() override;
  void deinit() override;
};
ClMock::~ClMock() {}
struct SvMock : ServerIF {
  ~SvMock() override;
  bool onIncomingMessage(const CSMessagePtr &) override;
  void onServiceStatusChanged(const ServiceID &, Availability, Availability) override;
  bool hasServiceProvider(const ServiceID &) override;
  ServiceProviderIFPtr getServiceProvider(const ServiceID &) override;
  ActionCallStatus sendMessageToClient(const CSMessagePtr &, const Address &) override;
  bool init(const Address &) override;
  bool start() override;
  void stop() override;
  void deinit() override;
};
SvMock::~SvMock() {}
void *make_all() {
  static ClMock c; static SvMock d;
  return &c + (long)&d;
}
