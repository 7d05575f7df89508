// instantiates waiting for a service status; no library code here
#include <maf/ITCProxy.h>
#include <maf/LocalIPCProxy.h>
#include <maf/messaging/client-server/ServiceStatusSignal.h>
using namespace maf::messaging;
template ServiceStatusSignal::WaitStatus ServiceStatusSignal::waitIfNot<>(Availability, std::chrono::duration<std::int64_t, std::milli>);
template ServiceStatusSignal::WaitStatus ServiceStatusSignal::waitIfNot<>(Availability, std::chrono::duration<std::int64_t>);
template ServiceStatusSignal::WaitStatus ServiceStatusSignal::waitIfNot<>(Availability, std::chrono::duration<std::int64_t, std::nano>);
ServiceStatusSignal::WaitStatus use(ServiceStatusSignal &s, Availability a, long long ms) {
  return ms ? s.waitIfNot(a, ms) : s.waitIfNot(a);
}
void use2(ServiceStatusSignal &s, const ServiceID &i, Availability a) { s.stop(); s.onServiceStatusChanged(i, a, a); s.currentStatus(); }
bool use3(const ServiceStatusSignal::WaitStatus &w) { return w.isReady() || w.isTimeout() || w.isInterrupted(); }
std::shared_ptr<ServiceStatusSignal> use4() { return serviceStatusSignal(); }
template <class P> std::shared_ptr<ServiceStatusSignal> use5(const std::shared_ptr<P> &p) {
  return serviceStatusSignal(p);
}
template std::shared_ptr<ServiceStatusSignal> use5(const std::shared_ptr<BasicProxy<itc::ParamTrait>> &);
template std::shared_ptr<ServiceStatusSignal> use5(const std::shared_ptr<BasicProxy<ipc::local::ParamTrait>> &);
