// One client and one server per connection type and address (B03): real factories, transports are stand-ins.
#include "dvrun.h"
#include "maf/messaging/client-server/ClientFactory.h"
#include "maf/messaging/client-server/ServerFactory.h"
#include "maf/messaging/client-server/itc/Client.h"
#include "maf/messaging/client-server/itc/Server.h"
#include "maf/messaging/client-server/ipc/LocalIPCClient.h"
#include "maf/messaging/client-server/ipc/LocalIPCServer.h"
#include <maf/messaging/client-server/CSMgmt.h>
#include <maf/messaging/client-server/ServiceProviderIF.h>
#include <maf/messaging/client-server/ServiceRequesterIF.h>
#include <maf/messaging/client-server/itc/ConnectionType.h>
#include <maf/messaging/client-server/ipc/local/ConnectionType.h>
#include <map>
#include <memory>
#include <random>
#include <thread>
using namespace maf::messaging;
namespace {
struct Life {
  std::string kind, log;
  Address addr;
  int inits = 0;
};
std::vector<std::shared_ptr<Life>> clients, servers;
std::mutex gm;
std::string refuse;
bool doInit(Life &l, const Address &a) {
  l.log += 'i'; l.addr = a; ++l.inits;
  return a.get_name() != refuse;
}
struct FakeClient : ClientIF {
  std::shared_ptr<Life> l = std::make_shared<Life>();
  bool onIncomingMessage(const CSMessagePtr &) override { return false; }
  void onServiceStatusChanged(const ServiceID &, Availability, Availability) override {}
  void onServerStatusChanged(Availability, Availability) noexcept override {}
  ActionCallStatus sendMessageToServer(const CSMessagePtr &) override { return ActionCallStatus::Success; }
  bool hasServiceRequester(const ServiceID &) override { return false; }
  ServiceRequesterIFPtr getServiceRequester(const ServiceID &s) override {
    return ServiceRequesterIFPtr(std::shared_ptr<int>(), reinterpret_cast<ServiceRequesterIF *>(l.get() + s.size() * 0));
  }
  Availability getServiceStatus(const ServiceID &) override { return Availability::Unknown; }
  bool init(const Address &a) override { return doInit(*l, a); }
  bool start() override { l->log += 's'; return true; }
  void stop() override { l->log += 't'; }
  void deinit() override { l->log += 'd'; }
};
struct FakeServer : ServerIF {
  std::shared_ptr<Life> l = std::make_shared<Life>();
  bool onIncomingMessage(const CSMessagePtr &) override { return false; }
  void onServiceStatusChanged(const ServiceID &, Availability, Availability) override {}
  ActionCallStatus sendMessageToClient(const CSMessagePtr &, const Address &) override { return ActionCallStatus::Success; }
  bool hasServiceProvider(const ServiceID &) override { return false; }
  ServiceProviderIFPtr getServiceProvider(const ServiceID &) override {
    return ServiceProviderIFPtr(std::shared_ptr<int>(), reinterpret_cast<ServiceProviderIF *>(l.get()));
  }
  bool init(const Address &a) override { return doInit(*l, a); }
  bool start() override { l->log += 's'; return true; }
  void stop() override { l->log += 't'; }
  void deinit() override { l->log += 'd'; }
};
template <class T, class V> auto mk(const char *kind, V &v) {
  auto p = std::make_shared<T>();
  p->l->kind = kind;
  std::lock_guard g(gm);
  v.push_back(p->l);
  return p;
}
}  // namespace
namespace maf { namespace messaging {
namespace itc {
std::shared_ptr<ClientIF> makeClient() { return mk<FakeClient>("itc", clients); }
std::shared_ptr<ServerIF> makeServer() { return mk<FakeServer>("itc", servers); }
}
namespace ipc { namespace local {
std::shared_ptr<ClientIF> makeClient() { return mk<FakeClient>("ipc", clients); }
std::shared_ptr<ServerIF> makeServer() { return mk<FakeServer>("ipc", servers); }
} }
} }
struct Cl {
  ClientFactory f;
  auto get(const ConnectionType &c, const Address &a) { return f.getClient(c, a); }
  static Life &life(const std::shared_ptr<ClientIF> &p) { return *static_cast<FakeClient *>(p.get())->l; }
  static auto &all() { return clients; }
};
struct Sv {
  ServerFactory f;
  auto get(const ConnectionType &c, const Address &a) { return f.getServer(c, a); }
  static Life &life(const std::shared_ptr<ServerIF> &p) { return *static_cast<FakeServer *>(p.get())->l; }
  static auto &all() { return servers; }
};
static const std::string types[] = {itc::connection_type, ipc::local::connection_type, "no.such.type"};
template <class F> static int history(unsigned seed) {
  std::mt19937 r(seed);
  F::all().clear();
  refuse = "n3";
  {
    F f;
    std::map<std::pair<int, std::pair<int, int>>, decltype(f.get("", {}))> open;
    for (int k = 0; k < 30; ++k) {
      if (r() % 10 == 0) {
        f.f.close();
        for (auto &e : open) CHECK(F::life(e.second).log == "istd");
        open.clear();
        continue;
      }
      int t = r() % 3, n = r() % 4, p = r() % 2;
      size_t before = F::all().size();
      auto c = f.get(types[t], Address("n" + std::to_string(n), p));
      auto key = std::make_pair(t, std::make_pair(n, p));
      auto it = open.find(key);
      if (it != open.end()) { CHECK(c == it->second && F::all().size() == before && F::life(c).log == "is"); continue; }
      if (t == 2) { CHECK(!c && F::all().size() == before); continue; }
      CHECK(F::all().size() == before + 1);
      auto &l = *F::all().back();
      CHECK(l.kind == (t ? "ipc" : "itc") && l.addr == Address("n" + std::to_string(n), p));
      if (n == 3) { CHECK(!c && l.log == "i"); continue; }
      CHECK(c && &F::life(c) == &l && l.log == "is");
      for (auto &e : open) CHECK(e.second != c && F::life(e.second).log == "is");
      open[key] = c;
    }
    F::all().shrink_to_fit();
  }
  for (auto &l : F::all()) CHECK(l->log == "i" || l->log == "istd");
  return 0;
}
template <class F> static int racing(int k) {
  F f;
  F::all().clear();
  refuse = "";
  decltype(f.get("", {})) a, b;
  bool r = dvr::interleave(k, [&] { a = f.get(types[1], Address("x", 1)); }, [&] { b = f.get(types[1], Address("x", 1)); });
  CHECK(a && a == b && F::all().size() == 1 && F::all()[0]->log == "is");
  return r ? 0 : 77;
}
static int ends() {
  refuse = "bad";
  auto a = csmgmt::getServiceRequester(types[1], Address("x", 1), "s");
  auto b = csmgmt::getServiceProvider(types[1], Address("x", 1), "s");
  CHECK(a && b && clients.size() == 1 && servers.size() == 1 && (void *)a.get() == clients[0].get() && (void *)b.get() == servers[0].get());
  CHECK(csmgmt::getServiceRequester(types[1], Address("x", 1), "s") == a && clients.size() == 1);
  CHECK(!csmgmt::getServiceRequester(types[2], Address("x", 1), "s") && !csmgmt::getServiceProvider(types[2], Address("x", 1), "s"));
  CHECK(!csmgmt::getServiceRequester(types[1], Address("bad", 1), "s") && !csmgmt::getServiceProvider(types[1], Address("bad", 1), "s"));
  csmgmt::shutdownAllClients();
  CHECK(clients[0]->log == "istd" && servers[0]->log == "is");
  csmgmt::getServiceRequester(types[1], Address("x", 1), "s");
  CHECK(clients.back()->log == "is");
  csmgmt::shutdownAllServers();
  CHECK(servers[0]->log == "istd" && clients.back()->log == "is");
  csmgmt::shutdownAll();
  CHECK(clients.back()->log == "istd" && servers[0]->log == "istd");
  return 0;
}
int main() {
  dvr::scenario("clients", [] { for (unsigned i = 0; i < 200; ++i) if (int r = history<Cl>(i)) { fprintf(stderr, "seed %u\n", i); return r; } return 0; });
  dvr::scenario("servers", [] { for (unsigned i = 0; i < 200; ++i) if (int r = history<Sv>(i)) { fprintf(stderr, "seed %u\n", i); return r; } return 0; });
  dvr::scenario("requesters and providers", ends);
  dvr::two_threads("two ask for one client", racing<Cl>);
  dvr::two_threads("two ask for one server", racing<Sv>);
  return SCHED_MAIN_RESULT();
}
