// real-code runs for key types and id generation
#include <maf/messaging/client-server/Address.h>
#include <maf/messaging/client-server/RegID.h>
#include <maf/utils/IDManager.h>
#include <algorithm>
#include <map>
#include <set>
#include "dvrun.h"
using maf::messaging::Address;
using maf::messaging::RegID;
static RegID reg(uint64_t r, std::string o) { RegID x; x.requestID = static_cast<RegID::RequestIDType>(r); x.opID = o; return x; }
template <class T> int laws(const std::vector<T> &v, const std::vector<std::pair<std::string, uint64_t>> &parts) {
  for (size_t i = 0; i < v.size(); ++i) {
    CHECK(!(v[i] < v[i]));
    for (size_t j = 0; j < v.size(); ++j) {
      bool same = parts[i] == parts[j];
      CHECK((v[i] == v[j]) == same);
      CHECK((v[i] != v[j]) == !same);
      CHECK(!(v[i] < v[j] && v[j] < v[i]));
      CHECK((v[i] < v[j] || v[j] < v[i]) == !same);
      for (size_t k = 0; k < v.size(); ++k) CHECK(!(v[i] < v[j] && v[j] < v[k]) || v[i] < v[k]);
    }
  }
  std::vector<size_t> order(v.size());
  for (size_t i = 0; i < order.size(); ++i) order[i] = i;
  for (int r = 0; r < 50; ++r) {
    std::set<T> s;
    std::map<T, size_t> m;
    for (auto i : order) { s.insert(v[i]); m[v[i]] = i; }
    CHECK(s.size() == v.size() && m.size() == v.size());
    for (auto i : order) CHECK(s.count(v[i]) && m[v[i]] == i);
    std::next_permutation(order.begin(), order.end());
    std::random_shuffle(order.begin(), order.end());
  }
  return 0;
}
static std::vector<std::string> names = {"", "a", "b", "ab", "localhost", std::string(40, 'x')};
static std::vector<uint64_t> nums = {0, 1, 2, 80, 0x7fff, 0x8000, 0xfffe, 0xffff};
static int addresses() {
  std::vector<Address> v; std::vector<std::pair<std::string, uint64_t>> p;
  for (auto &n : names) for (auto x : nums) {
    Address a(n, x);
    CHECK(a.get_name() == n && a.get_port() == x);
    CHECK(a.valid() == (x != 0xffff || n != ""));
    Address b(a), c; c = b; CHECK(b == a && c == a && c.get_name() == n && c.get_port() == x);
    Address d(std::move(b)); CHECK(d == a);
    v.push_back(a); p.push_back({n, x});
  }
  CHECK(!Address{}.valid());
  return laws(v, p);
}
static int regids() {
  std::vector<RegID> v; std::vector<std::pair<std::string, uint64_t>> p;
  for (auto &n : names) for (auto x : nums) {
    auto r = reg(x, n);
    RegID b(r), c; c = b; CHECK(b == r && c == r);
    RegID m(std::move(b)); CHECK(m == r && !b.valid());
    RegID &self = m; m = std::move(self); CHECK(m == r);
    c = std::move(m); CHECK(c == r && !m.valid());
    c.clear(); CHECK(!c.valid());
    v.push_back(r); p.push_back({n, x});
  }
  CHECK(!RegID{}.valid());
  return laws(v, p);
}
template <class T> int ids() {
  maf::util::IDManagerT<T> m;
  std::set<T> seen;
  for (int i = 0; i < 65535; ++i) { auto x = m.allocateNewID(); CHECK(m.isValidID(x)); CHECK(seen.insert(x).second); if (i % 3 == 0) m.reclaimUsedID(x); }
  for (int i = 0; i < 5; ++i) CHECK(m.isValidID(m.allocateNewID()));
  return 0;
}
static int ids_mt() {
  for (int round = 0; round < 5; ++round) {
    maf::util::IDManager m;
    std::vector<std::vector<uint64_t>> got(8);
    std::vector<std::thread> ts;
    std::atomic<bool> go{false};
    for (int t = 0; t < 8; ++t) ts.emplace_back([&, t] { while (!go) {} for (int i = 0; i < 100000; ++i) got[t].push_back(m.allocateNewID()); });
    go = true;
    for (auto &t : ts) t.join();
    std::vector<uint64_t> all;
    for (auto &g : got) all.insert(all.end(), g.begin(), g.end());
    std::sort(all.begin(), all.end());
    CHECK(std::adjacent_find(all.begin(), all.end()) == all.end());
  }
  return 0;
}
int main() {
  dvr::scenario("address order and equality", addresses);
  dvr::scenario("registration id order and equality", regids);
  dvr::scenario("16-bit ids", ids<uint16_t>);
  dvr::scenario("32-bit ids", ids<uint32_t>);
  dvr::scenario("ids from one thread", ids<uint64_t>);
  dvr::scenario("ids from several threads", ids_mt, 60000);
  return SCHED_MAIN_RESULT();
}
