#include <maf/messaging/client-server/Address.h>
#include <maf/messaging/client-server/RegID.h>
#include <maf/utils/IDManager.h>
using maf::messaging::Address;
using maf::messaging::RegID;
// lemmas over the contracts of the comparison operators: each must return true for all arguments
#define ORDER(P, T)                                                                             \
  bool P##_irreflexive(const T &a) { return !(a < a); }                                        \
  bool P##_asymmetric(const T &a, const T &b) { return !((a < b) && (b < a)); }                \
  bool P##_transitive(const T &a, const T &b, const T &c) { return !((a < b) && (b < c)) || (a < c); } \
  bool P##_total(const T &a, const T &b) { return (a < b) || (b < a) || (a == b); }            \
  bool P##_consistent(const T &a, const T &b) { return !((a == b) && ((a < b) || (b < a))); }   \
  bool P##_noteq(const T &a, const T &b) { return (a == b) != (a != b); }
ORDER(addr, Address)
ORDER(reg, RegID)
bool addr_eq_parts(const Address &a, const Address &b) { return (a == b) == (a.get_name() == b.get_name() && a.get_port() == b.get_port()); }
bool addr_ctor(const std::string &n, unsigned short p) { Address a(n, p); return a.get_name() == n && a.get_port() == p; }
bool addr_copy(const Address &a) { Address b(a); return b == a && b.get_name() == a.get_name() && b.get_port() == a.get_port(); }
bool addr_invalid() { Address a; return !a.valid(); }
bool addr_valid(const std::string &n, unsigned short p) { Address a(n, p); return a.valid() == (p != 65535 || !n.empty()); }
bool reg_eq_parts(const RegID &a, const RegID &b) { return (a == b) == (a.requestID == b.requestID && a.opID == b.opID); }
bool reg_copy(const RegID &a) { RegID b(a); RegID c; c = a; return b == a && c == a; }
bool reg_move(RegID &a) { RegID k(a); RegID b(std::move(a)); RegID c; c = std::move(b); return c == k && !a.valid() && !b.valid(); }
bool reg_massign(RegID &a, RegID &c) { RegID k(a); c = std::move(a); return c == k && (&a == &c || !a.valid()); }
bool reg_cassign(const RegID &a, RegID &c) { RegID k(a); c = a; return c == k && a == k; }
bool addr_cassign(const Address &a, Address &c) { Address k(a); c = a; return c == k && a == k; }
bool addr_massign(Address &a, Address &c) { Address k(a); c = std::move(a); return c == k; }
bool addr_setters(Address &a, const std::string &n, unsigned short p) { a.get_name() = n; a.get_port() = p; return a.get_name() == n && a.get_port() == p; }
bool reg_self(RegID &a) { RegID k(a); RegID &r = a; a = std::move(r); return a == k; }
bool reg_invalid(RegID &a) { RegID n; bool x = !n.valid(); a.clear(); return x && !a.valid(); }
template class maf::util::details::IDManager<uint64_t>;
template class maf::util::details::IDManager<uint32_t>;
template class maf::util::details::IDManager<uint16_t>;
